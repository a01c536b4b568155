"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over_text, why, files, mech, over=('inputs',), state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=over_text), why_tests_cant=why,
             anchors=dict(files=['neocore/' + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    P.append(d)


W, R = 'IO/BinaryWriter.py', 'IO/BinaryReader.py'

prop('C01', 'Fixed-width scalars survive a write/read round trip in their stated width',
     'Every value of a fixed-width binary type (signed and unsigned integers of 8, 16, 32 and 64 bits in either byte order, '
     'single bytes, booleans, doubles, 8-decimal fixed-point amounts) that is written is encoded in exactly the width of its '
     'type as its two\'s-complement / IEEE bytes in the requested byte order, and reading those bytes back returns the same '
     'value and consumes exactly that many bytes, whatever precedes or follows it in the stream. '
     'A value outside the type\'s range is refused and adds nothing to the stream.',
     'all values in range and out of range, both byte orders, any stream prefix and suffix',
     'The tests write and read a handful of constants; a wrong format letter, sign or width only shows at range boundaries.',
     [W, R, 'Fixed8.py'],
     [('the Write* / Read* scalar methods', 'neocore/IO/BinaryWriter.py, neocore/IO/BinaryReader.py'),
      ('pack / unpack with a struct format', 'BinaryWriter.pack, BinaryReader.unpack')])
prop('C02', 'Variable-length integers round-trip with the protocol\'s size classes',
     'Writing an unsigned integer v < 2^64 as a variable-length integer gives 1 byte when v < 0xFD, 0xFD plus 2 little-endian '
     'bytes up to 0xFFFF, 0xFE plus 4 up to 0xFFFFFFFF and 0xFF plus 8 above, and reading it back returns v and '
     'consumes exactly those bytes. Negative values and values of 2^64 or more are refused.',
     'every integer, any stream prefix and suffix',
     'Tests sample one value per class; the thresholds and the 8-byte class are the hazard.',
     [W, R], [('WriteVarInt', 'BinaryWriter.WriteVarInt'), ('ReadVarInt', 'BinaryReader.ReadVarInt')])
prop('C03', 'Length-prefixed byte strings and text round-trip',
     'Any byte string written with a variable-length prefix is encoded as the prefix followed by exactly its bytes, and any text '
     'as the prefix of its encoded length followed by its encoded bytes in the requested encoding; reading returns the same bytes '
     'and consumes exactly what was written, whatever follows.',
     'byte strings and texts of every length and content, any stream prefix and suffix',
     'Tests use short ASCII; multi-byte text, 0xFD/0x10000 length boundaries and trailing data are not reached.',
     [W, R], [('WriteVarBytes, WriteVarString', 'BinaryWriter'), ('ReadVarBytes, ReadVarString', 'BinaryReader')])
prop('C04', 'Fixed-length strings are zero-padded to their width and round-trip',
     'Writing a string of at most n encoded bytes to a field of n bytes produces exactly n bytes: the string\'s bytes, then '
     'zeros; reading the n-byte field returns the string\'s bytes without trailing zeros and consumes n bytes. A string '
     'longer than its field is refused.',
     'all strings, all field widths',
     'Tests use one string and one width, and never compare the raw field bytes.',
     [W, R], [('WriteFixedString', 'BinaryWriter.WriteFixedString'), ('ReadFixedString', 'BinaryReader.ReadFixedString')])
prop('C05', 'A truncated stream never yields a fabricated fixed-width value',
     'Reading a fixed-width number, an exact number of bytes, a length-prefixed text, a 160- or 256-bit hash or a public key from a stream that ends before the '
     'value does raises an error (the single-byte reader gives its default zero), and never returns a value built from the '
     'partial bytes.',
     'all stream contents and every truncation point',
     'Tests truncate only one or two readers at one point.',
     [R, 'UIntBase.py', 'Cryptography/ECCurve.py'],
     [('SafeReadBytes length check', 'BinaryReader.SafeReadBytes'), ('unpack', 'BinaryReader.unpack'),
      ('UIntBase.Deserialize', 'UIntBase.Deserialize'), ('decode_from_reader', 'EllipticCurve.decode_from_reader')])
prop('C06', 'Arrays of serialisable items and hash lists round-trip in order',
     'Writing an array of serialisable items or a list of 32-byte hashes emits the element count as a variable-length integer and '
     'then every element once, in order; reading it back yields equal elements in the same order and consumes exactly the '
     'bytes written. The fixed-size 2000-hash block format emits its 2000 raw 32-byte hashes in order.',
     'lists of every length and content, items of arbitrary encoded size',
     'Tests use lists of one to a few items.',
     [W, R], [('WriteSerializableArray, WriteHashes, Write2000256List', 'BinaryWriter'),
              ('ReadSerializableArray, ReadHashes', 'BinaryReader')])
prop('C07', 'Hash values always have exactly 20 or 32 bytes, and serialise to exactly those',
     'A 160-bit value always holds exactly 20 bytes and a 256-bit value exactly 32: data of any other length is refused, and with '
     'no data the value is zero. Serialising writes exactly its bytes, '
     'and reading them back yields an equal value and consumes exactly its width.',
     'every byte string of every length; any stream prefix and suffix',
     'Tests use two or three hash constants.',
     ['UIntBase.py', 'UInt160.py', 'UInt256.py', W, R],
     [('length check in the constructor', 'UIntBase.__init__'), ('Serialize / Deserialize', 'UIntBase'),
      ('ReadUInt160 / ReadUInt256 / WriteUInt160 / WriteUInt256', 'BinaryReader, BinaryWriter')])
prop('C08', 'Hash text form is the reversed hex of its bytes, and parsing inverts it',
     'The text of a 160/256-bit value is the lower-case hexadecimal of its bytes in reverse order, with "0x" in front in the '
     'prefixed form; parsing a text of the right number of hexadecimal digits, with or without "0x", gives the value whose '
     'text is that text in lower case. Text of any other length, or with a non-hexadecimal digit, is refused.',
     'all values and all texts',
     'Tests check a few constants.',
     ['UIntBase.py', 'UInt160.py', 'UInt256.py'],
     [('ToString, ToString2, To0xString', 'UIntBase'), ('ParseString', 'UInt160.ParseString, UInt256.ParseString')])
prop('C09', 'Hash ordering is the numeric order of the little-endian value',
     'Comparing two hash values of the same width orders them as the little-endian integers their bytes denote: a total order in which '
     'equal means equal bytes, <, <=, > and >= agree with the three-way comparison, and comparing with another type or '
     'width is refused.',
     'all pairs of values',
     'Tests compare a few pairs that differ in one byte.',
     ['UIntBase.py'], [('CompareTo and the rich comparisons', 'UIntBase.CompareTo')])
prop('C10', 'Hash equality is equality of bytes, consistent with hash()',
     'Two hash values of the same width are equal exactly when their bytes are; equal values have equal hash(), and a value is never '
     'equal to None or to something that is not a hash value.',
     'all pairs of values and every other kind of object',
     'Tests compare a handful.',
     ['UIntBase.py'], [('__eq__, __hash__', 'UIntBase')])
prop('C11', 'Fixed-point amounts add, subtract, negate, divide and compare exactly',
     'On 8-decimal amounts, addition, subtraction, negation, floor division, remainder, power and products of the raw 10^-8 units are exact '
     'integer operations on those units at every magnitude, division truncates towards zero, and comparison orders amounts by '
     'value. Rounding up or down gives the nearest whole amount in that direction, truncation to an integer drops the '
     'fraction, and no operation changes its operands.',
     'all amounts, including beyond 2^53 units',
     'Tests use small values for which float arithmetic happens to be exact.',
     ['Fixed8.py'], [('arithmetic and comparison operators, Ceil, Floor, ToInt', 'Fixed8')])
prop('C12', 'Decimal text and numbers convert to fixed-point amounts and back exactly',
     'Converting a decimal number or text with at most 8 fractional digits to an amount gives exactly that many 10^-8 units (never '
     'off by one through binary rounding), digits beyond the eighth are truncated towards zero, and text that is not a '
     'number is reported as a failure. '
     'Displaying an amount and parsing the text returns the same amount (for amounts below 10^7 in magnitude), and negative numbers are '
     'refused where only non-negative amounts are asked for.',
     'all decimal texts and all amounts in the displayable range',
     'A multiplication by 10^8 in binary floating point is wrong for a sparse set of inputs no sample finds.',
     ['Fixed8.py'], [('FromDecimal, TryParse, ToString, ToNeoJsonString', 'Fixed8')])
prop('C13', 'Big integers survive the byte-array round trip',
     'The byte form of any big integer is little-endian two\'s complement, reading it back as signed gives the same integer, '
     'and it is one byte for zero and never more than one byte longer than needed. Reading any byte '
     'string as unsigned or signed little-endian gives exactly the number it denotes.',
     'all integers, all byte strings',
     'Tests use a few constants; sign-extension boundaries (127/128, 32767/32768, ...) are unbounded in number.',
     ['BigInteger.py'], [('FromBytes, ToByteArray', 'BigInteger')])
prop('C14', 'Big-integer arithmetic is exact and stays in the type',
     'Sum, difference, product, floor quotient, remainder, negation, absolute value and shifts of big integers equal the exact '
     'mathematical results and are again big integers, also when one operand is a plain integer on the right. '
     'Division or remainder by zero raises an error, and the sign is -1, 0 or 1 accordingly.',
     'all pairs of integers',
     'Tests use small operands; the division operator is a float hazard above 2^53.',
     ['BigInteger.py'], [('operators', 'BigInteger')])
prop('C15', 'The Merkle root is the pairwise double-SHA-256 fold with odd nodes duplicated',
     'For any non-empty list of hashes, the root is the value obtained by repeatedly hashing adjacent pairs with double SHA-256, '
     'pairing an odd last node with itself, until one is left; a single leaf is its own root, and an empty list is refused. '
     'Every leaf stays reachable in order below the root, the reported leaf hashes are exactly the given ones as a set, and computing leaves the input unchanged.',
     'lists of every length with arbitrary hashes',
     'Tests compute roots of a few small trees.',
     ['Cryptography/MerkleTree.py', 'Cryptography/Crypto.py'],
     [('Build / ComputeRoot / ToHashArray', 'MerkleTree')])
prop('C16', 'Trimming a Merkle tree keeps the root and exactly the flagged leaves\' branches',
     'Trimming a tree by a flag per leaf never changes any remaining node\'s hash or the root; a subtree is cut exactly when none of the leaves it '
     'covers is flagged, and every flagged leaf stays reachable.',
     'every tree shape and every flag pattern',
     'Tests check one or two patterns on one tree; the child-index arithmetic is wrong only for some patterns.',
     ['Cryptography/MerkleTree.py'], [('Trim, _TrimNode', 'MerkleTree')])
prop('C17', 'Hash helpers compute SHA-256d and RIPEMD-160(SHA-256) in the documented forms',
     'Hash256 is SHA-256 applied twice, Hash160 is RIPEMD-160 of SHA-256, and the script-hash helpers give the same 20 bytes '
     'in their byte, hex and integer-object forms (reversed where documented), for every message.',
     'all messages',
     'Tests check a few vectors.',
     ['Cryptography/Crypto.py', 'Cryptography/Helper.py'],
     [('Hash160, Hash256, ToScriptHash, bin_hash160, bin_dbl_sha256, hash_to_wallet_address', 'Crypto, Helper')])
prop('C18', 'Addresses encode, validate and decode consistently',
     'The address of a script hash is the Base58Check text of the version byte 0x17 and the 20 bytes; it validates, and '
     'decoding it returns the hash. A text that is not valid Base58 (white space at its end aside), '
     'whose payload has another length or version byte, or whose checksum does not match is never accepted.',
     'all script hashes and all texts',
     'Tests use two addresses and one corruption.',
     ['Cryptography/Crypto.py', 'Cryptography/Helper.py', 'bin/cli.py'],
     [('ToAddress, scripthash_to_address, isValidPublicAddress, address_to_scripthash', 'Crypto, Helper, cli')])
prop('C19', 'Private keys round-trip through WIF, and malformed WIFs are refused',
     'Exporting any 32-byte private key to WIF and importing it returns the same key; a WIF whose decoded length, version byte, '
     'compression marker or checksum is wrong raises an error and never yields a key.',
     'all keys and all texts',
     'Tests use one key and a few malformed strings.',
     ['KeyPair.py'], [('Export, PrivateKeyFromWIF', 'KeyPair')])
prop('C20', 'NEP-2 keys decrypt with the right passphrase only',
     'Encrypting a private key under a passphrase and decrypting the result with the same passphrase returns the same key. '
     'A text with the wrong length, decoded size or header, or one whose decrypted key does not match its address '
     'hash, raises an error and never yields a key.',
     'all keys, passphrases and texts',
     'Each test costs a scrypt run; only one or two vectors are tried.',
     ['KeyPair.py'], [('ExportNEP2, PrivateKeyFromNEP2', 'KeyPair')])
prop('C21', 'A key pair derives its public key and address from the private key alone',
     'A key pair built from a 32-byte private key has as public key the key times the P-256 generator (one built from a 96- or '
     '104-byte blob takes the point and the private key from its last 96 bytes), and as address that of the single-key '
     'verification script of the compressed public key; other lengths are refused. Two key pairs of the same key agree, whatever was created before.',
     'all private keys, all lengths, any order of constructions',
     'Tests use one or two keys.',
     ['KeyPair.py', 'Cryptography/Crypto.py'], [('KeyPair.__init__, setup_curve, GetAddress', 'KeyPair')],
     over=('inputs', 'histories'))
prop('C22', 'Signatures verify under their own key and message, whatever ran before',
     'Signing a message returns a 64-byte signature over the SHA-256 of the message on the P-256 curve, and verification hands '
     'exactly that digest, key and signature to the curve arithmetic: a signature made under a key verifies under that key, and a '
     'malformed key or signature gives False. The answers do not depend on what '
     'other curves or keys were used before in the process.',
     'all messages, keys and signatures; any history of curve setup',
     'The underlying library holds its curve in global state, so the failure needs a particular call order.',
     ['Cryptography/Crypto.py'], [('Sign, VerifySignature, SetupSignatureCurve', 'Crypto')],
     over=('inputs', 'histories'))
prop('C23', 'Curve points encode and decode as the same point',
     'Encoding a finite curve point in compressed form gives 33 bytes (02/03 by the parity of y, then x big-endian), and decoding those '
     'bytes gives the same point; decoding uncompressed and raw forms gives the stated coordinates, and from a stream '
     'it consumes exactly the bytes of the encoding. An encoding with another prefix or '
     'size, or whose x has no point on the curve, is refused.',
     'all points of the curve and all byte strings',
     'Tests decode a few known keys.',
     ['Cryptography/ECCurve.py'],
     [('encode_point, decode_from_hex, decode_from_reader, FromBytes, ECDSA.decode_secp256r1', 'ECPoint, EllipticCurve')])
prop('C24', 'Prime-field elements obey field arithmetic',
     'Addition, subtraction, multiplication, negation, division and powers of field elements give the canonical residue '
     'of the exact result modulo p, with a plain integer on either side; inversion satisfies x * x^-1 = 1 for every non-zero x, and '
     'the square root of an element that has one squares to it and has the parity asked for (primes p = 1 mod 8 are refused).',
     'all field elements and integers; all moduli, prime ones for inversion, division and roots',
     'Tests exercise a few constants; boundaries such as -0 and p-1 are the hazard.',
     ['Cryptography/ECCurve.py'], [('FiniteField and FiniteField.Value operators, GCD, modinv, sqrt, sqrtCQ', 'FiniteField')])
prop('C25', 'Elliptic-curve point operations stay on the curve and follow the group law',
     'Adding, doubling, negating and subtracting points gives points on the curve by the chord-and-tangent rule, with the point at infinity as identity, '
     'and multiplying by a non-negative integer n equals adding the point n times. '
     'ECDSA signatures made with these operations verify, verification accepts exactly the pairs that satisfy its equation, and two signatures made with one secret give that secret and the key (crack2). '
     'The standard curves have their published parameters and order.',
     'all points and non-negative scalars, all curves over prime fields p > 3 with b not 0',
     'Tests multiply the generator by one or two scalars.',
     ['Cryptography/ECCurve.py'], [('EllipticCurve.add, double, mul; Point operators', 'ECCurve')])
prop('C26', 'Public keys are ordered by x, then y',
     'Comparing two public-key points orders them by x and then by y: a strict total order on finite points in which exactly one of <, =, > '
     'holds, the relational operators agree with each other, and sorting is deterministic.',
     'all pairs of points, including equal x with opposite y',
     'Tests compare no pair with equal x.',
     ['Cryptography/ECCurve.py'], [('__lt__, __gt__, __le__, __ge__, __eq__', 'ECPoint')])
prop('C27', 'Integer-to-bytes and XOR helpers are exact',
     'Encoding a non-negative integer in base 256 with a minimum width gives little-endian bytes that denote it, with no more '
     'bytes than needed beyond that width; XOR of two equally long byte strings is bytewise and is undone by repeating it, '
     'and different lengths are refused.',
     'all integers, widths and byte strings',
     'Tests use a couple of constants.',
     ['Cryptography/Helper.py'], [('base256_encode, xor_bytes', 'Helper')])
prop('C28', 'Command-line conversions agree with the library and refuse bad input',
     'Each command-line conversion between an address and a script hash prints the result of the '
     'corresponding library conversion, and for an invalid address reports an error instead of printing a '
     'script hash; creating a wallet prints a WIF and the address that belong together.',
     'all command-line arguments',
     'Tests run each command with one or two arguments.',
     ['bin/cli.py'], [('address_to_scripthash, scripthash_to_address, create_wallet, main', 'neocore/bin/cli.py')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
