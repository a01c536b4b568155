"""C17: hash helpers."""
import binascii
import hashlib
import vc
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto, CryptoInstance


def sha2(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def h160(b):
    return hashlib.new("ripemd160", hashlib.sha256(b).digest()).digest()


def message():
    return vc.bytes("message")


@vc.theorem("C17")
def double_sha256():
    m = message()
    vc.check(Crypto.Hash256(m) == sha2(m), "Hash256 is SHA-256 twice")
    vc.check(Helper.bin_dbl_sha256(m) == sha2(m), "bin_dbl_sha256 is SHA-256 twice")
    vc.check(Helper.double_sha256(m) == sha2(m).hex(), "double_sha256 is the hex text of SHA-256 twice")
    vc.check(Crypto.Default().Hash256(m) == sha2(m), "Hash256 of the instance")
    vc.check(Crypto.Hash256(bytearray(m)) == sha2(m), "Hash256 of a bytearray")


@vc.theorem("C17")
def hash160():
    m = message()
    vc.check(Crypto.Hash160(m) == h160(m).hex(), "Hash160 is the hex text of RIPEMD-160 of SHA-256")
    vc.check(Crypto.Hash160Bytes(m) == h160(m), "Hash160Bytes is RIPEMD-160 of SHA-256")
    vc.check(Helper.bin_hash160(m) == h160(m).hex(), "bin_hash160")
    vc.check(Helper.bin_hash160Bytes(m) == h160(m), "bin_hash160Bytes")
    vc.check(Crypto.Default().Hash160(m) == h160(m), "Hash160 of the instance")
    vc.check(Helper.redeem_to_scripthash(m) == h160(m), "the script hash of a redeem script")


@vc.theorem("C17")
def script_hash():
    m = message()
    u = Crypto.ToScriptHash(m, unhex=False)
    vc.check(vc.typename(u) == "UInt160", "a script hash is a 160 bit number")
    vc.check(bytes(u.ToArray()) == h160(m), "the script hash of raw bytes")
    vc.check(u.ToString() == h160(m)[::-1].hex(), "the text of a script hash is reversed")
    vc.check(u.ToString2() == Crypto.Hash160(m), "both hex forms are of the same bytes")


@vc.theorem("C17")
def script_hash_of_hex():
    m = vc.bytes("message", None, 1)
    u = Crypto.ToScriptHash(binascii.hexlify(m))
    vc.check(bytes(u.ToArray()) == h160(m), "the script hash of hex bytes")
    u = Crypto.ToScriptHash(m.hex())
    vc.check(bytes(u.ToArray()) == h160(m), "the script hash of a hex text")


@vc.theorem("C17")
def script_hash_bad_hex():
    m = vc.bytes("m", None, 2)
    vc.assume(vc.raises(binascii.unhexlify, m))
    vc.check(vc.raises(Crypto.ToScriptHash, m), "bytes which are not hex are refused")


@vc.theorem("C17")
def redeem():
    k = vc.bytes("key", 33)
    r = Helper.pubkey_to_redeem(binascii.hexlify(k))
    vc.check(r == b"\x21" + k + b"\xac", "the redeem script pushes the key and checks the signature")
    vc.check(Helper.pubkey_to_pubhash(binascii.hexlify(k)) == h160(b"\x21" + k + b"\xac"), "the script hash of a key")


@vc.theorem("C17")
def redeem_of_any_length():
    k = vc.bytes("key", None, 0, 300)
    r = Helper.pubkey_to_redeem(binascii.hexlify(k))
    vc.check(r == b"\x21" + k + b"\xac", "the redeem script of bytes of any length")
    vc.check(Helper.redeem_to_scripthash(r) == h160(r), "the script hash of a script")
    vc.check(Helper.pubkey_to_pubhash(binascii.hexlify(k)) == h160(r), "the script hash of bytes of any length")


@vc.theorem("C17")
def single_instance():
    a = Crypto.Default()
    b = Crypto.Default()
    vc.check(a is b, "there is one default instance")


@vc.theorem("C17")
def changed_bytearray():
    """one bytearray is hashed, changed and hashed again"""
    b = bytearray(message())
    other = vc.bytes("changed to")
    Crypto.Hash256(b)
    Crypto.Hash160(b)
    Crypto.Hash160Bytes(b)
    Helper.double_sha256(b)
    Crypto.ToScriptHash(b, unhex=False)
    b[:] = other
    vc.check(Crypto.Hash256(b) == sha2(other), "Hash256 is of the bytes it has now")
    vc.check(Crypto.Hash160(b) == h160(other).hex(), "Hash160 is of the bytes it has now")
    vc.check(Crypto.Hash160Bytes(b) == h160(other), "Hash160Bytes is of the bytes it has now")
    vc.check(Helper.double_sha256(b) == sha2(other).hex(), "double_sha256 is of the bytes it has now")
    vc.check(bytes(Crypto.ToScriptHash(b, unhex=False).ToArray()) == h160(other), "the script hash is of the bytes it has now")
    vc.check(bytes(b) == other, "the bytes are left alone")
