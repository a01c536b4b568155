"""C19: private keys in WIF."""
import hashlib
import base58
import vc
from neocore.KeyPair import KeyPair


def sha2(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


ORDER = 115792089210356248762697446949407573529996955224135760342422259061068512044369


def key():
    k = vc.bytes("private key", 32)
    n = int.from_bytes(k, "big")
    vc.assume(n > 0 and n < ORDER)
    return k


@vc.theorem("C19")
def round_trip():
    k = key()
    p = KeyPair(k)
    w = p.Export()
    vc.check(w == base58.b58encode(b"\x80" + k + b"\x01" + sha2(b"\x80" + k + b"\x01")[:4]).decode("ascii"), "the WIF of a private key")
    vc.check(KeyPair.PrivateKeyFromWIF(w) == k, "importing an exported key returns it")
    vc.check(bytes(p.PrivateKey) == k, "exporting leaves the key alone")
    vc.check(p.Export() == w, "exporting again gives the same text")


@vc.theorem("C19")
def import_any_key():
    k = vc.bytes("private key", 32)
    b = b"\x80" + k + b"\x01"
    w = base58.b58encode(b + sha2(b)[:4])
    vc.check(KeyPair.PrivateKeyFromWIF(w.decode("ascii")) == k, "the key of a WIF text")
    vc.check(KeyPair.PrivateKeyFromWIF(w) == k, "the key of a WIF in bytes")


def malformed(w):
    ok, d = vc.outcome(base58.b58decode, w)
    return not ok or len(d) != 38 or d[0] != 0x80 or d[33] != 1 or d[34:] != sha2(d[:34])[:4]


@vc.theorem("C19")
def any_text():
    w = vc.text("text", None, 0, 52 if not vc.symbolic else None)
    ok, k = vc.outcome(KeyPair.PrivateKeyFromWIF, w)
    if malformed(w):
        vc.check(not ok, "a text which is no WIF is refused")
    elif ok:
        vc.check(k == base58.b58decode(w)[1:33], "the key is that of the text")


@vc.theorem("C19")
def any_bytes():
    d = vc.bytes("decoded", None, 0, 60)
    w = base58.b58encode(d).decode("ascii")
    vc.assume(malformed(w))
    vc.check(vc.raises(KeyPair.PrivateKeyFromWIF, w), "a text of other bytes is refused")


def text_of(b):
    return base58.b58encode(b + sha2(b)[:4]).decode("ascii")


@vc.theorem("C19")
def other_version():
    k = vc.bytes("private key", 32)
    v = vc.int("version", 0, 255)
    m = vc.int("marker", 0, 255)
    vc.assume(v != 0x80 or m != 1)
    vc.check(vc.raises(KeyPair.PrivateKeyFromWIF, text_of(bytes([v]) + k + bytes([m]))), "another version byte or marker is refused")


@vc.theorem("C19")
def other_length():
    b = b"\x80" + vc.bytes("rest", None, 0, 60)
    vc.assume(len(b) != 34)
    vc.check(vc.raises(KeyPair.PrivateKeyFromWIF, text_of(b)), "another length is refused")


@vc.theorem("C19")
def other_checksum():
    b = b"\x80" + vc.bytes("private key", 32) + b"\x01"
    c = vc.bytes("checksum", 4)
    vc.assume(c != sha2(b)[:4])
    vc.check(vc.raises(KeyPair.PrivateKeyFromWIF, base58.b58encode(b + c).decode("ascii")), "another checksum is refused")


@vc.theorem("C19")
def one_wrong_checksum_byte():
    b = b"\x80" + vc.bytes("private key", 32) + b"\x01"
    c = sha2(b)[:4]
    i = vc.choice("place", [0, 1, 2, 3])
    x = vc.int("byte", 0, 255)
    vc.assume(x != c[i])
    w = base58.b58encode(b + c[:i] + bytes([x]) + c[i + 1:]).decode("ascii")
    vc.check(vc.raises(KeyPair.PrivateKeyFromWIF, w), "one wrong checksum byte is refused")
