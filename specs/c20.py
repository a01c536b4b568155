"""C20: encrypted private keys (NEP-2)."""
import hashlib
import unicodedata
import base58
import scrypt
import vc
from Crypto.Cipher import AES
from neocore.KeyPair import KeyPair
from specs.keys import key, public, script_hash, address, sha2, other_curve


def odd(r):
    """a passphrase with something at an end or inside which careless code might drop (only called on the real code)"""
    p = "".join([r.choice("abcXYZ019") for _ in range(r.randrange(1, 12))])
    w = r.choice([" ", "\n", "\t", "\r\n", "\0", "\ufeff", "\xa0", "\u200b", "\u0301", "\u212b", "\ufb01", "A", "\u0130", "\xdf", "\U0001f600"])
    i = r.choice([0, len(p), r.randrange(len(p) + 1)])
    return p[:i] + w + p[i:]


def passphrase(name="passphrase"):
    p = vc.text(name, None, 2, None if vc.symbolic else 40, often=odd)
    vc.assume(not vc.raises(p.encode, "utf-8"))
    return p


def derive(phrase, salt):
    d = scrypt.hash(unicodedata.normalize("NFC", phrase).encode("utf-8"), salt, N=16384, r=8, p=8, buflen=64)
    return d[:32], d[32:]


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


def nep2(k, phrase):
    """the NEP-2 text of a key"""
    x, y = public(k)
    salt = sha2(address(script_hash(x, y)).encode("ascii"))[:4]
    half1, half2 = derive(phrase, salt)
    body = b"\x01\x42\xe0" + salt + AES.new(half2, AES.MODE_ECB).encrypt(xor(k, half1))
    return base58.b58encode(body + sha2(body)[:4]).decode("ascii")


@vc.theorem("C20", weight=2)
def export():
    k = key()
    phrase = passphrase()
    p = KeyPair(k)
    vc.check(p.ExportNEP2(phrase) == nep2(k, phrase), "the NEP-2 text of a key")
    vc.check(bytes(p.PrivateKey) == k, "the key is left alone")


@vc.theorem("C20", weight=2)
def round_trip():
    k = key()
    phrase = passphrase()
    t = KeyPair(k).ExportNEP2(phrase)
    if vc.bool("another curve in between"):
        other_curve()
    vc.check(KeyPair.PrivateKeyFromNEP2(t, phrase) == k, "decrypting gives the key")


@vc.theorem("C20")
def short_passphrase():
    phrase = vc.text("passphrase", None, 0, 1)
    vc.check(vc.raises(KeyPair(key()).ExportNEP2, phrase), "a passphrase of less than two characters is refused")


def decoded(t):
    ok, d = vc.outcome(base58.b58decode, t)
    if not ok or len(d) != 43 or d[:3] != b"\x01\x42\xe0" or d[39:] != sha2(d[:39])[:4]:
        return None
    return d[:39]


@vc.theorem("C20")
def any_text():
    t = vc.text("text")
    phrase = passphrase()
    vc.assume(len(t) != 58 or decoded(t) is None)
    vc.check(vc.raises(KeyPair.PrivateKeyFromNEP2, t, phrase), "a text which is not in the format is refused")


@vc.theorem("C20")
def any_payload():
    b = vc.bytes("payload", None, 0, 60)
    phrase = passphrase()
    vc.assume(len(b) != 39 or b[:3] != b"\x01\x42\xe0")
    t = base58.b58encode(b + sha2(b)[:4]).decode("ascii")
    vc.check(vc.raises(KeyPair.PrivateKeyFromNEP2, t, phrase), "another payload is refused")


@vc.theorem("C20")
def other_header():
    h = vc.bytes("header", 3)
    i = vc.choice("byte", [0, 1, 2])
    x = vc.int("value", 0, 255)
    good = b"\x01\x42\xe0"
    vc.assume(x != good[i])
    b = good[:i] + bytes([x]) + good[i + 1:] + vc.bytes("rest", 36)
    t = base58.b58encode(b + sha2(b)[:4]).decode("ascii")
    vc.check(vc.raises(KeyPair.PrivateKeyFromNEP2, t, passphrase()), "another header is refused")


@vc.theorem("C20")
def other_checksum():
    b = b"\x01\x42\xe0" + vc.bytes("rest", 36)
    c = vc.bytes("checksum", 4)
    vc.assume(c != sha2(b)[:4])
    t = base58.b58encode(b + c).decode("ascii")
    vc.check(vc.raises(KeyPair.PrivateKeyFromNEP2, t, passphrase()), "another checksum is refused")


@vc.theorem("C20", weight=2)
def mismatch():
    """whatever comes out of the decryption is only returned when its address has the hash in the text"""
    salt = vc.bytes("address hash", 4)
    enc = vc.bytes("encrypted", 32)
    phrase = passphrase()
    b = b"\x01\x42\xe0" + salt + enc
    t = base58.b58encode(b + sha2(b)[:4]).decode("ascii")
    half1, half2 = derive(phrase, salt)
    k = xor(AES.new(half2, AES.MODE_ECB).decrypt(enc), half1)
    ok, got = vc.outcome(KeyPair.PrivateKeyFromNEP2, t, phrase)
    if ok:
        vc.check(got == k, "the decrypted key is returned")
        x, y = public(k)
        vc.check(sha2(address(script_hash(x, y)).encode("ascii"))[:4] == salt, "only when its address matches")
    else:
        vc.check(True, "refused")


@vc.theorem("C20", weight=2)
def other_address_hash():
    """a text which decrypts to a key, but carries another address hash in one byte"""
    k = key()
    phrase = passphrase()
    x, y = public(k)
    right = sha2(address(script_hash(x, y)).encode("ascii"))[:4]
    i = vc.choice("byte", [0, 1, 2, 3])
    v = vc.int("value", 0, 255)
    vc.assume(v != right[i])
    salt = right[:i] + bytes([v]) + right[i + 1:]
    half1, half2 = derive(phrase, salt)
    b = b"\x01\x42\xe0" + salt + AES.new(half2, AES.MODE_ECB).encrypt(xor(k, half1))
    t = base58.b58encode(b + sha2(b)[:4]).decode("ascii")
    vc.check(vc.raises(KeyPair.PrivateKeyFromNEP2, t, phrase), "a key whose address has another hash is refused")


@vc.theorem("C20", weight=2)
def another_passphrase():
    k = key()
    phrase = passphrase()
    other = passphrase("other passphrase")
    x, y = public(k)
    salt = sha2(address(script_hash(x, y)).encode("ascii"))[:4]
    t = nep2(k, phrase)
    if unicodedata.normalize("NFC", other) == unicodedata.normalize("NFC", phrase):
        vc.check(KeyPair.PrivateKeyFromNEP2(t, other) == k, "the same passphrase in another normal form is accepted")
        return
    ok, got = vc.outcome(KeyPair.PrivateKeyFromNEP2, t, other)
    if ok:
        x, y = public(got)
        vc.check(sha2(address(script_hash(x, y)).encode("ascii"))[:4] == salt, "a key is only returned when its address matches")
    else:
        vc.check(True, "refused")


@vc.theorem("C20", weight=2)
def other_normal_form():
    k = key()
    phrase = passphrase()
    other = unicodedata.normalize("NFD", phrase)
    vc.assume(len(other) >= 2)
    t = KeyPair(k).ExportNEP2(other)
    vc.check(t == nep2(k, other), "the NEP-2 text of a key")
    vc.check(KeyPair.PrivateKeyFromNEP2(t, other) == k, "decrypting gives the key")
