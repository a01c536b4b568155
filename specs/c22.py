"""C22: signing and verification."""
import hashlib
import bitcoin
import vc
from ecdsa import NIST256p, VerifyingKey
from neocore.Cryptography.Crypto import Crypto, CryptoInstance
from neocore.Cryptography.ECCurve import ECDSA
from specs.keys import key, public, compressed, history, P, ORDER, A, B, GX, GY


def message():
    return vc.bytes("message", None, 0, None if vc.symbolic else 200)


def accepts(raw, sig, m):
    """does the curve arithmetic accept the signature of sha256(m) under the point with these 64 bytes?"""
    ok, r = vc.outcome(lambda: VerifyingKey.from_string(raw, curve=NIST256p, hashfunc=hashlib.sha256).verify(
        sig, m, hashfunc=hashlib.sha256))
    return ok and r


def raw(x, y):
    return x.to_bytes(32, "big") + y.to_bytes(32, "big")


def signed(m, k):
    """the signature of sha256(m) on P-256"""
    bitcoin.change_curve(P, ORDER, A, B, GX, GY)
    v, r, s = bitcoin.ecdsa_raw_sign(hashlib.sha256(m).hexdigest(), k.hex())
    return r.to_bytes(32, "big") + s.to_bytes(32, "big")


def point(x, y):
    return ECDSA.secp256r1().Curve.point(x, y)


def key_forms(x, y):
    f = vc.choice("key form", ["point", "raw", "compressed"])
    if f == "point":
        return point(x, y)
    return raw(x, y) if f == "raw" else compressed(x, y)


@vc.theorem("C22", weight=2)
def sign():
    k = key()
    m = message()
    history()
    sig = Crypto.Sign(m.hex(), k.hex())
    vc.check(bytes(sig) == signed(m, k), "the signature of the SHA-256 of the message on P-256")
    vc.check(len(sig) == 64, "64 bytes")


@vc.theorem("C22")
def sign_default():
    k = key()
    m = message()
    history()
    sig = Crypto.Default().Sign(m.hex(), k.hex())
    vc.check(bytes(sig) == signed(m, k), "the signature of the SHA-256 of the message on P-256")


@vc.theorem("C22")
def sign_same_instance():
    """an instance made before other work in the process"""
    c = Crypto.Default()
    k = key()
    m = message()
    history()
    vc.check(bytes(c.Sign(m.hex(), k.hex())) == signed(m, k), "the signature of the SHA-256 of the message on P-256")


@vc.theorem("C22", weight=3)
def own_signature_verifies():
    k = key()
    m = message()
    sig = Crypto.Sign(m.hex(), k.hex())
    x, y = public(k)
    pub = key_forms(x, y)
    history()
    vc.check(Crypto.VerifySignature(m.hex(), sig, pub) is True, "a signature verifies under its own key and message")


@vc.theorem("C22", weight=2)
def own_signature_default():
    k = key()
    m = message()
    sig = Crypto.Default().Sign(m.hex(), k.hex())
    x, y = public(k)
    vc.check(Crypto.Default().VerifySignature(m.hex(), sig, key_forms(x, y)) is True, "a signature verifies under its own key and message")
    vc.check(Crypto.Default().VerifySignature(m, sig, raw(x, y), unhex=False) is True, "the message as bytes")


@vc.theorem("C22", weight=2)
def verify_exactly():
    """the answer is that of the curve arithmetic on exactly this digest, key and signature"""
    k = key()
    x, y = public(k)
    m = message()
    if vc.symbolic:
        sig = vc.bytes("signature", 64)
    else:
        other = vc.choice("signed", ["this", "another message", "another key", "no signature"])
        sig = {"this": lambda: bytes(Crypto.Sign(m.hex(), k.hex())),
               "another message": lambda: bytes(Crypto.Sign((m + b"x").hex(), k.hex())),
               "another key": lambda: bytes(Crypto.Sign(m.hex(), key("another key").hex())),
               "no signature": lambda: vc.bytes("signature", 64)}[other]()
    pub = key_forms(x, y)
    want = accepts(raw(x, y), sig, m)
    history()
    unhex = vc.bool("hex message")
    got = Crypto.VerifySignature(m.hex() if unhex else m, sig, pub, unhex)
    vc.check(got == want and vc.typename(got) == "bool", "the answer of the curve arithmetic")


@vc.theorem("C22", weight=2)
def verify_text_message():
    k = key()
    x, y = public(k)
    t = vc.text("message", None, 0, None if vc.symbolic else 40)
    ok, m = vc.outcome(t.encode, "utf-8")
    vc.assume(ok)
    if vc.symbolic:
        sig = vc.bytes("signature", 64)
    else:
        sig = bytes(Crypto.Sign((m if vc.bool("this message") else m + b"x").hex(), k.hex()))
    want = accepts(raw(x, y), sig, m)
    vc.check(Crypto.VerifySignature(t, sig, raw(x, y), unhex=False) == want, "a text is verified as its UTF-8 bytes")


@vc.theorem("C22")
def any_point():
    """any two coordinates, also off the curve"""
    x = vc.int("x", 0, P - 1)
    y = vc.int("y", 0, P - 1)
    m = message()
    sig = vc.bytes("signature", 64)
    want = accepts(raw(x, y), sig, m)
    got = Crypto.VerifySignature(m.hex(), sig, point(x, y) if vc.bool("point") else raw(x, y))
    vc.check(got == want, "the answer of the curve arithmetic")


@vc.theorem("C22", weight=2)
def after_another_verification():
    """what was verified before has no part in the answer"""
    k = key()
    x, y = public(k)
    m = message()
    sig = vc.bytes("signature", 64) if vc.symbolic or vc.bool("no signature") else bytes(Crypto.Sign(m.hex(), k.hex()))
    which = vc.choice("verified before", ["the opposite point", "another point", "another signature"])
    if which == "the opposite point":
        vc.outcome(Crypto.VerifySignature, m.hex(), sig, point(x, P - y))
    elif which == "another point":
        vc.outcome(Crypto.VerifySignature, m.hex(), sig, raw(vc.int("x", 0, P - 1), vc.int("y", 0, P - 1)))
    else:
        vc.outcome(Crypto.VerifySignature, vc.bytes("other message", None, 0, 50).hex(), vc.bytes("other signature", 64), point(x, y))
    vc.check(Crypto.VerifySignature(m.hex(), sig, key_forms(x, y)) == accepts(raw(x, y), sig, m), "the answer of the curve arithmetic")


@vc.theorem("C22", weight=2)
def key_used_twice():
    """one and the same key object for two verifications"""
    k = key()
    x, y = public(k)
    m = message()
    sig = vc.bytes("signature", 64) if vc.symbolic or vc.bool("no signature") else bytes(Crypto.Sign(m.hex(), k.hex()))
    pub = key_forms(x, y)
    want = accepts(raw(x, y), sig, m)
    vc.outcome(Crypto.VerifySignature, vc.bytes("other message", None, 0, 50), vc.bytes("other signature", 64), pub, False)
    vc.check(Crypto.VerifySignature(m.hex(), sig, pub) == want, "the second answer is that of the curve arithmetic")
    if vc.typename(pub) == "ECPoint":
        vc.check(pub.x.value == x and pub.y.value == y, "the key is left as it was")


@vc.theorem("C22")
def any_compressed():
    b = vc.bytes("key", 33)
    m = message()
    sig = vc.bytes("signature", 64)
    bitcoin.change_curve(P, ORDER, A, B, GX, GY)
    ok, full = vc.outcome(bitcoin.decompress, b)
    want = ok and accepts(full[1:], sig, m)
    history()
    vc.check(Crypto.VerifySignature(m.hex(), sig, b) == want, "the answer of the curve arithmetic")


@vc.theorem("C22")
def malformed_key():
    b = vc.bytes("key", None, 0, 120)
    vc.assume(len(b) != 64 and (len(b) != 33 or b[0] != 2 and b[0] != 3))
    m = message()
    sig = vc.bytes("signature", 64)
    vc.check(Crypto.VerifySignature(m.hex(), sig, b) is False, "a malformed key gives False")


@vc.theorem("C22", weight=2)
def malformed_signature():
    k = key()
    x, y = public(k)
    m = message()
    sig = vc.bytes("signature", None, 0, 120)
    vc.assume(len(sig) != 64)
    vc.check(Crypto.VerifySignature(m.hex(), sig, key_forms(x, y)) is False, "a malformed signature gives False")


@vc.theorem("C22", weight=2)
def bytes_around_a_signature():
    k = key()
    x, y = public(k)
    m = message()
    sig = vc.bytes("signature", 64) if vc.symbolic else bytes(Crypto.Sign(m.hex(), k.hex()))
    front = vc.bytes("front", None, 0, 40)
    behind = vc.bytes("behind", None, 0, 40)
    vc.assume(len(front) + len(behind) > 0)
    vc.check(Crypto.VerifySignature(m.hex(), front + sig + behind, key_forms(x, y)) is False, "a longer signature gives False")


@vc.theorem("C22")
def bytes_around_a_key():
    k = key()
    x, y = public(k)
    m = message()
    sig = vc.bytes("signature", 64) if vc.symbolic else bytes(Crypto.Sign(m.hex(), k.hex()))
    front = vc.bytes("front", None, 0, 40)
    behind = vc.bytes("behind", None, 0, 40)
    body = vc.choice("key", [raw(x, y), compressed(x, y)])
    vc.assume(len(front) + len(behind) > 0)
    b = front + body + behind
    vc.assume(len(b) != 64 and len(b) != 33)
    vc.check(Crypto.VerifySignature(m.hex(), sig, b) is False, "a longer key gives False")


@vc.theorem("C22")
def key_without_a_byte():
    """a zero byte at an end is part of a key"""
    k = key()
    x, y = public(k)
    m = message()
    sig = vc.bytes("signature", 64) if vc.symbolic else bytes(Crypto.Sign(m.hex(), k.hex()))
    body = vc.choice("key form", [raw(x, y), compressed(x, y)])
    b = vc.choice("cut", [body[1:], body[:-1], body[:32] + body[33:], body[1:-1]])
    vc.check(Crypto.VerifySignature(m.hex(), sig, b) is False, "a shortened key gives False")


@vc.theorem("C22")
def no_key_no_signature():
    m = message()
    vc.check(Crypto.VerifySignature(m.hex(), vc.bytes("signature", 64), None) is False, "no key gives False")
    vc.check(Crypto.VerifySignature(m.hex(), None, vc.bytes("key", 64)) is False, "no signature gives False")
