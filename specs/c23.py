"""C23: encodings of curve points."""
import binascii
import io
import vc
from neocore.Cryptography.ECCurve import ECDSA
from neocore.IO.BinaryReader import BinaryReader
from neocore.IO.BinaryWriter import BinaryWriter
from specs.keys import P, A, B, public, key, compressed

EXP = (P + 1) // 4


def on_curve(x, y):
    return (y * y - x * x * x - A * x - B) % P == 0


def some_point():
    """the coordinates of any finite point of P-256"""
    if not vc.symbolic:
        return public(key())
    x, y = vc.int("x", 0, P - 1), vc.int("y", 0, P - 1)
    vc.assume(on_curve(x, y))
    vc.assume(x != 0 or y != 0)
    return x, y


def prime_facts(x, y):
    """what the decoder stands on: P is prime and 3 mod 4"""
    v = (x * x * x + A * x + B) % P
    z = pow(v, EXP, P)
    vc.lemma("P is a prime 3 mod 4, so v^((P+1)/4) is a square root of a square v", z * z % P == v)
    vc.lemma("P is prime, so two square roots of one number are equal or opposite", z == y or z == P - y or (z == 0 and y == 0))


def curve():
    return ECDSA.secp256r1().Curve


def uncompressed(x, y):
    return b"\x04" + x.to_bytes(32, "big") + y.to_bytes(32, "big")


def is_point(p, x, y, what):
    vc.check(vc.typename(p) == "ECPoint", what + " is a point")
    vc.check(p.x.value == x and p.y.value == y, what + " is the same point")


def coordinates():
    x, y = vc.int("x", 0, P - 1), vc.int("y", 0, P - 1)
    vc.assume(x != 0 or y != 0)
    return x, y


@vc.theorem("C23", ring=True)
def encode_compressed():
    x, y = coordinates()
    p = curve().point(x, y)
    vc.check(bytes(p.encode_point()) == binascii.hexlify(compressed(x, y)), "the compressed form")
    vc.check(bytes(p.encode_point(True)) == binascii.hexlify(compressed(x, y)), "the compressed form by request")
    vc.check(p.Size() == 33, "its size")
    is_point(p, x, y, "the encoded point")


@vc.theorem("C23", ring=True)
def encode_uncompressed():
    x, y = coordinates()
    p = curve().point(x, y)
    vc.check(bytes(p.encode_point(False)) == binascii.hexlify(uncompressed(x, y)), "the uncompressed form")
    vc.check(bytes(p.encode_point(True)) == binascii.hexlify(compressed(x, y)), "the compressed form after it")
    vc.check(bytes(p.encode_point(False)) == binascii.hexlify(uncompressed(x, y)), "the uncompressed form after that")
    s = io.BytesIO()
    p.Serialize(BinaryWriter(s))
    vc.check(s.getvalue() == compressed(x, y), "a point written after it was encoded")


@vc.theorem("C23", ring=True)
def serialize():
    x, y = coordinates()
    before = vc.bytes("before", None, 0, None if vc.symbolic else 40)
    s = io.BytesIO()
    w = BinaryWriter(s)
    s.write(before)
    curve().point(x, y).Serialize(w)
    vc.check(s.getvalue() == before + compressed(x, y), "a written point is its compressed form")
    vc.check(len(compressed(x, y)) == 33, "33 bytes")


@vc.theorem("C23", ring=True)
def serialize_uncompressed():
    x, y = coordinates()
    s = io.BytesIO()
    curve().point(x, y).Serialize(BinaryWriter(s), False)
    vc.check(s.getvalue() == uncompressed(x, y), "a point written uncompressed")


@vc.theorem("C23", ring=True)
def infinity():
    c = curve()
    s = io.BytesIO()
    c.Infinity.Serialize(BinaryWriter(s))
    vc.check(s.getvalue() == b"\x00", "infinity is written as one zero byte")
    vc.check(c.Infinity.Size() == 1, "its size")
    r = io.BytesIO(s.getvalue() + vc.bytes("after", None, 0, None if vc.symbolic else 40))
    p = ECDSA.Deserialize_Secp256r1(BinaryReader(r))
    vc.check(p.IsInfinity and r.tell() == 1, "and read back from one byte")
    vc.check(ECDSA.decode_secp256r1("00").G.IsInfinity, "and decoded")
    vc.check(bytes(c.Infinity.encode_point()) == b"\x00", "and encoded")


@vc.theorem("C23", ring=True, weight=2)
def decode_compressed():
    x, y = some_point()
    prime_facts(x, y)
    e = compressed(x, y)
    form = vc.choice("form", ["hex", "hex bytes", "bytes", "bytearray", "upper"])
    if form == "hex":
        p = ECDSA.decode_secp256r1(e.hex()).G
    elif form == "hex bytes":
        p = ECDSA.decode_secp256r1(binascii.hexlify(e)).G
    elif form == "upper":
        p = curve().decode_from_hex(e.hex())
    elif form == "bytes":
        p = ECDSA.decode_secp256r1(e, unhex=False).G
    else:
        p = ECDSA.decode_secp256r1(bytearray(e), unhex=False, check_on_curve=False).G
    is_point(p, x, y, "the decoded point")
    vc.check(p.isoncurve(), "it is on the curve")


@vc.theorem("C23", ring=True, weight=2)
def decode_encoded():
    """decoding what encode_point gives"""
    x, y = some_point()
    prime_facts(x, y)
    p = curve().point(x, y)
    q = ECDSA.decode_secp256r1(p.encode_point()).G
    is_point(q, x, y, "the decoded point")
    vc.check(q == p, "they are equal")
    q = ECDSA.decode_secp256r1(p.encode_point(False)).G
    is_point(q, x, y, "the point decoded from the uncompressed form")
    vc.check(q == p, "they are equal too")


@vc.theorem("C23", ring=True, weight=2)
def read_from_stream():
    x, y = some_point()
    prime_facts(x, y)
    before = vc.bytes("before", None, 0, None if vc.symbolic else 40)
    after = vc.bytes("after", None, 0, None if vc.symbolic else 40)
    s = io.BytesIO(before + compressed(x, y) + after)
    s.seek(len(before))
    p = ECDSA.Deserialize_Secp256r1(BinaryReader(s))
    is_point(p, x, y, "the point read")
    vc.check(s.tell() == len(before) + 33, "exactly the encoding is consumed")


@vc.theorem("C23", ring=True)
def write_then_read():
    x, y = some_point()
    prime_facts(x, y)
    s = io.BytesIO()
    p = curve().point(x, y)
    p.Serialize(BinaryWriter(s))
    s.seek(0)
    q = curve().decode_from_reader(BinaryReader(s))
    is_point(q, x, y, "the point read back")
    vc.check(s.tell() == len(s.getvalue()), "all is consumed")


@vc.theorem("C23", ring=True)
def from_bytes():
    x, y = some_point()
    prime_facts(x, y)
    raw = x.to_bytes(32, "big") + y.to_bytes(32, "big")
    form = vc.choice("form", [33, 65, 64, 72, 96, 104])
    if form == 33:
        b = compressed(x, y)
    elif form == 65:
        b = b"\x04" + raw
    elif form == 64:
        b = raw
    elif form == 72:
        b = vc.bytes("head", 8) + raw
    elif form == 96:
        b = raw + vc.bytes("tail", 32)
    else:
        b = vc.bytes("head", 8) + raw + vc.bytes("tail", 32)
    is_point(ECDSA.FromBytes_Secp256r1(b).G, x, y, "the point")


@vc.theorem("C23", ring=True)
def off_the_curve():
    x, y = coordinates()
    vc.assume(not on_curve(x, y))
    raw = x.to_bytes(32, "big") + y.to_bytes(32, "big")
    form = vc.choice("form", [0, 64, 65, 72])
    if form == 0:
        vc.check(vc.raises(ECDSA.decode_secp256r1, (b"\x04" + raw).hex()), "refused")
    elif form == 65:
        vc.check(vc.raises(ECDSA.FromBytes_Secp256r1, b"\x04" + raw), "refused")
    elif form == 64:
        vc.check(vc.raises(ECDSA.FromBytes_Secp256r1, raw), "refused")
    else:
        vc.check(vc.raises(ECDSA.FromBytes_Secp256r1, vc.bytes("head", 8) + raw), "refused")


@vc.theorem("C23", ring=True)
def any_compressed_bytes():
    """whatever x is given, the outcome is a point of the curve with that x and parity, or a refusal"""
    b = vc.bytes("b", 32)
    flag = vc.choice("prefix", [2, 3])
    e = bytes([flag]) + b
    how = vc.choice("how", ["hex", "bytes", "stream"])
    if how == "hex":
        ok, r = vc.outcome(lambda: ECDSA.decode_secp256r1(e.hex()).G)
    elif how == "bytes":
        ok, r = vc.outcome(lambda: ECDSA.FromBytes_Secp256r1(e).G)
    else:
        ok, r = vc.outcome(lambda: ECDSA.Deserialize_Secp256r1(BinaryReader(io.BytesIO(e))))
    x = int.from_bytes(b, "big")
    v = (x * x * x + A * x + B) % P
    z = pow(v, EXP, P)
    if z * z % P == v:
        vc.check(ok, "accepted")
        vc.check((r.x.value - x) % P == 0 and on_curve(x, r.y.value), "the point of the curve with this x")
        vc.check(0 <= r.y.value and r.y.value < P, "a canonical y")
        vc.check(r.y.value == 0 or r.y.value % 2 == flag - 2, "of the parity in the prefix")
    else:
        vc.check(not ok, "an x without a point is refused")


def refused(f, *args):
    ok, r = vc.outcome(f, *args)
    return not ok or r is None


@vc.theorem("C23", ring=True)
def other_prefix():
    b = vc.bytes("b", None, 1, None if vc.symbolic else 100)
    vc.assume(b[0] != 2 and b[0] != 3 and b[0] != 4 and (b[0] != 0 or len(b) > 1))
    vc.check(refused(ECDSA.decode_secp256r1, b.hex()), "refused as hex")
    vc.check(refused(ECDSA.decode_secp256r1, b, False), "refused as bytes")
    vc.check(refused(ECDSA.decode_secp256r1, b, False, False), "refused without the curve check")


@vc.theorem("C23", ring=True)
def other_prefix_in_a_stream():
    b = vc.bytes("b", None, 1, None if vc.symbolic else 100)
    vc.assume(b[0] != 2 and b[0] != 3 and b[0] != 0)
    vc.check(vc.raises(ECDSA.Deserialize_Secp256r1, BinaryReader(io.BytesIO(b))), "refused")


@vc.theorem("C23", ring=True)
def other_size():
    b = vc.bytes("b", None, 0, None if vc.symbolic else 110)
    vc.assume(len(b) == 0 or not (b[0] == 0 and len(b) == 1))
    vc.assume(len(b) == 0 or not (b[0] == 4 and len(b) == 65))
    vc.assume(len(b) != 33 or (b[0] != 2 and b[0] != 3))
    vc.check(refused(ECDSA.decode_secp256r1, b.hex()), "refused as hex")
    vc.check(refused(ECDSA.decode_secp256r1, b, False), "refused as bytes")


@vc.theorem("C23", ring=True)
def truncated_stream():
    flag = vc.choice("prefix", [2, 3])
    b = vc.bytes("b", None, 0, 31)
    vc.check(vc.raises(ECDSA.Deserialize_Secp256r1, BinaryReader(io.BytesIO(bytes([flag]) + b))), "refused")


@vc.theorem("C23", ring=True)
def from_bytes_other_size():
    b = vc.bytes("b", None, 0, None if vc.symbolic else 110)
    n = len(b)
    vc.assume(n != 33 and n != 65 and n != 64 and n != 72 and n != 96 and n != 104)
    vc.check(refused(ECDSA.FromBytes_Secp256r1, b), "refused")
