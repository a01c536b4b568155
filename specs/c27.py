"""C27: base 256 and XOR helpers."""
import vc
from neocore.Cryptography.Helper import base256_encode, xor_bytes


@vc.theorem("C27")
def base256():
    n = vc.int("n", 0)
    w = vc.int("width", 0, None if vc.symbolic else 1000)
    b = base256_encode(n, w) if vc.bool("with width") else base256_encode(n)
    vc.check(vc.typename(b) == "bytearray", "a bytearray")
    vc.check(int.from_bytes(b, "little") == n, "the bytes denote the number")


@vc.theorem("C27")
def base256_width():
    n = vc.int("n", 0)
    w = vc.int("width", 0, None if vc.symbolic else 1000)
    b = base256_encode(n, w)
    vc.check(int.from_bytes(b, "little") == n, "the bytes denote the number")
    vc.check(len(b) >= w, "at least the asked width")
    vc.check(len(b) >= 1, "at least one byte")
    if len(b) > 1 and len(b) > w:
        vc.check(b[-1] != 0, "no more bytes than needed")


@vc.theorem("C27")
def base256_plain():
    n = vc.int("n", 0)
    b = base256_encode(n)
    vc.check(int.from_bytes(b, "little") == n, "the bytes denote the number")
    if n == 0:
        vc.check(b == b"\x00", "zero is one zero byte")
    else:
        vc.check(len(b) >= 1 and b[-1] != 0, "no more bytes than needed")


@vc.theorem("C27")
def base256_negative():
    n = vc.int("n", None, -1)
    ok, e = vc.outcome(base256_encode, n)
    vc.check(not ok and vc.typename(e) == "ValueError", "negative numbers are refused")


@vc.theorem("C27")
def xor():
    a = vc.bytes("a")
    b = vc.bytes("b", len(a))
    c = xor_bytes(a, b)
    vc.check(vc.typename(c) == "bytes", "bytes")
    vc.check(len(c) == len(a), "as long as the operands")
    i = vc.index("i", len(a))
    vc.check(c[i] == a[i] ^ b[i], "each byte is the XOR")


@vc.theorem("C27")
def xor_undone():
    a = vc.bytes("a")
    b = vc.bytes("b", len(a))
    vc.check(xor_bytes(xor_bytes(a, b), b) == a, "XOR twice gives the original")
    vc.check(xor_bytes(b, xor_bytes(b, a)) == a, "XOR twice gives the original, on the other side")


@vc.theorem("C27")
def xor_lengths():
    a = vc.bytes("a")
    b = vc.bytes("b")
    vc.assume(len(a) != len(b))
    vc.check(vc.raises(xor_bytes, a, b), "different lengths are refused")
