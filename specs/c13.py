"""C13: big integers and their byte arrays."""
import vc
from neocore.BigInteger import BigInteger


def fits(v, n):
    """v fits in n bytes of two's complement"""
    return -(2 ** (8 * n - 1)) <= v < 2 ** (8 * n - 1)


@vc.theorem("C13")
def round_trip():
    v = vc.int("v")
    b = BigInteger(v).ToByteArray()
    vc.check(vc.typename(b) == "bytes", "ToByteArray gives bytes")
    vc.check(len(b) >= 1, "at least one byte")
    vc.check(int.from_bytes(b, "little", signed=True) == v, "the bytes are the number in little-endian two's complement")
    back = BigInteger.FromBytes(b, signed=True)
    vc.check(vc.typename(back) == "BigInteger", "FromBytes gives a big integer")
    vc.check(back == v, "FromBytes gives the number back")


@vc.theorem("C13")
def size_of_positive():
    v = vc.int("v", 0)
    b = BigInteger(v).ToByteArray()
    n = len(b)
    if v == 0:
        vc.check(b == b"\x00", "zero is one byte")
    else:
        vc.check(n == 1 or not fits(v, n - 1), "no byte too many for a number which is not negative")


@vc.theorem("C13")
def size_of_negative():
    v = vc.int("v", None, -1)
    n = len(BigInteger(v).ToByteArray())
    vc.check(n <= 2 or not fits(v, n - 2), "at most one byte more than needed for a negative number")


@vc.theorem("C13")
def round_trip_unsigned():
    v = vc.int("v", 0)
    b = BigInteger(v).ToByteArray(signed=False)
    vc.check(int.from_bytes(b, "little") == v, "the bytes are the number in little-endian order")
    vc.check(v == 0 or v >= 2 ** (8 * (len(b) - 1)), "no byte too many")
    vc.check(BigInteger.FromBytes(b) == v, "FromBytes gives the number back")


@vc.theorem("C13")
def reading():
    b = vc.bytes("b")
    vc.assume(vc.symbolic or len(b) < 2000)
    u = BigInteger.FromBytes(b)
    s = BigInteger.FromBytes(b, signed=True)
    vc.check(vc.typename(u) == "BigInteger" and vc.typename(s) == "BigInteger", "FromBytes gives big integers")
    vc.check(u == int.from_bytes(b, "little"), "FromBytes reads the unsigned number")
    vc.check(s == int.from_bytes(b, "little", signed=True), "FromBytes reads the signed number")
    vc.check(u >= 0, "an unsigned number is not negative")


@vc.theorem("C13")
def reading_bytearray():
    b = vc.bytearray("b", None, 0, 40)
    u = BigInteger.FromBytes(b)
    vc.check(u == int.from_bytes(bytes(b), "little"), "FromBytes reads a bytearray like bytes")
