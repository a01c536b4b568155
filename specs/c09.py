"""C09: 160 and 256 bit numbers are ordered by value."""
import io
import vc
import specs.io_contracts
from specs.near import near
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256
from neocore.UIntBase import UIntBase

CLASSES = [(UInt160, 20), (UInt256, 32)]


def pair():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    b = vc.bytes("b", size, often=near(a))
    return cls(data=a), cls(data=b), int.from_bytes(a, "little"), int.from_bytes(b, "little")


@vc.theorem("C09")
def compare():
    u, v, x, y = pair()
    c = u.CompareTo(v)
    vc.check((c > 0) == (x > y), "CompareTo is positive exactly for the greater number")
    vc.check((c < 0) == (x < y), "CompareTo is negative exactly for the smaller number")
    vc.check((c == 0) == (x == y), "CompareTo is zero exactly for equal numbers")
    vc.check(c == 1 or c == 0 or c == -1, "CompareTo is -1, 0 or 1")


@vc.theorem("C09")
def operators():
    u, v, x, y = pair()
    vc.check((u < v) == (x < y), "<")
    vc.check((u > v) == (x > y), ">")
    vc.check((u <= v) == (x <= y), "<=")
    vc.check((u >= v) == (x >= y), ">=")


@vc.theorem("C09")
def widths():
    a = vc.bytes("a", 20)
    b = vc.bytes("b", 32)
    u, v = UInt160(data=a), UInt256(data=b)
    if vc.choice("order", [0, 1]) == 1:
        u, v = v, u
    vc.check(vc.raises(u.CompareTo, v), "numbers of different width are not compared")
    vc.check(vc.raises(lambda: u < v), "< refuses different widths")
    vc.check(vc.raises(lambda: u > v), "> refuses different widths")
    vc.check(vc.raises(lambda: u <= v), "<= refuses different widths")
    vc.check(vc.raises(lambda: u >= v), ">= refuses different widths")


class Looks:
    """looks like a number of the right width, and is none"""
    def __init__(self, data):
        self.Data = data
        self.Size = len(data)

    def ToArray(self):
        return self.Data

    def __len__(self):
        return len(self.Data)

    def __getitem__(self, i):
        return self.Data[i]


@vc.theorem("C09")
def looks_like_a_number():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    b = vc.bytes("b", size, often=near(a))
    x = vc.choice("other", [bytes, bytearray, list, Looks])(b)
    u = cls(data=a)
    vc.check(vc.raises(u.CompareTo, x), "bytes of the same width are not compared")
    vc.check(vc.raises(lambda: u < x) and vc.raises(lambda: u >= x), "nor by the operators")


@vc.theorem("C09")
def foreign():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    x = vc.choice("other", ["abc", b"abc", 7, None, 1.5, [1], object()])
    vc.check(vc.raises(cls(data=a).CompareTo, x), "values of other types are not compared")


@vc.theorem("C09")
def widths_of_the_base_class():
    """the class says nothing about the width here: one and the same class, two widths"""
    m, n = vc.choice("widths", [(1, 2), (2, 1), (20, 32), (32, 20), (31, 32), (32, 31)])
    u, v = UIntBase(m, vc.bytes("a", m)), UIntBase(n, vc.bytes("b", n))
    vc.check(vc.raises(u.CompareTo, v), "numbers of different width are not compared")


@vc.theorem("C09")
def read_again():
    """compared, read from a stream, compared again"""
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    u, v, x = cls(data=a), cls(data=a), int.from_bytes(a, "little")
    vc.check(u.CompareTo(v) == 0 and u <= v and not u < v, "equal numbers")
    b = vc.bytes("b", size, often=near(a))
    v.Deserialize(BinaryReader(io.BytesIO(b)))
    z = int.from_bytes(b, "little")
    c = u.CompareTo(v)
    vc.check((c > 0) == (x > z) and (c < 0) == (x < z), "the order of the new numbers")
    vc.check((u < v) == (x < z) and (v <= u) == (z <= x), "the operators agree")
