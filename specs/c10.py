"""C10: equality and hashing of 160 and 256 bit numbers."""
import io
import vc
import specs.io_contracts
from specs.near import near
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

CLASSES = [(UInt160, 20), (UInt256, 32)]


def build(cls, size, data, how):
    if how == "bytes":
        return cls(data=data)
    if how == "bytearray":
        return cls(data=bytearray(data))
    if how == "text":
        return cls.ParseString(data[::-1].hex())
    u = cls()
    u.Deserialize(BinaryReader(io.BytesIO(data)))
    return u


WAYS = ["bytes", "bytearray", "text", "stream"]


@vc.theorem("C10")
def equality():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    b = vc.bytes("b", size, often=near(a))
    u = build(cls, size, a, vc.choice("how a", WAYS))
    v = build(cls, size, b, vc.choice("how b", WAYS))
    vc.check((u == v) == (a == b), "equal exactly when the bytes are equal")
    vc.check((u != v) == (a != b), "!= is the opposite of ==")
    vc.check((v == u) == (a == b), "equality is symmetric")
    if a == b:
        vc.check(hash(u) == hash(v), "equal numbers have equal hashes")


@vc.theorem("C10")
def reflexive():
    cls, size = vc.choice("class", CLASSES)
    u = build(cls, size, vc.bytes("a", size), vc.choice("how", WAYS))
    vc.check(u == u, "a number equals itself")
    vc.check(not (u != u), "a number does not differ from itself")
    vc.check(hash(u) == hash(u), "the hash does not change")


@vc.theorem("C10")
def widths():
    u = UInt160(data=vc.bytes("a", 20))
    v = UInt256(data=vc.bytes("b", 32))
    vc.check(not (u == v) and not (v == u), "numbers of different width are different")


@vc.theorem("C10")
def foreign():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    u = cls(data=a)
    x = vc.choice("other", [None, 0, 1, "abc", 2.5])
    vc.check(not (u == x), "a number equals nothing of another type")
    vc.check(u != x, "a number differs from everything of another type")
    vc.check(not (u == a), "a number does not equal its bytes")
    vc.check(not (u == bytearray(a)), "a number does not equal its bytearray")


class Looks:
    """looks like a number, and is none"""
    def __init__(self, data):
        self.Data = data
        self.Size = len(data)

    def ToArray(self):
        return self.Data

    def ToString(self):
        return bytes(reversed(self.Data)).hex()

    def GetHashCode(self):
        return int.from_bytes(self.Data[:4], "little")


@vc.theorem("C10")
def looks_like_a_number():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    u = cls(data=a)
    x = Looks(vc.choice("form", [bytes, bytearray])(a))
    vc.check(not (u == x), "a number does not equal what looks like it")
    vc.check(u != x, "it differs from it")


@vc.theorem("C10")
def code():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    u = build(cls, size, a, vc.choice("how", WAYS))
    vc.check(u.GetHashCode() == int.from_bytes(a[:4], "little"), "the hash code is made of the first four bytes")


@vc.theorem("C10")
def reused():
    cls, size = vc.choice("class", CLASSES)
    a = vc.bytes("a", size)
    b = vc.bytes("b", size, often=near(a))
    u = cls(data=a)
    w = cls(data=a)
    vc.check(u == w and hash(u) == hash(w), "equal before")
    u.Deserialize(BinaryReader(io.BytesIO(b)))
    v = cls(data=b)
    vc.check((u == w) == (a == b), "equal to the one it was equal to exactly when the bytes still are")
    vc.check(u == v and hash(u) == hash(v), "an object read again is equal to the new number and hashes like it")
