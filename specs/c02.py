"""C02: the variable-length integer encoding."""
import io
import vc
import specs.io_contracts
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.BinaryReader import BinaryReader


def canonical(v):
    if v < 0xfd:
        return v.to_bytes(1, "little")
    if v <= 0xffff:
        return b"\xfd" + v.to_bytes(2, "little")
    if v <= 0xffffffff:
        return b"\xfe" + v.to_bytes(4, "little")
    return b"\xff" + v.to_bytes(8, "little")


class MyInt(int):
    pass


@vc.theorem("C02")
def encoding():
    v = vc.int("value", 0, (1 << 64) - 1)
    head = vc.bytes("head")
    s = io.BytesIO()
    s.write(head)
    BinaryWriter(s).WriteVarInt(v)
    vc.check(s.getvalue() == head + canonical(v), "WriteVarInt writes the shortest form")


@vc.theorem("C02")
def encoding_of_subclasses():
    v = vc.int("value", 0, (1 << 64) - 1)
    s = io.BytesIO()
    BinaryWriter(s).WriteVarInt(MyInt(v))
    vc.check(s.getvalue() == canonical(v), "WriteVarInt writes a value of a subclass of int like the int")


@vc.theorem("C02")
def decoding():
    v = vc.int("value", 0, (1 << 64) - 1)
    head = vc.bytes("head")
    tail = vc.bytes("tail")
    s = io.BytesIO(head + canonical(v) + tail)
    s.seek(len(head))
    limit = vc.int("max", 0)
    ok, r = vc.outcome(BinaryReader(s).ReadVarInt, limit)
    vc.check(ok == (v <= limit or v == 0), "ReadVarInt accepts exactly the values up to the maximum")
    if ok:
        vc.check(r == v, "ReadVarInt gives the value back")
        vc.check(vc.isint(r), "ReadVarInt gives an int")
        vc.check(s.read() == tail, "ReadVarInt takes exactly the encoding")


@vc.theorem("C02")
def roundtrip():
    v = vc.int("value", 0, (1 << 64) - 1)
    tail = vc.bytes("tail")
    s = io.BytesIO()
    BinaryWriter(s).WriteVarInt(v)
    s.write(tail)
    s.seek(0)
    vc.check(BinaryReader(s).ReadVarInt() == v, "ReadVarInt undoes WriteVarInt")
    vc.check(s.read() == tail, "ReadVarInt takes exactly what WriteVarInt wrote")


@vc.theorem("C02")
def refused():
    v = vc.int("value")
    vc.assume(v < 0 or v >= (1 << 64))
    vc.check(vc.raises(BinaryWriter(io.BytesIO()).WriteVarInt, v), "WriteVarInt refuses numbers without an encoding")


@vc.theorem("C02")
def not_numbers():
    v = vc.choice("value", [None, "1", b"\x01", 1.0, [1]])
    s = io.BytesIO()
    ok, e = vc.outcome(BinaryWriter(s).WriteVarInt, v)
    vc.check(not ok and vc.typename(e) == "TypeError", "WriteVarInt refuses what is not an int")
    vc.check(s.getvalue() == b"", "and writes nothing")


@vc.theorem("C02")
def two_numbers():
    """one writer and one reader for two numbers of any size classes"""
    v = vc.int("first", 0, (1 << 64) - 1)
    u = vc.int("second", 0, (1 << 64) - 1)
    s = io.BytesIO()
    w = BinaryWriter(s)
    w.WriteVarInt(v)
    w.WriteVarInt(u)
    vc.check(s.getvalue() == canonical(v) + canonical(u), "the shortest form of both")
    r = BinaryReader(io.BytesIO(s.getvalue()))
    vc.check(r.ReadVarInt() == v, "the first is read")
    vc.check(r.ReadVarInt() == u, "the second is read")


@vc.theorem("C02")
def after_the_other_order():
    """a number in big-endian order before it, by any writer and reader, changes nothing"""
    v = vc.int("first", 0, (1 << 64) - 1)
    u = vc.int("second", 0, (1 << 64) - 1, like=[v])
    s = io.BytesIO()
    vc.outcome(BinaryWriter(s).WriteVarInt, v, ">")
    vc.outcome(BinaryReader(io.BytesIO(s.getvalue())).ReadVarInt)
    t = io.BytesIO()
    BinaryWriter(t).WriteVarInt(u)
    vc.check(t.getvalue() == canonical(u), "WriteVarInt writes the shortest form")
    t.seek(0)
    vc.check(BinaryReader(t).ReadVarInt() == u, "ReadVarInt gives the value back")
