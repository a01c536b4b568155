"""C01: what a fixed-width write puts into the stream, the matching read gives back."""
import io
import struct
import vc
import specs.io_contracts
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.BinaryReader import BinaryReader
from neocore.Fixed8 import Fixed8


def codec(wname, rname, code, size, signed):
    """value written between arbitrary bytes: exact encoding, exact number of bytes, exact value back"""
    lo = -(1 << (8 * size - 1)) if signed else 0
    hi = (1 << (8 * size - 1)) - 1 if signed else (1 << (8 * size)) - 1
    v = vc.int("value", lo, hi)
    endian = vc.choice("endian", ["<", ">"])
    head = vc.bytes("head")
    tail = vc.bytes("tail")
    s = io.BytesIO()
    s.write(head)
    n = getattr(BinaryWriter(s), wname)(v, endian)
    vc.check(n == size, wname + " returns the number of bytes written")
    data = s.getvalue()
    vc.check(len(data) == len(head) + size, wname + " writes that many bytes")
    vc.check(data[len(head):] == v.to_bytes(size, "little" if endian == "<" else "big", signed=signed),
             wname + " writes the two's complement bytes in the given order")
    vc.check(data[:len(head)] == head, wname + " leaves earlier bytes alone")
    s.write(tail)
    r = io.BytesIO(s.getvalue())
    r.seek(len(head))
    back = getattr(BinaryReader(r), rname)(endian)
    vc.check(back == v, rname + " gives the value back")
    vc.check(r.read() == tail, rname + " takes exactly the bytes of the value")


def refuses(wname, code, size, signed):
    lo = -(1 << (8 * size - 1)) if signed else 0
    hi = (1 << (8 * size - 1)) - 1 if signed else (1 << (8 * size)) - 1
    v = vc.int("value")
    vc.assume(v < lo or v > hi)
    endian = vc.choice("endian", ["<", ">"])
    head = vc.bytes("head")
    s = io.BytesIO()
    s.write(head)
    vc.check(vc.raises(getattr(BinaryWriter(s), wname), v, endian), wname + " refuses what it cannot represent")
    vc.check(s.getvalue() == head, wname + " writes nothing when it refuses")


@vc.theorem("C01")
def int8():
    codec("WriteInt8", "ReadInt8", "b", 1, True)


@vc.theorem("C01")
def uint8():
    codec("WriteUInt8", "ReadUInt8", "B", 1, False)


@vc.theorem("C01")
def int16():
    codec("WriteInt16", "ReadInt16", "h", 2, True)


@vc.theorem("C01")
def uint16():
    codec("WriteUInt16", "ReadUInt16", "H", 2, False)


@vc.theorem("C01")
def int32():
    codec("WriteInt32", "ReadInt32", "i", 4, True)


@vc.theorem("C01")
def uint32():
    codec("WriteUInt32", "ReadUInt32", "I", 4, False)


@vc.theorem("C01")
def int64():
    codec("WriteInt64", "ReadInt64", "q", 8, True)


@vc.theorem("C01")
def uint64():
    codec("WriteUInt64", "ReadUInt64", "Q", 8, False)


@vc.theorem("C01")
def out_of_range():
    k = vc.choice("type", [("WriteInt8", "b", 1, True), ("WriteUInt8", "B", 1, False), ("WriteInt16", "h", 2, True),
                           ("WriteUInt16", "H", 2, False), ("WriteInt32", "i", 4, True), ("WriteUInt32", "I", 4, False),
                           ("WriteInt64", "q", 8, True), ("WriteUInt64", "Q", 8, False)])
    refuses(k[0], k[1], k[2], k[3])


@vc.theorem("C01")
def boolean():
    v = vc.bool("value")
    s = io.BytesIO()
    BinaryWriter(s).WriteBool(v)
    vc.check(s.getvalue() == (b"\x01" if v else b"\x00"), "WriteBool writes 1 or 0")
    r = io.BytesIO(s.getvalue())
    vc.check(BinaryReader(r).ReadBool() is v, "ReadBool gives the value back")


@vc.theorem("C01")
def byte():
    v = vc.int("value", 0, 255)
    s = io.BytesIO()
    BinaryWriter(s).WriteByte(v)
    vc.check(s.getvalue() == bytes([v]), "WriteByte writes the byte")
    vc.check(BinaryReader(io.BytesIO(s.getvalue())).ReadByte() == v, "ReadByte gives the number back")


@vc.theorem("C01")
def fixed8():
    v = vc.int("value", -(1 << 63), (1 << 63) - 1)
    tail = vc.bytes("tail")
    s = io.BytesIO()
    BinaryWriter(s).WriteFixed8(Fixed8(v))
    vc.check(s.getvalue() == v.to_bytes(8, "little", signed=True), "WriteFixed8 writes the 64 bit integer")
    s.write(tail)
    r = io.BytesIO(s.getvalue())
    back = BinaryReader(r).ReadFixed8()
    vc.check(vc.typename(back) == "Fixed8", "ReadFixed8 gives a Fixed8")
    vc.check(back.value == v, "ReadFixed8 gives the value back")
    vc.check(r.read() == tail, "ReadFixed8 takes 8 bytes")


@vc.theorem("C01")
def double():
    v = vc.float("value")
    endian = vc.choice("endian", ["<", ">"])
    s = io.BytesIO()
    BinaryWriter(s).WriteDouble(v, endian)
    vc.check(s.getvalue() == struct.pack(endian + "d", v), "WriteDouble writes the IEEE bytes")
    vc.check(struct.pack("<d", BinaryReader(io.BytesIO(s.getvalue())).ReadDouble(endian)) == struct.pack("<d", v),
             "ReadDouble gives the number back")


@vc.theorem("C01")
def single():
    b = vc.bytes("data", 4)
    endian = vc.choice("endian", ["<", ">"])
    v = struct.unpack(endian + "f", b)[0]
    vc.assume(v == v)
    s = io.BytesIO()
    BinaryWriter(s).WriteFloat(v, endian)
    vc.check(BinaryReader(io.BytesIO(s.getvalue())).ReadFloat(endian) == v, "ReadFloat gives a single-precision number back")
    vc.check(s.getvalue() == struct.pack(endian + "f", v), "WriteFloat writes the IEEE bytes")


@vc.theorem("C01")
def char():
    b = vc.bytes("value", 1)
    s = io.BytesIO()
    BinaryWriter(s).WriteChar(b)
    vc.check(s.getvalue() == b, "WriteChar writes the byte")
    vc.check(BinaryReader(io.BytesIO(s.getvalue())).ReadChar() == b, "ReadChar gives it back")


@vc.theorem("C01")
def fixed8_out_of_range():
    v = vc.int("value")
    vc.assume(v < -(1 << 63) or v > (1 << 63) - 1)
    head = vc.bytes("head")
    s = io.BytesIO()
    s.write(head)
    vc.check(vc.raises(BinaryWriter(s).WriteFixed8, Fixed8(v)), "WriteFixed8 refuses what it cannot represent")
    vc.check(s.getvalue() == head, "WriteFixed8 writes nothing when it refuses")


@vc.theorem("C01")
def byte_out_of_range():
    v = vc.int("value")
    vc.assume(v < 0 or v > 255)
    head = vc.bytes("head")
    s = io.BytesIO()
    s.write(head)
    vc.check(vc.raises(BinaryWriter(s).WriteByte, v), "WriteByte refuses what is no byte")
    vc.check(s.getvalue() == head, "WriteByte writes nothing when it refuses")


FIELDS = [("Int8", 1, True), ("UInt8", 1, False), ("Int16", 2, True), ("UInt16", 2, False), ("Int32", 4, True), ("UInt32", 4, False),
          ("Int64", 8, True), ("UInt64", 8, False)]


def a_field(which):
    kind, size, signed = vc.choice("kind of the " + which, FIELDS)
    e = vc.choice("order of the " + which, ["<", ">"])
    lo = -(1 << (8 * size - 1)) if signed else 0
    hi = (1 << (8 * size - 1)) - 1 if signed else (1 << (8 * size)) - 1
    return kind, size, signed, e, vc.int("value of the " + which, lo, hi)


@vc.theorem("C01")
def two_fields():
    """one writer, one reader, a field of any kind after a field of any kind"""
    k1, n1, s1, e1, v1 = a_field("first")
    k2, n2, s2, e2, v2 = a_field("second")
    s = io.BytesIO()
    w = BinaryWriter(s)
    getattr(w, "Write" + k1)(v1, e1)
    getattr(w, "Write" + k2)(v2, e2)
    vc.check(s.getvalue() == v1.to_bytes(n1, "little" if e1 == "<" else "big", signed=s1) + v2.to_bytes(n2, "little" if e2 == "<" else "big", signed=s2),
             "the bytes of the fields, one after the other")
    r = BinaryReader(io.BytesIO(s.getvalue()))
    vc.check(getattr(r, "Read" + k1)(e1) == v1, "the first is read")
    vc.check(getattr(r, "Read" + k2)(e2) == v2, "the second is read")


@vc.theorem("C01")
def two_more_fields():
    """the same with the other kinds, in a row"""
    x = vc.int("amount", -(1 << 63), (1 << 63) - 1)
    d = vc.float("double")
    vc.assume(d == d)
    b = vc.int("byte", 0, 255)
    t = vc.bool("boolean")
    s = io.BytesIO()
    w = BinaryWriter(s)
    order = vc.choice("order", [0, 1, 2])
    for i in range(4):
        k = (i + order) % 4
        if k == 0:
            w.WriteFixed8(Fixed8(x))
        elif k == 1:
            w.WriteDouble(d)
        elif k == 2:
            w.WriteByte(bytes([b]))
        else:
            w.WriteBool(t)
    data = s.getvalue()
    vc.check(len(data) == 18, "8 + 8 + 1 + 1 bytes")
    r = BinaryReader(io.BytesIO(data))
    for i in range(4):
        k = (i + order) % 4
        if k == 0:
            vc.check(r.ReadFixed8().value == x, "the amount is read")
        elif k == 1:
            vc.check(r.ReadDouble() == d, "the double is read")
        elif k == 2:
            vc.check(r.ReadByte(do_ord=True) == b, "the byte is read")
        else:
            vc.check(r.ReadBool() == t, "the boolean is read")
