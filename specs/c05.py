"""C05: a stream which ends inside a fixed-size field is refused, never padded or cut."""
import io
import vc
import specs.io_contracts
from neocore.IO.BinaryReader import BinaryReader
from neocore.Cryptography.ECCurve import ECDSA
from specs.c02 import canonical
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

FIXED = [("ReadInt8", 1), ("ReadUInt8", 1), ("ReadInt16", 2), ("ReadUInt16", 2), ("ReadInt32", 4), ("ReadUInt32", 4),
         ("ReadInt64", 8), ("ReadUInt64", 8), ("ReadFloat", 4), ("ReadDouble", 8), ("ReadBool", 1), ("ReadChar", 1),
         ("ReadFixed8", 8), ("ReadUInt160", 20), ("ReadUInt256", 32)]


@vc.theorem("C05")
def fixed_reads():
    name, size = vc.choice("reader", FIXED)
    data = vc.bytes("data", hi=40)
    pos = vc.int("pos", 0, 40)
    vc.assume(pos <= len(data))
    s = io.BytesIO(data)
    s.seek(pos)
    ok, v = vc.outcome(getattr(BinaryReader(s), name))
    vc.check(ok == (len(data) - pos >= size), name + " succeeds exactly when the whole field is there")
    if ok:
        vc.check(s.tell() == pos + size, name + " takes exactly the field")


@vc.theorem("C05")
def safe_read_bytes():
    data = vc.bytes("data")
    pos = vc.int("pos", 0)
    n = vc.int("length", 0)
    vc.assume(pos <= len(data))
    s = io.BytesIO(data)
    s.seek(pos)
    ok, v = vc.outcome(BinaryReader(s).SafeReadBytes, n)
    vc.check(ok == (len(data) - pos >= n), "SafeReadBytes succeeds exactly when all bytes are there")
    if ok:
        vc.check(v == data[pos:pos + n], "SafeReadBytes gives the bytes")
        vc.check(s.tell() == pos + n, "SafeReadBytes takes exactly the bytes")


@vc.theorem("C05")
def uint_deserialize():
    cls, size = vc.choice("class", [(UInt160, 20), (UInt256, 32)])
    old = vc.bytes("old", size)
    data = vc.bytes("data")
    u = cls(data=old)
    s = io.BytesIO(data)
    ok, v = vc.outcome(u.Deserialize, BinaryReader(s))
    vc.check(ok == (len(data) >= size), "Deserialize succeeds exactly when the whole number is there")
    if not ok:
        vc.check(bytes(u.Data) == old, "a failed Deserialize leaves the number as it was")


@vc.theorem("C05")
def var_int_field():
    tag, size = vc.choice("tag", [(0xfd, 2), (0xfe, 4), (0xff, 8)])
    data = vc.bytes("data", hi=40)
    s = io.BytesIO(bytes([tag]) + data)
    ok, v = vc.outcome(BinaryReader(s).ReadVarInt)
    if ok:
        vc.check(len(data) >= size, "a cut variable-length number is refused")
    else:
        vc.check(len(data) < size or (size == 8 and data[7] >= 0x80), "a complete variable-length number is read")


@vc.theorem("C05")
def var_string_field():
    n = vc.int("announced", 0, (1 << 62))
    data = vc.bytes("data")
    s = io.BytesIO(canonical(n) + data)
    ok, v = vc.outcome(BinaryReader(s).ReadVarString)
    vc.check(ok == (len(data) >= n), "ReadVarString refuses a text cut short")
    if ok:
        vc.check(v == data[:n], "ReadVarString gives the text")


@vc.theorem("C05")
def point_field():
    lead = vc.choice("lead", [2, 3])
    data = vc.bytes("data", hi=31)
    s = io.BytesIO(bytes([lead]) + data)
    vc.check(vc.raises(ECDSA.Deserialize_Secp256r1, BinaryReader(s)), "a point cut short is refused")


@vc.theorem("C05")
def cut_after_whole_fields():
    """the same reader has read whole fields before"""
    first, n = vc.choice("first", FIXED)
    name, size = vc.choice("second", FIXED)
    head = vc.bytes("head", n)
    data = vc.bytes("data", hi=40)
    s = io.BytesIO(head + data)
    r = BinaryReader(s)
    vc.check(vc.outcome(getattr(r, first))[0], "the whole field is read")
    ok, v = vc.outcome(getattr(r, name))
    vc.check(ok == (len(data) >= size), name + " succeeds exactly when the whole field is there")
    if ok:
        vc.check(s.tell() == n + size, name + " takes exactly the field")


@vc.theorem("C05")
def after_a_cut_field():
    """a field cut short before, in the same reader or in another, leaves nothing for later reads"""
    first, n = vc.choice("first", FIXED)
    name, size = vc.choice("second", FIXED)
    cut = vc.bytes("cut", hi=32)
    vc.assume(len(cut) < n)
    s = io.BytesIO(cut)
    r = BinaryReader(s)
    vc.check(vc.raises(getattr(r, first)), first + " refuses the field cut short")
    left = len(cut) - s.tell()
    vc.check(vc.outcome(getattr(r, name))[0] == (left >= size), name + " succeeds exactly when the whole field is left")
    data = vc.bytes("data", hi=40)
    ok, v = vc.outcome(getattr(BinaryReader(io.BytesIO(data)), name))
    vc.check(ok == (len(data) >= size), name + " succeeds exactly when the whole field is there")
