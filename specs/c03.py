"""C03: length-prefixed byte strings and texts."""
import io
import vc
import specs.io_contracts
from specs.c02 import canonical
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.BinaryReader import BinaryReader


@vc.theorem("C03")
def var_bytes():
    b = vc.bytes("data", hi=(1 << 62))
    head = vc.bytes("head")
    tail = vc.bytes("tail")
    s = io.BytesIO()
    s.write(head)
    BinaryWriter(s).WriteVarBytes(b)
    vc.check(s.getvalue() == head + canonical(len(b)) + b, "WriteVarBytes writes the length and the bytes as they are")
    s.write(tail)
    s.seek(len(head))
    vc.check(BinaryReader(s).ReadVarBytes() == b, "ReadVarBytes gives the bytes back")
    vc.check(s.read() == tail, "ReadVarBytes takes exactly the field")


@vc.theorem("C03")
def var_bytes_bytearray():
    b = vc.bytearray("data", hi=(1 << 62))
    was = bytes(b)
    s = io.BytesIO()
    BinaryWriter(s).WriteVarBytes(b)
    vc.check(s.getvalue() == canonical(len(b)) + bytes(b), "WriteVarBytes of a bytearray")
    vc.check(bytes(b) == was, "the bytearray is left alone")


@vc.theorem("C03")
def var_string():
    t = vc.text("text", hi=(1 << 60))
    enc = vc.choice("encoding", ["utf-8", "ascii", "latin-1", "utf-16-le", "cp1252"])
    head = vc.bytes("head")
    tail = vc.bytes("tail")
    ok, e = vc.outcome(t.encode, enc)
    s = io.BytesIO()
    s.write(head)
    w = BinaryWriter(s)
    ok2, r = vc.outcome(w.WriteVarString, t, enc)
    vc.check(ok == ok2, "WriteVarString accepts exactly the texts the encoding has")
    if ok:
        vc.assume(len(e) < (1 << 63))
        vc.check(s.getvalue() == head + canonical(len(e)) + e, "WriteVarString writes the length of the encoding and the encoding")
        s.write(tail)
        s.seek(len(head))
        vc.check(BinaryReader(s).ReadVarString() == e, "ReadVarString gives the encoded text back")
        vc.check(s.read() == tail, "ReadVarString takes exactly the field")
    else:
        vc.check(s.getvalue() == head, "a refused text leaves the stream alone")


@vc.theorem("C03")
def var_string_default():
    t = vc.text("text", hi=(1 << 60))
    ok, e = vc.outcome(t.encode, "utf-8")
    vc.assume(ok)
    vc.assume(len(e) < (1 << 63))
    s = io.BytesIO()
    BinaryWriter(s).WriteVarString(t)
    vc.check(s.getvalue() == canonical(len(e)) + e, "the default encoding is UTF-8")


@vc.theorem("C03")
def var_string_of_bytes():
    b = vc.bytes("data", hi=(1 << 62))
    s = io.BytesIO()
    BinaryWriter(s).WriteVarString(b)
    vc.check(s.getvalue() == canonical(len(b)) + b, "WriteVarString of bytes writes them as they are")


@vc.theorem("C03")
def maximum():
    b = vc.bytes("data", hi=(1 << 62))
    m = vc.int("max", 0)
    which = vc.choice("reader", ["ReadVarBytes", "ReadVarString"])
    s = io.BytesIO(canonical(len(b)) + b)
    ok, r = vc.outcome(getattr(BinaryReader(s), which), m)
    vc.check(ok == (len(b) <= m), "a field longer than the maximum is refused, one within it is not")
    if ok:
        vc.check(r == b, "a field within the maximum is read")


@vc.theorem("C03")
def short_string():
    b = vc.bytes("data", hi=255)
    tail = vc.bytes("tail")
    s = io.BytesIO(bytes([len(b)]) + b + tail)
    vc.check(BinaryReader(s).ReadString() == b, "ReadString reads a string with a one-byte length")
    vc.check(s.read() == tail, "ReadString takes exactly the field")


@vc.theorem("C03")
def three_fields():
    """one writer and one reader for several fields"""
    a = vc.bytes("first", hi=(1 << 62))
    t = vc.text("text", hi=(1 << 60))
    b = vc.bytes("last", hi=(1 << 62))
    ok, e = vc.outcome(t.encode, "utf-8")
    vc.assume(ok)
    s = io.BytesIO()
    w = BinaryWriter(s)
    w.WriteVarBytes(a)
    w.WriteVarString(t)
    w.WriteVarBytes(b)
    vc.check(s.getvalue() == canonical(len(a)) + a + canonical(len(e)) + e + canonical(len(b)) + b, "the fields one after the other")
    r = BinaryReader(io.BytesIO(s.getvalue()))
    vc.check(r.ReadVarBytes() == a, "the first is read")
    vc.check(r.ReadVarString() == e, "the text is read")
    vc.check(r.ReadVarBytes() == b, "the last is read")
