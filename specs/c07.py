"""C07: 160 and 256 bit numbers keep their width, in memory and on the wire."""
import io
import binascii
import vc
import specs.io_contracts
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

CLASSES = [(UInt160, 20, "UInt160"), (UInt256, 32, "UInt256")]


@vc.theorem("C07")
def construction():
    cls, size, name = vc.choice("class", CLASSES)
    kind = vc.choice("kind", ["bytes", "bytearray"])
    data = vc.bytes("data") if kind == "bytes" else vc.bytearray("data")
    ok, u = vc.outcome(cls, data)
    vc.check(ok == (len(data) == size), "exactly the byte strings of the width are accepted")
    if ok:
        vc.check(u.Size == size, "Size is the width")
        vc.check(bytes(u.ToArray()) == bytes(data), "ToArray gives the bytes")


@vc.theorem("C07")
def zero():
    cls, size, name = vc.choice("class", CLASSES)
    u = cls()
    vc.check(bytes(u.ToArray()) == b"\x00" * size, "the default is zero")
    vc.check(u.Size == size, "Size of the default is the width")
    v = cls()
    u.ToArray()[0] = 1
    vc.check(bytes(v.ToArray()) == b"\x00" * size, "defaults share nothing")


@vc.theorem("C07")
def other_types():
    cls, size, name = vc.choice("class", CLASSES)
    data = vc.bytes("data", size)
    bad = vc.choice("bad", [0, 1])
    vc.check(vc.raises(cls, list(data) if bad == 0 else data.hex()[:size]), "neither lists nor texts are accepted")


@vc.theorem("C07")
def wire():
    cls, size, name = vc.choice("class", CLASSES)
    data = vc.bytes("data", size)
    # known finding K1: bytes which all are hex digits are written as the number they spell
    vc.assume(vc.raises(binascii.unhexlify, data))
    head = vc.bytes("head")
    tail = vc.bytes("tail")
    how = vc.choice("how", ["Serialize", "Write"])
    s = io.BytesIO()
    s.write(head)
    w = BinaryWriter(s)
    u = cls(data=data)
    if how == "Serialize":
        u.Serialize(w)
    else:
        getattr(w, "Write" + name)(u)
    vc.check(s.getvalue() == head + data, "the bytes are written as they are")
    vc.check(bytes(u.ToArray()) == data, "writing leaves the number alone")
    s.write(tail)
    s.seek(len(head))
    r = BinaryReader(s)
    if how == "Serialize":
        v = cls()
        v.Deserialize(r)
    else:
        v = getattr(r, "Read" + name)()
    vc.check(vc.typename(v) == name, "the same class comes back")
    vc.check(bytes(v.ToArray()) == data, "the same bytes come back")
    vc.check(v.Size == size, "the width comes back")
    vc.check(s.read() == tail, "exactly the number is taken")


@vc.theorem("C07")
def reading():
    cls, size, name = vc.choice("class", CLASSES)
    data = vc.bytes("data")
    pos = vc.int("pos", 0)
    vc.assume(pos <= len(data))
    s = io.BytesIO(data)
    s.seek(pos)
    ok, u = vc.outcome(getattr(BinaryReader(s), "Read" + name))
    vc.check(ok == (len(data) - pos >= size), "reading succeeds exactly when the whole number is there")
    if ok:
        vc.check(bytes(u.ToArray()) == data[pos:pos + size], "any bytes are read as they are")
        v = cls()
        s.seek(pos)
        v.Deserialize(BinaryReader(s))
        vc.check(u == v, "both ways of reading agree")
