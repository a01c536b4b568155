"""C06: arrays of serializable objects and lists of hashes."""
import io
import binascii
import vc
import specs.io_contracts
from specs.c02 import canonical
from specs.items import Item, VarItem
from specs.items2 import Item as ShortItem
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256


@vc.theorem("C06")
def fixed_items():
    numbers = vc.list("numbers", vc.Int(0, (1 << 32) - 1))
    tail = vc.bytes("tail")
    s = io.BytesIO()
    BinaryWriter(s).WriteSerializableArray([Item(x) for x in numbers])
    vc.check(len(s.getvalue()) == len(canonical(len(numbers))) + 4 * len(numbers), "the array takes its count and its elements")
    s.write(tail)
    s.seek(0)
    back = BinaryReader(s).ReadSerializableArray("specs.items.Item")
    vc.check(len(back) == len(numbers), "as many elements come back")
    vc.check([x.number for x in back] == numbers, "the elements come back in order")
    vc.check(s.read() == tail, "exactly the array is taken")


@vc.theorem("C06")
def variable_items():
    datas = vc.list("datas", vc.Bytes(hi=252))
    tail = vc.bytes("tail")
    s = io.BytesIO()
    BinaryWriter(s).WriteSerializableArray([VarItem(x) for x in datas])
    s.write(tail)
    s.seek(0)
    back = BinaryReader(s).ReadSerializableArray("specs.items.VarItem")
    vc.check(len(back) == len(datas), "as many elements come back")
    vc.check([x.data for x in back] == datas, "the elements come back in order")
    vc.check(s.read() == tail, "exactly the array is taken")


@vc.theorem("C06")
def two_variable_items():
    a = vc.bytes("a", hi=(1 << 60))
    b = vc.bytes("b", hi=(1 << 60))
    tail = vc.bytes("tail")
    s = io.BytesIO()
    BinaryWriter(s).WriteSerializableArray([VarItem(a), VarItem(b)])
    s.write(tail)
    s.seek(0)
    back = BinaryReader(s).ReadSerializableArray("specs.items.VarItem")
    vc.check(len(back) == 2 and back[0].data == a and back[1].data == b, "both elements come back")
    vc.check(s.read() == tail, "exactly the array is taken")


@vc.theorem("C06")
def uint_items():
    cls, name, size = vc.choice("class", [(UInt160, "neocore.UInt160.UInt160", 20), (UInt256, "neocore.UInt256.UInt256", 32)])
    a = vc.bytes("a", size)
    b = vc.bytes("b", size)
    vc.assume(vc.raises(binascii.unhexlify, a))
    vc.assume(vc.raises(binascii.unhexlify, b))
    s = io.BytesIO()
    BinaryWriter(s).WriteSerializableArray([cls(data=a), cls(data=b)])
    vc.check(s.getvalue() == b"\x02" + a + b, "the count and the elements are written")
    s.seek(0)
    back = BinaryReader(s).ReadSerializableArray(name)
    vc.check(len(back) == 2 and bytes(back[0].Data) == a and bytes(back[1].Data) == b, "both numbers come back")


@vc.theorem("C06")
def classes_of_one_name():
    """the class is the one of the module named, whichever was read before"""
    a, b = vc.int("a", 0, (1 << 32) - 1), vc.int("b", 0, (1 << 16) - 1)
    s = io.BytesIO()
    w = BinaryWriter(s)
    first = vc.choice("first", ["specs.items.Item", "specs.items2.Item"])
    long_first = first == "specs.items.Item"
    w.WriteSerializableArray([Item(a)] if long_first else [ShortItem(b)])
    w.WriteSerializableArray([ShortItem(b)] if long_first else [Item(a)])
    s.seek(0)
    r = BinaryReader(s)
    x = r.ReadSerializableArray(first)
    y = r.ReadSerializableArray("specs.items2.Item" if long_first else "specs.items.Item")
    vc.check(len(x) == 1 and len(y) == 1, "one element each comes back")
    p, q = (x[0], y[0]) if long_first else (y[0], x[0])
    vc.check(type(p) is Item and type(q) is ShortItem, "elements of the classes asked for")
    vc.check(p.number == a and q.number == b, "the elements come back")
    vc.check(s.read() == b"", "exactly the arrays are taken")


@vc.theorem("C06")
def nothing():
    tail = vc.bytes("tail")
    s = io.BytesIO()
    BinaryWriter(s).WriteSerializableArray(vc.choice("array", [None, []]))
    vc.check(s.getvalue() == b"\x00", "no array is written as an empty one")
    s.write(tail)
    s.seek(0)
    vc.check(BinaryReader(s).ReadSerializableArray("specs.items.Item") == [], "an empty array comes back")
    vc.check(s.read() == tail, "an empty array takes one byte")


@vc.theorem("C06")
def maximum():
    n = vc.int("count", 0, 252)
    m = vc.int("max", 0)
    data = vc.bytes("data", 4 * n)
    s = io.BytesIO(bytes([n]) + data)
    ok, r = vc.outcome(BinaryReader(s).ReadSerializableArray, "specs.items.Item", m)
    vc.check(ok == (n <= m), "an array longer than the maximum is refused, one within it is not")
    if ok:
        vc.check(len(r) == n, "all elements are read")


@vc.theorem("C06")
def hashes():
    hs = vc.list("hashes", vc.Bytes(32))
    tail = vc.bytes("tail")
    s = io.BytesIO()
    BinaryWriter(s).WriteHashes([h.hex() for h in hs])
    vc.check(len(s.getvalue()) == len(canonical(len(hs))) + 32 * len(hs), "each hash takes 32 bytes")
    s.write(tail)
    s.seek(0)
    back = BinaryReader(s).ReadHashes()
    vc.check(back == [h.hex() for h in hs], "the hashes come back as the same texts in the same order")
    vc.check(s.read() == tail, "exactly the list is taken")


@vc.theorem("C06")
def hash_bytes():
    h = vc.bytes("hash", 32)
    s = io.BytesIO()
    BinaryWriter(s).WriteHashes([h.hex()])
    vc.check(s.getvalue() == b"\x01" + h[::-1], "a hash is written least significant byte first")


@vc.theorem("C06")
def key_lists():
    ks = vc.list("keys", vc.Bytes(64))
    s = io.BytesIO()
    BinaryWriter(s).Write2000256List([binascii.hexlify(k) for k in ks])
    data = s.getvalue()
    vc.check(len(data) == 64 * len(ks), "each element takes 64 bytes")
    if len(ks) > 0:
        i = vc.index("i", len(ks))
        vc.check(data[64 * i:64 * i + 64] == ks[i][::-1], "each element is written reversed, as it is")


@vc.theorem("C06")
def key_list_read():
    data = vc.bytes("data", 2000 * 32)
    tail = vc.bytes("tail")
    s = io.BytesIO(binascii.hexlify(data) + tail)
    back = BinaryReader(s).Read2000256List()
    vc.check(len(back) == 2000, "2000 elements are read")
    i = vc.index("i", 2000)
    vc.check(back[i] == binascii.hexlify(data[32 * i:32 * i + 32][::-1]), "each element is the reversed text")
    vc.check(s.read() == tail, "exactly the list is taken")


@vc.theorem("C06")
def the_same_object_again():
    """an array in which one object stands more than once has it written each time"""
    a = VarItem(vc.bytes("a", hi=(1 << 60)))
    b = VarItem(vc.bytes("b", hi=(1 << 60)))
    items = vc.choice("array", [[a, a], [a, a, b], [a, b, a], [b, a, a]])
    tail = vc.bytes("tail")
    s = io.BytesIO()
    w = BinaryWriter(s)
    w.WriteSerializableArray(items)
    each = io.BytesIO()
    for x in items:
        x.Serialize(BinaryWriter(each))
    vc.check(s.getvalue() == bytes([len(items)]) + each.getvalue(), "the count and each element")
    s.write(tail)
    s.seek(0)
    back = BinaryReader(s).ReadSerializableArray("specs.items.VarItem")
    vc.check([x.data for x in back] == [x.data for x in items], "the elements come back in order")
    vc.check(s.read() == tail, "exactly the array is taken")


@vc.theorem("C06")
def the_same_hash_again():
    g = vc.bytes("hash", 32).hex()
    h = vc.bytes("other hash", 32).hex()
    hs = vc.choice("list", [[g, g], [g, g, h], [g, h, g], [h, g, g]])
    s = io.BytesIO()
    BinaryWriter(s).WriteHashes(hs)
    vc.check(s.getvalue() == bytes([len(hs)]) + b"".join([bytes.fromhex(x)[::-1] for x in hs]), "the count and each hash")
    s.seek(0)
    vc.check(BinaryReader(s).ReadHashes() == hs, "the hashes come back as the same texts in the same order")


@vc.theorem("C06")
def the_list_is_left_alone():
    numbers = vc.list("numbers", vc.Int(0, (1 << 32) - 1))
    raw = vc.list("hashes", vc.Bytes(32))
    hs = [h.hex() for h in raw]
    items = [Item(x) for x in numbers]
    n, m = len(items), len(hs)
    w = BinaryWriter(io.BytesIO())
    w.WriteSerializableArray(items)
    w.WriteHashes(hs)
    vc.check(len(items) == n and len(hs) == m, "the lists have as many elements as before")
    vc.check([x.number for x in items] == numbers, "the elements are those before, in their order")
    vc.check(hs == [h.hex() for h in raw], "the hashes are those before, in their order")


@vc.theorem("C06")
def written_twice():
    """what is written a second time is written alike"""
    cls, size = vc.choice("class", [(UInt160, 20), (UInt256, 32)])
    a, b = vc.bytes("a", size), vc.bytes("b", size)
    vc.assume(vc.raises(binascii.unhexlify, a))
    vc.assume(vc.raises(binascii.unhexlify, b))
    items = [cls(data=a), cls(data=b)]
    s = io.BytesIO()
    w = BinaryWriter(s)
    w.WriteSerializableArray(items)
    w.WriteSerializableArray(items)
    vc.check(s.getvalue() == (b"\x02" + a + b) * 2, "the same bytes twice")
    vc.check(bytes(items[0].Data) == a and bytes(items[1].Data) == b, "the numbers are left alone")
