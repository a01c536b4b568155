"""C08: the hexadecimal text of 160 and 256 bit numbers."""
import io
import vc
from neocore.IO.BinaryReader import BinaryReader
from neocore.UInt160 import UInt160
from neocore.UInt256 import UInt256

CLASSES = [(UInt160, 20), (UInt256, 32)]
STARTS = ["", "0x", "0X", "00", "x0", "+", "-", " ", "0x0x"]


def nearly(r):
    """(for the search for failing inputs) a text about as long as those which are accepted"""
    n = r.choice([40, 64])
    t = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
    s = r.choice(STARTS)
    return r.choice([s + t, s + t, s + t[len(s):], s + t[2:], t + r.choice(["", "0", "00", " "])])


@vc.theorem("C08")
def text():
    cls, size = vc.choice("class", CLASSES)
    data = vc.bytes("data", size)
    u = cls(data=data)
    vc.check(u.ToString() == data[::-1].hex(), "ToString is the big-endian hexadecimal text")
    vc.check(len(u.ToString()) == 2 * size, "the text has full width")
    vc.check(str(u) == data[::-1].hex(), "str is the same text")
    vc.check(u.To0xString() == "0x" + data[::-1].hex(), "To0xString puts 0x in front")
    vc.check(u.ToString2() == data.hex(), "ToString2 is the text in storage order")
    vc.check(u.ToBytes() == data[::-1].hex().encode("ascii"), "ToBytes is the text as bytes")
    vc.check(bytes(u.Data) == data, "formatting leaves the number alone")


@vc.theorem("C08")
def parse_back():
    cls, size = vc.choice("class", CLASSES)
    data = vc.bytes("data", size)
    form = vc.choice("form", ["plain", "0x", "upper", "0x upper"])
    t = data[::-1].hex()
    if form == "0x":
        t = "0x" + t
    elif form == "upper":
        t = t.upper()
    elif form == "0x upper":
        t = "0x" + t.upper()
    u = cls.ParseString(t)
    vc.check(vc.typename(u) == cls.__name__, "the class is kept")
    vc.check(bytes(u.Data) == data, "ParseString gives the number back")


@vc.theorem("C08")
def parse_any():
    cls, size = vc.choice("class", CLASSES)
    t = vc.text("text", often=nearly)
    ok, u = vc.outcome(cls.ParseString, t)
    body = t[2:] if t[0:2] == "0x" else t
    if len(body) != 2 * size:
        vc.check(not ok, "a text of another length is refused")
        return
    good, b = vc.outcome(bytes.fromhex, body)
    vc.check(ok == (good and len(b) == size), "exactly the hexadecimal texts of full width are accepted")
    if ok:
        vc.check(bytes(u.Data) == b[::-1], "the text is read big-endian")
        vc.check(u.ToString() == b.hex(), "the text comes back in lower case")


@vc.theorem("C08")
def parsed_twice():
    """two readings of one text are two objects: to change the first leaves the second alone"""
    cls, size = vc.choice("class", CLASSES)
    data = vc.bytes("data", size)
    other = vc.bytes("other data", size)
    t = data[::-1].hex()
    u = cls.ParseString(t)
    u.Deserialize(BinaryReader(io.BytesIO(other)))
    vc.check(bytes(u.Data) == other, "the number is read from the stream")
    v = cls.ParseString(t)
    vc.check(bytes(v.Data) == data, "ParseString gives the number of the text")
    vc.check(v.ToString() == t, "with its text")
    vc.check(u.ToString() == other[::-1].hex(), "the first has the text of its number")


@vc.theorem("C08")
def read_again():
    """the texts of a number whose texts were asked for before it was read from a stream"""
    cls, size = vc.choice("class", CLASSES)
    old = vc.bytes("old data", size)
    data = vc.bytes("data", size)
    u = cls(data=old)
    vc.check(u.ToString() == old[::-1].hex() and str(u) == old[::-1].hex(), "the text of the old number")
    vc.check(u.ToString2() == old.hex() and u.To0xString() == "0x" + old[::-1].hex(), "the other texts of the old number")
    vc.check(u.ToBytes() == old[::-1].hex().encode("ascii"), "the bytes of the text of the old number")
    u.Deserialize(BinaryReader(io.BytesIO(data)))
    vc.check(u.ToString() == data[::-1].hex() and str(u) == data[::-1].hex(), "the text of the new number")
    vc.check(u.ToString2() == data.hex() and u.To0xString() == "0x" + data[::-1].hex(), "the other texts of the new number")
    vc.check(u.ToBytes() == data[::-1].hex().encode("ascii"), "the bytes of the text of the new number")
