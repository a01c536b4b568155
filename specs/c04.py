"""C04: fixed-width text fields."""
import io
import vc
import specs.io_contracts
from neocore.IO.BinaryWriter import BinaryWriter
from neocore.IO.BinaryReader import BinaryReader


@vc.theorem("C04")
def fixed_string():
    t = vc.text("text", hi=(1 << 60))
    n = vc.int("length", 0, 1 << 62)
    ok, e = vc.outcome(t.encode, "utf-8")
    vc.assume(ok)
    head = vc.bytes("head")
    tail = vc.bytes("tail")
    vc.assume(n <= len(e) + 100000)
    s = io.BytesIO()
    s.write(head)
    done, r = vc.outcome(BinaryWriter(s).WriteFixedString, t, n)
    vc.check(done == (len(e) <= n), "WriteFixedString accepts exactly the texts which fit")
    if not done:
        vc.check(s.getvalue() == head, "a text which does not fit leaves the stream alone")
        return
    vc.check(len(s.getvalue()) == len(head) + n, "the field has exactly the given width")
    vc.check(s.getvalue() == head + e + b"\x00" * (n - len(e)), "the field is the UTF-8 text and zero bytes")
    s.write(tail)
    s.seek(len(head))
    back = BinaryReader(s).ReadFixedString(n)
    vc.check(s.read() == tail, "ReadFixedString takes exactly the field")
    vc.check(back == e.rstrip(b"\x00"), "ReadFixedString gives the text back without trailing zeros")


@vc.theorem("C04")
def text_without_trailing_zero():
    e = vc.bytes("data", hi=1 << 60)
    n = vc.int("length", 0, 1 << 61)
    vc.assume(len(e) <= n)
    vc.assume(n <= len(e) + 100000)
    vc.assume(len(e) == 0 or e[len(e) - 1] != 0)
    s = io.BytesIO(e + b"\x00" * (n - len(e)))
    vc.check(BinaryReader(s).ReadFixedString(n) == e, "what does not end in a zero byte comes back exactly")
