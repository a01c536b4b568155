"""C18: addresses."""
import hashlib
import base58
import vc
from neocore.Cryptography import Helper
from neocore.Cryptography.Crypto import Crypto
from neocore.UInt160 import UInt160
from neocore.Utils import isValidPublicAddress
from neocore.bin import cli


def sha2(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def text_of(payload):
    """the Base58Check text of a payload"""
    return base58.b58encode(payload + sha2(payload)[:4]).decode("ascii")


def accepted(a):
    """what an acceptable text decodes to, or None"""
    ok, d = vc.outcome(base58.b58decode, a)
    if not ok or len(d) != 25 or d[0] != 0x17 or d[21:] != sha2(d[:21])[:4]:
        return None
    return d[1:21]


LOOK_ALIKE = ["1l", "1I", "o0", "oO", "l1", "i1", "QO", "DO", "L1", "9g", "2Z"]


def nearly(r):
    """a text which looks like an address (only called on the real code, with a source of random numbers)"""
    h = bytes(r.getrandbits(8) for _ in range(20))
    body = b"\x17" + h
    c = r.randrange(8)
    if c == 0:
        body = bytes(r.getrandbits(8) for _ in range(r.randrange(1, 4))) + body
    elif c == 1:
        body = body + bytes(r.getrandbits(8) for _ in range(r.randrange(1, 4)))
    elif c == 2:
        body = body[:r.randrange(18, 21)]
    data = body + sha2(body)[:4]
    if c == 3:
        data = bytes(r.getrandbits(8) for _ in range(r.randrange(1, 4))) + data
    elif c == 4:
        data = data[r.randrange(1, 4):] if r.random() < 0.5 else data[:-r.randrange(1, 4)]
    t = base58.b58encode(data).decode("ascii")
    if c >= 5:
        for _ in range(20):
            pair = r.choice(LOOK_ALIKE)
            if pair[0] in t:
                return t.replace(pair[0], pair[1], 1)
        i = r.choice([0, r.randrange(len(t)), len(t)])
        t = r.choice([t[:i] + r.choice(" \n0OIl1_\u0661\uff11") + t[i:], r.choice(" \t\n") + t, t[::-1], t.swapcase(), t + t, t[:i] + t[i + 1:] if i < len(t) else t[:-1], "1" + t])
    return t


def refused(a):
    ok, v = vc.outcome(isValidPublicAddress, a)
    vc.check((not ok) or v is False, "the text does not validate")
    vc.check(vc.raises(cli.address_to_scripthash, a), "the text is not decoded")


@vc.theorem("C18")
def address_of_bytes():
    h = vc.bytes("script hash", 20)
    want = text_of(b"\x17" + h)
    vc.check(Helper.scripthash_to_address(h) == want, "the address of a script hash")
    vc.check(Helper.scripthash_to_address(bytearray(h)) == want, "the address of a script hash in a bytearray")
    vc.check(vc.typename(want) == vc.typename(Helper.scripthash_to_address(h)), "an address is a text")


@vc.theorem("C18")
def address_of_uint160():
    h = vc.bytes("script hash", 20)
    u = UInt160(data=h)
    a = Crypto.ToAddress(u)
    vc.check(a == text_of(b"\x17" + h), "the address of a 160 bit number")
    vc.check(bytes(u.ToArray()) == h, "the number is left alone")
    vc.check(Crypto.ToAddress(u) == a, "asking again gives the same address")
    vc.check(Crypto.ToAddress(UInt160(data=bytearray(h))) == a, "the address of a number over a bytearray")


@vc.theorem("C18")
def validates():
    h = vc.bytes("script hash", 20)
    a = Helper.scripthash_to_address(h)
    vc.check(isValidPublicAddress(a) is True, "the address of a script hash is valid")


@vc.theorem("C18")
def decodes():
    h = vc.bytes("script hash", 20)
    a = Helper.scripthash_to_address(h)
    d = cli.address_to_scripthash(a)
    vc.check(vc.typename(d) == "bytes", "a script hash is bytes")
    vc.check(d == h, "decoding an address returns its script hash")


@vc.theorem("C18")
def different_addresses():
    g = vc.bytes("one", 20)
    h = vc.bytes("other", 20)
    a = Helper.scripthash_to_address(g)
    b = Helper.scripthash_to_address(h)
    vc.check((a == b) == (g == h), "different script hashes have different addresses")


@vc.theorem("C18")
def any_text():
    a = vc.text("text", often=nearly)
    want = accepted(a)
    ok, v = vc.outcome(isValidPublicAddress, a)
    ok2, d = vc.outcome(cli.address_to_scripthash, a)
    if want is None:
        vc.check((not ok) or v is False, "a text which is no address does not validate")
        vc.check(not ok2, "a text which is no address is not decoded")
    else:
        vc.check(ok2 and d == want, "an address is decoded to its script hash")


@vc.theorem("C18")
def another_payload():
    p = vc.bytes("payload", None, 0, 60)
    vc.assume(len(p) != 21 or p[0] != 0x17)
    refused(text_of(p))


@vc.theorem("C18")
def with_bytes_in_front():
    p = b"\x17" + vc.bytes("script hash", 20)
    refused(base58.b58encode(vc.bytes("front", None, 1, 60) + p + sha2(p)[:4]).decode("ascii"))


@vc.theorem("C18")
def with_bytes_behind():
    p = b"\x17" + vc.bytes("script hash", 20)
    refused(base58.b58encode(p + sha2(p)[:4] + vc.bytes("behind", None, 1, 60)).decode("ascii"))


@vc.theorem("C18")
def cut_short():
    p = b"\x17" + vc.bytes("script hash", 20)
    k = vc.int("from", 0, 25)
    n = vc.int("to", 0, 25)
    vc.assume(k > 0 or n < 25)
    refused(base58.b58encode((p + sha2(p)[:4])[k:n]).decode("ascii"))


@vc.theorem("C18")
def changed_bytearray():
    """one bytearray is turned into an address, changed and used again"""
    b = vc.bytearray("script hash", 20)
    h = vc.bytes("other script hash", 20)
    Helper.scripthash_to_address(b)
    b[:] = h
    vc.check(Helper.scripthash_to_address(b) == text_of(b"\x17" + h), "the address of the bytes it has now")


@vc.theorem("C18")
def another_version():
    p = vc.bytes("payload", 21)
    vc.assume(p[0] != 0x17)
    refused(text_of(p))


@vc.theorem("C18")
def another_checksum():
    p = b"\x17" + vc.bytes("script hash", 20)
    c = vc.bytes("checksum", 4)
    vc.assume(c != sha2(p)[:4])
    refused(base58.b58encode(p + c).decode("ascii"))


@vc.theorem("C18")
def one_wrong_checksum_byte():
    p = b"\x17" + vc.bytes("script hash", 20)
    c = sha2(p)[:4]
    i = vc.choice("place", [0, 1, 2, 3])
    x = vc.int("byte", 0, 255)
    vc.assume(x != c[i])
    refused(base58.b58encode(p + c[:i] + bytes([x]) + c[i + 1:]).decode("ascii"))


@vc.theorem("C18")
def any_bytes():
    d = vc.bytes("decoded", None, 0, 100)
    vc.assume(len(d) != 25 or d[0] != 0x17 or d[21:] != sha2(d[:21])[:4])
    refused(base58.b58encode(d).decode("ascii"))
