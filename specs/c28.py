"""C28: the command line."""
import binascii
import json
import vc
from neocore.Cryptography.Crypto import Crypto
from neocore.KeyPair import KeyPair
from neocore.UInt160 import UInt160
from neocore.bin import cli
from specs.c08 import nearly as hexadecimal
from specs.c18 import accepted, nearly, sha2, text_of

ORDER = 115792089210356248762697446949407573529996955224135760342422259061068512044369


def argument(name):
    t = vc.text(name, None, 1, often=nearly)
    vc.assume(t[0] != "-")
    return t


def address(h):
    return text_of(b"\x17" + h)


def hexcase(t):
    return t.upper() if vc.bool("upper case") else t


@vc.theorem("C28")
def convert_address():
    h = vc.bytes("script hash", 20)
    vc.check(cli.address_to_scripthash(address(h)) == h, "the script hash of an address")


@vc.theorem("C28")
def convert_any_text():
    t = vc.text("text", often=nearly)
    ok, h = vc.outcome(cli.address_to_scripthash, t)
    want = accepted(t)
    if want is None:
        vc.check(not ok, "an invalid address is refused")
    else:
        vc.check(ok and h == want, "the script hash of an address")


@vc.theorem("C28")
def convert_script_hash():
    h = vc.bytes("script hash", 20)
    a = address(h)
    vc.check(cli.scripthash_to_address("0x" + h[::-1].hex()) == a, "the address of a big endian script hash")
    vc.check(cli.scripthash_to_address(h.hex()) == a, "the address of a little endian script hash")


@vc.theorem("C28")
def convert_upper_case():
    h = vc.bytes("script hash", 20)
    a = address(h)
    vc.check(cli.scripthash_to_address("0x" + h[::-1].hex().upper()) == a, "the address of a big endian script hash in capitals")
    vc.check(cli.scripthash_to_address(h.hex().upper()) == a, "the address of a little endian script hash in capitals")


@vc.theorem("C28")
def convert_bad_script_hash():
    b = vc.bytes("bytes", None, 0, 60)
    vc.assume(len(b) != 20)
    prefix = vc.choice("prefix", ["", "0x"])
    vc.check(vc.raises(cli.scripthash_to_address, prefix + b.hex()), "a script hash of another length is refused")


@vc.theorem("C28")
def convert_any_script_hash():
    t = vc.text("text", often=hexadecimal)
    ok, a = vc.outcome(cli.scripthash_to_address, t)
    if ok:
        vc.check(len(t) == 40 or len(t) == 42, "only texts of 40 digits are converted")
    if t[0:2] == "0x":
        ok2, u = vc.outcome(UInt160.ParseString, t)
        vc.check(ok == ok2, "exactly the texts which the number class reads are converted")
        if ok:
            vc.check(a == Crypto.ToAddress(u), "the address is that of the number")
    else:
        ok2, h = vc.outcome(binascii.unhexlify, t)
        vc.check(ok == (ok2 and len(h) == 20), "exactly the texts of 40 digits are converted")
        if ok:
            vc.check(a == address(h), "the address is that of the bytes")


@vc.theorem("C28")
def wallet():
    b = vc.bytes("random bytes", 32)
    ok, w = vc.outcome(vc.with_random, b, cli.create_wallet)
    if 0 < int.from_bytes(b, "big") < ORDER:
        vc.check(ok, "a wallet is made")
    if ok:
        k = KeyPair.PrivateKeyFromWIF(w["private_key"])
        vc.check(len(k) == 32, "a private key")
        vc.check(KeyPair(k).GetAddress() == w["address"], "the address belongs to the key")
        vc.check(KeyPair(k).Export() == w["private_key"], "the key is in WIF")
    else:
        vc.check(True, "a key out of range gives no wallet")


@vc.theorem("C28")
def main_address():
    h = vc.bytes("script hash", 20)
    ok, e, out = vc.run_main(cli.main, ["--address-to-scripthash", address(h)])
    vc.check(ok, "the command succeeds")
    head = "Scripthash big endian:  0x" + h[::-1].hex() + "\nScripthash little endian: " + h.hex() + "\nScripthash neo-python format: "
    vc.check(out[0:len(head)] == head, "the script hash is printed in both orders")
    if not vc.symbolic:
        vc.check(out == head + repr(h) + "\n", "and as bytes")


@vc.theorem("C28")
def main_bad_address():
    t = argument("text")
    vc.assume(accepted(t) is None)
    ok, e, out = vc.run_main(cli.main, ["--address-to-scripthash", t])
    vc.check(not ok, "an invalid address is an error")
    vc.check("Scripthash" not in out, "no script hash is printed")


@vc.theorem("C28")
def longer_payload():
    """the bytes of an address with others around them are no address"""
    import base58
    p = b"\x17" + vc.bytes("script hash", 20)
    front = vc.bytes("front", None, 0, 60)
    behind = vc.bytes("behind", None, 0, 60)
    vc.assume(len(front) + len(behind) > 0)
    t = base58.b58encode(front + p + sha2(p)[:4] + behind).decode("ascii")
    vc.check(vc.raises(cli.address_to_scripthash, t), "an invalid address is refused")


@vc.theorem("C28")
def shorter_payload():
    import base58
    p = b"\x17" + vc.bytes("script hash", 20)
    k = vc.int("from", 0, 25)
    n = vc.int("to", 0, 25)
    vc.assume(k > 0 or n < 25)
    t = base58.b58encode((p + sha2(p)[:4])[k:n]).decode("ascii")
    vc.check(vc.raises(cli.address_to_scripthash, t), "an invalid address is refused")


@vc.theorem("C28")
def main_bad_payload():
    d = vc.bytes("decoded", None, 1, 60)
    vc.assume(len(d) != 25 or d[0] != 0x17 or d[21:] != sha2(d[:21])[:4])
    import base58
    ok, e, out = vc.run_main(cli.main, ["--address-to-scripthash", base58.b58encode(d).decode("ascii")])
    vc.check(not ok, "an invalid address is an error")
    vc.check("Scripthash" not in out, "no script hash is printed")


@vc.theorem("C28")
def main_script_hash():
    h = vc.bytes("script hash", 20)
    ok, e, out = vc.run_main(cli.main, ["--scripthash-to-address", "0x" + h[::-1].hex()])
    vc.check(ok, "the command succeeds")
    vc.check(out == address(h) + "\n", "the address is printed")


@vc.theorem("C28")
def main_little_endian():
    h = vc.bytes("script hash", 20)
    ok, e, out = vc.run_main(cli.main, ["--scripthash-to-address", h.hex()])
    vc.check(ok, "the command succeeds")
    a = address(h) + "\n"
    vc.check(out[len(out) - len(a):] == a, "the address is printed last")


@vc.theorem("C28")
def main_bad_script_hash():
    b = vc.bytes("bytes", None, 1, 60)
    vc.assume(len(b) != 20)
    ok, e, out = vc.run_main(cli.main, ["--scripthash-to-address", "0x" + b.hex()])
    vc.check(not ok, "a script hash of another length is an error")


@vc.theorem("C28")
def main_wallet():
    b = vc.bytes("random bytes", 32)
    ok, e, out = vc.with_random(b, vc.run_main, cli.main, ["--create-wallet"])
    if 0 < int.from_bytes(b, "big") < ORDER:
        vc.check(ok, "a wallet is made")
    if ok:
        w = json.loads(out)
        k = KeyPair.PrivateKeyFromWIF(w["private_key"])
        vc.check(KeyPair(k).GetAddress() == w["address"], "the printed address belongs to the printed key")
    else:
        vc.check(True, "a key out of range gives no wallet")


@vc.theorem("C28")
def main_both():
    """both conversions asked for at once"""
    h = vc.bytes("script hash", 20)
    g = vc.bytes("other script hash", 20)
    ok, e, out = vc.run_main(cli.main, ["--address-to-scripthash", address(h), "--scripthash-to-address", "0x" + g[::-1].hex()])
    vc.check(ok, "the command succeeds")
    head = "Scripthash big endian:  0x" + h[::-1].hex() + "\n"
    vc.check(out[0:len(head)] == head, "the script hash is printed")
    a = "\n" + address(g) + "\n"
    vc.check(out[len(out) - len(a):] == a, "the address is printed")


@vc.theorem("C28")
def main_nothing():
    ok, e, out = vc.run_main(cli.main, [])
    vc.check(not ok, "without arguments there is nothing to do")
    vc.check(out == "", "and nothing is printed")
