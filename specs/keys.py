"""What a P-256 key pair has to be, from the libraries the code stands on."""
import hashlib
import base58
import bitcoin
import vc

P = 115792089210356248762697446949407573530086143415290314195533631308867097853951
ORDER = 115792089210356248762697446949407573529996955224135760342422259061068512044369
A = 115792089210356248762697446949407573530086143415290314195533631308867097853948
B = 41058363725152142129326129780047268409114441015993725554835256314039467401291
GX = 0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296
GY = 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5


def sha2(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def h160(b):
    return hashlib.new("ripemd160", hashlib.sha256(b).digest()).digest()


def with_zeros(r):
    """a key whose public point has a zero byte at an end of x or of y"""
    return r.choice([43, 104, 273, 379, 27929]).to_bytes(32, "big")


def key(name="private key"):
    k = vc.bytes(name, 32, often=with_zeros)
    n = int.from_bytes(k, "big")
    vc.assume(n > 0 and n < ORDER)
    return k


def public(k):
    """the coordinates of k times the base point"""
    if vc.symbolic:
        bitcoin.change_curve(P, ORDER, A, B, GX, GY)
        p = bitcoin.privkey_to_pubkey(k)
        return int.from_bytes(p[1:33], "big"), int.from_bytes(p[33:65], "big")
    import ecdsa
    s = ecdsa.SigningKey.from_secret_exponent(int.from_bytes(k, "big"), curve=ecdsa.NIST256p).get_verifying_key().to_string()
    return int.from_bytes(s[:32], "big"), int.from_bytes(s[32:], "big")


def compressed(x, y):
    return bytes([2 + y % 2]) + x.to_bytes(32, "big")


def script_hash(x, y):
    """of the script which checks one signature"""
    return h160(b"\x21" + compressed(x, y) + b"\xac")


def address(h):
    return base58.b58encode(b"\x17" + h + sha2(b"\x17" + h)[:4]).decode("ascii")


def other_curve():
    """other code sets the library to another curve"""
    bitcoin.change_curve(2 ** 256 - 2 ** 32 - 977, 2 ** 256 - 432420386565659656852420866394968145599, 0, 7,
                         0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
                         0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def history():
    """what may have happened in the process before"""
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography.Crypto import Crypto
    h = vc.choice("history", ["nothing", "another key", "another curve", "default", "a signature"])
    if h == "another key":
        KeyPair(key("another"))
    elif h == "another curve":
        other_curve()
    elif h == "default":
        Crypto.Default()
    elif h == "a signature":
        Crypto.Sign(b"00", key("another").hex())
    return h
