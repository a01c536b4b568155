"""C21: key pairs."""
import vc
from specs.near import near
from neocore.KeyPair import KeyPair
from specs.keys import key, public, compressed, script_hash, address, history, h160, P, ORDER


def agree(p, k, x, y):
    vc.check(bytes(p.PrivateKey) == k, "the private key")
    vc.check(p.PublicKey.x.value == x and p.PublicKey.y.value == y, "the public key is the key times the base point")
    vc.check(bytes.fromhex(p.PublicKey.encode_point(True).decode("ascii")) == compressed(x, y), "the compressed public key")
    vc.check(bytes(p.PublicKeyHash.ToArray()) == h160(compressed(x, y)), "the hash of the public key")
    vc.check(p.GetAddress() == address(script_hash(x, y)), "the address is that of the verification script")


@vc.theorem("C21")
def from_private_key():
    history()
    k = key()
    p = KeyPair(k)
    x, y = public(k)
    agree(p, k, x, y)


@vc.theorem("C21")
def from_bytearray_later():
    """later work in the process does not change a key pair"""
    k = key()
    p = KeyPair(k)
    x, y = public(k)
    history()
    agree(p, k, x, y)


@vc.theorem("C21")
def two_pairs():
    k = key()
    p = KeyPair(k)
    a = p.GetAddress()
    history()
    q = KeyPair(k)
    vc.check(q.GetAddress() == a and p.GetAddress() == a, "two key pairs of one key have one address")
    vc.check(p.PublicKey.x.value == q.PublicKey.x.value and p.PublicKey.y.value == q.PublicKey.y.value, "and one public key")
    vc.check(p.PublicKey == q.PublicKey, "and equal public keys")
    vc.check(p.PublicKeyHash == q.PublicKeyHash, "and one public key hash")


@vc.theorem("C21")
def two_keys():
    """each pair is that of its own key"""
    k = key()
    j = vc.bytes("other key", 32, often=near(k))
    n = int.from_bytes(j, "big")
    vc.assume(n > 0 and n < ORDER)
    p = KeyPair(k)
    q = KeyPair(j)
    agree(p, k, *public(k))
    agree(q, j, *public(j))


@vc.theorem("C21")
def from_blob():
    history()
    size = vc.choice("size", [96, 104])
    k = vc.bytes("private key", 32)
    if vc.symbolic:
        x = vc.int("x", 0, P - 1)
        y = vc.int("y", 0, P - 1)
        vc.assume(x != 0 or y != 0)
    else:
        x, y = public(key("point of"))
    p = KeyPair(vc.bytes("head", size - 96) + x.to_bytes(32, "big") + y.to_bytes(32, "big") + k)
    agree(p, k, x, y)


@vc.theorem("C21")
def other_lengths():
    b = vc.bytes("blob", None, 0, 200)
    vc.assume(len(b) != 32 and len(b) != 96 and len(b) != 104)
    vc.check(vc.raises(KeyPair, b), "other lengths are refused")


@vc.theorem("C21")
def key_out_of_range():
    n = vc.int("n", ORDER, 2 ** 256 - 1)
    vc.check(vc.raises(KeyPair, n.to_bytes(32, "big")), "a key beyond the order is refused")
