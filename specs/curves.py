"""Curves and points to state the group law on."""
import vc
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField

# p, a, b, a point, its order
CURVES = [
    (5, 2, 1, 0, 1, 7), (7, 2, 1, 0, 1, 5), (7, 5, 3, 1, 3, 6), (11, 7, 2, 7, 3, 7), (11, 3, 3, 0, 5, 4), (13, 10, 12, 0, 5, 19),
    (13, 4, 7, 1, 5, 14), (17, 9, 5, 1, 7, 11), (17, 4, 14, 1, 6, 10), (19, 12, 8, 4, 5, 13), (19, 6, 16, 0, 4, 28),
    (23, 1, 4, 0, 2, 29), (23, 3, 4, 0, 2, 6), (29, 8, 23, 0, 9, 31), (29, 26, 7, 0, 6, 34), (31, 6, 30, 2, 9, 29),
    (31, 15, 10, 0, 14, 30), (43, 41, 6, 0, 7, 37), (43, 19, 22, 2, 5, 12), (61, 41, 34, 0, 20, 67), (61, 51, 49, 0, 7, 70),
    (103, 38, 45, 2, 51, 97), (103, 38, 20, 1, 33, 120), (127, 45, 64, 0, 8, 139), (127, 25, 76, 0, 40, 18),
    (251, 20, 69, 0, 123, 257), (251, 221, 124, 4, 90, 80),
    (115792089210356248762697446949407573530086143415290314195533631308867097853951, -3,
     41058363725152142129326129780047268409114441015993725554835256314039467401291,
     0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
     0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5,
     0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551),
    (2 ** 256 - 2 ** 32 - 977, 0, 7,
     0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8,
     2 ** 256 - 432420386565659656852420866394968145599)]
PRIME_ORDER = [c for c in CURVES if c[5] % 2 == 1]
CURVES = PRIME_ORDER + [c for c in CURVES if c[5] % 2 == 0]


def chord(c, P, Q):
    """reference arithmetic on coordinate pairs; (0, 0) is infinity"""
    p, a = c[0], c[1]
    if P == (0, 0):
        return Q
    if Q == (0, 0):
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return 0, 0
        l = (3 * P[0] * P[0] + a) * pow(2 * P[1], p - 2, p)
    else:
        l = (P[1] - Q[1]) * pow(P[0] - Q[0], p - 2, p)
    x = (l * l - P[0] - Q[0]) % p
    return x, (l * (P[0] - x) - P[1]) % p


def times(c, i):
    """i times the base point"""
    i %= c[5]
    r, s = (0, 0), (c[3], c[4])
    while i:
        if i & 1:
            r = chord(c, r, s)
        s = chord(c, s, s)
        i >>= 1
    return r


class Setting:
    """a curve over a prime field, with its parameters"""

    def __init__(self, curves=CURVES, name="curve"):
        if vc.symbolic:
            self.p = vc.int(name + ".p", 5, None)
            vc.prime(self.p)
            self.a = vc.int(name + ".a", 0, self.p - 1)
            self.b = vc.int(name + ".b", 1, self.p - 1)
            self.known = None
        else:
            self.known = vc.choice(name, curves)
            self.p, self.a, self.b = self.known[0], self.known[1] % self.known[0], self.known[2]
        self.field = FiniteField(self.p)
        self.curve = EllipticCurve(self.field, self.a, self.b)

    def holds(self, x, y):
        return (y * y - x * x * x - self.a * x - self.b) % self.p == 0

    def coordinates(self, name):
        """of any finite point of the curve"""
        if self.known:
            x, y = times(self.known, vc.int(name, 1, self.known[5] - 1, like=[1, 2, 3, 4, self.known[5] // 2, self.known[5] - 1]))
            vc.assume(x != 0 or y != 0)
            return x, y
        x, y = vc.int(name + ".x", 0, self.p - 1), vc.int(name + ".y", 0, self.p - 1)
        vc.assume(self.holds(x, y))
        vc.assume(x != 0 or y != 0)
        return x, y

    def point(self, x, y):
        return self.curve.point(x, y)

    def base(self):
        """fix a point whose multiples are spoken of"""
        if vc.symbolic:
            vc.group(self.curve)

    def index(self, name, lo=None):
        if vc.symbolic:
            return vc.int(name, lo, None)
        n = self.known[5]
        return vc.int(name, lo, None, like=[0, 1, 2, 3, n - 1, n, n + 1, -1, 2 * n, n // 2])

    def multiple(self, i):
        if vc.symbolic:
            return vc.multiple(self.curve, i)
        return self.curve.point(*times(self.known, i))

    def order(self):
        """of the fixed point, a prime"""
        if not vc.symbolic:
            return self.known[5]
        n = vc.int("order", 5, None)
        vc.prime(n)
        return n

    def repeat(self, n, i, j):
        """multiples repeat with the order of the point"""
        vc.check((i - j) % n == 0, "the multiples are the same modulo the order")
        p, q = self.multiple(i), self.multiple(j)
        vc.lemma("i = j modulo the order of G, so iG = jG", p.x.value == q.x.value and p.y.value == q.y.value)
