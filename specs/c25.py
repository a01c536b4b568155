"""C25: the group law of elliptic curves."""
import vc
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from specs.curves import Setting, PRIME_ORDER
from specs import field


def on_curve(s, r, what):
    x, y = r.x.value, r.y.value
    vc.check(vc.typename(r) == "ECPoint" and r.curve is s.curve, what + " is a point of the curve object")
    vc.check(0 <= x and x < s.p and 0 <= y and y < s.p, what + " has canonical coordinates")
    vc.check(s.holds(x, y), what + " lies on the curve")


def infinite(r, what):
    vc.check(r.x.value == 0 and r.y.value == 0, what + " is infinity")
    vc.check(r.iszero() and r.IsInfinity, what + " is recognised")


def same(r, x, y, what):
    vc.check(r.x.value == x and r.y.value == y, what)


def chord(s, r, x1, y1, x2, y2, what):
    """the line through both points meets the curve in the opposite of the third"""
    p = s.p
    x3, y3 = r.x.value, r.y.value
    d = x1 - x2
    vc.check((x3 + x1 + x2) * d * d % p == (y1 - y2) * (y1 - y2) % p, what + ": x by the chord")
    vc.check((y3 + y1) * d % p == (y1 - y2) * (x1 - x3) % p, what + ": y by the chord")


def tangent(s, r, x, y, what):
    p = s.p
    x3, y3 = r.x.value, r.y.value
    n = 3 * x * x + s.a
    vc.check((x3 + 2 * x) * (2 * y) * (2 * y) % p == n * n % p, what + ": x by the tangent")
    vc.check((y3 + y) * (2 * y) % p == n * (x - x3) % p, what + ": y by the tangent")


@vc.theorem("C25", ring=True)
def addition():
    s = Setting()
    x1, y1 = s.coordinates("p")
    x2, y2 = s.coordinates("q")
    vc.assume(x1 != x2)
    p, q = s.point(x1, y1), s.point(x2, y2)
    r = p + q
    chord(s, r, x1, y1, x2, y2, "the sum")
    on_curve(s, r, "the sum")
    same(p, x1, y1, "the left operand is left alone")
    same(q, x2, y2, "the right operand is left alone")


@vc.theorem("C25", ring=True)
def doubling():
    s = Setting()
    x, y = s.coordinates("p")
    vc.assume(y != 0)
    p = s.point(x, y)
    r = p + s.point(x, y)
    tangent(s, r, x, y, "the double")
    on_curve(s, r, "the double")
    r = p + p
    tangent(s, r, x, y, "p + p")
    same(p, x, y, "the operand is left alone")


@vc.theorem("C25", ring=True)
def doubling_a_point_of_order_two():
    s = Setting()
    x, y = s.coordinates("p")
    vc.assume(y == 0)
    p = s.point(x, y)
    infinite(p + p, "the double")


@vc.theorem("C25", ring=True)
def opposites():
    s = Setting()
    x, y = s.coordinates("p")
    p = s.point(x, y)
    q = -p
    same(q, x, (-y) % s.p, "the opposite has the same x and the opposite y")
    on_curve(s, q, "the opposite")
    infinite(p + q, "p + -p")
    infinite(q + p, "-p + p")
    infinite(p - p, "p - p")
    same(-q, x, y, "the opposite of the opposite")
    same(p, x, y, "the point is left alone")
    same(q, x, (-y) % s.p, "the opposite is left alone")


@vc.theorem("C25", ring=True)
def identity():
    s = Setting()
    x, y = s.coordinates("p")
    p = s.point(x, y)
    o = s.curve.zero()
    infinite(o, "zero")
    infinite(s.curve.Infinity, "Infinity")
    same(p + o, x, y, "p + 0")
    same(o + p, x, y, "0 + p")
    same(p - o, x, y, "p - 0")
    same(o - p, x, (-y) % s.p, "0 - p")
    infinite(o + o, "0 + 0")
    infinite(-o, "-0")
    infinite(o, "zero afterwards")
    same(p, x, y, "the point is left alone")
    vc.check(p.isoncurve() and o.isoncurve() and not p.iszero(), "both are on the curve")


@vc.theorem("C25", ring=True)
def subtraction():
    s = Setting()
    x1, y1 = s.coordinates("p")
    x2, y2 = s.coordinates("q")
    vc.assume(x1 != x2)
    p, q = s.point(x1, y1), s.point(x2, y2)
    r = p - q
    chord(s, r, x1, y1, x2, -y2, "the difference")
    on_curve(s, r, "the difference")
    same(p, x1, y1, "the left operand is left alone")
    same(q, x2, y2, "the right operand is left alone")


@vc.theorem("C25", ring=True)
def commutes():
    s = Setting()
    x1, y1 = s.coordinates("p")
    x2, y2 = s.coordinates("q")
    vc.assume(x1 != x2)
    p, q = s.point(x1, y1), s.point(x2, y2)
    r, t = p + q, q + p
    same(r, t.x.value, t.y.value, "p + q is q + p")


@vc.theorem("C25", ring=True)
def membership():
    s = Setting()
    x, y = vc.int("x", 0, s.p - 1), vc.int("y", 0, s.p - 1)
    vc.assume(x != 0 or y != 0)
    vc.check(s.point(x, y).isoncurve() is s.holds(x, y), "isoncurve decides the equation")


@vc.theorem("C25", ring=True)
def small_multiples():
    s = Setting()
    x, y = s.coordinates("p")
    p = s.point(x, y)
    infinite(p * 0, "0 p")
    same(p * 1, x, y, "1 p")
    vc.assume(y != 0)
    tangent(s, p * 2, x, y, "2 p")
    same(p, x, y, "the point is left alone")
    infinite(s.curve.zero(), "zero afterwards")


# ------------------------------------------------------------------ multiples of one point

def a_curve(name):
    return Setting(name=name).curve


def coordinates(c, i):
    p = vc.multiple(c, i)
    return p.x.value, p.y.value


def group_law(c, i, j):
    """the sum of the multiples i and j of a point is the multiple i + j: what 'sum' means here"""
    p, a, b = c.field.p, c.a.value, c.b.value
    x1, y1 = coordinates(c, i)
    x2, y2 = coordinates(c, j)
    x3, y3 = coordinates(c, i + j)
    if x1 == 0 and y1 == 0:
        vc.lemma("0 + Q = Q", x3 == x2 and y3 == y2)
        return
    if x2 == 0 and y2 == 0:
        vc.lemma("P + 0 = P", x3 == x1 and y3 == y1)
        return
    if x1 == x2:
        vc.lemma("two points of a curve with the same x are equal or opposite", y1 == y2 or (y1 + y2) % p == 0)
        if (y1 + y2) % p == 0:
            vc.lemma("P + -P = 0", x3 == 0 and y3 == 0)
            return
        t, n = 2 * y1, 3 * x1 * x1 + a
    else:
        t, n = x1 - x2, y1 - y2
    l = vc.slope(i, j)
    vc.lemma("chord and tangent: iG + jG = (i+j)G", (l * t - n) % p == 0 and (x3 - (l * l - x1 - x2)) % p == 0
             and (y3 - (l * (x1 - x3) - y1)) % p == 0)


@vc.contract("neocore.Cryptography.ECCurve:EllipticCurve.add", self=vc.Group(a_curve), p=vc.Multiple(), q=vc.Multiple(), _ring=True,
             _value=True)
def add(self, p, q):
    i, j = vc.multiple_index(p), vc.multiple_index(q)
    if vc.verifying():
        group_law(self, i, j)
    return vc.multiple(self, i + j)


@vc.contract("neocore.Cryptography.ECCurve:EllipticCurve.neg", self=vc.Group(a_curve), pt=vc.Multiple(), _ring=True, _value=True)
def neg(self, pt):
    i = vc.multiple_index(pt)
    if vc.verifying():
        x, y = coordinates(self, i)
        u, v = coordinates(self, -i)
        vc.lemma("-(iG) = (-i)G", u == x and v == (-y) % self.field.p)
    return vc.multiple(self, -i)


@vc.theorem("C25", ring=True)
def contract_of_addition():
    s = Setting()
    s.base()
    i, j = s.index("i"), s.index("j")
    p, q, r = s.multiple(i), s.multiple(j), s.multiple(i + j)
    t = p + q
    same(t, r.x.value, r.y.value, "iG + jG")
    r = s.multiple(i - j)
    t = p - q
    same(t, r.x.value, r.y.value, "iG - jG")
    r = s.multiple(-i)
    same(-p, r.x.value, r.y.value, "-iG")


@vc.theorem("C25", ring=True)
def multiplication():
    s = Setting()
    s.base()
    i, n = s.index("i"), s.index("n", 0)
    p, r = s.multiple(i), s.multiple(i * n)
    x, y = p.x.value, p.y.value
    t = p * n
    same(t, r.x.value, r.y.value, "n times iG is (i n)G")
    same(p, x, y, "the point is left alone")


@vc.theorem("C25", ring=True)
def multiplication_is_repeated_addition():
    s = Setting()
    s.base()
    i, n = s.index("i"), s.index("n", 0)
    p = s.multiple(i)
    r = p * n + p
    t = p * (n + 1)
    same(t, r.x.value, r.y.value, "(n + 1) P is n P + P")


@vc.theorem("C25", ring=True)
def division():
    """dividing by a scalar undoes the multiplication by it"""
    s = Setting(PRIME_ORDER)
    s.base()
    n = s.order()
    i, k = s.index("i"), vc.int("k", 1, n - 1)
    F = FiniteField(n)
    p = s.multiple(i)
    t = (p * F.value(k)) / F.value(k)
    e = i * k * F.value(k).inverse()
    s.repeat(n, i * k * (1 / F.value(k)).value, i)
    same(t, p.x.value, p.y.value, "k P / k is P")


@vc.theorem("C25", ring=True, weight=2)
def signatures():
    """what sign makes, verify accepts"""
    s = Setting(PRIME_ORDER)
    s.base()
    n = s.order()
    m, d, k = s.index("message"), vc.int("key", 1, n - 1), vc.int("secret", 1, n - 1)
    e = ECDSA(s.curve, s.multiple(1), n)
    pub = e.calcpub(d)
    t = s.multiple(d)
    same(pub, t.x.value, t.y.value, "the public key is d G")
    r, w = e.sign(m, d, k)
    R = s.multiple(k)
    vc.check(r.value == R.x.value, "r is the x of k G")
    vc.check((w.value * k - m - r.value * d) % n == 0, "s k = m + r d")
    vc.assume(w.value != 0)
    F = e.GFn
    u, v = (F.value(m) / F.value(w)).value, (F.value(r) / F.value(w)).value
    s.repeat(n, u + d * v, k)
    vc.check(e.verify(m, pub, r, w) is True, "the signature verifies")


@vc.theorem("C25", ring=True, weight=2)
def verification():
    """any pair is accepted exactly when it satisfies the verification equation"""
    s = Setting(PRIME_ORDER)
    s.base()
    n = s.order()
    m, d, r = s.index("message"), vc.int("key", 1, n - 1), vc.int("r", 0, None if vc.symbolic else 300)
    w = vc.int("s", 1, n - 1)
    e = ECDSA(s.curve, s.multiple(1), n)
    F = e.GFn
    R = s.multiple((F.value(m) / F.value(w)).value + d * (F.value(r) / F.value(w)).value)
    vc.check(e.verify(m, s.multiple(d), r, w) is ((R.x.value - r) % s.p == 0), "the verification equation decides")


@vc.theorem("C25", ring=True)
def keys_from_a_reused_secret():
    """two signatures made with one secret give away the secret and the key"""
    s = Setting(PRIME_ORDER)
    n = s.order()
    d, k = vc.int("key", 0, n - 1), vc.int("secret", 1, n - 1)
    r, m1, m2 = vc.int("r", 1, n - 1), s.index("m1"), s.index("m2")
    e = ECDSA(s.curve, s.curve.zero(), n)
    F = e.GFn
    s1, s2 = (F.value(m1) + F.value(r) * d) / F.value(k), (F.value(m2) + F.value(r) * d) / F.value(k)
    vc.assume(s1.value != s2.value)
    x = e.crack1(F.value(r), s1, m1, k)
    vc.check(x.value == d, "the key, from one signature and its secret")
    u, x = e.crack2(F.value(r), s1, s2, m1, m2)
    vc.check(u.value == k, "the secret")
    vc.check(x.value == d, "the key")


@vc.theorem("C25")
def standard_curves():
    e = ECDSA.secp256r1()
    c = e.Curve
    p = 2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1
    vc.check(c.field.p == p and c.a.value == p - 3
             and c.b.value == 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B, "the equation of P-256")
    vc.check(e.G.x.value == 0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296
             and e.G.y.value == 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5, "its base point")
    vc.check(e.GFn.p == 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551, "its order")
    vc.check(e.G.isoncurve(), "the base point is on the curve")
    e = ECDSA.secp256k1()
    c = e.Curve
    vc.check(c.field.p == 2 ** 256 - 2 ** 32 - 977 and c.a.value == 0 and c.b.value == 7, "the equation of secp256k1")
    vc.check(e.G.x.value == 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
             and e.G.y.value == 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8, "its base point")
    vc.check(e.GFn.p == 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, "its order")
    vc.check(e.G.isoncurve(), "the base point is on the curve")


@vc.theorem("C25")
def orders():
    """the order times the base point is infinity"""
    for e in (ECDSA.secp256r1(), ECDSA.secp256k1()):
        infinite(e.G * e.GFn.p, "the order times G")
