"""C26: the order of public keys."""
import vc
from neocore.Cryptography.ECCurve import ECDSA, EllipticCurve, FiniteField
from specs.keys import P, ORDER, public, key, compressed


def coordinate(name):
    if vc.symbolic:
        return vc.int(name, 0, P - 1)
    return vc.choice("kind of " + name, [lambda: vc.int(name, 0, P - 1), lambda: vc.int(name, 0, 3),
                                         lambda: P - 1 - vc.int(name, 0, 3)])()


def curve():
    return ECDSA.secp256r1().Curve


def point(name, c=None):
    x, y = coordinate(name + ".x"), coordinate(name + ".y")
    vc.assume(x != 0 or y != 0)
    return x, y, (c or curve()).point(x, y)


def less(a, b):
    return a[0] < b[0] or (a[0] == b[0] and a[1] < b[1])


def same(a, b):
    return a[0] == b[0] and a[1] == b[1]


def agree(a, b):
    p, q = a[2], b[2]
    lt, eq = less(a, b), same(a, b)
    vc.check((p < q) is lt, "< orders by x, then y")
    vc.check((p <= q) is (lt or eq), "<= agrees")
    vc.check((p > q) is (not lt and not eq), "> agrees")
    vc.check((p >= q) is (not lt), ">= agrees")
    vc.check((p == q) is eq, "== compares both coordinates")
    vc.check((p != q) is (not eq), "!= is its negation")
    vc.check(p.x.value == a[0] and p.y.value == a[1] and q.x.value == b[0] and q.y.value == b[1], "the points are left alone")


@vc.theorem("C26")
def two_points():
    agree(point("p"), point("q"))


@vc.theorem("C26")
def one_curve():
    c = curve()
    agree(point("p", c), point("q", c))


@vc.theorem("C26")
def same_x():
    x, y, p = point("p")
    y2 = coordinate("q.y")
    vc.assume(x != 0 or y2 != 0)
    agree((x, y, p), (x, y2, curve().point(x, y2)))


@vc.theorem("C26")
def other_curve():
    """points of the other curve the module knows"""
    c = ECDSA.secp256k1().Curve
    p = c.field.p
    xs = [vc.int(n, 0, p - 1) for n in ("p.x", "p.y", "q.x", "q.y")]
    vc.assume((xs[0] != 0 or xs[1] != 0) and (xs[2] != 0 or xs[3] != 0))
    agree((xs[0], xs[1], c.point(xs[0], xs[1])), (xs[2], xs[3], c.point(xs[2], xs[3])))


@vc.theorem("C26")
def any_field():
    """the order does not depend on the field"""
    p = vc.int("p", 5, None)
    c = EllipticCurve(FiniteField(p), vc.int("a"), vc.int("b"))
    xs = [vc.int(n, 0, None) for n in ("p.x", "p.y", "q.x", "q.y")]
    for x in xs:
        vc.assume(x < p)
    vc.assume((xs[0] != 0 or xs[1] != 0) and (xs[2] != 0 or xs[3] != 0))
    agree((xs[0], xs[1], c.point(xs[0], xs[1])), (xs[2], xs[3], c.point(xs[2], xs[3])))


@vc.theorem("C26")
def itself():
    x, y, p = point("p")
    vc.check(p == p and p <= p and p >= p and not p < p and not p > p and not p != p, "a point equals itself")


@vc.theorem("C26")
def sorting():
    """sorting does not depend on the order the points come in"""
    c = curve()
    a, b, d = point("p", c), point("q", c), point("r", c)
    order = vc.choice("order", [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]])
    t = [a, b, d]
    s = sorted([t[i][2] for i in order])
    w = [(p.x.value, p.y.value) for p in s]
    vc.check(len(s) == 3, "every point is kept")
    vc.check(not less(w[1], w[0]) and not less(w[2], w[1]), "the points come out in order")
    n = [sum([1 for x in w if same(x, y)]) == sum([1 for x in t if same(x, y)]) for y in t]
    vc.check(all(n), "and are the same points")
