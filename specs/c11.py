"""C11: Fixed8 arithmetic, comparison and rounding are exact."""
import vc
from neocore.Fixed8 import Fixed8

D = 100000000


def pair():
    a = vc.int("a")
    b = vc.int("b")
    return a, b, Fixed8(a), Fixed8(b)


def unchanged(x, a, y, b):
    vc.check(x.value == a and y.value == b, "the operands are left alone")


def is_amount(z, v, label):
    vc.check(vc.typename(z) == "Fixed8", label + " is an amount")
    vc.check(vc.isint(z.value), label + " has an integer number of units")
    vc.check(z.value == v, label)


@vc.theorem("C11")
def sums():
    a, b, x, y = pair()
    is_amount(x + y, a + b, "sum")
    is_amount(x - y, a - b, "difference")
    is_amount(-x, -a, "negation")
    is_amount(-(-x), a, "double negation")
    unchanged(x, a, y, b)


@vc.theorem("C11")
def product():
    a, b, x, y = pair()
    is_amount(x * y, a * b, "product of the units")
    unchanged(x, a, y, b)


@vc.theorem("C11")
def in_place():
    a, b, x, y = pair()
    op = vc.choice("op", ["+", "-", "*", "%", "/"])
    z = x
    if op == "+":
        z += y
        v = a + b
    elif op == "-":
        z -= y
        v = a - b
    elif op == "*":
        z *= y
        v = a * b
    elif op == "%":
        vc.assume(b != 0)
        z %= y
        v = a % b
    else:
        vc.assume(b != 0)
        z /= y
        v = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            v = -v
    is_amount(z, v, "in-place operation")
    unchanged(x, a, y, b)


@vc.theorem("C11")
def quotients():
    a, b, x, y = pair()
    if b == 0:
        vc.check(vc.raises(lambda: x / y), "division by zero is refused")
        vc.check(vc.raises(lambda: x // y), "floor division by zero is refused")
        vc.check(vc.raises(lambda: x % y), "remainder by zero is refused")
    else:
        q = x // y
        r = x % y
        is_amount(q, a // b, "floor quotient")
        is_amount(r, a % b, "remainder")
        vc.check(q.value * b + r.value == a, "quotient and remainder make up the dividend")
        vc.check((0 <= r.value < b) if b > 0 else (b < r.value <= 0), "the remainder is smaller than the divisor")
    unchanged(x, a, y, b)


@vc.theorem("C11")
def truncating_division():
    a, b, x, y = pair()
    vc.assume(b != 0)
    q = x / y
    vc.check(vc.typename(q) == "Fixed8" and vc.isint(q.value), "the quotient is an amount")
    t = abs(a) // abs(b)
    vc.check(q.value == (t if (a < 0) == (b < 0) else -t), "the quotient is cut towards zero")
    unchanged(x, a, y, b)


@vc.theorem("C11")
def powers():
    a = vc.int("a")
    n = vc.int("n", 0)
    vc.assume(vc.symbolic or n <= 300)
    x = Fixed8(a)
    y = Fixed8(n)
    is_amount(x ** y, a ** n, "power of the units")
    unchanged(x, a, y, n)


@vc.theorem("C11")
def order():
    a, b, x, y = pair()
    vc.check((x == y) == (a == b), "==")
    vc.check((x != y) == (a != b), "!=")
    vc.check((x < y) == (a < b), "<")
    vc.check((x > y) == (a > b), ">")
    vc.check((x <= y) == (a <= b), "<=")
    vc.check((x >= y) == (a >= b), ">=")
    unchanged(x, a, y, b)


@vc.theorem("C11")
def rounding():
    a = vc.int("a")
    x = Fixed8(a)
    c = x.Ceil()
    f = x.Floor()
    i = x.ToInt()
    vc.check(vc.typename(c) == "Fixed8" and vc.isint(c.value), "Ceil gives an amount")
    vc.check(vc.typename(f) == "Fixed8" and vc.isint(f.value), "Floor gives an amount")
    vc.check(c.value % D == 0 and a <= c.value < a + D, "Ceil gives the next whole amount upwards")
    vc.check(f.value % D == 0 and a - D < f.value <= a, "Floor gives the next whole amount downwards")
    vc.check(vc.isint(i), "ToInt gives an int")
    if a >= 0:
        vc.check(i * D <= a < (i + 1) * D, "ToInt drops the fraction")
    else:
        vc.check((i - 1) * D < a <= i * D, "ToInt drops the fraction of a negative amount")
    vc.check(x.value == a, "rounding leaves the amount alone")


@vc.theorem("C11")
def constants():
    vc.check(Fixed8.FD().value == D and Fixed8.One().value == D, "one")
    vc.check(Fixed8.Satoshi().value == 1, "the smallest amount")
    vc.check(Fixed8.NegativeSatoshi().value == -1, "the smallest negative amount")
    vc.check(Fixed8.Zero().value == 0, "zero")
    a = vc.int("a")
    x = Fixed8(a)
    vc.check(x.GetData() == a, "GetData gives the units")
    vc.check(x.Size() == 8, "an amount takes eight bytes")


@vc.theorem("C11")
def fresh():
    a = vc.int("a")
    one = Fixed8.One()
    one += Fixed8(a)
    zero = Fixed8.Zero()
    zero -= Fixed8(a)
    vc.check(Fixed8.One().value == D and Fixed8.Zero().value == 0 and Fixed8.D == D, "using a constant does not change it")
