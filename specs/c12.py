"""C12: decimal numbers and texts become amounts, and amounts texts, without losing a unit."""
from decimal import Decimal
from fractions import Fraction
import vc
from neocore.Fixed8 import Fixed8

D = 100000000
LIMIT = 10 ** 15 - 1            # units: below 10^7 whole amounts a double shows every unit


def cut(q):
    """towards zero"""
    return int(q)


def is_amount(z, v, label):
    vc.check(vc.typename(z) == "Fixed8", label + " gives an amount")
    vc.check(vc.isint(z.value), label + " gives an integer number of units")
    vc.check(z.value == v, label + " gives exactly the units")


@vc.theorem("C12")
def whole_numbers():
    n = vc.int("n")
    is_amount(Fixed8.FromDecimal(n), n * D, "FromDecimal of a whole number")


@vc.theorem("C12")
def parse_whole_numbers():
    n = vc.int("n")
    vc.assume(abs(n) < 10 ** 300)
    is_amount(Fixed8.TryParse(n), n * D, "TryParse of a whole number")


@vc.theorem("C12")
def floats():
    k = vc.int("k", -LIMIT, LIMIT)
    x = k / D
    is_amount(Fixed8.FromDecimal(x), k, "FromDecimal of a float")
    is_amount(Fixed8.TryParse(x), k, "TryParse of a float")


@vc.theorem("C12")
def decimals():
    k = vc.int("k", -10 ** 18, 10 ** 18)
    is_amount(Fixed8.FromDecimal(Decimal(k) / Decimal(D)), k, "FromDecimal of a Decimal")
    is_amount(Fixed8.FromDecimal(Fraction(k, D)), k, "FromDecimal of a Fraction")


@vc.theorem("C12")
def fractions():
    k = vc.int("k")
    m = vc.int("m", 1)
    if not vc.symbolic and vc.bool("near"):
        k = k * m + vc.int("off", -1, 1)
        m = m * D
    q = Fraction(k, m)
    is_amount(Fixed8.FromDecimal(q), cut(q * D), "FromDecimal of a fraction")


def text_of(k, places):
    """the decimal text of k / 10^places"""
    s = str(abs(k)).rjust(places + 1, "0")
    return ("-" if k < 0 else "") + s[:-places] + "." + s[-places:]


def near():
    """a text next to a whole number of units"""
    p = vc.int("more places", 1, 40)
    return text_of(vc.int("units", -10 ** 12, 10 ** 12) * 10 ** p + vc.int("off", -3, 3), 8 + p)


@vc.theorem("C12")
def texts():
    """any text which reads as a decimal number"""
    kind = vc.choice("kind", ["any", "decimal", "long", "whole", "near"])
    if kind == "any" or vc.symbolic:
        t = vc.text("t")
    elif kind == "decimal":
        t = text_of(vc.int("k", -10 ** 24, 10 ** 24), 8)
    elif kind == "long":
        t = text_of(vc.int("k", -10 ** 30, 10 ** 30), 12)
    elif kind == "near":
        t = near()
    else:
        t = str(vc.int("k", -10 ** 30, 10 ** 30))
    vc.assume(not vc.raises(float, t))
    ok, q = vc.outcome(Fraction, t)
    vc.assume(ok)
    is_amount(Fixed8.TryParse(t), cut(q * D), "TryParse of a text")


@vc.theorem("C12")
def not_a_number():
    t = vc.text("t")
    vc.assume(vc.raises(float, t))
    vc.assume(vc.raises(int, t))
    vc.check(Fixed8.TryParse(t) is None, "a text which is no number gives None")
    vc.check(Fixed8.TryParse(t, True) is None, "a text which is no number gives None")
    vc.check(Fixed8.TryParse(None) is None, "None gives None")


@vc.theorem("C12")
def sign():
    n = vc.int("n")
    vc.assume(abs(n) < 10 ** 300)
    z = Fixed8.TryParse(n, require_positive=True)
    if n < 0:
        vc.check(z is None, "a negative number is refused")
    else:
        is_amount(z, n * D, "a number which is not negative")


@vc.theorem("C12")
def sign_of_floats():
    k = vc.int("k", -LIMIT, LIMIT)
    z = Fixed8.TryParse(k / D, require_positive=True)
    if k < 0:
        vc.check(z is None, "a negative float is refused")
    else:
        is_amount(z, k, "a float which is not negative")


@vc.theorem("C12")
def sign_of_texts():
    if vc.symbolic:
        t = vc.text("t")
    else:
        t = near() if vc.bool("near") else text_of(vc.int("k", -10 ** 12, 10 ** 12), vc.int("places", 1, 9))
    vc.assume(not vc.raises(float, t))
    ok, q = vc.outcome(Fraction, t)
    vc.assume(ok)
    z = Fixed8.TryParse(t, require_positive=True)
    if q < 0:
        vc.check(z is None, "a negative text is refused")
    else:
        is_amount(z, cut(q * D), "a text which is not negative")


@vc.theorem("C12")
def display():
    k = vc.int("k", -LIMIT, LIMIT)
    x = Fixed8(k)
    s = x.ToString()
    vc.check(str(x) == s, "str and ToString agree")
    vc.check(Fraction(s) == Fraction(k, D), "the text is the number")
    is_amount(Fixed8.TryParse(s), k, "reading the text again")
    vc.check(x.value == k, "displaying leaves the amount alone")


@vc.theorem("C12")
def display_json():
    k = vc.int("k", -LIMIT, LIMIT)
    x = Fixed8(k)
    s = x.ToString()
    j = x.ToNeoJsonString()
    if s[-2:] == ".0":
        vc.check(j == s[:-2], "the JSON text drops .0")
        vc.check(k % D == 0 or vc.symbolic, "only whole amounts end in .0")
    else:
        vc.check(j == s, "the JSON text is the text")
    vc.check(x.value == k, "displaying leaves the amount alone")
    if not vc.symbolic:
        is_amount(Fixed8.TryParse(j), k, "reading the JSON text again")


@vc.theorem("C12")
def display_results():
    """amounts which were computed, from amounts which were displayed"""
    k, m = vc.int("k", -LIMIT, LIMIT), vc.int("m", -LIMIT, LIMIT)
    x, y = Fixed8(k), Fixed8(m)
    sx, sy = x.ToString(), y.ToString()
    op = vc.choice("op", ["+", "-", "neg", "ceil", "floor"])
    if op == "+":
        z, v = x + y, k + m
    elif op == "-":
        z, v = x - y, k - m
    elif op == "neg":
        z, v = -x, -k
    elif op == "ceil":
        z, v = x.Ceil(), -(-k // D) * D
    else:
        z, v = x.Floor(), k // D * D
    vc.assume(-LIMIT <= v <= LIMIT)
    s = z.ToString()
    vc.check(Fraction(s) == Fraction(v, D), "the text of the result is the number")
    is_amount(Fixed8.TryParse(s), v, "reading the text again")
    vc.check(x.ToString() == sx and y.ToString() == sy, "the operands have their texts")
