"""C14: big integer arithmetic is exact and closed."""
import vc
from neocore.BigInteger import BigInteger
import neocore.BigInteger as module


def is_big(z, v, label):
    vc.check(vc.typename(z) == "BigInteger", label + " is a big integer")
    vc.check(z == v, label)


def other(b):
    if vc.choice("other", ["big", "int"]) == "big":
        return BigInteger(b)
    return b


@vc.theorem("C14")
def sums():
    a = vc.int("a")
    b = vc.int("b")
    x = BigInteger(a)
    y = other(b)
    is_big(x + y, a + b, "sum")
    is_big(x - y, a - b, "difference")
    is_big(x * y, a * b, "product")
    vc.check(x == a and y == b, "the operands are left alone")


@vc.theorem("C14")
def quotients():
    a = vc.int("a")
    b = vc.int("b")
    x = BigInteger(a)
    y = other(b)
    if b == 0:
        vc.check(vc.raises(lambda: x / y), "division by zero is refused")
        vc.check(vc.raises(lambda: x // y), "floor division by zero is refused")
        vc.check(vc.raises(lambda: x % y), "remainder by zero is refused")
    else:
        q = x // y
        r = x % y
        is_big(q, a // b, "floor quotient")
        is_big(x / y, a // b, "quotient")
        is_big(r, a % b, "remainder")
        vc.check(q * b + r == a, "quotient and remainder make up the dividend")
        vc.check((0 <= r and r < b) if b > 0 else (b < r and r <= 0), "the remainder is smaller than the divisor")


@vc.theorem("C14")
def signs():
    a = vc.int("a")
    x = BigInteger(a)
    is_big(-x, -a, "negation")
    is_big(abs(x), a if a >= 0 else -a, "absolute value")
    vc.check(x.Sign == (1 if a > 0 else (0 if a == 0 else -1)), "sign")
    b = vc.int("b")
    vc.check(x.Equals(BigInteger(b)) == (a == b), "Equals of big integers")
    vc.check(x.Equals(b) == (a == b), "Equals of a plain integer")


@vc.theorem("C14")
def shifts():
    a = vc.int("a")
    n = vc.int("n")
    x = BigInteger(a)
    if n < 0:
        vc.check(vc.raises(lambda: x << n) and vc.raises(lambda: x >> n), "negative shifts are refused")
    else:
        vc.assume(vc.symbolic or n < 3000)
        is_big(x << n, a * 2 ** n, "left shift")
        is_big(x >> n, a // 2 ** n, "right shift")
        is_big(x << BigInteger(n), a * 2 ** n, "left shift by a big integer")
        is_big(x >> BigInteger(n), a // 2 ** n, "right shift by a big integer")


@vc.theorem("C14")
def order():
    a = vc.int("a")
    b = vc.int("b")
    x = BigInteger(a)
    y = other(b)
    vc.check((x == y) == (a == b), "==")
    vc.check((x != y) == (a != b), "!=")
    vc.check((x < y) == (a < b), "<")
    vc.check((x > y) == (a > b), ">")
    vc.check((x <= y) == (a <= b), "<=")
    vc.check((x >= y) == (a >= b), ">=")
    if a == b:
        vc.check(hash(x) == hash(y), "equal integers have equal hashes")


@vc.theorem("C14")
def text():
    a = vc.int("a")
    vc.check(str(BigInteger(a)) == str(a), "the text is the number")


@vc.theorem("C14")
def constants():
    vc.check(module.ZERO == 0 and vc.typename(module.ZERO) == "BigInteger", "ZERO")
    vc.check(module.ONE == 1 and vc.typename(module.ONE) == "BigInteger", "ONE")
