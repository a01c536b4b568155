"""C24: prime fields."""
import vc
from neocore.Cryptography.ECCurve import FiniteField, sqrtCQ, modinv
from specs.field import prime, modulus, element, operand


def result(v, F, n, p, what):
    vc.check(vc.typename(v) == "Value", what + " is a field element")
    vc.check(v.value == n % p, what + " is the canonical residue")
    vc.check(v.field is F, what + " belongs to the field")


@vc.theorem("C24", ring=True)
def two_elements():
    p = modulus()
    F = FiniteField(p)
    a, b = element("a", p), element("b", p)
    x, y = F.value(a), F.value(b)
    result(x + y, F, a + b, p, "the sum")
    result(x - y, F, a - b, p, "the difference")
    result(x * y, F, a * b, p, "the product")
    result(-x, F, -a, p, "the negative")
    vc.check(x.value == a and y.value == b, "the operands are left alone")


@vc.theorem("C24", ring=True)
def integer_on_the_right():
    p = modulus()
    F = FiniteField(p)
    a, n = element("a", p), operand("n", p)
    x = F.value(a)
    result(x + n, F, a + n, p, "the sum")
    result(x - n, F, a - n, p, "the difference")
    result(x * n, F, a * n, p, "the product")


@vc.theorem("C24", ring=True)
def integer_on_the_left():
    p = modulus()
    F = FiniteField(p)
    a, n = element("a", p), operand("n", p)
    x = F.value(a)
    result(n + x, F, n + a, p, "the sum")
    result(n - x, F, n - a, p, "the difference")
    result(n * x, F, n * a, p, "the product")


@vc.theorem("C24", ring=True)
def element_of_any_integer():
    p = modulus()
    F = FiniteField(p)
    m, n = operand("m", p), operand("n", p)
    x, y = F.value(m), F.value(n)
    result(x + y, F, m + n, p, "the sum")
    result(x - y, F, m - n, p, "the difference")
    result(x * y, F, m * n, p, "the product")
    result(-x, F, -m, p, "the negative")


@vc.theorem("C24", ring=True)
def powers():
    p = modulus()
    F = FiniteField(p)
    a = element("a", p)
    n = vc.int("n", 0, None if vc.symbolic else 2 ** 300)
    v = F.value(a) ** n
    vc.check(vc.typename(v) == "Value" and v.field is F, "a power is a field element")
    vc.check(v.value == pow(a, n, p), "a power is the canonical residue")


@vc.theorem("C24", ring=True)
def small_powers():
    p = modulus()
    F = FiniteField(p)
    a = element("a", p)
    x = F.value(a)
    result(x ** 0, F, 1, p, "the power 0")
    result(x ** 1, F, a, p, "the first power")
    result(x ** 2, F, a * a, p, "the square")
    result(x ** 3, F, a * a * a, p, "the cube")
    result(x ** 5, F, a * a * a * a * a, p, "the fifth power")
    vc.check(x.value == a, "the element is left alone")


@vc.theorem("C24", ring=True)
def field_exponent():
    """the exponent may be a field element, which stands for its integer"""
    p = modulus()
    F = FiniteField(p)
    a, n = element("a", p), element("n", p)
    vc.check((F.value(a) ** F.value(n)).value == pow(a, n, p), "a power of an element")
    vc.check((a ** F.value(n)).value == pow(a, n, p), "a power of an integer")


@vc.theorem("C24", ring=True)
def inverse():
    p = prime()
    F = FiniteField(p)
    a = operand("a", p)
    vc.assume(a % p != 0)
    x = F.value(a)
    result(x * x.inverse(), F, 1, p, "x times its inverse")
    vc.check(x.value == a, "the element is left alone")
    vc.check((a * x.inverse()) % p == 1, "the inverse as an integer")


@vc.theorem("C24", ring=True)
def inverse_of_a_unit():
    """a plain modular inverse"""
    p = prime()
    a = element("a", p)
    vc.assume(a != 0)
    vc.check((a * modinv(a, p)) % p == 1, "x times its inverse is 1")


@vc.theorem("C24", ring=True)
def division():
    p = prime()
    F = FiniteField(p)
    a, b = operand("a", p), operand("b", p)
    vc.assume(b % p != 0)
    x, y = F.value(a), F.value(b)
    for q in (x / y, x / b, a / y):
        vc.check(vc.typename(q) == "Value" and q.field is F, "a quotient is a field element")
        vc.check(0 <= q.value and q.value < p, "a canonical one")
        result(q * y, F, a, p, "a quotient times the divisor")
    vc.check(x.value == a and y.value == b, "the operands are left alone")


@vc.theorem("C24", ring=True)
def equality():
    p = modulus()
    F = FiniteField(p)
    a, b = operand("a", p), operand("b", p)
    x, y = F.value(a), F.value(b)
    same = (a - b) % p == 0
    vc.check((x == y) is same and (x == b) is same, "equality is equality of residues")
    vc.check((x != y) is not same and (x != b) is not same, "and != its negation")
    vc.check(x.value == a and y.value == b, "the operands are left alone")


@vc.theorem("C24", ring=True)
def constants():
    p = modulus()
    F = FiniteField(p)
    a = element("a", p)
    x = F.value(a)
    vc.check(F.zero().value == 0 and F.one().value == 1, "zero and one")
    result(x + F.zero(), F, a, p, "x + 0")
    result(x * F.one(), F, a, p, "x * 1")
    result(x - x, F, 0, p, "x - x")
    vc.check(F.zero().iszero() and (x.iszero() is (a == 0)), "iszero")


@vc.theorem("C24", ring=True)
def same_element_of_another_field():
    """an element is used by its integer in another field object of the same modulus"""
    p = modulus()
    F, G = FiniteField(p), FiniteField(p)
    a, b = element("a", p), element("b", p)
    result(F.value(a) + G.value(b), F, a + b, p, "the sum")
    result(F.value(a) * G.value(b), F, a * b, p, "the product")
    vc.check(F.value(G.value(b)).value == b, "conversion keeps the integer")


@vc.theorem("C24", ring=True)
def laws():
    p = modulus()
    F = FiniteField(p)
    x, y, z = F.value(element("a", p)), F.value(element("b", p)), F.value(element("c", p))
    vc.check(((x + y) + z).value == (x + (y + z)).value, "addition is associative")
    vc.check(((x * y) * z).value == (x * (y * z)).value, "multiplication is associative")
    vc.check((x * (y + z)).value == (x * y + x * z).value, "multiplication distributes over addition")
    vc.check((x + y).value == (y + x).value and (x * y).value == (y * x).value, "both commute")
    vc.check((x + (-x)).value == 0 and (x - y).value == (x + (-y)).value, "negatives")


def root_of_a_square(p):
    r = element("r", p)
    return r, r * r % p


@vc.theorem("C24", ring=True)
def square_root_3_mod_4():
    p = prime(least=3)
    vc.assume(p % 4 == 3)
    F = FiniteField(p)
    r, v = root_of_a_square(p)
    e = pow(v, (p + 1) // 4, p)
    vc.lemma("for a prime p = 3 mod 4, v^((p+1)/4) squares to v when v is a square", e * e % p == v)
    flag = vc.choice("flag", [0, 1])
    w = F.value(v)
    s = w.sqrt(flag)
    vc.check((s * s).value == v, "the square root squares to its argument")
    vc.check(w.value == v, "the argument is left alone")
    vc.check(v == 0 or s.value % 2 == flag, "the root has the parity asked for")
    vc.check(0 <= s.value and s.value < p, "it is canonical")


@vc.theorem("C24", ring=True)
def square_root_5_mod_8():
    p = prime(least=5)
    vc.assume(p % 8 == 5)
    F = FiniteField(p)
    r, v = root_of_a_square(p)
    vc.assume(v != 0)
    x = pow(v, (p - 1) // 4, p)
    if x == 1:
        e = pow(v, (p + 3) // 8, p)
    else:
        e = pow(4 * v % p, (p - 5) // 8, p) * 2 * v
    vc.lemma("for a prime p = 5 mod 8, a non-zero square v has v^((p-1)/4) = 1 and v^((p+3)/8) squares to it, or (4v)^((p-5)/8) 2v does",
             e * e % p == v)
    flag = vc.choice("flag", [0, 1])
    w = F.value(v)
    s = w.sqrt(flag)
    vc.check((s * s).value == v, "the square root squares to its argument")
    vc.check(w.value == v, "the argument is left alone")
    vc.check(s.value % 2 == flag, "the root has the parity asked for")
    vc.check(0 <= s.value and s.value < p, "it is canonical")


@vc.theorem("C24", ring=True)
def square_root_of_zero():
    p = vc.int("p", 3, None, like=[3, 5, 7, 11, 13])
    F = FiniteField(p)
    vc.check(F.zero().sqrt(vc.choice("flag", [0, 1])).value == 0, "the square root of zero")


@vc.theorem("C24", ring=True)
def square_root_1_mod_8():
    p = vc.int("p", 9, None, like=[17, 41, 73])
    vc.assume(p % 8 == 1)
    v = element("v", p)
    vc.assume(v != 0)
    vc.check(vc.raises(FiniteField(p).value(v).sqrt, 0), "not supported")


@vc.theorem("C24", ring=True)
def integer_square_root():
    """sqrtCQ only returns square roots, and finds those of squares"""
    p = prime(least=3)
    vc.assume(p % 4 == 3)
    v = element("v", p)
    s = sqrtCQ(v, p)
    if s is not None:
        vc.check(s * s % p == v and 0 <= s and s < p, "the square root squares to its argument")
    else:
        vc.check(True, "no root")


@vc.theorem("C24", ring=True)
def integer_square_root_of_a_square():
    p = prime(least=3)
    vc.assume(p % 4 == 3)
    r, v = root_of_a_square(p)
    e = pow(v, (p + 1) // 4, p)
    vc.lemma("for a prime p = 3 mod 4, v^((p+1)/4) squares to v when v is a square", e * e % p == v)
    s = sqrtCQ(v, p)
    vc.check(s is not None, "a square has a root")
    vc.check(s * s % p == v, "the square root squares to its argument")
