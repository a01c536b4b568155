"""Contracts for the number theory below the curve code, and primes to try it on."""
import math
import vc

K1 = 2 ** 256 - 2 ** 32 - 977
SMALL = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 101, 103, 107, 109]
BIG = [2 ** 255 - 19, 2 ** 127 - 1, 2 ** 61 - 1, K1,
       115792089210356248762697446949407573530086143415290314195533631308867097853951,
       115792089210356248762697446949407573529996955224135760342422259061068512044369]


@vc.contract("neocore.Cryptography.ECCurve:GCD", a=vc.Int(0, None), b=vc.Int(0, None), _ring=True,
             _result=vc.Tuple(vc.Int(), vc.Int(), vc.Int()), _decreases=lambda a, b: a)
def gcd(a, b, result):
    """Bezout: the greatest common divisor and its coefficients"""
    g, x, y = result
    return a * x + b * y == g and g == math.gcd(a, b)


def prime(name="p", least=2):
    p = vc.int(name, least, None, among=[q for q in SMALL + BIG if q >= least])
    vc.prime(p)
    return p


def modulus(name="p"):
    return vc.int(name, 2, None, like=SMALL + BIG)


def element(name, p):
    """a canonical residue"""
    x = vc.int(name, 0, p - 1, like=[0, 1 % p, 2 % p, p - 1, p - 2])
    return x


def operand(name, p):
    """any integer"""
    return vc.int(name, like=[0, 1, 2, p - 1, p, p + 1, -1, -p, 2 * p, 1 - p])
