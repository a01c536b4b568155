"""Built-in types and functions of the interpreted language."""
import io
import operator
import string as _string
import z3
from .core import *
from . import ropes as R
from .values import *
from . import values as V

NATIVE = (int, float, str, bytes, bool, type(None))
f_xor = z3.Function('xor8', I, I, I)
f_pow2 = z3.Function('pow2', I, I)
f_bl = z3.Function('bitlen', I, I)
f_ipow = z3.Function('ipow', I, I, I)
from .algebra import f_powm                                         # noqa: E402
from . import fam as FAM                                            # noqa: E402
from . import algebra as ALG                                        # noqa: E402
f_bsint = z3.Function('bsint', BS, I)      # little-endian value of a byte string
f_fdiv = z3.Function('fdiv', I, I, FL)     # int / int, correctly rounded
f_fofi = z3.Function('fofi', I, FL)
f_fmul = z3.Function('fmul', FL, FL, FL)
f_fadd = z3.Function('fadd', FL, FL, FL)
f_fsub = z3.Function('fsub', FL, FL, FL)
f_fdv = z3.Function('fdv', FL, FL, FL)
f_ftrunc = z3.Function('ftrunc', FL, I)
f_ffloor = z3.Function('ffloor', FL, I)
f_fceil = z3.Function('fceil', FL, I)
f_fracok = z3.Function('fraction_parses', BS, B)
f_fracval = z3.Function('fraction_parsed', BS, z3.RealSort())
f_fin = z3.Function('ffinite', FL, B)
f_fval = z3.Function('frepr', FL, z3.RealSort())   # the decimal number str(x) denotes
f_ftext = z3.Function('ftext', FL, BS)
f_sgn = z3.Function('fsign', FL, I)
f_u8 = {}
f_dec = {}

DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__', 'Div': '__truediv__',
          'Pow': '__pow__', 'LShift': '__lshift__', 'RShift': '__rshift__', 'BitAnd': '__and__', 'BitOr': '__or__',
          'BitXor': '__xor__', 'MatMult': '__matmul__'}
RDUNDER = {k: '__r' + v[2:] for k, v in DUNDER.items()}
IDUNDER = {k: '__i' + v[2:] for k, v in DUNDER.items()}
OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'FloorDiv': operator.floordiv, 'Mod': operator.mod,
       'Div': operator.truediv, 'Pow': operator.pow, 'LShift': operator.lshift, 'RShift': operator.rshift,
       'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor}
CMP = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}
CMPD = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}
DMAP = {v: k for k, v in DUNDER.items()}
RDMAP = {v: k for k, v in RDUNDER.items()}
CDMAP = {v: k for k, v in CMPD.items()}


def trust(name):
    st = C().ex.stats
    st.trusted[name] = st.trusted.get(name, 0) + 1


# ------------------------------------------------------------------ conversion native <-> interpreted

def to_native(v):
    """the Python value, or None-marker UNSET when not concrete"""
    if isinstance(v, NATIVE):
        return v
    if isinstance(v, tuple):
        return tuple(to_native(x) for x in v)
    if isinstance(v, ByteArray):
        e = R.concrete(v.rope)
        if e is not None:
            return bytearray(e)
    if isinstance(v, PyList) and v.concrete():
        return [to_native(x) for x in v.items]
    if isinstance(v, RangeV) and all(isinstance(x, int) for x in (v.start, v.stop, v.step)):
        return range(v.start, v.stop, v.step)
    if isinstance(v, type):
        return v
    if isinstance(v, PyDict):
        return {to_native(a): to_native(b) for a, b in v.d.values()}
    if isinstance(v, (PySet,)):
        return set(to_native(x) for x in v.items)
    if isinstance(v, SInt) and z3.is_int_value(v.t) and v.cls is int:
        return v.t.as_long()
    if isinstance(v, slice):
        return v
    raise NotConcrete()


class NotConcrete(Exception):
    pass


def from_native(x):
    if isinstance(x, NATIVE):
        return x
    if isinstance(x, bytearray):
        return ByteArray(R.lit(bytes(x)))
    if isinstance(x, tuple):
        return tuple(from_native(y) for y in x)
    if isinstance(x, list):
        return PyList([from_native(y) for y in x])
    if isinstance(x, dict):
        d = PyDict()
        for k, v in x.items():
            d.d[k] = (from_native(k), from_native(v))
        return d
    if isinstance(x, (set, frozenset)):
        return PySet([from_native(y) for y in x])
    if isinstance(x, range):
        return RangeV(x.start, x.stop, x.step)
    if isinstance(x, type):
        return x
    if isinstance(x, (zip, map, filter, enumerate, reversed)) or hasattr(x, '__next__'):
        return PyList([from_native(y) for y in x])
    if type(x).__name__ in ('dict_keys', 'dict_values', 'dict_items', 'memoryview'):
        return PyList([from_native(y) for y in x])
    raise Unsupported('native value of type %s' % type(x).__name__)


def native_call(fn, args, kw):
    """call a native function on concrete arguments; raises NotConcrete"""
    a = [to_native(x) for x in args]
    k = {n: to_native(x) for n, x in kw.items()}
    try:
        r = fn(*a, **k)
    except Exception as e:
        raise PyExc(Obj(type(e), {'args': tuple(str(x) for x in e.args)}))
    return from_native(r)


# ------------------------------------------------------------------ numbers

def pow2(e):
    e = lsimp(e)
    if isinstance(e, int):
        if e < 0:
            raise_(ValueError, 'negative shift count')
        return 2 ** e
    t = f_pow2(e)
    c = C()
    tab = c.memo.get('pow2', ())
    if not any(x.eq(e) for x, _ in tab):
        c.fact(Implies(e >= 0, t >= 1))
        for (e2, t2) in tab:
            d = lsimp(e - e2)
            if isinstance(d, int) and 0 <= d <= 4096:
                c.fact(Implies(zint(e2) >= 0, t == t2 * (2 ** d)))
            elif isinstance(d, int) and -4096 <= d < 0:
                c.fact(Implies(e >= 0, t2 == t * (2 ** -d)))
            else:
                c.fact(Implies(And(e2 >= 0, e2 <= e), t2 <= t))
                c.fact(Implies(And(e >= 0, e <= e2), t <= t2))
                c.fact(Implies(And(e2 >= 0, e2 < e), 2 * t2 <= t))
                c.fact(Implies(And(e >= 0, e < e2), 2 * t <= t2))
        for k in (1, 7, 8, 15, 16, 31, 32, 63, 64, 255, 256):
            c.fact(Implies(e >= k, t >= 2 ** k))
            c.fact(Implies(And(e >= 0, e <= k), t <= 2 ** k))
        c.memo['pow2'] = tab + ((e, t),)
    return t


def zabs(t):
    if isinstance(t, int):
        return abs(t)
    if C().valid(t >= 0):
        return t
    return z3.If(t >= 0, t, -t)


def bitlen(t):
    if isinstance(t, int):
        return t.bit_length()
    a = simp(zabs(t))
    if isinstance(a, int):
        return a.bit_length()
    b = f_bl(a)
    c = C()
    c.fact(b >= 0)
    c.fact((a == 0) == (b == 0))
    p = pow2(b)
    p1 = pow2(b - 1)
    c.fact(Implies(a >= 1, And(zint(p1) <= a, a < zint(p), zint(p) == 2 * zint(p1))))
    return b


def floordiv(a, b):
    """Python's // on terms (b != 0 holds)"""
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int):
        if b > 0:
            return simp(zint(a) / b)
        return simp((-zint(a)) / (-b))
    if C().valid(zint(b) > 0):
        return simp(zint(a) / b)
    if C().valid(zint(b) < 0):
        return simp((-zint(a)) / (-b))
    return simp(z3.If(b > 0, zint(a) / b, (-zint(a)) / (-b)))


def pymod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int):
        if b > 0:
            return simp(zint(a) % b)
        return simp(-((-zint(a)) % (-b)))
    if C().valid(zint(b) > 0):
        return simp(zint(a) % b)
    if C().valid(zint(b) < 0):
        return simp(-((-zint(a)) % (-b)))
    return simp(z3.If(b > 0, zint(a) % b, -((-zint(a)) % (-b))))


def divfact(a, b):
    """the law of division for a divisor which is not a constant"""
    q, r, a, b = zint(floordiv(a, b)), zint(pymod(a, b)), zint(a), zint(b)
    C().fact(And(q * b + r == a, Implies(b > 0, And(r >= 0, r < b)), Implies(b < 0, And(r <= 0, r > b))))


def runs(c):
    out = []
    k = 0
    while c >> k:
        if (c >> k) & 1:
            lo = k
            while (c >> k) & 1:
                k += 1
            out.append((lo, k))
        else:
            k += 1
    return out


def bitand(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b >= 0:
            r = z3.IntVal(0)
            for lo, hi in runs(b):
                r = r + ((a / (2 ** lo)) % (2 ** (hi - lo))) * (2 ** lo)
            return simp(r)
        # a & b with b negative: a - (a & ~b)
        return simp(a - zint(bitand(a, ~b)))
    return None


def isbyte(t):
    if isinstance(t, int):
        return 0 <= t <= 255
    return C().valid(And(t >= 0, t <= 255))


def xor_atoms(t):
    if is_term(t) and z3.is_app(t) and t.decl().name() == 'xor8':
        return xor_atoms(t.arg(0)) + xor_atoms(t.arg(1))
    return [t]


def xor8(a, b):
    """byte xor in a canonical form (sorted, equal operands cancelled)"""
    ats = []
    k = 0
    for x in xor_atoms(a) + xor_atoms(b):
        x = simp(x)
        if isinstance(x, int):
            k ^= x
            continue
        for i, y in enumerate(ats):
            if y.get_id() == x.get_id() or (len(ats) < 6 and R.eq(x, y)):
                del ats[i]
                break
        else:
            ats.append(x)
    if not ats:
        return k
    ats.sort(key=lambda t: (t.sexpr() if len(t.sexpr()) < 300 else str(t.hash()), t.get_id()))
    r = ats[0]
    for x in ats[1:]:
        r = f_xor(r, x)
        C().fact(And(r >= 0, r <= 255))
    if k:
        r = f_xor(r, z3.IntVal(k))
        C().fact(And(r >= 0, r <= 255))
    return r


def int_op(it, op, a, b):
    """arithmetic of two ints, at least one symbolic; a, b terms or ints; returns a value"""
    if op == 'Add':
        return mkint(zint(a) + zint(b))
    if op == 'Sub':
        return mkint(zint(a) - zint(b))
    if op == 'Mult':
        if ALG.ring() and is_term(a) and is_term(b):
            return mkint(ALG.mul(a, b))
        return mkint(zint(a) * zint(b))
    if op in ('FloorDiv', 'Mod', 'Div'):
        if isinstance(b, int):
            z = b == 0
        else:
            z = C().branch(b == 0)
        if z:
            raise_(ZeroDivisionError, 'division by zero')
        if op == 'Mod' and ALG.ring() and ALG.big(b):
            return mkint(ALG.mod(a, b))
        if op in ('FloorDiv', 'Mod') and not isinstance(b, int) and ALG.ring():
            if not C().valid(b > 0):
                raise Unsupported('division by a possibly negative unknown in a ring theorem')
            return mkint(ALG.div(a, b) if op == 'FloorDiv' else ALG.mod(a, b))
        if op in ('FloorDiv', 'Mod'):
            if not isinstance(b, int):
                divfact(a, b)
            return mkint(floordiv(a, b) if op == 'FloorDiv' else pymod(a, b))
        t = f_fdiv(zint(a), zint(b))
        fdiv_facts(t, a, b)
        return SFloat(t)
    if op == 'LShift':
        return mkint(zint(a) * zint(pow2(nonneg(b))))
    if op == 'RShift':
        return mkint(floordiv(a, pow2(nonneg(b))))
    if op == 'Pow':
        if isinstance(a, int) and a == 2:
            return mkint(pow2(nonneg(b)))
        if isinstance(b, int) and 0 <= b <= 16:
            r = 1
            for _ in range(b):
                r = ALG.mul(r, a) if ALG.ring() else simp(zint(r) * zint(a))
            return mkint(r)
        if not isinstance(b, int) and C().branch(b < 0) or (isinstance(b, int) and b < 0):
            raise Unsupported('power with a negative exponent')
        return mkint(f_ipow(zint(a), zint(b)))
    if op == 'BitAnd':
        r = bitand(a, b)
        if r is None:
            r = bv8(a, b, operator.and_)
        return mkint(r)
    if op == 'BitOr':
        if isinstance(a, int) or isinstance(b, int):
            return mkint(zint(a) + zint(b) - zint(bitand(a, b)))
        # disjoint bit ranges: a < 2^k and 2^k divides b
        for x, y in ((a, b), (b, a)):
            for k in (1, 2, 4, 8, 16, 24, 32, 40, 48, 56, 64, 128):
                if C().valid(And(x >= 0, x < 2 ** k, y % (2 ** k) == 0)):
                    return mkint(x + y)
        return mkint(bv8(a, b, operator.or_))
    if op == 'BitXor':
        if isbyte(a) and isbyte(b):
            return mkint(xor8(a, b))
        if isinstance(a, int) or isinstance(b, int):
            return mkint(zint(a) + zint(b) - 2 * zint(bitand(a, b)))
        raise Unsupported('xor of integers which are not bytes')
    raise Unsupported('int operator %s' % op)


def bv8(a, b, f):
    for w in (8, 16, 32, 64):
        if C().valid(And(zint(a) >= 0, zint(a) < 2 ** w, zint(b) >= 0, zint(b) < 2 ** w)):
            return z3.BV2Int(f(z3.Int2BV(zint(a), w), z3.Int2BV(zint(b), w)))
    raise Unsupported('bit operation on unbounded integers')


def nonneg(b):
    if isinstance(b, int):
        if b < 0:
            raise_(ValueError, 'negative shift count')
        return b
    if C().branch(b < 0):
        raise_(ValueError, 'negative shift count')
    return b


def fdiv_facts(t, a, b):
    c = C()
    trust('float division: correctly rounded; 15 significant digits survive float and str (IEEE double)')
    a, b = zint(a), zint(b)
    if z3.is_int_value(b):
        k = b.as_long()
        c.fact(Implies(zabs2(a) + abs(k) < 2 ** 53, f_ftrunc(t) == z3.If((a >= 0) == (k > 0), zabs2(a) / abs(k), -(zabs2(a) / abs(k)))))
        if k > 0:
            c.fact(Implies(zabs2(a) + k < 2 ** 53, And(f_ffloor(t) == a / k, f_fceil(t) == -((-a) / k))))
        if k > 0 and set(str(k)) <= {'1', '0'} and str(k).count('1') == 1:
            c.fact(Implies(zabs2(a) < 10 ** 15, And(f_fin(t), f_fval(t) == z3.ToReal(a) / k)))
        if k:
            c.fact(Implies(zabs2(a) < 2 ** 1000, f_fin(t)))


def zabs2(a):
    return z3.If(a >= 0, a, -a)


def ffact(t):
    """sign agreement of the exact value and the printed value"""
    return t


def float_term(v):
    if isinstance(v, SFloat):
        return v.t
    if isinstance(v, float):
        t = z3.Const('flit_' + repr(v), FL)
        import math
        from fractions import Fraction
        if math.isfinite(v):
            fr = Fraction(repr(v))
            C().fact(And(f_fin(t), f_fval(t) == z3.RealVal(str(fr.numerator)) / z3.RealVal(str(fr.denominator))))
            C().fact(And(f_ftrunc(t) == int(v), f_ffloor(t) == math.floor(v), f_fceil(t) == math.ceil(v)))
        else:
            C().fact(Not(f_fin(t)))
        return t
    if is_int(v):
        i = iterm(v)
        t = f_fofi(zint(i))
        C().fact(Implies(zabs2(zint(i)) <= 2 ** 53, And(f_fin(t), f_fval(t) == z3.ToReal(zint(i)))))
        return t
    raise Unsupported('float of %r' % (v,))


def float_op(it, op, a, b):
    x, y = float_term(a), float_term(b)
    f = {'Add': f_fadd, 'Sub': f_fsub, 'Mult': f_fmul, 'Div': f_fdv}.get(op)
    if f is None:
        raise Unsupported('float operator %s' % op)
    if op == 'Div' and is_int(b):
        if it.truth(compare(it, 'Eq', b, 0)):
            raise_(ZeroDivisionError, 'float division by zero')
    return SFloat(f(x, y))


def real_op(it, op, a, b):
    def rt(v):
        if isinstance(v, SReal):
            return v.t
        if is_int(v):
            return z3.ToReal(zint(iterm(v)))
        raise Unsupported('rational arithmetic with %s' % clsname(typeof(v)))
    cls = a.cls if isinstance(a, SReal) else b.cls
    x, y = rt(a), rt(b)
    if op == 'Add':
        r = x + y
    elif op == 'Sub':
        r = x - y
    elif op == 'Mult':
        r = x * y
    elif op in ('Div', 'FloorDiv', 'Mod'):
        if C().branch(y == 0):
            raise_(ZeroDivisionError, 'division by zero')
        r = x / y
        if op == 'FloorDiv':
            return mkint(z3.ToInt(r))
        if op == 'Mod':
            r = x - y * z3.ToReal(z3.ToInt(r))
    else:
        raise Unsupported('rational operator %s' % op)
    return SReal(z3.simplify(r), cls)


def user_op(it, v, name):
    """a user-defined dunder of the class of v"""
    c = v.cls if isinstance(v, (Obj, SInt)) else None
    if isinstance(c, UserClass):
        m = c.lookup(name)
        if m is not None:
            return it.bind(m, v)
    return None


def binop(it, op, a, b):
    ua, ub = user_op(it, a, DUNDER[op]), user_op(it, b, RDUNDER[op])
    ta, tb = (a.cls if isinstance(a, (Obj, SInt)) else None), (b.cls if isinstance(b, (Obj, SInt)) else None)
    if ub is not None and tb is not ta and isinstance(tb, UserClass) and issub(tb, typeof(a)):
        r = it.call(ub, [a], {})
        if r is not NotImplemented:
            return r
        ub = None
    if ua is not None:
        r = it.call(ua, [b], {})
        if r is not NotImplemented:
            return r
    elif not isinstance(a, Obj):
        r = plain_binop(it, op, a, b)
        if r is not NotImplemented:
            return r
    if ub is not None:
        r = it.call(ub, [a], {})
        if r is not NotImplemented:
            return r
    raise_(TypeError, 'unsupported operand types for %s' % op)


def plain_binop(it, op, a, b):
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        if op == 'Mod' and isinstance(a, (str, bytes)):
            return native_call(operator.mod, [a, b], {})
        if op == 'LShift' and isinstance(b, int) and b > 100000:
            raise Unsupported('huge shift')
        if op == 'Mult' and ((isinstance(a, (str, bytes)) and isinstance(b, int) and len(a) * b > 10 ** 7) or
                             (isinstance(b, (str, bytes)) and isinstance(a, int) and len(b) * a > 10 ** 7)):
            raise Unsupported('huge repetition')
        try:
            return OPS[op](a, b)
        except Exception as e:
            raise_(type(e), str(e))
    for v in (a, b):
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported('operation on an unknown value (%s)' % v.why)
    if op == 'Mod' and is_str(a):
        return percent_format(it, a, b)
    if is_int(a) and is_int(b):
        x, y = iterm(a), iterm(b)
        if isinstance(x, int) and isinstance(y, int):
            try:
                return OPS[op](x, y)
            except Exception as e:
                raise_(type(e), str(e))
        return int_op(it, op, x, y)
    if isinstance(a, SReal) or isinstance(b, SReal):
        o = b if isinstance(a, SReal) else a
        if isinstance(o, SReal) or is_int(o):
            return real_op(it, op, a, b)
        return NotImplemented
    if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
        o = b if isinstance(a, (SFloat, float)) else a
        if isinstance(o, (SFloat, float)) or is_int(o):
            return float_op(it, op, a, b)
        return NotImplemented
    if op == 'Add':
        if is_bytes(a) and is_bytes(b):
            r = R.rcat(rope(a), rope(b))
            return ByteArray(r) if isinstance(a, ByteArray) else mkbytes(r)
        if is_str(a) and is_str(b):
            return mkstr(R.rcat(rope(a), rope(b)))
        if isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(a.items + b.items)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == 'Mult':
        if is_int(a) and not is_int(b):
            a, b = b, a
        if is_int(b):
            n = iterm(b)
            if is_bytes(a) or is_str(a):
                r = rope(a)
                if isinstance(n, int):
                    if n > 100000:
                        raise Unsupported('huge repetition')
                    o = R.mk(r * max(n, 0))
                else:
                    neg = C().branch(n < 0)
                    if neg:
                        o = ()
                    else:
                        e = R.concrete(r)
                        if e is not None and len(e) == 1:
                            o = R.mk((R.Rep(e[0], n),))
                        elif e == ():
                            o = ()
                        else:
                            raise Unsupported('repetition of a longer string')
                return ByteArray(o) if isinstance(a, ByteArray) else (mkbytes(o) if is_bytes(a) else mkstr(o))
            if isinstance(a, PyList) and isinstance(n, int):
                return PyList(a.items * n)
            if isinstance(a, tuple) and isinstance(n, int):
                return a * n
    if isinstance(a, PySet) and isinstance(b, PySet):
        if op == 'BitOr':
            return PySet(a.items + b.items)
        if op in ('Sub', 'BitAnd'):
            out = []
            for x in a.items:
                inb = it.truth(contains(it, b, x))
                if inb == (op == 'BitAnd'):
                    out.append(x)
            return PySet(out)
    return NotImplemented


def inplace(it, op, a, b):
    m = user_op(it, a, IDUNDER[op])
    if m is not None:
        r = it.call(m, [b], {})
        if r is not NotImplemented:
            return r
    if op == 'Add' and isinstance(a, ByteArray) and is_bytes(b):
        a.rope = R.rcat(a.rope, rope(b))
        return a
    if op == 'Add' and isinstance(a, PyList):
        list_extend(it, a, b)
        return a
    return binop(it, op, a, b)


def unary(it, op, v):
    nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
    m = user_op(it, v, nm)
    if m is not None:
        return it.call(m, [], {})
    if isinstance(v, Obj):
        raise_(TypeError, 'bad operand for unary %s' % op)
    if isinstance(v, NATIVE):
        try:
            return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op](v)
        except Exception as e:
            raise_(type(e), str(e))
    if is_int(v):
        t = zint(iterm(v))
        return mkint({'USub': lambda: -t, 'UAdd': lambda: t, 'Invert': lambda: -t - 1}[op]())
    if isinstance(v, SReal):
        return SReal(-v.t, v.cls) if op == 'USub' else v
    raise Unsupported('unary %s' % op)


# ------------------------------------------------------------------ comparison

def same_identity(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return simp(zint(iterm(a)) == zint(iterm(b)))
        return False
    if is_int(a) and is_int(b):
        x, y = iterm(a), iterm(b)
        for p, q, vp in ((x, y, b), (y, x, a)):
            if isinstance(q, int) and -5 <= q <= 256:
                if typeof(vp) is int and typeof(a) is int and typeof(b) is int:
                    return simp(zint(x) == zint(y))
                return False
        if isinstance(x, int) and isinstance(y, int) and x != y:
            return False
        raise Unsupported('identity of integers')
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        if a != b:
            return False
        raise Unsupported('identity of equal strings')
    if is_str(a) and is_str(b) or isinstance(a, (bytes, SBytes)) and isinstance(b, (bytes, SBytes)):
        raise Unsupported('identity of strings')
    if isinstance(a, type) and isinstance(b, type):
        return a is b
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        raise Unsupported('identity of tuples')
    if isinstance(a, (Opaque, Poison)) or isinstance(b, (Opaque, Poison)):
        raise Unsupported('identity of an unknown value')
    fa, fb = FAM.is_fam(a), FAM.is_fam(b)
    if fa and fb:
        return a.attrs.fam is b.attrs.fam and simp(zint(a.attrs.idx) == zint(b.attrs.idx))
    if frozen(a) and frozen(b) and typeof(a) is typeof(b):
        raise Unsupported('identity of elements of a described family')
    return False


def frozen(v):
    return isinstance(v, Obj) and isinstance(v.attrs, FrozenDict) or isinstance(v, PyList) and isinstance(v.items, FrozenItems) or isinstance(v, ByteArray) and v.frozen


def compare(it, op, a, b):
    if op == 'Is':
        return mkbool(same_identity(a, b))
    if op == 'IsNot':
        return mkbool(Not(same_identity(a, b)))
    if op in ('In', 'NotIn'):
        r = contains(it, b, a)
        f = it.truth_formula(r)
        return mkbool(Not(f)) if op == 'NotIn' else mkbool(f)
    if op in ('Eq', 'NotEq'):
        if op == 'NotEq':
            for x, y in ((a, b), (b, a)):
                m = user_op(it, x, '__ne__')
                if m is not None:
                    r = it.call(m, [y], {})
                    if r is not NotImplemented:
                        return r
            r = compare(it, 'Eq', a, b)
            return mkbool(Not(it.truth_formula(r)))
        for x, y in ((a, b), (b, a)):
            m = user_op(it, x, '__eq__')
            if m is not None:
                r = it.call(m, [y], {})
                if r is not NotImplemented:
                    return r
        return mkbool(plain_eq(it, a, b))
    m = user_op(it, a, CMPD[op])
    if m is not None:
        r = it.call(m, [b], {})
        if r is not NotImplemented:
            return r
    elif not isinstance(a, Obj):
        r = plain_cmp(it, op, a, b)
        if r is not NotImplemented:
            return r
    m = user_op(it, b, CMPD[SWAP[op]])
    if m is not None:
        r = it.call(m, [a], {})
        if r is not NotImplemented:
            return r
    raise_(TypeError, 'not comparable')


def plain_eq(it, a, b):
    """a formula"""
    if a is b:
        return True
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        return a == b
    for v in (a, b):
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported('comparison of an unknown value (%s)' % v.why)
    if a is None or b is None:
        return False
    if is_int(a) and is_int(b):
        if ALG.ring():
            ALG.same_residue(iterm(a), iterm(b))
        return simp(zint(iterm(a)) == zint(iterm(b)))
    if is_bytes(a) and is_bytes(b):
        return R.req(rope(a), rope(b))
    if is_str(a) and is_str(b):
        return str_eq(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[it.truth_formula(compare(it, 'Eq', x, y)) for x, y in zip(a, b)])
    if isinstance(a, PyList) and isinstance(b, PyList):
        return list_eq(it, a, b)
    if isinstance(a, PySet) and isinstance(b, PySet):
        fs = []
        for p, q in ((a, b), (b, a)):
            for x in p.items:
                fs.append(it.truth_formula(contains(it, q, x)))
        return And(*fs)
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        if set(a.d) != set(b.d):
            return False
        return And(*[it.truth_formula(compare(it, 'Eq', a.d[k][1], b.d[k][1])) for k in a.d])
    if isinstance(a, (SFloat, float)) and isinstance(b, (SFloat, float)):
        return simp(float_term(a) == float_term(b))
    if isinstance(a, SReal) or isinstance(b, SReal):
        def rt(v):
            if isinstance(v, SReal):
                return v.t
            if is_int(v):
                return z3.ToReal(zint(iterm(v)))
            return None
        x, y = rt(a), rt(b)
        if x is None or y is None:
            raise Unsupported('comparison with a rational')
        return simp(x == y)
    if isinstance(a, (SFloat, float)) and is_int(b):
        return simp(float_term(a) == float_term(b))
    if isinstance(b, (SFloat, float)) and is_int(a):
        return simp(float_term(a) == float_term(b))
    if isinstance(a, RangeV) and isinstance(b, RangeV):
        raise Unsupported('range equality')
    if isinstance(a, Obj) and isinstance(b, Obj):
        return same_identity(a, b)
    return False


def str_eq(a, b):
    """number texts against literals, else ropes"""
    ra, rb = rope(a), rope(b)
    for p, q in ((ra, rb), (rb, ra)):
        if len(p) == 1 and isinstance(p[0], R.Num):
            e = R.concrete(q)
            if e is not None:
                s = ''.join(map(chr, e))
                try:
                    v = int(s, 10 if p[0].kind == 'd' else 16)
                except ValueError:
                    return False
                if (str(v) if p[0].kind == 'd' else hex(v)) != s:
                    return False
                return simp(zint(p[0].v) == v)
    return R.req(ra, rb)


def list_eq(it, a, b):
    if a.concrete() and b.concrete():
        if len(a.items) != len(b.items):
            return False
        return And(*[it.truth_formula(compare(it, 'Eq', x, y)) for x, y in zip(a.items, b.items)])
    la, lb = a.length(), b.length()
    if not R.eq(la, lb):
        f = simp(zint(la) == zint(lb))
        if f is False or not C().branch(f):
            return False
    xs, ys = list(a.items), list(b.items)
    fs = []
    while xs and ys:
        x, y = xs[0], ys[0]
        if isinstance(x, SymSeg) and R.eq(x.n, 0):
            xs.pop(0)
            continue
        if isinstance(y, SymSeg) and R.eq(y.n, 0):
            ys.pop(0)
            continue
        if not isinstance(x, SymSeg) and not isinstance(y, SymSeg):
            fs.append(it.truth_formula(compare(it, 'Eq', x, y)))
            xs.pop(0)
            ys.pop(0)
            continue
        if isinstance(x, SymSeg) and isinstance(y, SymSeg) and R.eq(x.n, y.n):
            fs.append(R._forall(0, x.n, lambda k: it.truth_formula(compare(it, 'Eq', x.at(k), y.at(k)))))
            xs.pop(0)
            ys.pop(0)
            continue
        for p, q in ((xs, ys), (ys, xs)):
            g = p[0]
            if isinstance(g, SymSeg) and not isinstance(q[0], SymSeg):
                if R.le(1, g.n) or C().branch(g.n >= 1):
                    p[0:1] = [g.at(0), SymSeg(R.lsub(g.n, 1), g.get, R.ladd(g.off, 1))]
                else:
                    p.pop(0)
                break
        else:
            raise Unsupported('equality of lists with different segment structure')
    for rest in (xs, ys):
        for s in rest:
            if not (isinstance(s, SymSeg) and R.eq(s.n, 0)):
                return False
    return And(*fs)


def plain_cmp(it, op, a, b):
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        try:
            return CMP[op](a, b)
        except Exception as e:
            raise_(type(e), str(e))
    if is_int(a) and is_int(b):
        return mkbool(CMP[op](zint(iterm(a)), zint(iterm(b))))
    if isinstance(a, (SReal,)) or isinstance(b, SReal):
        def rt(v):
            if isinstance(v, SReal):
                return v.t
            if is_int(v):
                return z3.ToReal(zint(iterm(v)))
            if isinstance(v, float):
                from fractions import Fraction
                f = Fraction(v)
                return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator))
            raise Unsupported('comparison of a rational with %s' % clsname(typeof(v)))
        return mkbool(CMP[op](rt(a), rt(b)))
    if isinstance(a, (SFloat, float)) or isinstance(b, (SFloat, float)):
        if is_int(b) and not isinstance(b, (SInt, SBool)) and b == 0 or isinstance(b, float) and b == 0:
            t = float_term(a)
            s = f_sgn(t)
            C().fact(And(s >= -1, s <= 1))
            C().fact(Implies(f_fin(t), And((s < 0) == (f_fval(t) < 0), (s > 0) == (f_fval(t) > 0))))
            return mkbool(CMP[op](s, 0))
        f = z3.Function('fcmp' + op, FL, FL, B)
        return mkbool(f(float_term(a), float_term(b)))
    if is_bytes(a) and is_bytes(b):
        return mkbool(rope_lt(it, op, rope(a), rope(b)))
    if is_str(a) and is_str(b):
        return mkbool(rope_lt(it, op, rope(a), rope(b)))
    if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)) and type(a) is type(b):
        xs, ys = to_list(it, a), to_list(it, b)
        for x, y in zip(xs, ys):
            if not it.truth(compare(it, 'Eq', x, y)):
                return compare(it, op, x, y)
        return CMP[op](len(xs), len(ys))
    if isinstance(a, PySet) and isinstance(b, PySet):
        if op in ('LtE', 'GtE'):
            p, q = (a, b) if op == 'LtE' else (b, a)
            return mkbool(And(*[it.truth_formula(contains(it, q, x)) for x in p.items]))
    return NotImplemented


def rope_lt(it, op, a, b):
    """lexicographic order; fixed lengths only"""
    la, lb = R.rlen(a), R.rlen(b)
    if not (isinstance(la, int) and isinstance(lb, int)) or max(la, lb) > 64:
        raise Unsupported('order of byte strings of unknown length')
    n = min(la, lb)
    r = CMP[op](la, lb)
    for i in range(n - 1, -1, -1):
        x, y = zint(R.rat(a, i)), zint(R.rat(b, i))
        r = z3.If(x == y, zbool(r), CMP[op](x, y))
    return r


def contains(it, cont, x):
    if isinstance(cont, (PyList, tuple, PySet)):
        items = cont.items if not isinstance(cont, tuple) else cont
        if any(isinstance(y, SymSeg) for y in items):
            raise Unsupported('membership in a list of unknown length')
        fs = []
        for y in items:
            if y is x:
                return True
            f = it.truth_formula(compare(it, 'Eq', x, y))
            if f is True:
                return True
            fs.append(f)
        return mkbool(Or(*fs))
    if isinstance(cont, PyDict):
        return dict_key(it, cont, x) in cont.d
    if isinstance(cont, RangeV):
        if is_int(x) and isinstance(cont.step, int) and cont.step == 1:
            return mkbool(And(zint(iterm(x)) >= zint(cont.start), zint(iterm(x)) < zint(cont.stop)))
        raise Unsupported('membership in a range')
    if isinstance(cont, NATIVE) and isinstance(x, NATIVE):
        return native_call(lambda c, y: y in c, [cont, x], {})
    if is_bytes(cont) and is_int(x):
        n = R.rlen(rope(cont))
        if isinstance(n, int):
            return mkbool(Or(*[simp(zint(R.rat(rope(cont), i)) == zint(iterm(x))) for i in range(n)]))
    if is_str(cont) and is_str(x) and isinstance(cont, str):
        n = R.rlen(rope(x))
        if isinstance(n, int) and n == 1:
            t = zint(R.rat(rope(x), 0))
            return mkbool(Or(*[t == ord(ch) for ch in cont]))
    if isinstance(cont, Obj):
        m = it.lookup_cls(cont.cls, '__contains__')
        if m is not None:
            return it.call(it.bind(m, cont), [x], {})
    if isinstance(cont, IterV):
        return contains(it, PyList(to_list(it, cont)), x)
    raise Unsupported('membership test in %s' % clsname(typeof(cont)))


# ------------------------------------------------------------------ sequences

def seq_view(it, v):
    if isinstance(v, PyList):
        if v.concrete():
            items = list(v.items)
            return SeqView(len(items), lambda i: items[i])
        items = list(v.items)
        if len(items) == 1:
            s = items[0]
            return SeqView(s.n, lambda i: s.at(i), s.delta)
        return SeqView(v.length(), lambda i: list_at(items, i))
    if isinstance(v, tuple):
        return SeqView(len(v), lambda i: v[i])
    if isinstance(v, (bytes,)):
        return SeqView(len(v), lambda i: v[i] if isinstance(i, int) else mkint(R.rat(R.lit(v), i)))
    if isinstance(v, str):
        return SeqView(len(v), lambda i: v[i] if isinstance(i, int) else mkstr(R.rslice(R.lit(v), i, 1)))
    if isinstance(v, (SBytes, ByteArray)):
        r = v.rope
        return SeqView(R.rlen(r), lambda i: mkint(R.rat(r, i)))
    if isinstance(v, SStr):
        r = v.rope
        return SeqView(R.rlen(r), lambda i: mkstr(R.rslice(r, i, 1)))
    if isinstance(v, RangeV):
        s, e, st = v.start, v.stop, v.step
        if isinstance(s, int) and isinstance(e, int) and isinstance(st, int):
            rg = range(s, e, st)
            return SeqView(len(rg), lambda i: rg[i] if isinstance(i, int) else mkint(zint(s) + zint(i) * st))
        if not isinstance(st, int):
            raise Unsupported('range with a symbolic step')
        if st == 1:
            n = R.lsub(e, s)
        elif st == -1:
            n = R.lsub(s, e)
        elif st > 0:
            n = lsimp((zint(e) - zint(s) + (st - 1)) / st)
        else:
            n = lsimp((zint(s) - zint(e) + (-st - 1)) / (-st))
        if not isinstance(n, int) and not C().valid(n >= 0):
            if C().branch(n < 0):
                n = 0
        return SeqView(n, lambda i: mkint(zint(s) + zint(i) * st))
    if isinstance(v, SeqView):
        return v
    if isinstance(v, IterV):
        sv = seq_view(it, v.seq)
        if isinstance(sv.n, int):
            p = v.pos
            return SeqView(sv.n - p, lambda i: sv.get(i + p))
        if v.pos == 0:
            return sv
        p = v.pos
        return SeqView(R.lsub(sv.n, p), lambda i: sv.get(R.ladd(i, p)))
    if isinstance(v, PyDict):
        ks = [a for a, b in v.d.values()]
        return SeqView(len(ks), lambda i: ks[i])
    if isinstance(v, PySet):
        xs = dedupe(it, v)
        return SeqView(len(xs), lambda i: xs[i])
    if isinstance(v, Obj):
        m = it.lookup_cls(v.cls, '__iter__')
        if m is not None:
            return seq_view(it, it.call(it.bind(m, v), [], {}))
        ln, gi = it.lookup_cls(v.cls, '__len__'), it.lookup_cls(v.cls, '__getitem__')
        if ln is not None and gi is not None:
            n = it.call(it.bind(ln, v), [], {})
            return SeqView(n, lambda i: it.call(it.bind(gi, v), [i], {}))
        raise_(TypeError, 'object is not iterable')
    if v is None or is_int(v) or isinstance(v, float):
        raise_(TypeError, 'object is not iterable')
    raise Unsupported('iteration over %s' % type(v).__name__)


def list_at(items, i):
    pos = 0
    for k, s in enumerate(items):
        n = s.n if isinstance(s, SymSeg) else 1
        end = R.ladd(pos, n)
        if k == len(items) - 1 or R.lt(i, end) or (not R.le(end, i) and C().branch(zint(i) < zint(end))):
            return s.at(R.lsub(i, pos)) if isinstance(s, SymSeg) else s
        pos = end
    raise Unsupported('index outside a list')


def to_list(it, v):
    """a python list of the elements (the length must be known)"""
    if isinstance(v, (int, SInt, SBool)) or v is None:
        raise_(TypeError, 'cannot unpack non-iterable object')
    sv = seq_view(it, v)
    if not isinstance(sv.n, int):
        raise Unsupported('sequence of unknown length')
    r = [sv.get(i) for i in range(max(sv.n, 0))]
    if isinstance(v, IterV):
        v.pos += len(r)
    return r


def to_pylist(it, v):
    sv = seq_view(it, v)
    if isinstance(sv.n, int):
        return PyList([sv.get(i) for i in range(max(sv.n, 0))])
    if isinstance(v, PyList):
        return PyList(v.items)
    if isinstance(v, IterV) and isinstance(v.seq, PyList) and v.pos == 0:
        return PyList(v.seq.items)
    return PyList([SymSeg(sv.n, sv.get, delta=sv.delta)])


def dedupe(it, s):
    out = []
    for x in s.items:
        dup = False
        for y in out:
            if x is y:
                dup = True
                break
            f = it.truth_formula(compare(it, 'Eq', x, y))
            if f is True:
                dup = True
                break
            if f is False:
                continue
            if C().branch(f):
                dup = True
                break
        if not dup:
            out.append(x)
    s.items = out
    return out


def make_set(it, items):
    return PySet(items)


def list_extend(it, a, b):
    sv = seq_view(it, b)
    if isinstance(sv.n, int):
        a.items.extend(sv.get(i) for i in range(max(sv.n, 0)))
        if isinstance(b, IterV):
            b.pos += sv.n
    else:
        a.items.append(SymSeg(sv.n, sv.get, delta=sv.delta))


def bytes_of_seq(it, v):
    """rope from an iterable of ints"""
    sv = seq_view(it, v)

    def chk(x):
        t = x
        if not is_int(t):
            raise_(TypeError, 'an integer is required')
        t = iterm(t)
        if isinstance(t, int):
            if not 0 <= t <= 255:
                raise_(ValueError, 'bytes must be in range(0, 256)')
            return t
        if C().branch(Or(t < 0, t > 255)):
            raise_(ValueError, 'bytes must be in range(0, 256)')
        return t
    if isinstance(sv.n, int):
        return R.mk(tuple(R.El(chk(sv.get(i))) for i in range(max(sv.n, 0))))
    from . import loops
    return loops.fold_bytes(it, sv, chk)


def index_of(it, k):
    if isinstance(k, SInt) or isinstance(k, int) or isinstance(k, SBool):
        return iterm(k)
    if isinstance(k, Obj):
        m = it.lookup_cls(k.cls, '__index__')
        if m is not None:
            return iterm(it.call(it.bind(m, k), [], {}))
    raise_(TypeError, 'indices must be integers')


def norm_index(i, n):
    """a valid index 0 <= i < n or IndexError"""
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise_(IndexError, 'index out of range')
        return i
    if isinstance(i, int):
        if i < 0:
            i = lsimp(zint(n) + i)
            if C().branch(i < 0):
                raise_(IndexError, 'index out of range')
            return i
    elif C().branch(i < 0):
        i = lsimp(i + zint(n))
        if C().branch(zint(i) < 0):
            raise_(IndexError, 'index out of range')
        return i
    if C().branch(zint(i) >= zint(n)):
        raise_(IndexError, 'index out of range')
    return i


def clamp(i, n, dflt):
    if i is None:
        return dflt
    i = iterm(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < 0:
            i = max(i + n, 0)
        return min(i, n)
    if isinstance(i, int) and i >= 0:
        neg = False
    elif isinstance(i, int):
        neg = True
    else:
        neg = C().branch(i < 0)
    if neg:
        i = R.ladd(i, n)
        if not R.le(0, i) and C().branch(zint(i) < 0):
            return 0
        return i
    if R.le(i, n):
        return i
    if C().branch(zint(i) <= zint(n)):
        return i
    return n


def slice_bounds(s, n):
    a = clamp(s.start, n, 0)
    b = clamp(s.stop, n, n)
    if isinstance(a, int) and a == 0:
        return a, b
    d = R.lsub(b, a)
    if isinstance(d, int):
        return a, R.ladd(a, max(d, 0))
    if not R.le(a, b) and C().branch(zint(b) < zint(a)):
        return a, a
    return a, b


def getitem(it, o, k):
    if isinstance(o, Obj):
        m = it.lookup_cls(o.cls, '__getitem__')
        if m is None:
            raise_(TypeError, 'object is not subscriptable')
        return it.call(it.bind(m, o), [k], {})
    if isinstance(o, (bytes, str)):
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError as e:
                raise_(IndexError, str(e))
        if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            return o[k]
    if isinstance(o, tuple):
        if isinstance(k, slice):
            return o[slice(to_native(k.start), to_native(k.stop), to_native(k.step))]
        i = index_of(it, k)
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError as e:
                raise_(IndexError, str(e))
        raise Unsupported('tuple index')
    if is_bytes(o) or is_str(o):
        r = rope(o)
        n = R.rlen(r)

        def wrap(x):
            return ByteArray(x) if isinstance(o, ByteArray) else (mkbytes(x) if is_bytes(o) else mkstr(x))
        if isinstance(k, slice):
            st = k.step
            if st is None or (isinstance(st, int) and st == 1):
                a, b = slice_bounds(k, n)
                return wrap(R.rslice(r, a, R.lsub(b, a)))
            if isinstance(st, int) and st == -1 and k.start is None and k.stop is None:
                return wrap(R.rrev(r))
            if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, st)):
                idx = range(n)[k]
                return wrap(R.mk(tuple(R.El(R.rat(r, i)) for i in idx)))
            raise Unsupported('slice with a step')
        i = norm_index(index_of(it, k), n)
        if is_str(o):
            return mkstr(R.rslice(r, i, 1))
        return mkint(R.rat(r, i))
    if isinstance(o, PyList):
        if isinstance(k, slice):
            if o.concrete() and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return PyList(o.items[k])
            if k.step in (None, 1):
                n = o.length()
                a, b = slice_bounds(k, n)
                return PyList(list_slice(o.items, a, R.lsub(b, a)))
            if k.step == -1 and k.start is None and k.stop is None and len(o.items) == 1:
                s = o.items[0]
                return PyList([SymSeg(s.n, lambda i: s.at(R.lsub(R.lsub(s.n, 1), i)))])
            raise Unsupported('list slice')
        i = index_of(it, k)
        if o.concrete():
            if isinstance(i, int):
                try:
                    return o.items[i]
                except IndexError as e:
                    raise_(IndexError, str(e))
            i = norm_index(i, len(o.items))
            for j in range(len(o.items) - 1):
                if C().branch(zint(i) == j):
                    return o.items[j]
            return o.items[-1]
        i = norm_index(i, o.length())
        return list_at(o.items, i)
    if isinstance(o, PyDict):
        kk = dict_key(it, o, k)
        if kk not in o.d:
            raise_(KeyError, 'key')
        return o.d[kk][1]
    if isinstance(o, RangeV):
        sv = seq_view(it, o)
        if isinstance(k, slice):
            raise Unsupported('slice of a range')
        return sv.get(norm_index(index_of(it, k), sv.n))
    if o is None or is_int(o) or isinstance(o, (SFloat, float)):
        raise_(TypeError, 'object is not subscriptable')
    if isinstance(o, type) or isinstance(o, UserClass):
        return o
    raise Unsupported('subscript of %s' % clsname(typeof(o)))


def list_slice(items, a, n):
    out = []
    pos = 0
    skip, need = a, n
    for s in items:
        ln = s.n if isinstance(s, SymSeg) else 1
        if isinstance(need, int) and need <= 0:
            break
        if not (isinstance(skip, int) and skip == 0):
            if R.le(ln, skip) or (not R.lt(skip, ln) and not C().branch(zint(skip) < zint(ln))):
                skip = R.lsub(skip, ln)
                continue
        avail = R.lsub(ln, skip)
        if R.eq(avail, need) or R.le(need, avail):
            take = need
        elif R.le(avail, need) or C().branch(zint(avail) <= zint(need)):
            take = avail
        else:
            take = need
        if isinstance(s, SymSeg):
            out.append(SymSeg(take, s.get, R.ladd(s.off, skip), delta=s.delta))
        elif not (isinstance(take, int) and take == 0):
            out.append(s)
        need = R.lsub(need, take)
        skip = 0
    return out


class SymKey:
    """the key of an entry which is not a plain value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def hashable(it, k):
    if isinstance(k, tuple):
        for x in k:
            hashable(it, x)
    elif isinstance(k, (ByteArray, bytearray, PyList, PyDict, PySet)):
        raise_(TypeError, 'unhashable type: %s' % clsname(typeof(k)))
    elif isinstance(k, Obj) and isinstance(k.cls, UserClass):
        for c in k.cls.mro:
            if isinstance(c, UserClass):
                if '__hash__' in c.ns:
                    if c.ns['__hash__'] is None:
                        raise_(TypeError, 'unhashable type')
                    return
                if '__eq__' in c.ns:
                    raise_(TypeError, 'unhashable type: %s' % c.name)


def same_key(it, a, b):
    """does the dictionary take two keys for the same?"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_key(it, x, y) for x, y in zip(a, b))
    for x in (a, b):
        if isinstance(x, Obj):
            if it.lookup_cls(x.cls, '__eq__') is None:
                continue
            if not it.truth(compare(it, 'Eq', a, b)):
                return False
            if isinstance(a, Obj) and isinstance(b, Obj) and it.lookup_cls(a.cls, '__hash__') is not None and it.lookup_cls(b.cls, '__hash__') is not None:
                return it.truth(compare(it, 'Eq', hash_(it, [a], {}), hash_(it, [b], {})))
            raise Unsupported('dictionary keys of different classes')
    if isinstance(a, Obj) and isinstance(b, Obj):
        return C().branch(same_identity(a, b))
    if isinstance(a, Obj) or isinstance(b, Obj):
        return False
    return it.truth(compare(it, 'Eq', a, b))


def dict_key(it, d, k):
    hashable(it, k)
    n = None
    try:
        n = to_native(k)
        if not any(isinstance(kk, SymKey) for kk in d.d):
            hash(n)
            return n
    except NotConcrete:
        n = SymKey(k)
    except TypeError as e:
        raise_(TypeError, str(e))
    if not isinstance(n, SymKey) and n in d.d:
        return n
    for kk, (a, b) in list(d.d.items()):
        if same_key(it, a, k):
            return kk
    return n


def setitem(it, o, k, v):
    if isinstance(o, Obj):
        m = it.lookup_cls(o.cls, '__setitem__')
        if m is None:
            raise_(TypeError, 'object does not support item assignment')
        return it.call(it.bind(m, o), [k, v], {})
    if isinstance(o, PyDict):
        kk = dict_key(it, o, k)
        o.d[kk] = (o.d[kk][0] if kk in o.d else k, v)
        return
    if isinstance(o, PyList):
        if isinstance(k, slice):
            if o.concrete() and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                o.items[k] = to_list(it, v)
                return
            raise Unsupported('list slice assignment')
        i = index_of(it, k)
        if o.concrete() and isinstance(i, int):
            try:
                o.items[i] = v
            except IndexError as e:
                raise_(IndexError, str(e))
            return
        raise Unsupported('list element assignment at an unknown place')
    if isinstance(o, ByteArray):
        n = R.rlen(o.rope)
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported('slice assignment with a step')
            new = rope(v) if is_bytes(v) else bytes_of_seq(it, v)
            a, b = slice_bounds(k, n)
            o.rope = R.rcat(R.rcat(R.rslice(o.rope, 0, a), new), R.rslice(o.rope, b, R.lsub(n, b)))
            return
        i = norm_index(index_of(it, k), n)
        if not is_int(v):
            raise_(TypeError, 'an integer is required')
        t = iterm(v)
        if isinstance(t, int):
            bad = not 0 <= t <= 255
        else:
            bad = C().branch(Or(t < 0, t > 255))
        if bad:
            raise_(ValueError, 'byte must be in range(0, 256)')
        o.rope = R.rcat(R.rcat(R.rslice(o.rope, 0, i), (R.El(t),)), R.rslice(o.rope, R.ladd(i, 1), R.lsub(R.lsub(n, i), 1)))
        return
    if isinstance(o, (bytes, SBytes, str, SStr, tuple)):
        raise_(TypeError, 'object does not support item assignment')
    raise Unsupported('item assignment to %s' % clsname(typeof(o)))


def delitem(it, o, k):
    if isinstance(o, PyDict):
        kk = dict_key(it, o, k)
        if kk not in o.d:
            raise_(KeyError, 'key')
        del o.d[kk]
        return
    if isinstance(o, PyList) and o.concrete():
        if isinstance(k, slice):
            del o.items[slice(to_native(k.start), to_native(k.stop), to_native(k.step))]
            return
        i = index_of(it, k)
        if isinstance(i, int):
            try:
                del o.items[i]
            except IndexError as e:
                raise_(IndexError, str(e))
            return
    if isinstance(o, ByteArray):
        n = R.rlen(o.rope)
        if isinstance(k, slice):
            a, b = slice_bounds(k, n)
        else:
            a = norm_index(index_of(it, k), n)
            b = R.ladd(a, 1)
        o.rope = R.rcat(R.rslice(o.rope, 0, a), R.rslice(o.rope, b, R.lsub(n, b)))
        return
    raise Unsupported('del of an element')


# ------------------------------------------------------------------ text

def enc_name(e):
    e = str(e).lower().replace('_', '-')
    return {'utf8': 'utf-8', 'utf-8': 'utf-8', 'ascii': 'ascii', 'us-ascii': 'ascii', 'latin1': 'latin-1', 'latin-1': 'latin-1',
            'iso-8859-1': 'latin-1'}.get(e, e)


ASCII_COMPAT = ('utf-8', 'ascii', 'latin-1', 'cp1252')


def uf(tab, name, *sorts):
    if name not in tab:
        tab[name] = z3.Function(name, *sorts)
    return tab[name]


def chunk_isascii(c):
    if c.ascii:
        return True
    if isinstance(c, R.El):
        t = c.t
        return t < 128 if isinstance(t, int) else C().valid(t < 128)
    if isinstance(c, R.Fold):
        return all(chunk_isascii(x) for x in c.body)
    if isinstance(c, R.Sub) and isinstance(c.n, int) and c.n <= 64:
        return all(C().valid(zint(c.at(i)) < 128) for i in range(c.n))
    return False


def encode(it, v, enc='utf-8', errors='strict'):
    try:
        return native_call(lambda s, e, r: s.encode(e, r), [v, enc, errors], {})
    except NotConcrete:
        pass
    if not isinstance(enc, str):
        raise Unsupported('unknown encoding')
    try:
        ''.encode(enc)
    except LookupError as ex:
        raise_(LookupError, str(ex))
    en = enc_name(enc)
    r = rope(v)
    if en in ASCII_COMPAT and all(chunk_isascii(c) for c in r):
        return mkbytes(r)
    b = R.reify(r)
    trust('str.encode/bytes.decode: decode(encode(s)) == s, encode may refuse a text')
    ok = uf(f_u8, 'encodable_' + en, BS, B)(b)
    t = uf(f_u8, 'enc_' + en, BS, BS)(b)
    C().fact(Implies(R.blen(b) == 0, And(ok, R.blen(t) == len(''.encode(enc)))))
    if not C().branch(ok):
        raise_(UnicodeEncodeError, '')
    n = R.blen(t)
    C().fact(n >= 0)
    L = R.rlen(r)
    if en == 'utf-8':
        C().fact(And(n >= zint(L), n <= 4 * zint(L)))
    elif en not in ('ascii', 'latin-1', 'cp1252'):
        C().fact(n <= 8 * zint(L) + 8)
    else:
        C().fact(n == zint(L))
        if en in ('ascii', 'latin-1'):
            return mkbytes(r)
    C().fact(uf(f_dec, 'dec_' + en, BS, BS)(t) == b)
    C().fact(uf(f_dec, 'decodable_' + en, BS, B)(t))
    return SBytes((R.Sub(t, 0, n),))


def decode(it, v, enc='utf-8', errors='strict'):
    try:
        return native_call(lambda s, e, r: bytes(s).decode(e, r), [v, enc, errors], {})
    except NotConcrete:
        pass
    if not isinstance(enc, str):
        raise Unsupported('unknown encoding')
    en = enc_name(enc)
    try:
        b''.decode(enc)
    except LookupError as ex:
        raise_(LookupError, str(ex))
    r = rope(v)
    if en in ASCII_COMPAT and all(chunk_isascii(c) for c in r):
        return mkstr(r)
    if en == 'latin-1':
        return mkstr(r)
    # the encoding of a text
    if len(r) == 1 and isinstance(r[0], R.Sub) and r[0].atom.decl().name() == 'enc_' + en and R.eq(r[0].off, 0) \
            and R.eq(r[0].n, R.blen(r[0].atom)) and r[0].step == 1:
        b = r[0].atom.arg(0)
        for key, (b2, rr) in C().reify_list.items():
            if b2.get_id() == b.get_id():
                return mkstr(rr)
        return mkstr((R.Sub(b, 0, R.blen(b)),))
    b = R.reify(r)
    ok = uf(f_dec, 'decodable_' + en, BS, B)(b)
    C().fact(Implies(R.blen(b) == 0, And(ok, R.blen(uf(f_dec, 'dec_' + en, BS, BS)(b)) == 0)))
    if not C().branch(ok):
        raise_(UnicodeDecodeError, '')
    t = uf(f_dec, 'dec_' + en, BS, BS)(b)
    n = R.blen(t)
    C().fact(n >= 0)
    C().fact(uf(f_u8, 'enc_' + en, BS, BS)(t) == b)
    C().fact(uf(f_u8, 'encodable_' + en, BS, B)(t))
    return mkstr((R.Sub(t, 0, n),))


def opaque_text(why):
    c = C()
    t = c.fresh('txt', BS)
    n = R.blen(t)
    c.fact(n >= 0)
    return SStr((R.Sub(t, 0, n),))


def str_of(it, v):
    if isinstance(v, NATIVE):
        return str(v)
    if isinstance(v, SStr):
        return v
    if isinstance(v, Obj):
        for nm in ('__str__', '__repr__'):
            m = it.lookup_cls(v.cls, nm)
            if m is not None:
                return it.call(it.bind(m, v), [], {})
        if not isinstance(v.cls, UserClass) or issub(v.cls, BaseException):
            a = v.attrs.get('args', ())
            if len(a) == 0:
                return ''
            if len(a) == 1:
                return str_of(it, a[0])
        return opaque_text('repr')
    if isinstance(v, SInt):
        if isinstance(v.cls, UserClass):
            m = v.cls.lookup('__str__')
            if m is not None:
                return it.call(it.bind(m, v), [], {})
        return mkstr((R.Num(v.t, 'd'),))
    if isinstance(v, SBool):
        return 'True' if C().branch(v.t) else 'False'
    if isinstance(v, SFloat):
        t = f_ftext(v.t)
        n = R.blen(t)
        C().fact(n >= 1)
        return SStr((R.Sub(t, 0, n, 1, True),))
    try:
        return str(to_native(v))
    except NotConcrete:
        return opaque_text('str')


def repr_(it, v):
    try:
        return repr(to_native(v))
    except NotConcrete:
        if isinstance(v, Obj):
            m = it.lookup_cls(v.cls, '__repr__')
            if m is not None:
                return it.call(it.bind(m, v), [], {})
        if isinstance(v, SInt):
            m = v.cls.lookup('__repr__') if isinstance(v.cls, UserClass) else None
            if m is not None:
                return it.call(it.bind(m, v), [], {})
            return mkstr((R.Num(v.t, 'd'),))
        if isinstance(v, (SBool, SFloat)):
            return str_of(it, v)
        return opaque_text('repr')


def format_value(it, v, spec):
    if isinstance(v, NATIVE) and isinstance(spec, str):
        return native_call(lambda x, s: format(x, s), [v, spec], {})
    if spec == '' or (spec in ('d', 's')):
        if spec == 'd' and not is_int(v):
            raise_(ValueError, 'bad format')
        return str_of(it, v)
    if spec in ('x', '02x') and is_int(v):
        t = iterm(v)
        if spec == '02x' and isbyte(t):
            return mkstr((R.Hx((R.El(t),)),))
    return opaque_text('format')


def percent_format(it, fmt, args):
    if not isinstance(fmt, str):
        return opaque_text('format')
    if isinstance(args, tuple):
        vals = list(args)
    else:
        vals = [args]
    out = ''
    i = 0
    while i < len(fmt):
        j = fmt.find('%', i)
        if j < 0:
            out = plain_binop(it, 'Add', out, fmt[i:])
            break
        out = plain_binop(it, 'Add', out, fmt[i:j])
        k = j + 1
        while k < len(fmt) and fmt[k] in '0123456789.-+# ':
            k += 1
        ch = fmt[k]
        if ch == '%':
            out = plain_binop(it, 'Add', out, '%')
            i = k + 1
            continue
        if ch == '(':
            raise Unsupported('named format')
        if not vals:
            raise_(TypeError, 'not enough arguments for format string')
        v = vals.pop(0)
        flags = fmt[j + 1:k]
        if ch == 's' and not flags:
            s = str_of(it, v)
        elif ch in 'di' and not flags:
            if not is_int(v) and not isinstance(v, (float, SFloat)):
                raise_(TypeError, '%d format: a number is required')
            s = str_of(it, mkint(iterm(v))) if is_int(v) else opaque_text('format')
        elif ch == 'r':
            s = repr_(it, v)
        elif ch == 'x' and flags == '02' and is_int(v) and isbyte(iterm(v)):
            s = mkstr((R.Hx((R.El(iterm(v)),)),))
        else:
            try:
                s = ('%' + flags + ch) % to_native(v)
            except NotConcrete:
                s = opaque_text('format')
            except (TypeError, ValueError) as e:
                raise_(type(e), str(e))
        out = plain_binop(it, 'Add', out, s)
        i = k + 1
    if vals and isinstance(args, tuple):
        raise_(TypeError, 'not all arguments converted during string formatting')
    return out


def str_format(it, fmt, args, kw):
    try:
        return native_call(lambda f, *a, **k: f.format(*a, **k), [fmt] + args, kw)
    except NotConcrete:
        pass
    if not isinstance(fmt, str):
        return opaque_text('format')
    out = ''
    auto = 0
    for text, field, spec, conv in _string.Formatter().parse(fmt):
        out = plain_binop(it, 'Add', out, text)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            return opaque_text('format')
        s = repr_(it, v) if conv == 'r' else format_value(it, v, spec or '')
        out = plain_binop(it, 'Add', out, s)
    return out


# ------------------------------------------------------------------ int <-> bytes

def int_from_bytes(it, data, order, signed=False):
    if not is_bytes(data):
        data = mkbytes(bytes_of_seq(it, data))
    r = rope(data)
    if order not in ('little', 'big'):
        raise_(ValueError, "byteorder must be either 'little' or 'big'")
    e = R.concrete(r)
    sg = it.truth(signed)
    if e is not None:
        return int.from_bytes(bytes(e), order, signed=sg)
    if order == 'big':
        r = R.rrev(r)
    return mkint(le_value(r, sg))


def le_value(r, signed):
    """value of a little-endian rope"""
    n = R.rlen(r)
    # most significant zero bytes do not change an unsigned value
    if not signed:
        while r and (isinstance(r[-1], R.Lit) and r[-1].elems[-1] == 0 or isinstance(r[-1], R.Rep) and R.eq(r[-1].t, 0)):
            r = R.mk(r[:-1] + (R.Lit(r[-1].elems[:-1]),)) if isinstance(r[-1], R.Lit) else tuple(r[:-1])
        n = R.rlen(r)
    if not r:
        return 0
    if len(r) == 1 and isinstance(r[0], R.IntB) and r[0].little:
        u = r[0].v
    elif isinstance(n, int) and n <= 4096 and n * 8 <= 1100:
        es = [R.rat(r, i) for i in range(n)]
        u = simp(z3.Sum([zint(x) * (256 ** i) for i, x in enumerate(es)])) if n > 1 else es[0]
        if is_term(u):
            C().fact(And(u >= 0, u < 256 ** n))
            if ALG.ring():
                u = ALG.named(u)
            C().prov[u.get_id()] = (u, r, n)
    else:
        b = R.reify(r)
        u = f_bsint(b)
        p = pow2(R.lmul(n, 8))
        C().fact(And(u >= 0, u < zint(p), Implies(zint(n) == 0, zint(p) == 1)))
        C().prov[u.get_id()] = (u, r, n)
        if not C().loopvars and not isinstance(r[-1], R.Fold):
            # the sign is that of the most significant byte
            m = r[-1].n
            if not isinstance(m, int) or m > 0:
                t = simp(zint(r[-1].at(R.lsub(m, 1))))
                C().fact(Implies(zint(m) >= 1, (t >= 128) == (2 * u >= zint(p))))
    if signed:
        full = pow2(R.lmul(n, 8))
        if C().branch(2 * zint(u) >= zint(full)):
            return simp(zint(u) - zint(full))
    return u


def int_to_bytes(it, v, length, order, signed=False):
    t = iterm(v)
    n = index_of(it, length)
    sg = it.truth(signed)
    if order not in ('little', 'big'):
        raise_(ValueError, "byteorder must be either 'little' or 'big'")
    if isinstance(n, int) and n < 0 or (not isinstance(n, int) and C().branch(n < 0)):
        raise_(ValueError, 'length argument must be non-negative')
    if isinstance(t, int) and isinstance(n, int):
        try:
            return t.to_bytes(n, order, signed=sg)
        except OverflowError as e:
            raise_(OverflowError, str(e))
    full = pow2(R.lmul(n, 8))
    if sg:
        # range -2^(8n-1) <= v < 2^(8n-1)
        bad = Or(2 * zint(t) < -zint(full), 2 * zint(t) >= zint(full))
    else:
        if isinstance(t, int) and t < 0 or (is_term(t) and C().branch(t < 0)):
            raise_(OverflowError, "can't convert negative int to unsigned")
        bad = zint(t) >= zint(full)
    if C().branch(bad):
        raise_(OverflowError, 'int too big to convert')
    u = t
    if sg and (isinstance(t, int) and t < 0 or (is_term(t) and C().branch(t < 0))):
        u = simp(zint(t) + zint(full))
    return mkbytes(int_rope(u, n, order == 'little'))


def int_rope(u, n, little):
    """the rope of the n bytes of u (0 <= u < 256**n holds)"""
    if is_term(u):
        p = C().prov.get(u.get_id())
        if p is not None:
            r, m = p[1], p[2]
            if R.le(m, n):
                r = R.rcat(r, R.mk((R.Rep(0, R.lsub(n, m)),)))
                return r if little else R.rrev(r)
            # fewer bytes than the source: the top ones are zero
    return R.mk((R.IntB(u, n, little),))


def digit_sum(v):
    """an integer summed up from its bytes one by one is that integer"""
    if not isinstance(v, SInt) or v.cls is not int or not z3.is_add(v.t) or v.t.num_args() < 4 or v.t.num_args() > 200:
        return v
    parts = {}
    for p in v.t.children():
        c, a = (p.arg(0).as_long(), p.arg(1)) if z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)) else (1, p)
        if c in parts or z3.is_int_value(p):
            return v
        parts[c] = a
    n = len(parts)
    if any(256 ** i not in parts for i in range(n)):
        return v
    es = [parts[256 ** i] for i in range(n)]
    if z3.is_mod(es[0]) and z3.is_int_value(es[0].arg(1)) and es[0].arg(1).as_long() == 256:
        x = es[0].arg(0)
        if all(e.eq(simp((x / (256 ** i)) % 256)) for i, e in enumerate(es) if 0 < i < n - 1):
            if es[-1].eq(simp(x / (256 ** (n - 1)))):
                return mkint(x)
            if es[-1].eq(simp((x / (256 ** (n - 1))) % 256)) and C().valid(And(x >= 0, x < 256 ** n)):
                return mkint(x)
    if v.t.get_id() not in C().prov and all(isbyte(e) for e in es):
        u = v.t
        C().fact(And(u >= 0, u < 256 ** n))
        if ALG.ring():
            u = ALG.named(u)
        C().prov[u.get_id()] = (u, R.mk(tuple(R.El(e) for e in es)), n)
        return mkint(u)
    return v


def digit_sums(vars):
    for k, v in list(vars.items()):
        w = digit_sum(v)
        if w is not v:
            vars[k] = w


# ------------------------------------------------------------------ hex

f_ishex = z3.Function('ishex', BS, B)
f_unhex = z3.Function('unhex', BS, BS)


def is_hexdigit(t):
    if isinstance(t, int):
        return chr(t) in '0123456789abcdefABCDEF'
    return Or(And(t >= 48, t <= 57), And(t >= 65, t <= 70), And(t >= 97, t <= 102))


def hexval(t):
    if isinstance(t, int):
        return int(chr(t), 16)
    return simp(z3.If(t <= 57, t - 48, z3.If(t <= 70, t - 55, t - 87)))


def unhex_rope(r, exc, msg):
    """bytes denoted by a rope of hex digits; raises exc otherwise"""
    n = R.rlen(r)
    if isinstance(n, int):
        odd = n % 2 == 1
    elif R.half(n) is not None:
        odd = False
    else:
        odd = C().branch(n % 2 == 1)
    if odd:
        raise_(exc, 'Odd-length string')
    out = ()
    pend = list(r)
    while pend:
        c = pend.pop(0)
        if isinstance(c, R.Hx):
            out = R.rcat(out, c.rope)
            continue
        if isinstance(c, R.Lit):
            s = c.elems
            if len(s) % 2:
                # borrow one element from what follows
                if not pend:
                    raise Unsupported('hex digits')
                nx = pend.pop(0)
                e = nx.at(0)
                rest = R.rslice((nx,), 1, R.lsub(nx.n, 1))
                pend = list(rest) + pend
                head, last = s[:-1], s[-1]
                if any(chr(x) not in '0123456789abcdefABCDEF' for x in s):
                    raise_(exc, msg)
                if not (is_hexdigit(e) if isinstance(e, int) else C().branch(zbool(is_hexdigit(e)))):
                    raise_(exc, msg)
                out = R.rcat(out, R.lit(bytes.fromhex(''.join(map(chr, head)))))
                out = R.rcat(out, R.mk((R.El(simp(16 * zint(hexval(last)) + zint(hexval(e)))),)))
                continue
            if any(x > 127 or chr(x) not in '0123456789abcdefABCDEF' for x in s):
                raise_(exc, msg)
            out = R.rcat(out, R.lit(bytes.fromhex(''.join(map(chr, s)))))
            continue
        m = c.n
        if isinstance(m, int) and m <= 256:
            group = [c.at(i) for i in range(m)]
            while len(group) % 2:
                nx = pend.pop(0)
                group.append(nx.at(0))
                pend = list(R.rslice((nx,), 1, R.lsub(nx.n, 1))) + pend
            f = And(*[is_hexdigit(e) for e in group])
            if f is False or (f is not True and not C().branch(zbool(f))):
                raise_(exc, msg)
            for i in range(0, len(group), 2):
                v = simp(16 * zint(hexval(group[i])) + zint(hexval(group[i + 1])))
                if is_term(v):
                    C().fact(And(v >= 0, v <= 255))
                out = R.rcat(out, R.mk((R.El(v),)))
            continue
        if isinstance(c, R.Fold) and isinstance(c.L, int) and c.L % 2 == 0 and all(isinstance(x, R.Hx) for x in c.body):
            out = R.rcat(out, (R.Fold(c.lo, c.hi, c.var, R.mk(tuple(y for x in c.body for y in x.rope)), c.delta),))
            continue
        if not isinstance(m, int) and C().branch(m == 0):
            continue
        if out == () and not pend:
            # a text of unknown length
            b = R.reify((c,))
            if not C().branch(f_ishex(b)):
                raise_(exc, msg)
            u = f_unhex(b)
            h = R.half(m)
            if h is None:
                h = lsimp(zint(m) / 2)
            C().fact(And(R.blen(u) == zint(h)))
            return (R.Sub(u, 0, h),)
        raise Unsupported('unhexlify of a composite text of unknown length')
    return out


# ------------------------------------------------------------------ attributes of built-in values

def native_method(it, recv, name):
    def fn(it, a, k):
        return native_call(lambda r, *x, **y: getattr(r, name)(*x, **y), [recv] + a, k)
    return fn


def meth(name, f):
    return NativeFn(name, f)


def value_attr(it, o, name):
    if isinstance(o, Stream):
        from . import libs
        return libs.stream_attr(it, o, name)
    if isinstance(o, HashObj):
        from . import libs
        return libs.hash_attr(it, o, name)
    if name == '__class__':
        return typeof(o)
    if is_int(o):
        return int_attr(it, o, name)
    if is_bytes(o):
        return bytes_attr(it, o, name)
    if is_str(o):
        return str_attr(it, o, name)
    if isinstance(o, PyList):
        return list_attr(it, o, name)
    if isinstance(o, PyDict):
        return dict_attr(it, o, name)
    if isinstance(o, PySet):
        return set_attr(it, o, name)
    if isinstance(o, UserFunc):
        if name in ('__name__', '__qualname__'):
            return o.name
        if name == '__doc__':
            return None
        if hasattr(o, 'attrs') and name in o.attrs:
            return o.attrs[name]
        return None
    if isinstance(o, BoundMethod):
        if name == '__self__':
            return o.self_
        if name == '__func__':
            return o.func
        return value_attr(it, o.func, name)
    if isinstance(o, (float, tuple)):
        if hasattr(o, name):
            return meth(name, native_method(it, o, name))
        return None
    if isinstance(o, SReal):
        if name == 'numerator' or name == 'denominator':
            raise Unsupported('numerator of a symbolic rational')
        return None
    if isinstance(o, IterV):
        if name == '__next__':
            return meth('__next__', lambda it, a, k: next_(it, [o], {}))
        return None
    if isinstance(o, SFloat):
        if name == 'is_integer':
            raise Unsupported('is_integer of a symbolic float')
        return None
    if isinstance(o, NativeFn):
        if name == '__name__':
            return o.name
        return None
    return None


def int_attr(it, o, name):
    if name == 'to_bytes':
        def f(it, a, k):
            n = a[0] if a else k.get('length', 1)
            order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
            return int_to_bytes(it, o, n, order, k.get('signed', False))
        return meth(name, f)
    if name == 'bit_length':
        return meth(name, lambda it, a, k: mkint(bitlen(iterm(o))))
    if name == 'from_bytes':
        return type_attr(it, int, 'from_bytes')
    if name in ('real', 'numerator'):
        return mkint(iterm(o))
    if name in ('imag',):
        return 0
    if name == 'denominator':
        return 1
    if name == '__index__' or name == '__int__' or name == '__trunc__' or name == 'conjugate':
        return meth(name, lambda it, a, k: mkint(iterm(o)))
    m = base_method(it, int, o, name)
    if m is not None:
        return m
    if isinstance(o, int) and hasattr(o, name):
        return meth(name, native_method(it, o, name))
    return None


def base_method(it, base, o, name):
    """method `name` of the built-in class `base` on the value o (used by super())"""
    if base is int:
        x = mkint(iterm(o)) if is_int(o) else o

        def plain(v):
            return mkint(iterm(v)) if is_int(v) else v
        if name in DMAP:
            return meth(name, lambda it, a, k: plain_binop(it, DMAP[name], x, plain(a[0])) if is_int(a[0]) else NotImplemented)
        if name in RDMAP:
            return meth(name, lambda it, a, k: plain_binop(it, RDMAP[name], plain(a[0]), x) if is_int(a[0]) else NotImplemented)
        if name in CDMAP:
            return meth(name, lambda it, a, k: plain_cmp(it, CDMAP[name], x, plain(a[0])) if is_int(a[0]) else NotImplemented)
        if name == '__eq__':
            return meth(name, lambda it, a, k: mkbool(plain_eq(it, x, plain(a[0]))) if is_int(a[0]) else NotImplemented)
        if name == '__ne__':
            return meth(name, lambda it, a, k: mkbool(Not(plain_eq(it, x, plain(a[0])))) if is_int(a[0]) else NotImplemented)
        if name == '__neg__':
            return meth(name, lambda it, a, k: unary(it, 'USub', x))
        if name == '__pos__':
            return meth(name, lambda it, a, k: x)
        if name == '__invert__':
            return meth(name, lambda it, a, k: unary(it, 'Invert', x))
        if name == '__abs__':
            return meth(name, lambda it, a, k: mkint(zabs(iterm(x))))
        if name in ('__str__', '__repr__'):
            return meth(name, lambda it, a, k: str_of(it, x))
        if name == '__hash__':
            return meth(name, lambda it, a, k: x)
        if name == '__bool__':
            return meth(name, lambda it, a, k: mkbool(it.truth_formula(x)))
        if name == '__divmod__':
            return meth(name, lambda it, a, k: (plain_binop(it, 'FloorDiv', x, plain(a[0])), plain_binop(it, 'Mod', x, plain(a[0]))))
        if name in ('__int__', '__index__'):
            return meth(name, lambda it, a, k: x)
        if name in ('to_bytes', 'bit_length'):
            return int_attr(it, x, name)
        if name == '__init__':
            return meth(name, lambda it, a, k: None)
        if name == '__new__':
            return meth(name, lambda it, a, k: mkint(iterm(construct(it, int, a[1:], k)), a[0]))
        return None
    if issubclass(base, BaseException):
        if name == '__init__':
            def f(it, a, k):
                o.attrs['args'] = tuple(a)
            return meth(name, f)
        if name == '__str__':
            return meth(name, lambda it, a, k: str_of(it, (o.attrs.get('args') or ('',))[0]))
    return None


def bytes_attr(it, o, name):
    mutable = isinstance(o, ByteArray)

    def wrap(x):
        return ByteArray(x) if mutable else mkbytes(x)
    if name == 'hex':
        return meth(name, lambda it, a, k: mkstr(R.mk((R.Hx(rope(o)),))) if not a else native_method(it, o, name)(it, a, k))
    if name == 'decode':
        return meth(name, lambda it, a, k: decode(it, o, *(a or [k.get('encoding', 'utf-8')]), **({'errors': k['errors']} if 'errors' in k else {})))
    if name == 'fromhex':
        return type_attr(it, typeof(o), 'fromhex')
    if mutable:
        def setr(r):
            o.rope = r
        if name == 'append':
            def f(it, a, k):
                o.rope = R.rcat(o.rope, bytes_of_seq(it, PyList([a[0]])))
            return meth(name, f)
        if name == 'extend':
            def f(it, a, k):
                o.rope = R.rcat(o.rope, rope(a[0]) if is_bytes(a[0]) else bytes_of_seq(it, a[0]))
            return meth(name, f)
        if name == 'reverse':
            return meth(name, lambda it, a, k: setr(R.rrev(o.rope)))
        if name == 'insert':
            def f(it, a, k):
                n = R.rlen(o.rope)
                i = clamp(a[0], n, 0)
                e = bytes_of_seq(it, PyList([a[1]]))
                o.rope = R.rcat(R.rcat(R.rslice(o.rope, 0, i), e), R.rslice(o.rope, i, R.lsub(n, i)))
            return meth(name, f)
        if name == 'pop':
            def f(it, a, k):
                n = R.rlen(o.rope)
                i = norm_index(index_of(it, a[0]) if a else -1, n)
                e = mkint(R.rat(o.rope, i))
                delitem(it, o, e if False else mkint(i))
                return e
            return meth(name, f)
        if name == 'clear':
            return meth(name, lambda it, a, k: setr(()))
    if name == 'copy':
        return meth(name, lambda it, a, k: wrap(rope(o)))
    if name in ('startswith', 'endswith'):
        def f(it, a, k):
            p = a[0]
            if isinstance(p, tuple):
                return mkbool(Or(*[it.truth_formula(f(it, [q], k)) for q in p]))
            n, m = R.rlen(rope(o)), R.rlen(rope(p))
            if not R.le(m, n) and C().branch(zint(n) < zint(m)):
                return False
            part = R.rslice(rope(o), 0, m) if name == 'startswith' else R.rslice(rope(o), R.lsub(n, m), m)
            return mkbool(R.req(part, rope(p)))
        return meth(name, f)
    if name in ('rstrip', 'lstrip', 'strip'):
        def f(it, a, k):
            chars = rope(a[0]) if a and a[0] is not None else R.lit(b' \t\n\r\x0b\x0c')
            ce = R.concrete(chars)
            if ce is None:
                raise Unsupported('strip of unknown characters')
            r = rope(o)
            if name in ('lstrip', 'strip'):
                r = R.rrev(rstrip_rope(R.rrev(r), ce))
            if name in ('rstrip', 'strip'):
                r = rstrip_rope(r, ce)
            return wrap(r)
        return meth(name, f)
    if name == 'join':
        def f(it, a, k):
            return wrap(join(it, rope(o), a[0]))
        return meth(name, f)
    if name in ('ljust', 'rjust', 'zfill'):
        def f(it, a, k):
            w = index_of(it, a[0])
            fill = 48 if name == 'zfill' else 32
            if len(a) > 1:
                fill = R.concrete(rope(a[1]))[0]
            n = R.rlen(rope(o))
            if R.le(w, n) or (not R.le(n, w) and C().branch(zint(w) <= zint(n))):
                return wrap(rope(o))
            pad = R.mk((R.Rep(fill, R.lsub(w, n)),))
            return wrap(R.rcat(rope(o), pad) if name == 'ljust' else R.rcat(pad, rope(o)))
        return meth(name, f)
    if name == '__len__':
        return meth(name, lambda it, a, k: mkint(R.rlen(rope(o))))
    if name == '__getitem__':
        return meth(name, lambda it, a, k: getitem(it, o, a[0]))
    if name == '__eq__':
        return meth(name, lambda it, a, k: compare(it, 'Eq', o, a[0]))
    if name == '__add__':
        return meth(name, lambda it, a, k: binop(it, 'Add', o, a[0]))
    if name == 'count' and not isinstance(o, bytes):
        def f(it, a, k):
            n = R.rlen(rope(o))
            if isinstance(n, int) and is_int(a[0]):
                return mkint(z3.Sum([z3.If(zint(R.rat(rope(o), i)) == zint(iterm(a[0])), 1, 0) for i in range(n)]) if n else z3.IntVal(0))
            raise Unsupported('count')
        return meth(name, f)
    if hasattr(bytearray if mutable else bytes, name):
        def f(it, a, k):
            try:
                return native_method(it, o, name)(it, a, k)
            except NotConcrete:
                raise Unsupported('bytes.%s on symbolic data' % name)
        return meth(name, f)
    return None


f_rstrip = {}
f_rstriplen = {}


def rstrip_rope(r, chars):
    while r:
        c = r[-1]
        if isinstance(c, R.Lit):
            e = list(c.elems)
            while e and e[-1] in chars:
                e.pop()
            r = R.mk(r[:-1] + (R.Lit(e),))
            if e:
                return r
            continue
        if isinstance(c, R.Rep) and isinstance(c.t, int):
            if c.t in chars:
                r = r[:-1]
                continue
        n = c.n
        if not isinstance(n, int):
            if R.eq(n, 0) or (not R.lt(0, n) and C().branch(n == 0)):
                r = r[:-1]
                continue
        last = zint(c.at(R.lsub(n, 1)))
        inn = Or(*[last == ch for ch in chars])
        if not C().branch(inn):
            return r
        if isinstance(n, int):
            r = R.rcat(r[:-1], c.cut(0, n - 1) if n > 1 else ())
            continue
        if len(r) == 1 and isinstance(c, R.Sub):
            # the result is the part up to the last element which is not stripped
            x = C()
            b = R.reify(r)
            m = uf(f_rstriplen, 'rstriplen_' + '_'.join(map(str, chars)), BS, I)(b)
            x.fact(And(m >= 0, m < zint(n)))
            x.fact(Implies(m > 0, Not(Or(*[zint(c.at(R.lsub(m, 1))) == ch for ch in chars]))))
            i = x.fresh_index('strip')
            x.loopvars.append(i)
            try:
                e = zint(c.at(i))
            finally:
                x.loopvars.pop()
            R.for_all(m, n, i, Or(*[e == ch for ch in chars]))
            return R.mk(c.cut(0, m))
        b = R.reify(r)
        u = uf(f_rstrip, 'rstrip_' + '_'.join(map(str, chars)), BS, BS)(b)
        m = R.blen(u)
        C().fact(And(m >= 0, m < zint(R.rlen(r))))
        return (R.Sub(u, 0, m),)
    return ()


def join(it, sep, v):
    sv = seq_view(it, v)
    if isinstance(sv.n, int):
        out = ()
        for i in range(max(sv.n, 0)):
            x = sv.get(i)
            if i and sep:
                out = R.rcat(out, sep)
            if not (is_bytes(x) or is_str(x)):
                raise_(TypeError, 'sequence item: expected a string')
            out = R.rcat(out, rope(x))
        return out
    if sep:
        raise Unsupported('join with a separator over an unknown length')
    from . import loops
    return loops.fold_ropes(it, sv, lambda x: rope(x))


def str_attr(it, o, name):
    if name == 'encode':
        def f(it, a, k):
            enc = a[0] if a else k.get('encoding', 'utf-8')
            err = a[1] if len(a) > 1 else k.get('errors', 'strict')
            return encode(it, o, enc, err)
        return meth(name, f)
    if name == 'format':
        return meth(name, lambda it, a, k: str_format(it, o, a, k))
    if name == 'join':
        return meth(name, lambda it, a, k: mkstr(join(it, rope(o), a[0])))
    if name in ('startswith', 'endswith'):
        b = bytes_attr(it, SBytes(rope(o)), name)
        return b
    if name == '__len__':
        return meth(name, lambda it, a, k: mkint(R.rlen(rope(o))))
    if isinstance(o, SStr) and name in ('lower', 'upper', 'casefold'):
        def f(it, a, k):
            r = rope(o)
            if all(isinstance(c, R.Hx) for c in r):
                return mkstr(R.mk(tuple(R.Hx(c.rope, name == 'upper') for c in r)))
            out = []
            for c in r:
                if isinstance(c, R.Lit):
                    out.append(R.Lit([ord(getattr(chr(e), name)()) for e in c.elems]))
                elif isinstance(c, R.Hx):
                    out.append(R.Hx(c.rope, name == 'upper'))
                else:
                    raise Unsupported('str.%s of a symbolic text' % name)
            return mkstr(R.mk(tuple(out)))
        return meth(name, f)
    if isinstance(o, SStr) and name in ('strip', 'lstrip', 'rstrip') :
        def f(it, a, k):
            r = rope(o)
            chars = [ord(ch) for ch in (a[0] if a and a[0] is not None else ' \t\n\r\x0b\x0c')]
            if all(isinstance(c, (R.Hx, R.B58, R.Num)) for c in r) and all(chr(ch).isspace() for ch in chars):
                return o
            if not a:
                raise Unsupported('str.strip of a symbolic text')
            if name in ('lstrip', 'strip'):
                r = R.rrev(rstrip_rope(R.rrev(r), chars))
            if name in ('rstrip', 'strip'):
                r = rstrip_rope(r, chars)
            return mkstr(r)
        return meth(name, f)
    if name in ('ljust', 'rjust', 'zfill') and isinstance(o, SStr):
        b = bytes_attr(it, SBytes(rope(o)), name)
        return meth(name, lambda it, a, k: mkstr(rope(it.call(b, [a[0]] + [encode(it, x) for x in a[1:]], k))))
    if hasattr(str, name):
        def f(it, a, k):
            try:
                return native_method(it, o, name)(it, a, k)
            except NotConcrete:
                raise Unsupported('str.%s on a symbolic text' % name)
        return meth(name, f)
    return None


def list_attr(it, o, name):
    if name == 'append':
        return meth(name, lambda it, a, k: o.items.append(a[0]))
    if name == 'extend':
        return meth(name, lambda it, a, k: list_extend(it, o, a[0]))
    if name == 'insert':
        def f(it, a, k):
            if not o.concrete() or not isinstance(a[0], int):
                if isinstance(a[0], int) and a[0] == 0:
                    o.items.insert(0, a[1])
                    return
                raise Unsupported('insert')
            o.items.insert(a[0], a[1])
        return meth(name, f)
    if name == 'pop':
        def f(it, a, k):
            if not o.concrete() or (a and not isinstance(a[0], int)):
                raise Unsupported('pop')
            if not o.items:
                raise_(IndexError, 'pop from empty list')
            try:
                return o.items.pop(*a)
            except IndexError as e:
                raise_(IndexError, str(e))
        return meth(name, f)
    if name == 'reverse':
        def f(it, a, k):
            o.items = getitem(it, o, slice(None, None, -1)).items
        return meth(name, f)
    if name == 'copy':
        return meth(name, lambda it, a, k: PyList(o.items))
    if name == 'clear':
        def f(it, a, k):
            o.items = []
        return meth(name, f)
    if name == 'index':
        def f(it, a, k):
            for i, x in enumerate(to_list(it, o)):
                if it.truth(compare(it, 'Eq', x, a[0])):
                    return i
            raise_(ValueError, 'not in list')
        return meth(name, f)
    if name == 'count':
        def f(it, a, k):
            return sum(1 for x in to_list(it, o) if it.truth(compare(it, 'Eq', x, a[0])))
        return meth(name, f)
    if name == 'remove':
        def f(it, a, k):
            for i, x in enumerate(to_list(it, o)):
                if it.truth(compare(it, 'Eq', x, a[0])):
                    del o.items[i]
                    return
            raise_(ValueError, 'not in list')
        return meth(name, f)
    if name == 'sort':
        def f(it, a, k):
            o.items = sorted_(it, [o], k).items
        return meth(name, f)
    if name == '__len__':
        return meth(name, lambda it, a, k: mkint(o.length()))
    if name == '__getitem__':
        return meth(name, lambda it, a, k: getitem(it, o, a[0]))
    if name == '__iter__':
        return meth(name, lambda it, a, k: IterV(o))
    return None


def dict_attr(it, o, name):
    if name == 'get':
        def f(it, a, k):
            kk = dict_key(it, o, a[0])
            return o.d[kk][1] if kk in o.d else (a[1] if len(a) > 1 else None)
        return meth(name, f)
    if name == 'keys':
        return meth(name, lambda it, a, k: PyList([x for x, y in o.d.values()]))
    if name == 'values':
        return meth(name, lambda it, a, k: PyList([y for x, y in o.d.values()]))
    if name == 'items':
        return meth(name, lambda it, a, k: PyList([(x, y) for x, y in o.d.values()]))
    if name == 'setdefault':
        def f(it, a, k):
            kk = dict_key(it, o, a[0])
            if kk not in o.d:
                o.d[kk] = (a[0], a[1] if len(a) > 1 else None)
            return o.d[kk][1]
        return meth(name, f)
    if name == 'pop':
        def f(it, a, k):
            kk = dict_key(it, o, a[0])
            if kk in o.d:
                return o.d.pop(kk)[1]
            if len(a) > 1:
                return a[1]
            raise_(KeyError, 'key')
        return meth(name, f)
    if name == 'update':
        def f(it, a, k):
            for x in a:
                for kk, p in x.d.items():
                    o.d[kk] = p
            for kk, v in k.items():
                o.d[kk] = (kk, v)
        return meth(name, f)
    if name == 'copy':
        return meth(name, lambda it, a, k: PyDict(dict(o.d)))
    if name == 'clear':
        return meth(name, lambda it, a, k: o.d.clear())
    if name == 'popitem':
        def f(it, a, k):
            if not o.d:
                raise_(KeyError, 'popitem(): dictionary is empty')
            kk = list(o.d)[-1]
            return o.d.pop(kk)
        return meth(name, f)
    return None


def set_attr(it, o, name):
    if name == 'add':
        def f(it, a, k):
            hashable(it, a[0])
            if not any(x is a[0] for x in o.items):
                o.items.append(a[0])
        return meth(name, f)
    if name in ('update', 'union'):
        def f(it, a, k):
            new = [x for y in a for x in to_list(it, y)]
            if name == 'update':
                o.items.extend(new)
            else:
                return PySet(o.items + new)
        return meth(name, f)
    if name in ('discard', 'remove'):
        def f(it, a, k):
            before = len(o.items)
            o.items = [x for x in o.items if not it.truth(compare(it, 'Eq', x, a[0]))]
            if name == 'remove' and len(o.items) == before:
                raise_(KeyError, 'key')
        return meth(name, f)
    if name == 'issubset':
        return meth(name, lambda it, a, k: plain_cmp(it, 'LtE', o, make_set(it, to_list(it, a[0]))))
    if name == 'copy':
        return meth(name, lambda it, a, k: PySet(o.items))
    return None


def object_attr(it, o, name):
    if name == '__init__':
        return meth(name, lambda it, a, k: None)
    if name == '__class__':
        return o.cls
    if name == 'with_traceback' or name == 'add_note':
        return meth(name, lambda it, a, k: o)
    if name == 'message':
        return None
    if name in ('__eq__', '__ne__'):
        return meth(name, lambda it, a, k: (o is a[0]) == (name == '__eq__'))
    if name in ('__str__', '__repr__'):
        return meth(name, lambda it, a, k: str_of(it, o))
    return None


def type_attr(it, t, name):
    if name == '__name__':
        return t.__name__
    if name == '__qualname__':
        return t.__qualname__
    if t is int or (isinstance(t, type) and issubclass(t, int)):
        if name == 'from_bytes':
            def f(it, a, k):
                data = a[0] if a else k['bytes']
                order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
                return int_from_bytes(it, data, order, k.get('signed', False))
            return meth(name, f)
        if name in ('to_bytes', 'bit_length', '__index__') or base_method(it, int, 0, name) is not None:
            def f(it, a, k):
                if name == '__new__':
                    return base_method(it, int, 0, '__new__').fn(it, a, k)
                return it.call(base_method(it, int, a[0], name) or int_attr(it, a[0], name), a[1:], k)
            return meth(name, f)
    if t in (bytes, bytearray):
        if name == 'fromhex':
            def f(it, a, k):
                return fromhex(it, t, a[0])
            return meth(name, f)
        if hasattr(t, name):
            return meth(name, lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k))
    if t is str and name == 'maketrans':
        return meth(name, lambda it, a, k: native_call(str.maketrans, a, k))
    if t in (str, list, dict, set, float, tuple) and hasattr(t, name):
        if name == 'fromkeys':
            return meth(name, lambda it, a, k: native_call(dict.fromkeys, a, k))
        return meth(name, lambda it, a, k: it.call(it.getattr(a[0], name), a[1:], k))
    if t is object:
        if name == '__init__':
            return meth(name, lambda it, a, k: None)
        if name == '__new__':
            return meth(name, lambda it, a, k: Obj(a[0]))
        if name == '__setattr__':
            return meth(name, lambda it, a, k: it.setattr_raw(*a))
    if issubclass(t, BaseException) and name == '__init__':
        def f(it, a, k):
            a[0].attrs['args'] = tuple(a[1:])
        return meth(name, f)
    from . import libs
    return libs.type_attr(it, t, name)


f_hexok = z3.Function('fromhex_ok', BS, B)
f_hexdat = z3.Function('fromhex_data', BS, BS)


def fromhex(it, t, s):
    def wrap(r):
        return ByteArray(r) if t is bytearray else mkbytes(r)
    if not is_str(s):
        raise_(TypeError, 'fromhex() argument must be str')
    if isinstance(s, str):
        try:
            return wrap(R.lit(bytes.fromhex(s)))
        except ValueError as e:
            raise_(ValueError, str(e))
    r = rope(s)
    if all(isinstance(c, (R.Hx, R.Lit)) for c in r) and not any(chr(e).isspace() for c in r if isinstance(c, R.Lit) for e in c.elems):
        return wrap(unhex_rope(r, ValueError, 'non-hexadecimal number found'))
    n = R.rlen(r)
    trust('bytes.fromhex: two hex digits per byte, white space between bytes is skipped')
    if isinstance(n, int) and n <= 256:
        es = [R.rat(r, i) for i in range(n)]
        allhex = And(*[is_hexdigit(e) for e in es])
        if n % 2 == 0 and C().branch(zbool(allhex)):
            return wrap(unhex_rope(r, ValueError, ''))
        # white space inside, or not hex at all: fewer than n/2 bytes, or an error
        b = R.reify(r)
        if C().branch(f_hexok(b)):
            b = f_hexdat(b)
            m = R.blen(b)
            C().fact(And(m >= 0, 2 * m < n))
            return wrap((R.Sub(b, 0, m),))
        raise_(ValueError, 'non-hexadecimal number found')
    b = R.reify(r)
    if not C().branch(f_hexok(b)):
        raise_(ValueError, 'non-hexadecimal number found')
    d = f_hexdat(b)
    m = R.blen(d)
    C().fact(And(m >= 0, 2 * m <= zint(n)))
    return wrap((R.Sub(d, 0, m),))


# ------------------------------------------------------------------ constructors

def construct(it, t, a, k):
    if issubclass(t, BaseException):
        return Obj(t, {'args': tuple(a)})
    if t is int:
        return make_int(it, a, k)
    if t is bool:
        return mkbool(it.truth_formula(a[0])) if a else False
    if t is str:
        if not a:
            return k.get('object', '')
        if len(a) > 1 or 'encoding' in k:
            return decode(it, a[0], a[1] if len(a) > 1 else k['encoding'])
        return str_of(it, a[0])
    if t in (bytes, bytearray):
        r = make_bytes(it, a, k)
        return ByteArray(r) if t is bytearray else mkbytes(r)
    if t is list:
        return to_pylist(it, a[0]) if a else PyList()
    if t is tuple:
        return tuple(to_list(it, a[0])) if a else ()
    if t in (set, frozenset):
        if not a:
            return PySet()
        if isinstance(a[0], PySet):
            return PySet(a[0].items)
        if isinstance(a[0], PyList) and a[0].concrete():
            return PySet(a[0].items)
        return PySet(to_list(it, a[0]))
    if t is dict:
        d = PyDict()
        if a:
            if isinstance(a[0], PyDict):
                d.d.update(a[0].d)
            else:
                for p in to_list(it, a[0]):
                    x, y = to_list(it, p)
                    setitem(it, d, x, y)
        for kk, v in k.items():
            d.d[kk] = (kk, v)
        return d
    if t is float:
        return make_float(it, a)
    if t is range:
        return range_(it, a, k)
    if t is object:
        return Obj(object)
    if t is type:
        if len(a) == 1:
            return typeof(a[0])
        raise Unsupported('type() with three arguments')
    if t is slice:
        return slice(*a) if len(a) > 1 else slice(None, a[0])
    if t in (zip, enumerate, reversed, map, filter):
        return {zip: zip_, enumerate: enumerate_, reversed: reversed_, map: map_, filter: filter_}[t](it, a, k)
    if t is memoryview:
        return a[0]
    if t is property:
        return PropertyV(*a)
    if t is staticmethod:
        return StaticM(a[0])
    if t is classmethod:
        return ClassM(a[0])
    if t is super:
        return SuperProxy(a[0], a[1])
    from . import libs
    r = libs.construct(it, t, a, k)
    if r is not None:
        return r
    try:
        return native_call(t, a, k)
    except NotConcrete:
        raise Unsupported('construction of %s' % t.__name__)


f_intok = z3.Function('int_parses', BS, B)
f_intval = z3.Function('int_parsed', BS, I)
f_floatok = z3.Function('float_parses', BS, B)
f_floatval = z3.Function('float_parsed', BS, FL)


def make_int(it, a, k):
    if not a:
        return 0
    v = a[0]
    base = a[1] if len(a) > 1 else k.get('base')
    if base is not None:
        try:
            return native_call(int, [v, base], {})
        except NotConcrete:
            pass
        r = rope(v)
        if base == 16 and all(isinstance(c, (R.Hx, R.Lit)) for c in r):
            return int_from_bytes(it, mkbytes(unhex_rope(r, ValueError, '')), 'big')
        if base == 16 and len(r) == 1 and isinstance(r[0], R.Num) and r[0].kind == 'x':
            return mkint(r[0].v)
        if base == 10 and len(r) == 1 and isinstance(r[0], R.Num) and r[0].kind == 'd':
            return mkint(r[0].v)
        raise Unsupported('int() of a symbolic text')
    if isinstance(v, (int, float, str, bytes)) and not isinstance(v, bool):
        return native_call(int, [v], {})
    if is_int(v):
        if isinstance(v, SInt) and isinstance(v.cls, UserClass):
            m = v.cls.lookup('__int__')
            if m is not None:
                return it.call(it.bind(m, v), [], {})
        return mkint(iterm(v))
    if isinstance(v, SFloat):
        if not C().branch(f_fin(v.t)):
            raise_(OverflowError, 'cannot convert float infinity to integer')
        return mkint(f_ftrunc(v.t))
    if isinstance(v, SReal):
        return mkint(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    if is_str(v):
        r = rope(v)
        if len(r) == 1 and isinstance(r[0], R.Num) and r[0].kind == 'd':
            return mkint(r[0].v)
        b = R.reify(r)
        trust('int(text) is a function of the text, and the number which Fraction(text) gives; str(float) is no whole-number literal')
        if b.decl().name() == 'ftext':
            raise_(ValueError, 'invalid literal for int()')
        C().fact(Implies(f_intok(b), And(f_fracok(b), f_fracval(b) == z3.ToReal(f_intval(b)))))
        if not C().branch(f_intok(b)):
            raise_(ValueError, 'invalid literal for int()')
        return mkint(f_intval(b))
    if is_bytes(v):
        raise Unsupported('int() of symbolic bytes')
    if isinstance(v, Obj):
        for nm in ('__int__', '__index__', '__trunc__'):
            m = it.lookup_cls(v.cls, nm)
            if m is not None:
                return it.call(it.bind(m, v), [], {})
        raise_(TypeError, 'int() argument must be a string or a number')
    if isinstance(v, (Opaque, Poison)):
        raise Unsupported('int of an unknown value')
    raise_(TypeError, 'int() argument must be a string or a number')


def make_float(it, a):
    if not a:
        return 0.0
    v = a[0]
    if isinstance(v, NATIVE):
        return native_call(float, [v], {})
    if isinstance(v, SFloat):
        return v
    if is_int(v):
        t = iterm(v)
        # OverflowError beyond the float range
        big = zabs2(zint(t)) >= 2 ** 1024 - 2 ** 970
        if C().branch(big):
            raise_(OverflowError, 'int too large to convert to float')
        return SFloat(float_term(v))
    if is_str(v):
        r = rope(v)
        b = R.reify(r)
        trust('float(text) is a function of the text')
        if b.decl().name() == 'ftext':
            return SFloat(b.arg(0))
        if not C().branch(f_floatok(b)):
            raise_(ValueError, 'could not convert string to float')
        return SFloat(f_floatval(b))
    if isinstance(v, Obj):
        m = it.lookup_cls(v.cls, '__float__') or it.lookup_cls(v.cls, '__index__')
        if m is not None:
            return make_float(it, [it.call(it.bind(m, v), [], {})])
        raise_(TypeError, 'float() argument must be a string or a real number')
    if isinstance(v, SReal):
        f = z3.Function('float_of_real', z3.RealSort(), FL)
        return SFloat(f(v.t))
    raise_(TypeError, 'float() argument must be a string or a real number')


def make_bytes(it, a, k):
    if not a:
        if 'source' in k:
            a = [k['source']]
        else:
            return ()
    v = a[0]
    if is_str(v):
        enc = a[1] if len(a) > 1 else k.get('encoding')
        if enc is None:
            raise_(TypeError, 'string argument without an encoding')
        return rope(encode(it, v, enc))
    if is_bytes(v):
        return rope(v)
    if is_int(v):
        n = iterm(v)
        if isinstance(n, int):
            if n < 0:
                raise_(ValueError, 'negative count')
            if n > 10 ** 6:
                raise Unsupported('huge byte string')
            return R.lit(bytes(n))
        if C().branch(n < 0):
            raise_(ValueError, 'negative count')
        return R.mk((R.Rep(0, n),))
    if isinstance(v, Obj):
        m = it.lookup_cls(v.cls, '__bytes__')
        if m is not None:
            return rope(it.call(it.bind(m, v), [], {}))
        if it.lookup_cls(v.cls, '__iter__') is None:
            raise_(TypeError, 'cannot convert object to bytes')
    if v is None or isinstance(v, (float, SFloat)):
        raise_(TypeError, 'cannot convert object to bytes')
    return bytes_of_seq(it, v)


# ------------------------------------------------------------------ functions

def range_(it, a, k):
    vals = []
    for x in a:
        if not is_int(x):
            raise_(TypeError, 'range() argument must be an int')
        vals.append(iterm(x))
    if len(vals) == 1:
        return RangeV(0, vals[0], 1)
    if len(vals) == 2:
        return RangeV(vals[0], vals[1], 1)
    if isinstance(vals[2], int) and vals[2] == 0:
        raise_(ValueError, 'range() arg 3 must not be zero')
    return RangeV(*vals)


def len_(it, a, k):
    v = a[0]
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if is_bytes(v) or is_str(v):
        return mkint(R.rlen(rope(v)))
    if isinstance(v, PyList):
        return mkint(v.length())
    if isinstance(v, PyDict):
        return len(v.d)
    if isinstance(v, PySet):
        return len(dedupe(it, v))
    if isinstance(v, RangeV):
        return mkint(seq_view(it, v).n)
    if isinstance(v, Obj):
        m = it.lookup_cls(v.cls, '__len__')
        if m is not None:
            return it.call(it.bind(m, v), [], {})
    if isinstance(v, (Opaque, Poison)):
        raise Unsupported('len of an unknown value')
    raise_(TypeError, 'object has no len()')


def isinstance_(it, a, k):
    v, c = a
    cs = []

    def flat(x):
        if isinstance(x, tuple):
            for y in x:
                flat(y)
        else:
            cs.append(x)
    flat(c)
    t = typeof(v)
    m = mro_of(t)
    return any(x in m for x in cs)


def issubclass_(it, a, k):
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(issub(a[0], c) for c in cs)


def hex_(it, a, k):
    t = iterm(a[0])
    return hex(t) if isinstance(t, int) else mkstr((R.Num(t, 'x'),))


def ord_(it, a, k):
    v = a[0]
    if not (is_bytes(v) or is_str(v)):
        raise_(TypeError, 'ord() expected string of length 1')
    r = rope(v)
    n = R.rlen(r)
    if isinstance(n, int):
        bad = n != 1
    else:
        bad = C().branch(n != 1)
    if bad:
        raise_(TypeError, 'ord() expected a character')
    return mkint(R.rat(r, 0))


def chr_(it, a, k):
    t = iterm(a[0])
    if isinstance(t, int):
        return native_call(chr, [t], {})
    if C().branch(Or(t < 0, t > 0x10ffff)):
        raise_(ValueError, 'chr() arg not in range(0x110000)')
    return mkstr((R.El(t),))


def abs_(it, a, k):
    v = a[0]
    m = user_op(it, v, '__abs__')
    if m is not None:
        return it.call(m, [], {})
    if isinstance(v, NATIVE):
        return native_call(abs, [v], {})
    if is_int(v):
        t = iterm(v)
        return mkint(t if isinstance(t, int) and t >= 0 else zabs(t))
    if isinstance(v, SReal):
        return SReal(z3.If(v.t >= 0, v.t, -v.t), v.cls)
    raise_(TypeError, 'bad operand type for abs()')


def minmax(which):
    def f(it, a, k):
        xs = to_list(it, a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            raise_(ValueError, 'arg is an empty sequence')
        key = k.get('key')
        best = xs[0]
        for x in xs[1:]:
            p, q = (it.call(key, [x], {}), it.call(key, [best], {})) if key is not None else (x, best)
            if key is None and is_int(p) and is_int(q) and not (isinstance(p, int) and isinstance(q, int)):
                s, t = zint(iterm(p)), zint(iterm(q))
                best = mkint(z3.If(s < t if which == 'min' else s > t, s, t))
                continue
            if it.truth(compare(it, 'Lt' if which == 'min' else 'Gt', p, q)):
                best = x
        return best
    return f


def sum_(it, a, k):
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in to_list(it, a[0]):
        r = it.binop('Add', r, x)
    return digit_sum(r)


def sorted_(it, a, k):
    xs = to_list(it, a[0])
    key = k.get('key')
    rev = it.truth(k.get('reverse', False))
    ks = [(it.call(key, [x], {}) if key is not None else x) for x in xs]
    out = []
    for x, kx in zip(xs, ks):
        i = len(out)
        while i > 0:
            c = compare(it, 'Lt', kx, out[i - 1][1]) if not rev else compare(it, 'Lt', out[i - 1][1], kx)
            if it.truth(c):
                i -= 1
            else:
                break
        out.insert(i, (x, kx))
    return PyList([x for x, _ in out])


def reversed_(it, a, k):
    v = a[0]
    if is_bytes(v):
        return IterV(mkbytes(R.rrev(rope(v))))
    sv = seq_view(it, v)
    if isinstance(sv.n, int):
        return IterV(PyList([sv.get(i) for i in range(sv.n - 1, -1, -1)]))
    return IterV(SeqView(sv.n, lambda i: sv.get(R.lsub(R.lsub(sv.n, 1), i)), sv.delta))


def enumerate_(it, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    sv = seq_view(it, a[0])
    if isinstance(sv.n, int):
        return IterV(PyList([(mkint(R.ladd(iterm(start), i)), sv.get(i)) for i in range(max(sv.n, 0))]))
    return IterV(SeqView(sv.n, lambda i: (mkint(R.ladd(iterm(start), i)), sv.get(i)), sv.delta))


def zip_(it, a, k):
    svs = [seq_view(it, x) for x in a]
    if all(isinstance(s.n, int) for s in svs):
        n = min([s.n for s in svs]) if svs else 0
        return IterV(PyList([tuple(s.get(i) for s in svs) for i in range(max(n, 0))]))
    n = svs[0].n
    for s in svs[1:]:
        if R.eq(s.n, n) or R.le(n, s.n):
            continue
        if R.le(s.n, n) or C().branch(zint(s.n) <= zint(n)):
            n = s.n
    if isinstance(n, int):
        return IterV(PyList([tuple(s.get(i) for s in svs) for i in range(max(n, 0))]))
    return IterV(SeqView(n, lambda i: tuple(s.get(i) for s in svs)))


def map_(it, a, k):
    svs = [seq_view(it, x) for x in a[1:]]
    if all(isinstance(s.n, int) for s in svs):
        n = min(s.n for s in svs)
        return IterV(PyList([it.call(a[0], [s.get(i) for s in svs], {}) for i in range(max(n, 0))]))
    from . import loops
    z = zip_(it, a[1:], {})
    sv = seq_view(it, z)
    return IterV(loops.map_seq(it, sv, lambda t: it.call(a[0], list(t), {})))


def filter_(it, a, k):
    out = []
    for x in to_list(it, a[1]):
        if it.truth(x if a[0] is None else it.call(a[0], [x], {})):
            out.append(x)
    return IterV(PyList(out))


def any_(it, a, k):
    sv = seq_view(it, a[0])
    if not isinstance(sv.n, int):
        f = R._forall(0, sv.n, lambda i: Not(it.truth_formula(sv.get(i))))
        return mkbool(Not(f))
    return mkbool(Or(*[it.truth_formula(sv.get(i)) for i in range(max(sv.n, 0))]))


def all_(it, a, k):
    sv = seq_view(it, a[0])
    if not isinstance(sv.n, int):
        return mkbool(R._forall(0, sv.n, lambda i: it.truth_formula(sv.get(i))))
    return mkbool(And(*[it.truth_formula(sv.get(i)) for i in range(max(sv.n, 0))]))


def divmod_(it, a, k):
    return (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1]))


def ringmod(a, p):
    if ALG.ring() and ALG.big(p):
        return ALG.mod(a, p)
    if ALG.ring() and is_term(p):
        if not C().valid(p > 0):
            raise Unsupported('remainder by a possibly negative unknown')
        return ALG.mod(a, p)
    return pymod(a, p)


def modinverse(x, y, z):
    """pow(x, y, z) for y < 0"""
    if not ALG.ring() or y != -1:
        raise Unsupported('power with a negative exponent')
    m = ringmod(x, z)
    if not C().branch(zint(ALG.gcd(m, z)) == 1):
        raise_(ValueError, 'base is not invertible for the given modulus')
    t = z3.Function('modinv', I, I, I)(zint(m), zint(z))
    C().fact(And(t >= 0, t < zint(z), zint(ringmod(ALG.mul(m, t), z)) == zint(ringmod(1, z))))
    return t


def pow_(it, a, k):
    if len(a) == 2 or (len(a) == 3 and a[2] is None):
        return it.binop('Pow', a[0], a[1])
    if all(isinstance(x, int) for x in a):
        return native_call(pow, a, {})
    m = user_op(it, a[0], '__pow__')
    if m is not None:
        return it.call(m, [a[1], a[2]], {})
    x, y, z = [iterm(v) for v in a]
    if isinstance(z, int) and z == 0 or (is_term(z) and C().branch(z == 0)):
        raise_(ValueError, 'pow() 3rd argument cannot be 0')
    ring = ALG.ring()
    if isinstance(y, int) and 0 <= y <= 8:
        r = 1
        for _ in range(y):
            r = ringmod(ALG.mul(r, x) if ring else simp(zint(r) * zint(x)), z)
        return mkint(ringmod(r, z))
    if (is_term(y) and C().branch(y < 0)) or (isinstance(y, int) and y < 0):
        return mkint(modinverse(x, y, z))
    if ring and (is_term(z) or ALG.big(z)) and C().valid(zint(z) > 0):
        x = ringmod(x, z)
    t = f_powm(zint(x), zint(y), zint(z))
    if C().valid(zint(z) > 0):
        C().fact(And(t >= 0, t < z, Implies(zint(y) == 0, Implies(zint(z) > 1, t == 1))))
    return mkint(t)


def getattr_f(it, a, k):
    if not isinstance(a[1], str):
        raise Unsupported('getattr with a symbolic name')
    if len(a) > 2:
        return it.getattr(a[0], a[1], a[2])
    return it.getattr(a[0], a[1])


def hasattr_f(it, a, k):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyExc as e:
        if issub(e.val.cls, AttributeError):
            return False
        raise


def next_(it, a, k):
    v = a[0]
    if isinstance(v, IterV):
        sv = seq_view(it, v.seq)
        if isinstance(sv.n, int):
            if v.pos >= sv.n:
                if len(a) > 1:
                    return a[1]
                raise_(StopIteration, '')
        elif C().branch(zint(sv.n) <= v.pos):
            if len(a) > 1:
                return a[1]
            raise_(StopIteration, '')
        x = sv.get(v.pos)
        v.pos += 1
        return x
    if isinstance(v, Obj):
        return it.call(it.getattr(v, '__next__'), [], {})
    raise Unsupported('next()')


def iter_(it, a, k):
    if isinstance(a[0], IterV):
        return a[0]
    if isinstance(a[0], Obj):
        return it.call(it.getattr(a[0], '__iter__'), [], {})
    return IterV(a[0])


def hash_(it, a, k):
    v = a[0]
    if isinstance(v, Obj):
        m = it.lookup_cls(v.cls, '__hash__')
        if m is not None:
            return it.call(it.bind(m, v), [], {})
        raise Unsupported('identity hash')
    if is_int(v):
        t = iterm(v)
        if isinstance(t, int):
            return hash(t)
        if C().valid(And(t >= 0, t < 2 ** 61 - 1)):
            return mkint(t)
        if not isinstance(v, SBool) and (typeof(v) is int or it.lookup_cls(typeof(v), '__hash__') is None
                                         or isinstance(typeof(v), UserClass) and typeof(v).lookup('__hash__') is None):
            return mkint(z3.Function('hash_int', I, I)(t))
    if is_bytes(v) or is_str(v):
        if isinstance(v, ByteArray):
            raise_(TypeError, 'unhashable type')
        f = z3.Function('hash_bs', BS, I)
        return mkint(f(R.reify(rope(v))))
    raise Unsupported('hash()')


def round_(it, a, k):
    if isinstance(a[0], SReal) and len(a) == 1:
        raise Unsupported('round of a rational')
    try:
        return native_call(round, a, k)
    except NotConcrete:
        if is_int(a[0]) and len(a) == 1:
            return a[0]
        raise Unsupported('round of a symbolic float')


def print_(it, a, k):
    parts = [str_of(it, x) for x in a]
    out = C().ghost.get('stdout')
    if out is not None:
        f = k.get('file')
        if f is not None and not (isinstance(f, Opaque) and f.why == 'stdout'):
            return None
        sep = ' ' if k.get('sep') is None else k['sep']
        end = '\n' if k.get('end') is None else k['end']
        t = ''
        for i, x in enumerate(parts):
            t = binop(it, 'Add', t, x if i == 0 else binop(it, 'Add', sep, x))
        C().ghost['stdout'] = out + [binop(it, 'Add', t, end)]
    return None


def bin_(it, a, k):
    try:
        return native_call(bin, a, k)
    except NotConcrete:
        raise Unsupported('bin of a symbolic integer')


def make_builtins(it):
    b = {}
    import builtins as PB
    for n in dir(PB):
        v = getattr(PB, n)
        if isinstance(v, type):
            b[n] = v
    fns = dict(len=len_, isinstance=isinstance_, issubclass=issubclass_, hex=hex_, ord=ord_, chr=chr_, abs=abs_, min=minmax('min'),
               max=minmax('max'), sum=sum_, sorted=sorted_, any=any_, all=all_, divmod=divmod_, pow=pow_, getattr=getattr_f,
               hasattr=hasattr_f, next=next_, iter=iter_, hash=hash_, round=round_, print=print_, bin=bin_,
               setattr=lambda it, a, k: it.setattr(*a), repr=lambda it, a, k: repr_(it, a[0]),
               callable=lambda it, a, k: isinstance(a[0], (UserFunc, NativeFn, BoundMethod, UserClass, type)),
               id=lambda it, a, k: Opaque('id'), format=lambda it, a, k: format_value(it, a[0], a[1] if len(a) > 1 else ''),
               )
    for n, f in fns.items():
        b[n] = NativeFn(n, f)
    for t in ('range', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'staticmethod', 'classmethod', 'property', 'super', 'type', 'object'):
        b[t] = getattr(PB, t)
    b['exit'] = b['quit'] = NativeFn('exit', lambda it, a, k: raise_(SystemExit, a[0] if a else None))
    b['NotImplemented'] = NotImplemented
    b['Ellipsis'] = Ellipsis
    b['__name__'] = '__main__'
    return b
