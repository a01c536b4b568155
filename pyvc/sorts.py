"""Sorts: the sets of values which contracts range over."""
import io
import z3
from .core import *
from . import ropes as R
from .values import *


def named(name, mk):
    c = C()
    if name not in c.named:
        c.named[name] = mk()
    return c.named[name]


class Sort:
    def make(self, it, name):
        raise NotImplementedError

    def match(self, it, v):
        """True when v is known to be a value of this sort"""
        raise NotImplementedError


def in_range(t, lo, hi):
    fs = []
    if lo is not None:
        fs.append(zint(t) >= zint(lo))
    if hi is not None:
        fs.append(zint(t) <= zint(hi))
    return And(*fs)


class Int(Sort):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def make(self, it, name):
        def f():
            t = z3.Int(name)
            C().assume(in_range(t, self.lo, self.hi))
            C().inputs.append((name, 'int', t))
            return t
        return mkint(named(name, f))

    def match(self, it, v):
        if isinstance(v, bool) or isinstance(v, SBool) or not isinstance(v, (int, SInt)) or typeof(v) is not int:
            return False
        f = simp(in_range(iterm(v), self.lo, self.hi))
        return f if isinstance(f, bool) else C().valid(f)


class Bool(Sort):
    def make(self, it, name):
        def f():
            t = z3.Bool(name)
            C().inputs.append((name, 'bool', t))
            return t
        return mkbool(named(name, f))

    def match(self, it, v):
        return isinstance(v, (bool, SBool))


class Bytes(Sort):
    prefix = 'by:'
    kind = 'bytes'

    def __init__(self, n=None, lo=0, hi=None):
        self.n, self.lo, self.hi = n, lo, hi

    def atom(self, name):
        def f():
            a = z3.Const(self.prefix + name, BS)
            if self.n is None:
                C().assume(And(R.blen(a) >= self.lo, in_range(R.blen(a), None, self.hi if self.hi is not None else (1 << 63) - 1)))
            else:
                C().assume(R.blen(a) == zint(self.n))
            C().inputs.append((name, self.kind, a))
            return a
        return named(name, f)

    def rope(self, name):
        a = self.atom(name)
        return R.mk((R.Sub(a, 0, self.n if self.n is not None else R.blen(a)),))

    def make(self, it, name):
        return mkbytes(self.rope(name))

    def lenok(self, r):
        n = R.rlen(r)
        if self.n is not None:
            return R.eq(n, self.n)
        return R.le(self.lo, n) and (self.hi is None or R.le(n, self.hi))

    def match(self, it, v):
        return isinstance(v, (bytes, SBytes)) and self.lenok(rope(v))


class Bytearray(Bytes):
    def make(self, it, name):
        return ByteArray(self.rope(name))

    def match(self, it, v):
        return isinstance(v, ByteArray) and self.lenok(v.rope)


class Text(Bytes):
    prefix = 'txt:'
    kind = 'text'

    def make(self, it, name):
        return mkstr(self.rope(name))

    def match(self, it, v):
        return isinstance(v, (str, SStr)) and self.lenok(rope(v))


class Float(Sort):
    def make(self, it, name):
        def f():
            t = z3.Const('fl:' + name, FL)
            C().inputs.append((name, 'float', t))
            return t
        return SFloat(named(name, f))

    def match(self, it, v):
        return isinstance(v, (float, SFloat))


class Const(Sort):
    def __init__(self, v):
        self.v = v

    def make(self, it, name):
        return self.v

    def match(self, it, v):
        if v is self.v:
            return True
        return type(v) is type(self.v) and isinstance(v, (int, str, bytes, float, bool)) and v == self.v


class Cls(Sort):
    def __init__(self, qual):
        self.qual = qual

    def make(self, it, name):
        return it.get_qual(self.qual)

    def match(self, it, v):
        return v is it.get_qual(self.qual)


class Inst(Sort):
    """an instance of a class with the given attributes and no others"""

    def __init__(self, qual, attrs):
        self.qual, self.attrs = qual, attrs

    def make(self, it, name):
        o = Obj(it.get_qual(self.qual))
        for n, s in self.attrs.items():
            o.attrs[n] = s.make(it, name + '.' + n)
        return o

    def match(self, it, v):
        if not isinstance(v, Obj) or v.cls is not it.get_qual(self.qual) or set(v.attrs) != set(self.attrs):
            return False
        return all(s.match(it, v.attrs[n]) for n, s in self.attrs.items())


class OutStream(Sort):
    """a BytesIO positioned at the end of arbitrary contents"""

    def make(self, it, name):
        r = Bytes().rope(name)
        return Stream(r, R.rlen(r))

    def match(self, it, v):
        return isinstance(v, Stream) and not v.closed and R.eq(v.pos, R.rlen(v.rope))


class InStream(Sort):
    """a BytesIO with arbitrary contents at an arbitrary position inside"""

    def make(self, it, name):
        a = Bytes().rope(name)
        p = Int(0).make(it, name + '.pos')
        C().assume(zint(iterm(p)) <= zint(R.rlen(a)))
        return Stream(a, iterm(p))

    def match(self, it, v):
        return isinstance(v, Stream) and not v.closed and R.le(v.pos, R.rlen(v.rope))


class SubInt(Sort):
    """an int of a subclass of int"""

    def __init__(self, qual, lo=None, hi=None):
        self.qual, self.lo, self.hi = qual, lo, hi

    def make(self, it, name):
        v = Int(self.lo, self.hi).make(it, name)
        return mkint(iterm(v), it.get_qual(self.qual))

    def match(self, it, v):
        if not isinstance(v, SInt) or v.cls is not it.get_qual(self.qual):
            return False
        f = simp(in_range(v.t, self.lo, self.hi))
        return f if isinstance(f, bool) else C().valid(f)


class OneOf(Sort):
    def __init__(self, *sorts):
        self.sorts = sorts

    def make(self, it, name):
        c = C()
        key = name + '?alt'
        if key not in c.named:
            k = c.choose(len(self.sorts))
            c.named[key] = k
            c.inputs.append((key, 'choice', k))
        return self.sorts[c.named[key]].make(it, name)

    def match(self, it, v):
        return any(s.match(it, v) for s in self.sorts)


class Tuple(Sort):
    def __init__(self, *sorts):
        self.sorts = sorts

    def make(self, it, name):
        return tuple(s.make(it, '%s.%d' % (name, i)) for i, s in enumerate(self.sorts))

    def match(self, it, v):
        return isinstance(v, tuple) and len(v) == len(self.sorts) and all(s.match(it, x) for s, x in zip(self.sorts, v))


class ListOf(Sort):
    """a list of any length (or of length n) of ints or byte strings"""

    def __init__(self, elem, n=None):
        self.elem, self.n = elem, n

    def make(self, it, name):
        c = C()
        if isinstance(self.n, int) and self.n <= 48:
            return PyList([self.elem.make(it, '%s[%d]' % (name, i)) for i in range(self.n)])

        def f():
            if self.n is None:
                n = z3.Int('len:' + name)
                c.assume(And(n >= 0, n <= 1 << 60))
            else:
                n = self.n
            pre = 'txt:' if isinstance(self.elem, Text) else 'by:'
            g = z3.Function('el:' + pre + name if isinstance(self.elem, Int) else pre + 'el:' + name, I,
                            I if isinstance(self.elem, Int) else BS)
            c.inputs.append((name, 'list', (n, g, 'int' if isinstance(self.elem, Int) else self.elem.kind)))
            return n, g
        n, g = named(name, f)
        e = self.elem

        def get(i):
            i = iterm(i) if not is_term(i) else i
            t = g(zint(i))
            if isinstance(e, Int):
                C().fact(in_range(t, e.lo, e.hi))
                return mkint(t)
            if e.n is None:
                C().fact(And(R.blen(t) >= e.lo, in_range(R.blen(t), None, e.hi)))
            else:
                C().fact(R.blen(t) == zint(e.n))
            r = R.mk((R.Sub(t, 0, e.n if e.n is not None else R.blen(t)),))
            return mkstr(r) if isinstance(e, Text) else (ByteArray(r) if isinstance(e, Bytearray) else mkbytes(r))
        if isinstance(e, Bytearray):
            raise Unsupported('list of bytearrays')
        seg = SymSeg(n, get)
        seg.keep = (g.name(), n)
        return PyList([seg])

    def match(self, it, v):
        if not isinstance(v, PyList):
            return False
        for x in v.items:
            if isinstance(x, SymSeg):
                return False
            if not self.elem.match(it, x):
                return False
        return self.n is None or R.eq(v.length(), self.n)


class Any(Sort):
    def make(self, it, name):
        return Opaque('any value of %s' % name)

    def match(self, it, v):
        return True


TABLE = {c.__name__: c for c in (Int, Bool, Bytes, Bytearray, Text, Float, Const, Cls, Inst, OutStream, InStream, SubInt, OneOf, Tuple,
                                 ListOf, Any)}
