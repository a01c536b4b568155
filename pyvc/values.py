"""Values of the interpreted language."""
import z3
from .core import *
from . import ropes as R


class SInt:
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls=int):
        self.t, self.cls = t, cls


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class SFloat:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class SReal:
    """an exact rational (fractions.Fraction or decimal.Decimal without rounding)"""
    __slots__ = ('t', 'cls')

    def __init__(self, t, cls):
        self.t, self.cls = t, cls


class SBytes:
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope


class SStr:
    __slots__ = ('rope',)

    def __init__(self, rope):
        self.rope = rope


class ByteArray:
    __slots__ = ('_rope', 'frozen')

    def __init__(self, rope):
        self._rope = rope
        self.frozen = False

    @property
    def rope(self):
        return self._rope

    @rope.setter
    def rope(self, r):
        if self.frozen:
            raise Unsupported('change of an element of a described family')
        self._rope = r


def _no(*a, **k):
    raise Unsupported('change of an element of a described family')


class FrozenItems(list):
    append = extend = insert = pop = remove = sort = reverse = clear = __setitem__ = __delitem__ = __iadd__ = _no


class FrozenDict(dict):
    pop = clear = update = setdefault = __setitem__ = __delitem__ = _no


class SymSeg:
    """n elements of a list given by a function of the index"""

    def __init__(self, n, get, off=0, ident=None, delta=()):
        self.n, self.get, self.off, self.ident, self.delta = n, get, off, ident, delta

    def at(self, i):
        return self.get(R.ladd(self.off, i))


class PyList:
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)

    def concrete(self):
        return not any(isinstance(x, SymSeg) for x in self.items)

    def length(self):
        n = 0
        for x in self.items:
            n = R.ladd(n, x.n if isinstance(x, SymSeg) else 1)
        return n


class PyDict:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}


class AttrD(dict):
    """the attributes of an object as a dictionary: changes go to the object"""

    def __init__(self, attrs):
        dict.__init__(self)
        self.attrs = attrs
        for k, v in attrs.items():
            dict.__setitem__(self, k, (k, v))

    def __setitem__(self, k, kv):
        if not isinstance(k, str):
            raise Unsupported('attribute with an unknown name')
        dict.__setitem__(self, k, kv)
        self.attrs[k] = kv[1]

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        del self.attrs[k]

    def pop(self, k):
        self.attrs.pop(k)
        return dict.pop(self, k)

    def clear(self):
        dict.clear(self)
        self.attrs.clear()


class PySet:
    """elements, possibly repeated"""
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)


class Obj:
    __slots__ = ('cls', 'attrs', '__weakref__')

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return '<%s %s>' % (getattr(self.cls, 'name', getattr(self.cls, '__name__', '?')), list(self.attrs))


class UserClass:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.qualname = name
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, UserClass) else list(b.__mro__) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Unsupported('inconsistent class hierarchy')
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    s.pop(0)
        if object not in out:
            out.append(object)
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, UserClass) and name in c.ns:
                return c.ns[name]
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class UserFunc:
    def __init__(self, node, module, name, defaults, kwdefaults, closure, cls=None):
        self.node, self.module, self.name = node, module, name
        self.defaults, self.kwdefaults, self.closure, self.cls = defaults, kwdefaults, closure, cls
        self.qualname = name
        self.isgen = None
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qualname


class BoundMethod:
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class NativeFn:
    __slots__ = ('name', 'fn', 'pyobj')

    def __init__(self, name, fn, pyobj=None):
        self.name, self.fn, self.pyobj = name, fn, pyobj

    def __repr__(self):
        return '<native %s>' % self.name


class ModuleV:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class SuperProxy:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class StaticM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class PropertyV:
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class RangeV:
    __slots__ = ('start', 'stop', 'step')

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class SeqView:
    """a finite sequence of n elements (n may be symbolic)"""

    def __init__(self, n, get, delta=()):
        self.n, self.get, self.delta = n, get, delta


class IterV:
    __slots__ = ('seq', 'pos')

    def __init__(self, seq):
        self.seq, self.pos = seq, 0


class Stream:
    """io.BytesIO"""
    __slots__ = ('rope', 'pos', 'closed')

    def __init__(self, rope, pos=0):
        self.rope, self.pos, self.closed = rope, pos, False


class HashObj:
    __slots__ = ('alg', 'rope')

    def __init__(self, alg, rope):
        self.alg, self.rope = alg, rope


class Opaque:
    """a value of which nothing is known"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class Poison:
    """a value the verifier could not describe; using it is an error of the verifier"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class PyExc(Exception):
    """an exception of the interpreted program"""

    def __init__(self, val):
        Exception.__init__(self, val)
        self.val = val


def raise_(cls, msg=''):
    raise PyExc(Obj(cls, {'args': (msg,)}))


def mkint(t, cls=int):
    if cls is int or cls is bool:
        t = simp(t)
        if isinstance(t, (int, bool)):
            return t
        if z3.is_bool(t):
            return SBool(t)
        return SInt(t)
    t = simp(t)
    return SInt(zint(t), cls)


def mkbool(f):
    f = simp(f)
    return f if isinstance(f, bool) else SBool(f)


def mkbytes(rope):
    e = R.concrete(rope)
    if e is not None:
        return bytes(e)
    return SBytes(rope)


def mkstr(rope):
    e = R.concrete(rope)
    if e is not None:
        return ''.join(map(chr, e))
    return SStr(rope)


def is_int(v):
    return isinstance(v, (int, SInt, SBool))


def iterm(v):
    """the integer term of an int value"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, SInt):
        t = v.t
        return t.as_long() if z3.is_int_value(t) else t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an int: %r' % (v,))


def is_bytes(v):
    return isinstance(v, (bytes, SBytes, ByteArray))


def is_str(v):
    return isinstance(v, (str, SStr))


def rope(v):
    if isinstance(v, bytes):
        return R.lit(v)
    if isinstance(v, str):
        return R.lit(v)
    if isinstance(v, (SBytes, SStr, ByteArray)):
        return v.rope
    raise Unsupported('not a byte string: %r' % (v,))


def typeof(v):
    if isinstance(v, SInt):
        return v.cls
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SFloat):
        return float
    if isinstance(v, SReal):
        return v.cls
    if isinstance(v, SBytes):
        return bytes
    if isinstance(v, SStr):
        return str
    if isinstance(v, ByteArray):
        return bytearray
    if isinstance(v, PyList):
        return list
    if isinstance(v, PyDict):
        return dict
    if isinstance(v, PySet):
        return set
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, RangeV):
        return range
    if isinstance(v, (UserClass, type)):
        return type
    if isinstance(v, Stream):
        import io
        return io.BytesIO
    if isinstance(v, (UserFunc, NativeFn, BoundMethod)):
        return type(lambda: 0)
    if isinstance(v, Opaque):
        raise Unsupported('type of an unknown value (%s)' % v.why)
    if isinstance(v, Poison):
        raise Unsupported('use of an undescribed value (%s)' % v.why)
    return type(v)


def mro_of(cls):
    return cls.mro if isinstance(cls, UserClass) else list(cls.__mro__)


def issub(cls, sup):
    return sup in mro_of(cls)


def clsname(c):
    return c.name if isinstance(c, UserClass) else c.__name__


# ------------------------------------------------------------- clone / substitute

def clone(v, memo):
    if v is None or isinstance(v, (bool, int, float, str, bytes, SInt, SBool, SFloat, SReal, SBytes, SStr, UserFunc, NativeFn,
                                   ModuleV, type, StaticM, ClassM, PropertyV, Opaque, Poison, RangeV, SymSeg, complex, SeqView)):
        return v
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, tuple):
        r = tuple(clone(x, memo) for x in v)
        memo[k] = (r, v)
        return r
    if isinstance(v, UserClass):
        # class attributes may be assigned (Crypto._Instance); classes keep their identity
        memo[k] = (v, v)
        return v
    if isinstance(v, ByteArray):
        r = ByteArray(v.rope)
        memo[k] = (r, v)
        return r
    if isinstance(v, Stream):
        r = Stream(v.rope, v.pos)
        r.closed = v.closed
        memo[k] = (r, v)
        return r
    if isinstance(v, HashObj):
        r = HashObj(v.alg, v.rope)
        memo[k] = (r, v)
        return r
    if isinstance(v, PyList):
        r = PyList()
        memo[k] = (r, v)
        r.items = [clone(x, memo) for x in v.items]
        return r
    if isinstance(v, PySet):
        r = PySet()
        memo[k] = (r, v)
        r.items = [clone(x, memo) for x in v.items]
        return r
    if isinstance(v, PyDict):
        r = PyDict()
        memo[k] = (r, v)
        r.d = {kk: (clone(a, memo), clone(b, memo)) for kk, (a, b) in v.d.items()}
        return r
    if isinstance(v, Obj):
        if not isinstance(v.attrs, dict):
            raise Unsupported('a copy of an element of a family')
        r = Obj(v.cls)
        memo[k] = (r, v)
        r.attrs = {n: clone(x, memo) for n, x in v.attrs.items()}
        return r
    if isinstance(v, BoundMethod):
        r = BoundMethod(v.func, clone(v.self_, memo))
        memo[k] = (r, v)
        return r
    if isinstance(v, SuperProxy):
        return SuperProxy(v.cls, clone(v.obj, memo))
    if isinstance(v, IterV):
        r = IterV(clone(v.seq, memo))
        r.pos = v.pos
        memo[k] = (r, v)
        return r
    if isinstance(v, (range, slice, frozenset)) or callable(v):
        return v
    return v


def vsubst(v, m, memo=None):
    """substitute a loop index in a value"""
    if memo is None:
        memo = {}
    if isinstance(v, SInt):
        return mkint(R.zsub(v.t, m), v.cls)
    if isinstance(v, SBool):
        return mkbool(R.zsub(v.t, m))
    if isinstance(v, SFloat):
        return SFloat(R.zsub(v.t, m))
    if isinstance(v, SReal):
        return SReal(R.zsub(v.t, m), v.cls)
    if isinstance(v, SBytes):
        return mkbytes(R.rsubst(v.rope, m))
    if isinstance(v, SStr):
        return mkstr(R.rsubst(v.rope, m))
    k = id(v)
    if k in memo:
        return memo[k]
    if isinstance(v, ByteArray):
        memo[k] = r = ByteArray(R.rsubst(v.rope, m))
        return r
    if isinstance(v, tuple):
        return tuple(vsubst(x, m, memo) for x in v)
    if isinstance(v, PyList):
        memo[k] = r = PyList()
        for x in v.items:
            if isinstance(x, SymSeg):
                r.items.append(SymSeg(R.subst_t(x.n, m), (lambda g: lambda i: vsubst(g(i), m))(x.get), x.off))
            else:
                r.items.append(vsubst(x, m, memo))
        return r
    if isinstance(v, Obj):
        if not isinstance(v.attrs, dict):
            a = v.attrs
            if m[0].get_id() in a.fam.lv:
                raise Unsupported('a family in a family')
            return a.fam.obj(R.subst_t(a.idx, m))
        memo[k] = r = Obj(v.cls)
        r.attrs = {n: vsubst(x, m, memo) for n, x in v.attrs.items()}
        return r
    if isinstance(v, (PyDict, PySet, Stream, HashObj, IterV, BoundMethod)):
        raise Unsupported('a %s in a described family' % type(v).__name__)
    return v
