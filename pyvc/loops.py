"""Loops of unknown length: infer an inductive description of the state, verify it, use it.

The state before iteration k is described by a function S(k).  The function is guessed
from one symbolic iteration and then *verified*: started in S(k), every path through the
body either leaves the loop or ends in S(k+1).  Nothing is assumed from the guess alone.
"""
import z3
from .core import *
from . import ropes as R
from .values import *
from . import values as V
from . import fam as FAM
from .fam import is_fam

UNROLL_BOUND = 3
DEBUG = False
BIG = 48            # concrete trip counts above this are summarised when possible


class NoSummary(Exception):
    pass


UNSET = object()


# ------------------------------------------------------------------ program state

class State:
    """every variable and mutable object which the loop could change"""

    def __init__(self, it, extra=()):
        self.it = it
        self.dicts = []         # (label, dict)
        self.objs = []
        self.keep = []
        seen = set()
        todo = []
        for fr in it.frames:
            f = fr
            while f is not None:
                if id(f.vars) not in seen:
                    seen.add(id(f.vars))
                    self.dicts.append(f.vars)
                    todo.extend(f.vars.values())
                if f.yields is not None:
                    raise NoSummary('generator')
                f = f.outer
        for m in it.modules.values():
            if isinstance(m, ModuleV) and m.name.startswith(('neocore', 'specs')) and id(m.ns) not in seen:
                seen.add(id(m.ns))
                self.dicts.append(m.ns)
                todo.extend(m.ns.values())
        todo.extend(extra)
        while todo:
            v = todo.pop()
            if isinstance(v, tuple):
                todo.extend(v)
                continue
            if isinstance(v, BoundMethod):
                todo.append(v.self_)
                continue
            if isinstance(v, (StaticM, ClassM)):
                todo.append(v.f)
                continue
            if isinstance(v, PropertyV):
                todo.extend(x for x in (v.fget, v.fset) if x is not None)
                continue
            if isinstance(v, UserClass):
                if id(v) not in seen:
                    seen.add(id(v))
                    self.dicts.append(v.ns)
                    todo.extend(v.ns.values())
                    todo.extend(v.bases)
                continue
            if isinstance(v, UserFunc):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                todo.extend(v.defaults)
                todo.extend(v.kwdefaults.values())
                self.dicts.append(v.attrs)
                todo.extend(v.attrs.values())
                f = v.closure
                while f is not None:
                    if id(f.vars) not in seen:
                        seen.add(id(f.vars))
                        self.dicts.append(f.vars)
                        todo.extend(f.vars.values())
                    f = f.outer
                continue
            if not isinstance(v, (ByteArray, Stream, HashObj, PyList, PySet, PyDict, Obj, IterV)) or id(v) in seen:
                continue
            seen.add(id(v))
            if is_fam(v):
                continue
            self.objs.append(v)
            if isinstance(v, (PyList, PySet)):
                todo.extend(x for x in v.items if not isinstance(x, SymSeg))
            elif isinstance(v, PyDict):
                for a, b in v.d.values():
                    todo.append(b)
            elif isinstance(v, Obj):
                todo.extend(v.attrs.values())
            elif isinstance(v, IterV):
                todo.append(v.seq)
        self.fams = list(C().fams)
        for f in self.fams:
            # what an assignment or an element refers to can be reached, too
            for e in f.log:
                pass
        self.pre_ids = {id(o): o for o in self.objs}

    def capture(self):
        c = {}
        for i, d in enumerate(self.dicts):
            for n, v in d.items():
                c[('v', i, n)] = v
        for i, o in enumerate(self.objs):
            if isinstance(o, (ByteArray, HashObj)):
                c[('rope', i)] = o.rope
            elif isinstance(o, Stream):
                c[('rope', i)] = o.rope
                c[('pos', i)] = o.pos
                c[('closed', i)] = o.closed
            elif isinstance(o, (PyList, PySet)):
                c[('items', i)] = tuple(o.items)
            elif isinstance(o, PyDict):
                for k, kv in o.d.items():
                    c[('d', i, k)] = kv
            elif isinstance(o, Obj):
                for n, v in o.attrs.items():
                    c[('a', i, n)] = v
            elif isinstance(o, IterV):
                c[('pos', i)] = o.pos
        for i, f in enumerate(self.fams):
            c[('fam', i)] = f.log
        g = C().ghost
        for n, v in g.items():
            c[('g', n)] = list(v) if isinstance(v, list) else (dict(v) if isinstance(v, dict) else v)
        return c

    def restore(self, c):
        nd = [{} for _ in self.dicts]
        na = {}
        ng = {}
        for k, v in c.items():
            t = k[0]
            if t == 'v':
                nd[k[1]][k[2]] = v
            elif t == 'a':
                na.setdefault(k[1], {})[k[2]] = v
            elif t == 'd':
                na.setdefault(k[1], {})[k[2]] = v
            elif t == 'rope':
                if self.objs[k[1]].rope is not v:
                    self.objs[k[1]].rope = v
            elif t == 'pos':
                self.objs[k[1]].pos = v
            elif t == 'closed':
                self.objs[k[1]].closed = v
            elif t == 'fam':
                self.fams[k[1]].log = v
            elif t == 'items':
                if not same_items(self.objs[k[1]].items, v):
                    self.objs[k[1]].items[:] = list(v)
            elif t == 'g':
                ng[k[1]] = list(v) if isinstance(v, list) else (dict(v) if isinstance(v, dict) else v)
        for d, n in zip(self.dicts, nd):
            if not same_dict(d, n):
                d.clear()
                d.update(n)
        for i, o in enumerate(self.objs):
            if isinstance(o, Obj):
                if not same_dict(o.attrs, na.get(i, {})):
                    o.attrs.clear()
                    o.attrs.update(na.get(i, {}))
            elif isinstance(o, PyDict):
                if not same_dict(o.d, na.get(i, {})):
                    o.d.clear()
                    o.d.update(na.get(i, {}))
        g = C().ghost
        g.clear()
        g.update(ng)

    def name(self, key):
        t = key[0]
        if t == 'v':
            return 'variable %s' % key[2]
        if t in ('a', 'd'):
            return 'attribute %s' % (key[2],)
        if t == 'g':
            return 'ghost state %s' % key[1]
        if t == 'fam':
            return 'objects of class %s' % clsname(self.fams[key[1]].cls)
        return '%s of a %s' % (t, type(self.objs[key[1]]).__name__)


def same_items(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def same_dict(d, n):
    return len(d) == len(n) and all(x in n and n[x] is d[x] for x in d)


def same_value(a, b):
    """syntactically the same value"""
    if a is b:
        return True
    if a is UNSET or b is UNSET:
        return False
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    if isinstance(a, (int, float, str, bytes)) and type(a) is type(b):
        return a == b
    if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
        if typeof(a) is not typeof(b):
            return False
        d = R.lsub(iterm(a), iterm(b))
        return isinstance(d, int) and d == 0
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.t.get_id() == b.t.get_id()
    if isinstance(a, (SFloat, SReal)) and type(a) is type(b):
        return a.t.get_id() == b.t.get_id()
    if isinstance(a, (SBytes, SStr)) and type(a) is type(b):
        return R.rkey(a.rope) == R.rkey(b.rope)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a and all(isinstance(x, R.Chunk) for x in a) and all(isinstance(x, R.Chunk) for x in b):
            return R.rkey(a) == R.rkey(b)
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(x in b and same_value(a[x], b[x]) for x in a)
    if is_term(a) and is_term(b):
        return a.get_id() == b.get_id()
    if is_term(a) or is_term(b):
        if isinstance(a, (int,)) or isinstance(b, int):
            d = R.lsub(a, b) if not (z3.is_expr(a) and not z3.is_int(a)) and not (z3.is_expr(b) and not z3.is_int(b)) else None
            return isinstance(d, int) and d == 0
        return False
    if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
        return a.func is b.func and a.self_ is b.self_
    if is_fam(a) and is_fam(b):
        return a.attrs.fam is b.attrs.fam and same_value(a.attrs.idx, b.attrs.idx)
    return False


# ------------------------------------------------------------------ templates

def freeze(v, pre, seen=None):
    """objects of a described family must not be changed in place"""
    if seen is None:
        seen = set()
    if id(v) in seen or id(v) in pre or is_fam(v):
        return v
    if isinstance(v, tuple):
        for x in v:
            freeze(x, pre, seen)
        return v
    if isinstance(v, (PyList,)):
        seen.add(id(v))
        v.items = FrozenItems(v.items)
        for x in v.items:
            freeze(x, pre, seen)
    elif isinstance(v, Obj):
        seen.add(id(v))
        for x in v.attrs.values():
            freeze(x, pre, seen)
        v.attrs = FrozenDict(v.attrs)
    elif isinstance(v, ByteArray):
        v.frozen = True
    elif isinstance(v, (PyDict, PySet, Stream, HashObj, IterV)):
        raise NoSummary('a %s in a family' % type(v).__name__)
    return v


def depends(v, k, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, (SInt, SBool, SFloat, SReal)):
        return R.occurs(v.t, k)
    if isinstance(v, (SBytes, SStr, ByteArray)):
        return R.rope_has(v.rope, k)
    if isinstance(v, tuple):
        return any(depends(x, k, seen) for x in v)
    if id(v) in seen:
        return False
    if is_fam(v):
        return k.get_id() in v.attrs.fam.lv or is_term(v.attrs.idx) and R.occurs(v.attrs.idx, k)
    seen.add(id(v))
    if isinstance(v, PyList):
        return any(True if isinstance(x, SymSeg) else depends(x, k, seen) for x in v.items)
    if isinstance(v, Obj):
        return any(depends(x, k, seen) for x in v.attrs.values())
    return False


def has_mutable(v, pre, seen=None):
    if isinstance(v, tuple):
        return any(has_mutable(x, pre) for x in v)
    if is_fam(v):
        return False
    return isinstance(v, (PyList, Obj, ByteArray, PyDict, PySet, Stream, HashObj, IterV)) and id(v) not in pre


def family(v, k, pre, also=None):
    """i -> the value v at index i in place of k (also: i -> {id: what stands for that object})"""
    if not depends(v, k) and not has_mutable(v, pre):
        return lambda i: v

    def get(i):
        if isinstance(i, (SInt, SBool)):
            i = iterm(i)
        memo = dict(pre)
        if also is not None:
            memo.update(also(i))
        return freeze(vsubst(v, (k, zint(i)), memo), pre)
    get(k)
    return get


# ------------------------------------------------------------------ summaries of one location

class Sum:
    """description of one location: at(k) is its value before iteration k"""
    kind = '?'


class Const(Sum):
    def __init__(self, v):
        self.v = v

    def at(self, k):
        return self.v


class Linear(Sum):
    kind = 'int'

    def __init__(self, v0, c, raw):
        self.v0, self.c, self.raw = v0, c, raw

    def at(self, k):
        t = R.ladd(self.v0, R.lmul(self.c, k))
        return t if self.raw else mkint(t)


class Rec(Sum):
    """an integer sequence defined by its recursion"""
    kind = 'int'

    def __init__(self, v0, raw, name, k0):
        self.raw, self.v0 = raw, v0
        ctx = C()
        n = ctx.counters.get('rec', 0)
        ctx.counters['rec'] = n + 1
        lv = [v for v in ctx.loopvars if v.get_id() != k0.get_id()]
        f = z3.Function('rec_%s!%d' % (name, n), *([I] * (len(lv) + 1) + [I]))
        self.f = lambda i: f(*(lv + [zint(i)]))
        self.div = None

    def at(self, k):
        if isinstance(k, int) and k == 0:
            t = self.v0
        else:
            t = self.f(k)
            C().fact(self.f(0) == zint(self.v0))
            if self.div:
                C().fact(Implies(And(zint(self.v0) >= 0, zint(k) >= 0), And(t >= 0, t <= zint(self.v0))))
        return t if self.raw else mkint(t)


class Grow(Sum):
    """a rope which grows at its end (or its start)"""
    kind = 'rope'

    def __init__(self, pre, k0, piece, wrap, front=False):
        self.pre, self.k0, self.piece, self.wrap, self.front = pre, k0, piece, wrap, front
        self.delta = ()

    def at(self, k):
        if isinstance(k, int) and k == 0:
            r = self.pre
        elif self.front:
            v = C().fresh_index('fv')
            i = R.lsub(R.lsub(k, 1), v)
            r = R.rcat(R.mk((R.Fold(0, k, v, R.rsubst(self.piece, (self.k0, zint(i))),
                                    tuple(zsub1(d, self.k0, i) for d in self.delta)),)), self.pre)
        else:
            if isinstance(R.rlen(self.piece), int) and R.rlen(self.piece) == 0:
                r = self.pre
            else:
                r = R.rcat(self.pre, R.mk((R.Fold(0, k, self.k0, self.piece, self.delta),)))
        return self.wrap(r)


def zsub1(d, k0, i):
    return z3.substitute(zbool(d), (k0, zint(i)))


class GrowList(Sum):
    kind = 'items'

    def __init__(self, pre, k0, new, state, front=False):
        self.pre, self.k0, self.new, self.front = pre, k0, new, front
        self.fams = [family(v, k0, state.pre_ids) for v in new]
        self.delta = ()
        self.N = None
        self.digits = None

    def at(self, k):
        if isinstance(k, int) and k == 0:
            return self.pre
        if not self.new:
            return self.pre
        if isinstance(k, int) and k <= 64 and not self.delta:
            out = []
            for j in range(k):
                out += [f(j) for f in self.fams]
            return (tuple(out[::-1]) + self.pre) if self.front else self.pre + tuple(out)
        m = len(self.new)
        fams, delta, k0 = self.fams, self.delta, self.k0

        def get(i, hi=k):
            if isinstance(i, (SInt, SBool)):
                i = iterm(i)
            q, r = (i, 0) if m == 1 else (lsimp(zint(i) / m) if is_term(i) else i // m, None)
            j = q
            if self.front:
                j = R.lsub(R.lsub(hi, 1), q)
            for d in delta:
                C().fact(Implies(And(zint(j) >= 0, zint(j) < zint(hi)), zsub1(d, k0, j)))
            if m == 1:
                return fams[0](j)
            rr = lsimp(zint(i) % m) if is_term(i) else i % m
            if not isinstance(rr, int):
                rr = next((x for x in range(m) if C().valid(zint(rr) == x)), None)
                if rr is None:
                    raise Unsupported('element of an interleaved list')
            return fams[(m - 1 - rr) if self.front else rr](j)
        ident = ('grow', id(self), tk(k))
        seg = SymSeg(R.lmul(m, k), get, 0, None)
        seg.keep = (self, k)
        return ((seg,) + self.pre) if self.front else self.pre + (seg,)


class Shrink(Sum):
    """a rope which loses a fixed number of elements at its end (or its start)"""
    kind = 'rope'

    def __init__(self, pre, c, wrap, front):
        self.pre, self.c, self.wrap, self.front = pre, c, wrap, front

    def at(self, k):
        d = R.lmul(self.c, k)
        n = R.lsub(R.rlen(self.pre), d)
        if not R.le(0, n):
            C().assume(zint(n) >= 0)
        return self.wrap(R.rslice(self.pre, d if self.front else 0, n))


class EndPos(Sum):
    """a stream position which stays at the end of the data"""

    def __init__(self, ropesum):
        self.ropesum = ropesum

    def at(self, k):
        return R.rlen(self.ropesum.at(k))


class FoldPos(Sum):
    """a stream position which moves over the bodies of a repetition"""

    def __init__(self, start, fold):
        self.start, self.fold = start, fold

    def at(self, k):
        return R.ladd(self.start, self.fold.off(R.ladd(self.fold.lo, k)))


class FamVar(Sum):
    """a reference which moves over the elements of a family"""

    def __init__(self, fam, i0, d):
        self.fam, self.i0, self.d = fam, i0, d

    def at(self, k):
        return self.fam.obj(R.ladd(self.i0, R.lmul(self.d, k)))


class FamLog(Sum):
    """assignments to the elements of a family"""

    def __init__(self, pre, k0, paths):
        self.pre, self.k0, self.paths = pre, k0, paths
        self.ats = {}

    def at(self, k):
        if isinstance(k, int) and k == 0 or not any(ws for _, ws in self.paths):
            return self.pre
        r = self.ats.get(tk(k))
        if r is None:
            r = self.ats[tk(k)] = (self.pre + (FAM.Range(self.k0, k, self.paths),), k)
        return r[0]


class Temp(Sum):
    """a value which no iteration takes over from the one before"""

    def __init__(self, name):
        self.name = name
        self.last = None

    def at(self, k):
        return Poison('%s is not described at the start of an iteration' % self.name)


def int_like(v):
    return isinstance(v, (int, SInt)) and not isinstance(v, bool) and (isinstance(v, int) or v.cls is int)


def describe(state, key, b, a, k0, level, cap, post):
    """a Sum for the location which changes from b to a in iteration k0 (started in the initial state)"""
    t = key[0]
    nm = state.name(key)
    if t in ('v', 'a') and (b is UNSET or a is UNSET):
        return Temp(nm)
    if t == 'g':
        raise NoSummary('%s changes' % nm)
    if t == 'closed' or t == 'd':
        raise NoSummary('%s changes' % nm)
    if t == 'pos':
        o = state.objs[key[1]]
        if isinstance(o, Stream):
            if level == 0:
                rb, ra = cap[('rope', key[1])], post[('rope', key[1])]
                if R.rkey(rb) != R.rkey(ra) and R.eq(b, R.rlen(rb)) and R.eq(a, R.rlen(ra)):
                    return ('endpos',)
                p = 0
                for ch in rb:
                    if isinstance(ch, R.Fold) and R.eq(p, b):
                        return FoldPos(b, ch)
                    p = R.ladd(p, ch.n)
            if level <= 1:
                d = R.lsub(a, b)
                if isinstance(d, int) or not R.occurs(d, k0):
                    return Linear(b, d, True)
            return Rec(b, True, 'pos', k0)
        d = R.lsub(a, b)
        if level == 0 and isinstance(d, int):
            return Linear(b, d, True)
        return Rec(b, True, 'pos', k0)
    if t == 'rope':
        return grow(b, a, k0, level, lambda r: r, nm)
    if t == 'items':
        if not isinstance(state.objs[key[1]], PyList):
            raise NoSummary('%s changes' % nm)
        n = len(b)
        if len(a) >= n and all(x is y or same_value(x, y) for x, y in zip(a, b)):
            new = a[n:]
            if any(isinstance(x, SymSeg) for x in new):
                raise NoSummary('%s grows by a family' % nm)
            return GrowList(b, k0, new, state)
        if len(a) >= n and n and all(x is y for x, y in zip(a[len(a) - n:], b)) or n == 0:
            new = a[:len(a) - n]
            return GrowList(b, k0, new[::-1], state, True)
        raise NoSummary('%s changes in place' % nm)
    # a variable or an attribute
    if is_fam(a) and is_fam(b) and a.attrs.fam is b.attrs.fam and level == 0:
        d = R.lsub(a.attrs.idx, b.attrs.idx)
        if isinstance(d, int):
            return FamVar(a.attrs.fam, b.attrs.idx, d)
    if int_like(a) and int_like(b):
        if level == 0:
            d = R.lsub(iterm(a), iterm(b))
            if isinstance(d, int) or not R.occurs(d, k0):
                return Linear(iterm(b), d, False)
        if level <= 1:
            return Rec(iterm(b), False, str(key[2]), k0)
        return Temp(nm)
    if level <= 1:
        for cls, w in (((bytes, SBytes), mkbytes), ((str, SStr), mkstr)):
            if isinstance(a, cls) and isinstance(b, cls):
                try:
                    return grow(rope(b), rope(a), k0, level, w, nm)
                except NoSummary:
                    return Temp(nm)
    return Temp(nm)


def grow(b, a, k0, level, wrap, nm):
    lb, la = R.rlen(b), R.rlen(a)
    d = R.lsub(la, lb)
    if R.le(0, d):
        if level == 0:
            try:
                if same_rope(R.rslice(a, 0, lb), b):
                    return Grow(b, k0, R.rslice(a, lb, d), wrap)
            except Unsupported:
                pass
        if level <= 1:
            try:
                if same_rope(R.rslice(a, d, lb), b):
                    return Grow(b, k0, R.rslice(a, 0, d), wrap, True)
            except Unsupported:
                pass
    c = R.lsub(lb, la)
    if isinstance(c, int) and c > 0 and level <= 1:
        for front in (False, True):
            try:
                if same_rope(R.rslice(b, c if front else 0, la), a):
                    return Shrink(b, c, wrap, front)
            except Unsupported:
                pass
    raise NoSummary('%s changes' % nm)


def same_rope(a, b):
    if R.rkey(a) == R.rkey(b):
        return True
    c = C()
    c.nobranch += 1
    try:
        f = R.req(a, b)
    except Undecided:
        return False
    finally:
        c.nobranch -= 1
    return f is True or (f is not False and c.valid(f))


def equal_loc(t, x, y, it):
    """formula: two values of a location are equal"""
    if same_value(x, y):
        return True
    if x is UNSET or y is UNSET:
        return False
    if t == 'rope':
        return R.req(x, y)
    if t == 'items':
        if len(x) != len(y):
            return False
        fs = []
        for p, q in zip(x, y):
            fs.append(equal_val(p, q, it))
        return And(*fs)
    if t == 'pos':
        return simp(zint(x) == zint(y))
    return equal_val(x, y, it)


def equal_val(x, y, it):
    if same_value(x, y):
        return True
    if isinstance(x, (SymSeg, Poison)) or isinstance(y, (SymSeg, Poison)):
        return False
    if is_fam(x) or is_fam(y):
        if is_fam(x) and is_fam(y):
            return it.BI.same_identity(x, y)
        return False
    if isinstance(x, (Obj, ByteArray, PyList)) and typeof(x) is typeof(y):
        if isinstance(x, ByteArray):
            return R.req(x.rope, y.rope)
        if isinstance(x, PyList):
            if len(x.items) != len(y.items):
                return False
            return And(*[equal_val(p, q, it) for p, q in zip(x.items, y.items)])
        if set(x.attrs) != set(y.attrs):
            return False
        return And(*[equal_val(x.attrs[n], y.attrs[n], it) for n in x.attrs])
    if typeof(x) is not typeof(y):
        return False
    if isinstance(x, (SFloat, SReal)):
        return simp(x.t == y.t)
    if x is None or isinstance(x, (UserClass, type)):
        return False
    f = it.BI.plain_eq(it, x, y)
    return it.truth_formula(f)


# ------------------------------------------------------------------ the summariser

class Done(Exception):
    """the loop ends here: the guard is false after this iteration"""


class Outcome:
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


def run_once(it, body, k):
    from .interp import Ret, Brk, Cont
    try:
        body(k)
        return Outcome('norm')
    except Cont:
        return Outcome('norm')
    except (Brk, Done):
        return Outcome('exit', 'break')
    except Ret:
        return Outcome('exit', 'return')
    except PyExc as e:
        return Outcome('exit', 'exception')


class Summary:
    """S(k) for all locations, the delta of a normal iteration, whether the loop can be left"""

    def __init__(self, it, body, guard, targets, n, extra=()):
        self.it, self.body, self.guard, self.n = it, body, guard, n
        self.state = State(it, extra)
        self.pre = self.state.capture()
        self.targets = targets
        ctx = C()
        self.k = ctx.fresh_index('k')
        self.level = {}
        self.sums = {}
        self.exits = False
        self.delta = []
        self.promos = {}
        saved_frames = len(it.frames)
        st = (it.depth, dict(it.rec), saved_frames)
        try:
            self.discover()
            for attempt in range(12):
                if self.verify():
                    break
            else:
                raise NoSummary('no inductive description found')
        finally:
            self.state.restore(self.pre)
            it.depth, it.rec = st[0], st[1]
            del it.frames[st[2]:]
        for s in self.sums.values():
            if isinstance(s, (Grow, GrowList)):
                s.delta = tuple(self.delta)

    def in_range(self, k):
        return And(zint(k) >= 0, zint(k) < zint(self.n)) if self.n is not None else (zint(k) >= 0)

    def explore(self, first):
        """all paths of iteration k from S(k) -> [(outcome, post-state, pc delta)]"""
        ctx = C()
        res = []

        def closure():
            self.state.restore(self.pre)
            ctx.assume(self.in_range(self.k))
            ctx.loopvars.append(self.k)
            depth, rec, nf = self.it.depth, dict(self.it.rec), len(self.it.frames)
            try:
                if not first:
                    self.install(self.k)
                    self.unfold(self.k)
                else:
                    for key, v in self.pre.items():
                        # reading starts at a repetition
                        if key[0] == 'pos' and ('rope', key[1]) in self.pre:
                            p = 0
                            for ch in self.pre[('rope', key[1])]:
                                if isinstance(ch, R.Fold) and ch.L is None and R.eq(p, v) and R.lt(ch.lo, ch.hi):
                                    ch.body_at(ch.lo)
                                p = R.ladd(p, ch.n)
                if self.guard is not None:
                    g = self.guard()
                    if isinstance(g, bool):
                        if not g:
                            raise Abandon()
                    else:
                        ctx.assume(g)
                    if ctx.check() == z3.unsat:
                        raise Abandon()
                    if not first:
                        self.unfold(self.k)
                o = run_once(self.it, self.body, self.k)
                return o, self.state.capture()
            finally:
                ctx.loopvars.pop()
                self.it.depth, self.it.rec = depth, rec
                del self.it.frames[nf:]
        for (o, post), delta in Sub(ctx).run(closure):
            if o.kind == 'norm' and self.promos:
                post = self.promote(post)
            res.append((o, post, delta))
        self.state.restore(self.pre)
        return res

    def promos_of(self, outs):
        """new objects in a list which other objects refer to are elements of a family from the start"""
        ctx = C()
        posts = [p for o, p, _ in outs if o.kind == 'norm']
        for key in self.changed(posts[0], self.pre):
            if key[0] != 'items' or key not in self.pre:
                continue
            es = []
            for p in posts:
                new = p.get(key, ())
                n = len(self.pre[key])
                if len(new) != n + 1 or not all(x is y for x, y in zip(new, self.pre[key])):
                    break
                es.append(new[-1])
            if len(es) != len(posts) or len({id(getattr(e, 'cls', None)) for e in es}) != 1 or not all(
                    isinstance(e, Obj) and isinstance(e.cls, UserClass) and type(e.attrs) is dict and id(e) not in self.state.pre_ids for e in es):
                continue
            if not any(k2[0] == 'fam' and FAM.reaches(tuple(v[len(self.pre[k2]):]), e) for p, e in zip(posts, es) for k2, v in p.items()):
                continue
            fam = FAM.Fam(es[0].cls, lambda i: {})
            fam.lv -= {self.k.get_id()}
            self.state.fams.append(fam)
            fk = ('fam', len(self.state.fams) - 1)
            self.pre[fk] = ()
            self.promos[key] = (fam, fk)
        if self.promos:
            return [(o, self.promote(p, ()) if o.kind == 'norm' else p, d) for o, p, d in outs]
        return outs

    def promote(self, post, log=None):
        """element k of a family for the new object of iteration k"""
        post = dict(post)
        memo = dict(self.state.pre_ids)
        made = []
        for key, (fam, fk) in self.promos.items():
            e = post[key][-1] if post.get(key) else None
            if not isinstance(e, Obj) or e.cls is not fam.cls or type(e.attrs) is not dict or id(e) in self.state.pre_ids:
                raise NoSummary('another object in a list of new ones')
            memo[id(e)] = fam.obj(self.k)
            made.append((e, fam, fk))

        def put(v):
            if isinstance(v, list) or isinstance(v, dict):
                return v
            if not any(FAM.reaches(v, e) for e, _, _ in made):
                return v
            if isinstance(v, tuple):
                return tuple(put(x) for x in v)
            if isinstance(v, FAM.Point):
                return FAM.Point(v.field, v.idx, put(v.val))
            return vsubst(v, (self.k, self.k), memo)
        out = {}
        for key, v in post.items():
            if key[0] == 'fam':
                n = len(self.sums[key].at(self.k) if key in self.sums else self.pre[key])
                out[key] = tuple(v[:n]) + tuple(put(x) for x in v[n:])
            elif key[0] == 'items':
                n = 0
                out[key] = tuple(put(x) for x in v)
            else:
                out[key] = put(v)
        for e, fam, fk in made:
            out[fk] = (out.get(fk, ()) if log is None else log) + tuple(FAM.Point(a, self.k, put(v)) for a, v in e.attrs.items())
        return out

    def install(self, k):
        c = dict(self.pre)
        for key, s in self.sums.items():
            c[key] = s.at(k)
        self.state.restore(c)

    def unfold(self, k):
        """the element of a repetition which iteration k reads"""
        for s in self.sums.values():
            if isinstance(s, FoldPos) and s.fold.L is None:
                i = R.ladd(s.fold.lo, k)
                if R.lt(i, s.fold.hi):
                    s.fold.body_at(i)

    def discover(self):
        outs = self.explore(True)
        norm = [o for o in outs if o[0].kind == 'norm']
        if not norm:
            # every first iteration leaves the loop
            self.exits = True
            self.onlyexit = True
            return
        outs = self.promos_of(outs)
        norm = [o for o in outs if o[0].kind == 'norm']
        self.first = norm
        for _, post, delta in norm:
            self.under(delta, lambda: self.classify(post, 0))

    def under(self, delta, f):
        """run f where the facts of an iteration hold"""
        ctx = C()

        def closure():
            ctx.assume(self.in_range(self.k))
            for d in delta:
                ctx.assume(d)
            ctx.nobranch += 1
            try:
                return f()
            finally:
                ctx.nobranch -= 1
        r = Sub(ctx).run(closure)
        return r[0][0] if r else None

    def changed(self, post, ref):
        keys = [k for k in set(post) | set(ref) if not same_value(post.get(k, UNSET), ref.get(k, UNSET))]
        return sorted(keys, key=lambda k: (k[0] == 'pos', str(k)))

    def classify(self, post, lvl, keys=None):
        ctx = C()
        ctx.loopvars.append(self.k)
        try:
            for key in (keys or self.changed(post, self.pre)):
                if key in self.sums and not keys:
                    continue
                if key[0] == 'fam':
                    self.sums[key] = self.log_of(key, [(p, d) for _, p, d in self.first], self.pre[key])
                    continue
                if key[0] == 'v' and key[2] in self.targets and key[1] == self.targets[key[2]]:
                    self.sums[key] = Temp(key[2])
                    continue
                s = describe(self.state, key, self.pre.get(key, UNSET), post.get(key, UNSET), self.k, self.level.get(key, lvl),
                             self.pre, post)
                if s == ('endpos',):
                    rk = ('rope', key[1])
                    s = EndPos(self.sums[rk])
                self.sums[key] = s
        finally:
            ctx.loopvars.pop()

    def log_of(self, key, outs, prefix):
        paths = FAM.collect(outs, key, prefix, self.k, self.state.pre_ids, family)
        if paths is None:
            raise NoSummary('%s are changed by an inner loop' % self.state.name(key))
        return FamLog(self.pre[key], self.k, paths)

    def same_log(self, s, t):
        """do two descriptions of the assignments of an iteration agree?"""
        if len(s.paths) != len(t.paths):
            return False
        for (d1, w1), (d2, w2) in zip(s.paths, t.paths):
            if len(w1) != len(w2) or any(x.field != y.field for x, y in zip(w1, w2)):
                return False

            def check():
                ctx = C()
                if {d.get_id() for d in d1 if is_term(d)} != {d.get_id() for d in d2 if is_term(d)}:
                    if not ctx.valid(simp(zbool(And(*d1)) == zbool(And(*d2))), 4000):
                        return False
                for d in d1:
                    ctx.assume(d)
                for x, y in zip(w1, w2):
                    f = And(simp(zint(x.idx) == zint(y.idx)), equal_val(x.val, y.val, self.it))
                    if not (f is True or f is not False and ctx.valid(f, 4000)):
                        return False
                return True
            try:
                if not self.under((), check):
                    return False
            except (Undecided, Unsupported):
                return False
        return True

    def demote(self, key, post, delta):
        lv = self.level.get(key, 0) + 1
        if lv > 3:
            raise NoSummary('%s has no description' % self.state.name(key))
        self.level[key] = lv
        s = self.sums.get(key)
        if lv == 1 and post is not None and isinstance(s, (GrowList, Grow)) and \
                self.under(delta, lambda: self.regrow(key, s, post.get(key, UNSET))):
            return
        self.under(self.first[0][2], lambda: self.classify(self.first[0][1], lv, [key]))

    def regrow(self, key, s, got):
        """take what iteration k appends from a run which starts in the described state"""
        if got is UNSET:
            return False
        ctx = C()
        ctx.loopvars.append(self.k)
        try:
            cur = s.at(self.k)
            if isinstance(s, GrowList):
                if s.front or not s.new:
                    return False
                if len(got) != len(cur) + len(s.new) or not all(same_seg(x, y) for x, y in zip(got, cur)):
                    return False
                self.sums[key] = GrowList(s.pre, self.k, got[len(cur):], self.state)
                return True
            if s.front:
                return False
            r = got if isinstance(got, tuple) else (rope(got) if isinstance(got, (bytes, str, SBytes, SStr)) else None)
            cur = cur if isinstance(cur, tuple) else rope(cur)
            piece = strip(r, cur, False) if r is not None else None
            if piece is None:
                return False
            self.sums[key] = Grow(s.pre, self.k, piece, s.wrap)
            return True
        except (Undecided, Unsupported, NoSummary) as e:
            if DEBUG:
                import traceback
                traceback.print_exc()
            return False
        finally:
            ctx.loopvars.pop()

    def verify(self):
        """one round: returns True when S is inductive"""
        if getattr(self, 'onlyexit', False):
            return True
        ctx = C()
        try:
            outs = self.explore(False)
        except Unsupported as e:
            # a temporary which is used: describe it otherwise
            for key, s in self.sums.items():
                if isinstance(s, Temp) and s.name in str(e):
                    raise NoSummary(str(e))
            raise
        norm = [o for o in outs if o[0].kind == 'norm']
        self.exits = any(o[0].kind == 'exit' for o in outs)
        if not norm:
            raise NoSummary('no normal iteration')
        again = False
        deltas = []
        for key, s in list(self.sums.items()):
            if isinstance(s, FamLog):
                ctx.loopvars.append(self.k)
                try:
                    t = self.log_of(key, [(p, d) for _, p, d in norm], s.at(self.k))
                finally:
                    ctx.loopvars.pop()
                if not self.same_log(s, t):
                    self.sums[key] = t
                    again = True
        if again:
            self.logtries = getattr(self, 'logtries', 0) + 1
            if self.logtries > 4:
                raise NoSummary('what an iteration assigns depends on what the ones before assigned')
            return False
        for o, post, delta in norm:
            extra = []
            new = [k for k in self.changed(post, self.pre) if k not in self.sums]
            if new:
                ctx.loopvars.append(self.k)
                try:
                    self.level.update({k: max(self.level.get(k, 0), 0) for k in new})
                    for k in new:
                        if k in self.first[0][1]:
                            pass
                finally:
                    ctx.loopvars.pop()
                # a location which changes only in later iterations
                for key in new:
                    if key[0] == 'fam':
                        self.sums[key] = FamLog(self.pre[key], self.k, [])
                    elif key[0] in ('v', 'a'):
                        a, b = post.get(key, UNSET), self.pre.get(key, UNSET)
                        self.sums[key] = Rec(iterm(b), False, str(key[2]), self.k) if int_like(a) and int_like(b) else Temp(self.state.name(key))
                    else:
                        raise NoSummary('%s changes later' % self.state.name(key))
                again = True
                continue

            def check():
                for d in delta:
                    ctx.assume(d)
                ctx.loopvars.append(self.k)
                bad = []
                facts = []
                pieces = []
                try:
                    k1 = self.k + 1
                    for key, s in self.sums.items():
                        if isinstance(s, Temp):
                            continue
                        got = post.get(key, UNSET)
                        if isinstance(s, Rec):
                            if s.raw and not (isinstance(got, int) or is_term(got)):
                                bad.append(key)
                                continue
                            if not s.raw and not int_like(got):
                                bad.append(key)
                                continue
                            t = got if s.raw else iterm(got)
                            f = s.f(k1) == zint(t)
                            facts.append(f)
                            ctx.assume(f)
                    for s in self.sums.values():
                        # total lengths of repetitions, one step on
                        if isinstance(s, Grow) and s.piece and not s.front:
                            for ch in R.mk((R.Fold(0, k1, self.k, s.piece, ()),)):
                                if isinstance(ch, R.Fold) and ch.L is None:
                                    ch.body_at(self.k)
                        elif isinstance(s, FoldPos) and s.fold.L is None:
                            s.fold.body_at(R.ladd(s.fold.lo, self.k))
                    for key, s in self.sums.items():
                        if isinstance(s, (Temp, Rec)):
                            continue
                        got = post.get(key, UNSET)
                        ctx.nobranch += 1
                        try:
                            f = self.step_ok(key, s, got)
                        except Undecided:
                            f = False
                        except Unsupported:
                            f = False
                        finally:
                            ctx.nobranch -= 1
                        if not (f is True or (f is not False and ctx.valid(f, 8000))):
                            bad.append(key)
                finally:
                    ctx.loopvars.pop()
                return bad, facts
            r = Sub(ctx).run(check)
            if len(r) != 1:
                raise NoSummary('undecided description')
            (bad, facts), d2 = r[0]
            if bad:
                if DEBUG:
                    for key in bad:
                        print('bad', self.state.name(key), type(self.sums[key]).__name__, self.level.get(key), getattr(self.sums[key], 'new', None), post.get(key))
                # what grows is described in terms of the numbers: those first
                nums = [key for key in bad if not isinstance(self.sums[key], (Grow, GrowList))]
                for key in nums or bad:
                    self.demote(key, post, delta)
                return False
            deltas.append(list(delta) + [f for f in facts])
            self.last_posts = [p for _, p, _ in norm]
        if again:
            return False
        if len(deltas) == 1:
            self.delta = deltas[0]
        else:
            self.delta = [z3.Or(*[z3.And(*[zbool(f) for f in d]) if d else z3.BoolVal(True) for d in deltas])]
        # prefix facts which do not mention the index hold anyway
        return True

    def step_ok(self, key, s, got):
        """formula: got is the value S(k+1) for this location"""
        k = self.k
        if isinstance(s, FamLog):
            return True                     # compared as a whole
        if isinstance(s, Grow):
            r = got if s.wrap is not mkbytes and s.wrap is not mkstr else (rope(got) if isinstance(got, (bytes, str, SBytes, SStr)) else None)
            if r is None:
                return False
            cur = s.at(k)
            cur = cur if isinstance(cur, tuple) else rope(cur)
            # got must be cur ++ piece
            if s.front:
                piece = strip(r, cur, True)
            else:
                piece = strip(r, cur, False)
            if piece is None:
                return False
            return R.req(piece, s.piece)
        if isinstance(s, GrowList):
            cur = s.at(k)
            m = len(s.new)
            if s.front:
                new = got[:len(got) - len(cur)]
                rest = got[len(got) - len(cur):]
                new = new[::-1]
            else:
                new, rest = got[len(cur):], got[:len(cur)]
            if len(new) != m or not all(same_seg(x, y) for x, y in zip(rest, cur)):
                return False
            return And(*[equal_val(x, y, self.it) for x, y in zip(new, s.new)])
        if isinstance(s, Shrink) and not C().valid(zint(R.lsub(R.rlen(s.pre), R.lmul(s.c, k + 1))) >= 0):
            return False
        want = s.at(R.ladd(k, 1))
        return equal_loc(key[0], got, want, self.it)

    def facts_at(self, k, lo, hi):
        """the facts of a completed iteration k"""
        ctx = C()
        for d in self.delta:
            ctx.fact(Implies(And(zint(k) >= zint(lo), zint(k) < zint(hi)), zsub1(d, self.k, k)))

    def all_facts(self, n):
        """the facts of every completed iteration"""
        for d in self.delta:
            R.for_all(0, n, self.k, d)

    def finish(self, n):
        """install the state after n iterations"""
        ctx = C()
        self.install(n)
        posts = getattr(self, 'last_posts', None)
        also = self.elements(n, posts) if posts and len(posts) == 1 and not ctx.loopvars and not isinstance(n, int) else None
        c = self.state.capture()
        # values of the last iteration
        temps = [(key, s) for key, s in self.sums.items() if isinstance(s, Temp)]
        some = temps and posts and len(posts) == 1 and ctx.valid(zint(n) >= 1)
        none = isinstance(n, int) and n == 0
        for key, s in temps:
            if some and posts[0].get(key, UNSET) is not UNSET:
                v = posts[0][key]
                try:
                    last = R.lsub(n, 1)
                    if also and id(v) in also(last):
                        c[key] = also(last)[id(v)]
                    else:
                        c[key] = family(v, self.k, self.state.pre_ids, also)(last)
                    continue
                except (NoSummary, Unsupported):
                    pass
            if none:
                if self.pre.get(key, UNSET) is UNSET:
                    c.pop(key, None)
                else:
                    c[key] = self.pre[key]
                continue
            c[key] = Poison('%s has the value of the last iteration' % s.name)
        self.state.restore(c)
        self.facts_at(R.lsub(n, 1), 0, n)
        self.all_facts(n)
        self.digits_lemma(n)
        self.horner_lemma(n)

    def elements(self, n, posts):
        """new objects in a list become a family, whose elements can be changed"""
        post = posts[0]
        made = {}
        for key, s in self.sums.items():
            if not isinstance(s, GrowList) or len(s.new) != 1 or s.front or post.get(key) is None:
                continue
            e = post[key][-1]
            if not isinstance(e, Obj) or not isinstance(e.cls, UserClass) or type(e.attrs) is not dict or id(e) in self.state.pre_ids:
                continue
            if any(FAM.reaches(v, e) for k2, v in post.items() if k2 != key and k2 not in self.temps() and not same_value(v, self.pre.get(k2, UNSET))):
                continue
            if any(FAM.reaches(v, e) for v in e.attrs.values()):
                continue
            made[id(e)] = (key, s, e, self.element_family(s, e, n))
        if not made:
            return None

        def also(i):
            return {j: m[3].obj(i) for j, m in made.items()}
        for key, s, e, fam in made.values():
            items = self.state.objs[key[1]].items
            seg = SymSeg(n, fam.obj)
            seg.keep = (fam, n)
            items[-1] = seg
        return also

    def temps(self):
        return {key for key, s in self.sums.items() if isinstance(s, Temp)}

    def element_family(self, s, e, n):
        k0, pre, delta = self.k, self.state.pre_ids, self.delta
        gets = {a: family(v, k0, pre) for a, v in e.attrs.items()}

        def base(i):
            for d in delta:
                C().fact(Implies(And(zint(i) >= 0, zint(i) < zint(n)), zsub1(d, k0, i)))
            return {a: g(i) for a, g in gets.items()}
        return FAM.Fam(e.cls, base)

    def digits_lemma(self, n):
        """u(0) = v, u(k+1) = u(k) // 256, digits u(k) % 256 for k < n, u(n) = 0: the digits are the bytes of v"""
        ctx = C()
        for key, s in self.sums.items():
            if not isinstance(s, Rec):
                continue
            f1 = [d for d in self.delta if z3.is_eq(d) and d.arg(0).get_id() == s.f(self.k + 1).get_id()]
            if not f1:
                continue
            post = f1[0].arg(1)
            if not equal_under(post, s.f(self.k) / 256, self, ctx):
                continue
            if not ctx.valid(zint(s.v0) >= 0):
                continue
            s.div = 256
            u = s.f(self.k)
            for j in (n, R.lsub(n, 1)):
                ctx.fact(Implies(zint(j) >= 0, And(s.f(j) >= 0, s.f(j) <= zint(s.v0))))
            if not isinstance(n, int) or n >= 1:
                # u(j) = v // 256**j
                ctx.fact(Implies(zint(n) >= 1, (s.f(R.lsub(n, 1)) > 0) == (zint(s.v0) >= pow256(R.lsub(n, 1)))))
            for key2, g in self.sums.items():
                if isinstance(g, GrowList) and len(g.new) == 1 and int_like(g.new[0]) and not g.pre:
                    if equal_under(iterm(g.new[0]), u % 256, self, ctx):
                        self.use_digits(key2, g, s, n)
                elif isinstance(g, Grow) and len(g.piece) == 1 and isinstance(g.piece[0], R.El) and not g.front:
                    if equal_under(g.piece[0].t, u % 256, self, ctx) and ctx.valid(s.f(n) == 0):
                        o = self.state.objs[key2[1]] if key2[0] == 'rope' else None
                        if o is not None:
                            ctx.fact(z3.Implies(s.f(n) == 0, zint(s.v0) < pow256(n)))
                            o.rope = R.rcat(g.pre, R.mk((R.IntB(s.v0, n, True),)))
                            ctx.ex.stats.lemmas['digits'] = 'base-256 digits of an integer'

    def horner_lemma(self, n):
        """u(0) = 0, u(k+1) = 256 u(k) + byte(k): u(n) is the number which the bytes denote, most significant first"""
        ctx = C()
        for key, s in self.sums.items():
            if not isinstance(s, Rec) or key[0] != 'v' or s.raw or not R.eq(s.v0, 0):
                continue
            u = s.f(self.k)
            f1 = [d for d in self.delta if z3.is_eq(d) and d.arg(0).get_id() == s.f(self.k + 1).get_id()]
            if not f1:
                continue
            e = lsimp(f1[0].arg(1) - 256 * u)
            if not is_term(e) or R.occurs(e, u) or not holds_under(And(e >= 0, e < 256), self, ctx):
                continue
            from .builtins_ import le_value
            r = R.mk((R.Fold(0, n, self.k, (R.El(e),), tuple(self.delta)),))
            if DEBUG:
                print('HORNER', r, f1)
            c = self.state.capture()
            c[key] = mkint(le_value(R.rrev(r), False))
            self.state.restore(c)
            ctx.ex.stats.lemmas['digits'] = 'base-256 digits of an integer'

    def use_digits(self, key, g, s, n):
        ctx = C()
        if not ctx.valid(s.f(n) == 0):
            return
        o = self.state.objs[key[1]]
        v0 = zint(s.v0)
        ctx.fact(v0 < pow256(n))
        old = g

        def get(i):
            if isinstance(i, (SInt, SBool)):
                i = iterm(i)
            t = R.intat(v0, zint(n), zint(R.lsub(R.lsub(n, 1), i)) if g.front else zint(i))
            old_v = iterm(g.fams[0](R.lsub(R.lsub(n, 1), i) if g.front else i))
            ctx2 = C()
            rng = And(zint(i) >= 0, zint(i) < zint(n))
            ctx2.fact(Implies(rng, t == zint(old_v)))
            ctx2.fact(And(t >= 0, t <= 255))
            for d in g.delta:
                j = R.lsub(R.lsub(n, 1), i) if g.front else i
                ctx2.fact(Implies(rng, zsub1(d, g.k0, j)))
            return mkint(t)
        get(0 if g.front else R.lsub(n, 1))
        o.items[:] = [SymSeg(n, get)]
        ctx.ex.stats.lemmas['digits'] = 'base-256 digits of an integer'


def pow256(n):
    from .builtins_ import pow2
    t = pow2(R.lmul(8, n))
    return zint(t)


def equal_under(a, b, S, ctx):
    """a == b for every k in range, by a solver query under the delta of an iteration"""
    k = S.k
    r = []

    def cl():
        ctx.assume(S.in_range(k))
        for d in S.delta:
            ctx.assume(d)
        return ctx.valid(zint(a) == zint(b), 4000)
    try:
        outs = Sub(ctx).run(cl)
    except (Undecided, Unsupported):
        return False
    return bool(outs) and all(o[0] for o in outs)


def holds_under(f, S, ctx):
    """f for every k in range"""
    def cl():
        ctx.assume(S.in_range(S.k))
        for d in S.delta:
            ctx.assume(d)
        return ctx.valid(f, 4000)
    try:
        outs = Sub(ctx).run(cl)
    except (Undecided, Unsupported):
        return False
    return bool(outs) and all(o[0] for o in outs)


def same_seg(x, y):
    if isinstance(x, SymSeg) and isinstance(y, SymSeg):
        kx, ky = getattr(x, 'keep', None), getattr(y, 'keep', None)
        if kx and ky:
            return kx[0] is ky[0] and tk(kx[1]) == tk(ky[1])
        return x is y
    return x is y or same_value(x, y)


def strip(r, cur, front):
    """the rest of r after (before) cur, when r = cur ++ rest"""
    n = len(cur)
    if not front:
        if len(r) >= n and R.rkey(r[:n]) == R.rkey(cur):
            return tuple(r[n:])
        if n and len(r) >= n and R.rkey(r[:n - 1]) == R.rkey(cur[:n - 1]):
            # the last chunk may have merged with the new piece
            a, b = r[n - 1], cur[n - 1]
            if isinstance(a, R.Lit) and isinstance(b, R.Lit) and a.elems[:b.n] == b.elems:
                return R.mk((R.Lit(a.elems[b.n:]),) + tuple(r[n:]))
    else:
        if len(r) >= n and (n == 0 or R.rkey(r[-n:]) == R.rkey(cur)):
            return tuple(r[:len(r) - n])
    lc, lr = R.rlen(cur), R.rlen(r)
    d = R.lsub(lr, lc)
    if not R.le(0, d):
        return None
    if front:
        if same_rope(R.rslice(r, d, lc), cur):
            return R.rslice(r, 0, d)
        return None
    if same_rope(R.rslice(r, 0, lc), cur):
        return R.rslice(r, lc, d)
    return None


# ------------------------------------------------------------------ loops

def targets_of(it, node, fr, state_dicts=None):
    import ast
    return [x.id for x in ast.walk(node) if isinstance(x, ast.Name)]


def for_loop(it, s, fr, seq):
    from .interp import Brk, Cont
    ctx = C()

    def body(k):
        it.assign(s.target, seq.get(k), fr)
        it.exec_body(s.body, fr)
    tn = targets_of(it, s.target, fr)
    where = '%s:%d' % (fr.module.name, s.lineno)
    try:
        done = drive(it, body, seq.n, tn, fr, where)
    except (NoSummary, Undecided) as e:
        if isinstance(seq.n, int):
            plain_for(it, s, fr, seq)
            return
        unroll_for(it, s, fr, seq, where, e)
        return
    if done:
        it.exec_body(s.orelse, fr)


def plain_for(it, s, fr, seq):
    from .interp import Brk, Cont
    for i in range(max(seq.n, 0)):
        it.assign(s.target, seq.get(i), fr)
        try:
            it.exec_body(s.body, fr)
        except Brk:
            return
        except Cont:
            pass
    it.BI.digit_sums(fr.vars)
    it.exec_body(s.orelse, fr)


def unroll_for(it, s, fr, seq, where, why):
    from .interp import Brk, Cont
    ctx = C()
    it.note_bounded('loop at %s' % where, 'at most %d iterations (%s)' % (UNROLL_BOUND, why))
    for i in range(UNROLL_BOUND):
        if not ctx.branch(zint(seq.n) > i):
            it.exec_body(s.orelse, fr)
            return
        it.assign(s.target, seq.get(i), fr)
        try:
            it.exec_body(s.body, fr)
        except Brk:
            return
        except Cont:
            continue
    if ctx.branch(zint(seq.n) > UNROLL_BOUND):
        raise BoundCut()
    it.exec_body(s.orelse, fr)


class _Tmap(dict):
    def __init__(self, names, state, fr):
        dict.__init__(self)
        for i, d in enumerate(state.dicts):
            if d is fr.vars:
                for n in names:
                    self[n] = i


def drive(it, body, n, targets, fr, where, guard=None, extra=()):
    """run a summarised loop; True when it completed normally, False after break; raises what the loop raises"""
    from .interp import Brk, Cont, Ret
    ctx = C()
    S = Summary.__new__(Summary)
    # the target variables of a for loop are temporaries
    st0 = State(it, extra)
    tm = _Tmap(targets, st0, fr) if fr is not None else {}
    S.__init__(it, body, guard, tm, n, extra)
    if n is not None:
        if not isinstance(n, int):
            ctx.assume(zint(n) >= 0) if ctx.valid(zint(n) >= 0) else None
        total = n
        nonneg = isinstance(n, int) or ctx.valid(zint(n) >= 0)
        if not nonneg:
            if ctx.branch(zint(n) <= 0):
                S.install(0)
                S.finish(0)
                return True
    onlyexit = getattr(S, 'onlyexit', False)
    if S.exits:
        # leave at iteration e, or run to the end
        c = ctx.choose(2)
    else:
        c = 0
    if c == 0:
        if onlyexit:
            if n is None:
                # zero iterations
                g = guard()
                ctx.assume(Not(g)) if not isinstance(g, bool) else None
                if g is True:
                    raise Abandon()
                return True
            ctx.assume(zint(n) <= 0)
            return True
        if n is None:
            K = ctx.fresh('trips', I)
            ctx.indices.append(K)
            ctx.assume(K >= 0)
            S.facts_at(R.lsub(K, 1), 0, K)
            S.install(K)
            g = guard()
            if g is True:
                terminates(it, S, where, guard)
                raise Abandon()
            if g is not False:
                ctx.assume(Not(g))
            S.finish(K)
            terminates(it, S, where, guard)
        else:
            S.finish(n)
        return True
    if onlyexit:
        e = 0
        if n is not None:
            ctx.assume(zint(n) > 0)
    else:
        e = ctx.fresh('exit', I)
        ctx.indices.append(e)
        ctx.assume(e >= 0)
        if n is not None:
            ctx.assume(e < zint(n))
        S.facts_at(R.lsub(e, 1), 0, e)
        S.all_facts(e)
        S.install(e)
        S.unfold(e)
    if guard is not None:
        g = guard()
        if g is False:
            raise Abandon()
        if g is not True:
            ctx.assume(g)
        if not onlyexit:
            S.unfold(e)
    try:
        body(e)
    except Brk:
        return False
    except Done:
        return True
    except Cont:
        raise Abandon()
    raise Abandon()


def exits_end(S):
    """is there no iteration, from some one on, which does not leave the loop?"""
    ctx = C()

    def closure():
        ctx.nobranch += 1
        try:
            k = ctx.fresh('late', I)
            f = simp(And(*[zsub1(d, S.k, k) for d in S.delta]))
            if isinstance(f, bool):
                return not f
            beyond(k, [zbool(f)])
            return ctx.valid(Not(f))
        except Undecided:
            return False
        finally:
            ctx.nobranch -= 1
    r = Sub(ctx).run(closure)
    return len(r) == 1 and r[0][0] is True


def beyond(k, todo):
    """assume k to be larger than all the numbers in some formulas together"""
    m, seen = [], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_int(x) and not R.occurs(x, k) and (z3.is_int_value(x) or z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            m.append(z3.If(x < 0, -x, x))
            continue
        todo.extend(x.children())
    C().assume(k >= z3.Sum(m + [z3.IntVal(1)]))


def guard_ends(it, S, guard):
    """is the guard false from some iteration on?"""
    ctx = C()

    def closure():
        ctx.nobranch += 1
        try:
            k = ctx.fresh('late', I)
            S.state.restore(S.pre)
            S.install(k)
            try:
                g = guard()
            except Undecided:
                # the guard itself looks things up by the index
                beyond(k, list(ctx.pc))
                g = guard()
            if isinstance(g, bool):
                return not g
            beyond(k, [zbool(g)])
            return ctx.valid(Not(g))
        except (Undecided, Unsupported, NoSummary, PyExc):
            return False
        finally:
            ctx.nobranch -= 1
    now = S.state.capture()
    try:
        r = Sub(ctx).run(closure)
    finally:
        S.state.restore(now)
    return len(r) == 1 and r[0][0] is True


def terminates(it, S, where, guard=None):
    ctx = C()
    for key, s in S.sums.items():
        if isinstance(s, Linear) and isinstance(s.c, int) and s.c < 0:
            return
        if isinstance(s, Rec) and s.div:
            return
        if isinstance(s, Shrink):
            return
    if guard is not None and guard_ends(it, S, guard):
        return
    if S.exits and S.delta and exits_end(S):
        return
    ctx.ex.stats.trusted['termination of the loop at %s' % where] = 1


FORKS = 4                           # iterations which took decisions, before a loop with a guard known each time is summarised


def while_loop(it, s, fr):
    from .interp import Brk, Cont
    ctx = C()
    where = '%s:%d' % (fr.module.name, s.lineno)

    def guard():
        return simp(it.truth_formula(it.ev(s.test, fr)))

    def body(k):
        it.exec_body(s.body, fr)

    def ahead(k):
        try:
            it.exec_body(s.body, fr)
        except Cont:
            pass
        ctx.nobranch += 1
        try:
            g = guard()
        except Undecided:
            g = None
        finally:
            ctx.nobranch -= 1
        if g is False:
            raise Done()
    steps = 0
    forks = 0
    tried = False
    left = None
    while True:
        d0 = len(ctx.trace)
        g = guard()
        if not tried and (not isinstance(g, bool) or len(ctx.trace) != d0 and g or forks == FORKS):
            tried = True
            try:
                if drive(it, ahead if forks == FORKS and g is True else body, None, [], fr, where, guard):
                    it.exec_body(s.orelse, fr)
                return
            except (NoSummary, Undecided, Unsupported) as e:
                if DEBUG:
                    print('no summary at', where, type(e).__name__, e)
                if ctx.ghost.get('group') or ctx.ghost.get('ring'):
                    from . import inv
                    try:
                        if inv.while_loop(it, guard, body, where):
                            it.exec_body(s.orelse, fr)
                        return
                    except (NoSummary, Undecided, Unsupported) as e2:
                        if DEBUG:
                            print('no invariant:', e2)
                left = UNROLL_BOUND
                why = e
        if not isinstance(g, bool):
            if left is not None and left == 0:
                it.note_bounded('loop at %s' % where, 'at most %d undecided iterations (%s)' % (UNROLL_BOUND, why))
                if ctx.branch(g):
                    raise BoundCut()
                break
            g2 = ctx.branch(g)
            if left is not None:
                it.note_bounded('loop at %s' % where, 'at most %d undecided iterations (%s)' % (UNROLL_BOUND, why))
                left -= 1
        else:
            g2 = g
            if g and left is not None and len(ctx.trace) != d0:
                it.note_bounded('loop at %s' % where, 'at most %d undecided iterations (%s)' % (UNROLL_BOUND, why))
                if left == 0:
                    raise BoundCut()
                left -= 1
        if not g2:
            break
        steps += 1
        if steps > 5000:
            raise Unsupported('more than 5000 iterations at %s' % where)
        d0 = len(ctx.trace)
        try:
            it.exec_body(s.body, fr)
        except Brk:
            return
        except Cont:
            pass
        if len(ctx.trace) != d0:
            forks += 1
    if steps >= 4:
        it.BI.digit_sums(fr.vars)
    it.exec_body(s.orelse, fr)


# ------------------------------------------------------------------ comprehensions, folds

def map_seq(it, seq, f):
    """[f(x) for x in seq] with a symbolic length"""
    out = PyList()

    def body(k):
        out.items.append(f(seq.get(k)))
    where = 'comprehension at %s:%s' % (it.line or ('?', '?'))
    try:
        drive(it, body, seq.n, [], None, where, extra=(out,))
    except (NoSummary, Undecided) as e:
        ctx = C()
        out.items[:] = []
        if isinstance(seq.n, int):
            for i in range(seq.n):
                body(i)
            return out
        it.note_bounded(where, 'at most %d elements (%s)' % (UNROLL_BOUND, e))
        for i in range(UNROLL_BOUND):
            if not ctx.branch(zint(seq.n) > i):
                return out
            body(i)
        if ctx.branch(zint(seq.n) > UNROLL_BOUND):
            raise BoundCut()
    return out


def fold_bytes(it, sv, chk):
    l = map_seq(it, sv, lambda x: mkint(chk(x)))
    return rope_of_list(l, lambda v: (R.El(iterm(v)),))


def fold_ropes(it, sv, f):
    l = map_seq(it, sv, lambda x: mkbytes(f(x)))
    return rope_of_list(l, lambda v: rope(v))


def rope_of_list(l, conv):
    out = ()
    for x in l.items:
        if isinstance(x, SymSeg):
            v = C().fresh_index('fb')
            C().loopvars.append(v)
            before = len(C().pc)
            try:
                facts = []
                e = conv(x.at(v))
                # facts about the element hold for every index in range
                facts = C().pc[before:]
            finally:
                C().loopvars.pop()
            out = R.rcat(out, R.mk((R.Fold(0, x.n, v, e, tuple(facts)),)))
        else:
            out = R.rcat(out, conv(x))
    return out
