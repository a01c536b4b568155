"""Families of objects: the elements of a list of unknown length, each with its own attributes which can be assigned.

The attributes of element i are those it was created with, overridden by a log of assignments.  One entry of the log
is either one assignment to one element (Point), or all assignments which iterations 0..n-1 of a loop made (Range):
for every path through the body, the condition of the path and the assignments on it, as functions of the iteration."""
import z3
from .core import *
from . import ropes as R
from .values import *

NONE = object()


class Fam:
    def __init__(self, cls, base):
        c = C()
        self.cls, self.base = cls, base
        self.log = ()
        self.objs = {}
        self.bases = {}
        self.lv = {v.get_id() for v in c.loopvars}
        c.fams.append(self)

    def obj(self, i):
        if isinstance(i, (SInt, SBool)):
            i = iterm(i)
        i = lsimp(i)
        o = self.objs.get(tk(i))
        if o is None:
            o = self.objs[tk(i)] = Obj(self.cls, FamAttrs(self, i))
        return o

    def first(self, i):
        """the attributes element i was created with"""
        v = self.base(i)            # asserts what is known of element i, on this path
        return self.bases.setdefault(tk(i), (v, i))[0]

    def read(self, i, field):
        for e in reversed(self.log):
            r = e.find(i, field)
            if r is not NONE:
                return r
        return self.first(i).get(field, NONE)


class FamAttrs:
    """the attributes of one element"""

    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    def fields(self):
        out = list(self.fam.first(self.idx))
        for e in self.fam.log:
            out += [f for f in e.fields() if f not in out]
        return out

    def __contains__(self, n):
        return self.fam.read(self.idx, n) is not NONE

    def __getitem__(self, n):
        v = self.fam.read(self.idx, n)
        if v is NONE:
            raise KeyError(n)
        return v

    def get(self, n, d=None):
        v = self.fam.read(self.idx, n)
        return d if v is NONE else v

    def __setitem__(self, n, v):
        self.fam.log += (Point(n, self.idx, v),)

    def __iter__(self):
        return iter([n for n in self.fields() if n in self])

    keys = __iter__

    def __len__(self):
        return len(list(iter(self)))

    def items(self):
        return [(n, self[n]) for n in self]

    def values(self):
        return [self[n] for n in self]

    def no(self, *a, **k):
        raise Unsupported('removal of an attribute of an element of a family')

    pop = clear = update = setdefault = __delitem__ = no


class Point:
    def __init__(self, field, idx, val):
        self.field, self.idx, self.val = field, idx, val

    def fields(self):
        return [self.field]

    def find(self, i, field):
        if field != self.field:
            return NONE
        d = R.lsub(i, self.idx)
        if isinstance(d, int):
            return self.val if d == 0 else NONE
        return self.val if C().branch(zint(i) == zint(self.idx)) else NONE


def linear(t, k):
    """(a, b) with t = a * k + b, a an integer"""
    if not is_term(t) or not R.occurs(t, k):
        return 0, t
    at = lambda i: lsimp(z3.substitute(t, (k, z3.IntVal(i))))       # noqa: E731
    b = at(0)
    a = R.lsub(at(1), b)
    if not isinstance(a, int) or R.lsub(t, R.ladd(R.lmul(a, k), b)) != 0 or is_term(R.lsub(t, R.ladd(R.lmul(a, k), b))):
        raise Unsupported('an index which does not move by steps of one size')
    return a, b


def exact(d, a):
    """d / a when every coefficient of d is divisible by a"""
    if isinstance(d, int):
        return d // a if d % a == 0 else None
    parts = d.children() if z3.is_add(d) else [d]
    out = 0
    for p in parts:
        if z3.is_int_value(p):
            c, t = p.as_long(), None
        elif z3.is_mul(p) and p.num_args() == 2 and z3.is_int_value(p.arg(0)):
            c, t = p.arg(0).as_long(), p.arg(1)
        else:
            c, t = 1, p
        if c % a:
            return None
        out = R.ladd(out, c // a if t is None else R.lmul(c // a, t))
    return out


class Write:
    """an assignment of every iteration on one path"""

    def __init__(self, field, idx, val, k0, fam):
        self.field, self.val = field, val
        self.a, self.b = linear(idx, k0)
        self.idx = idx
        self.get = fam
        self.seen = {}

    def place(self):
        return (self.a, tk(self.b))

    def at(self, q):
        v = self.get(q)
        return self.seen.setdefault(tk(q), (v, q))[0]


class Range:
    def __init__(self, k0, n, paths):
        self.k0, self.n, self.paths = k0, n, paths      # [(formulas, [Write])]

    def fields(self):
        return [w.field for _, ws in self.paths for w in ws]

    def match(self, w, i):
        """(condition, iteration) of an assignment to element i"""
        d = R.lsub(i, w.b)
        if w.a == 0:
            if not all(any(x.field == w.field and x.place() == w.place() for x in ws) for _, ws in self.paths):
                raise Unsupported('an element which some iterations change')
            q = R.lsub(self.n, 1)
            return And(simp(zint(d) == 0), simp(zint(self.n) >= 1)), q
        q = exact(d, w.a)
        f = True
        if q is None:
            if isinstance(d, int):
                return False, 0
            q = lsimp(zint(d) / w.a)
            f = zint(d) % w.a == 0
        return And(f, simp(zint(q) >= 0), simp(zint(q) < zint(self.n))), q

    def find(self, i, field):
        c = C()
        cands = {}
        for _, ws in self.paths:
            for w in ws:
                if w.field == field:
                    cands.setdefault(w.place(), w)
        found = None
        ms = [(p,) + self.match(w, i) for p, w in cands.items()]
        for p, f, q in ms:
            if found is None and c.branch(f):
                found = (p, q)
        if found is None:
            return NONE
        place, q = found
        for p, f, q2 in ms:
            if p != place and not c.valid(Not(And(f, simp(zint(q2) >= zint(q))))):
                raise Unsupported('an element which several iterations change')
        hits = [next((w for w in reversed(ws) if w.field == field and w.place() == place), None) for _, ws in self.paths]
        for j, (delta, ws) in enumerate(self.paths):
            f = And(*[simp(z3.substitute(zbool(d), (self.k0, zint(q)))) for d in delta])
            if j == len(self.paths) - 1:
                c.fact(f)
            elif not c.branch(f):
                continue
            return NONE if hits[j] is None else hits[j].at(q)


def collect(outs, key, prefix, k0, pre, family):
    """the paths of a Range from what one iteration did on each path: [(post-state, path condition)]"""
    paths = []
    for post, delta in outs:
        log = post[key]
        n = len(prefix)
        if len(log) < n or any(x is not y for x, y in zip(log, prefix)):
            return None
        ws = []
        for e in log[n:]:
            if not isinstance(e, Point):
                return None
            ws.append(Write(e.field, e.idx, e.val, k0, family(e.val, k0, pre)))
        paths.append((tuple(delta), ws))
    return paths


def is_fam(v):
    return isinstance(v, Obj) and isinstance(v.attrs, FamAttrs)


def reaches(v, o, seen=None):
    """is the object o part of v?"""
    if seen is None:
        seen = set()
    if v is o:
        return True
    if isinstance(v, tuple):
        return any(reaches(x, o, seen) for x in v)
    if isinstance(v, Point):
        return reaches(v.val, o, seen)
    if id(v) in seen or is_fam(v):
        return False
    seen.add(id(v))
    if isinstance(v, (PyList, PySet)):
        return any(reaches(x, o, seen) for x in v.items if not isinstance(x, SymSeg))
    if isinstance(v, PyDict):
        return any(reaches(x, o, seen) for x in v.d.values())
    if isinstance(v, Obj):
        return any(reaches(x, o, seen) for x in v.attrs.values())
    if isinstance(v, BoundMethod):
        return reaches(v.self_, o, seen)
    if isinstance(v, IterV):
        return reaches(v.seq, o, seen)
    return False
