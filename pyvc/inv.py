"""Loops over multiples of a point: an invariant is found among templates and verified.

The variables which an iteration changes are made arbitrary: integers unknown integers, points unknown multiples.  Candidate invariants
(sign and bounds of the integers, and i + j*s == constant for indices i, j of points and integers s) hold on entry; those which every
path through the body preserves, given all of them, are kept (as in Houdini).  Nothing else is known after the loop.
"""
import z3
from .core import *
from .values import *
from . import values as V
from . import algebra as ALG
from . import groups as G
from .loops import State, NoSummary, same_value, UNSET, run_once

ABSENT = object()


def proves(ctx, f):
    f = simp(f)
    if isinstance(f, bool):
        return f
    return ctx.valid(f) or bool(ALG.try_prove(ctx, f))


def rel(key):
    return key[0] in ('v', 'a', 'rope', 'items', 'd', 'pos', 'closed')


class Loop:
    def __init__(self, it, guard, body, where):
        self.it, self.guard, self.body, self.where = it, guard, body, where
        self.state = State(it)
        self.pre = self.state.capture()
        self.kinds = {}
        self.entry = {}
        self.temps = set()
        self.exits = False

    def kind(self, v):
        if isinstance(v, bool) or isinstance(v, SBool):
            return None
        if isinstance(v, (int, SInt)) and typeof(v) is int:
            return 'int'
        if G.index_of(self.it, v) is not None:
            return 'point'
        return None

    def classify(self, key):
        v = self.pre.get(key, UNSET)
        if v is UNSET or isinstance(v, V.Poison):
            self.temps.add(key)
            return
        k = self.kind(v)
        if k is None or key[0] != 'v':
            raise NoSummary('the loop changes something other than integers and points')
        self.kinds[key] = k
        self.entry[key] = iterm(v) if k == 'int' else G.index_of(self.it, v)

    def havoc(self):
        """an arbitrary state; the values of the changed variables"""
        ctx = C()
        st = dict(self.pre)
        vals = {}
        for key, k in self.kinds.items():
            t = ctx.fresh('inv_' + str(key[2]), I)
            vals[key] = t
            st[key] = mkint(t) if k == 'int' else G.multiple(self.it, G.group(), t)
        for key in self.temps:
            st[key] = V.Poison('%s is set in the loop at %s' % (key[2], self.where))
        self.state.restore(st)
        return vals

    def read(self, post):
        vals = {}
        for key, k in self.kinds.items():
            v = post.get(key, UNSET)
            if v is UNSET or self.kind(v) != k:
                raise NoSummary('%s changes its kind' % (key[2],))
            vals[key] = iterm(v) if k == 'int' else G.index_of(self.it, v)
        return vals

    def paths(self, inv, check):
        """run one iteration from an arbitrary state in which inv holds; check(vals before, vals after, post) at each normal end"""
        ctx = C()
        res = []
        it = self.it
        frames = len(it.frames)
        saved = (it.depth, dict(it.rec))

        def closure():
            try:
                vals = self.havoc()
                for f in inv:
                    ctx.assume(f(vals))
                g = self.guard()
                if g is False:
                    return None
                if g is not True:
                    ctx.assume(g)
                if ctx.check() == z3.unsat:
                    return None
                o = run_once(it, lambda k: self.body(k), 0)
                if o.kind != 'norm':
                    self.exits = True
                    return None
                post = self.state.capture()
                return check(vals, post)
            finally:
                del it.frames[frames:]
                it.depth, it.rec = saved[0], dict(saved[1])
        try:
            res = Sub(ctx).run(closure, 64)
        finally:
            self.state.restore(self.pre)
        return [r for r, d in res if r is not None]

    def discover(self, confirm=None):
        """which locations does the body change?  (with integers which are not negative on entry not negative: to be confirmed)"""
        ctx = C()
        while True:
            new = set()
            self.hoped = [k for k, v in self.kinds.items() if v == 'int' and proves(ctx, zint(self.entry[k]) >= 0)] if ALG.ring() else []

            def check(vals, post):
                for key in set(post) | set(self.pre):
                    if not rel(key) or key in self.kinds or key in self.temps:
                        continue
                    if not same_value(post.get(key, UNSET), self.pre.get(key, UNSET)) and \
                            post.get(key, UNSET) is not self.pre.get(key, UNSET):
                        new.add(key)
                return True
            self.paths([f for n, f in confirm] if confirm is not None else [lambda v, k=k: zint(v[k]) >= 0 for k in self.hoped], check)
            if confirm is not None:
                return not new
            if not new:
                return
            for key in new:
                self.classify(key)

    def others(self):
        """indices of points and integers which the loop leaves alone"""
        pts, ints = [], []
        for key, v in self.pre.items():
            if key[0] == 'v' and key not in self.kinds:
                i = G.index_of(self.it, v)
                if i is not None and not any(i is j or (is_term(i) and is_term(j) and i.eq(j)) or i == j if not is_term(i) and not is_term(j)
                                             else False for j in pts):
                    pts.append(i)
        return pts[:4]

    def candidates(self):
        out = []
        ctx = C()
        ints = [k for k, v in self.kinds.items() if v == 'int']
        pts = [k for k, v in self.kinds.items() if v == 'point']
        e = self.entry
        for k in ints:
            out.append(('%s >= 0' % k[2], lambda v, k=k: zint(v[k]) >= 0, True))
            out.append(('%s <= start' % k[2], lambda v, k=k: zint(v[k]) <= zint(e[k]), True))
            out.append(('%s >= start' % k[2], lambda v, k=k: zint(v[k]) >= zint(e[k]), True))

        def product(a, b):
            a, b = simp(a), simp(b)
            if isinstance(a, int) or isinstance(b, int):
                return zint(a) * zint(b)
            return zint(ALG.mul(a, b))
        fixed = self.others()
        for a in pts:
            for s in ints:
                for sign in (1, -1):
                    for b in [k for k in pts if k != a]:
                        out.append(('%s %+d*%s*%s' % (a[2], sign, b[2], s[2]), lambda v, a=a, b=b, s=s, g=sign:
                                    zint(v[a]) + g * product(v[b], v[s]) == zint(e[a]) + g * product(e[b], e[s]), False))
                    for j in fixed:
                        out.append(('%s %+d*(%s)*%s' % (a[2], sign, str(j)[:20], s[2]), lambda v, a=a, j=j, s=s, g=sign:
                                    zint(v[a]) + g * product(j, v[s]) == zint(e[a]) + g * product(j, e[s]), False))
        self.joint = set()
        if len(ints) >= 2 and not pts and ALG.ring():
            # the extended Euclidean algorithm: combinations of two start values, and their greatest common divisor
            for a in ints:
                for b in ints:
                    if a == b or not all(proves(ctx, zint(e[x]) >= 0) for x in (a, b)) or any(isinstance(simp(e[x]), int) for x in (a, b)):
                        continue
                    out.append(('gcd(%s, %s)' % (a[2], b[2]), lambda v, a=a, b=b: ALG.gcd(v[a], v[b]) == ALG.gcd(e[a], e[b]), False))
                    if not a[2] < b[2]:
                        continue
                    for u in ints:
                        for x in ints:
                            for y in ints:
                                if len({u, x, y}) < 3 or x in (a, b) or y in (a, b) or {simp(e[x]), simp(e[y])} != {0, 1}:
                                    continue
                                nm = '%s == %s*(%s) + %s*(%s)' % (u[2], x[2], e[a], y[2], e[b])
                                self.joint.add(nm)
                                out.append((nm, lambda v, u=u, x=x, y=y, a=a, b=b:
                                            zint(v[u]) == product(e[a], v[x]) + product(e[b], v[y]), False))
        if len(ints) >= 2:
            for a in ints:
                for b in ints:
                    if a[2] < b[2]:
                        for sign in (1, -1):
                            out.append(('%s %+d*%s' % (a[2], sign, b[2]), lambda v, a=a, b=b, g=sign:
                                        zint(v[a]) + g * zint(v[b]) == zint(e[a]) + g * zint(e[b]), True))
        ctx = C()
        return [(n, f, b) for n, f, b in out if proves(ctx, f(e))]

    def inductive(self, cand, given):
        """the largest subset which is preserved, on top of what is given (Houdini)"""
        ctx = C()
        while cand:
            bad = set()

            def check(vals, post):
                after = self.read(post)
                if self.joint:
                    for n, f in given + cand:
                        f(vals)
                for n, f in cand:
                    if n not in bad and not proves(ctx, f(after)):
                        if ALG.DEBUG:
                            print('NOT PRESERVED', n, f(after))
                        bad.add(n)
                return True
            self.exits = False
            self.paths([f for n, f in given + cand], check)
            if not bad:
                break
            cand = [(n, f) for n, f in cand if n not in bad]
        return cand

    def run(self):
        ctx = C()
        self.discover()
        if not any(k == 'point' for k in self.kinds.values()) and not ALG.ring():
            raise NoSummary('no point changes')
        cand = self.candidates()
        bounds = self.inductive([(n, f) for n, f, b in cand if b], [])
        if self.hoped and not self.discover(bounds):
            raise NoSummary('a sign is not kept')
        joint = [(n, f) for n, f, b in cand if n in self.joint]
        cand = bounds + [x for n, f, b in cand if not b and n not in self.joint for x in self.inductive([(n, f)], bounds)]
        if joint:
            cand += self.inductive(joint, bounds)
        if not any(k == 'point' for k in self.kinds.values()) and len(cand) == len(bounds):
            raise NoSummary('no invariant found')
        self.inv = cand
        if ALG.DEBUG:
            print('INVARIANT', self.where, [n for n, f in cand])
        ints = [k for k, v in self.kinds.items() if v == 'int']
        down = {}

        def check(vals, post):
            after = self.read(post)
            for k in ints:
                down[k] = down.get(k, True) and proves(ctx, And(after[k] < vals[k], vals[k] >= 0))
            return True
        self.paths([f for n, f in cand], check)
        if not any(down.values()):
            ctx.ex.stats.trusted['termination of the loop at %s' % self.where] = 1
        note = ctx.ex.stats.__dict__.setdefault('invariants', {})
        note[self.where] = [n for n, f in cand]


def while_loop(it, guard, body, where):
    """True when it ended by its condition; raises what the loop raises; False after break"""
    from .interp import Brk, Cont
    ctx = C()
    L = Loop(it, guard, body, where)
    try:
        L.run()
    except NoSummary:
        L.state.restore(L.pre)
        raise
    leave = L.exits and ctx.choose(2)
    vals = L.havoc()
    for n, f in L.inv:
        ctx.assume(f(vals))
    g = guard()
    if not leave:
        if g is True:
            raise Abandon()
        if g is not False:
            ctx.assume(Not(g))
        if ctx.check() == z3.unsat:
            raise Abandon()
        return True
    if g is False:
        raise Abandon()
    if g is not True:
        ctx.assume(g)
    try:
        body(0)
    except Brk:
        return False
    except Cont:
        pass
    raise Abandon()
