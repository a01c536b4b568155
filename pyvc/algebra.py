"""Polynomial reasoning for theorems about modular arithmetic ("ring" theorems).

In a ring theorem products of unknowns, remainders by an unknown and powers are uninterpreted for z3 (f_mul, f_mod, f_div), so that
its queries stay linear.  An equation z3 does not settle is decided here: both sides are turned into polynomials over the integers, or
over the integers modulo the modulus in the equation, and the difference is shown to lie in the ideal of the equations of the path
condition, by eliminating unknowns which occur with a unit as coefficient, and reducing by monic equations.  Every step is an
identity of commutative rings, so 'proved' is sound for any modulus; it is not complete.
"""
import math
import time
import z3
from .core import *

f_mul = z3.Function('mul', I, I, I)
f_mod = z3.Function('mod_', I, I, I)
f_div = z3.Function('div_', I, I, I)
f_gcd = z3.Function('gcd', I, I, I)
f_powm = z3.Function('powm', I, I, I, I)
MAXTERMS = 30000
DEBUG = False


def ring():
    return C().ghost.get('ring')


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ terms

def named(a):
    """long sums (integers read from bytes) get a name, so that products of them stay small"""
    if is_term(a) and a.decl().kind() == z3.Z3_OP_ADD and a.num_args() > 8:
        c = C()
        k = ('named', a.get_id())
        if k not in c.memo:
            key = ('sum', frozenset(Ring(c, None, time.process_time() + 5).conv1(a).items()))
            if key in c.memo:
                n = c.memo[key][0]
            else:
                n = c.fresh('sum', I)
                c.memo[key] = (n, a)
            c.memo[k] = (n, a)
            c.fact(n == a)
        return c.memo[k][0]
    return a


def mul(a, b):
    """the product of two terms which are not constants"""
    a, b = named(simp(a)), named(simp(b))
    if isinstance(a, int) or isinstance(b, int):
        return simp(zint(a) * zint(b))
    if a.get_id() > b.get_id():
        a, b = b, a
    t = f_mul(a, b)
    c = C()
    k = ('mul', t.get_id())
    if k not in c.memo:
        c.memo[k] = t
        c.fact(And(Implies(a == 0, t == 0), Implies(b == 0, t == 0), Implies(a == 1, t == b), Implies(b == 1, t == a),
                   Implies(And(a > 0, b > 0), And(t > 0, t >= a, t >= b))))
    return t


def same_mod(t, p):
    """t without a remainder by the same modulus around it"""
    if z3.is_app(t) and t.decl().eq(f_mod) and t.arg(1).eq(p):
        return t.arg(0)
    return t


def big(p):
    """a constant modulus which z3 need not know about"""
    return isinstance(p, int) and p > 2 ** 64 and p & (p - 1)


def canonical(a, p):
    """the first term of the same polynomial modulo p"""
    c = C()
    ring_ = c.memo.get(('ring', p.get_id()))
    if ring_ is None:
        ring_ = c.memo[('ring', p.get_id())] = Ring(c, p.as_long() if z3.is_int_value(p) else p, None)
    ring_.deadline = time.process_time() + 5
    try:
        q = ring_.conv(a)
    except TooBig:
        return a
    if len(q) > 2000:
        return a
    k = ('modc', p.get_id(), frozenset(q.items()))
    return c.memo.setdefault(k, a)


def mod(a, p):
    """a % p for a term p > 0"""
    a = named(simp(a))
    if isinstance(a, int) and isinstance(p, int):
        return a % p
    a, p = zint(a), zint(p)
    if z3.is_app(a) and a.decl().eq(f_mod) and a.arg(1).eq(p):
        return a
    c = C()
    if c.valid(And(a >= 0, a < p)):
        return simp(a)
    b = canonical(a, p)
    t = b if z3.is_app(b) and b.decl().eq(f_mod) and b.arg(1).eq(p) else f_mod(b, p)
    k = ('mod', t.get_id(), a.get_id())
    if k not in c.memo:
        c.memo[k] = (t, a)
        c.fact(And(t >= 0, t < p, Implies(And(a >= 0, a < p), t == a), Implies(And(a >= p, a < 2 * p), t == a - p),
                   Implies(And(a < 0, a >= -p), t == a + p)))
    return t


def same_residue(x, y):
    """a % p == b % p exactly when (a - b) % p == 0"""
    if not (z3.is_expr(x) and z3.is_expr(y)) or x.eq(y):
        return

    def mo(t):
        return t if z3.is_app(t) and t.decl().eq(f_mod) else None
    m = mo(x) if mo(x) is not None else mo(y)
    if m is None or z3.is_int_value(x) or z3.is_int_value(y):
        return
    c = C()
    p = m.arg(1)
    k = ('same_residue', x.get_id(), y.get_id())
    if k in c.memo:
        return
    c.memo[k] = (x, y)
    ops = []
    for t in (x, y):
        if mo(t) is not None:
            if not t.arg(1).eq(p):
                return
            ops.append(t.arg(0))
        elif c.valid(And(t >= 0, t < p)):
            ops.append(t)
        else:
            return
    d = mod(ops[0] - ops[1], p)
    f = (x == y) == (zint(d) == 0)
    c.fact(f)
    redundant(c, f)


def div(a, p):
    a = zint(simp(a))
    t = f_div(a, p)
    c = C()
    k = ('div', t.get_id())
    if k not in c.memo:
        c.memo[k] = t
        c.fact(And(Implies(a >= 0, t >= 0), Implies(And(a >= 0, a < p), t == 0), Implies(a < 0, t < 0), Implies(a >= 0, t <= a)))
    return t


def redundant(ctx, f):
    """this fact was derived by algebra: of no use to it"""
    st = [zbool(f)]
    while st:
        g = st.pop()
        if z3.is_and(g):
            st.extend(g.children())
        ctx.memo[('derived', g.get_id())] = g


def is_prime(p):
    """has the theorem declared this modulus prime?"""
    p = zint(p)
    return any(q.eq(p) for q in C().ghost.get('primes', []))


def gcd(a, b):
    """the greatest common divisor of a, b >= 0, with one step of Euclid and the law of primes"""
    a, b = zint(simp(a)), zint(simp(b))
    t = f_gcd(a, b)
    c = C()
    k = ('gcd', t.get_id())
    if k not in c.memo:
        c.memo[k] = t
        c.fact(And(t >= 0, Implies(a == 0, t == b)))
    k = ('gcd step', t.get_id())
    if k not in c.memo:
        if c.valid(a > 0):
            c.memo[k] = t
            m = zint(b % a if z3.is_int_value(a) else mod(b, a))
            c.fact(t == f_gcd(m, a))
    if is_prime(b):
        k = ('gcdp', t.get_id(), len(c.pc))
        f = And(a > 0, a < b)
        if k not in c.memo:
            c.memo[k] = t
            if c.valid(f):
                c.fact(t == 1)
            else:
                c.fact(Implies(f, t == 1))
    return t


# ------------------------------------------------------------------ polynomials: {monomial: coefficient}

ONE = ()


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 40 * MAXTERMS:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def ppow(a, n):
    r = {ONE: 1}
    for _ in range(n):
        r = pmul(r, a)
    return r


def const(c):
    return {ONE: c} if c else {}


def atoms_of(a):
    return {v for m in a for v, e in m}


def split(a, v):
    """coefficients of the powers of v"""
    r = {}
    for m, c in a.items():
        e = 0
        rest = m
        for w, k in m:
            if w == v:
                e = k
                rest = tuple(x for x in m if x[0] != v)
                break
        r.setdefault(e, {})[rest] = c
    return r


def residues(ctx):
    """t % m == v for the small m of the path condition, where it settles v"""
    out = []
    for f in ctx.pc:
        k = ('small', f.get_id())
        ts = ctx.memo.get(k)
        if ts is None:
            ts = []
            st = [f]
            seen = set()
            while st:
                t = st.pop()
                if t.get_id() in seen or not z3.is_app(t):
                    continue
                seen.add(t.get_id())
                if t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and 2 <= t.arg(1).as_long() <= 8:
                    ts.append(t)
                st.extend(t.children())
            ts = ctx.memo[k] = (f, ts)
        for t in ts[1]:
            for v in range(t.arg(1).as_long()):
                if ctx.valid(t == v):
                    out.append(t == v)
                    break
    return out


class Ring:
    def __init__(self, ctx, p, deadline):
        self.ctx = ctx
        self.p = p                      # None (integers), int or term
        self.terms = {}                 # atom id -> term
        self.memo = {}
        self.deadline = deadline

    def red(self, a):
        if isinstance(self.p, int):
            r = {}
            for m, c in a.items():
                c %= self.p
                if c:
                    r[m] = c
            return r
        return a

    def atom(self, t):
        i = t.get_id()
        self.terms[i] = t
        return {((i, 1),): 1}

    def is_p(self, t):
        if self.p is None:
            return False
        if isinstance(self.p, int):
            return z3.is_int_value(t) and t.as_long() == self.p
        return t.eq(self.p)

    def conv(self, t):
        i = t.get_id()
        if i not in self.memo:
            n = self.ctx.memo.get(('named', i))
            self.memo[i] = (self.atom(n[0]) if n is not None else self.red(self.conv1(t)), t)
        return self.memo[i][0]

    def conv1(self, t):
        if z3.is_int_value(t):
            return const(t.as_long())
        if not isinstance(self.p, int) and self.is_p(t):
            return {}
        d = t.decl()
        k = d.kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in t.children():
                r = padd(r, self.conv(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.conv(t.arg(0))
            for x in t.children()[1:]:
                r = padd(r, self.conv(x), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, self.conv(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = const(1)
            for x in t.children():
                r = pmul(r, self.conv(x))
            return r
        if d.eq(f_mul):
            return pmul(self.conv(t.arg(0)), self.conv(t.arg(1)))
        if k == z3.Z3_OP_MOD or d.eq(f_mod):
            a, m = t.arg(0), t.arg(1)
            if self.is_p(m):
                return self.conv(a)
            if z3.is_int_value(m):
                if m.as_long() <= 0:
                    return self.atom(t)
                q = a / m
            else:
                q = f_div(a, m)
            return padd(self.conv(a), pmul(self.conv(m), self.atom(q)), -1)
        if k == z3.Z3_OP_ITE:
            c = t.arg(0)
            if self.ctx.valid(c):
                return self.conv(t.arg(1))
            if self.ctx.valid(z3.Not(c)):
                return self.conv(t.arg(2))
            return self.atom(t)
        return self.atom(t)

    def hypotheses(self):
        out = []
        for k, v in self.ctx.memo.items():
            if k[0] == 'named':
                h = self.red(padd(self.atom(v[0]), self.conv1(v[1]), -1))
                if h:
                    out.append(h)
        st = list(self.ctx.pc) + residues(self.ctx)
        seen = set()
        while st:
            f = st.pop()
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if z3.is_and(f):
                st.extend(f.children())
            elif z3.is_eq(f) and z3.is_int(f.arg(0)) and ('derived', f.get_id()) not in self.ctx.memo:
                try:
                    h = self.red(padd(self.conv(f.arg(0)), self.conv(f.arg(1)), -1))
                except TooBig:
                    continue
                if h:
                    out.append(h)
        return out

    # ---------------------------------------------------------------- units
    def cunit(self, c):
        if isinstance(self.p, int):
            return math.gcd(c, self.p) == 1
        if c in (1, -1):
            return True
        if self.p is not None and is_prime(self.p):
            # a constant all of whose prime factors are 2 or 3 is a unit modulo a prime above 3
            if not self.ctx.valid(self.p > 3):
                return False
            c = abs(c)
            while c and c % 2 == 0:
                c //= 2
            while c and c % 3 == 0:
                c //= 3
            return c == 1
        return False

    def norm(self, a):
        """a canonical representative up to a constant sign"""
        k = min(a) if a else None
        if isinstance(self.p, int) and a:
            try:
                inv = pow(a[k], -1, self.p)
            except ValueError:
                return a
            return {m: c * inv % self.p for m, c in a.items()}
        if a and a[k] < 0:
            a = {m: -c for m, c in a.items()}
        return a

    def pkey(self, a):
        return frozenset(self.norm(a).items())

    def subst(self, g, v, c, r):
        """g with v := r / c, multiplied by a power of c"""
        s = split(g, v)
        n = max(s)
        if n == 0:
            return g
        out = {}
        cp = [const(1)]
        rp = [const(1)]
        for _ in range(n):
            cp.append(self.red(pmul(cp[-1], c)))
            rp.append(self.red(pmul(rp[-1], r)))
        for e, q in s.items():
            out = padd(out, pmul(self.red(pmul(q, rp[e])), cp[n - e]))
        return self.red(out)

    def reduce_monic(self, g, h, v, k, c):
        """the remainder of g by h, of degree k in v with the constant unit c in front"""
        lead = split(h, v)
        rest = padd(h, {((v, k),): c}, -1)      # h = c v^k + rest
        if isinstance(self.p, int):
            inv = pow(c, -1, self.p)
        elif c in (1, -1):
            inv = c
        else:
            return g
        tail = self.red({m: -x * inv for m, x in rest.items()})     # v^k == tail
        while True:
            s = split(g, v)
            n = max(s) if s else 0
            if n < k:
                return g
            if time.process_time() > self.deadline:
                raise TooBig()
            top = s[n]
            shift = {((v, n - k),): 1} if n > k else const(1)
            lower = padd(g, pmul(top, {((v, n),): 1}), -1)
            g = self.red(padd(lower, pmul(pmul(top, shift), tail)))

    def find_units(self, hyps, units):
        """from i*d + u == 0 with a unit constant u: i and d are units"""
        for h in hyps:
            c = h.get(ONE, 0)
            if c and self.cunit(c) and len(h) > 1:
                rest = [m for m in h if m != ONE]
                common = set(v for v, e in rest[0])
                for m in rest[1:]:
                    common &= set(v for v, e in m)
                for v in common:
                    d = {}
                    for m in rest:
                        q = tuple((w, e - 1) if w == v else (w, e) for w, e in m)
                        d[tuple(x for x in q if x[1])] = h[m]
                    units[self.pkey(d)] = d
                    units[self.pkey({((v, 1),): 1})] = {((v, 1),): 1}

    def zero(self, goal, hyps):
        """is the goal in the ideal of the hypotheses?"""
        return self.zero_(goal, hyps, 0) or (self.p is not None and self.zero_(goal, hyps, 1))

    def zero_(self, goal, hyps, strategy):
        if not goal:
            return True
        # only what is connected to the goal
        seen = atoms_of(goal)
        rel = []
        pool = list(hyps)
        grow = True
        while grow:
            grow = False
            for h in list(pool):
                if not atoms_of(h) or atoms_of(h) & seen:
                    rel.append(h)
                    seen |= atoms_of(h)
                    pool.remove(h)
                    grow = True
        hyps = rel
        units = {}
        rounds = 0
        while True:
            rounds += 1
            if time.process_time() > self.deadline or rounds > 400:
                raise TooBig()
            hyps = [h for h in hyps if h]
            for h in hyps:
                if len(h) == 1 and ONE in h and self.cunit(h[ONE]):
                    return True                     # the path is impossible
            if not goal:
                return True
            self.find_units(hyps, units)
            best = None
            for hi, h in enumerate(hyps):
                deg = {}
                for m in h:
                    for v, e in m:
                        deg[v] = max(deg.get(v, 0), e)
                for v, e in deg.items():
                    if e != 1:
                        continue
                    s = split(h, v)
                    c = s[1]
                    if len(c) == 1 and ONE in c:
                        if not self.cunit(c[ONE]):
                            continue
                        kind = 0
                    elif self.pkey(c) in units:
                        kind = 1
                    else:
                        continue
                    size = len(h) * (1 + sum(1 for g in hyps + [goal] if any(v == w for m in g for w, _ in m)))
                    cost = (kind if strategy == 0 else 1 - kind, size)
                    if best is None or cost < best[0]:
                        best = (cost, hi, v, c, {m: -x for m, x in s.get(0, {}).items()})
            if best is None:
                break
            _, hi, v, c, r = best
            hyps.pop(hi)
            goal = self.subst(goal, v, c, r)
            hyps = [self.subst(h, v, c, r) for h in hyps]
            nu = {}
            for d in units.values():
                d = self.subst(d, v, c, r)
                if d:
                    nu[self.pkey(d)] = d
            units = nu
            # the factors which the substitution put in front are units: take them out of sight where they show as a whole
        # monic reductions
        rules = []
        for h in hyps:
            cand = []
            for m, c in h.items():
                if len(m) == 1 and self.cunit(c):
                    v, k = m[0]
                    if max(split(h, v)) == k and k in split(h, v) and split(h, v)[k] == {ONE: c}:
                        cand.append((k, v, c))
            if cand:
                k, v, c = min(cand)
                rules.append((h, v, k, c))
        for _ in range(6):
            old = goal
            for h, v, k, c in rules:
                goal = self.reduce_monic(goal, h, v, k, c)
                if not goal:
                    return True
            if goal == old:
                break
        r = self.divide(goal, hyps)
        if DEBUG and not r:
            print('STUCK mod', self.p, 'goal', len(goal), {self.name(m): c for m, c in list(goal.items())[:12]})
            for h in hyps:
                print('   hyp', {self.name(m): c for m, c in list(h.items())[:12]})
            print('   units', [{self.name(m): c for m, c in list(h.items())[:12]} for h in units.values()])
        return r

    def name(self, m):
        return '*'.join(str(self.terms[v]).replace('\n', '')[:40] + ('^%d' % e if e > 1 else '') for v, e in m)

    def reduce_by(self, g, h, m):
        """g with the terms which the leading term m of h divides replaced, where the coefficient is divisible too"""
        d, c = dict(m), h[m]
        if not d:
            return g
        for _ in range(40):
            for t, k in g.items():
                e = dict(t)
                if all(e.get(v, 0) >= x for v, x in d.items()):
                    if k % c == 0:
                        f = k // c
                    elif isinstance(self.p, int) and math.gcd(c, self.p) == 1:
                        f = k * pow(c, -1, self.p)
                    else:
                        continue
                    q = tuple(sorted((v, x - d.get(v, 0)) for v, x in e.items() if x - d.get(v, 0)))
                    r = self.red(padd(g, pmul(h, {q: f}), -1))
                    if len(r) > len(g) + 2:
                        continue
                    break
            else:
                return g
            g = r
            if not g or time.process_time() > self.deadline:
                return g
        return g

    def divide(self, goal, hyps):
        """multivariate division by the hypotheses whose leading coefficient is a unit"""
        def lead(h):
            return max(h, key=lambda m: (sum(e for _, e in m), m))
        # the hypotheses reduced by one another first (one sweep each way)
        hyps = [h for h in hyps if h]
        for order in (1, -1):
            for i in range(len(hyps))[::order]:
                for j in range(len(hyps)):
                    if i != j and hyps[i] and hyps[j]:
                        hyps[i] = self.reduce_by(hyps[i], hyps[j], lead(hyps[j]))
        rules = []
        for h in hyps:
            if h:
                m = lead(h)
                if m == ONE and self.cunit(h[m]):
                    return True             # the path is impossible
                if m != ONE and self.cunit(h[m]):
                    rules.append((dict(m), h[m], h))
        n = 0
        rest = False
        while goal:
            n += 1
            if n > 3000 or time.process_time() > self.deadline:
                raise TooBig()
            m = lead(goal)
            d = dict(m)
            for l, c, h in rules:
                if all(d.get(v, 0) >= e for v, e in l.items()):
                    q = tuple(sorted((v, e - l.get(v, 0)) for v, e in d.items() if e - l.get(v, 0)))
                    k = goal[m]
                    goal = self.red(padd(pmul(goal, const(c)), pmul(h, {q: k}), -1))
                    break
            else:
                return False                # a leading term nothing divides: not shown
        return True


# ------------------------------------------------------------------ formulas

def moduli(f):
    out = {}
    st = [f]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_MOD or t.decl().eq(f_mod) or t.decl().eq(f_powm):
                m = t.arg(2) if t.decl().eq(f_powm) else t.arg(1)
                if z3.is_int_value(m):
                    if m.as_long() > 1:
                        out[m.get_id()] = m.as_long()
                else:
                    out[m.get_id()] = m
            st.extend(t.children())
    return list(out.values())


def interesting(f):
    """does it mention products or remainders?"""
    st = [f]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_MOD or d.eq(f_mod) or d.eq(f_mul) or d.eq(f_div) or d.eq(f_powm) or d.name() in ('TX', 'TY'):
                return True
            st.extend(t.children())
    return False


def mod_arg(t, p):
    """t is a remainder by p: its operand"""
    if z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_MOD or t.decl().eq(f_mod)):
        m = t.arg(1)
        if (isinstance(p, int) and z3.is_int_value(m) and m.as_long() == p) or (not isinstance(p, int) and m.eq(p)):
            return t.arg(0)
    return None


def equal(ctx, a, b, secs=8.0):
    deadline = time.process_time() + secs
    f = a == b
    if f.get_id() in ctx.ghost.setdefault('alg_no', {}) and ctx.ghost['alg_no'][f.get_id()][1] == len(ctx.pc):
        return None
    try:
        r = equal_(ctx, a, b, deadline)
    except TooBig:
        r = None
    if not r:
        ctx.ghost['alg_no'][f.get_id()] = (f, len(ctx.pc))
    return r


def equal_(ctx, a, b, deadline):
    rg = Ring(ctx, None, deadline)
    try:
        if rg.zero(padd(rg.conv(a), rg.conv(b), -1), rg.hypotheses()):
            return 'polynomial identity'
    except TooBig:
        pass
    extra = list(ctx.ghost.get('moduli', []))
    cands = moduli(a == b) + extra
    done = []
    for p in cands:
        if any((isinstance(p, int) and p == q) or (not isinstance(p, int) and not isinstance(q, int) and p.eq(q)) for q in done):
            continue
        done.append(p)
        zp = zint(p)
        ok = True
        for t in (a, b):
            if mod_arg(t, p) is not None:
                continue
            if not ctx.valid(And(t >= 0, t < zp)):
                ok = False
                break
        if not ok:
            continue
        rg = Ring(ctx, p, deadline)
        try:
            if rg.zero(rg.red(padd(rg.conv(a), rg.conv(b), -1)), rg.hypotheses()):
                return 'polynomial identity mod p'
        except TooBig:
            continue
    # applications of one function to equal arguments
    if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED \
            and not a.decl().eq(f_mul) and not a.decl().eq(f_mod):
        if all(x.eq(y) or (z3.is_int(x) and equal(ctx, x, y)) for x, y in zip(a.children(), b.children())):
            return 'congruence'
    return None


def try_prove(ctx, f):
    if not ctx.ghost.get('ring'):
        return None
    f = zbool(f)
    if z3.is_and(f):
        why = None
        for g in f.children():
            w = try_prove(ctx, g)
            if not w:
                if ctx.check(z3.Not(g)) != z3.unsat:
                    return None
                w = 'z3'
            why = why if why and why != 'z3' else w
        return why
    if z3.is_eq(f) and z3.is_int(f.arg(0)):
        return equal(ctx, f.arg(0), f.arg(1))
    return None


def decide(ctx, cond):
    """True / False when algebra settles the condition, None when it does not"""
    if not ctx.ghost.get('ring') or not is_term(cond):
        return None
    neg = False
    f = cond
    while z3.is_not(f):
        f = f.arg(0)
        neg = not neg
    if not z3.is_eq(f) or not z3.is_int(f.arg(0)) or not interesting(f):
        return None
    if equal(ctx, f.arg(0), f.arg(1)):
        ctx.fact(f)
        redundant(ctx, f)
        return not neg
    return None
