"""Symbolic byte strings and texts.

A rope is a tuple of chunks.  Elements are integers (bytes 0..255, or code points).
"""
import z3
from .core import (C, BS, I, B, FL, And, Or, Not, Implies, simp, lsimp, tk, zint, zbool, is_term, Undecided, Unsupported,
                   Abandon)

at = z3.Function('at', BS, I, I)
blen = z3.Function('blen', BS, I)
hexd = None


def fact(f):
    C().fact(f)


def ladd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return lsimp(zint(a) + zint(b))


def lsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return lsimp(zint(a) - zint(b))


def lmul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return lsimp(zint(a) * zint(b))


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return C().valid(zint(a) <= zint(b))


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return C().valid(zint(a) < zint(b))


def eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if is_term(a) and is_term(b) and a.get_id() == b.get_id():
        return True
    d = lsub(a, b)
    if isinstance(d, int):
        return d == 0
    return C().valid(zint(a) == zint(b))


TEXT_ATOMS = ('txt', 'dec_', 'ftext', 'normalize_', 'bs!')


def byte_atom(a):
    """does the atom stand for a byte string (as opposed to a text)?"""
    if a.decl().name().startswith(('rstrip_', 'lstrip_', 'strip_')):
        return byte_atom(a.arg(0))
    return not a.decl().name().startswith(TEXT_ATOMS)


def byte_rope(r):
    """is every element of the rope known to be a byte?"""
    for c in r:
        if isinstance(c, Lit):
            if any(e > 255 for e in c.elems):
                return False
        elif isinstance(c, (IntB, Hx, Num)):
            pass
        elif isinstance(c, Sub):
            if not c.ascii and not byte_atom(c.atom):
                return False
        elif isinstance(c, Fold):
            if not byte_rope(c.body):
                return False
        elif isinstance(c, (El, Rep)):
            if isinstance(c.t, int):
                if c.t > 255:
                    return False
            elif not C().valid(And(c.t >= 0, c.t <= 255)):
                return False
        elif type(c).__name__ == 'B58':
            pass
        else:
            return False
    return True


def atom_at(a, i):
    t = at(a, zint(i))
    c = C()
    c.fact(And(t >= 0, t <= (255 if byte_atom(a) else 0x10ffff)))
    if c.foralls:
        instantiate(c, c.foralls, [(a, zint(i))])
    return t


def at_terms(f, out, seen):
    """the terms at(atom, index) in a formula"""
    todo = [f]
    while todo:
        x = todo.pop()
        if not z3.is_app(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().get_id() == at.get_id():
            out.append((x.arg(0), x.arg(1)))
        todo.extend(x.children())


def instantiate(c, foralls, terms):
    for a, (lo, hi, var, sign, off, f) in [(q[0], q[1:]) for q in foralls]:
        for b, i in terms:
            if b.get_id() == a.get_id() or c.valid(b == a):
                # the index is off + sign * var
                j = zint(lsub(i, off)) if sign > 0 else zint(lsub(off, i))
                c.fact(Implies(And(j >= zint(lo), j < zint(hi)), z3.substitute(zbool(f), (var, j))))


def for_all(lo, hi, var, f):
    """f holds for every lo <= var < hi: instantiated at the elements of byte strings which the path looks at"""
    c = C()
    f = zbool(f)
    occ = []
    at_terms(f, occ, set())
    new = []
    for a, i in occ:
        if occurs(a, var) or not occurs(i, var):
            continue
        off = lsimp(z3.substitute(i, (var, z3.IntVal(0))))
        d = lsub(lsimp(z3.substitute(i, (var, z3.IntVal(1)))), off)
        if d not in (1, -1) or not eq(i, ladd(off, lmul(d, var))):
            continue
        new.append((a, lo, hi, var, d, off, f))
    if not new:
        return
    terms = []
    seen = set()
    for p in list(c.pc):
        if z3.is_expr(p):
            at_terms(p, terms, seen)
    terms = [(a, i) for a, i in terms if not occurs(i, var)]
    c.foralls.extend(new)
    instantiate(c, new, terms)


class Chunk:
    n = None            # length
    ascii = False       # every element < 128 (for text)
    isbyte = False

    def at(self, i):
        raise NotImplementedError

    def cut(self, a, n):
        """elements a .. a+n as a rope (0 <= a, a+n <= self.n hold)"""
        raise NotImplementedError

    def rev(self):
        raise NotImplementedError

    def subst(self, m):
        raise NotImplementedError


def zsub(t, m):
    if isinstance(m, list):
        return z3.substitute(t, *m)
    return z3.substitute(t, m)


def subst_t(t, m):
    if not is_term(t):
        return t
    return lsimp(zsub(t, m)) if z3.is_int(t) else zsub(t, m)


def norm_atom(a, m):
    """an element of a list of unknown length: its index in canonical form"""
    b = zsub(a, m)
    if b.get_id() == a.get_id() or not z3.is_app(b) or b.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return b
    args = [zint(lsimp(x)) if z3.is_int(x) else x for x in b.children()]
    return b if all(x.get_id() == y.get_id() for x, y in zip(args, b.children())) else b.decl()(*args)


class Lit(Chunk):
    def __init__(self, elems):
        self.elems = tuple(elems)
        self.n = len(self.elems)

    @property
    def ascii(self):
        return all(e < 128 for e in self.elems)

    def key(self):
        return ('lit', self.elems)

    def at(self, i):
        if isinstance(i, int):
            return self.elems[i]
        r = zint(self.elems[-1])
        for k in range(self.n - 2, -1, -1):
            r = z3.If(i == k, zint(self.elems[k]), r)
        return r

    def cut(self, a, n):
        if isinstance(a, int) and isinstance(n, int):
            return (Lit(self.elems[a:a + n]),)
        if len(set(self.elems)) == 1:
            return (Rep(self.elems[0], n),)
        return tuple(El(self.at(ladd(a, k))) for k in range(n)) if isinstance(n, int) else None

    def rev(self):
        return (Lit(self.elems[::-1]),)

    def subst(self, m):
        return (self,)


class El(Chunk):
    n = 1

    def __init__(self, t):
        self.t = t

    def key(self):
        return ('el', tk(self.t))

    def at(self, i):
        return self.t

    def cut(self, a, n):
        return (self,)

    def rev(self):
        return (self,)

    def subst(self, m):
        return mk((El(subst_t(self.t, m)),))


class Rep(Chunk):
    """n times the element t"""

    def __init__(self, t, n):
        self.t, self.n = t, n

    @property
    def ascii(self):
        return isinstance(self.t, int) and self.t < 128

    def key(self):
        return ('rep', tk(self.t), tk(self.n))

    def at(self, i):
        return self.t

    def cut(self, a, n):
        return (Rep(self.t, n),)

    def rev(self):
        return (self,)

    def subst(self, m):
        return (Rep(subst_t(self.t, m), subst_t(self.n, m)),)


class Sub(Chunk):
    """atom[off], atom[off+step], ... (n elements)"""

    def __init__(self, atom, off, n, step=1, ascii=False):
        self.atom, self.off, self.n, self.step, self.ascii = atom, off, n, step, ascii

    def key(self):
        return ('sub', tk(self.atom), tk(self.off), tk(self.n), self.step)

    def at(self, i):
        return atom_at(self.atom, ladd(self.off, lmul(i, self.step)))

    def cut(self, a, n):
        return (Sub(self.atom, ladd(self.off, lmul(a, self.step)), n, self.step, self.ascii),)

    def rev(self):
        return (Sub(self.atom, ladd(self.off, lmul(lsub(self.n, 1), self.step)), self.n, -self.step, self.ascii),)

    def subst(self, m):
        return (Sub(norm_atom(self.atom, m), subst_t(self.off, m), subst_t(self.n, m), self.step, self.ascii),)


class IntB(Chunk):
    """the n bytes of the integer v, 0 <= v < 256**n, least significant first if little"""

    def __init__(self, v, n, little):
        self.v, self.n, self.little = v, n, little

    def key(self):
        return ('intb', tk(self.v), tk(self.n), self.little)

    def at(self, i):
        if not isinstance(self.n, int) or not isinstance(i, int):
            j = i if self.little else lsub(lsub(self.n, 1), i)
            t = intat(zint(self.v), zint(self.n), zint(j))
            fact(And(t >= 0, t <= 255))
            if eq(ladd(j, 1), self.n) and not C().loopvars:
                from .builtins_ import pow2
                if not isinstance(j, int) or j >= 0:
                    # the most significant byte
                    fact(Implies(And(zint(j) >= 0, zint(self.v) >= 0), And((t == 0) == (zint(self.v) < zint(pow2(lmul(8, j)))),
                                                                                    (t >= 128) == (2 * zint(self.v) >= zint(pow2(lmul(8, self.n)))))))
            return t
        k = i if self.little else self.n - 1 - i
        t = (zint(self.v) / (256 ** k)) % 256
        if k == self.n - 1:
            t = zint(self.v) / (256 ** k)
        t = simp(t)
        if is_term(t):
            fact(And(t >= 0, t <= 255))
        return t

    def cut(self, a, n):
        if isinstance(self.n, int) and isinstance(a, int) and isinstance(n, int):
            lo = a if self.little else self.n - a - n
            v = simp((zint(self.v) / (256 ** lo)) % (256 ** n)) if lo + n < self.n else simp(zint(self.v) / (256 ** lo))
            return (IntB(v, n, self.little),)
        if isinstance(n, int) and n <= 64:
            return mk(tuple(El(self.at(ladd(a, k))) for k in range(n)))
        b = reify((self,))
        return (Sub(b, a, n),)

    def rev(self):
        return (IntB(self.v, self.n, not self.little),)

    def subst(self, m):
        return (IntB(subst_t(self.v, m), subst_t(self.n, m), self.little),)


intat = z3.Function('intat', I, I, I, I)


def hexdigit(d, upper=False):
    """ascii code of the hex digit d (a term 0..15)"""
    if isinstance(d, int):
        return ord(('0123456789ABCDEF' if upper else '0123456789abcdef')[d])
    return z3.If(d < 10, d + 48, d + (55 if upper else 87))


class Hx(Chunk):
    """the hex text of a byte rope"""
    ascii = True

    def __init__(self, rope, upper=False):
        self.rope, self.upper = rope, upper
        self.n = lmul(rlen(rope), 2)

    def key(self):
        return ('hx', self.upper, rkey(self.rope))

    def at(self, i):
        if not isinstance(i, int):
            raise Unsupported('symbolic index into hex text')
        b = rat(self.rope, i // 2)
        if isinstance(b, int):
            return hexdigit(b // 16 if i % 2 == 0 else b % 16, self.upper)
        return hexdigit(simp(b / 16) if i % 2 == 0 else simp(b % 16), self.upper)

    def cut(self, a, n):
        if isinstance(a, int) and a % 2 == 0 and (isinstance(n, int) and n % 2 == 0):
            return (Hx(rslice(self.rope, a // 2, n // 2), self.upper),)
        if isinstance(a, int) and isinstance(n, int) and n <= 512:
            return mk(tuple(El(self.at(a + k)) for k in range(n)))
        # even symbolic cuts
        ha = half(a)
        hn = half(n)
        if ha is not None and hn is not None:
            return (Hx(rslice(self.rope, ha, hn), self.upper),)
        if isinstance(n, int) and n <= 64 and isinstance(a, int):
            return mk(tuple(El(self.at(a + k)) for k in range(n)))
        b = reify((self,))
        return (Sub(b, a, n, 1, True),)

    def rev(self):
        if isinstance(self.n, int):
            return mk(tuple(El(self.at(self.n - 1 - k)) for k in range(self.n)))
        b = reify((self,))
        return Sub(b, 0, self.n, 1, True).rev()

    def subst(self, m):
        return (Hx(rsubst(self.rope, m), self.upper),)


def half(a):
    """a/2 if a is twice a term, syntactically or provably"""
    if isinstance(a, int):
        return a // 2 if a % 2 == 0 else None
    h = lsimp(zint(a) / 2)
    h2 = z3.simplify(zint(a) / 2, som=True)
    if C().valid(zint(a) % 2 == 0):
        # divide the coefficients where possible
        t = _halve(lsimp(a))
        return t if t is not None else h
    return None


def _halve(t):
    if isinstance(t, int):
        return t // 2 if t % 2 == 0 else None
    if z3.is_add(t):
        parts = [_halve(simp(c)) for c in t.children()]
        if any(p is None for p in parts):
            return None
        r = 0
        for p in parts:
            r = ladd(r, p)
        return r
    if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % 2 == 0:
        r = t.arg(0).as_long() // 2
        for c in t.children()[1:]:
            r = lmul(r, c)
        return r
    return None


class Num(Chunk):
    """the text of an integer; kind 'd' decimal, 'x' lower hex with 0x"""
    ascii = True

    def __init__(self, v, kind='d'):
        self.v, self.kind = v, kind
        f = numlen_d if kind == 'd' else numlen_x
        self.n = f(zint(v))
        fact(self.n >= (1 if kind == 'd' else 3))

    def key(self):
        return ('num', self.kind, tk(self.v))

    def at(self, i):
        return rat((Sub(reify((self,)), 0, self.n),), i)

    def cut(self, a, n):
        return (Sub(reify((self,)), a, n, 1, True),)

    def rev(self):
        return Sub(reify((self,)), 0, self.n, 1, True).rev()

    def subst(self, m):
        return (Num(subst_t(self.v, m), self.kind),)


numlen_d = z3.Function('numlen_d', I, I)
numlen_x = z3.Function('numlen_x', I, I)
fsum = {}


class Fold(Chunk):
    """body(lo) ++ body(lo+1) ++ ... ++ body(hi-1); body is a rope with a free variable"""

    def __init__(self, lo, hi, var, body, delta=()):
        self.lo, self.hi, self.var, self.body = lo, hi, var, body
        self.delta = delta          # facts which hold for every index in range
        L = rlen(body)
        self.L = L if isinstance(L, int) else (L if not occurs(L, var) else None)
        if self.L is not None:
            self.n = lmul(self.L, lsub(hi, lo))
        else:
            self.n = lsub(self.flen(hi), self.flen(lo))

    def flen(self, k):
        """total length of the first k bodies (from 0)"""
        f = self._fl()
        if isinstance(k, int) and k == 0:
            return 0
        t = f(zint(k))
        C().fact(f(z3.IntVal(0)) == 0)
        C().fact(z3.Implies(zint(k) >= 0, t >= 0))
        key = ('flens', f.name())
        known = C().memo.get(key, ())
        if not any(k is j or (is_term(j) and is_term(k) and j.eq(k)) or (isinstance(k, int) and k == j) for j in known):
            for j in known[-8:]:
                C().fact(Implies(And(zint(k) >= 0, zint(k) <= zint(j)), t <= f(zint(j))))
                C().fact(Implies(And(zint(j) >= 0, zint(j) <= zint(k)), f(zint(j)) <= t))
            C().memo[key] = known + (k,)
        return t

    def _fl(self):
        key = ('flen', z3.substitute(rlen(self.body), (self.var, z3.Int('$v'))).get_id())
        f = C().ex.memo_flen.get(key) if hasattr(C().ex, 'memo_flen') else None
        if f is None:
            if not hasattr(C().ex, 'memo_flen'):
                C().ex.memo_flen = {}
            keep = z3.substitute(rlen(self.body), (self.var, z3.Int('$v')))
            # free loop indices other than var make the sum depend on them; give up on those
            for lv in C().loopvars:
                if lv.get_id() != self.var.get_id() and occurs(keep, lv):
                    raise Unsupported('nested variable-length repetition')
            f = z3.Function('flen!%d' % len(C().ex.memo_flen), I, I)
            C().ex.memo_flen[key] = f
            C().ex.memo_flen[('keep', key)] = keep
        return f

    def body_at(self, k):
        """the k-th body (lo <= k < hi holds)"""
        m = (self.var, zint(k))
        for d in self.delta:
            C().fact(Implies(And(zint(k) >= zint(self.lo), zint(k) < zint(self.hi)), zsub(zbool(d), m)))
        b = rsubst(self.body, m)
        if self.L is None:
            f = self._fl()
            self.flen(k)
            self.flen(ladd(k, 1))
            C().fact(f(zint(k) + 1) == f(zint(k)) + zint(rlen(b)))
        return b

    def key(self):
        v = z3.Int('$v')
        return ('fold', tk(self.lo), tk(self.hi), rkey(rsubst(self.body, (self.var, v))))

    def at(self, i):
        if self.L is None:
            raise Unsupported('element of a variable-length repetition')
        if self.L == 1:
            return rat(self.body_at(ladd(self.lo, i)), 0)
        if isinstance(self.L, int):
            q = lsimp(zint(i) / self.L)
            r = lsimp(zint(i) % self.L)
            if isinstance(r, int):
                return rat(self.body_at(ladd(self.lo, q)), r)
            b = self.body_at(ladd(self.lo, q))
            e = [rat(b, j) for j in range(self.L)]
            t = zint(e[-1])
            for j in range(self.L - 2, -1, -1):
                t = z3.If(r == j, zint(e[j]), t)
            return t
        raise Unsupported('element of a repetition with symbolic body length')

    def off(self, k):
        """offset of body k in this chunk"""
        if self.L is not None:
            return lmul(self.L, lsub(k, self.lo))
        return lsub(self.flen(k), self.flen(self.lo))

    def split_at(self, a):
        """an index m with off(m) == a, or None"""
        cands = [self.lo, self.hi]
        if self.L is not None and isinstance(self.L, int) and self.L > 0:
            q = lsimp(zint(a) / self.L)
            cands.append(ladd(self.lo, q))
            h = _divide(lsimp(a), self.L)
            if h is not None:
                cands.append(ladd(self.lo, h))
        for v in C().loopvars:
            cands += [v, v + 1]
        for v in C().memo_indices():
            cands.append(v)
        for m in cands:
            if eq(self.off(m), a):
                return m
            if self.L is None:
                pass
        return None

    def cut(self, a, n):
        b = ladd(a, n)
        m1 = self.split_at(a)
        m2 = self.split_at(b)
        if m1 is not None and m2 is not None:
            return self.part(m1, m2)
        if m1 is not None:
            # unfold one body at m1
            if C().valid(And(zint(m1) < zint(self.hi))):
                bd = self.body_at(m1)
                bl = rlen(bd)
                if le(n, bl):
                    return rslice(bd, 0, n)
                rest = Fold(ladd(m1, 1), self.hi, self.var, self.body, self.delta)
                return rcat(bd, rslice((rest,), 0, lsub(n, bl)))
        if isinstance(self.L, int) and isinstance(n, int) and n <= 64:
            return mk(tuple(El(self.at(ladd(a, k))) for k in range(n)))
        if self.L == 1 and isinstance(a, int):
            return (Fold(ladd(self.lo, a), ladd(ladd(self.lo, a), n), self.var, self.body, self.delta),)
        if self.L == 1:
            return (Fold(ladd(self.lo, a), ladd(ladd(self.lo, a), n), self.var, self.body, self.delta),)
        # a cut inside a body whose index is known
        for m in [self.lo] + list(C().loopvars) + list(C().memo_indices()):
            if C().valid(And(zint(self.off(m)) <= zint(a), zint(m) >= zint(self.lo), zint(m) < zint(self.hi))):
                bd = self.body_at(m)
                o = lsub(a, self.off(m))
                bl = rlen(bd)
                if le(o, bl) and le(ladd(o, n), bl):
                    return rslice(bd, o, n)
                if le(o, bl):
                    first = rslice(bd, o, lsub(bl, o))
                    rest = Fold(ladd(m, 1), self.hi, self.var, self.body, self.delta)
                    return rcat(first, rslice((rest,), 0, lsub(n, lsub(bl, o))))
        raise Unsupported('cut of a repetition at an unknown boundary')

    def part(self, m1, m2):
        if eq(m1, m2):
            return ()
        return (Fold(m1, m2, self.var, self.body, self.delta),)

    def rev(self):
        if self.L is not None:
            v = C().fresh_index('rv')
            i = lsub(lsub(ladd(self.lo, self.hi), 1), v)
            body = self.body if self.L == 1 else rrev(self.body)
            return (Fold(self.lo, self.hi, v, rsubst(body, (self.var, zint(i))), tuple(zsub(zbool(d), (self.var, zint(i))) for d in self.delta)),)
        raise Unsupported('reverse of a repetition')

    def subst(self, m):
        return (Fold(subst_t(self.lo, m), subst_t(self.hi, m), self.var, rsubst(self.body, m),
                     tuple(zsub(zbool(d), m) for d in self.delta)),)


def _divide(t, L):
    if isinstance(t, int):
        return t // L if t % L == 0 else None
    if z3.is_add(t):
        r = 0
        for c in t.children():
            p = _divide(simp(c), L)
            if p is None:
                return None
            r = ladd(r, p)
        return r
    if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % L == 0:
        r = t.arg(0).as_long() // L
        for c in t.children()[1:]:
            r = lmul(r, c)
        return r
    return t if L == 1 else None


def occurs(t, v):
    if not is_term(t):
        return False
    seen = set()
    st = [t]
    vid = v.get_id()
    while st:
        x = st.pop()
        if x.get_id() == vid:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    return False


class B58(Chunk):
    """the base58 text of a byte rope (trusted: b58encode is injective and b58decode is its inverse)"""
    ascii = True

    def __init__(self, rope):
        self.rope = rope
        b = reify(rope)
        self.atom = b58txt(b)
        self.n = b58len(rope)
        if self.n is None:
            self.n = blen(self.atom)
            fact(self.n >= zint(rlen(rope)))
        else:
            fact(blen(self.atom) == self.n)

    def key(self):
        return ('b58', rkey(self.rope))

    def at(self, i):
        if isinstance(i, int) and i == 0:
            c = b58first(self.rope)
            if c is not None:
                return c
        t = atom_at(self.atom, i)
        fact(And(t >= 49, t <= 122))
        return t

    def cut(self, a, n):
        if isinstance(a, int) and a == 0 and isinstance(n, int) and n == 1:
            return mk((El(self.at(0)),))
        return (Sub(self.atom, a, n, 1, True),)

    def rev(self):
        return Sub(self.atom, 0, self.n, 1, True).rev()

    def subst(self, m):
        return (B58(rsubst(self.rope, m)),)


b58txt = z3.Function('b58txt', BS, BS)
B58A = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def _b58_range(rope):
    """least and greatest value of a rope of known length whose first elements are known"""
    L = rlen(rope)
    if not isinstance(L, int) or L == 0 or L > 200:
        return None
    pre = []
    for ch in rope:
        if isinstance(ch, Lit):
            pre += ch.elems
        else:
            for k in range(ch.n if isinstance(ch.n, int) else 0):
                e = simp(ch.at(k)) if ch.n <= 8 else None
                if isinstance(e, int):
                    pre.append(e)
                else:
                    v = C().const_of(e) if e is not None else None
                    if v is None:
                        break
                    pre.append(v)
            break
    if not pre or pre[0] == 0:
        return None
    lo = int.from_bytes(bytes(pre) + b'\0' * (L - len(pre)), 'big')
    hi = int.from_bytes(bytes(pre) + b'\xff' * (L - len(pre)), 'big')
    return lo, hi


def _b58i(v):
    s = ''
    while v:
        v, r = divmod(v, 58)
        s = chr(B58A[r]) + s
    return s


def b58len(rope):
    r = _b58_range(rope)
    if r is None:
        return None
    a, b = len(_b58i(r[0])), len(_b58i(r[1]))
    return a if a == b else None


def b58first(rope):
    r = _b58_range(rope)
    if r is None:
        return None
    a, b = _b58i(r[0]), _b58i(r[1])
    return ord(a[0]) if len(a) == len(b) and a[0] == b[0] else None


# ---------------------------------------------------------------- ropes

def rlen(r):
    n = 0
    for c in r:
        n = ladd(n, c.n)
    return n


def rkey(r):
    return tuple(c.key() for c in r)


def rsubst(r, m):
    if not isinstance(m, list):
        m = [m]
    out = ()
    for c in r:
        out += tuple(_subst_chunk(c, m))
    return mk(out)


def _subst_chunk(c, m):
    pairs = m
    return c.subst(pairs[0] if len(pairs) == 1 else pairs)


def mk(chunks):
    """normalise: merge neighbours, drop empties"""
    out = []
    for c in chunks:
        n = c.n
        if isinstance(n, int) and n <= 0:
            continue
        if isinstance(c, El):
            if isinstance(c.t, bool):
                c = Lit((int(c.t),))
            elif isinstance(c.t, int):
                c = Lit((c.t,))
            elif z3.is_int_value(c.t):
                c = Lit((c.t.as_long(),))
        elif isinstance(c, Rep) and isinstance(c.n, int) and isinstance(c.t, int):
            c = Lit((c.t,) * c.n)
        elif isinstance(c, IntB) and isinstance(c.v, int) and isinstance(c.n, int):
            c = Lit(c.v.to_bytes(c.n, 'little' if c.little else 'big'))
        elif isinstance(c, IntB) and c.n == 1 and isinstance(c.n, int):
            c = El(c.v)
        elif isinstance(c, Hx) and all(isinstance(x, Lit) for x in c.rope):
            s = bytes(e for x in c.rope for e in x.elems).hex()
            c = Lit((s.upper() if c.upper else s).encode())
        elif isinstance(c, Num) and isinstance(c.v, int):
            c = Lit((str(c.v) if c.kind == 'd' else hex(c.v)).encode())
        elif isinstance(c, Sub) and isinstance(c.n, int) and c.n == 1:
            c = El(c.at(0))
        elif isinstance(c, Fold):
            w = lsub(c.hi, c.lo)
            if isinstance(w, int) and w == 1:
                for d in c.body_at(c.lo):
                    out = list(mk(tuple(out) + (d,)))
                continue
            c = fold_intb(c)
            if isinstance(c, Fold) and len(c.body) == 1:
                x = c.body[0]
                if isinstance(x, Lit) and len(set(x.elems)) == 1:
                    c = Rep(x.elems[0], lmul(w, x.n))
                elif isinstance(x, El) and is_term(x.t) and not occurs(x.t, c.var):
                    c = Rep(x.t, w)
        if out:
            p = out[-1]
            if isinstance(p, Lit) and isinstance(c, Lit):
                out[-1] = Lit(p.elems + c.elems)
                continue
            if isinstance(p, Sub) and isinstance(c, Sub) and p.step == c.step and p.atom.get_id() == c.atom.get_id():
                d = lsub(c.off, ladd(p.off, lmul(p.n, p.step)))
                if isinstance(d, int) and d == 0:
                    out[-1] = Sub(p.atom, p.off, ladd(p.n, c.n), p.step, p.ascii)
                    continue
            if isinstance(p, Hx) and isinstance(c, Hx) and p.upper == c.upper:
                out[-1] = Hx(rcat(p.rope, c.rope), p.upper)
                continue
            if isinstance(p, Rep) and isinstance(c, Rep) and tk(p.t) == tk(c.t):
                out[-1] = Rep(p.t, ladd(p.n, c.n))
                continue
            if isinstance(p, Fold) and isinstance(c, Fold) and tk(p.hi) == tk(c.lo):
                v = z3.Int('$v')
                if rkey(rsubst(p.body, (p.var, v))) == rkey(rsubst(c.body, (c.var, v))):
                    out[-1] = Fold(p.lo, c.hi, p.var, p.body, p.delta + tuple(z3.substitute(zbool(d), (c.var, p.var)) for d in c.delta))
                    continue
        out.append(c)
    return tuple(out)


def fold_intb(c):
    """the bytes of an integer, listed one by one"""
    if len(c.body) == 1 and isinstance(c.body[0], El) and is_term(c.body[0].t) and c.body[0].t.decl().eq(intat) \
            and isinstance(c.lo, int) and c.lo == 0:
        v, n, i = c.body[0].t.children()
        if not occurs(v, c.var) and not occurs(n, c.var) and eq(n, c.hi):
            d = lsub(i, c.var)
            if isinstance(d, int) and d == 0:
                return IntB(simp(v), c.hi, True)
            e = lsub(ladd(i, c.var), lsub(c.hi, 1))
            if isinstance(e, int) and e == 0:
                return IntB(simp(v), c.hi, False)
    return c


def rcat(a, b):
    return mk(tuple(a) + tuple(b))


def lit(x):
    if isinstance(x, str):
        x = [ord(ch) for ch in x]
    return (Lit(x),) if len(x) else ()


def rat(r, i):
    """element i (0 <= i < len holds)"""
    pos = 0
    for c in r:
        end = ladd(pos, c.n)
        if len(r) == 1 or lt(i, end) or c is r[-1]:
            return simp(c.at(lsub(i, pos)))
        if not le(end, i):
            if C().branch(zint(i) < zint(end)):
                return simp(c.at(lsub(i, pos)))
        pos = end
    raise Unsupported('index outside a rope')


def rslice(r, a, n):
    """n elements from a on (0 <= a, a+n <= len hold)"""
    if isinstance(n, int) and n <= 0:
        return ()
    out = []
    skip, need = a, n
    for idx, c in enumerate(r):
        if isinstance(need, int) and need <= 0:
            break
        last = idx == len(r) - 1
        # skip
        if not (isinstance(skip, int) and skip == 0):
            if eq(skip, 0):
                skip = 0
            elif (not last) and (le(c.n, skip) or (not lt(skip, c.n) and not C().branch(zint(skip) < zint(c.n)))):
                skip = lsub(skip, c.n)
                continue
        avail = lsub(c.n, skip)
        # `need` more elements, `avail` in this chunk
        whole = False
        if last:
            take = need
            whole = eq(need, avail)
        elif eq(need, avail):
            take, whole = need, True
        elif le(avail, need):
            take, whole = avail, True
        elif le(need, avail):
            take = need
        elif C().branch(zint(need) <= zint(avail)):
            take = need
        else:
            take, whole = avail, True
        if whole and isinstance(skip, int) and skip == 0:
            out.append(c)
        elif isinstance(take, int) and take <= 0:
            pass
        elif not (isinstance(take, int)) and eq(take, 0):
            pass
        else:
            p = c.cut(skip, take)
            out.extend(p)
        need = lsub(need, take) if not (is_term(need) and is_term(take) and need.get_id() == take.get_id()) else 0
        skip = 0
        if not isinstance(need, int) and eq(need, 0):
            need = 0
    return mk(tuple(out))


def rrev(r):
    out = []
    for c in reversed(r):
        out.extend(c.rev())
    return mk(tuple(out))


def whole(c):
    return isinstance(c, Sub) and c.step == 1 and isinstance(c.off, int) and c.off == 0 and eq(c.n, blen(c.atom))


def chunk_eq(c, d):
    """formula: two chunks of provably equal length are equal"""
    if type(c) is type(d) and c.key() == d.key():
        return True
    n = c.n if isinstance(c.n, int) else d.n
    if isinstance(c, IntB) and isinstance(d, IntB) and c.little == d.little:
        return simp(zint(c.v) == zint(d.v))
    if isinstance(c, Hx) and isinstance(d, Hx) and c.upper == d.upper:
        return req(c.rope, d.rope)
    for p, q in ((c, d), (d, c)):
        if isinstance(p, Hx) and isinstance(q, Lit):
            try:
                s = bytes(q.elems).decode()
                v = bytes.fromhex(s) if len(s) % 2 == 0 and not any(ch.isspace() for ch in s) else None
            except ValueError:
                v = None
            if v is None or (v.hex().upper() if p.upper else v.hex()) != s:
                return False
            return req(p.rope, lit(v))
    if isinstance(c, B58) and isinstance(d, B58):
        return req(c.rope, d.rope)
    if isinstance(c, Sub) and isinstance(d, Sub) and c.atom.get_id() == d.atom.get_id() and c.step == d.step:
        if eq(c.off, d.off):
            return True
    if isinstance(c, Num) and isinstance(d, Num) and c.kind == d.kind:
        return simp(zint(c.v) == zint(d.v))
    if (not isinstance(n, int) or n >= 8) and whole(c) and whole(d) and byte_atom(c.atom) == byte_atom(d.atom):
        # two whole strings: equal as strings; extensionality is stated once
        x = C()
        f = c.atom == d.atom
        if not x.quick:
            k = ('ext', c.atom.get_id(), d.atom.get_id())
            if k not in x.memo:
                x.memo[k] = (c.atom, d.atom)
                if isinstance(n, int):
                    same = And(*[simp(zint(c.at(i)) == zint(d.at(i))) for i in range(n)])
                else:
                    same = And(zint(c.n) == zint(d.n), _forall(0, n, lambda i: zint(c.at(i)) == zint(d.at(i))))
                x.fact(z3.Implies(zbool(same), f))
        return simp(f)
    for p, q in ((c, d), (d, c)):
        # the bytes of an integer against explicit bytes of the same number
        if isinstance(p, IntB) and isinstance(n, int) and n <= 64 and not isinstance(q, (Fold,)):
            es = [q.at(k) for k in range(n)]
            if not p.little:
                es = es[::-1]
            return simp(zint(p.v) == z3.Sum([zint(e) * (256 ** k) for k, e in enumerate(es)]))
    if isinstance(c, Fold) and isinstance(d, Fold):
        if eq(c.lo, d.lo) and eq(c.hi, d.hi):
            return _forall(c.lo, c.hi, lambda k: req(c.body_at(k), d.body_at(k)))
    if isinstance(n, int) and n <= 600:
        return And(*[simp(zint(c.at(k)) == zint(d.at(k))) for k in range(n)])
    return _forall(0, n, lambda k: zint(c.at(k)) == zint(d.at(k)))


def _forall(lo, hi, f):
    """for all k in lo..hi: f(k)   (as a formula)"""
    c = C()
    k = c.fresh_index('q')
    from .core import Sub as SubRun
    rng = And(zint(lo) <= k, k < zint(hi))
    got = []

    def body():
        c.assume(rng)
        c.loopvars.append(k)
        try:
            c.nobranch += 1
            return f(k)
        finally:
            c.nobranch -= 1
            c.loopvars.pop()
    try:
        outs = SubRun(c).run(body)
    except Undecided:
        raise Unsupported('quantified equality needs a case split')
    if not outs:
        return True
    phi, delta = outs[0]
    phi = zbool(simp(phi) if not isinstance(phi, bool) else phi)
    if z3.is_true(phi):
        return True
    facts = [d for d in delta]
    # the facts in delta are definitional: usable as hypotheses of the goal
    return z3.ForAll([k], z3.Implies(z3.And(zbool(rng), *[zbool(d) for d in facts]), phi))


def req(a, b):
    """formula: two ropes are equal.  May branch on lengths."""
    if rkey(a) == rkey(b):
        return True
    la, lb = rlen(a), rlen(b)
    if not eq(la, lb):
        cond = simp(zint(la) == zint(lb))
        if cond is False:
            return False
        if not C().branch(cond):
            return False
    fs = []
    a, b = list(a), list(b)
    while a and b:
        c, d = a[0], b[0]
        if isinstance(c.n, int) is False and eq(c.n, 0):
            a.pop(0)
            continue
        if isinstance(d.n, int) is False and eq(d.n, 0):
            b.pop(0)
            continue
        if (len(a) == 1 and len(b) == 1) or eq(c.n, d.n):
            a.pop(0)
            b.pop(0)
        elif isinstance(c, Fold) and isinstance(d, Fold) and eq(c.lo, d.lo) and (lt(c.n, d.n) or le(c.n, d.n)):
            m = c.hi
            b[0:1] = list(d.part(m, d.hi))
            a.pop(0)
            d = Fold(d.lo, m, d.var, d.body, d.delta)
        elif isinstance(c, Fold) and isinstance(d, Fold) and eq(c.lo, d.lo) and le(d.n, c.n):
            m = d.hi
            a[0:1] = list(c.part(m, c.hi))
            b.pop(0)
            c = Fold(c.lo, m, c.var, c.body, c.delta)
        elif le(c.n, d.n):
            a.pop(0)
            rest = rslice((d,), c.n, lsub(d.n, c.n))
            first = rslice((d,), 0, c.n)
            b[0:1] = list(rest)
            f = req((c,), first) if len(first) != 1 else chunk_eq(c, first[0])
            if f is False:
                return False
            fs.append(f)
            continue
        elif le(d.n, c.n):
            b.pop(0)
            rest = rslice((c,), d.n, lsub(c.n, d.n))
            first = rslice((c,), 0, d.n)
            a[0:1] = list(rest)
            f = req(first, (d,)) if len(first) != 1 else chunk_eq(first[0], d)
            if f is False:
                return False
            fs.append(f)
            continue
        else:
            C().branch(zint(c.n) <= zint(d.n))
            continue
        f = chunk_eq(c, d)
        if f is False:
            return False
        fs.append(f)
    for rest in (a, b):
        for c in rest:
            if not eq(c.n, 0):
                return False
    return And(*fs)


def reify(r):
    """a BS term standing for the rope"""
    c = C()
    if len(r) == 1 and isinstance(r[0], Sub) and r[0].step == 1 and eq(r[0].off, 0) and eq(r[0].n, blen(r[0].atom)):
        return r[0].atom
    if len(r) == 1 and isinstance(r[0], B58):
        return r[0].atom
    key = rkey(r)
    tab = c.reify_tab
    b = tab.get(key)
    if b is None:
        b = instance(c, r, key)
        if b is not None:
            return b
        # equal to a rope seen before?
        n = rlen(r)
        if len(tab) < 60:
            for k2, (b2, r2) in list(c.reify_list.items()):
                n2 = rlen(r2)
                if isinstance(n, int) != isinstance(n2, int):
                    if model_denies(c, zint(n) == zint(n2)) or not c.valid(zint(n) == zint(n2)):
                        continue
                elif isinstance(n, int) and n != n2:
                    continue
                if not same_vars(r, r2):
                    continue
                try:
                    c.nobranch += 1
                    q0, c.quick = c.quick, True
                    try:
                        f = req(r, r2)
                    finally:
                        c.nobranch -= 1
                        c.quick = q0
                except (Undecided, Unsupported, Abandon):
                    continue
                if f is True or (is_term(f) and not model_denies(c, f) and c.valid(f)):
                    return b2
                if is_term(f) and isinstance(n, int):
                    c.pending_ext.append((f, b2, key))
        b = c.fresh_dep('bsb' if byte_rope(r) else 'bs', BS, [v for v in c.loopvars if rope_has(r, v)])
        tab[key] = b
        c.reify_list[key] = (b, r)
        for (f, b2, k2) in c.pending_ext:
            if k2 == key:
                c.fact(z3.Implies(zbool(f), b == b2))
        c.pending_ext = [x for x in c.pending_ext if x[2] != key]
    n = rlen(r)
    c.fact(blen(b) == zint(n))
    c.fact(blen(b) >= 0)
    return b


def same_names(c, f):
    """the names of byte strings in a formula: equal strings have equal names (asserted of every two which could be)"""
    table = {b.decl().get_id(): (b, r) for b, r in c.reify_list.values() if z3.is_app(b)}
    seen, users = set(), {}

    def named(todo):
        """the names in these formulas, with the functions each is handed to"""
        found = []
        todo = [(x, None) for x in todo]
        while todo:
            x, g = todo.pop()
            if not z3.is_app(x):
                continue
            base = g not in (None, ('blen', 1), ('at', 2)) and z3.is_const(x) and x.sort().eq(BS) and x.decl().get_id() not in table
            if base or x.decl().get_id() in table:
                users.setdefault(x.get_id(), set()).add(g)
            if (x.get_id(), base) in seen:
                continue
            seen.add((x.get_id(), base))
            if base:
                found.append((x, (Sub(x, 0, blen(x)),)))
            elif x.decl().get_id() in table:
                b, r = table[x.decl().get_id()]
                if b.num_args() == 1 and z3.is_const(b.arg(0)) and x.num_args() == 1:
                    r = rsubst(r, (b.arg(0), x.arg(0)))
                elif b.get_id() != x.get_id():
                    continue
                found.append((x, r))
            g = (x.decl().name(), x.num_args()) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            todo.extend((y, g) for y in x.children())
        return found

    found = named([zbool(f)])
    goals = len(found)
    if goals > 12:
        return False
    of_goal = set().union(*[users[x.get_id()] for x, _ in found]) - {None} if found else set()
    if not goals:
        # is what is known impossible? the names which are handed to the same function
        found = [(x, r) for x, r in named(list(c.pc)) if users[x.get_id()] - {None, ('blen', 1), ('at', 2)}][:12]
        goals = len(found)
    elif of_goal:
        # names in what is known, which are handed to a function a name in the goal is handed to
        found += [(x, r) for x, r in named(list(c.pc)) if users[x.get_id()] & of_goal][:12]
    got = False
    for i, (x, r) in enumerate(found):
        for y, q in found[:min(i, goals)]:
            if not (users[x.get_id()] & users[y.get_id()]) and y.sort().eq(BS) and i >= goals:
                continue
            try:
                c.nobranch += 1
                try:
                    g = req(r, q)
                finally:
                    c.nobranch -= 1
            except (Undecided, Unsupported, Abandon):
                continue
            if g is not False:
                c.fact(z3.Implies(zbool(g), x == y))
                got = True
    return got


def instance(c, r, key):
    """the name of the rope, when it is an instance of one which was named as a function of a loop index"""
    for b2, r2 in list(c.reify_list.values()):
        if b2.num_args() != 1 or len(r2) != len(r):
            continue
        v = b2.arg(0)
        if not z3.is_const(v) or v.decl().kind() != z3.Z3_OP_UNINTERPRETED or not rope_has(r2, v):
            continue
        for x, y in zip(rope_terms(r2), rope_terms(r)):
            t = solve(x, y, v)
            if t is not None:
                if rkey(rsubst(r2, (v, zint(t)))) == key:
                    return z3.substitute(b2, (v, zint(t)))
                break
    return None


def solve(x, y, v):
    """t such that x becomes y when v is replaced by t (a guess from the first place where v occurs)"""
    if not occurs(x, v):
        return None
    if z3.is_int(x) and z3.is_int(y):
        b = lsimp(z3.substitute(x, (v, z3.IntVal(0))))
        a = lsub(lsimp(z3.substitute(x, (v, z3.IntVal(1)))), b)
        if isinstance(a, int) and a != 0 and lsub(x, ladd(lmul(a, v), b)) == 0:
            from .fam import exact
            return exact(lsub(y, b), a)
    if not is_term(y) or x.num_args() != y.num_args() or x.decl().get_id() != y.decl().get_id():
        return None
    for p, q in zip(x.children(), y.children()):
        t = solve(p, q, v)
        if t is not None:
            return t
    return None


def model_denies(c, f):
    """the last model found makes f false: not worth asking"""
    m = c.sat_model
    return m is not None and z3.is_false(m.eval(zbool(f), model_completion=True))


def rope_terms(r):
    for c in r:
        if isinstance(c, (El, Rep, IntB, Num)):
            for n in ('t', 'v', 'n'):
                x = getattr(c, n, None)
                if is_term(x):
                    yield x
        elif isinstance(c, Sub):
            yield c.atom
            for x in (c.off, c.n):
                if is_term(x):
                    yield x
        elif isinstance(c, (Hx, B58)):
            yield from rope_terms(c.rope)
        elif isinstance(c, Fold):
            for x in (c.lo, c.hi):
                if is_term(x):
                    yield x
            yield from rope_terms(c.body)


def rope_has(r, v):
    return any(occurs(t, v) for t in rope_terms(r))


def same_vars(r, r2):
    # ropes of different loop indices are never identified
    for v in C().loopvars:
        if rope_has(r, v) != rope_has(r2, v):
            return False
    return True


def concrete(r):
    """the element tuple if every element is known"""
    if not r:
        return ()
    if len(r) == 1 and isinstance(r[0], Lit):
        return r[0].elems
    return None
