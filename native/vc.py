"""The specification library, native side: the same theorems run on the real code with concrete
inputs (replay of a counterexample, or search)."""
import builtins as _b
import random

_bytes, _bytearray, _list = _b.bytes, _b.bytearray, _b.list
symbolic = False
muted = False
small = False                       # step theorems: does the code have the shape the induction is written for?
THEOREMS = []


class Discard(Exception):
    """an assumption does not hold for this input"""


class Failed(Exception):
    """a check does not hold"""


class Source:
    """inputs: given ones by name, otherwise drawn at random"""

    def __init__(self, given=None, seed=0, consts=()):
        self.given = given or {}
        self.rnd = random.Random(seed)
        self.used = {}
        self.consts = consts
        self.checks = 0
        self.warm = False           # two runs of the body in one process state: the second draws near the first
        self.pool = ()              # (after a run of another theorem) what that one drew

    def value(self, name, draw, nearby=True, fits=None):
        n, k = name, 1
        while n in self.used:
            k += 1
            n = '%s#%d' % (name, k)
        if n in self.given:
            v = dec(self.given[n])
        elif self.warm is True and k == 2 and self.rnd.random() < 0.6:
            v = near(self.rnd, self.used[name]) if nearby else self.used[name]
        else:
            v = draw(self.rnd)
            if self.pool and nearby and self.rnd.random() < 0.6:
                alike = [x for x in self.pool if type(x) is type(v) and (not isinstance(v, (_b.bytes, str)) or len(x) == len(v) or self.rnd.random() < 0.1)
                         and not (isinstance(v, _list) and {type(i) for i in x} != {type(i) for i in v})
                         and (fits is None or fits(x))]
                if alike:
                    v = near(self.rnd, self.rnd.choice(alike))
        self.used[n] = v
        return v


def near(r, v):
    """the value itself, or one which differs a little"""
    c = r.random()
    if isinstance(v, (_b.bool, _b.float)) or c < 0.45:
        return v
    if isinstance(v, _b.int):
        return r.choice((v + 1, v - 1, v ^ 1, v + 256, -v, v + 2 ** 32, v + 2 ** 64)) if c < 0.9 else v
    if isinstance(v, (_b.bytes, _b.bytearray)) and len(v):
        w = _b.bytearray(v)
        i = r.randrange(len(w))
        w[i] = r.getrandbits(8)
        return _b.bytes(w)
    if isinstance(v, str) and v:
        i = r.randrange(len(v))
        return v[:i] + chr((ord(v[i]) + 1) % 128) + v[i + 1:] if c < 0.8 else v.swapcase()
    if isinstance(v, _list) and v:
        w = _list(v)
        if c < 0.6 and len(w) > 1:
            r.shuffle(w)
        else:
            i = r.randrange(len(w))
            w[i] = near(r, w[i]) if isinstance(w[i], _b.bytes) else r.choice(w)
        return w
    return v


def enc(v):
    if isinstance(v, _b.bool) or v is None:
        return v
    if isinstance(v, _b.int):
        return {'int': str(v)} if abs(v) >= 2 ** 53 else v
    if isinstance(v, (_b.bytes, _b.bytearray)):
        return {'hex': _b.bytes(v).hex()}
    if isinstance(v, _b.float):
        return {'float': v.hex()}
    if isinstance(v, (_b.list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, str):
        return v.encode('utf-8', 'surrogatepass').decode('utf-8', 'replace')
    return {'repr': repr(v)}


def dec(v):
    if isinstance(v, dict):
        if 'int' in v:
            return _b.int(v['int'])
        if 'hex' in v:
            return _b.bytes.fromhex(v['hex'])
        if 'float' in v:
            return _b.float.fromhex(v['float'])
    if isinstance(v, _b.list):
        return [dec(x) for x in v]
    return v


src = Source()


def draw_int(lo, hi):
    def f(r):
        c = r.random()
        cands = []
        if small:
            a = lo if lo is not None else -4 if hi is None else hi - 8
            return r.randint(a, a + 8 if hi is None else min(hi, a + 8))
        if lo is not None and hi is not None and hi - lo < 40:
            return r.randint(lo, hi)
        if c < 0.25:
            for b in (lo, hi):
                if b is not None:
                    cands += [b, b + 1, b - 1, b + 2, b - 2]
        if c < 0.45 and src.consts:
            k = r.choice(src.consts)
            cands += [k, k + 1, k - 1, -k]
        if c < 0.7:
            e = r.choice((1, 2, 3, 4, 7, 8, 15, 16, 24, 31, 32, 33, 40, 47, 48, 52, 53, 54, 55, 56, 63, 64, 65, 127, 128, 160, 255, 256, 257))
            cands += [2 ** e, 2 ** e - 1, 2 ** e + 1, -2 ** e, -2 ** e - 1, -2 ** e + 1]
        cands = [x for x in cands if (lo is None or x >= lo) and (hi is None or x <= hi)]
        if cands:
            return r.choice(cands)
        if (lo is None or hi is None) and c > 0.85:
            # bytes of a few kinds, in runs
            v = 0
            for _ in range(r.randint(1, 9)):
                n = r.randint(1, 9)
                v = v << 8 * n | r.choice((0, 2 ** (8 * n) - 1, 1, 1 << 8 * n - 1, r.getrandbits(8 * n)))
            return lo + v if lo is not None else hi - v if hi is not None else v if r.random() < 0.6 else -v
        bits = r.choice((1, 3, 6, 8, 10, 16, 24, 32, 40, 50, 56, 60, 64, 100, 130, 256))
        if hi is not None and lo is not None:
            if r.random() < 0.5:
                return r.randint(lo, hi)
            return min(hi, lo + r.getrandbits(bits)) if r.random() < 0.7 else max(lo, hi - r.getrandbits(bits))
        v = r.getrandbits(bits)
        if lo is not None:
            return lo + v
        if hi is not None:
            return hi - v
        return v if r.random() < 0.6 else -v
    return f


def draw_len(r, n, lo, hi):
    if n is not None:
        return n
    top = hi if hi is not None else lo + 70000
    if small:
        return min(top, lo + r.randrange(10))
    c = r.random()
    if c < 0.6:
        k = lo + r.choice((0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 20, 21, 31, 32, 33, 34))
    elif c < 0.9:
        k = lo + r.randint(0, 80)
    elif c < 0.985:
        k = r.choice((252, 253, 254, 255, 256, 257, 300, 512))
    else:
        k = r.choice((65534, 65535, 65536, 65537))
    return max(lo, min(top, k))


def draw_bytes(n, lo, hi):
    def f(r):
        k = draw_len(r, n, lo, hi)
        c = r.random()
        if c < 0.45:
            return _b.bytes(r.getrandbits(8) for _ in range(k))
        if c < 0.55:
            return _b.bytes(r.choice(b'0123456789abcdefABCDEF') for _ in range(k))
        if c < 0.62:
            return _b.bytes([r.choice((0, 255, 1, 128, 127))]) * k
        if c < 0.8:
            return _b.bytes(r.choice((0, 0, 1, 0x7f, 0x80, 0xff, r.getrandbits(8))) for _ in range(k))
        if c < 0.9:
            z = r.randint(0, k)
            return b'\0' * z + _b.bytes(r.getrandbits(8) for _ in range(k - z))
        z = r.randint(0, k)
        return _b.bytes(r.getrandbits(8) for _ in range(k - z)) + r.choice((b'\0', b'\xff')) * z
    return f


def draw_text(n, lo, hi):
    def f(r):
        k = draw_len(r, n, lo, hi if hi is not None else lo + 400)
        c = r.random()
        if c < 0.06 and n is None and lo < 38 and (hi is None or hi > 70):
            # nearly the text of a hash
            k = r.choice((40, 64))
            t = ''.join(r.choice('0123456789abcdef') for _ in range(k + r.choice((0, 0, 0, -1, 1, -2, 2))))
            i = r.randrange(len(t))
            w = r.choice(('', ' ', '\t', '\n', '_', 'g', '-', '+', '0x', '0X', 'A', '\u0663', '\x1f'))
            j = r.choice((i, i, 0, 1, 2, len(t) - len(w)))
            t = t[:j] + w + t[j + r.choice((0, len(w), len(w))):]
            return r.choice(('', '', '0x', '0X', ' ', '0x0x')) + t + r.choice(('', '', '', ' ', '\n'))
        if c < 0.3:
            return ''.join(r.choice('0123456789abcdef') for _ in range(k))
        if c < 0.5:
            return ''.join(chr(r.randint(32, 126)) for _ in range(k))
        if c < 0.6:
            return ''.join(r.choice('0123456789.-+eE_ x') for _ in range(k))
        if c < 0.75:
            return ''.join(r.choice('ab\u00e9\u00df\u4e2d\U0001f600\0\x7f\x80\u0301') for _ in range(k))
        if c < 0.85:
            return ''.join(r.choice('123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz') for _ in range(k))
        return ''.join(chr(r.choice((r.randint(0, 127), r.randint(128, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0x10000, 0x10ffff))))
                       for _ in range(k))
    return f


def int(name, lo=None, hi=None, like=None, among=None):              # noqa: A001
    """like: values to draw more often; among: the only values to draw"""
    d = draw_int(lo, hi)
    if among is not None:
        d = lambda r: r.choice(among)                               # noqa: E731
    elif like is not None:
        plain = d
        d = lambda r: r.choice(like) if r.random() < 0.4 else plain(r)    # noqa: E731
    v = src.value(name, d, among is None)
    if (lo is not None and v < lo) or (hi is not None and v > hi):
        raise Discard()
    return v


def bool(name):                                                     # noqa: A001
    return src.value(name, lambda r: r.random() < 0.5)


def lenok(v, n, lo, hi):
    if (n is not None and len(v) != n) or len(v) < lo or (hi is not None and len(v) > hi):
        raise Discard()
    return v


def bytes(name, n=None, lo=0, hi=None, often=None):                 # noqa: A001
    """often: makes bytes of the kind to draw now and then, given the source of randomness"""
    plain = draw_bytes(n, lo, hi)
    d = plain if often is None else lambda r: often(r) if r.random() < 0.3 else plain(r)    # noqa: E731
    return lenok(_b.bytes(src.value(name, d)), n, lo, hi)


def bytearray(name, n=None, lo=0, hi=None):                         # noqa: A001
    return _bytearray(bytes(name, n, lo, hi))


def text(name, n=None, lo=0, hi=None, often=None):
    """often: makes a text of the kind to draw half of the time, given the source of randomness"""
    plain = draw_text(n, lo, hi)
    d = plain if often is None else lambda r: often(r) if r.random() < 0.5 else plain(r)    # noqa: E731
    return lenok(src.value(name, d), n, lo, hi)


def float(name):                                                    # noqa: A001
    def f(r):
        import struct
        c = r.random()
        if c < 0.3:
            return struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
        if c < 0.5:
            return struct.unpack('<f', struct.pack('<I', r.getrandbits(32)))[0]
        if c < 0.7:
            return r.choice((0.0, -0.0, 1.0, -1.0, 0.5, 1e300, 1e-300, 5e-324, 3.0))
        return r.uniform(-1e6, 1e6)
    return src.value(name, f)


def list(name, sort, n=None):                                       # noqa: A001
    def f(r):
        k = n if n is not None else r.choice((0, 1, 1, 2, 2, 3, 4, 5, 8) if small or r.random() < 0.98 else (252, 253, 254, 256, 300, 600, 1025, 2000))
        return [sort.draw()(r) for _ in range(k)]
    v = src.value(name, f, True, lambda v: all(sort.fits(x) for x in v))
    if (n is not None and len(v) != n) or not all(sort.fits(x) for x in v):
        raise Discard()
    return [sort.conv(x) for x in v]


def choice(name, options):
    options = _list(options)
    v = src.value(name, lambda r: r.randrange(len(options)), False)
    if not 0 <= v < len(options):
        raise Discard()
    return options[v]


def index(name, n):
    v = src.value(name, lambda r: r.randrange(n) if n > 0 else 0, False)
    if not 0 <= v < n:
        raise Discard()
    return v


def assume(c):
    if not c:
        raise Discard()


def check(c, label='check'):
    if muted:
        return
    src.checks += 1
    if not c:
        raise Failed(label)


def outcome(f, *a, **k):
    try:
        return (True, f(*a, **k))
    except (Discard, Failed):
        raise
    except SystemExit as e:
        return (False, e)
    except Exception as e:
        return (False, e)


def raises(f, *a, **k):
    return not outcome(f, *a, **k)[0]


def theorem(props, **opts):
    props = props if isinstance(props, tuple) else (props,)

    def deco(f):
        THEOREMS.append((props, f, opts))
        return f
    return deco


def contract(qn, **k):
    return lambda f: f


def lemma(name, fact):
    if not fact:
        raise Failed('lemma ' + name)


PRIMES = {}


def prime(p):
    if p not in PRIMES:
        PRIMES[p] = p > 1 and all(p % q for q in (2, 3, 5, 7, 11, 13) if q < p) and (p < 4 or all(strong(p, b) for b in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37) if b % p))
    if not PRIMES[p]:
        raise Discard()


def strong(p, b):
    d, s = p - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    x = pow(b, d, p)
    if x in (1, p - 1):
        return True
    for _ in range(s - 1):
        x = x * x % p
        if x == p - 1:
            return True
    return False


def ring():
    pass


def run_main(f, argv):
    """run a main function under the given arguments: (returned?, exception, what it printed)"""
    import contextlib
    import io
    import sys
    out = io.StringIO()
    old = sys.argv
    sys.argv = ['prog'] + _list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                f()
                ok, e = True, None
            except (Discard, Failed):
                raise
            except SystemExit as x:
                ok, e = False, x
            except Exception as x:
                ok, e = False, x
    finally:
        sys.argv = old
    return ok, e, out.getvalue()


def with_random(given, f, *a):
    """run f while the next random bytes of that length are the given ones"""
    import os
    import sys
    import Crypto.Random
    rest = [given]
    old = [(m, k, v) for m in [os, Crypto.Random] + [m for n, m in _list(sys.modules.items()) if n.startswith('neocore')]
           for k, v in _list(vars(m).items()) if v is os.urandom or v is Crypto.Random.get_random_bytes]

    def stub(real):
        def draw(n):
            return rest.pop() if rest and n == len(rest[0]) else real(n)
        return draw
    for m, k, v in old:
        setattr(m, k, stub(v))
    try:
        return f(*a)
    finally:
        for m, k, v in old:
            setattr(m, k, v)


def bound(text):
    pass


def same(a, b):
    return _same(a, b, {})


def _same(a, b, memo):
    import io
    if type(a) is not type(b):
        return False
    if id(a) in memo:
        return memo[id(a)] is b
    if isinstance(a, (_list, tuple)):
        memo[id(a)] = b
        return len(a) == len(b) and all(_same(x, y, memo) for x, y in zip(a, b))
    if isinstance(a, io.BytesIO):
        return a.getvalue() == b.getvalue() and a.tell() == b.tell()
    if isinstance(a, dict):
        return set(a) == set(b) and all(_same(a[x], b[x], memo) for x in a)
    if hasattr(a, '__dict__') and not isinstance(a, type) and not callable(a):
        memo[id(a)] = b
        if isinstance(a, __builtins_int) and not a.__index__() == b.__index__():
            return False
        return _same(vars(a), vars(b), memo)
    return a == b


__builtins_int = _b.int


def typename(v):
    return type(v).__name__


def isint(v):
    return type(v) is _b.int


def isnot(a, b):
    return a is not b


def get(qual):
    import importlib
    mod, _, path = qual.partition(':')
    v = importlib.import_module(mod)
    for p in path.split('.'):
        if isinstance(v, type) and p.startswith('__') and not p.endswith('__'):
            p = '_%s%s' % (v.__name__.lstrip('_'), p)
        v = getattr(v, p)
    return v


def call_with(qual, hyp, f, *args):
    """call a function while another one is replaced by its contract"""
    import inspect
    try:
        orig = get(qual)
        owner, _, name = qual.rpartition('.')
        owner = get(owner)
    except AttributeError:
        raise Discard()
    if name.startswith('__') and not name.endswith('__'):
        name = '_%s%s' % (owner.__name__.lstrip('_'), name)
    old = vars(owner).get(name)
    if old is None or not isinstance(owner, type):
        raise Discard()
    sig = inspect.signature(orig)

    def run(*b, **kw):
        v = sig.bind(*b, **kw)
        v.apply_defaults()
        if len(v.arguments) != len(inspect.signature(hyp).parameters):
            raise Discard()
        return hyp(*v.arguments.values())
    setattr(owner, name, staticmethod(run) if isinstance(old, staticmethod) else classmethod(run) if isinstance(old, classmethod) else run)
    try:
        return f(*args)
    finally:
        setattr(owner, name, old)


def attr(o, name):
    return getattr(o, name, None)


class Sort:
    def __init__(self, *a, **k):
        self.a, self.k = a, k

    def conv(self, v):
        return v

    def limits(self, *names):
        a = dict(zip(names, self.a))
        a.update(self.k)
        return [a.get(n) for n in names]


class Int(Sort):
    def fits(self, v):
        lo, hi = self.limits('lo', 'hi')
        return isinstance(v, _b.int) and (lo is None or v >= lo) and (hi is None or v <= hi)

    def draw(self):
        a = _list(self.a) + [None, None]
        return draw_int(self.k.get('lo', a[0]), self.k.get('hi', a[1]))


class Bytes(Sort):
    d = staticmethod(draw_bytes)

    def fits(self, v):
        n, lo, hi = self.limits('n', 'lo', 'hi')
        return (isinstance(v, str) == (self.d is draw_text) and hasattr(v, '__len__') and (n is None or len(v) == n)
                and len(v) >= (lo or 0) and (hi is None or len(v) <= hi))

    def draw(self):
        a = _list(self.a) + [None] * 3
        return self.d(self.k.get('n', a[0]), self.k.get('lo', a[1] or 0), self.k.get('hi', a[2]))


class Text(Bytes):
    d = staticmethod(draw_text)


class Bytearray(Bytes):
    def conv(self, v):
        return _bytearray(v)


Bool = Float = Const = Cls = Inst = OutStream = InStream = SubInt = OneOf = Tuple = ListOf = Any = Group = Multiple = Sort
