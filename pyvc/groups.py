"""Multiples of a fixed point of a fixed curve, as points whose coordinates are functions of an index.

A theorem declares its curve with vc.group(curve); vc.multiple(curve, i) is the point i*G.  TX and TY are uninterpreted, so nothing is
known about them but what contracts and lemmas say.
"""
import z3
from .core import *
from .values import *
from . import algebra as ALG
from . import sorts as S

TX = z3.Function('TX', I, I)
TY = z3.Function('TY', I, I)


def install_group(it, curve):
    C().ghost['group'] = [curve]


def group():
    g = C().ghost.get('group')
    return g[0] if g else None


def modulus(it, curve):
    return iterm(it.getattr(it.getattr(curve, 'field'), 'p'))


def canonical(i):
    """indices which are the same polynomial are the same term"""
    i = simp(i)
    if isinstance(i, int):
        return i
    c = C()
    try:
        q = ALG.Ring(c, None, 0).conv(i)
    except ALG.TooBig:
        return i
    k = ('index', frozenset(q.items()))
    if k not in c.memo:
        c.memo[k] = i
    return c.memo[k]


def multiple(it, curve, i):
    i = canonical(i)
    c = C()
    p = modulus(it, curve)
    if isinstance(i, int) and i == 0:
        x = y = 0
    else:
        x, y = TX(zint(i)), TY(zint(i))
        if ('multiple', zint(i).get_id()) not in c.memo:
            c.memo[('multiple', zint(i).get_id())] = i
            c.fact(And(x >= 0, x < zint(p), y >= 0, y < zint(p), Implies(zint(i) == 0, And(x == 0, y == 0))))
    return it.call(it.getattr(curve, 'point'), [mkint(x), mkint(y)], {})


def index_of(it, v):
    """the index of a point which is visibly a multiple, or None"""
    g = group()
    if g is None or not isinstance(v, Obj) or set(v.attrs) != {'curve', 'x', 'y'} or v.attrs['curve'] is not g:
        return None
    x, y = v.attrs['x'], v.attrs['y']
    if not isinstance(x, Obj) or not isinstance(y, Obj) or set(x.attrs) != {'field', 'value'} or set(y.attrs) != {'field', 'value'}:
        return None
    f = g.attrs.get('field')
    if x.attrs['field'] is not f or y.attrs['field'] is not f:
        return None
    x, y = iterm(x.attrs['value']), iterm(y.attrs['value'])
    if isinstance(x, int) and isinstance(y, int):
        return 0 if x == 0 and y == 0 else None
    if is_term(x) and is_term(y) and x.decl().eq(TX) and y.decl().eq(TY) and x.arg(0).eq(y.arg(0)):
        return simp(x.arg(0))
    return None


def clone(v, memo):
    if not isinstance(v, Obj):
        return v
    if id(v) not in memo:
        n = memo[id(v)] = Obj(v.cls)
        n.attrs = {k: clone(x, memo) for k, x in v.attrs.items()}
    return memo[id(v)]


class Group(S.Sort):
    """the curve of the theorem; made by a function of the specification"""

    def __init__(self, f):
        self.f = f

    def make(self, it, name):
        v = clone(S.named(name + '?group', lambda: it.call(self.f, [name], {})), {})
        install_group(it, v)
        return v

    def match(self, it, v):
        return group() is v


class Multiple(S.Sort):
    """a multiple of the fixed point on it"""

    def make(self, it, name):
        i = S.Int().make(it, name + '.index')
        return multiple(it, group(), iterm(i))

    def match(self, it, v):
        return index_of(it, v) is not None


S.TABLE['Group'] = Group
S.TABLE['Multiple'] = Multiple


def install(it, ns):
    def v_group(it, a, k):
        install_group(it, a[0])

    def v_multiple(it, a, k):
        return multiple(it, a[0], iterm(a[1]))

    def v_index_of(it, a, k):
        i = index_of(it, a[0])
        return None if i is None else mkint(i)

    def v_verifying(it, a, k):
        return it.verifying is not None

    def v_slope(it, a, k):
        return mkint(z3.Function('slope', I, I, I)(zint(iterm(a[0])), zint(iterm(a[1]))))
    for n, f in (('slope', v_slope), ('group', v_group), ('multiple', v_multiple), ('multiple_index', v_index_of), ('verifying', v_verifying)):
        ns[n] = NativeFn('vc.' + n, f)
