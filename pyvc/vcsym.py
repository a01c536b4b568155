"""The specification library, symbolic side (native side: /verif/native/vc.py)."""
import z3
from .core import *
from . import ropes as R
from .values import *
from . import sorts as S
from .interp import Contract


def uname(name):
    c = C()
    n, k = name, 1
    while n in c.names:
        k += 1
        n = '%s#%d' % (name, k)
    c.names.add(n)
    return n


def arg(a, k, i, n, d=None):
    if n in k:
        return k[n]
    return a[i] if len(a) > i else d


def lim(v):
    return None if v is None else iterm(v)


def v_int(it, a, k):
    return S.Int(lim(arg(a, k, 1, 'lo')), lim(arg(a, k, 2, 'hi'))).make(it, uname(a[0]))


def v_bool(it, a, k):
    return S.Bool().make(it, uname(a[0]))


def bytes_args(a, k):
    return lim(arg(a, k, 1, 'n')), lim(arg(a, k, 2, 'lo', 0)), lim(arg(a, k, 3, 'hi'))


def v_bytes(it, a, k):
    return S.Bytes(*bytes_args(a, k)).make(it, uname(a[0]))


def v_bytearray(it, a, k):
    return S.Bytearray(*bytes_args(a, k)).make(it, uname(a[0]))


def v_text(it, a, k):
    return S.Text(*bytes_args(a, k)).make(it, uname(a[0]))


def v_float(it, a, k):
    return S.Float().make(it, uname(a[0]))


def v_list(it, a, k):
    return S.ListOf(a[1], lim(arg(a, k, 2, 'n'))).make(it, uname(a[0]))


def v_choice(it, a, k):
    name = uname(a[0])
    opts = it.BI.to_list(it, a[1])
    j = C().choose(len(opts))
    C().inputs.append((name, 'choice', j))
    return opts[j]


def v_assume(it, a, k):
    f = it.truth_formula(a[0])
    if f is False:
        raise Abandon()
    C().assume(f)
    c = C()
    if isinstance(f, bool):
        return None
    if c.check() == z3.unsat:
        raise Abandon()


def v_check(it, a, k):
    label = arg(a, k, 1, 'label', 'check')
    c = C()
    if c.muted:
        return None
    f = it.truth_formula(a[0])
    c.checked_here += 1
    ok = c.oblige(f, label, '%s:%s' % (it.line or ('?', '?')))
    if not ok:
        raise Abandon()
    return None


def v_outcome(it, a, k):
    try:
        return (True, it.call(a[0], a[1:], k))
    except PyExc as e:
        return (False, e.val)


def v_raises(it, a, k):
    try:
        it.call(a[0], a[1:], k)
    except PyExc as e:
        return True
    return False


def v_sort(cls):
    def f(it, a, k):
        if cls is S.Inst:
            return S.Inst(a[0], dict(k))
        if cls is S.OneOf or cls is S.Tuple:
            return cls(*a)
        if cls is S.Const:
            return S.Const(a[0])
        if cls in (S.Int, S.SubInt):
            return cls(*[x if isinstance(x, str) else lim(x) for x in a], **{n: lim(x) for n, x in k.items()})
        if cls in (S.Bytes, S.Bytearray, S.Text):
            return cls(*[lim(x) for x in a], **{n: lim(x) for n, x in k.items()})
        return cls(*a, **k)
    return f


def v_theorem(it, a, k):
    props = a[0] if isinstance(a[0], tuple) else (a[0],)

    def deco(it2, b, kk):
        f = b[0]
        it.theorems.append((props, f, dict(k)))
        return f
    return NativeFn('theorem', deco)


def v_contract(it, a, k):
    qn = a[0]

    def deco(it2, b, kk):
        f = b[0]
        opts = {x[1:]: k[x] for x in k if x.startswith('_')}
        it.contracts[qn] = Contract(qn, f, {x: v for x, v in k.items() if not x.startswith('_')}, opts)
        return f
    return NativeFn('contract', deco)


def v_same(it, a, k):
    """structural equality of two values, without calling __eq__ of the code"""
    from . import contracts
    return mkbool(contracts.same(it, a[0], a[1], {}))


def v_typename(it, a, k):
    return clsname(typeof(a[0]))


def v_isint(it, a, k):
    return typeof(a[0]) is int


def v_get(it, a, k):
    """a (possibly private) attribute by its qualified name"""
    return it.get_qual(a[0])


def v_attr(it, a, k):
    v = it._getattr(a[0], a[1])
    from .interp import UNSET
    return None if v is UNSET else v


def v_index(it, a, k):
    """an arbitrary index below n"""
    n = iterm(a[1])
    c = C()
    v = S.Int(0, None).make(it, uname(a[0]))
    c.assume(zint(iterm(v)) < zint(n))
    if c.check() == z3.unsat:
        raise Abandon()
    if is_term(iterm(v)):
        c.indices.append(iterm(v))
    return v


def v_concrete(it, a, k):
    return None


def v_distinct_objects(it, a, k):
    return a[0] is not a[1]


def v_run_main(it, a, k):
    """run a main function under the given arguments: (returned?, exception, what it printed)"""
    c = C()
    sysm = it.load('sys')
    old = sysm.ns['argv']
    was = c.ghost.get('stdout')
    sysm.ns['argv'] = PyList(['prog'] + it.BI.to_list(it, a[1]))
    c.ghost['stdout'] = []
    try:
        try:
            it.call(a[0], [], {})
            ok, e = True, None
        except PyExc as x:
            ok, e = False, x.val
        out = c.ghost['stdout']
    finally:
        sysm.ns['argv'] = old
        if was is None:
            c.ghost.pop('stdout', None)
        else:
            c.ghost['stdout'] = was
    t = ''
    for x in out:
        t = it.BI.binop(it, 'Add', t, x)
    return (ok, e, t)


def v_lemma(it, a, k):
    """a trusted mathematical fact, listed in the evidence"""
    f = it.truth_formula(a[1])
    C().ex.stats.trusted['lemma: ' + a[0]] = 1
    C().fact(f)


def v_prime(it, a, k):
    """the modulus is prime: a trusted fact (for the numbers in the code) or an assumption of the theorem"""
    c = C()
    p = zint(iterm(a[0]))
    if is_term(iterm(a[0])):
        c.ghost.setdefault('moduli', []).append(iterm(a[0]))
    else:
        c.ex.stats.trusted['lemma: %d is prime' % iterm(a[0])] = 1
        c.ghost.setdefault('moduli', []).append(iterm(a[0]))
    c.ghost.setdefault('primes', []).append(p)
    if is_term(iterm(a[0])):
        c.fact(And(p >= 2, Implies(p > 2, p % 2 == 1), Implies(p > 3, p % 3 != 0)))


def v_ring(it, a, k):
    C().ghost['ring'] = True


def v_bound(it, a, k):
    """the theorem ranges over a bounded domain only: reported, and never counted as proved"""
    C().ex.stats.bounded['%s' % a[0]] = 1


def v_call_with(it, a, k):
    """call a function while another one is replaced by its contract (an executable specification of it, such as the hypothesis of an induction)"""
    qual, hyp, f = a[0], a[1], a[2]
    try:
        orig = it.get_qual(qual)
        owner, _, name = qual.rpartition('.')
        owner = it.get_qual(owner)
    except (KeyError, AttributeError) as e:
        raise Unsupported('no function %s' % qual)
    if not isinstance(orig, UserFunc) or not isinstance(owner, UserClass):
        raise Unsupported('%s is no plain function' % qual)
    if name.startswith('__') and not name.endswith('__'):
        name = '_%s%s' % (owner.name.lstrip('_'), name)
    old = owner.ns[name]

    def run(it2, b, kw):
        vars = it.bind_args(orig, list(b), kw)
        if len(vars) != len(hyp.node.args.args):
            raise Unsupported('the contract of %s takes other arguments' % qual)
        st = C().ex.stats
        st.steps[qual] = st.steps.get(qual, 0) + 1
        r = it.call(hyp, list(vars.values()), {})
        return Opaque('the result of %s' % qual) if r is None else r
    new = NativeFn('contract of %s' % qual, run)
    owner.ns[name] = StaticM(new) if isinstance(old, StaticM) else ClassM(new) if isinstance(old, ClassM) else new
    try:
        return it.call(f, list(a[3:]), {})
    finally:
        owner.ns[name] = old


def v_with_random(it, a, k):
    """run f while the next random bytes of that length are the given ones"""
    C().ghost['random'] = rope(a[0])
    try:
        return it.call(a[1], list(a[2:]), dict(k))
    finally:
        C().ghost.pop('random', None)


def module(it):
    ns = {'__name__': 'vc', 'symbolic': True}
    for n, f in (('int', v_int), ('bool', v_bool), ('bytes', v_bytes), ('bytearray', v_bytearray), ('text', v_text), ('float', v_float),
                 ('list', v_list), ('choice', v_choice), ('assume', v_assume), ('check', v_check), ('outcome', v_outcome),
                 ('raises', v_raises), ('theorem', v_theorem), ('contract', v_contract), ('same', v_same), ('typename', v_typename),
                 ('get', v_get), ('attr', v_attr), ('index', v_index), ('isint', v_isint), ('isnot', v_distinct_objects),
                 ('lemma', v_lemma), ('call_with', v_call_with), ('run_main', v_run_main), ('bound', v_bound), ('prime', v_prime), ('ring', v_ring),
                 ('with_random', v_with_random)):
        ns[n] = NativeFn('vc.' + n, f)
    from . import vcmath
    vcmath.install(it, ns)
    for n, c in S.TABLE.items():
        ns[n] = NativeFn('vc.' + n, v_sort(c))
    return ModuleV('vc', ns)
