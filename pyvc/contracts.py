"""Contracts: an executable specification of a function over stated sorts.

Checked: for every argument tuple in the sorts, the body and the specification have the same
outcome (value or class of exception) and leave the same heap behind.  Used: at a call whose
arguments are known to lie in the sorts, the specification is run in place of the body.
"""
import z3
from .core import *
from . import ropes as R
from .values import *


class _In:
    def __repr__(self):
        return 'INAPPLICABLE'


INAPPLICABLE = _In()


def apply(it, con, f, vars):
    if con.opts.get('internal') or it.no_contracts:
        return INAPPLICABLE
    names = list(con.sorts)
    if set(vars) != set(names):
        if len(vars) != len(names):
            return INAPPLICABLE
        vars = dict(zip(names, vars.values()))          # parameters may be called otherwise
    if con.opts.get('result') is not None and all(isinstance(v, int) for v in vars.values()):
        return INAPPLICABLE                             # nothing unknown: just run it
    for n in names:
        try:
            if not con.sorts[n].match(it, vars[n]):
                return INAPPLICABLE
        except Undecided:
            raise
    pre = con.opts.get('pre')
    if pre is not None:
        f = it.truth_formula(it.call(pre, [vars[n] for n in names], {}))
        if not (f is True or (f is not False and C().valid(f))):
            return INAPPLICABLE
    if con.opts.get('ring') and not C().ghost.get('ring'):
        return INAPPLICABLE
    if it.verifying == con.qualname:
        # a recursive call: by induction on the measure
        m = con.opts.get('decreases')
        if m is None:
            raise Unsupported('recursion in %s without a measure' % con.qualname)
        new = zint(iterm(it.call(m, [vars[n] for n in names], {})))
        if not C().oblige(And(new >= 0, new < zint(it.measure0)), '%s: the measure decreases' % con.qualname):
            raise Abandon()
    res = con.opts.get('result')
    if res is not None:
        from .vcsym import uname
        key = None
        if integers(con) and all(isinstance(vars[n], (int, SInt)) and typeof(vars[n]) is int for n in names):
            key = ('result', con.qualname) + tuple(zint(iterm(vars[n])).get_id() for n in names)
            if key in C().memo:
                return C().memo[key][0]
        r = make_result(it, res, uname(con.qualname.split(':')[-1] + ' result'))
        f = it.truth_formula(it.call(con.spec, [vars[n] for n in names] + [r], {}))
        if f is False:
            raise Abandon()
        C().fact(f)
        if key is not None:
            # verify() obliges the body to give one result for one argument
            C().memo[key] = (r, [zint(iterm(vars[n])) for n in names])
        return r
    return it.run_body(con.spec, [vars[n] for n in names], {})


def make_result(it, s, name):
    n0 = len(C().inputs)
    r = s.make(it, name)
    del C().inputs[n0:]
    return r


def verify(it, con):
    """a program for the explorer: body against specification"""
    f = it.get_qual(con.qualname)

    def program(ctx):
        it.reset()
        it.verifying = con.qualname
        if con.opts.get('ring'):
            ctx.ghost['ring'] = True
        try:
            args1 = {n: s.make(it, n) for n, s in con.sorts.items()}
            args2 = {n: s.make(it, n) for n, s in con.sorts.items()}
            pre = con.opts.get('pre')
            if pre is not None:
                ff = it.truth_formula(it.call(pre, list(args1.values()), {}))
                if ff is False:
                    raise Abandon()
                ctx.assume(ff)
            if ctx.check() == z3.unsat:
                raise Abandon()
            if con.opts.get('decreases') is not None:
                it.measure0 = iterm(it.call(con.opts['decreases'], list(args1.values()), {}))
            if con.opts.get('result') is not None:
                r1 = outcome(it, lambda: it.run_body(f, list(args1.values()), {}))
                ctx.checked_here += 1
                if not r1[0]:
                    ctx.oblige(False, '%s: raises %s' % (con.qualname, clsname(r1[1].cls)))
                    return
                frame(it, con)
                post = it.run_body(con.spec, list(args2.values()) + [r1[1]], {})
                ctx.oblige(it.truth_formula(post), '%s: the result' % con.qualname)
                if integers(con):
                    # apply() gives one result for one argument: so does the body (for smaller arguments by induction)
                    r2 = outcome(it, lambda: it.run_body(f, list(args2.values()), {}))
                    ctx.oblige(r2[0] and same(it, r1[1], r2[1], {}), '%s: the same result for the same integers' % con.qualname)
                return
            r1 = outcome(it, lambda: it.run_body(f, list(args1.values()), {}))
            frame(it, con)
            g1 = dict(ctx.ghost)
            r2 = outcome(it, lambda: it.run_body(con.spec, list(args2.values()), {}))
            ctx.checked_here += 1
            what = con.qualname
            if r1[0] != r2[0]:
                d1 = 'raises %s' % clsname(r1[1].cls) if not r1[0] else 'returns'
                d2 = 'raises %s' % clsname(r2[1].cls) if not r2[0] else 'returns'
                # the path may still be infeasible
                ctx.oblige(False, '%s: outcome (the code %s, the contract %s)' % (what, d1, d2))
                return
            if not r1[0]:
                if con.opts.get('anyexc'):
                    ok = True
                else:
                    ok = issub(r1[1].cls, r2[1].cls) or issub(r2[1].cls, r1[1].cls)
                if not ctx.oblige(ok, '%s: class of the exception' % what):
                    return
            else:
                if not ctx.oblige(same(it, r1[1], r2[1], {}, bool(con.opts.get('value'))), '%s: result' % what):
                    return
            memo = {}
            for n in args1:
                if not ctx.oblige(same(it, args1[n], args2[n], memo), '%s: state of %s afterwards' % (what, n)):
                    return
        finally:
            it.verifying = None
    return program


def integers(con):
    from .sorts import Int
    return all(type(s) is Int for s in con.sorts.values())


def frame(it, con):
    """the body leaves modules, classes and what they hold as they were: the specification that stands for it does"""
    d = it.dirt()
    if d:
        raise Unsupported('%s leaves a trace in %s' % (con.qualname, ', '.join(d[:4])))


def outcome(it, f):
    try:
        return (True, f())
    except PyExc as e:
        return (False, e.val)


def same(it, a, b, memo, byvalue=False):
    """formula: structural equality (objects attribute by attribute, aliasing respected)"""
    if a is b:
        return True
    if isinstance(a, (Poison,)) or isinstance(b, Poison):
        raise Unsupported('comparison of an undescribed value')
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('comparison of an unknown value')
    mutable = (Obj, PyList, ByteArray, Stream, PyDict, PySet)
    if isinstance(a, mutable) and isinstance(b, mutable) and not byvalue:
        if id(a) in memo or ('r', id(b)) in memo:
            return memo.get(id(a), (None,))[0] is b and memo.get(('r', id(b)), (None,))[0] is a
        memo[id(a)] = (b, a)
        memo[('r', id(b))] = (a, b)
    if typeof(a) is not typeof(b):
        return False
    if isinstance(a, tuple):
        if len(a) != len(b):
            return False
        return And(*[same(it, x, y, memo, byvalue) for x, y in zip(a, b)])
    if isinstance(a, ByteArray):
        return R.req(a.rope, b.rope)
    if isinstance(a, Stream):
        if a.closed != b.closed:
            return False
        return And(R.req(a.rope, b.rope), simp(zint(a.pos) == zint(b.pos)))
    if isinstance(a, PyList):
        if a.concrete() and b.concrete():
            if len(a.items) != len(b.items):
                return False
            return And(*[same(it, x, y, memo, byvalue) for x, y in zip(a.items, b.items)])
        return it.truth_formula(it.BI.list_eq(it, a, b))
    if isinstance(a, Obj):
        if set(a.attrs) != set(b.attrs):
            return False
        return And(*[same(it, a.attrs[n], b.attrs[n], memo, byvalue) for n in a.attrs])
    if isinstance(a, PyDict):
        if set(a.d) != set(b.d):
            return False
        return And(*[same(it, a.d[n][1], b.d[n][1], memo, byvalue) for n in a.d])
    if isinstance(a, PySet):
        return it.truth_formula(it.BI.plain_eq(it, a, b))
    if isinstance(a, (UserFunc, UserClass, type, NativeFn, ModuleV)):
        return False
    if isinstance(a, BoundMethod):
        return a.func is b.func and same(it, a.self_, b.self_, memo) is True
    if isinstance(a, (SFloat, float)):
        return simp(it.BI.float_term(a) == it.BI.float_term(b))
    if isinstance(a, SReal):
        return simp(a.t == b.t)
    if isinstance(a, SInt) or isinstance(b, SInt):
        return simp(zint(iterm(a)) == zint(iterm(b)))
    if isinstance(a, IterV):
        raise Unsupported('comparison of iterators')
    return it.truth_formula(it.BI.plain_eq(it, a, b))
