"""Path exploration, the solver interface and obligations.

A theorem (or the comparison of a function body with its contract) is a program
which is executed symbolically.  Paths are enumerated by re-execution: every
undecided branch is a decision, and the explorer re-runs the program once per
decision sequence.  Every `oblige` on every path is one proof obligation, given
to z3 (and again to cvc5 in the thorough tier).
"""
import time
import z3

z3.set_param('memory_max_size', 12000)

BS = z3.DeclareSort('BS')          # byte strings / texts
FL = z3.DeclareSort('FL')          # IEEE doubles
I = z3.IntSort()
B = z3.BoolSort()


class Unsupported(Exception):
    """The verifier cannot translate a construct."""


class Abandon(Exception):
    """The current path is infeasible (or was cut at a stated bound)."""


class BoundCut(Abandon):
    pass


class Undecided(Exception):
    """A branch is needed where branching is not allowed."""


class Timeout(Exception):
    pass


def is_term(x):
    return isinstance(x, z3.ExprRef)


def simp(t):
    if not is_term(t):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


def lsimp(t):
    """simplify an integer (length/offset) term to a canonical sum"""
    if not is_term(t):
        return t
    t = z3.simplify(t, som=True, sort_sums=True)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def tk(t):
    """a hashable key of an int, bool, string or term"""
    if is_term(t):
        return ('z', t.get_id())
    return t


def zint(t):
    if isinstance(t, bool):
        return z3.IntVal(1 if t else 0)
    return z3.IntVal(t) if isinstance(t, int) else t


def zbool(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


def And(*fs):
    fs = [f for f in fs if f is not True]
    if any(f is False for f in fs):
        return False
    if not fs:
        return True
    return fs[0] if len(fs) == 1 else z3.And(*[zbool(f) for f in fs])


def Or(*fs):
    fs = [f for f in fs if f is not False]
    if any(f is True for f in fs):
        return True
    if not fs:
        return False
    return fs[0] if len(fs) == 1 else z3.Or(*[zbool(f) for f in fs])


def Not(f):
    if isinstance(f, bool):
        return not f
    return z3.Not(f)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(zbool(a), zbool(b))


class Obligation:
    __slots__ = ('label', 'status', 'backend', 'time', 'where', 'model', 'goal', 'inputs', 'smt2')

    def __init__(self, label, status, backend, t, where=''):
        self.label, self.status, self.backend, self.time, self.where = label, status, backend, t, where
        self.model = None
        self.goal = None
        self.inputs = None
        self.smt2 = None


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.bounded = {}
        self.bodies = {}
        self.contracts_used = {}
        self.steps = {}
        self.trusted = {}
        self.abandoned = 0
        self.lemmas = {}


class Ctx:
    """One execution of a program along one decision prefix."""

    def __init__(self, explorer, prefix):
        self.ex = explorer
        self.prefix = list(prefix)
        self.trace = []             # decisions taken so far on this run
        self.pos = 0
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.branch_ms)
        self.pending = []
        self.counters = {}
        self.loopvars = []          # symbolic indices in scope
        self.nobranch = 0
        self.reify_tab = {}
        self.reify_list = {}
        self.pending_ext = []
        self.prov = {}
        self.indices = []
        self.foralls = []           # facts on every element in a range (ropes.for_all)
        self.named = {}
        self.memo = {}
        self.inputs = []            # (name, kind, data...) in order of creation
        self.names = set()
        self.ghost = {}
        self.sat_model = None
        self.quick = False
        self.checked_here = 0
        self.muted = False
        self.facts = set()
        self.fams = []              # families of objects (fam.py)

    # -- assertions -------------------------------------------------------
    def assume(self, f):
        f = simp(f)
        if f is True:
            return
        if f is False:
            raise Abandon()
        k = f.get_id()
        if k in self.facts:
            return
        self.facts.add(k)
        self.pc.append(f)
        self.solver.add(f)

    def fact(self, f):
        """an axiom instance (always true)"""
        self.assume(f)

    def check(self, extra=None, ms=None):
        st = self.ex.stats
        st.queries += 1
        self.ex.tick()
        t0 = time.time()
        if ms:
            self.solver.set('timeout', ms)
        limit = (ms or self.ex.branch_ms) / 1000
        try:
            if extra is None:
                r = self.patiently(limit)
            else:
                self.solver.push()
                try:
                    self.solver.add(zbool(extra))
                    r = self.patiently(limit)
                    if r == z3.sat:
                        self.sat_model = self.solver.model()
                finally:
                    self.solver.pop()
        finally:
            if ms:
                self.solver.set('timeout', self.ex.branch_ms)
            st.solver_time += time.time() - t0
        return r

    def patiently(self, limit):
        """the solver's time limit is one of the clock: when the machine was busy with other work, ask again"""
        for _ in range(4):
            t0, c0 = time.time(), time.process_time()
            r = self.solver.check()
            if r != z3.unknown or time.time() - t0 < 0.9 * limit or time.process_time() - c0 > 0.7 * limit:
                break
            self.ex.tick()
        return r

    def valid(self, f, ms=None):
        f = simp(f)
        if f is True or f is False:
            return f
        key = ('valid', f.get_id(), len(self.pc))
        m = self.memo.get(('yes', f.get_id())) or self.memo.get(key)
        if m is not None:
            return m[0]
        r = self.check(z3.Not(f), ms) == z3.unsat
        self.memo[('yes', f.get_id()) if r else key] = (r, f)       # what is valid stays valid
        return r

    def feasible(self, f):
        f = simp(f)
        if f is True or f is False:
            return f
        return self.check(f) != z3.unsat

    # -- decisions --------------------------------------------------------
    def branch(self, cond):
        if hasattr(cond, 't') and not is_term(cond):
            cond = cond.t
        cond = simp(cond)
        if cond is True or cond is False:
            return cond
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.assume(cond if d else z3.Not(cond))
            return d
        t = self.check(cond) != z3.unsat
        if t:
            f = self.check(z3.Not(cond)) != z3.unsat
        else:
            f = True
        if t and f and self.ghost.get('ring'):
            from . import algebra
            d = algebra.decide(self, cond)
            if d is not None:
                t, f = d, not d
        if t and f:
            if self.nobranch:
                raise Undecided()
            self.pending.append(self.trace + [False])
        d = t
        self.pos += 1
        self.trace.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """a nondeterministic choice among n alternatives"""
        for k in range(n - 1):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
            else:
                if self.nobranch:
                    raise Undecided()
                self.pending.append(self.trace + [False])
                d = True
            self.pos += 1
            self.trace.append(d)
            if d:
                return k
        return n - 1

    # -- fresh symbols ------------------------------------------------------
    def fresh(self, name, sort):
        """a symbol which is a function of the loop indices in scope"""
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        full = '%s!%d' % (name, n)
        if not self.loopvars:
            return z3.Const(full, sort)
        f = z3.Function(full, *([I] * len(self.loopvars) + [sort]))
        return f(*self.loopvars)

    def fresh_index(self, name):
        n = self.counters.get('ix:' + name, 0)
        self.counters['ix:' + name] = n + 1
        return z3.Int('%s?%d' % (name, n))

    def fresh_dep(self, name, sort, deps):
        """a symbol which is a function of those loop indices only"""
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        full = '%s!%d' % (name, n)
        if not deps:
            return z3.Const(full, sort)
        f = z3.Function(full, *([I] * len(deps) + [sort]))
        return f(*deps)

    def memo_indices(self):
        return self.indices[-6:]

    def const_of(self, t):
        """the constant which the path condition gives for t, or None"""
        if isinstance(t, int):
            return t
        i = t.get_id()
        st = list(self.pc)
        while st:
            f = st.pop()
            if z3.is_and(f):
                st.extend(f.children())
            elif z3.is_eq(f):
                a, b = f.arg(0), f.arg(1)
                if a.get_id() == i and z3.is_int_value(b):
                    return b.as_long()
                if b.get_id() == i and z3.is_int_value(a):
                    return a.as_long()
        return None

    # -- obligations --------------------------------------------------------
    def oblige(self, f, label, where=''):
        f = simp(f)
        ex = self.ex
        ex.stats.queries += 1
        t0 = time.time()
        if f is True:
            ex.record(Obligation(label, 'proved', 'simplify', time.time() - t0, where))
            return True
        if f is not False:
            from . import algebra
            r = algebra.try_prove(self, f)
            if r:
                ex.record(Obligation(label, 'proved', r, time.time() - t0, where))
                self.fact(f)            # it follows from the path condition, but z3 may not see it
                algebra.redundant(self, f)
                return True
        r = self.check(Not(f), ex.goal_ms)
        if r != z3.unsat and self.reify_list:
            from . import ropes
            if ropes.same_names(self, f):
                r = self.check(Not(f), ex.goal_ms)
        if r == z3.unsat:
            ob = Obligation(label, 'proved', 'z3', time.time() - t0, where)
            if ex.keep_smt2:
                s = z3.Solver()
                s.add(*self.pc)
                s.add(zbool(Not(f)))
                ob.smt2 = s.to_smt2()
            ex.record(ob)
            return True
        ob = Obligation(label, 'refuted' if r == z3.sat else 'unknown', 'z3', time.time() - t0, where)
        ob.goal = str(f)[:400]
        ob.inputs = list(self.inputs)
        if r == z3.sat:
            ob.model = self.sat_model
        ex.record(ob)
        return False


class Explorer:
    def __init__(self, branch_ms=2500, goal_ms=12000, deadline=None, max_paths=4000, stats=None, keep_smt2=False):
        self.branch_ms, self.goal_ms = branch_ms, goal_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = stats or Stats()
        self.obligations = []
        self.keep_smt2 = keep_smt2
        self.stop_at_failure = True

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Timeout('time limit for this obligation set')

    def record(self, ob):
        self.obligations.append(ob)

    def failed(self):
        return [o for o in self.obligations if o.status != 'proved']

    def run(self, program):
        """run program(ctx) over all its paths; returns the number of completed paths"""
        global cur
        todo = [[]]
        done = 0
        while todo:
            self.tick()
            prefix = todo.pop()
            ctx = Ctx(self, prefix)
            saved = cur
            cur = ctx
            try:
                program(ctx)
                done += 1
                if ctx.checked_here == 0:
                    pass
            except Abandon:
                self.stats.abandoned += 1
            finally:
                cur = saved
            self.stats.paths += 1
            if self.stats.paths > self.max_paths:
                raise Timeout('more than %d paths' % self.max_paths)
            todo.extend(ctx.pending)
            if self.stop_at_failure and self.failed():
                break
        return done


cur = None


def C():
    return cur


class Sub:
    """Nested exploration inside a path: run a closure over all its local paths,
    restoring the path condition afterwards.  The closure must work on cloned state."""

    def __init__(self, ctx):
        self.ctx = ctx

    def run(self, closure, max_paths=64):
        c = self.ctx
        outs = []
        todo = [[]]
        saved = (c.prefix, c.trace, c.pos, c.pending, c.pc, c.facts, c.nobranch, c.memo, c.foralls)
        n = 0
        try:
            while todo:
                c.ex.tick()
                c.prefix = todo.pop()
                c.trace, c.pos, c.pending = [], 0, []
                c.pc, c.facts = list(saved[4]), set(saved[5])
                c.nobranch = 0
                c.memo = dict(saved[7])
                c.foralls = list(saved[8])
                c.solver.push()
                try:
                    r = closure()
                    outs.append((r, c.pc[len(saved[4]):]))
                except Abandon as e:
                    if isinstance(e, BoundCut):
                        raise
                finally:
                    c.solver.pop()
                todo.extend(c.pending)
                n += 1
                if n > max_paths:
                    raise Unsupported('too many paths in a loop body')
        finally:
            (c.prefix, c.trace, c.pos, c.pending, c.pc, c.facts, c.nobranch, c.memo, c.foralls) = saved
        return outs
