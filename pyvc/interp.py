"""The symbolic interpreter of Python."""
import ast
import os
import operator
import z3
from .core import *
from . import core
from . import ropes as R
from .values import *
from . import values as V

REPO = os.environ.get('PYVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNROLL_BOUND = 3
REC_BOUND = 8
MAX_UNROLL = 4200


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Frame:
    __slots__ = ('vars', 'outer', 'module', 'func', 'globals_', 'nonlocals', 'cls', 'yields', 'exc', 'isclass')

    def __init__(self, module, outer=None, func=None, cls=None):
        self.vars = {}
        self.module = module
        self.outer = outer
        self.func = func
        self.globals_ = set()
        self.nonlocals = set()
        self.cls = cls
        self.yields = None
        self.exc = None
        self.isclass = False


_ast_cache = {}
UNSET = object()


def parse_file(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _ast_cache:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        _ast_cache[k] = ast.parse(src, path)
    return _ast_cache[k]


def has_yield(node):
    st = list(node.body) if isinstance(node, ast.FunctionDef) else [node.body]
    while st:
        x = st.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(x))
    return False


class Contract:
    def __init__(self, qualname, spec, sorts, opts):
        self.qualname, self.spec, self.sorts, self.opts = qualname, spec, sorts, opts


PYLIB = ('functools', 'itertools', 'contextlib', 'collections')


class Interp:
    def __init__(self, contracts=None, use_contracts=True, inline=()):
        self.modules = {}
        self.contracts = contracts or {}
        self.use_contracts = use_contracts
        self.inline = set(inline)
        self.depth = 0
        self.rec = {}
        self.verifying = None
        self.specmode = 0
        self.line = None
        self.stack = []
        self.frames = []
        from . import builtins_ as BI
        from . import libs
        self.BI = BI
        self.libs = libs
        self.builtins = BI.make_builtins(self)
        self.bounded_cuts = True
        self.theorems = []
        self.no_contracts = False
        self.base = None

    # ------------------------------------------------------------ state of modules
    def freeze_base(self):
        from . import loops
        self.frames = []
        st = loops.State(self)
        self.base = (st, st.capture())

    def reset(self):
        """module state as after import"""
        self.frames = []
        self.rec = {}
        self.rec_marks = {}
        self.depth = 0
        if self.base is not None:
            self.base[0].restore(self.base[1])

    def dirt(self):
        """what the run changed in modules, classes and what they hold"""
        from . import loops
        if self.base is None:
            return []
        st, base = self.base
        cur = st.capture()
        out = []
        for k in set(cur) | set(base):
            if k[0] != 'g' and not loops.same_value(cur.get(k, loops.UNSET), base.get(k, loops.UNSET)):
                v = cur.get(k)
                # names of code, and objects without state
                if isinstance(v, (UserClass, UserFunc, ModuleV)) or type(v) is Obj and not v.attrs:
                    continue
                out.append(st.name(k))
        return out

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        m = self.libs.load(self, name)
        if m is not None:
            self.modules[name] = m
            return m
        path = None
        ispkg = False
        lib = os.path.join(VERIF, 'pyvc', 'pylib', name + '.py')
        for root in () if name in PYLIB else (REPO, VERIF):
            p = os.path.join(root, *name.split('.'))
            if root == VERIF and not name.startswith('specs'):
                continue
            if os.path.isfile(p + '.py'):
                path = p + '.py'
            elif os.path.isfile(os.path.join(p, '__init__.py')):
                path, ispkg = os.path.join(p, '__init__.py'), True
            if path:
                break
        if name in PYLIB:
            path = lib
        if not path:
            m = self.libs.load_native(self, name)
            if m is None:
                raise_(ModuleNotFoundError, name)
            self.modules[name] = m
            return m
        m = ModuleV(name, {'__name__': name, '__file__': path})
        self.modules[name] = m
        m.ns['__package__'] = name if ispkg else name.rpartition('.')[0]
        if '.' in name:
            par = self.load(name.rpartition('.')[0])
            par.ns[name.rpartition('.')[2]] = m
        fr = Frame(m)
        fr.vars = m.ns
        self.exec_body(parse_file(path).body, fr)
        return m

    def get_qual(self, qual):
        """'pkg.mod:Class.method' -> the value"""
        mod, _, path = qual.partition(':')
        v = self.load(mod)
        for p in path.split('.'):
            if isinstance(v, ModuleV):
                v = v.ns[p]
            elif isinstance(v, UserClass):
                q = p
                if p.startswith('__') and not p.endswith('__'):
                    q = '_%s%s' % (v.name.lstrip('_'), p)
                v = v.ns[q]
            if isinstance(v, (StaticM, ClassM)):
                v = v.f
            if isinstance(v, PropertyV):
                v = v.fget
        return v

    # ------------------------------------------------------------ statements
    def exec_body(self, body, fr):
        for s in body:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.line = (fr.module.name, getattr(s, 'lineno', 0))
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%s' % (type(s).__name__, *self.line))
        m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), fr)
            self.assign(t, self.inplace(s.op, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, self.mangle(t.attr, fr))
            self.setattr(o, self.mangle(t.attr, fr), self.inplace(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_slice(t.slice, fr)
            cur = self.BI.getitem(self, o, k)
            self.BI.setitem(self, o, k, self.inplace(s.op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def x_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)

    def x_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.exec_body(s.body, fr)
        else:
            self.exec_body(s.orelse, fr)

    def x_Break(self, s, fr):
        raise Brk()

    def x_Continue(self, s, fr):
        raise Cont()

    def x_Global(self, s, fr):
        fr.globals_.update(s.names)

    def x_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise_(AssertionError, '')

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.BI.delitem(self, self.ev(t.value, fr), self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                o.attrs.pop(self.mangle(t.attr, fr))
            else:
                raise Unsupported('del')

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = None
            f = fr
            while f is not None and e is None:
                e = f.exc
                f = f.outer
            if e is None:
                raise_(RuntimeError, 'No active exception to reraise')
            raise PyExc(e)
        v = self.ev(s.exc, fr)
        if isinstance(v, (UserClass, type)):
            v = self.call(v, [], {})
        raise PyExc(v)

    def x_Try(self, s, fr):
        try:
            try:
                self.exec_body(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.val, self.ev(h.type, fr)):
                        if h.name:
                            fr.vars[h.name] = e.val
                        old = fr.exc
                        fr.exc = e.val
                        try:
                            self.exec_body(h.body, fr)
                        finally:
                            fr.exc = old
                            if h.name:
                                fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_body(s.orelse, fr)
        except (PyExc, Ret, Brk, Cont):
            self.exec_body(s.finalbody, fr)
            raise
        else:
            self.exec_body(s.finalbody, fr)

    def exc_match(self, val, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(val, c) for c in cls)
        return issub(val.cls, cls)

    def x_With(self, s, fr):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, fr)
            v = self.call(self.getattr(m, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            mgrs.append(m)
        try:
            self.exec_body(s.body, fr)
        except PyExc as e:
            for m in reversed(mgrs):
                if self.truth(self.call(self.getattr(m, '__exit__'), [e.val.cls, e.val, None], {})):
                    return
            raise
        except (Ret, Brk, Cont):
            for m in reversed(mgrs):
                self.call(self.getattr(m, '__exit__'), [None, None, None], {})
            raise
        else:
            for m in reversed(mgrs):
                self.call(self.getattr(m, '__exit__'), [None, None, None], {})

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            f = self.call(dv, [f], {})
        fr.vars[self.mangle(s.name, fr) if fr.isclass else s.name] = f

    def make_func(self, s, fr):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        outer = fr if fr.vars is not fr.module.ns else None
        cls = fr.cls
        if fr.isclass:
            outer = fr.outer
        name = s.name if isinstance(s, ast.FunctionDef) else '<lambda>'
        f = UserFunc(s, fr.module, name, defaults, kwd, outer, cls)
        f.qualname = (cls + '.' + name) if cls and fr.isclass else name
        f.isgen = has_yield(s)
        return f

    def x_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        cf = Frame(fr.module, outer=fr if fr.vars is not fr.module.ns else None)
        cf.isclass = True
        cf.cls = (fr.cls + '.' + s.name) if fr.isclass and fr.cls else s.name
        self.exec_body(s.body, cf)
        c = UserClass(s.name, bases or [object], cf.vars, fr.module)
        c.qualname = cf.cls
        for v in c.ns.values():
            f = v.f if isinstance(v, (StaticM, ClassM)) else v
            fs = [f]
            if isinstance(v, PropertyV):
                fs = [v.fget, v.fset]
            for f in fs:
                if isinstance(f, UserFunc):
                    f.cls_obj = c
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, fr), [c], {})
        fr.vars[s.name] = c

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                fr.vars[a.asname] = m
            else:
                top = a.name.split('.')[0]
                if '.' in a.name:
                    t = self.load(top)
                    cur = t
                    acc = top
                    for p in a.name.split('.')[1:]:
                        acc += '.' + p
                        sub = self.load(acc)
                        cur.ns.setdefault(p, sub)
                        cur = sub
                    fr.vars[top] = t
                else:
                    fr.vars[top] = m

    def x_ImportFrom(self, s, fr):
        base = s.module or ''
        if s.level:
            pkg = fr.module.ns.get('__package__', '').split('.')
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = '.'.join(pkg + ([base] if base else []))
        m = self.load(base)
        for a in s.names:
            if a.name == '*':
                allv = m.ns.get('__all__')
                for k, v in list(m.ns.items()):
                    if (allv is None and not k.startswith('_')) or (allv is not None and k in allv.items):
                        fr.vars[k] = v
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            else:
                try:
                    v = self.load(base + '.' + a.name)
                except PyExc:
                    raise_(ImportError, a.name)
            fr.vars[a.asname or a.name] = v

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, PyList) and it.concrete():
            # live iteration: the list may grow while iterated
            i = 0
            while i < len(it.items):
                if not it.concrete():
                    raise Unsupported('list changed under iteration')
                v = it.items[i]
                i += 1
                self.assign(s.target, v, fr)
                try:
                    self.exec_body(s.body, fr)
                except Brk:
                    return
                except Cont:
                    pass
            self.exec_body(s.orelse, fr)
            return
        seq = self.BI.seq_view(self, it)
        if isinstance(seq.n, int) and seq.n <= 48:
            for i in range(max(seq.n, 0)):
                self.assign(s.target, seq.get(i), fr)
                try:
                    self.exec_body(s.body, fr)
                except Brk:
                    if isinstance(it, IterV):
                        it.pos += i + 1
                    return
                except Cont:
                    continue
            if isinstance(it, IterV):
                it.pos += seq.n
            self.BI.digit_sums(fr.vars)
            self.exec_body(s.orelse, fr)
            return
        from . import loops
        loops.for_loop(self, s, fr, seq)

    def x_While(self, s, fr):
        from . import loops
        loops.while_loop(self, s, fr)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                fr.module.ns[t.id] = v
            elif t.id in fr.nonlocals:
                f = fr.outer
                while f is not None:
                    if t.id in f.vars:
                        f.vars[t.id] = v
                        return
                    f = f.outer
            else:
                name = self.mangle(t.id, fr) if fr.isclass else t.id
                fr.vars[name] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.BI.setitem(self, self.ev(t.value, fr), self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.BI.to_list(self, v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise_(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vals):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, PyList(vals[i:len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, fr)
                return
            if len(vals) != len(t.elts):
                raise_(ValueError, 'wrong number of values to unpack')
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None and not f.cls:
                f = f.outer
            if f is not None and f.cls:
                return '_%s%s' % (f.cls.split('.')[-1].lstrip('_'), name)
        return name

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        return getattr(self, 'e_' + type(e).__name__, self.e_unsupported)(e, fr)

    def e_unsupported(self, e, fr):
        raise Unsupported('expression %s at %s:%s' % (type(e).__name__, fr.module.name, e.lineno))

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        n = e.id
        if n in fr.globals_:
            v = fr.module.ns.get(n, UNSET)
        else:
            v = fr.vars.get(n, UNSET)
            f = fr.outer
            while v is UNSET and f is not None:
                if not f.isclass:
                    v = f.vars.get(n, UNSET)
                f = f.outer
            if v is UNSET:
                v = fr.module.ns.get(n, UNSET)
        if v is UNSET:
            v = self.builtins.get(n, UNSET)
        if v is UNSET:
            raise_(NameError, "name '%s' is not defined" % n)
        if isinstance(v, Poison):
            raise Unsupported('use of %s after a loop: %s' % (n, v.why))
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), self.mangle(e.attr, fr))

    def e_Tuple(self, e, fr):
        return tuple(self.seq_elts(e.elts, fr))

    def e_List(self, e, fr):
        return PyList(self.seq_elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.BI.make_set(self, self.seq_elts(e.elts, fr))

    def seq_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.BI.to_list(self, self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                for kk, (a, b) in o.d.items():
                    d.d[kk] = (a, b)
                continue
            self.BI.setitem(self, d, self.ev(k, fr), self.ev(v, fr))
        return d

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            f = self.truth_formula(v)
            return (not f) if isinstance(f, bool) else mkbool(z3.Not(f))
        return self.BI.unary(self, op, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.collapse(v, False)
            if not isand and t:
                return self.collapse(v, True)
        return v

    def collapse(self, v, b):
        """the value of v, known to have truth value b on this path"""
        if isinstance(v, SBool):
            return b
        if isinstance(v, SInt) and not b and v.cls is int:
            return 0
        return v

    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        n = len(e.ops)
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x, fr)
            r = self.BI.compare(self, type(op).__name__, a, b)
            if i == n - 1:
                return r
            if not self.truth(r):
                return self.collapse(r, False)
            a = b

    def e_IfExp(self, e, fr):
        if self.truth(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f is not None and f.func is None:
                f = f.outer
            cls = f.func.cls_obj
            selfname = f.func.node.args.args[0].arg
            return SuperProxy(cls, f.vars[selfname])
        fn = self.ev(e.func, fr)
        args = self.seq_elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                for kk, (a, b) in v.d.items():
                    kw[a] = b
            else:
                kw[k.arg] = v
        self.line = (fr.module.name, e.lineno)
        return self.call(fn, args, kw)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.BI.getitem(self, o, self.ev_slice(e.slice, fr))

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower, fr) if s.lower else None, self.ev(s.upper, fr) if s.upper else None,
                         self.ev(s.step, fr) if s.step else None)
        return self.ev(s, fr)

    def e_JoinedStr(self, e, fr):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = self.binop('Add', out, v.value)
            else:
                x = self.ev(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                if v.conversion == 114:
                    x = self.BI.repr_(self, x)
                out = self.binop('Add', out, self.BI.format_value(self, x, spec))
        return out

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_Yield(self, e, fr):
        f = fr
        while f.yields is None:
            f = f.outer
        f.yields.append(self.ev(e.value, fr) if e.value is not None else None)
        return None

    def e_YieldFrom(self, e, fr):
        f = fr
        while f.yields is None:
            f = f.outer
        f.yields.extend(self.BI.to_list(self, self.ev(e.value, fr)))
        return None

    # comprehensions
    def comp(self, e, fr, leaf):
        """evaluate generators; returns a python list of leaf values, or a PyList with a SymSeg"""
        out = []
        inner = Frame(fr.module, outer=fr)
        inner.cls = None
        sym = []

        def go(i, f):
            if i == len(e.generators):
                out.append(leaf(f))
                return
            g = e.generators[i]
            it = self.ev(g.iter, f if i else fr)
            seq = self.BI.seq_view(self, it)
            many = isinstance(seq.n, int) and seq.n > 600 and len(e.generators) == 1 and not g.ifs \
                and isinstance(e, (ast.ListComp, ast.GeneratorExp)) and not isinstance(it, IterV)
            if isinstance(seq.n, int) and not many:
                for k in range(max(seq.n, 0)):
                    self.assign(g.target, seq.get(k), f)
                    if all(self.truth(self.ev(c, f)) for c in g.ifs):
                        go(i + 1, f)
                if isinstance(it, IterV):
                    it.pos += seq.n
                return
            if len(e.generators) > 1 or g.ifs:
                raise Unsupported('comprehension over a sequence of unknown length')
            from . import loops
            sym.append(loops.map_seq(self, seq, lambda v: (self.assign(g.target, v, f), leaf(f))[1]))
        go(0, inner)
        if sym:
            return sym[0]
        return out

    def e_ListComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return r if isinstance(r, PyList) else PyList(r)

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return IterV(r if isinstance(r, PyList) else PyList(r))

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        return self.BI.make_set(self, r.items if isinstance(r, PyList) else r)

    def e_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        if isinstance(r, PyList):
            raise Unsupported('dict comprehension of unknown length')
        d = PyDict()
        for k, v in r:
            self.BI.setitem(self, d, k, v)
        return d

    # ------------------------------------------------------------ truth
    def truth(self, v):
        f = self.truth_formula(v)
        if isinstance(f, bool):
            return f
        return C().branch(f)

    def truth_formula(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            if isinstance(v.cls, UserClass):
                m = v.cls.lookup('__bool__')
                if m is not None:
                    return self.truth_formula(self.call_user(m, [v], {}))
            return simp(v.t != 0)
        if isinstance(v, (SBytes, SStr, ByteArray)):
            n = R.rlen(v.rope)
            return n > 0 if isinstance(n, int) else simp(n > 0)
        if isinstance(v, PyList):
            n = v.length()
            return n > 0 if isinstance(n, int) else simp(n > 0)
        if isinstance(v, PyDict):
            return bool(v.d)
        if isinstance(v, PySet):
            return bool(v.items)
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                m = self.lookup_cls(v.cls, nm)
                if m is not None:
                    r = self.call(self.bind(m, v), [], {})
                    return self.truth_formula(r)
            return True
        if isinstance(v, SFloat):
            return self.libs.float_nonzero(v)
        if isinstance(v, SReal):
            return simp(v.t != 0)
        if isinstance(v, RangeV):
            n = self.BI.seq_view(self, v).n
            return n > 0 if isinstance(n, int) else simp(n > 0)
        if isinstance(v, Opaque):
            raise Unsupported('truth of an unknown value (%s)' % v.why)
        if isinstance(v, Poison):
            raise Unsupported('truth of an undescribed value (%s)' % v.why)
        if is_term(v):
            if not z3.is_bool(v):
                raise Unsupported('truth of a raw term')
            return v
        if isinstance(v, (UserFunc, UserClass, type, NativeFn, ModuleV, BoundMethod, Stream, HashObj, IterV)) or v is Ellipsis:
            return True
        raise Unsupported('truth of a %s' % type(v).__name__)

    # ------------------------------------------------------------ attributes
    def lookup_cls(self, cls, name):
        if isinstance(cls, UserClass):
            return cls.lookup(name)
        return None

    def bind(self, m, v):
        if isinstance(m, (UserFunc, NativeFn)):
            return BoundMethod(m, v)
        if isinstance(m, StaticM):
            return m.f
        if isinstance(m, ClassM):
            return BoundMethod(m.f, typeof(v))
        return m

    def getattr(self, o, name, default=UNSET):
        r = self._getattr(o, name)
        if r is UNSET:
            if default is not UNSET:
                return default
            raise_(AttributeError, '%r has no attribute %s' % (clsname(typeof(o)) if not isinstance(o, ModuleV) else o.name, name))
        if isinstance(r, Poison):
            raise Unsupported('use of attribute %s after a loop: %s' % (name, r.why))
        return r

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if isinstance(o.cls, UserClass):
                m = o.cls.lookup(name)
                if isinstance(m, PropertyV):
                    return self.call(m.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return PyDict(AttrD(o.attrs))
            if isinstance(o.cls, UserClass):
                if m is not None or any(isinstance(c, UserClass) and name in c.ns for c in o.cls.mro):
                    return self.bind(m, o)
                ga = o.cls.lookup('__getattr__')
                if ga is not None:
                    return self.call(self.bind(ga, o), [name], {})
            r = self.BI.object_attr(self, o, name)
            return r if r is not None else UNSET
        if isinstance(o, ModuleV):
            if name in o.ns:
                return o.ns[name]
            try:
                return self.load(o.name + '.' + name)
            except (PyExc, Unsupported):
                return UNSET
        if isinstance(o, UserClass):
            if name == '__name__':
                return o.name
            if name == '__qualname__':
                return o.qualname
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__dict__':
                return PyDict({k: (k, v) for k, v in o.ns.items()})
            if name == '__bases__':
                return tuple(o.bases)
            for c in o.mro:
                if isinstance(c, UserClass):
                    if name in c.ns:
                        v = c.ns[name]
                        if isinstance(v, StaticM):
                            return v.f
                        if isinstance(v, ClassM):
                            return BoundMethod(v.f, o)
                        return v
                elif c is not object:
                    r = self.BI.type_attr(self, c, name)
                    if r is not None:
                        return r
            r = self.BI.type_attr(self, object, name)
            return r if r is not None else UNSET
        if isinstance(o, SuperProxy):
            return self.super_attr(o, name)
        if isinstance(o, SInt) and isinstance(o.cls, UserClass):
            m = o.cls.lookup(name)
            if isinstance(m, PropertyV):
                return self.call(m.fget, [o], {})
            if m is not None:
                return self.bind(m, o)
        if isinstance(o, type):
            r = self.BI.type_attr(self, o, name)
            if r is None and hasattr(o, name):
                raise Unsupported('%s.%s' % (o.__name__, name))
            return r if r is not None else UNSET
        if isinstance(o, (Opaque, Poison)):
            raise Unsupported('attribute of an unknown value (%s)' % o.why)
        f = o.func if isinstance(o, BoundMethod) else o
        if isinstance(f, UserFunc) and name in f.attrs:
            return f.attrs[name]
        r = self.BI.value_attr(self, o, name)
        if r is None:
            t = typeof(o)
            if isinstance(t, type) and hasattr(t, name) and not isinstance(o, (UserFunc, NativeFn)):
                raise Unsupported('%s.%s' % (t.__name__, name))
        return r if r is not None else UNSET

    def super_attr(self, sp, name):
        obj = sp.obj
        cls = obj if isinstance(obj, UserClass) else typeof(obj)
        mro = mro_of(cls)
        i = mro.index(sp.cls)
        for c in mro[i + 1:]:
            if isinstance(c, UserClass):
                if name in c.ns:
                    m = c.ns[name]
                    if isinstance(m, PropertyV):
                        return self.call(m.fget, [obj], {})
                    return self.bind(m, obj)
            elif c is object:
                if name == '__init__':
                    return NativeFn('object.__init__', lambda it, a, k: None)
                if name == '__new__':
                    return NativeFn('object.__new__', lambda it, a, k: Obj(a[0]))
                if name in ('__eq__', '__ne__'):
                    return NativeFn('object.' + name, lambda it, a, k: (obj is a[0]) == (name == '__eq__'))
                if name == '__setattr__':
                    return NativeFn('object.__setattr__', lambda it, a, k: it.setattr_raw(obj, a[0], a[1]))
                if name == '__hash__':
                    return NativeFn('object.__hash__', lambda it, a, k: Opaque('identity hash'))
                r = self.BI.object_attr(self, obj, name)
                return r if r is not None else UNSET
            else:
                r = self.BI.base_method(self, c, obj, name)
                if r is not None:
                    return r
        return UNSET

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if isinstance(o.cls, UserClass):
                m = o.cls.lookup(name)
                if isinstance(m, PropertyV):
                    if m.fset is None:
                        raise_(AttributeError, 'cannot set attribute')
                    self.call(m.fset, [o, v], {})
                    return
                sa = o.cls.lookup('__setattr__')
                if sa is not None:
                    self.call(self.bind(sa, o), [name, v], {})
                    return
            o.attrs[name] = v
        elif isinstance(o, UserClass):
            self.note_class_write(o, name)
            o.ns[name] = v
        elif isinstance(o, ModuleV):
            o.ns[name] = v
        elif isinstance(o, UserFunc):
            o.attrs[name] = v
        else:
            raise_(AttributeError, 'cannot set attribute %s' % name)

    def setattr_raw(self, o, name, v):
        o.attrs[name] = v

    def note_class_write(self, c, name):
        pass

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        return self.BI.binop(self, op, a, b)

    def inplace(self, op, a, b):
        return self.BI.inplace(self, type(op).__name__, a, b)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, UserFunc):
            return self.call_user(f, list(args), kw)
        if isinstance(f, NativeFn):
            return f.fn(self, list(args), kw)
        if isinstance(f, UserClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, type):
            return self.BI.construct(self, f, list(args), kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Obj):
            m = self.lookup_cls(f.cls, '__call__')
            if m is not None:
                return self.call(self.bind(m, f), args, kw)
        if isinstance(f, (Opaque, Poison)):
            raise Unsupported('call of an unknown value (%s)' % f.why)
        raise_(TypeError, 'not callable')

    def instantiate(self, cls, args, kw):
        new = cls.lookup('__new__')
        if new is not None:
            o = self.call(new.f if isinstance(new, StaticM) else new, [cls] + list(args), kw)
        else:
            base = [c for c in cls.mro if not isinstance(c, UserClass)]
            nb = base[0]
            if nb is int:
                v = self.BI.construct(self, int, list(args), kw)
                return mkint(iterm(v), cls)
            if issubclass(nb, BaseException):
                o = Obj(cls, {'args': tuple(args)})
                init = cls.lookup('__init__')
                if init is not None:
                    self.call(self.bind(init, o), args, kw)
                return o
            if nb is not object:
                raise Unsupported('subclass of %s' % nb.__name__)
            o = Obj(cls)
        if isinstance(o, Obj) and o.cls is cls:
            init = cls.lookup('__init__')
            if init is not None:
                self.call(self.bind(init, o), args, kw)
            elif args or kw:
                if new is None:
                    raise_(TypeError, '%s() takes no arguments' % cls.name)
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise_(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
            vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vars[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = PyDict()
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vars:
                    raise_(TypeError, '%s() got multiple values for argument %s' % (f.name, k))
                vars[k] = v
            elif a.kwarg is not None:
                extra.d[k] = (k, v)
            else:
                raise_(TypeError, '%s() got an unexpected keyword argument %s' % (f.name, k))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vars:
                j = i - (len(names) - nd)
                if j < 0:
                    raise_(TypeError, '%s() missing required argument %s' % (f.name, n))
                vars[n] = f.defaults[j]
        for n in kwonly:
            if n not in vars:
                if n not in f.kwdefaults:
                    raise_(TypeError, '%s() missing keyword argument %s' % (f.name, n))
                vars[n] = f.kwdefaults[n]
        return vars

    def fullname(self, f):
        return '%s:%s' % (f.module.name, f.qualname)

    def call_user(self, f, args, kw):
        qn = self.fullname(f)
        con = self.contracts.get(qn) if (self.use_contracts and not self.specmode_inline()) else None
        if con is not None and qn not in self.inline and not (self.verifying == qn and self.rec.get(qn, 0) == 0):
            vars = self.bind_args(f, args, kw)
            from . import contracts
            r = contracts.apply(self, con, f, vars)
            if r is not contracts.INAPPLICABLE:
                st = C().ex.stats
                st.contracts_used[qn] = st.contracts_used.get(qn, 0) + 1
                return r
        return self.run_body(f, args, kw)

    def specmode_inline(self):
        return False

    @staticmethod
    def concrete_args(args):
        return all(isinstance(a, (int, str, bytes)) for a in args)

    def run_body(self, f, args, kw):
        qn = self.fullname(f)
        vars = self.bind_args(f, args, kw)
        n = self.rec.get(qn, 0)
        if n >= (400 if self.concrete_args(args) else 60) or self.depth > 600:
            raise Unsupported('recursion too deep in %s' % qn)
        if n >= REC_BOUND and C().trace and self.rec_undecided(qn):
            self.note_bounded(qn, 'recursion depth <= %d' % REC_BOUND)
            raise BoundCut()
        if f.module.name.startswith('neocore'):
            C().ex.stats.bodies[qn] = C().ex.stats.bodies.get(qn, 0) + 1
        fr = Frame(f.module, outer=f.closure, func=f)
        fr.vars = vars
        fr.cls = f.cls
        self.rec[qn] = n + 1
        self.depth += 1
        self.frames.append(fr)
        marks = self.__dict__.setdefault('rec_marks', {})
        marks.setdefault(qn, []).append(len(C().trace))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if f.isgen:
                fr.yields = []
                try:
                    self.exec_body(f.node.body, fr)
                except Ret:
                    pass
                return IterV(PyList(fr.yields))
            try:
                self.exec_body(f.node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.rec[qn] = n
            marks[qn].pop()
            self.frames.pop()

    def rec_undecided(self, qn):
        """did the recursion take undecided branches at every level?"""
        m = self.rec_marks.get(qn, [])
        return len(m) >= 2 and len(C().trace) > m[-1] and m[-1] > m[0]

    def note_bounded(self, what, bound):
        C().ex.stats.bounded[what] = bound
