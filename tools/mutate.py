"""mutate.py OUT [FILE-SUBSTRING] [N]: mutation testing of the checks (development only).

Generates small AST mutants of /repo/neocore, keeps those that pass the stable tests, runs the checks that concern the file on each and
records in OUT (one JSON line each) which check reported it, and how.  A mutant no check reports is either equivalent, outside every
property, or a gap: those are read by hand."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {'IO/BinaryReader.py': 'C01 C02 C03 C04 C05 C06 C07', 'IO/BinaryWriter.py': 'C01 C02 C03 C04 C06 C07',
          'UIntBase.py': 'C07 C08 C09 C10 C05', 'UInt160.py': 'C07 C08', 'UInt256.py': 'C07 C08', 'Fixed8.py': 'C11 C12 C01',
          'BigInteger.py': 'C13 C14', 'Cryptography/MerkleTree.py': 'C15 C16', 'Cryptography/Crypto.py': 'C22 C17 C18 C21',
          'Cryptography/Helper.py': 'C27 C17 C18 C19 C20 C21', 'KeyPair.py': 'C19 C21 C20', 'Cryptography/ECCurve.py': 'C24 C25 C23 C26 C05',
          'bin/cli.py': 'C28 C18'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.BitXor: ast.BitOr,
       ast.BitAnd: ast.BitOr, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Pow: ast.Mult, ast.Div: ast.FloorDiv}


def sites(tree):
    """Yields (description, edit(tree copy's node)) by node index in ast.walk order."""
    for i, n in enumerate(ast.walk(tree)):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in CMP:
                    yield i, ln, 'cmp %s->%s' % (type(o).__name__, CMP[type(o)].__name__), lambda m, k=k, o=o: m.ops.__setitem__(k, CMP[type(o)]())
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            yield i, ln, 'bin %s->%s' % (type(n.op).__name__, BIN[type(n.op)].__name__), lambda m, o=n.op: setattr(m, 'op', BIN[type(o)]())
        elif isinstance(n, ast.BoolOp):
            yield i, ln, 'and<->or', lambda m, o=n.op: setattr(m, 'op', ast.Or() if isinstance(o, ast.And) else ast.And())
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                yield i, ln, 'const %d%+d' % (n.value, d), lambda m, d=d: setattr(m, 'value', m.value + d)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield i, ln, 'bool', lambda m: setattr(m, 'value', not m.value)
        elif isinstance(n, ast.Constant) and type(n.value) is str and n.value in ('little', 'big', '<', '>'):
            sw = {'little': 'big', 'big': 'little', '<': '>', '>': '<'}
            yield i, ln, 'endian', lambda m, sw=sw: setattr(m, 'value', sw[m.value])
        elif isinstance(n, ast.Constant) and type(n.value) is str and n.value.startswith('%s') and len(n.value) == 3 and n.value[2] in 'bBhHiIqQfd':
            yield i, ln, 'fmt', lambda m: setattr(m, 'value', '%s' + m.value[2].swapcase())
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield i, ln, 'negate', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield i, ln, 'drop unary', lambda m: setattr(m, 'op', ast.UAdd()) if isinstance(m.op, ast.USub) else setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand))
        if hasattr(n, 'body') and isinstance(n.body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            for f in ('body', 'orelse'):
                for k, s in enumerate(getattr(n, f, [])):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)) or isinstance(s, ast.If):
                        yield i, s.lineno, 'drop ' + ast.unparse(s).split('\n')[0][:50], lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Pass())


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def one(job):
    f, i, ln, what, src, r = job
    tmp = tempfile.mkdtemp(prefix='mut', dir='/tmp/mut')
    try:
        w = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs'))
        open(os.path.join(w, 'neocore', f), 'w').write(src)
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])
        try:
            t = run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=w, env=env, timeout=200)
        except subprocess.TimeoutExpired:
            return dict(file=f, line=ln, what=what, tests='fail')
        if t.returncode:
            return dict(file=f, line=ln, what=what, tests='fail')
        res = {}
        for c in CHECKS[f].split():
            try:
                q = run(['python3-vt', '-B', os.path.join(V, 'check.py'), c, 'quick'], env=dict(os.environ, PYVC_REPO=w, PYVC_EVID=os.path.join(tmp, 'ev')), timeout=900)
            except subprocess.TimeoutExpired:
                res[c] = 'TIMEOUT'
                continue
            o = q.stdout.decode()
            if q.returncode == 1 and 'VIOLATION' in o:
                res[c] = 'nfi' if all('no-failing' in l for l in o.splitlines() if l.startswith('VIOLATION')) else 'caught'
                if res[c] == 'caught':
                    break
            elif q.returncode:
                res[c] = 'rc%d %s' % (q.returncode, o[-300:])
            else:
                res[c] = '-'
        return dict(file=f, line=ln, what=what, tests='pass', res=res, caught=any(x in ('nfi', 'caught') for x in res.values()))
    finally:
        shutil.rmtree(tmp)


def main():
    out, sub = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ''
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
    seen = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            seen.add((d['file'], d['line'], d['what'], d['node']))
    jobs = []
    for f in sorted(CHECKS):
        if sub not in f:
            continue
        src = open('/repo/neocore/' + f).read()
        tree = ast.parse(src)
        for i, ln, what, edit in sites(tree):
            if (f, ln, what, i) in seen:
                continue
            t2 = copy.deepcopy(tree)
            m = [x for k, x in enumerate(ast.walk(t2)) if k == i][0]
            edit(m)
            try:
                s2 = ast.unparse(ast.fix_missing_locations(t2))
                compile(s2, f, 'exec')
            except Exception:
                continue
            jobs.append((f, i, ln, what, s2, None))
    random.Random(7).shuffle(jobs)
    jobs = jobs[:n]
    print(len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex, open(out, 'a') as fh:
        for j, d in zip(jobs, ex.map(one, jobs)):
            d['node'] = j[1]
            fh.write(json.dumps(d) + '\n')
            fh.flush()


main()
