"""Run theorems natively:  run.py search PROP SEED SECONDS [THEOREM ...] | run.py replay FILE
Prints one JSON line per theorem."""
import ast
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, VERIF, REPO]
import logging                                                      # noqa: E402
logging.disable(logging.CRITICAL)
import vc                                                           # noqa: E402


class Slow(BaseException):
    pass


ENDLESS = 30            # seconds of processor time; the slowest theorem takes about one


def alarm(sig, frame):
    raise Slow('cpu' if sig == signal.SIGPROF else 'wall')


def consts():
    out = set()
    for root, dirs, files in os.walk(os.path.join(REPO, 'neocore')):
        if 'test' in root:
            continue
        for f in files:
            if not f.endswith('.py') or f.startswith('test'):
                continue
            try:
                t = ast.parse(open(os.path.join(root, f), encoding='utf-8').read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and type(n.value) is int:
                    out.add(n.value)
    return sorted(out)


def snapshot():
    """module and class state, restored before every run (each theorem starts from a fresh process state)"""
    import copy
    st = []
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] not in ('neocore', 'bitcoin') or m is None:
            continue
        st.append((m.__dict__, dict(m.__dict__)))
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and v.__module__.split('.')[0] == 'neocore':
                st.append((v, {k: x for k, x in v.__dict__.items() if not k.startswith('__')}))
    vals = []
    for d, c in st:
        for k, x in c.items():
            if isinstance(x, (bytearray, list, dict, set)):
                if not k.startswith('__'):
                    try:
                        vals.append((x, copy.copy(x)))
                    except Exception:
                        pass
    return st, vals


def restore(s):
    st, vals = s
    for d, c in st:
        if isinstance(d, dict):
            for k in list(d):
                if k not in c:
                    del d[k]
            for k, x in c.items():
                if d.get(k, None) is not x:
                    d[k] = x
        else:
            cur = {k: x for k, x in d.__dict__.items() if not k.startswith('__')}
            for k in cur:
                if k not in c:
                    delattr(d, k)
            for k, x in c.items():
                if cur.get(k, None) is not x:
                    setattr(d, k, x)
    for x, c in vals:
        if x != c:
            if isinstance(x, (dict, set)):
                x.clear()
                x.update(c)
            else:
                x[:] = c


def once(f, source, limit, first=None):
    """first: the theorem to run before f, when the source is warm (otherwise f itself); ('ok'|'discard'|'fail'|'slow', detail)"""
    vc.src = source
    signal.setitimer(signal.ITIMER_PROF, limit, 1)
    signal.setitimer(signal.ITIMER_REAL, 6 * limit)
    try:
        try:
            if source.warm:
                vc.muted = True
                try:
                    (first or f)()
                except Exception:
                    pass
                finally:
                    vc.muted = False
                if first:
                    source.pool = list(source.used.values())
            f()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        return 'ok', None
    except vc.Discard:
        return 'discard', None
    except vc.Failed as e:
        return 'fail', str(e)
    except Slow as e:
        return 'slow', str(e)
    except (MemoryError, RecursionError) as e:
        return 'fail', 'unexpected %s' % type(e).__name__
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        return 'fail', 'unexpected %s: %s (%s:%d)' % (type(e).__name__, str(e)[:120], os.path.basename(tb[-1].filename), tb[-1].lineno)


def inputs(source):
    return {k: vc.enc(v) for k, v in source.used.items()}


def cold(prop, name, fail, past):
    """A failure must fail again in a fresh process; if it does not (state which no restoring reaches leaked between the runs),
    the runs before it belong to the replay file, as few as do it."""
    import subprocess
    import tempfile
    for k in (0,) if fail.get('slow') else (0, 1, 8, 64, len(past)):
        r = dict(fail, property=prop, theorem=name)
        if k:
            r['history'] = [{'theorem': n, 'inputs': inputs(x), 'warm': x.warm} for n, x in list(past)[-k:]]
        with tempfile.NamedTemporaryFile('w', suffix='.json') as g:
            json.dump(r, g)
            g.flush()
            try:
                p = subprocess.run([sys.executable, '-B', os.path.abspath(__file__), 'replay', g.name], stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, timeout=300 if fail.get('slow') else 120)
                if p.returncode == 1 and json.loads(p.stdout)['result'] == 'fail':
                    return dict(fail, history=r['history']) if k else fail
            except (subprocess.TimeoutExpired, ValueError):
                pass
        if k >= len(past):
            break
    if fail.get('slow'):
        return None
    return dict(fail, why=fail['why'] + ' (seen once; not reproduced in a fresh process)')


def search(prop, todo, seed, secs, cs, s, out, firsts):
    from collections import deque
    past = deque(maxlen=500)
    for f, opts in todo:
        t0 = time.time()
        n = ok = dis = slow = 0
        fail = None
        kinds = set()
        sample = None
        share = secs * opts.get('weight', 1)
        shape = None
        if opts.get('step'):
            vc.small = True
            t1 = time.time()
            i = 0
            while shape is None and (i < 30 or i < 300 and time.time() - t1 < 1):
                restore(s)
                source = vc.Source(None, '%s/%s/small/%d' % (prop, f.__name__, i), cs)
                source.warm = i % 3 == 2
                res, why = once(f, source, 10)
                i += 1
                if res in ('fail', 'slow'):
                    shape = why or 'no end'
            vc.small = False
            if shape is not None:
                print(json.dumps({'theorem': f.__name__, 'runs': i, 'ok': 0, 'discarded': 0, 'slow': 0, 'distinct': 0, 'fail': None, 'sample': None, 'shape': shape}), file=out, flush=True)
                continue
        while time.time() - t0 < share and n < 20000 and slow < 3:
            restore(s)
            source = vc.Source(None, '%s/%s/%d/%d' % (prop, f.__name__, seed, n), cs)
            source.warm = n % 3 == 2
            first = None
            if n % 6 == 5:
                name, first = source.rnd.choice(firsts)
                source.warm = name
            res, why = once(f, source, ENDLESS, first)
            n += 1
            if res in ('ok', 'discard'):
                past.append((f.__name__, source))
            if res == 'ok' and source.checks:
                ok += 1
                if len(kinds) < 100000:
                    kinds.add(hash(repr(sorted(source.used.items()))))
                if sample is None:
                    sample = {k: vc.enc(v) for k, v in source.used.items()}
            elif res == 'discard':
                dis += 1
            elif res == 'slow':
                slow += 1
                if why == 'cpu':
                    fail = cold(prop, f.__name__, {'inputs': inputs(source), 'why': 'no end within %d s of processor time' % ENDLESS, 'warm': source.warm, 'slow': True}, past)
                    if fail:
                        break
            elif res == 'fail':
                fail = cold(prop, f.__name__, {'inputs': inputs(source), 'why': why, 'warm': source.warm}, past)
                break
            if not source.used:
                break               # nothing to vary
        print(json.dumps({'theorem': f.__name__, 'runs': n, 'ok': ok, 'discarded': dis, 'slow': slow, 'distinct': len(kinds),
                          'fail': fail, 'sample': sample}), file=out, flush=True)


def main():
    signal.signal(signal.SIGALRM, alarm)
    signal.signal(signal.SIGPROF, alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mode = sys.argv[1]
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    if mode == 'replay':
        r = json.load(open(sys.argv[2]))
        importlib.import_module('specs.' + r['property'].lower())
        fs = {f.__name__: f for p, f, o in vc.THEOREMS if r['property'] in p}
        f = fs[r['theorem']]
        s = snapshot()
        for h in r.get('history', ()):
            restore(s)
            source = vc.Source(h['inputs'], 1, ())
            source.warm = h['warm']
            once(fs[h['theorem']], source, 30, fs.get(source.warm))
        restore(s)
        source = vc.Source(r['inputs'], 1, ())
        source.warm = r.get('warm')
        res, why = once(f, source, ENDLESS if r.get('slow') else 120, fs.get(source.warm))
        if res == 'slow' and why == 'cpu' and r.get('slow'):
            res, why = 'fail', r['why']
        print(json.dumps({'result': res, 'why': why}), file=out)
        return 1 if res == 'fail' else 0
    prop, seed, secs = sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
    only = sys.argv[5:]
    importlib.import_module('specs.' + prop.lower())
    cs = consts()
    s = snapshot()
    mine = [f for props, f, opts in vc.THEOREMS if prop in props and (not only or f.__name__ in only)]
    if not only:
        secs = max(0.4, min(secs, 24 * secs / max(1, len(mine))))
    todo = [(f, o) for p, f, o in vc.THEOREMS if f in mine and prop in p]
    firsts = [(f.__name__, f) for p, f, o in vc.THEOREMS if prop in p and not o.get('step') and o.get('weight', 1) <= 2]
    k = min(4, len(todo)) if not only else 1
    if k <= 1:
        search(prop, todo, seed, secs, cs, s, out, firsts)
        return 0
    pipes = []
    for i in range(k):
        r, w = os.pipe()
        if os.fork() == 0:
            os.close(r)
            code = 1
            try:
                with os.fdopen(w, 'w') as g:
                    search(prop, todo[i::k], seed, secs, cs, s, g, firsts)
                code = 0
            except BaseException:
                traceback.print_exc()
            os._exit(code)
        os.close(w)
        pipes.append(r)
    for r in pipes:
        with os.fdopen(r) as g:
            out.write(g.read())
    out.flush()
    bad = 0
    for i in range(k):
        bad |= os.wait()[1]
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
