#!/usr/bin/env python3-vt
"""check.py PROP [quick|thorough]: decide one property on /repo's current tree."""
import io
import json
import os
import pickle
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
NATIVE_PY = '/opt/venv/bin/python'
EVID = os.environ.get('PYVC_EVID', os.path.join(VERIF, 'evidence'))
REPO = os.environ.get('PYVC_REPO', '/repo')

from pyvc import core                                               # noqa: E402
from pyvc.core import *                                             # noqa: E402
from pyvc.values import PyExc, clsname                              # noqa: E402
from pyvc import interp as interp_mod, contracts as contracts_mod   # noqa: E402
from pyvc import model as model_mod                                 # noqa: E402
from pyvc.leanlemmas import Proofs                                  # noqa: E402


class Job:
    def __init__(self, kind, name, inline=(), nocontracts=False, warm=False):
        self.warm = warm
        self.kind, self.name, self.inline, self.nocontracts = kind, name, tuple(sorted(inline)), nocontracts
        self.result = None

    def key(self):
        return (self.kind, self.name, self.inline, self.nocontracts)


def load(prop):
    it = interp_mod.Interp(contracts={})
    ex = Explorer(deadline=time.time() + 120)

    def program(ctx):
        it.load('specs.' + prop.lower())
        if ctx.pending:
            raise Unsupported('module code branches on unknown values')
    ex.run(program)
    # freeze under a context
    ctx = Ctx(ex, [])
    core.cur = ctx
    it.freeze_base()
    core.cur = None
    return it


def run_job(it, job, prop, tier, seconds):
    """in the child"""
    stats = Stats()
    ex = Explorer(branch_ms=2500, goal_ms=20000 if tier == 'quick' else 120000, deadline=time.time() + seconds, stats=stats,
                  keep_smt2=(tier == 'thorough'), max_paths=20000)
    it.inline = set(job.inline)
    it.no_contracts = job.nocontracts
    res = {'error': None, 'trace': None}
    checked = [0]
    dirty = []
    t0 = time.time()
    try:
        if job.kind == 'theorem':
            f, opts = [(f, o) for p, f, o in it.theorems if prop in p and f.name == job.name][0]
            first = [f for p, f, o in it.theorems if prop in p and f.name == job.warm]
            first = first[0] if first else None

            def program(ctx):
                it.reset()
                if opts.get('ring'):
                    ctx.ghost['ring'] = True
                if job.warm:
                    # a first run whose effects on modules and classes stay
                    ctx.muted = True
                    try:
                        it.call(first or f, [], {})
                    except PyExc as e:
                        pass
                    ctx.muted = False
                    it.frames = []
                    it.depth = 0
                try:
                    it.call(f, [], {})
                    if not job.warm and not dirty:
                        dirty.extend(it.dirt())
                except PyExc as e:
                    msg = ''
                    a = getattr(e.val, 'attrs', {}).get('args', ())
                    if a and isinstance(a[0], str):
                        msg = a[0][:100]
                    ctx.oblige(False, 'no unexpected exception (%s: %s)' % (clsname(e.val.cls), msg), '%s:%s' % (it.line or ('?', '?')))
                    return
                if ctx.checked_here:
                    if checked[0] == 0 and ctx.check() == z3.unsat:
                        return
                    checked[0] += 1
        else:
            con = it.contracts[job.name]
            p0 = contracts_mod.verify(it, con)

            def program(ctx):
                p0(ctx)
                if ctx.checked_here:
                    if checked[0] == 0 and ctx.check() == z3.unsat:
                        return
                    checked[0] += 1
        ex.run(program)
        if checked[0] == 0 and not ex.failed():
            res['error'] = 'vacuous: no path reaches a check'
    except Unsupported as e:
        res['error'] = 'unsupported: %s (at %s:%s)' % (e, *(it.line or ('?', '?')))
        res['trace'] = traceback.format_exc()[-1500:]
    except Undecided as e:
        res['error'] = 'unsupported: case split inside a quantified context (at %s:%s)' % (it.line or ('?', '?'))
        res['trace'] = traceback.format_exc()[-1500:]
    except Timeout as e:
        res['error'] = 'timeout: %s' % e
    except (z3.Z3Exception, RecursionError, MemoryError) as e:
        res['error'] = 'unsupported: %s: %s' % (type(e).__name__, str(e)[:200])
        res['trace'] = traceback.format_exc()[-1500:]
    except Exception as e:
        res['error'] = 'unsupported: internal %s: %s' % (type(e).__name__, str(e)[:200])
        res['trace'] = traceback.format_exc()[-2500:]
    obs = []
    for o in ex.obligations:
        d = {'label': o.label, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 4), 'where': o.where}
        if o.status != 'proved':
            d['goal'] = o.goal
            try:
                d['inputs'] = model_mod.inputs_of(o) if o.model is not None else None
            except Exception as e:
                d['inputs'] = None
                d['model_error'] = str(e)[:200]
        elif tier == 'thorough' and o.smt2 is not None:
            d['cvc5'] = model_mod.cvc5_check(o.smt2, 20)
        obs.append(d)
    res.update(dirty=dirty[:8], obligations=obs, paths=stats.paths, completed=checked[0], queries=stats.queries, solver_time=stats.solver_time,
               steps=stats.steps, bounded=stats.bounded, bodies=stats.bodies, contracts=stats.contracts_used, trusted=stats.trusted, lemmas=stats.lemmas,
               abandoned=stats.abandoned, wall=time.time() - t0)
    return res


def run_jobs(it, jobs, prop, tier, seconds, par=8):
    todo = list(jobs)
    live = {}
    while todo or live:
        while todo and len(live) < par:
            j = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    try:
                        res = run_job(it, j, prop, tier, seconds)
                    except BaseException as e:
                        res = {'error': 'unsupported: internal %s %s' % (type(e).__name__, str(e)[:200]), 'trace': traceback.format_exc()[-2500:]}
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (pid, j, bytearray(), time.time())
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            pid, j, buf, t0 = live[r]
            d = os.read(r, 1 << 16)
            if d:
                buf.extend(d)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                j.result = pickle.loads(bytes(buf))
            except Exception:
                j.result = {'error': 'unsupported: the verifier process ended early (memory?)'}
        for r in list(live):
            pid, j, buf, t0 = live[r]
            if time.time() - t0 > seconds + 60:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                j.result = {'error': 'timeout: killed after %d s' % (seconds + 60)}
    for j in jobs:
        for k, d in (('obligations', []), ('paths', 0), ('completed', 0), ('queries', 0), ('solver_time', 0.0), ('bounded', {}), ('bodies', {}),
                     ('contracts', {}), ('steps', {}), ('trusted', {}), ('lemmas', {}), ('abandoned', 0), ('wall', 0.0)):
            j.result.setdefault(k, d)


def warmly(f):
    return f['why'] + ('' if not f.get('warm') else ' (in the second of two runs in one process)' if f['warm'] is True else
                       ' (after a run of theorem %s in the same process)' % f['warm']) + (
        ' (after %d runs before it in the same process)' % len(f['history']) if f.get('history') else '')


def context(f):
    return {k: f[k] for k in ('warm', 'history', 'slow') if f.get(k)}


def failed(j):
    return [o for o in j.result['obligations'] if o['status'] != 'proved']


def good(j):
    return not j.result['error'] and not failed(j)


class NativeSearch:
    def __init__(self, prop, seed, secs, only=(), par=1):
        self.procs = []
        for i in range(par):
            self.procs.append(subprocess.Popen(
                [NATIVE_PY, '-B', os.path.join(VERIF, 'native', 'run.py'), 'search', prop, str(seed + 1000 * i), str(secs)] + list(only),
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')))

    def collect(self, limit):
        out = []
        err = ''
        for p in self.procs:
            try:
                o, e = p.communicate(timeout=limit)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
            for line in o.decode(errors='replace').splitlines():
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
            if p.returncode not in (0, -9):
                err = e.decode(errors='replace')[-1500:]
        return out, err


def replay(path, limit=150):
    try:
        p = subprocess.run([NATIVE_PY, '-B', os.path.join(VERIF, 'native', 'run.py'), 'replay', path], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=limit)
        r = json.loads(p.stdout.decode().splitlines()[-1])
        return r
    except Exception as e:
        return {'result': 'error', 'why': str(e)}


def main():
    t00 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    seconds = 240 if tier == 'quick' else 700
    if tier == 'thorough':
        seconds = 1800
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    violations = []
    notes = []
    nsecs = 2.0 if tier == 'quick' else 30.0
    native = NativeSearch(prop, seed, nsecs)
    lean = Proofs(prop)

    def violation(theorem, inputs, why, obligation, found, extra=None):
        n = len(violations)
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, n))
        rec = {'property': prop, 'theorem': theorem, 'inputs': inputs or {}, 'why': why, 'obligation': obligation,
               'replay_cmd': '%s -B %s/native/run.py replay %s' % (NATIVE_PY, VERIF, path)}
        if extra:
            rec.update(extra)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        violations.append((path, found))
        print('  theorem %s: %s' % (theorem, why))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'), flush=True)

    it = None
    loaderr = None
    try:
        it = load(prop)
    except PyExc as e:
        loaderr = 'importing the code raises %s' % clsname(e.val.cls)
    except Exception as e:
        loaderr = 'unsupported: %s: %s' % (type(e).__name__, str(e)[:300])
        if verbose:
            traceback.print_exc()
    jobs, cjobs, warm = [], [], []
    badcons = {}
    if it is not None:
        names = [f.name for p, f, o in it.theorems if prop in p]
        opts = {f.name: o for p, f, o in it.theorems if prop in p}
        jobs = [Job('theorem', n) for n in names]
        run_jobs(it, jobs, prop, tier, seconds)
        # every contract which was used is verified against its body
        done = {}
        want = set()
        for j in jobs:
            want |= set(j.result['contracts'])
        while want - set(done):
            batch = [Job('contract', n) for n in sorted(want - set(done))]
            run_jobs(it, batch, prop, tier, min(seconds, 200))
            for j in batch:
                done[j.name] = j
                want |= set(j.result['contracts'])
        cjobs = list(done.values())
        badcons = {n: j for n, j in done.items() if not good(j)}
        # contracts which lean on a bad one
        grow = True
        tainted = set(badcons)
        while grow:
            grow = False
            for n, j in done.items():
                if n not in tainted and set(j.result['contracts']) & tainted:
                    tainted.add(n)
                    grow = True
        for n, j in badcons.items():
            notes.append('contract %s not verified (%s): its callers are checked against the body' %
                         (n, j.result['error'] or 'fails: ' + '; '.join(o['label'] for o in failed(j))))
        redo = []
        for i, j in enumerate(jobs):
            if (set(j.result['contracts']) & tainted) or (not good(j) and j.result['contracts']):
                redo.append((i, Job('theorem', j.name, inline=tainted if good(j) else (), nocontracts=not good(j))))
        if redo:
            run_jobs(it, [j for _, j in redo], prop, tier, seconds)
            for i, j in redo:
                if good(j) or not good(jobs[i]):
                    jobs[i] = j
                else:
                    # proved through an unverified contract only
                    jobs[i] = j
            # contracts newly used with the bad ones inlined
            want2 = set()
            for j in jobs:
                want2 |= set(j.result['contracts'])
            extra = [Job('contract', n, inline=tainted) for n in sorted(want2 - set(done))]
            if extra:
                run_jobs(it, extra, prop, tier, min(seconds, 200))
                for j in extra:
                    cjobs.append(j)
                    if not good(j):
                        notes.append('contract %s not verified' % j.name)
                        for i, t in enumerate(jobs):
                            if j.name in t.result['contracts']:
                                t2 = Job('theorem', t.name, nocontracts=True)
                                run_jobs(it, [t2], prop, tier, seconds)
                                jobs[i] = t2
    # theorems which leave something behind in a module or a class: once more after a first run
    warm = [Job('theorem', j.name, j.inline, j.nocontracts, True) for j in jobs if good(j) and j.result.get('dirty')]
    if warm and it is not None:
        run_jobs(it, warm, prop, tier, min(seconds, 150))
        for j in warm:
            notes.append('theorem %s after an earlier run of itself: %s' %
                         (j.name, j.result['error'] or ('%d of %d obligations discharged' % (len(j.result['obligations']) - len(failed(j)), len(j.result['obligations'])))))
    # ... and the other theorems after it, as far as that is quick
    left = {j.name: j.result for j in warm}
    pairs = sorted(((j.result['wall'] * max(1, a.result['paths']) + a.result['wall'], a.name, j) for a in jobs if a.name in left for j in jobs
                    if j is not a and good(j) and not opts[j.name].get('step')), key=lambda x: x[:2])
    after = []
    budget = 8 * 60
    for t, a, j in pairs:
        if t < 60 and t < budget:
            budget -= t
            after.append(Job('theorem', j.name, j.inline, j.nocontracts, a))
    if after:
        run_jobs(it, after, prop, tier, 60)
        hit = {}
        for j in after:
            if any(o['status'] == 'refuted' for o in failed(j)):
                hit.setdefault(j.name, j)
        warm += hit.values()
        notes.append('%d theorems after an earlier run of another: %d of %d obligations discharged' % (
            len(after), sum(len(j.result['obligations']) - len(failed(j)) for j in after), sum(len(j.result['obligations']) for j in after)))
    nres, nerr = native.collect(900)
    nfail = {r['theorem']: r for r in nres if r['fail']}
    if it is None:
        names = [r['theorem'] for r in nres]
    standins = []
    # an induction step is written for code of one shape: where small cases do not fit it, the theorems about small trees decide alone
    shapes = {r['theorem']: r['shape'] for r in nres if r.get('shape')}
    for j in jobs + warm:
        if j.name in shapes and not (good(j) and j not in warm):
            j.result['error'] = 'unsupported: the code has another shape than this step (%s)' % shapes[j.name]
            j.result['obligations'] = []
            if j not in warm:
                standins.append({'theorem': j.name, 'why': j.result['error'], 'bound': 'the other theorems of this property'})
    reported = set()
    for name, r in nfail.items():
        violation(name, r['fail']['inputs'], warmly(r['fail']), 'theorem %s on the running code' % name, True, context(r['fail']))
        reported.add(name)
    if nerr and not nres:
        violation('(import)', {}, 'the code cannot be imported or the runner failed: ' + nerr[-400:], 'the modules import', False)
    pend = [j for j in jobs if not good(j) and j.name not in reported and j.name not in shapes]
    pend += [j for j in warm if j.name not in reported and any(o['status'] == 'refuted' for o in failed(j))]
    bigger = []
    for j in pend:
        fs = failed(j)
        hit = False
        for o in fs:
            if o.get('inputs') is None:
                continue
            path = os.path.join(EVID, 'replay', '%s-candidate.json' % prop)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'theorem': j.name, 'inputs': o['inputs'], 'warm': j.warm}, f)
            r = replay(path)
            if r['result'] == 'fail':
                violation(j.name, o['inputs'], r['why'], o['label'], True, {'warm': j.warm})
                hit = True
                break
        if not hit:
            bigger.append(j)
    if bigger or it is None:
        secs = 25 if tier == 'quick' else 120
        only = [j.name for j in bigger]
        if len(only) > 4:
            secs = max(6, 100 // len(only))
        ns = NativeSearch(prop, seed + 17, secs, only, par=6)
        nres2, nerr2 = ns.collect(800)
        hits = {}
        for r in nres2:
            if r['fail']:
                hits.setdefault(r['theorem'], r)
        tot = {}
        for r in nres2:
            tot[r['theorem']] = tot.get(r['theorem'], 0) + r['ok']
        for n, r in hits.items():
            j = [j for j in bigger if j.name == n]
            lab = failed(j[0])[0]['label'] if j and failed(j[0]) else 'theorem %s on the running code' % n
            violation(n, r['fail']['inputs'], warmly(r['fail']), lab, True, context(r['fail']))
        for j in bigger:
            if j.name in hits:
                continue
            fs = failed(j)
            if fs:
                o = fs[0]
                violation(j.name, o.get('inputs'), 'obligation not discharged: %s [%s] at %s' % (o['label'], o['status'], o['where']),
                          o['label'], False, {'verifier_output': o, 'warm': j.warm})
            else:
                standins.append({'theorem': j.name, 'why': j.result['error'], 'bound': '%d random runs of the real code' % tot.get(j.name, 0)})
        if it is None and not violations:
            for r in nres:
                standins.append({'theorem': r['theorem'], 'why': loaderr, 'bound': '%d random runs of the real code' % (r['ok'] + tot.get(r['theorem'], 0))})
    # ---------------------------------------------------------------- evidence
    alljobs = [j for j in jobs + cjobs]
    obs = [o for j in alljobs for o in j.result['obligations']]
    bad_now = [o for j in jobs for o in failed(j)]
    used = [j for j in alljobs if good(j)]
    counted = [o for j in used if not j.result['bounded'] for o in j.result['obligations']] + bad_now
    bounded_obs = [o for j in used if j.result['bounded'] for o in j.result['obligations']]
    backends = {}
    for o in counted:
        if o['status'] == 'proved':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    bounded = {}
    trusted = {}
    lemmas = {}
    bodies = {}
    for j in used:
        bounded.update(j.result['bounded'])
        trusted.update(j.result['trusted'])
        lemmas.update(j.result['lemmas'])
        for b, n in j.result['bodies'].items():
            bodies[b] = bodies.get(b, 0) + n
    for x in [x for x in trusted if x.startswith('lemma: ')]:
        lemmas[x[len('lemma: '):]] = trusted.pop(x)
    lean_ok, unproved = lean.split(lemmas, 90 if tier == 'quick' else 300)
    notes += lean.notes
    known = [k for k in known_findings() if k['property'] == prop and k.get('status') == 'open']
    for k in known:
        k['now'] = check_known(k)
        if k['now']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    level = manifest_level(prop)
    proved = [j.name for j in jobs if good(j) and not j.result['bounded']]
    cov = {
        'obligations': len(counted), 'discharged': sum(1 for o in counted if o['status'] == 'proved'),
        'checker_cmd': 'python3-vt %s/check.py %s %s' % (VERIF, prop, tier),
        'trusted_base': ['induction: the cases of %s, each proved, compose (DESIGN.md, Merkle trees)' % q for q in sorted(bysteps(jobs))] + sorted(trusted) + sorted('lemma: ' + x for x in unproved) +
        ['pyvc (the verification-condition generator in /verif/pyvc) and z3 %s' % z3.get_version_string(), 'CPython semantics as modelled in pyvc'],
        'backends': backends, 'solver_time_s': round(sum(j.result['solver_time'] for j in alljobs), 2),
        'solver_queries': sum(j.result['queries'] for j in alljobs), 'paths': sum(j.result['paths'] for j in alljobs),
        'theorems': {j.name: {'status': ('bounded' if j.result['bounded'] else 'proved') if good(j) else (j.result['error'] or 'failed'), 'obligations': len(j.result['obligations']),
                              'paths': j.result['completed'], 'wall_s': round(j.result['wall'], 2), 'bounded': j.result['bounded'],
                              'contracts': sorted(j.result['contracts'])} for j in jobs},
        'lemmas_proved_in_lean': lean_ok, 'lean': 'Lean 4 with Mathlib, %s/lean; axioms propext, Classical.choice, Quot.sound' % VERIF if lean_ok else None,
        'functions_under_contract': dict({j.name: 'verified' if good(j) else 'not verified, inlined' for j in cjobs}, **bysteps(jobs)),
        'bodies_executed_symbolically': sorted(bodies),
        'bounded': dict(bounded), 'bounded_obligations_not_counted': len(bounded_obs), 'bounded_stand_ins': standins,
        'native_cross_check': [{k: r[k] for k in ('theorem', 'runs', 'ok', 'distinct', 'slow')} for r in nres],
        'evaluations': sum(r['ok'] for r in nres), 'distinct_nontrivial': sum(r['distinct'] for r in nres),
        'rule': 'random and boundary inputs of the theorems run on the real code; a run counts when it passes every assumption and reaches a check',
        'samples': [r['sample'] for r in nres if r['sample']][:5],
        'notes': notes,
    }
    if tier == 'thorough':
        c5 = {}
        for o in counted:
            if 'cvc5' in o:
                c5[o['cvc5']] = c5.get(o['cvc5'], 0) + 1
        cov['cvc5_recheck'] = c5
    if loaderr:
        cov['notes'] = notes + [loaderr]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(trusted) + ['%s: %s' % kv for kv in sorted(bounded.items())] + [s['theorem'] + ': ' + str(s['why']) for s in standins],
          'wall_s': round(time.time() - t00, 2), 'violations': len(violations)}
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, '%s.json' % prop))
    try:
        os.remove(os.path.join(EVID, 'replay', '%s-candidate.json' % prop))
    except OSError:
        pass
    print('%s: %d theorems, %d proved, %d contracts verified, %d/%d obligations discharged, %d bounded, %d stand-ins, %d native runs, %.1f s'
          % (prop, len(jobs), len(proved), sum(1 for j in cjobs if good(j)), cov['discharged'], cov['obligations'], len(bounded), len(standins),
             cov['evaluations'], time.time() - t00))
    if verbose:
        for j in alljobs:
            print('  %-9s %-60s %s %.1fs paths=%d obl=%d' % (j.kind, j.name, 'ok' if good(j) else '**', j.result['wall'], j.result['completed'],
                                                         len(j.result['obligations'])),
                  j.result['error'] or '', j.result['bounded'] or '')
            for o in failed(j):
                print('       ', o['label'], o['status'], o['where'], o.get('inputs'), '\n          ', (o.get('goal') or '')[:300].replace('\n', ' '))
            if j.result['error'] and j.result.get('trace'):
                print(j.result['trace'])
        for n in notes:
            print('  note:', n)
        for r in nres:
            print('  native', r['theorem'], r['runs'], r['ok'], 'discarded', r['discarded'], r['fail'])
        if nerr:
            print(nerr)
    return 1 if violations else 0


def bysteps(jobs):
    """functions whose contract is a theorem of its own (an induction): the theorems which use it"""
    out = {}
    for j in jobs:
        for q in j.result['steps']:
            out.setdefault(q, []).append(j.name)
    return {q: 'by induction; the contract is used and established in the theorems ' + ', '.join(ns) for q, ns in out.items()}


def known_findings():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            return json.load(f)['findings']
    except OSError:
        return []


def check_known(k):
    """does the recorded input still fail on the real code?"""
    try:
        p = subprocess.run([NATIVE_PY, '-B', '-c', k['reproduce']], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                           env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'))
        return p.returncode != 0
    except Exception:
        return False


def manifest_level(prop):
    try:
        with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
            for c in json.load(f)['checks']:
                if c['property'] == prop:
                    return c['level']
    except (OSError, KeyError, ValueError):
        pass
    return 'proof'


if __name__ == '__main__':
    sys.exit(main())
