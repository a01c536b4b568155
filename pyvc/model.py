"""From a solver model to concrete inputs; the second solver."""
import subprocess
import z3
from . import ropes as R


def ev(m, t):
    return m.eval(t, model_completion=True)


def evint(m, t):
    v = ev(m, t)
    if z3.is_int_value(v):
        return v.as_long()
    raise ValueError('no value')


def blob(m, atom, n=None, text=False):
    n = evint(m, R.blen(atom)) if n is None else n
    n = max(0, min(n, 70000))
    out = []
    # defaults spread a little: the model leaves most elements open
    for i in range(n):
        v = evint(m, R.at(atom, z3.IntVal(i))) if i < 3000 else 0
        if text:
            v = v % 0x110000
            if 0xd800 <= v < 0xe000:
                v = 0x41
        else:
            v &= 0xff
        out.append(v)
    return ''.join(map(chr, out)) if text else {'hex': bytes(out).hex()}


def enc(v):
    return {'int': str(v)} if abs(v) >= 2 ** 53 else v


def inputs_of(o):
    m = o.model
    out = {}
    for name, kind, t in o.inputs:
        if kind == 'int':
            out[name] = enc(evint(m, t))
        elif kind == 'bool':
            out[name] = z3.is_true(ev(m, t))
        elif kind == 'choice':
            out[name] = t
        elif kind == 'bytes':
            out[name] = blob(m, t)
        elif kind == 'text':
            out[name] = blob(m, t, text=True)
        elif kind == 'list':
            n, g, ek = t
            n = n if isinstance(n, int) else evint(m, n)
            n = max(0, min(n, 300))
            xs = []
            for i in range(n):
                e = g(z3.IntVal(i))
                xs.append(enc(evint(m, e)) if ek == 'int' else blob(m, e, text=(ek == 'text')))
            out[name] = xs
    return out


def cvc5_check(smt2, secs):
    try:
        txt = '(set-logic ALL)\n' + smt2
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (secs * 1000), '-'], input=txt.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=secs + 5)
        r = p.stdout.decode().strip().splitlines()
        return r[-1] if r and r[-1] in ('sat', 'unsat', 'unknown') else 'error'
    except subprocess.TimeoutExpired:
        return 'timeout'
    except OSError:
        return 'missing'
