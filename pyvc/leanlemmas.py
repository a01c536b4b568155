"""The lemmas the specifications use, proved in Lean from Mathlib (/verif/lean).

They say nothing about code in /repo, so they are not obligations: a lemma whose proof Lean accepts leaves the trusted base, one whose
proof could not be run (no Lean, too slow) stays in it.
"""
import os
import re
import signal
import subprocess
import time

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean')
AXIOMS = {'propext', 'Classical.choice', 'Quot.sound'}
# lemma -> its theorems
TABLE = {
    'P is a prime 3 mod 4, so v^((P+1)/4) is a square root of a square v': ['Prime.prime_secp256r1', 'Numbers.root_3_mod_4_int'],
    'P is prime, so two square roots of one number are equal or opposite': ['Prime.prime_secp256r1', 'Numbers.roots'],
    'for a prime p = 3 mod 4, v^((p+1)/4) squares to v when v is a square': ['Numbers.root_3_mod_4_int'],
    'for a prime p = 5 mod 8, a non-zero square v has v^((p-1)/4) = 1 and v^((p+3)/8) squares to it, or (4v)^((p-5)/8) 2v does': ['Numbers.root_5_mod_8_int'],
    '0 + Q = Q': ['Group.zero_add_int'],
    'P + 0 = P': ['Group.add_zero_int'],
    'P + -P = 0': ['Group.opposite_int'],
    '-(iG) = (-i)G': ['Group.neg_int', 'Group.range'],
    'two points of a curve with the same x are equal or opposite': ['Group.same_x_int'],
    'chord and tangent: iG + jG = (i+j)G': ['Group.chord_and_tangent', 'Group.range', 'Group.at_zero'],
    'i = j modulo the order of G, so iG = jG': ['Group.repeats'],
    'digits': ['Digits.division_loop', 'Digits.division_loop_end', 'Digits.division_loop_before', 'Digits.horner', 'Digits.digit', 'Digits.injective',
               'Digits.val_append', 'Digits.val_lt', 'Digits.high_zero', 'Digits.sign'],
}
FILES = {'C23': ['Prime', 'Numbers'], 'C24': ['Numbers', 'Digits'], 'C25': ['Group'], 'C27': ['Digits']}


class Proofs:
    def __init__(self, prop):
        self.procs = {}
        self.t0 = time.time()
        for f in FILES.get(prop, []):
            try:
                self.procs[f] = subprocess.Popen(['nice', 'lean', os.path.join(DIR, f + '.lean')], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                                 stderr=subprocess.STDOUT, cwd=DIR, start_new_session=True)
            except OSError:
                pass

    def results(self, wait=60):
        """{theorem: the axioms it stands on}"""
        out = {}
        self.notes = []
        end = max(time.time() + 2, self.t0 + wait)
        for f, p in self.procs.items():
            try:
                text = p.communicate(timeout=max(1, end - time.time()))[0].decode('utf-8', 'replace')
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                self.notes.append('lean %s.lean: no answer in time' % f)
                continue
            except Exception as e:
                self.notes.append('lean %s.lean: %s' % (f, e))
                continue
            if p.returncode:
                self.notes.append('lean %s.lean: %s' % (f, text[:200]))
                continue
            for n, a in re.findall(r"^'([^']+)' depends on axioms: \[([^\]]*)\]", text, re.M):
                a = {x.strip() for x in a.split(',')}
                if a <= AXIOMS:
                    out['%s.%s' % (f, n)] = sorted(a)
            for n in re.findall(r"^'([^']+)' does not depend on any axioms", text, re.M):
                out['%s.%s' % (f, n)] = []
        self.procs = {}
        return out

    def split(self, lemmas, wait=60):
        """(lemmas proved, with their theorems; lemmas trusted)"""
        r = self.results(wait)
        ok = {x: TABLE[x] for x in lemmas if x in TABLE and all(t in r for t in TABLE[x])}
        return ok, [x for x in lemmas if x not in ok]
