"""Writes /verif/MANIFEST.json: the claimed checks and what is not claimed."""
import json, os, sys

TECH = ('contract-based deductive verification: verification conditions generated from the real functions by symbolic execution with '
        'callee contracts and inductive loop summaries, discharged by z3')
BASE = ('Trusted: the VC generator (pyvc) and its model of CPython and of the standard library, and z3. ')
NOTE = {}
CLAIMED = {}


def claim(p, note, level='proof'):
    CLAIMED[p] = (level, BASE + note)


def build():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
    checks = []
    na = []
    for i in ids:
        if i in CLAIMED:
            checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i,
                           'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': CLAIMED[i][0],
                           'level_note': CLAIMED[i][1]})
        else:
            na.append({'property': i, 'reason': NOTE.get(i, 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'sh setup.sh',
         'hooks': {'guard': 'none', 'enable': 'nothing to enable: no hooks are added to /repo', 'source_commits': []},
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


U = 'All theorems are unbounded: every value, every length, every loop iteration. '
claim('C01', U + 'IEEE encoding of floats is left to struct.pack / unpack (assumed inverse of each other).')
claim('C02', U)
claim('C03', U + 'Text codecs are uninterpreted functions with their length bounds and the decode-after-encode law.')
claim('C04', U + 'Text codecs are uninterpreted functions with their length bounds and the decode-after-encode law.')
claim('C05', U)
claim('C06', U + 'The items are arbitrary objects with an encoding of arbitrary length (a test double class in specs/items.py).')
claim('C07', U + 'Known finding: values whose bytes are all ASCII hex digits (pinned by a test of the repository).')
claim('C08', U)
claim('C09', U)
claim('C10', U)
claim('C11', U)
claim('C12', U)
claim('C13', U)
claim('C14', U)
claim('C15', 'Unbounded, by induction over the levels: every case of __Build, the constructor, ComputeRoot, the search and ToHashArray for any number of leaves below 2^40 and any hashes (the composition of the cases is the rule of induction, see DESIGN). SHA-256 is an uninterpreted function. Whole-tree theorems (up to 40 leaves) are bounded and not counted.')
claim('C16', 'Unbounded, by induction over the depth: _TrimNode at any node, place and flags, and Trim (the composition of the cases is the rule of induction, see DESIGN). Whole-tree theorems (all flags up to 8 leaves, one flag up to 21) are bounded and not counted.')
claim('C17', U + 'SHA-256 and RIPEMD-160 are uninterpreted functions of the message.')
LIB = 'Base58, SHA-256, RIPEMD-160, AES, scrypt, Unicode normalisation and the curve arithmetic of the bitcoin package are assumed functions with the laws listed in the evidence. '
claim('C18', U + LIB)
claim('C19', U + LIB)
claim('C20', U + LIB)
claim('C21', U + LIB)
claim('C22', U + LIB)
claim('C23', U + 'Two facts about the prime P enter as named lemmas: v^((P+1)/4) is a square root of a square v, and square roots of one number are equal or opposite.')
claim('C24', 'All values and all moduli: identities are polynomial identities modulo p, shown by elimination (pyvc/algebra.py); the recursive GCD is verified '
      'against a Bezout contract. Euler\'s criterion and Fermat\'s little theorem enter as named lemmas for the square roots; '
      'the prime law of math.gcd is assumed.')
claim('C25', 'All points, scalars and curves y^2 = x^3 + ax + b over a prime field p > 3, b not 0. add and neg are verified against the contract '
      '"iG + jG = (i+j)G", whose chord-and-tangent form (the associativity of the group law) is a named lemma; the loop of mul is verified by an '
      'invariant found among templates; that multiples repeat with the order of the base point is a lemma.')
claim('C26', U + 'Sorting is shown for three points in every order.')
claim('C27', U)
claim('C28', U + LIB + 'argparse is run for real with placeholders for the unknown texts.')

if __name__ == '__main__':
    build()
