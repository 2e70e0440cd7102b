"""Writes MANIFEST.json from properties.jsonl, jobs.py and the not-applicable list below."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from jobs import JOBS
NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
LEVEL_NOTE = ('Bounded symbolic execution of the LLVM IR rustc emits for the current sources; every assertion is decided by z3 (or by a polynomial normal form '
              'that is identically zero) for all inputs within the bounds listed in the evidence; counterexamples are replayed natively before they are reported. ')
NOTES = {
    'bits': 'Floats are IEEE-754 single precision, bit for bit; libm transcendental functions are uninterpreted.',
    'real': 'Floats are exact reals, so rounding error is outside the encoding and tolerances cover it.',
}
checks = []
for p in props:
    js = JOBS.get(p['id'])
    if not js: continue
    modes = sorted({j['mode'] for j in js})
    bounds = sorted({b for j in js for b in j.get('bounds', [])})
    c = dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
             technique='symbolic execution of compiler IR with SMT', level='model_checking',
             level_note=LEVEL_NOTE + ' '.join(NOTES[m] for m in modes) + ' Bounds: ' + '; '.join(bounds) + '.', evidence_file='evidence/%s.json' % p['id'])
    checks.append(c)
na = [dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'check not built yet')) for p in props if p['id'] not in JOBS]
m = dict(version=1, setup_cmd='python3-vt check.py --setup', checks=checks, hooks=dict(guard='none', enable='no hooks: the checks use the public interface only', source_commits=[]), not_applicable=na,
         notes='One check per property; each rebuilds IR from /repo and decides every assertion of its harness entries. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
