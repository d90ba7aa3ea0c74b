"""Writes MANIFEST.json from plan.py and the registered contracts."""
import sys, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
from contracts import load_all, base
load_all()
checks, na = [], []
for p, d in PLAN.items():
    quals = [q for q, c in base.REG.items() if p in c.props]
    if not quals:
        na.append({'property': p, 'reason': d.get('reason', 'no contract built yet')}); continue
    checks.append({'property': p, 'quick_cmd': f'python3-vt run.py {p} quick', 'thorough_cmd': f'python3-vt run.py {p} thorough',
                   'level': d.get('level', 'proof'),
                   'technique': 'contract-based deductive verification: functions extracted from /repo/src on every run, verification conditions by symbolic execution against contracts and loop invariants, discharged by z3/cvc5; ' + d.get('technique', 'counterexamples replayed on the real code'),
                   'level_note': d.get('note', 'All inputs, no bound, under the assumptions listed in the evidence; functions under contract and assumed models are listed there.')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
