#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
props = json.load(open(d + '/props.json'))
ids = [json.loads(l)['id'] for l in open(d + '/properties.jsonl')]
NA = {}
NOTE = ("Exhaustive within the stated bounds when evidence says exhaustive=true: every feasible path of the real Go code "
        "(SSA built from /repo's current source) over the symbolic inputs is decided by z3/cvc5. Trusts the engine's Go "
        "semantics and its models of math/big, sync, os and reflect (sampled paths are re-run natively and compared), "
        "and the solvers. Outside the bounds nothing is claimed.")
checks, na = [], []
for i in ids:
    s = props.get(i)
    if s is None or s.get('na'):
        na.append({'property': i, 'reason': (s or {}).get('na') or 'not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash ./check.sh {i} quick',
        'thorough_cmd': f'bash ./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': s.get('technique', "symbolic execution of the real code's Go SSA; SMT (z3, cvc5) decides every branch and assertion; counterexamples replayed natively"),
        'level': 'model_checking',
        'level_note': (s.get('note', '') + ' Bounds: ' + s['bounds'] + '. ' + NOTE).strip(),
    })
m = {'version': 1, 'setup_cmd': 'bash ./build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. No hooks are needed in /repo: harness packages are compiled in through a build overlay.'}
json.dump(m, open(d + '/MANIFEST.json', 'w'), indent=1)
open(d + '/MANIFEST.json', 'a').write('\n')
