#!/usr/bin/env python3
"""writes MANIFEST.json from the catalog"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'specs'))
import catalog
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks = []
for p in props:
    c = catalog.PROPS.get(p)
    if not c:
        continue
    checks.append({
        'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py %s' % p,
        'technique': 'contract-based deductive verification: pre/postconditions, loop invariants and frame conditions on the real functions '
                     '(LLVM IR compiled from /repo on every run), every obligation discharged by an SMT solver',
        'level': c.get('level', 'proof'),
        'level_note': c.get('note') or ('Every obligation of every contract is discharged for all inputs and all loop iterations, with no bound. '
                                        'Trusted: clang/opt front end, the verifier (irvc), z3. Assumed: ' + '; '.join(c.get('assumptions', ()) or ['nothing beyond that'])),
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': catalog.NOT_APPLICABLE[p]} for p in props if p not in catalog.PROPS],
     'notes': 'No hooks in /repo. See DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(m['not_applicable']), 'not claimed')
