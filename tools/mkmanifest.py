#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the properties that check.py decides."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'engine'))
import decide
TECH = 'static analysis: shape and value abstract interpretation of the instantiated source, fixpoint over all abstract cache states'
NOTE = ('Abstract interpretation, sound up to the listed assumptions: every history of public operations is covered by the inferred abstract states; '
        'trusts clang for the AST, the analyser, and the models of the standard library.')
TECHX = getattr(decide, 'TECHX', {})
NOTEX = getattr(decide, 'NOTEX', {})
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in ids:
    if p in decide.PLAN or p in decide.EXTRA:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                       'technique': TECHX.get(p, TECH), 'level': 'other', 'level_note': NOTEX.get(p, NOTE)})
    else:
        na.append({'property': p, 'reason': decide.NA.get(p, 'no check has been built yet') if hasattr(decide, 'NA') else 'no check has been built yet'})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks read the unmodified headers of /repo through driver programs in /verif/driver.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
