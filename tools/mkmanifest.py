#!/usr/bin/env python3
"""write MANIFEST.json from the checks and properties present"""
import importlib
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
NA = {
    'C20': 'the global error depends on the growth of perturbations along the particular solution, a runtime quantity of the user problem no static argument on this source can bound; the local ingredients are C01, C02 and C19',
    'C21': 'the Adams coefficients of SWAG are produced by a history dependent recurrence over runtime data (step size ratios, order changes, partially updated v, w, g arrays); proving the recurrence equal to the divided difference integrals for all histories is a mathematical induction on array contents beyond the value analysis used here',
    'C22': 'coefficients and stage number m come from transcendental recurrences evaluated at run time (sinh, cosh, arccosh of m); order and stability hold only for the computed values for unbounded m, not decidable by a sound static rule in reach',
    'C23': 'whether a problem is stiff is a property of the user problem (its spectrum along the solution); the estimate is a numeric power iteration without a static specification',
    'C24': 'the quality of the starting step depends on the behaviour of the user problem; only its bounds and invariances are static and are covered by C08, C09, C10',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    m = None
    if os.path.exists(os.path.join(H, 'checks', i.lower() + '.py')):
        m = importlib.import_module('checks.' + i.lower())
    if m is not None and getattr(m, 'READY', True):
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}',
                           evidence_file=f'evidence/{i}.json', technique=m.TECHNIQUE, level=m.LEVEL,
                           level_note=m.RULE + ' Trusted: ' + '; '.join(m.ASSUME)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet (work in progress)')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='All checks analyse the Python source in /repo; none runs it. See DESIGN.md.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
