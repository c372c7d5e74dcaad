#!/usr/bin/env python3
"""writes MANIFEST.json: a check for every property that has contracts"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = ''.join(open(f).read() for f in glob.glob(V + '/contracts/*.cpp'))
meta = json.load(open(V + '/contracts/meta.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = ('contract-based deductive verification: pre/postconditions on the unmodified repository functions, every '
        'obligation generated by symbolic execution of the compiled source text over exact reals and discharged by '
        'polynomial/trigonometric normal forms, congruence closure and z3')
HOOKS = ['91db512af48c918b4f90f786ce45cae711deeb29']
checks, na = [], []
for p in props:
    i = p['id']
    if re.search(r'CONTRACT\(' + i + '_', src):
        m = meta.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'bin/check ' + i,
                       'technique': m.get('technique', TECH), 'level': m.get('level', 'proof'),
                       'level_note': m.get('level_note', 'All real inputs, every path; dimensions as listed under "bounded" in the evidence file; machine arithmetic treated as exact real arithmetic.')})
    else:
        na.append({'property': i, 'reason': 'contracts for this property are not built yet'})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
           'hooks': {'guard': 'DRIFT_VERIFY',
                     'enable': 'engine/pre.h, which bin/check puts before every source it compiles, defines DRIFT_VERIFY and '
                               'DRIFT_LOOP_INVARIANT; without it the macro is empty',
                     'source_commits': HOOKS},
           'notes': 'Contracts attach from outside (see DESIGN.md); the only hook in /repo is the loop annotation. VERIF_TIER selects quick or thorough.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
