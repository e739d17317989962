#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, props/ and the reasons below"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C32': 'plots are produced by matplotlib/graphviz objects; there is no symbolic semantics of rendering to decide against',
}
LATER = 'no check is registered for this property yet'
NOTE = ('bounded symbolic execution of the package source with exact real arithmetic: every path within the stated sizes is explored and every '
        'assertion is decided by normal forms or z3 for all values of the symbolic probabilities, draws and parameters; counterexamples are replayed against the real package; '
        'floating-point rounding, numpy/scipy internals (taken at their documented contracts) and larger sizes are outside')
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i + '.py')):
        checks.append({'property': i, 'quick_cmd': f'./check.py {i}', 'thorough_cmd': f'./check.py {i} --tier thorough',
                       'technique': 'symbolic execution of the real source over exact rational functions, assertions decided by z3 (SMT), counterexamples replayed',
                       'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, LATER)})
d = {'version': 1, 'setup_cmd': './check.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(d, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
