#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = getattr(specs, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.PROPS and i not in NA:
        s = specs.PROPS[i]
        note = 'Solver verdict over all values within the bounds: ' + s['bounds'] + '.'
        if s['outside']:
            note += ' Outside: ' + s['outside'] + '.'
        note += ' Trusts clang/LLVM IR, the C++ library models (sampled paths are replayed natively), z3.'
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i,
                           technique='symbolic execution of the LLVM IR of the real code with an SMT solver (z3), counterexamples replayed natively',
                           level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the check for this property is not built yet')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
