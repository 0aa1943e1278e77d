#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/harness')
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = getattr(registry, 'NOT_APPLICABLE', {})
m = {'version': 1, 'setup_cmd': 'make -j4 -C /verif/engine', 'checks': [], 'not_applicable': []}
if getattr(registry, 'HOOKS', None): m['hooks'] = registry.HOOKS
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py --property %s --tier quick' % i, 'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'symbolic execution of the LLVM IR of the real code, branches and assertions decided by z3 within stated bounds',
            'level': 'model_checking', 'level_note': registry.CHECKS[i]['note'] + ' Bounded: holds for every input within the bounds in the evidence file; trusts clang, the executor (validated by native replay on every run) and z3.'})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
