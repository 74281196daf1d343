#!/usr/bin/env python3
# regenerates MANIFEST.json from jobs.py and properties.jsonl
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import jobs
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if i in jobs.PROPS:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
            technique='symbolic execution of the compiled real code (LLVM IR), obligations decided by BDD + z3, counterexamples replayed on the real build',
            level='model_checking', level_note='Bounded: ' + jobs.PROPS[i]['bounds']))
    else: na.append(dict(property=i, reason=jobs.NOT_APPLICABLE.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na), open(f'{H}/MANIFEST.json', 'w'), indent=1)
