#!/usr/bin/env python3
# mkseed.py SPEC.py: writes /verif/seeded/<id>/ for each bug of the spec (a list BUGS of dicts id, property, needs, breaks, edits=[(file, old, new)], demo).
import sys, os, subprocess, shutil, json, runpy
S = '/tmp/seedrepo'
def sh(*a, **k): return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout
lib = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seedlib')
only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])['BUGS']:
    if only and b['id'] not in only: continue
    if os.path.exists(S): shutil.rmtree(S)
    sh('git', 'clone', '-q', '/repo', S)
    for f, old, new in b['edits']:
        p = os.path.join(S, f); t = open(p, newline='').read()
        assert t.count(old) == 1, (b['id'], f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    d = '/verif/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w', newline='').write(sh('git', '-C', S, 'diff'))
    open(d + '/demo.cpp', 'w').write(b['demo'])
    shutil.copy(lib + '/common.h', d); shutil.copy(lib + '/demo.sh', d); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=S, capture_output=True, text=True)
    print(b['id'], 'clean', r0.returncode, 'patched', r1.returncode, (r1.stdout + r1.stderr).strip()[-150:].replace('\n', ' | '), '' if r0.returncode == 0 and r1.returncode != 0 else '  <<<<< BAD ' + (r0.stdout + r0.stderr)[-600:])
    shutil.rmtree(S)
