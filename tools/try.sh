#!/bin/bash
# try.sh harness entry params [opts]: one engine run
D=/verif; bash $D/engine/build.sh || exit 1
mkdir -p /tmp/t; R=${SX_REPO:-/repo}
F=$(python3 -c "import sys;sys.path.insert(0,'$D');import jobs;print(' '.join(x.replace('@REPO@','$R') for x in jobs.HARNESS_FLAGS.get('$1',[])))")
[ -n "$NOCOMP" ] || clang++-18 -std=c++17 -O1 -gline-tables-only -fopenmp -fno-exceptions -fno-builtin-malloc -fno-builtin-calloc -fno-builtin-realloc -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -DSX_ENCODE -DCPP -include cstdint -include $D/harness/sx_pre.h -I$D/stubs -I$D/harness -I$R -I$R/GraphBLAS/Include -I$R/GTgraph/sprng2.0-lite/include $F -w -c -emit-llvm $D/harness/$1.cpp -o /tmp/t/$1.bc 2>/tmp/t/cerr || { grep -m5 -A3 error: /tmp/t/cerr; exit 1; }
shift_h=$1; e=$2; p=$3; shift 3
timeout ${TO:-300} $D/build/symx /tmp/t/$shift_h.bc --entry $e --params "$p" --timeout ${TO:-300} "$@" --out /tmp/t/out.json; 
python3 - <<'PY'
import json
r=json.load(open('/tmp/t/out.json')); s=r['stats']
print(r['status'], r['reason'], r.get('at',''), f"{s['wall_s']:.1f}s nodes {s['bdd_nodes']} instrs {s['instrs']} q {s['queries']} asserts {s['asserts']} covers {r['covers']}")
for v in r['violations']: print('  V', v['kind'], v['msg'], '@', v['loc'], v['model'])
PY
