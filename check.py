#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decides one property of /repo's current tree by
symbolic execution of the real code (engine/), see DESIGN.md."""
import sys, os, json, subprocess, time, shutil, concurrent.futures as cf, tempfile, re, threading
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, HERE)
import jobs as JOBS
BUILD = os.path.join(HERE, 'build'); SYMX = os.path.join(BUILD, 'symx')
T0 = time.time()
INC = lambda stubs: ([f'-I{HERE}/stubs'] if stubs else []) + [f'-I{HERE}/harness', f'-I{REPO}', f'-I{REPO}/GraphBLAS/Include', f'-I{REPO}/GTgraph/sprng2.0-lite/include']
PRE = ['-include', 'cstdint', '-include', f'{HERE}/harness/sx_pre.h']
ENC = ['clang++-18', '-std=c++17', '-O1', '-gline-tables-only', '-fopenmp', '-fno-exceptions', '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-realloc', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-DSX_ENCODE', '-DCPP'] + PRE
NAT = ['g++', '-std=c++17', '-O2', '-g', '-fopenmp', '-DCPP'] + PRE
ASAN = ['g++', '-std=c++17', '-O1', '-g', '-fopenmp', '-DCPP', '-fsanitize=address', '-fno-omit-frame-pointer'] + PRE
# kinds the ordinary build cannot exhibit by itself: confirmed by concrete re-execution of the compiled IR
IR_KINDS = {'race', 'leak', 'uninit-branch', 'uninit-pointer', 'uninit-size', 'barrier-divergence', 'alloc-mismatch', 'out-of-bounds', 'use-after-free', 'double-free', 'invalid-free', 'unreachable', 'write-to-constant', 'bad-call'}

def sh(cmd, timeout=None, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        return p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        return -999, (x.stdout or b'').decode(errors='replace')

class Build:
    """per-run compilation of the harnesses against the current tree"""
    def __init__(self, tmp): self.tmp = tmp; self.res = {}; self.lock = threading.Lock(); self.locks = {}
    def get(self, kind, h):
        with self.lock: l = self.locks.setdefault((kind, h), threading.Lock())
        with l:
            if (kind, h) not in self.res: self.res[(kind, h)] = self.make(kind, h)
            return self.res[(kind, h)]
    def make(self, kind, h):
        src = f'{HERE}/harness/{h}.cpp'; out = f'{self.tmp}/{h}.{kind}'
        extra = JOBS.HARNESS_FLAGS.get(h, [])
        extra = [x.replace('@REPO@', REPO) for x in extra]
        if kind == 'bc': cmd = ENC + INC(True) + extra + ['-w', '-c', '-emit-llvm', src, '-o', out]
        else: cmd = (NAT if kind == 'nat' else ASAN) + INC(False) + extra + ['-w', '-rdynamic', src, f'{HERE}/harness/sxrt.cpp', '-o', out, '-ldl']
        rc, log = sh(cmd, timeout=400)
        return (out, '') if rc == 0 else (None, log[-3000:])

def known(prop):
    out = []
    f = f'{HERE}/known-findings.txt'
    if not os.path.exists(f): return out
    for ln in open(f):
        m = re.match(r'finding: property=(\S+) entry=(\S+) kind=(\S+) at=(\S+) \| (.*)', ln.strip())
        if m and m.group(1) == prop: out.append(dict(entry=m.group(2), kind=m.group(3), at=m.group(4), what=m.group(5)))
    return out

def run_job(b, j, deadline, tmp):
    bc, log = b.get('bc', j['h'])
    if not bc: return dict(status='compile-error', reason=log, job=j)
    to = max(5, min(j['timeout'], deadline - time.time()))
    if deadline - time.time() < 3: return dict(status='inconclusive', reason='time budget exhausted', job=j)
    cmd = [SYMX, bc, '--entry', j['entry'], '--params', ','.join(map(str, j['params'])), '--timeout', str(int(to)), '--max-viol', '6', '--max-iter', str(j['max_iter']), '--query-timeout', '120000'] + j['opts']
    out = tempfile.mktemp(dir=tmp); rc, log = sh(cmd + ['--out', out], timeout=to + 30)
    try: r = json.load(open(out))
    except Exception: r = dict(status='inconclusive', reason=f'engine ended with {rc}: {log[-300:]}', violations=[], covers=[], functions=[], stats={})
    r['job'] = j; r['cmd'] = ' '.join(cmd)
    if r['status'] == 'pass':
        miss = [c for c in j['covers'] if c not in r['covers']]
        if miss: r['status'] = 'inconclusive'; r['reason'] = 'vacuous: not reached: ' + ', '.join(miss)
    return r

def replay(b, j, v, path):
    """confirm a counterexample against the real code; returns a description or None"""
    os.makedirs(path, exist_ok=True)
    with open(f'{path}/model.txt', 'w') as f:
        for k, x in v['model'].items(): f.write(f'{x} {k}\n')
    owner = any(k.startswith('chunk_owner') for k in v['model'])
    log = ''; verdict = None
    exe, clog = b.get('asan', j['h'])
    if exe:
        for _ in range(3):
            rc, log = sh([exe, j['entry'], ','.join(map(str, j['params']))], timeout=40, env=dict(SX_MODEL=f'{path}/model.txt', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=165:alloc_dealloc_mismatch=1', OMP_DYNAMIC='false'))
            if rc == -999 and v['kind'] == 'non-termination': verdict = 'native: does not terminate'; break
            if rc not in (0, 78, 2, -999): verdict = f'native run exits with {rc}'; break
    if not verdict:
        bc, _ = b.get('bc', j['h']); out = f'{path}/ir.json'
        fixes = [y for k, x in v['model'].items() for y in ('--fix', f'{k}={x}')] or ['--fix', 'none=0']
        rc, l2 = sh([SYMX, bc, '--entry', j['entry'], '--params', ','.join(map(str, j['params'])), '--timeout', '60', '--max-iter', str(j['max_iter']), '--out', out] + j['opts'] + fixes, timeout=100)
        try: r = json.load(open(out))
        except Exception: r = dict(status='?', violations=[])
        same = [w for w in r['violations'] if w['kind'] == v['kind'] and w['msg'] == v['msg']] or [w for w in r['violations'] if w['kind'] == v['kind']]
        if same and (v['kind'] in IR_KINDS or owner or '--preempt' in j['opts'] or 'uninitialised' in v['msg']): verdict = 'concrete re-execution of the compiled code: ' + same[0]['kind'] + ': ' + same[0]['msg']
        log += '\n' + json.dumps(r)[:2000]
    with open(f'{path}/replay.txt', 'w') as f:
        f.write(f"harness {j['h']}.cpp entry {j['entry']} params {j['params']}\n{v['kind']}: {v['msg']} at {v['loc']}\nmodel: {v['model']}\nconfirmed: {verdict}\n\n{log[-4000:]}\n")
    return verdict

def native_samples(b, j, n, seed, tmp):
    """the same harness against the ordinary g++ -O2 build on random inputs: validates harness and encoding"""
    if not j['native'] or n == 0: return 0, 0, ''
    exe, log = b.get('nat', j['h'])
    if not exe: return 0, 0, 'native build failed: ' + log[-300:]
    ok = bad = 0; msg = ''
    for i in range(n):
        rc, out = sh([exe, j['entry'], ','.join(map(str, j['params']))], timeout=60, env=dict(SX_RANDOM=str(seed * 1000 + i), OMP_DYNAMIC='false'))
        if rc == 0: ok += 1
        elif rc not in (78, 2, -999): bad += 1; msg = f'{j["h"]}:{j["entry"]} {j["params"]} random native run {i} exits with {rc}: {out[-200:]}'
    return ok, bad, msg

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = JOBS.PROPS[prop]
    js = [j for j in spec['jobs'] if j['tier'] == 'q' or tier == 'thorough']
    if tier == 'thorough': js = [j for j in js if not j.get('quick_only')]
    if only: js = [j for j in js if only in f"{j['h']}:{j['entry']}:{','.join(map(str, j['params']))}"]
    rc, log = sh(['bash', f'{HERE}/engine/build.sh'], timeout=600)
    if rc != 0: print('engine build failed\n' + log); sys.exit(2)
    os.makedirs(BUILD, exist_ok=True); tmp = tempfile.mkdtemp(prefix='run-', dir=BUILD)
    deadline = T0 + (700 if tier == 'quick' else int(os.environ.get('SX_BUDGET', '820')))
    rep = f'{HERE}/evidence/replay/{prop}'; shutil.rmtree(rep, ignore_errors=True); os.makedirs(f'{HERE}/evidence', exist_ok=True)
    b = Build(tmp)
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            hs = sorted({j['h'] for j in js}); pre = [ex.submit(b.get, 'bc', h) for h in hs]
            for p in pre: p.result()
            order = sorted(js, key=lambda j: -j['weight'])
            if any(j['native'] for j in js):
                natpre = [ex.submit(b.get, 'nat', h) for h in hs]
            res = list(ex.map(lambda j: run_job(b, j, deadline, tmp), order))
            nsamp = (2 if tier == 'quick' else 20)
            nat = list(ex.map(lambda r: native_samples(b, r['job'], nsamp if r['status'] == 'pass' and time.time() < deadline - 20 else 0, seed, tmp), res))
            kn = known(prop); found = []; unconf = []; seen = set(); knownhit = {}
            todo = []
            for r in res:
                for v in r.get('violations', []):
                    key = (r['job']['h'], r['job']['entry'], v['kind'], v['msg'], v['loc'])
                    if key in seen: continue
                    seen.add(key)
                    k = next((k for k in kn if k['entry'] in ('*', r['job']['entry']) and k['kind'] in ('*', v['kind']) and (k['at'] == '*' or k['at'] in v['loc'] + ' ' + v['msg'].replace(' ', '_'))), None)
                    todo.append((r, v, k))
            def conf(t):
                i, (r, v, k) = t
                return replay(b, r['job'], v, f'{rep}/{i}')
            todo = todo[:40]
            for (r, v, k), c in zip(todo, ex.map(conf, enumerate(todo))):
                if k: knownhit[k['what']] = k; continue
                (found if c else unconf).append((r, v, c, f'{rep}/{todo.index((r, v, k))}'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    inc = [r for r in res if r['status'] in ('inconclusive', 'compile-error')]
    S = lambda k: sum(r.get('stats', {}).get(k, 0) for r in res)
    npass = sum(r['status'] == 'pass' for r in res)
    fns = sorted({f for r in res for f in r.get('functions', [])})
    for k in knownhit: print(f'KNOWN-FINDING: property={prop} {k}')
    for r, v, c, path in found: print(f"VIOLATION property={prop} replay={path}\n  {r['job']['h']}:{r['job']['entry']} params {r['job']['params']}: {v['kind']}: {v['msg']} at {v['loc']}; confirmed by {c}")
    for r in inc: print(f"INCONCLUSIVE {r['job']['h']}:{r['job']['entry']} {r['job']['params']}: {r['reason'][:600 if verbose else 200]}")
    for r, v, c, path in unconf: print(f"UNCONFIRMED (not reported) {r['job']['h']}:{r['job']['entry']} {r['job']['params']}: {v['kind']}: {v['msg']} at {v['loc']}")
    mism = [x[2] for x in nat if x[1] or x[2]]
    for m in mism[:5]: print('NATIVE-MISMATCH', m)
    if verbose:
        for r in sorted(res, key=lambda r: -r.get('stats', {}).get('wall_s', 0)): print(f"  {r['status']:12} {r['job']['h']}:{r['job']['entry']} {r['job']['params']} {r.get('stats', {}).get('wall_s', 0):.1f}s nodes {r.get('stats', {}).get('bdd_nodes', 0)} {r['job']['opts']}")
    wall = time.time() - T0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 2), violations=len(found),
        coverage=dict(states=S('blocks'), transitions=S('instrs'), traces_validated_against_impl=sum(x[0] for x in nat) + len(found),
            exhaustive=False, obligations=S('obligations'), solver_queries=S('queries'), decided_by_bdd_alone=S('bdd_decided'), solver_unsat=S('unsat'), solver_sat=S('sat'), solver_unknown=S('unknown'), solver_s=round(S('solver_s'), 3),
            engine_s=round(S('wall_s'), 2), symbolic_inputs=S('inputs'), guard_variables=S('vars'), memory_accesses_checked=S('accesses'), race_pairs_checked=S('race_pairs'), max_loop_iterations=max([r.get('stats', {}).get('max_iter', 0) for r in res] or [0]),
            jobs=len(res), jobs_passed=npass, jobs_inconclusive=[f"{r['job']['entry']} {r['job']['params']}: {r['reason'][:160]}" for r in inc], unconfirmed=[f"{v['kind']}: {v['msg']} at {v['loc']}" for r, v, c, p_ in unconf],
            native_mismatches=mism[:5], known_findings=list(knownhit), functions_encoded=fns, bounds=spec['bounds'],
            explanation='states = basic blocks executed symbolically (one per merged path set), transitions = IR instructions executed symbolically; every obligation is the infeasibility of path condition and negated condition, decided by BDD reduction and z3; traces_validated_against_impl = runs of the same harness natively (random inputs on passing jobs, counterexample replays)',
            samples=[dict(entry=r['job']['entry'], params=r['job']['params'], status=r['status'], instrs=r.get('stats', {}).get('instrs', 0), queries=r.get('stats', {}).get('queries', 0), inputs=r.get('stats', {}).get('inputs', 0)) for r in res[:40]] + [dict(violation=f"{v['kind']}: {v['msg']} at {v['loc']}", model=v['model']) for r, v, c, p_ in found[:5]]),
        assumptions=spec.get('assumptions', []) + JOBS.ASSUME)
    if not only: json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier}: {npass}/{len(res)} jobs passed, {len(inc)} inconclusive, {len(found)} violations, {len(unconf)} unconfirmed, {S("queries")} queries, {wall:.0f}s')
    if found: sys.exit(1)
    if res and all(r['status'] == 'compile-error' for r in res): sys.exit(2)
    sys.exit(0)
main()
