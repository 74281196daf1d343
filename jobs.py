# What each check runs: harness entries x parameters (the bounds).
HARNESS_FLAGS = {h: ['-DSX_NOEXT', '-fno-builtin', '-U__OPTIMIZE__'] for h in ('h_io', 'h_io_bad', 'h_tri', 'h_drvm', 'h_drvc', 'h_tc', 'h_tcb')}
HARNESS_FLAGS['h_gt'] = ['-Dregister=']
HARNESS_FLAGS['h_par'] = ['-fwrapv'] # keeps comparisons of pointers computed from an empty vector
ASSUME = ['allocation never fails', 'harness API and OpenMP/libstdc++ runtime calls are modelled by the executor; console output has an empty body',
          'sequentially consistent memory between synchronisation points (justified where the race check passes)']
PROPS = {}
def J(h, entry, *params, tier='q', opts=(), covers=('end',), timeout=None, max_iter=4000, weight=1, native=True, quick_only=False):
    o = list(opts)
    return dict(h=h, entry=entry, params=list(params), tier=tier, opts=o, covers=list(covers), timeout=timeout or (240 if tier == 'q' else 700), max_iter=max_iter, weight=weight, native=native, quick_only=quick_only)
NR = ['--no-race']
# one job per context switch before the k-th atomic operation of thread t
def PRE(h, entry, params, K, t=0, **kw): return [J(h, entry, *params, opts=['--preempt', f'{t},{k}'], native=False, **kw) for k in range(K)]
PL = [('h_masked', a) for a in ('msa1a', 'msa2a', 'hash', 'mca')] + [('h_masked_h', a) for a in ('heap0', 'heap1', 'heapdot')]
PLX = [('h_masked_h', a) for a in ('heap2', 'heap8')] + [('h_masked_o', a) for a in ('msa1a_old', 'msa2a_old', 'heap_v0', 'heap_v1', 'heap_v2')]
CO = [('h_masked_c', a) for a in ('c_msa1a', 'c_msa1a_s', 'c_msa2a', 'c_msa2a_s', 'c_hash', 'c_hash_s', 'c_heap')]
ANYORD = [('h_masked', a) for a in ('msa1a', 'msa2a', 'hash')] + [('h_masked_c', a) for a in ('c_msa1a', 'c_msa2a', 'c_hash')]
HASHY = ('hash', 'c_hash', 'c_hash_s')
WIDE = (1, 16, 0)
def P(id, bounds, jobs, **kw): PROPS[id] = dict(bounds=bounds, jobs=jobs, **kw)
# masked-product job: (harness, entry), dimensions, threads, phases, stretch, flags, alias, seed
def MJ(ha, d, th, ph, cs=1, fl=0, al=0, seed=None, **kw):
    if (ha[1] in HASHY) and cs == 1 and not fl & 16: cs = 16 if d[2] > 1 else 1
    return J(ha[0], ha[1], *d, th, ph, cs, fl, al, *([seed] if seed is not None else []), **kw)

# larger matrices on a fixed background with symbolic rows: dims, threads, stride (0: none), seed, symbolic rows, kinds of A, B, M
BIGS = [((30, 20, 600), 1, 0, 1, 1, 511, 511, 511), ((24, 30, 200), 5, 0, 2, 1, 511, 511, 7), ((36, 12, 80), 8, 0, 3, 1, 279, 511, 511), ((12, 8, 60), 2, 0, 4, 2, 511, 511, 511), ((8, 30, 400), 1, 0, 5, 1, 304, 496, 304)]
BIGT = [((r, k, c), th, 0, 20 + q, 1 + (c < 70), 511, 511, mk) for q, (r, k, c, th, mk) in enumerate(((36, 36, 640, 1, 511), (36, 36, 640, 7, 6), (30, 36, 300, 3, 511), (12, 8, 64, 1, 511), (20, 10, 60, 6, 287), (36, 5, 500, 4, 511), (5, 36, 500, 2, 511), (34, 33, 129, 16, 511), (16, 16, 257, 1, 511), (16, 16, 256, 2, 511), (10, 6, 40, 2, 511), (17, 9, 33, 3, 511)))]
BIGW = [((16, 16, 300), 3, 7000001, 7, 1, 511, 511, 511), ((20, 12, 200), 1, 65536, 8, 1, 511, 511, 511)]
def BG(h, e, ph, fl=0, wide=False, base=0, race=True):
    return [J(h, e, *d, th, ph, st or 1, fl, seed, ns, ka, kb, km, opts=[] if race and th > 1 else NR, max_iter=8000000, weight=2 + d[2] // 200, tier=t)
            for t, l in (('q', BIGS[base:] + (BIGW if wide else [])), ('t', BIGT)) for d, th, st, seed, ns, ka, kb, km in ([x for x in l if not ('heap' in e and x[3] == 5)] + ([((8, 14, 160), 1, 0, 5, 1, 304, 496, 304)] if t == 'q' and 'heap' in e else []))]
BALG = dict(h_masked='h_big', h_masked_h='h_big_h', h_masked_c='h_big_c', h_masked_o='h_big_o')
def BGA(algs, ph, fl=0, **kw): return [j for h, e in algs for j in BG(BALG[h], e, ph, fl, wide='msa' not in e, **kw)]
def product_jobs(algs, extra, ph):
    js = []
    for a in algs:
        js += [MJ(a, (2, 2, 2), 1, ph, fl=1, opts=NR), MJ(a, (3, 2, 2), 2, ph, opts=NR), MJ(a, (2, 2, 2), 3, ph, opts=NR), MJ(a, (1, 3, 3), 1, ph, fl=4, opts=NR), MJ(a, (2, 3, 3), 1, ph, opts=NR, weight=3),
               MJ(a, (2, 3, 24), 1, ph, fl=16, seed=1, opts=NR, weight=4), MJ(a, (1, 2, 38), 1, ph, fl=16, seed=5, opts=NR, weight=2), MJ(a, (2, 3, 20), 1, ph, fl=16, seed=1000, opts=NR, weight=3), MJ(a, (2, 2, 36), 1, ph, fl=16, seed=1001, opts=NR, weight=3), MJ(a, (6, 1, 2), 6, ph, opts=NR)]
        if a[1] in HASHY: # 1613: columns 13, 29, 45, ...: all start probing in the last slot of the smallest table
            js += [J(a[0], a[1], 2, 2, 3, 1, ph, 1, 0, 0, opts=NR), J(a[0], a[1], 3, 1, 4, 1, ph, 1613, 0, 0, opts=NR, weight=2), J(a[0], a[1], 2, 2, 3, 1, ph, 813, 0, 0, opts=NR)]
        js += [MJ(a, (3, 2, 24), 1, ph, fl=16, seed=3, opts=NR, weight=4, tier='t'), MJ(a, (3, 2, 24), 2, ph, fl=17, seed=7, opts=NR, weight=4, tier='t'), MJ(a, (3, 3, 3), 1, ph, opts=NR, weight=9, tier='t'), MJ(a, (4, 2, 2), 3, ph, opts=NR, weight=5, tier='t'), MJ(a, (3, 2, 2), 5, ph, opts=NR, tier='t'), MJ(a, (2, 2, 4), 1, ph, opts=NR, weight=5, tier='t'), MJ(a, (2, 4, 2), 1, ph, opts=NR, weight=5, tier='t'), MJ(a, (2, 3, 20), 1, ph, fl=16, seed=11, opts=NR, weight=5, tier='t')]
    js += BGA(algs + extra, ph)
    for a in extra: js += [MJ(a, (2, 2, 20), 1, ph, fl=16, seed=1000, opts=NR, weight=3), MJ(a, (2, 2, 3), 1, ph, opts=NR), MJ(a, (3, 2, 2), 2, ph, opts=NR), MJ(a, (1, 3, 8), 1, ph, fl=16, seed=2, opts=NR), MJ(a, (2, 3, 3), 1, ph, opts=NR, weight=3, tier='t'), MJ(a, (3, 3, 3), 1, ph, opts=NR, weight=9, tier='t'), MJ(a, (2, 3, 16), 1, ph, fl=16, seed=2, opts=NR, weight=9, tier='t')]
    return js
PB = ('every presence pattern of A, B and M (all bits symbolic) for A rows x inner x columns up to 2x3x3, 1x3x3, 3x2x2 (thorough: 3x3x3, 4x2x2, 2x2x4, 2x4x2) and rows chosen from four templates up to 24 and 38 columns (2x3x24, 1x2x38), or with exactly 15 to 17 or 31 to 33 entries (the table and block boundaries); 4x1x2 and 6x1x2 with 4 and 6 threads, '
      'column indices stretched by 16 for the hash tables (all keys collide), 1 to 3 threads (thorough: 5), tag semiring counting every product (covers all commutative semirings) and a parity semiring (zero values), loops and heap fully unrolled')
P('C01', 'one-phase plain mask; ' + PB, product_jobs(PL, PLX, 1))
P('C02', 'complemented mask, one and two phases; ' + PB, product_jobs(CO, [], 1) + product_jobs(CO, [], 2))
P('C03', 'two-phase plain mask; ' + PB, product_jobs(PL, PLX, 2))
P('C04', 'sorted variants: patterns of 2x3x3 and template rows up to 24 columns; unsorted variants: every stored order of rows of up to 3 entries in A, B and M, 2x2x3 (thorough: 2x3x3); one and two phases; backgrounds of 20 to 36 columns with a few symbolic positions',
  [MJ(a, (2, 3, 3), 1, ph, opts=NR, weight=3) for a in CO if a[1] in ('c_msa1a_s', 'c_msa2a_s', 'c_hash_s', 'c_heap') for ph in (1, 2)]
  + [MJ(a, (2, 3, 24), 1, 1, fl=16, seed=21, opts=NR, weight=4) for a in CO if a[1] in ('c_msa1a_s', 'c_msa2a_s', 'c_hash_s', 'c_heap')]
  + [MJ(a, (2, 3, 3), 1, ph, opts=NR, weight=3) for a in PL if a[1] in ('mca', 'heap0', 'heap1', 'heapdot') for ph in (1, 2)] + [MJ(a, (2, 2, 3), 1, 1, opts=NR) for a in PLX if 'msa' not in a[1]]
  + [MJ(a, (2, 3, 24), 1, 1, fl=16, seed=22, opts=NR, weight=4) for a in PL if a[1] in ('mca', 'heap1')]
  + [MJ(a, d, 1, ph, fl=2, opts=NR, weight=w, tier=t) for a in ANYORD for ph in (1, 2) for d, w, t in (((1, 3, 3), 2, 'q'), ((2, 2, 2), 2, 'q'), ((1, 2, 3), 1, 'q'), ((2, 3, 3), 9, 't'))])
RACE = [((4, 1, 2), 4, 'q'), ((6, 1, 1), 6, 'q'), ((2, 2, 2), 2, 'q'), ((2, 2, 2), 3, 'q'), ((1, 2, 2), 3, 'q'), ((3, 2, 2), 2, 'q'), ((3, 2, 2), 3, 't'), ((4, 2, 2), 2, 't'), ((3, 2, 2), 6, 't'), ((2, 3, 3), 2, 't')]
P('C05', 'all pairs of conflicting accesses of 2 or 3 threads (4 threads: 4x1x2, 6 threads: 6x1x1; thorough: 6) between two barriers, every pattern up to 3x2x2 (thorough: 4x2x2, 2x3x3); work shared by static schedules, the owner of every dynamically scheduled chunk is symbolic; result compared with the exact product',
  [MJ(a, d, th, ph, weight=2, tier=t) for a in PL + CO for ph in (1, 2) for d, th, t in RACE] + [MJ(a, (3, 2, 2), 2, ph) for a in PLX for ph in (1, 2)]
  + [MJ(('h_masked', 'msa1a'), (2, 2, 2), 0, ph, opts=['--threads', '3']) for ph in (1, 2)]
  + [J('h_inner', e, *d, th, ph, 0, 0, weight=2, tier=t) for e in ('inner', 'innerprod') for ph in (1, 2) for d, th, t in RACE]
  + [J('h_poly', 'poly', *d, th, 1, 0, 0, weight=2, tier=t) for d, th, t in RACE])
# scratch buffers that end exactly after the requested bytes
def EXACT(fl): return [MJ(a, d, 1 + (d[0] > 2), ph, fl=fl + 32, opts=NR, weight=2) for a in PL + CO + PLX for ph in (1, 2) for d in ((2, 3, 3), (3, 2, 2))] + [J('h_poly', 'poly', 2, 3, 3, 1, 1, fl + 32, 0, opts=NR, weight=3)]
AL = [(0, 8), (0, 12), (1, 8), (2, 8), (3, 8)]
P('C06', 'buffers of exactly the size in use, operands compared afterwards, heap compared with the state before; C empty, prefilled, or the same object as A, B or M; every pattern of 2x2x2 (square, so that aliasing is possible), 1 and 2 threads, one and two phases; template rows up to 24 columns; 2x3x3 at thorough',
  [MJ(a, (2, 2, 2), 1 + (al & 1), ph, fl=fl, al=al, opts=NR) for a in PL + CO for ph in (1, 2) for al, fl in AL]
  + [MJ(a, (2, 2, 24), 1, ph, fl=16 + 8, seed=31, opts=NR, weight=3) for a in PL + CO for ph in (1, 2)] + EXACT(8)
  + [MJ(a, (2, 2, 2), 2, ph, fl=8, opts=NR) for a in PLX for ph in (1, 2)]
  + [MJ(a, (2, 3, 3), 2, ph, fl=8, opts=NR, weight=6, tier='t') for a in PL + CO for ph in (1, 2)] + [MJ(a, (3, 2, 24), 2, ph, fl=16 + 8, seed=33, opts=NR, weight=6, tier='t') for a in PL + CO for ph in (1, 2)]
  + [J('h_inner', e, 2, 2, 2, 2, ph, fl, al, opts=NR) for e in ('inner', 'innerprod') for ph in (1, 2) for al, fl in AL if al != 2]
  + [J('h_poly', 'poly', 2, 2, 2, 2, 1, fl, al, opts=NR) for al, fl in AL if not fl & 4])
BIGSCAN = (('q', [('rowscan_big', 131071, 2), ('rowscan_big', 131072, 3), ('rowscan_big', 131070, 4), ('rowscan_big', 131073, 5), ('rowscan_big', 131074, 6), ('rowscan_big', 131080, 8), ('in_big', 131072, 2), ('in_big', 131077, 4), ('in_big', 131083, 8), ('in_big', 131079, 5), ('ex_big', 131077, 4), ('ex_big', 131083, 8), ('ex_big', 131075, 7)]),
           ('t', [(e, 131072 + r, th) for e in ('rowscan_big', 'in_big', 'ex_big') for th in range(2, 9) for r in range(th)]))
P('C10', 'every length from 0 to 9 (symbolic) with 1 to 4 threads, 0 to 4 with 6 threads and 7 to 9 with 5, 7 and 8 threads, arbitrary 64-bit values; lengths on both sides of the 2^17 threshold of the row-pointer scan (all three entry points) with 2 to 8 threads, every remainder of the length by the number of threads, and arbitrary values at the chunk boundaries; race check on for the short ones',
  [J('h_scan', e, 9, th, 0) for e in ('ex', 'in', 'ex_team', 'in_team') for th in (1, 2, 3, 4)] + [J('h_scan', e, 4, 6, 0) for e in ('ex', 'in', 'ex_team', 'in_team')] + [J('h_scan', e, 9, th, 7) for e in ('ex', 'in', 'ex_team', 'in_team') for th in (5, 7, 8)]
  + [J('h_scan', e, 17, th, 10, tier='t') for e in ('ex', 'in', 'ex_team', 'in_team') for th in (3, 5, 8)]
  + [J('h_scan', 'rowscan', 9, th) for th in (1, 2, 4, 5, 8)] + [J('h_scan', e, n, th, opts=NR, max_iter=7000000, weight=9, tier=t) for t, l in BIGSCAN for e, n, th in l])
P('C11', 'work estimates: every pattern up to 3x3x3 with 1, 2 and 3 threads; row ranges: every work profile of up to 8 rows with work 0..3 per row or one of 8 skewed values, 1 to 6, 8, 16 and 40 threads; rows of up to 2^40 products with 64-bit counts; buffer bounds for every row range; the estimates of the older multipliers: every pattern of A up to 3x3, lengths in B and M up to 500 million (2^40), totals beyond 32 bits',
  [J('h_work', 'flops', *d, th, opts=o, weight=2) for d in ((2, 3, 3), (3, 3, 3), (4, 2, 2), (2, 4, 2)) for th, o in ((1, NR), (2, []), (3, []))]
  + [J('h_work', e, n, th, mx) for e in ('dist_i', 'dist_u') for n, th, mx in ((0, 3, 1), (1, 4, 3), (3, 2, 3), (5, 3, 3), (8, 3, 1), (4, 6, 2), (4, 3, 0))] + [J('h_work', e, 8, 4, 3, tier='t', weight=5) for e in ('dist_i', 'dist_u')] + [J('h_work', e, 6, 5, 0, tier='t', weight=5) for e in ('dist_i', 'dist_u')]
  + [J('h_work', e, *d, opts=NR, weight=2) for e in ('wide_l', 'wide_u') for d in ((2, 2, 1), (2, 3, 2), (3, 2, 2), (3, 1, 3), (1, 3, 2))] + [J('h_work', e, n, th, -1) for e in ('dist_l', 'dist_u') for n, th in ((4, 3), (5, 4), (3, 7), (6, 2))] + [J('h_work', e, *p) for e in ('dist_i', 'dist_u', 'dist_l') for p in ((6, 16, 2), (2, 40, 3), (5, 8, 0))]
  + [J('h_work', 'bounds_', *d) for d in ((2, 2, 2), (2, 3, 3), (3, 2, 2))]
  + [J('h_flop', e, *d, opts=o, weight=w, tier=t) for e in ('flop_i', 'flop_u', 'flop_l') for d, o, w, t in (((2, 2, 2, 1, 0), NR, 1, 'q'), ((2, 3, 3, 2, 0), [], 1, 'q'), ((3, 2, 4, 3, 0), [], 1, 'q'), ((0, 2, 2, 1, 0), NR, 1, 'q'), ((2, 3, 2, 1, 1), NR, 1, 'q'), ((3, 2, 2, 2, 1), NR, 1, 'q'), ((3, 3, 3, 1, 1), NR, 2, 'q'), ((4, 3, 2, 3, 1), NR, 9, 't'))])
P('C07', 'all keys symbolic over the whole advertised range or over a domain in which every key collides; 2 to 7 mask entries (table sizes 8 to 32), up to 5 operations per row in any order, 1 to 3 rows sharing one accumulator; all five accumulator/collection variants; symbolic to numeric handover',
  [J('h_hash', 'setops', *p, opts=NR, tier=t) for p, t in (((3, 4, 0, 1), 'q'), ((3, 5, 0, 1), 'q'), ((3, 3, 48, 1), 'q'), ((3, 3, 0, 2), 'q'), ((7, 4, 0, 1), 'q'), ((7, 3, 3, 2), 'q'), ((4, 4, 0, 1), 'q'), ((1, 3, 0, 3), 'q'), ((7, 5, 0, 1), 't'), ((3, 4, 0, 2), 't'), ((3, 6, 0, 1), 't'), ((7, 4, 96, 1), 't'))]
  + [J('h_hash', 'plain', *p, opts=NR, tier=t) for p, t in (((3, 3, 0, 1, 0), 'q'), ((3, 3, 0, 1, 1), 'q'), ((3, 2, 0, 2, 1), 'q'), ((3, 2, 0, 2, 0), 'q'), ((4, 3, 0, 1, 0), 'q'), ((4, 3, 0, 1, 1), 'q'), ((4, 4, 0, 1, 1), 't'), ((5, 3, 0, 1, 0), 't'), ((3, 3, 0, 2, 1), 't'))]
  + [J('h_hash', e, *p, opts=NR, tier=t) for e in ('compl_u', 'compl_s') for p, t in (((2, 2, 0, 2), 'q'), ((1, 5, 4, 2), 'q'), ((0, 5, 5, 2), 'q'), ((2, 4, 6, 2), 'q'), ((1, 3, 0, 1), 'q'), ((3, 3, 0, 1), 'q'), ((2, 3, 0, 2), 'q'), ((3, 4, 0, 1), 't'), ((0, 4, 0, 1), 't'), ((3, 3, 0, 2), 't'))]
  + [J('h_hash', 'handover', *p, opts=NR) for p in ((3, 3, 0), (7, 5, 0))]
  + [MJ(a, d, 1, ph, fl=fl, opts=NR) for a in (('h_masked', 'hash'), ('h_masked_c', 'c_hash'), ('h_masked_c', 'c_hash_s')) for ph in (1, 2) for d, fl in (((2, 2, 3), 0), ((1, 3, 3), 0))])
ACC = ('p1a', 'p2a', 'c1a', 'c2a', 'c1as', 'c2as', 'mcacc')
P('C08', 'every operation sequence of up to 5 steps over up to 5 columns, 2 rows (thorough: 3), both polarities, sorted and unsorted collection, accumulator without values handed over to one with values',
  [J('h_acc', e, *p, opts=NR, tier=t) for e in ACC for p, t in (((4, 4, 2, 0), 'q'), ((4, 4, 2, 1), 'q'), ((5, 5, 2, 1), 'q'), ((3, 3, 3, 0), 'q'), ((4, 4, 3, 1), 't'), ((5, 6, 2, 0), 't'))]
  + [MJ(a, d, 1, ph, opts=NR) for a in [(h, e) for h, e in PL + CO if 'msa' in e or e == 'mca'] for ph in (1, 2) for d in ((2, 2, 3), (3, 2, 2))])
P('C09', 'every key sequence of 3 to 6 elements over 3 to 5 key values (all ties and orders), heapified, then up to 3 operations chosen symbolically (insert, remove minimum, advance minimum), 1 or 2 rounds on one buffer; entry comparison over all keys',
  [J('h_heap', 'ops', *p, opts=NR, tier=t) for p, t in (((4, 3, 4, 1), 'q'), ((5, 3, 4, 1), 'q'), ((6, 1, 5, 1), 'q'), ((3, 2, 3, 2), 'q'), ((1, 3, 3, 1), 'q'), ((2, 4, 4, 1), 'q'), ((5, 4, 4, 1), 't'), ((6, 2, 4, 1), 't'), ((4, 4, 4, 1), 't'), ((4, 2, 4, 2), 't'))] + [J('h_heap', 'entry', 5, 5, opts=NR)]
  + [MJ((h, e), d, 1, 1, opts=NR) for h, e in [('h_masked_h', x) for x in ('heap0', 'heap1', 'heap2', 'heap8', 'heapdot')] + [('h_masked_c', 'c_heap')] for d in ((2, 3, 3), (1, 4, 2))])
P('C12', 'split: every buffer size up to 48 bytes (thorough 100), every dirty prefix, up to 3 objects of each kind for six pairs of element sizes; aligned allocation: every base address the allocator can return (16 offsets), up to 16 elements of sizes 1, 3, 8, 12, 24, alignments 1 to 256 bytes; zeroed allocation up to 40 objects with 1 to 3 threads; rounding for every number up to 512',
  [J('h_util', e, n, a, opts=NR) for e in ('al_byte', 'al_e24a') for n in (16,) for a in (1, 3, 8, 24, 64, 256)] + [J('h_util', e, 16, opts=NR) for e in ('al_u64', 'al_e24', 'al_e12', 'al_e3')]
  + [J('h_util', e, *p, opts=NR, tier=t) for e in ('sp_b_b', 'sp_u64_b', 'sp_u32_u32', 'sp_b_e3', 'sp_b_e12', 'sp_b_u64') for p, t in (((24, 2, 2), 'q'), ((48, 3, 3), 'q'), ((100, 3, 3), 't'))] + [J('h_util', 'clean_e3', 30, 4, opts=NR), J('h_util', 'rounding', 512, opts=NR)] + [J('h_util', 'mymalloc', n, th) for n, th in ((40, 3), (3, 5), (8, 1))]
  + EXACT(0) + [MJ(a, (2, 2, 24), 1, ph, fl=16 + 32, seed=41, opts=NR, weight=3) for a in PL + CO for ph in (1, 2)] + [J('h_work', 'bounds_', *d) for d in ((2, 3, 3), (3, 2, 2))])
BLD = (('csc_triples', 0), ('csc_pairs', 0), ('csc_tuples', 0), ('csc_arrays', 1), ('csc_graph', 0), ('csr_graph', 0))
P('C13', 'every list of up to 5 entries (thorough 7) over 3x4 positions in any order with any duplicates, sorted by start for graphs; empty lists where the constructor allows them; 1 to 3 threads with race check; merging with addition (values are powers of two, so any lost, moved or doubled entry changes a sum)',
  [J('h_build', e, *d, 5, th, lo, weight=2) for e, lo in BLD for d, th in (((3, 4), 1), ((2, 3), 2), ((4, 2), 3))] + [J('h_build', e, 5, 4, 4, 1, 4, weight=2) for e, lo in BLD] + [J('h_build', e, *d, 7, th, lo, weight=6, tier='t') for e, lo in BLD for d, th in (((3, 3), 1), ((4, 4), 2))]
  + [J('h_build', 'merge_dups', *d, n, th, 0, weight=3, tier=t) for d, n, th, t in (((3, 4), 4, 1, 'q'), ((2, 3), 5, 2, 'q'), ((3, 4), 6, 2, 't'))])
P('C14', 'every pattern of up to 4x5 (conversions, transposed construction), 3x4 and 4x2 (parallel transposition there and back, 1 to 3 threads, every dynamic chunk owner, race check, and one context switch before any atomic operation of one thread); including empty matrices, rows and columns',
  [J('h_conv', e, *d, th) for e in ('csc_to_csr', 'csc_to_csr_f', 'csc_to_csr_t') for d, th in (((4, 5), 1), ((1, 4), 3), ((4, 1), 1), ((3, 4), 2))] + [J('h_conv', e, 5, 6, 2, tier='t') for e in ('csc_to_csr', 'csc_to_csr_f', 'csc_to_csr_t')]
  + [J('h_conv', 'atomic_t', *d, weight=3, tier=t) for d, t in (((3, 4, 1), 'q'), ((3, 3, 2), 'q'), ((2, 3, 3), 'q'), ((4, 2, 2), 'q'), ((3, 4, 2), 'q'), ((1, 5, 2), 'q'), ((4, 2, 3), 't'), ((3, 3, 3), 't'))] + PRE('h_conv', 'atomic_t', (3, 2, 2), 8) + PRE('h_conv', 'atomic_t', (2, 2, 2), 5, 1) + PRE('h_conv', 'atomic_t', (2, 3, 3), 7) + PRE('h_conv', 'atomic_t', (3, 3, 2), 12, tier='t') + [J('h_conv', 'round_trip', *d) for d in ((3, 4, 1), (4, 4, 2))])
P('C15', 'copy, assignment, self-assignment, emptying and refilling: every pattern up to 3x3 assigned over every pattern up to 3x3, sources without rows or columns; equality: every pair of patterns and values up to 2x3, other shapes, other numbering, floating-point tolerance; sorting: every stored order of rows of up to 5 entries; shuffling: every random stream; numbering there and back',
  [J('h_ops', e, *d) for e in ('copy_csr', 'copy_csc') for d in ((3, 3, 2, 3, 0), (2, 3, 3, 2, 1), (2, 3, 0, 0, 0), (0, 3, 2, 2, 0), (2, 0, 2, 2, 0), (1, 1, 3, 1, 0))]
  + [J('h_ops', e, *d, weight=3) for e in ('eq_csr', 'eq_csc') for d in ((2, 2, 2, 2), (2, 3, 2, 3), (2, 2, 2, 3), (1, 4, 1, 4), (2, 2, 1, 2))] + [J('h_ops', 'eq_fp', *d) for d in ((1, 2), (2, 2))] + [J('h_ops', 'eq_based', *d) for d in ((2, 3), (3, 3))]
  + [J('h_ops', 'numbering', *d) for d in ((2, 3), (3, 4))] + [J('h_ops', 'reuse', 3, ph) for ph in (1, 2)] + [J('h_ops', 'sort_ids', *d) for d in ((3, 3, 1), (4, 3, 3), (3, 2, 2))] + [J('h_ops', 'sort_any', *d, tier=t) for d, t in (((1, 4, 5, 1), 'q'), ((2, 3, 4, 2), 'q'), ((1, 5, 6, 1), 'q'), ((2, 4, 6, 2), 't'), ((1, 6, 7, 1), 't'))]
  + [J('h_ops', e, *d, tier=t) for e in ('shuffle_csr', 'shuffle_csc') for d, t in (((2, 3), 'q'), ((1, 5), 'q'), ((5, 1), 'q'), ((3, 2), 'q'), ((3, 4), 't'), ((4, 3), 't'))])
P('C16', 'intersection: every pair of patterns up to 3x3 and 2x5, 1 and 2 threads, order-sensitive combination; selection: every pattern up to 4x3, every sorted list of up to 3 rows and 3 columns, with repeats where supported; merging of duplicates: every list of up to 5 entries; sum of all values; operands compared afterwards',
  [J('h_select', 'intersect_csr', *d, weight=w, tier=t) for d, w, t in (((2, 3, 1), 1, 'q'), ((3, 3, 2), 1, 'q'), ((2, 5, 1), 2, 'q'), ((1, 6, 3), 1, 'q'), ((3, 4, 1), 4, 't'))] + [J('h_select', 'intersect_dim', *d) for d in ((2, 2, 2, 3), (2, 2, 1, 2))] + [J('h_select', 'sum_all', *d) for d in ((2, 3, 2), (3, 4, 1), (1, 2, 3))]
  + [J('h_select', e, *d, rep, weight=3, tier=t) for e in ('spref', 'spref1') for d, rep, t in (((3, 3, 2, 2), 1, 'q'), ((4, 2, 3, 2), 1, 'q'), ((2, 4, 2, 3), 1, 'q'), ((4, 3, 3, 3), 0, 't'), ((3, 3, 3, 3), 1, 't'))]
  + [J('h_select', 'spref2', *d, weight=3, tier=t) for d, t in (((3, 3, 2, 2), 'q'), ((4, 2, 3, 2), 'q'), ((2, 4, 2, 3), 'q'), ((4, 3, 3, 3), 't'))] + [J('h_select', 'intersect_col', *d) for d in ((4, 3), (6, 4))]
  + [J('h_build', 'merge_dups', *d, n, th, 0, weight=3, tier=t) for d, n, th, t in (((3, 4), 4, 1, 'q'), ((2, 3), 5, 2, 'q'), ((3, 4), 6, 2, 't'))])
P('C17', 'every pattern up to 2x3x3 (thorough 3x3x3) with sorted operands, masks in any stored order of up to 3 entries, 1 to 3 threads, one and two phases, parity semiring for zero values, prefilled output',
  [J('h_inner', e, *d, th, ph, fl, 0, opts=NR, weight=w, tier=t) for e in ('inner', 'innerprod') for ph in (1, 2) for d, th, fl, w, t in (((2, 3, 3), 1, 0, 3, 'q'), ((1, 4, 2), 1, 0, 2, 'q'), ((2, 2, 2), 2, 1, 1, 'q'), ((3, 2, 2), 3, 0, 1, 'q'), ((6, 1, 2), 6, 0, 1, 'q'), ((2, 2, 3), 1, 2, 3, 'q'), ((2, 2, 2), 1, 4, 1, 'q'), ((3, 3, 3), 1, 0, 9, 't'), ((1, 5, 3), 1, 0, 5, 't'), ((4, 2, 2), 3, 1, 4, 't'))])
P('C26', 'every pattern up to 2x3x3 (thorough 3x3x3), template rows up to 24 columns, 1 to 3 threads, parity semiring for zero values',
  [J('h_poly', 'poly', *d, th, cs, fl, 0, opts=NR, weight=w, tier=t) for d, th, cs, fl, w, t in (((2, 3, 3), 1, 1, 0, 3, 'q'), ((3, 2, 2), 1, 1, 0, 2, 'q'), ((2, 2, 3), 2, 4, 1, 1, 'q'), ((3, 2, 2), 3, 1, 0, 2, 'q'), ((6, 1, 2), 6, 1, 0, 2, 'q'), ((3, 3, 3), 1, 1, 0, 9, 't'), ((4, 2, 2), 2, 1, 0, 4, 't'))]
  + [J('h_poly', 'poly', *d, th, 1, 16, 0, s, opts=NR, weight=4, tier=t) for d, th, s, t in (((2, 3, 24), 1, 1, 'q'), ((2, 3, 20), 1, 1000, 'q'), ((2, 2, 36), 1, 1001, 'q'), ((3, 2, 12), 1, 2, 'q'), ((3, 2, 24), 2, 3, 't'), ((2, 3, 38), 1, 4, 't'))])
LEG_S = ('gheap_v0', 'gheap_v1', 'gheap_v2', 'gmca_v1', 'gmca_v2', 'gmca_v3'); LEG_U = ('mhash', 'mhash_nobin', 'mspa')
def LJ(h, e, d, th, cs=1, fl=0, seed=None, **kw): return J(h, e, *d, th, cs, fl, *([seed] if seed is not None else []), opts=(NR if th == 1 else []), **kw)
P('C18', 'every pattern of A, B and M up to 3x2x2, 2x3x3, 1x2x2 (thorough: 3x3x3, 4x2x2), template rows up to 24 columns, keys that all collide (stretch 16, 13+16j), every stored order of rows for the algorithms that accept it, 1 to 3 threads with race check, parity semiring for zero values, output prefilled where the interface allows it; operands and heap compared afterwards',
  [j for e in LEG_S + LEG_U + ('minner',) for j in
   [LJ('h_legacy', e, (2, 2, 2), 1, fl=1), LJ('h_legacy', e, (3, 2, 2), 2), LJ('h_legacy', e, (1, 2, 2), 3), LJ('h_legacy', e, (2, 3, 3), 1, weight=3), LJ('h_legacy', e, (2, 2, 2), 2, fl=8), LJ('h_legacy', e, (2, 2, 2), 1, fl=12)]
   + [LJ('h_legacy', e, (3, 3, 3), 1, weight=8, tier='t'), LJ('h_legacy', e, (4, 2, 2), 3, weight=4, tier='t'), LJ('h_legacy', e, (2, 3, 3), 2, weight=4, tier='t')]
   + ([LJ('h_legacy', e, (2, 3, 24), 1, fl=16, seed=1, weight=3), LJ('h_legacy', e, (2, 3, 20), 1, fl=16, seed=1000, weight=2), LJ('h_legacy', e, (2, 2, 36), 1, fl=16, seed=1001, weight=2), LJ('h_legacy', e, (6, 1, 2), 6, weight=2), LJ('h_legacy', e, (2, 3, 24), 2, fl=17, seed=9, weight=5, tier='t')] if e != 'minner' else [])
   + ([LJ('h_legacy', e, (2, 2, 2), 2, fl=4), LJ('h_legacy', e, (2, 0, 2), 1), LJ('h_legacy', e, (0, 2, 2), 2)] if e not in LEG_U else [LJ('h_legacy', e, (1, 3, 3), 1, fl=2), LJ('h_legacy', e, (2, 2, 2), 2, fl=2), LJ('h_legacy', e, (2, 0, 2), 1)])]
  + [LJ('h_legacy', e, d, 1, cs) for e in ('mhash', 'mhash_nobin') for d, cs in (((2, 2, 3), 1613), ((2, 2, 3), 16), ((3, 1, 4), 1613), ((2, 2, 3), 813))])
P('C19', 'every pattern of A and B up to 3x3x3 (thorough 4x3x3), operands without rows, inner dimension or columns, template rows up to 24 columns, colliding keys (stretch 16, 13+16j), every stored order of rows for the hash product, 1 to 3 threads with race check; sizing pass against the exact number of operations and its table bound; operands and heap compared afterwards',
  [j for e in ('hash_u', 'hash_s') for j in [LJ('h_unmasked', e, *a, **k) for a, k in ((((3, 3, 3), 1), {}), (((3, 2, 2), 3), {}), (((3, 3, 3), 2, 1, 1), {}), (((2, 3, 24), 1, 1, 16, 1), {}), (((2, 3, 24), 2, 1, 16, 5), {}), (((2, 3, 20), 1, 1, 16, 1000), {}), (((2, 2, 36), 1, 1, 16, 1001), {}), (((6, 1, 2), 6), {}), (((3, 3, 3), 1, 16), {}), (((2, 2, 4), 1, 1613), {}), (((3, 1, 4), 1, 813), {}), (((2, 2, 2), 2, 1, 8), {}), (((2, 2, 2), 1, 1, 12), {}), (((2, 0, 2), 2), {}), (((2, 3, 3), 1, 1, 2), {}), (((4, 3, 3), 2, 16), dict(tier='t', weight=5)))]]
  + [LJ('h_unmasked', 'sizing', *a, **k) for a, k in ((((3, 3, 3), 1), {}), (((3, 2, 2), 3), {}), (((2, 3, 3), 2), {}), (((4, 3, 3), 3), dict(tier='t', weight=5)))]
  + [LJ('h_legacy', e, d, th) for e in ('gbasic', 'glinear', 'glinear8') for d, th in (((1, 4, 2), 1), ((1, 5, 2), 1), ((2, 4, 2), 1), ((1, 4, 3), 2))] + [LJ('h_legacy', 'glinear8', d, th, 1, fl) for d, th, fl in (((2, 3, 3), 1, 0), ((2, 2, 2), 2, 9), ((2, 2, 2), 1, 12))]
  + [j for e in ('gbasic', 'glinear') for j in [LJ('h_legacy', e, *a, **k) for a, k in ((((2, 2, 2), 1, 1, 1), {}), (((3, 2, 2), 2), {}), (((1, 2, 2), 3), {}), (((2, 3, 3), 1), dict(weight=3)), (((2, 2, 2), 2, 1, 8), {}), (((2, 2, 2), 2, 1, 12), {}), (((2, 3, 24), 1, 1, 16, 1), dict(weight=3)), (((2, 0, 2), 1), {}), (((0, 2, 2), 2), {}), (((3, 3, 3), 1), dict(weight=8, tier='t')), (((4, 2, 2), 3), dict(weight=5, tier='t')))]]
  + [J('h_cheap', 'heap_csc', *d, th, fl, opts=(NR if th == 1 else []), weight=w, tier=t) for d, th, fl, w, t in (((3, 3, 3), 1, 0, 2, 'q'), ((3, 3, 3), 2, 1, 3, 'q'), ((2, 2, 2), 2, 8, 1, 'q'), ((2, 2, 2), 1, 12, 1, 'q'), ((3, 0, 2), 2, 0, 1, 'q'), ((3, 2, 0), 2, 0, 1, 'q'), ((2, 2, 4), 3, 0, 2, 'q'), ((4, 3, 2), 1, 0, 3, 't'), ((3, 4, 2), 2, 0, 3, 't'))])
OUT = (((2, 2, 2, 1, 1, 1, 1, 4), 'q'), ((2, 2, 2, 2, 1, 1, 1, 1), 'q'), ((2, 2, 2, 2, 64, 1, 2, 1), 'q'), ((3, 2, 2, 3, 60, 1000, 2, 2), 'q'), ((2, 3, 3, 2, 1, 1, 1, 2), 'q'), ((3, 2, 3, 2, 43, 1, 3, 1), 'q'), ((2, 0, 2, 2, 1, 1, 1, 2), 'q'), ((2, 2, 0, 2, 1, 1, 1, 2), 'q'), ((1, 3, 2, 2, 1, 1, 1, 2), 'q'), ((0, 2, 2, 2, 1, 1, 1, 2), 'q'), ((4, 2, 2, 3, 40, 700, 3, 3), 'q'), ((2, 2, 4, 3, 65, 10000, 2, 2), 'q'), ((2, 4, 2, 2, 65, 10000, 2, 1), 'q'), ((3, 2, 2, 2, 32, 1, 1, 1), 'q'), ((2, 2, 2, 1, 63, 1, 1, 2), 'q'), ((2, 2, 2, 2, 128, 1, 2, 1), 'q'), ((2, 2, 2, 1, 127, 1, 2, 1), 'q'), ((3, 2, 2, 6, 96, 1, 3, 1), 'q'), ((2, 2, 2, 4, 191, 1, 3, 2), 'q'), ((3, 3, 3, 1, 1, 1, 1, 2), 't'), ((3, 3, 3, 2, 22, 1, 1, 2), 't'))
P('C20', 'every pattern of A (by columns) and B (by rows) up to 3x2x3, 2x4x2, 2x3x3, 4x2x2 (thorough 3x3x3), rows stretched over 1 to 3 row blocks, columns stretched over all radix digits, block widths 1 to 4 (buffers flushed in the middle and at the end), 1 to 3 threads with race check, plus one context switch before any atomic flush; values for which every lost, doubled or moved product changes a sum',
  [J(h, 'outer', *p, 0 if 0 in p[:3] else 8, opts=(NR if p[3] == 1 else []), tier=t, weight=3 if t == 't' else 1) for h in ('h_outer', 'h_outer2') for p, t in OUT] + [J(h, 'outer', 2, 2, 2, 1, 1, 1, 1, 4, 12, opts=NR) for h in ('h_outer', 'h_outer2')]
  + [j for h in ('h_outer', 'h_outer2') for p, K in (((2, 2, 2, 2, 64, 1, 2, 1, 0), 8), ((2, 3, 2, 2, 1, 1, 1, 2, 0), 6)) for j in PRE(h, 'outer', p, K) + PRE(h, 'outer', p, K // 2, 1)])
RX = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64_', 'i64_')
PROPS['C20']['bounds'] += '; radix sort: every sequence of up to 6 keys (thorough 8) from pools of up to 8 values that differ in one byte, in the sign, or lie at the ends of the range, for every built-in key type, pairs, tuples and arrays; 256, 257, 65536 and 65537 elements with up to 4 symbolic keys'
PROPS['C20']['jobs'] += [J('h_radix', e, n, dom, p, m, opts=NR, tier=t) for e in RX for n, dom, p, m, t in ((6, 6, 0, 0, 'q'), (5, 9, 1, 0, 'q'), (5, 6, 2, 0, 'q'), (4, 6, 0, 1, 'q'), (8, 6, 0, 0, 't'))] + [J('h_radix', e, 5, 6, p, 0, opts=NR) for e in ('ull', 'ill', 'ch', 'c16', 'c32') for p in (0, 1)] \
  + [J('h_radix', e, 5, 6, p, 2, opts=NR) for e in ('u8', 'i8') for p in (0, 2)] + [J('h_radix', e, *d, opts=NR) for e, d in (('bools', (7,)), ('f32', (4, 6)), ('f64', (4, 6)), ('pairs', (5, 6)), ('pairs2', (5, 4)), ('pairs3', (5, 6)), ('tuple3', (5, 8)), ('tuple2', (5, 6)), ('array3', (5, 8)), ('array2', (5, 6)), ('refs', (5, 6)))] \
  + [J('h_radix', e, n, k, s, m, opts=NR, max_iter=400000) for e, n, k, s, m in (('long8', 256, 4, 2, 0), ('long8', 256, 2, 0, 0), ('long8', 257, 4, 2, 0), ('long16', 256, 4, 8, 0), ('long16', 257, 4, 4, 0), ('long32', 256, 4, 24, 0), ('long32', 257, 4, 8, 0), ('long64', 256, 4, 40, 0), ('long64', 257, 4, 56, 0), ('long64', 256, 1, 0, 0), ('long32', 513, 3, 16, 1), ('long64', 600, 3, 56, 1), ('long16', 65536, 2, 4, 0), ('long32', 65536, 1, 20, 0), ('long32', 65537, 2, 12, 0), ('long8', 65536, 1, 2, 0), ('long64', 65537, 1, 40, 0))]
P('C23', 'row ranges, table sizes and per-thread work for every pattern of A and B up to 4x3x3 and 3x4x4 with 1 to 4 threads; every work profile of up to 8 rows from three skewed value sets with 1 to 6 threads and up to 500 columns; profiles of 6 to 120 rows of up to 5000 products, of which 4 to 6 rows are symbolic, with up to 16 threads and 100000 columns; global table offsets',
  [J('h_bin', 'bins', *p, opts=(NR if p[3] == 1 else []), weight=2) for p in ((3, 3, 3, 1, 3), (4, 3, 3, 3, 3), (3, 4, 4, 2, 3), (2, 2, 4, 4, 4), (1, 3, 3, 2, 3), (3, 2, 3, 3, 1))]
  + [J('h_bin', 'profile', *p, weight=3, tier=t) for p, t in (((8, 3, 60, 0), 'q'), ((8, 6, 100, 1), 'q'), ((6, 4, 500, 2), 'q'), ((3, 5, 9, 1), 'q'), ((1, 2, 40, 2), 'q'), ((8, 4, 500, 2), 't'))]
  + [J('h_bin', e, *p, opts=NR, max_iter=8000000, weight=2) for e in ('profile', 'global_table') for p in ((40, 8, 5000, 3), (6, 3, 100000, 3), (64, 7, 500, 4), (120, 16, 50, 4), (100, 5, 1024, 3), (33, 4, 1025, 3))]
  + [J('h_bin', 'global_table', *p, weight=2) for p in ((4, 2, 60, 0), (5, 3, 100, 1), (3, 4, 300, 2))])
P('C22', 'every list of up to 6 entries over up to 3x4 positions with any duplicates in any order, for signed, unsigned and 64-bit indices, wide indices up to the ends of each type; random lists of up to 5 requested entries for every random stream, up to 4x4 positions',
  [J('h_triples', e, *d, opts=NR, tier=t) for e in ('dedup32', 'dedup64', 'dedupu') for d, t in (((4, 3, 3), 'q'), ((0, 3, 3), 'q'), ((1, 1, 1), 'q'), ((5, 2, 3), 'q'), ((5, 3, 4), 'q'), ((6, 2, 2), 'q'), ((6, 3, 3), 't'), ((8, 2, 2), 't'))]
  + [J('h_triples', e, n, opts=NR, tier=t) for e in ('wide32', 'wide64', 'wideu') for n, t in ((2, 'q'), (3, 'q'), (4, 'q'), (5, 't'))]
  + [J('h_triples', 'random_triples', *d, opts=NR, tier=t) for d, t in (((4, 3, 2), 'q'), ((5, 2, 5), 'q'), ((0, 2, 2), 'q'), ((1, 1, 1), 'q'), ((4, 4, 4), 'q'), ((5, 5, 3), 'q'), ((6, 4, 4), 't'))])
P('C27', 'bitmaps of 1 to 192 bits and of 2^32+192 bits; every history of up to 3 operations at up to 15 positions around word and half-word boundaries; next-bit search from every start in 128 bits for every content of both words, and around the boundaries of a third word; 2 and 3 threads setting bits, with one context switch before any atomic operation; split tuples: every pattern up to 5x3 into 1 to 5 pieces',
  [J('h_bits', 'setget', *d, opts=NR, tier=t) for d, t in (((130, 2, 15), 'q'), ((130, 3, 9), 'q'), ((192, 3, 6), 'q'), ((64, 3, 6), 'q'), ((1, 2, 4), 'q'), ((65, 3, 7), 'q'), ((130, 4, 6), 't'), ((192, 3, 15), 't'))]
  + [J('h_bits', 'next', 2, f, 4, opts=NR) for f in range(0, 128, 4)] + [J('h_bits', 'next', 1, f, 8, opts=NR) for f in range(0, 64, 8)] + [J('h_bits', 'next', 3, f, n, opts=NR) for f, n in ((62, 3), (126, 3), (188, 4))] + [J('h_bits', 'big', n, opts=NR) for n in (2, 3)]
  + [J('h_bits', 'iter', *d, opts=NR) for d in ((130, 3, 8), (192, 3, 15), (64, 3, 15), (190, 4, 14), (64, 1, 3))]
  + [J('h_bits', 'resize', *d, opts=NR) for d in ((64, 192, 3), (128, 192, 6), (65, 190, 6), (192, 64, 8), (130, 65, 6), (128, 128, 6))]
  + [J('h_bits', 'shared', *d) for d in ((130, 2, 2, 6), (130, 3, 1, 6), (64, 2, 2, 15), (192, 3, 2, 6))] + PRE('h_bits', 'shared', (64, 2, 2, 6), 2) + PRE('h_bits', 'shared', (192, 3, 2, 6), 2) + PRE('h_bits', 'shared', (192, 3, 2, 6), 2, 1)
  + [J('h_bits', e, *d, opts=NR) for e in ('split_csc', 'split_csr') for d in ((3, 3, 2), (4, 3, 3), (2, 3, 4), (5, 2, 2), (5, 2, 3), (5, 3, 1), (5, 2, 5), (1, 3, 2), (0, 2, 2))])
SORT_ALL = ('h_pdq', 'h_pdqb', 'h_verge', 'h_verge2', 'h_tim', 'h_gfx', 'h_gfxm', 'h_msort')
PATS = [(30, 4, 5, 5, 0, 0), (30, 3, 5, 0, 1, 1), (60, 3, 4, 4, 1, 0), (60, 2, 4, 16, 0, 0), (60, 2, 4, 16, 1, 0), (60, 2, 4, 17, 0, 0), (60, 2, 4, 17, 2, 0), (70, 3, 5, 7, 0, 0), (140, 3, 5, 0, 0, 0), (140, 3, 5, 1, 1, 0), (140, 3, 5, 2, 0, 0), (140, 3, 5, 3, 0, 0), (140, 4, 5, 5, 1, 0), (140, 3, 5, 8, 0, 0), (140, 3, 5, 9, 0, 1), (140, 3, 5, 10, 0, 0),
        (140, 4, 5, 12, 0, 0), (140, 3, 5, 13, 0, 0), (140, 4, 5, 14, 0, 1), (200, 4, 5, 7, 0, 0), (300, 3, 5, 6, 0, 0), (300, 3, 5, 15, 1, 0), (300, 3, 5, 11, 0, 1), (400, 3, 5, 14, 2, 0), (600, 3, 6, 9, 1, 0), (257, 3, 5, 12, 2, 0), (129, 3, 5, 5, 3, 0), (130, 3, 5, 18, 0, 0), (40, 3, 5, 18, 1, 1)]
PATT = [(n, k, 5, p, s, c) for n, k in ((33, 5), (65, 5), (96, 4), (193, 4), (333, 4), (1000, 3)) for p in [*range(16), 18] for s, c in ((0, 0), (3, 1))]
P('C21', 'every sequence of up to 8 elements with up to 7 distinct keys; lists of 30 to 600 elements (thorough: 1000) in 18 background orders (runs, descending with ties, organ pipe, rotations, scattered, equal, inputs that force the heap-sort fallback) in which 2 to 4 (thorough 5) keys are symbolic: below, above, equal to or around the background, equal to the element before; ascending and descending comparison; elements carrying their position (all) and plain integers (branch-free partition); vectors and, for vergesort, linked lists; one alignment of stack buffers',
  [J(h, 'sort_el', *p, opts=NR) for h in SORT_ALL for p in ((0, 0, 1, 0, 0, 0), (1, 1, 2, 0, 0, 0), (2, 2, 3, 0, 0, 0), (3, 3, 4, 0, 0, 1), (5, 5, 5, 0, 0, 0), (6, 6, 6, 0, 0, 0), (7, 7, 4, 0, 0, 1), (8, 8, 3, 0, 0, 0)) if not (h == 'h_msort' and (p[0] == 0))]
  + [J(h, 'sort_el', *p, opts=NR, max_iter=20000, tier=t) for h in SORT_ALL for t, ps in (('q', PATS), ('t', PATT)) for p in ps]
  + [J(h, 'sort_int', *p, opts=NR, max_iter=400000, tier=t) for h in ('h_pdq', 'h_verge', 'h_verge2') for t, ps in (('q', [(5, 5, 5, 0, 0, 0), (8, 8, 4, 0, 0, 1)] + PATS), ('t', PATT[:150])) for p in ps]
  + [J(h, 'sort_list', *p, opts=NR, max_iter=20000, tier=t) for h in ('h_verge', 'h_verge2') for t, ps in (('q', [(0, 0, 1, 0, 0, 0), (6, 6, 4, 0, 0, 0), (8, 8, 3, 0, 0, 1)] + PATS[::2]), ('t', PATT[::3])) for p in ps])
# rows, columns, entries, banner, comment, separator, line end, values, no final newline, extra entries, value forms
WF = [(3, 3, 2, 0, 0, 0, 0, 1, 0, 0, 10), (3, 3, 2, 1, 0, 0, 0, 1, 0, 0, 4), (3, 3, 3, 1, 0, 0, 0, 0, 0, 0, 1), (4, 2, 3, 0, 1, 0, 0, 1, 0, 0, 3), (2, 5, 3, 0, 2, 0, 0, 0, 0, 0, 1), (3, 3, 0, 0, 1, 0, 0, 1, 0, 0, 1), (3, 3, 0, 1, 9, 0, 0, 1, 0, 0, 1)] \
  + [(3, 3, 2, b, c, 0, 0, 1, 0, 0, 2) for c in range(1, 10) for b in (0, 1)] + [(3, 2, 2, 0, 0, s, e, v, z, 0, 4) for s in range(4) for e in range(4) for v in (0, 1) for z in ((0, 1) if s + e < 2 else (0,))] + [(3, 3, 2, b, 0, 0, 0, 1, z, x, 2) for b in (0, 1) for z in (0, 1) for x in (1, 2)] + [(1, 1, 3, 0, 0, 0, 0, 1, 0, 0, 10), (1, 4, 3, 0, 0, 0, 0, 1, 0, 0, 10)] \
  + [(3, 3, 2, b, 0, s, e, v, 0, 0, 4) for s in (4, 5) for e, v in ((0, 1), (2, 0)) for b in (0, 1)]
BAD = [(0, 2, 2, 2, b, v) for b in (0, 1, 2) for v in (0, 1)] + [(0, 3, 2, 3, 0, 1), (0, 3, 3, 3, 1, 1)] + [(1, 2, 2, 2, b, 1) for b in (0, 1)] + [(2, 2, 2, 2, b, v) for b in (0, 1) for v in (0, 1)] + [(3, l, na, h, b, 0) for l, na, h in ((7, 5, 0), (6, 6, 0), (6, 8, 1), (5, 8, 1), (3, 8, 0)) for b in (0, 1, 2)]
P('C24', 'text files of up to 3 entries with symbolic rows, columns and values (10 textual forms) in matrices up to 3x3, 4x2 and 2x5, general and symmetric, six kinds of separators including 40 blanks and zero-padded numbers, four kinds of line ends, comments of 1 to 700 characters, missing final newline, more entries than declared; lists of 30 and 60 entries with indices of up to four digits, every 3rd to 5th with a symbolic row; malformed: arbitrary counts and indices, one arbitrary byte at an arbitrary place, truncation at every length, every text of up to 7 characters over 6 to 8 characters; binary files of up to 3 entries, truncated by up to 40 bytes, with arbitrary indices and counts; 1 and 2 threads; streams and stdio are models over the file bytes, nothing is converted by the C library',
  [J('h_io', e, *p, *((r,) if e == 'triples' else (0,)), opts=NR) for p in WF for e in ('ascii', 'triples', 'csr') for r in ((0, 1) if e == 'triples' else (0,))]
  + [J('h_io', e, *p, 0, opts=['--threads', '2']) for p in WF[:4] for e in ('ascii', 'csr')] + [J('h_io', 'ascii', 3, 3, 4, 0, 0, 0, 0, 1, 0, 0, 4, 0, opts=NR, tier='t'), J('h_io', 'csr', 3, 3, 4, 1, 0, 0, 0, 1, 0, 0, 4, 0, opts=NR, tier='t')]
  + [J('h_io_bad', e, *p, r, opts=NR, covers=('end',) if e != 'csr_bad' else ()) for p in BAD for e in ('ascii_bad', 'triples_bad', 'csr_bad') for r in ((0, 1) if e == 'triples_bad' and p[0] < 2 else (0,))]
  + [J('h_io', e, *p, r, opts=NR, max_iter=400000, weight=3) for p in ((120, 130, 60, 12, 0, 0, 0, 1, 0, 0, 8), (130, 130, 60, 13, 0, 0, 0, 1, 0, 0, 8), (30, 30, 30, 21, 2, 2, 0, 0, 0, 2, 8), (1000, 999, 60, 16, 4, 1, 2, 1, 1, 0, 8), (300, 200, 40, 16, 0, 5, 0, 1, 0, 0, 8), (300, 200, 40, 16, 0, 4, 0, 1, 0, 0, 8)) for e in ('ascii', 'triples', 'csr') for r in ((0, 1) if e == 'triples' else (0,))]
  + [J('h_io', 'binary', *p, opts=NR) for p in ((3, 3, 2, 0, 0), (3, 3, 3, 40, 0), (3, 2, 2, 0, 1), (1, 1, 1, 12, 1), (2, 4, 3, 0, 0), (4, 1, 3, 24, 1))])
P('C28', 'whole drivers (main with arguments, environment and console): every pattern of a graph of up to 4 vertices including self loops and one-way entries, every undirected and every lower triangular graph of 5 (thorough 6) vertices, every algorithm and mode, repeated and warm-up iterations, 1 to 3 threads with race check; masked product driver: patterns up to 2x3x3, 3x2x2, 2x2x2; complemented driver: every 3x3 (thorough 4x4) pattern; samples: every 3x3 pattern, grids of up to 2x2 blocks of 2x2 and 3x3 blocks of 1x1; file contents are replaced by the matrix they denote (C24), timing is arbitrary',
  [J('h_tri', 'tri', n, th, m, k, it, w, opts=(NR if th == 1 else []), tier=t, weight=wt) for n, th, m, k, it, w, t, wt in [(4, 1, m, 0, 0, 0, 'q', 3) for m in range(8)] + [(4, 2, 8, 0, 0, 0, 'q', 4), (4, 3, 8, 1, 0, 0, 'q', 1), (5, 1, 8, 1, 0, 0, 'q', 2), (5, 1, 8, 2, 2, 2, 'q', 2), (5, 2, 8, 1, 2, 0, 'q', 3), (5, 3, 8, 2, 0, 0, 'q', 2), (3, 2, 8, 0, 2, 2, 'q', 1), (3, 1, 8, 0, 3, 1, 'q', 1), (2, 1, 8, 0, 0, 0, 'q', 1), (1, 1, 8, 0, 0, 0, 'q', 1), (6, 1, 8, 2, 0, 0, 't', 9), (6, 1, 1, 1, 0, 0, 't', 9), (6, 2, 5, 2, 0, 0, 't', 9), (4, 3, 8, 0, 2, 1, 't', 6)]]
  + [J('h_drvm', 'masked_all', *p, opts=(NR if p[3] == 1 else []), tier=t, weight=w) for p, t, w in (((2, 3, 3, 1, 0), 'q', 5), ((3, 2, 2, 2, 0), 'q', 2), ((2, 2, 2, 3, 2), 'q', 1), ((1, 4, 2, 1, 0), 'q', 1), ((2, 2, 2, 1, 1), 'q', 1), ((4, 2, 2, 2, 0), 't', 6))]
  + [J('h_drvc', 'compl_all', *p, opts=(NR if p[1] == 1 else []), tier=t, weight=w) for p, t, w in (((3, 1, 3, 0, 0), 'q', 1), ((3, 2, 3, 2, 1), 'q', 1), ((3, 3, 3, 2, 0), 'q', 1), ((2, 1, 3, 3, 3), 'q', 1), ((3, 1, 0, 0, 0), 'q', 1), ((3, 1, 1, 0, 0), 'q', 1), ((3, 1, 2, 0, 0), 'q', 1), ((4, 1, 3, 0, 0), 't', 9))]
  + [J('h_tc', 'tc_all', n, th, m, opts=(NR if th == 1 else []), weight=1) for n, th in ((3, 1), (3, 2), (3, 3), (2, 2)) for m in range(3)]
  + [J('h_tcb', 'tc_blocked', *p, r, opts=(NR if p[2] == 1 else []), tier=t, weight=w) for r in range(3) for p, t, w in (((1, 2, 1), 'q', 1), ((2, 1, 1), 'q', 1), ((2, 1, 2), 'q', 1), ((2, 1, 3), 'q', 1), ((2, 2, 1), 'q', 2), ((1, 3, 2), 'q', 1), ((3, 1, 2), 't', 12))])
# the larger matrices for the other properties
PROPS['C06']['jobs'] += BGA(PL + CO + PLX, 1, fl=8 + 32, base=1) + BGA(PL + CO, 2, fl=8 + 32, base=1) + [j for h, e in (('h_big_l', 'hash_u'), ('h_big_l', 'hash_s'), ('h_big_p', 'poly')) for j in BG(h, e, 1, fl=8)]
PROPS['C17']['jobs'] += [j for e in ('inner1', 'inner2', 'innerprod1', 'innerprod2') for j in BG('h_big_p', e, 1)]
PROPS['C04']['jobs'] += BGA([a for a in CO if a[1] in ('c_msa1a_s', 'c_msa2a_s', 'c_hash_s', 'c_heap')] + [a for a in PL if a[1] in ('mca', 'heap0', 'heap1', 'heapdot')], 1) + BGA([a for a in CO if a[1] in ('c_msa1a_s', 'c_hash_s')], 2)
PROPS['C26']['jobs'] += BG('h_big_p', 'poly', 1)
PROPS['C18']['jobs'] += [j for e in LEG_S + LEG_U + ('minner',) for j in BG('h_big_l', e, 1, fl=0 if e == 'mspa' else 8, wide=e not in ('mspa', 'minner'))]
PROPS['C19']['jobs'] += [j for e in ('hash_u', 'hash_s', 'gbasic', 'glinear', 'glinear8') for j in BG('h_big_l', e, 1, fl=8, wide=True)]
BMI = dict(max_iter=8000000, weight=2)
def BM(e, *ps, **kw): return [J('h_big_m', e, *p, opts=(NR if p[2] == 1 else []), tier=t, **BMI, **kw) for t, p in ps]
PROPS['C19']['jobs'] += [J('h_big_k', 'heap_csc', *p, opts=(NR if p[3] == 1 else []), **BMI) for p in ((30, 20, 100, 1, 0, 1, 8, 1, 1, 511, 511), (36, 20, 300, 3, 0, 2, 8, 1, 1, 511, 511), (12, 36, 60, 5, 0, 3, 8, 2, 1, 511, 511))]
PROPS['C20']['jobs'] += [J(h, 'outer', *p, opts=(NR if p[3] == 1 or p[2] == 300 else []), **BMI) for h in ('h_big_r', 'h_big_r2') for p in ((20, 20, 100, 1, 1, 1, 8, 1, 1, 511, 511, 2, 8), (30, 20, 300, 3, 64, 1000, 8, 2, 1, 511, 511, 4, 4), (12, 30, 60, 2, 60, 1000, 8, 3, 1, 511, 511, 2, 16), (36, 36, 40, 4, 1, 1, 8, 4, 0, 511, 511, 5, 32))]
PROPS['C13']['jobs'] += BM('lists', ('q', (20, 60, 2, 1, 1, 511)), ('q', (30, 200, 3, 2, 1, 511)), ('q', (6, 400, 1, 3, 2, 511)), ('t', (36, 600, 4, 4, 1, 511))) + BM('graphs', ('q', (30, 20, 2, 1, 1, 511)), ('q', (36, 60, 3, 2, 1, 511)), ('q', (12, 300, 1, 3, 2, 511)))
PROPS['C14']['jobs'] += BM('convert', ('q', (30, 40, 3, 1, 1, 511)), ('q', (8, 300, 2, 2, 2, 511)), ('q', (36, 640, 1, 3, 1, 511)), ('q', (24, 24, 5, 4, 3, 511))) + BM('transp', ('q', (20, 30, 1, 1, 1, 511)), ('q', (36, 300, 1, 2, 2, 511)), ('q', (8, 12, 2, 1, 1, 511)))
PROPS['C15']['jobs'] += BM('copies', ('q', (30, 40, 3, 1, 1, 511)), ('q', (12, 300, 1, 1, 1, 511)), ('q', (36, 20, 4, 2, 2, 511))) + BM('equal', ('q', (20, 60, 2, 1, 0, 511)), ('q', (36, 24, 3, 2, 0, 511))) + BM('sorting', ('q', (30, 200, 3, 1, 1, 511)), ('q', (8, 640, 1, 2, 2, 511)))
PROPS['C16']['jobs'] += BM('intersect', ('q', (30, 100, 3, 1, 1, 511)), ('q', (20, 300, 1, 2, 1, 511)), ('q', (36, 36, 5, 3, 2, 511))) + BM('selecting', ('q', (20, 60, 2, 1, 1, 511)), ('q', (30, 200, 1, 3, 0, 511)))
PROPS['C27']['jobs'] += BM('splits', *[('q', (r, c, 1, sd, 1, 511, p)) for r, c, sd, p in ((20, 60, 1, 3), (36, 200, 2, 7), (36, 30, 3, 36), (9, 600, 4, 2))])
LARGE = '; in addition larger matrices (up to 36 rows, 640 columns) with a fixed pseudo-random background of nine kinds of rows in which 1 to 3 rows are symbolic choices among four contents'
for _c in ('C01', 'C02', 'C03', 'C04', 'C06', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C26', 'C27'): PROPS[_c]['bounds'] += LARGE
def GJ(e, *p, **kw): return J('h_grb', e, *p, opts=NR, **kw)
GD = ((2, 3), (3, 2), (1, 4), (3, 0), (0, 2))
P('C29', 'every pattern of matrices of up to 3x3, 1x4, 4x3 (thorough 4x4), without rows or columns, values of 4 and 8 bytes naming their position or all equal, zero and one based, with and without an earlier matrix; lists of up to 4 entries in any order with duplicates; undirected and directed graphs of 3 (4) vertices. GraphBLAS calls are a functional model checked against the installed library: which call fails, sizes, uniform and unordered matrices',
  [GJ(e, *d, *x) for d in GD for e, x in (('csr_there_and_back', ()), ('csr_only', ()), ('csc_there_and_back', (0,)), ('csc_there_and_back', (3,)), ('ptr_u64', (0,)), ('ptr_u32', (3,)), ('build_u64', (1,)), ('build_i32', (3,)), ('move_u32', (0,)))]
  + [GJ(e, *p) for e, p in (('csc_there_and_back', (3, 3, 2)), ('csr_there_and_back', (3, 3)), ('ptr_u64', (3, 3, 1)), ('ptr_u64', (2, 2, 2)), ('ptr_i64', (2, 3, 2)), ('ptr_i64', (2, 3, 1)), ('ptr_u32', (3, 2, 0)), ('build_u32', (2, 3, 2)), ('build_u32', (3, 3, 1)), ('build_i64', (2, 3, 0)), ('build_i64', (2, 2, 3)), ('move_u64', (3, 3, 0)), ('move_i32', (2, 3, 0)), ('pack', (2, 3)), ('pack', (3, 2)), ('pack', (3, 3)), ('pack_u32', (2, 3)), ('pack_i32', (3, 2)), ('csr_there_and_back_u32', (2, 3)), ('csr_there_and_back_i32', (3, 2)), ('csr_only_u32', (2, 3)), ('csc_there_and_back_u32', (2, 3, 0)), ('csc_there_and_back_u32', (2, 2, 3)), ('csc_there_and_back_i32', (3, 2, 2)), ('noniso', (2, 2, 0)), ('noniso', (2, 3, 1)), ('lowtri_u64', (3, 3)), ('lowtri_i64', (2, 2)), ('bycol', (2, 3, 0, 0)), ('bycol', (3, 2, 1, 1)), ('degrees', (3, 3)), ('degrees', (2, 2)), ('read_u64', (3, 3, 2, 0)), ('read_u64', (3, 3, 3, 1)), ('read_u64', (2, 3, 3, 0)), ('read_i64', (2, 2, 4, 1)), ('read_i32', (3, 2, 3, 0)), ('types', (1, 1)))]
  + [GJ(e, *p, tier='t', weight=3) for e, p in (('csr_there_and_back', (4, 4)), ('csr_there_and_back', (4, 3)), ('csc_there_and_back', (3, 4, 2)), ('csc_there_and_back', (4, 3, 0)), ('ptr_u64', (4, 3, 1)), ('ptr_u64', (4, 4, 0)), ('build_u64', (3, 4, 3)), ('build_i64', (4, 3, 2)), ('move_u32', (4, 3, 0)), ('pack', (3, 4)), ('lowtri_u64', (4, 4)), ('bycol', (3, 4, 0, 1)), ('degrees', (4, 4)), ('read_u64', (3, 3, 5, 1)), ('read_u64', (4, 4, 4, 0)))])
GRBK = ('spa', 'hash_wobin', 'hash', 'poly', 'inner_nohash', 'inner1', 'inner2', 'minner1', 'minner2') + tuple(a + p for a in ('msa2old', 'msa1old', 'msa2', 'msa1', 'mhash', 'heapv0', 'heapv1', 'heapv2', 'heap0', 'heap1', 'heapdot', 'mca') for p in ('_1', '_2'))
P('C30', 'every directed graph of 3 vertices with self loops, every undirected graph and every lower triangle of 4 (thorough: undirected of 5) vertices, 1 to 3 threads; fixed graphs of 20, 22 and 34 vertices, directed, undirected and lower triangular, in which four vertices have one of four neighbourhoods of 0, 14 to 17 or 30 to 33 vertices; output taken over from an empty matrix; 64-bit unsigned indices, 64-bit values',
  [J('h_grbk', e, *p, opts=NR, tier=t, weight=w) for e in GRBK for p, t, w in (((3, 1, 0), 'q', 2), ((4, 2, 1), 'q', 1), ((4, 3, 2), 'q', 1), ((5, 3, 1), 't', 4), ((3, 2, 0), 't', 2), ((2, 3, 0), 'q', 1))] + [J('h_grbw', e, *p, opts=NR, max_iter=8000000, weight=9 if t == 't' else 3, tier=t) for e in GRBK for p, t in (((20, 1, 0, 1), 'q'), ((20, 3, 1, 2), 't' if 'heap' in e else 'q'), ((22, 2, 2, 3), 'q'), ((34, 1, 2 if 'heap' in e else 1, 4), 'q'))])
P('C25', 'serial generator: 2 to 16 vertices, up to 4 edges, every draw from 8 (quadrants) or 2 (weights, noise) values covering all quadrants and both ends of the unit interval, up to 15 draws; sorts of up to 6 edges with keys up to 8 values and up to 32 bits; all scales up to 30; parallel generator: 4 to 16 vertices, up to 5 edges, up to 5 threads, capacities 2 to 100, every draw one of both ends of its range, up to 44 draws, noise of the shares at both ends and the middle, squares of up to 16 vertices and 1000 edges cut up to three times, threads started at once or when joined. Outside: draws equal to a quadrant boundary, interleavings inside a worker thread, quadrant parameters that leave less than 1.5% for the fourth quadrant',
  [J('h_gt', 'gen', *p, opts=NR) for p in ((2, 3, 0, 0, 0, 8), (4, 3, 0, 0, 0, 10), (4, 4, 0, 0, 0, 14), (8, 2, 0, 0, 0, 12), (8, 3, 0, 0, 0, 15), (4, 2, 1, 0, 1, 4), (4, 2, 0, 0, 1, 6), (4, 2, 0, 1, 1, 6), (2, 4, 1, 0, 0, 8), (8, 3, 1, 9, 0, 9), (2, 3, 0, 1, 0, 8), (4, 3, 0, 1, 0, 10), (8, 3, 1, 1, 0, 9), (16, 2, 1, 0, 0, 8), (16, 2, 1, 1, 0, 8), (4, 4, 1, 1, 0, 8), (1, 2, 1, 0, 0, 2))]
  + [J('h_gt', 'genFile', *p, opts=NR) for p in ((2, 3, 0, 8), (4, 2, 0, 8), (4, 3, 1, 8), (8, 2, 0, 9))]
  + [J('h_gt', 'sorts', n, k, h, opts=NR, tier=t) for n, k, t in ((1, 2, 'q'), (2, 2, 'q'), (3, 3, 'q'), (4, 3, 'q'), (5, 4, 'q'), (6, 4, 'q'), (7, 4, 't')) for h in (0, 1)] + [J('h_gt', 'sortsBig', n, 8, h, opts=NR, tier=t) for n, t in ((4, 'q'), (5, 'q'), (6, 't')) for h in (0, 1)]
  + [J('h_gt', 'sortsBits', n, b, h, opts=NR, tier=t) for n, t in ((2, 'q'), (3, 'q'), (4, 't')) for b in (0, 1) for h in (0, 1)]
  + [J('h_gt', 'vary', k, opts=NR) for k in (1, 2)] + [J('h_gt', 'pars', 0, opts=NR)] + [J('h_gt', 'parFile', k, opts=NR) for k in range(0, 13, 3)]
  + [J('h_par', e, *p, opts=NR, covers=('end', 'last vertex'), tier=t) for e in ('vec', 'file', 'sorted') for p, t in (((2, 4, 1, 100, 0, 10, 0, 0), 'q'), ((3, 4, 1, 100, 2, 16, 0, 0), 'q'), ((3, 4, 1, 100, 4, 14, 0, 0), 'q'), ((3, 4, 1, 100, 3, 16, 0, 0), 'q'), ((4, 8, 2, 100, 2, 30, 0, 1), 'q'), ((3, 8, 2, 100, 6, 30, 0, 1), 'q'), ((3, 8, 2, 100, 4, 24, 1, 0), 'q'), ((2, 16, 4, 100, 2, 30, 1, 1), 'q'), ((3, 16, 4, 100, 0, 30, 1, 0), 'q'), ((5, 16, 4, 100, 2, 44, 0, 0), 'q'), ((4, 5, 1, 100, 1, 24, 0, 0), 'q'), ((2, 7, 3, 100, 2, 24, 0, 0), 'q'))]
  + [J('h_par', e, *p, opts=NR, covers=('end', 'last vertex')) for e in ('vec', 'sorted') for p in ((3, 4, 1, 2, 2, 16, 0, 0), (3, 8, 1, 2, 0, 24, 1, 0), (4, 16, 1, 2, 2, 44, 0, 0), (4, 16, 2, 3, 2, 44, 0, 1))] + [J('h_par', e, *p, opts=NR, covers=('end', 'last vertex')) for e, p in (('vec', (4, 8, 1, 2, 4, 30, 0, 0)), ('sorted', (4, 4, 1, 2, 6, 44, 0, 0)), ('sorted', (8, 8, 1, 4, 4, 44, 0, 0)), ('sorted', (4, 8, 1, 100, 1, 30, 0, 0)), ('sorted', (5, 4, 1, 100, 1, 24, 0, 0)), ('vec', (5, 4, 1, 100, 1, 24, 0, 0)), ('sorted', (4, 4, 1, 100, 3, 30, 0, 0)))]
  + [J('h_par', 'shatter', *p, opts=NR) for p in ((20, 8, 1, 0, 0), (20, 8, 1, 1, 1), (100, 16, 2, 0, 0), (100, 16, 3, 1, 0), (1000, 13, 3, 1, 0), (1000, 11, 2, 0, 1), (1000, 5, 3, 0, 0))] + [J('h_par', 'gate', 6, opts=NR)])
NOT_APPLICABLE = {}
