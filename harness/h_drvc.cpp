// The complemented masked product driver as a whole: A*A outside A.
#define SX_MAXDRAW 10
#include "sx_drv.h"
#define main drv_main
#include "benchmarks/ComplementMaskedSpGEMM.cpp"
#undef main
// params: size, threads, mode, iterations, warm-up iterations
static const char MODES[4][5] = {"heap", "Hash", "msa", "all"};
extern "C" void compl_all() {
    int n = sx_param(0), th = sx_param(1), it = sx_param(3);
    Pat &a = drv_pat[0]; symPat(a, n, n, "A");
    u64 z = 0, t = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { u64 q = 0; for (int k = 0; k < n; k++) q += a.b[i][k] & a.b[k][j]; if (!a.b[i][j]) { z += q != 0; t += q; } }
    u64 mark = sx_heap_mark(); static char I[3] = "0", W[3] = "0"; drv_env("MODE", MODES[sx_param(2)]);
    if (it) { I[0] = '0' + it; W[0] = '0' + (int) sx_param(4); drv_env("INNER_ITERS", I); drv_env("WARMUP_ITERS", W); }
    char ts[2] = {(char) ('0' + th), 0}, p[2] = "x", f[8] = "dir/a.x"; char *argv[4] = {p, f, ts, nullptr};
    sx_assert(drv_main(3, argv) == 0, "the driver succeeds");
    sx_assert(drv_n >= 1, "the driver reports a result");
    for (int i = 0; i < drv_n; i++) { DrvLine &l = drv_log[i]; sx_assert(l.k >= 2, "the driver reports two numbers"); sx_check_eq(l.v[l.k - 2], z, "reported number of entries is that of the complemented product"); sx_check_eq(l.v[l.k - 1], t, "reported sum is that of the complemented product"); }
    sx_heap_check(mark, "memory retained after the driver returns");
    sx_cover("end");
}
