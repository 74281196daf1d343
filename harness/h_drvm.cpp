// The masked product driver as a whole: three matrices, every legacy algorithm.
#define SX_MAXDRAW 10
#include "sx_drv.h"
#include <cstring>
#define main drv_main
#include "benchmarks/MaskedAllSpGEMM.cpp"
#undef main
// params: rows, inner, columns, threads, iterations (0: none given)
extern "C" void masked_all() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), th = sx_param(3), it = sx_param(4);
    Pat &a = drv_pat[0], &b = drv_pat[1], &m = drv_pat[2]; symPat(a, r, k, "A"); symPat(b, k, c, "B"); symPat(m, r, c, "M");
    u64 z = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) z += m.b[i][j] && expectC(a, b, i, j);
    u64 mark = sx_heap_mark(); static char I[3] = "0"; if (it) { I[0] = '0' + it; drv_env("INNER_ITERS", I); }
    char ts[2] = {(char) ('0' + th), 0}, p[2] = "x", f[8] = "dir/a.x"; char *argv[6] = {p, f, f, f, ts, nullptr};
    sx_assert(drv_main(5, argv) == 0, "the driver succeeds");
    sx_assert(drv_n >= 1, "the driver reports a result");
    for (int i = 0; i < drv_n; i++) sx_check_eq(drv_log[i].v[drv_log[i].k - 1], z, "reported number of entries is that of the masked product");
    sx_heap_check(mark, "memory retained after the driver returns");
    sx_cover("end");
}
