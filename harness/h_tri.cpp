// The triangle counting driver as a whole: main() with its command line, environment and console; the matrix read is a symbolic graph.
#define SX_MAXDRAW 10
#include "sx_drv.h"
#define main tri_main
#include "benchmarks/TriCntAll.cpp"
#undef main
static const char MODES[9][10] = {"inner", "MSA", "hash", "heap", "intersect", "all1p", "all2p", "dot", "all"};
// params: 0 vertices, 1 threads, 2 mode, 3 graph (0 any pattern incl. self loops and one-way entries, 1 symmetric, 2 lower triangular), 4 iterations (0: none given), 5 warm-up iterations
extern "C" void tri() {
    int n = sx_param(0), th = sx_param(1), kind = sx_param(3), it = sx_param(4);
    Pat &g = drv_pat[0]; g.r = g.c = n; g.cs = 1;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g.b[i][j] = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (kind == 0) g.b[i][j] = (int) sx_int("g", 0, 1);
        else if (kind == 1 && j < i) g.b[i][j] = g.b[j][i] = (int) sx_int("g", 0, 1);
        else if (kind == 2 && j < i) g.b[i][j] = (int) sx_int("g", 0, 1);
    }
    u64 t = 0;
    auto e = [&](int i, int j) { return g.b[i][j] | g.b[j][i]; };
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) for (int k = 0; k < j; k++) t += e(i, j) & e(j, k) & e(i, k);
    u64 mark = sx_heap_mark();
    drv_env("MODE", MODES[sx_param(2)]); static char I[3] = "0", W[3] = "0";
    if (it) { I[0] = '0' + it; W[0] = '0' + (int) sx_param(5); drv_env("INNER_ITERS", I); drv_env("WARMUP_ITERS", W); }
    char ts[2] = {(char) ('0' + th), 0}, f[8] = "dir/g.x", p[2] = "x"; char *argv[4] = {p, f, ts, nullptr};
    int rc = tri_main(3, argv);
    sx_assert(rc == 0, "the driver succeeds");
    sx_assert(drv_n >= 1, "the driver reports a result");
    for (int i = 0; i < drv_n; i++) if (!drv_log[i].tag) sx_check_eq(drv_log[i].v[drv_log[i].k - 1], t, "reported sum is the number of triangles");
    sx_heap_check(mark, "memory retained after the driver returns");
    for (int i = 0; i < drv_n; i++) if (drv_log[i].tag) sx_check_eq(drv_log[i].v[drv_log[i].k - 1], t, "sum reported for HashIntersect is the number of triangles");
    sx_cover("end");
}
