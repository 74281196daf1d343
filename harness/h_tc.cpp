// The two triangle counting samples as a whole: one matrix, and a grid of blocks.
#define SX_MAXDRAW 10
#include "sx_drv.h"
#include <omp.h>
template<class... X> static inline int drv_printf(const char *f, X... x) {
    const char *p = drv_mark, *q = f; while (*p && *p == *q) { p++; q++; } if (*p) return 0;
    DrvLine l; l.k = 0; auto put = [&](auto v) { if constexpr (std::is_integral<decltype(v)>::value) if (l.k < 12) l.v[l.k++] = (u64) v; }; (put(x), ...);
    if (drv_n < 96) drv_log[drv_n++] = l; return 0;
}
#define printf drv_printf
#ifdef BLOCKED
#include <fstream>
struct DrvFile { DrvFile(const std::string &) {} template<class X> DrvFile &operator<<(const X &) { return *this; } DrvFile &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } void close() {} };
namespace std { using ::DrvFile; }
#define ofstream DrvFile
#define main drv_main
#include "sample/blocked_parallel_tc.cpp"
#undef main
// params: grid, block size, threads, report (0 triangles, 1 masked entries, 2 masked entries by inner products)
extern "C" void tc_blocked() {
    int gd = sx_param(0), n = sx_param(1), th = sx_param(2), rep = sx_param(3);
    static const char MK[3][70] = {"Total number of triangles", "Total number of masked nnz outputs in SpGEMM", "Total number of masked nnz outputs in InnerProductSpGEMM"};
    static char mk[70]; for (int i = 0; i < 70; i++) mk[i] = MK[rep][i]; drv_mark = mk;
    for (int b = 0; b < gd * gd; b++) symPat(drv_pat[b], n, n, "A");
    auto at = [&](int i, int j) { return drv_pat[i / n * gd + j / n].b[i % n][j % n]; };
    u64 z = 0, t = 0; int N = gd * n;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (at(i, j)) for (int k = 0; k < gd; k++) { u64 q = 0; for (int x = 0; x < n; x++) q += at(i, k * n + x) & at(k * n + x, j); t += q; z += q != 0; }
    u64 mark = sx_heap_mark(); sx_threads(th);
    char gs[2] = {(char) ('0' + gd), 0}, p[2] = "x", f[8] = "dir/a"; char *argv[5] = {p, f, gs, gs, nullptr};
    sx_assert(drv_main(4, argv) == 0, "the driver succeeds");
    sx_assert(drv_n == 1, "the driver reports one total");
    sx_check_eq(drv_log[0].v[0], rep ? z : t, rep ? "reported number of entries is the sum over the blocks" : "reported total is the number of triangles of the whole matrix");
    sx_heap_check(mark, "memory retained after the driver returns");
    sx_cover("end");
}
#else
#define main drv_main
#include "sample/all_parallel_tc.cpp"
#undef main
// params: vertices, threads, mark (0 SPA, 1 dot, 2 hash)
static const char MK[3][25] = {"MaskedSPASpGEMM returned", "DotSpGEMM returned", "mxm_hash_mask returned"};
extern "C" void tc_all() {
    int n = sx_param(0), th = sx_param(1); static char mk[32]; for (int i = 0; i < 25; i++) mk[i] = MK[sx_param(2)][i]; drv_mark = mk;
    Pat &a = drv_pat[0]; symPat(a, n, n, "A");
    u64 z = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { u64 q = 0; for (int k = 0; k < n; k++) q |= a.b[i][k] & a.b[k][j]; z += q & a.b[i][j]; }
    u64 mark = sx_heap_mark();
    char ts[2] = {(char) ('0' + th), 0}, p[2] = "x", f[8] = "dir/a.x"; char *argv[4] = {p, f, ts, nullptr};
    sx_assert(drv_main(3, argv) == 0, "the driver succeeds");
    sx_assert(drv_n >= 1, "the driver reports a result");
    for (int i = 0; i < drv_n; i++) sx_check_eq(drv_log[i].v[0], z, "reported number of entries is that of the masked product");
    sx_heap_check(mark, "memory retained after the driver returns");
    sx_cover("end");
}
#endif
