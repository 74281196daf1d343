#include "sx_pre.h"
#include "spgemm-blocks/scan.h"
typedef uint64_t u64;
// buffers of exactly n elements; values are arbitrary 64-bit words (sums wrap)
static u64 *arr(int n) { return (u64 *) malloc(sizeof(u64) * n); }
// params: 0 largest size, 1 threads. The size itself is symbolic.
template<class F> static void check(F f, bool incl, bool compareAll) {
    int N = sx_param(0); int n = (int) sx_int("size", sx_param(2), N);
    u64 *in = arr(n), *out = arr(n), keep[32];
    for (int i = 0; i < n; i++) keep[i] = in[i] = sx_bv("v", 64);
    f(in, (size_t) n, out);
    u64 s = 0;
    for (int i = 0; i < n; i++) {
        if (incl) s += keep[i];
        sx_check_eq(out[i], s, incl ? "inclusive prefix sum" : "exclusive prefix sum");
        if (!incl) s += keep[i];
        sx_check_eq(in[i], keep[i], "input of the prefix sum unchanged");
    }
    free(in); free(out); sx_cover("end");
}
extern "C" void ex() { int th = sx_param(1); check([=](u64 *i, size_t n, u64 *o) { exclusiveScan(i, n, o, th); }, false, true); }
extern "C" void in() { int th = sx_param(1); check([=](u64 *i, size_t n, u64 *o) { inclusiveScan(i, n, o, th); }, true, true); }
// the cooperative versions called from inside a parallel region
extern "C" void ex_team() { int th = sx_param(1); check([=](u64 *i, size_t n, u64 *o) { u64 *ps = arr(th);
#pragma omp parallel num_threads(th)
    exclusiveScan(i, n, o, th, ps);
    free(ps); }, false, true); }
extern "C" void in_team() { int th = sx_param(1); check([=](u64 *i, size_t n, u64 *o) { u64 *ps = arr(th);
#pragma omp parallel num_threads(th)
    inclusiveScan(i, n, o, th, ps);
    free(ps); }, true, true); }
// row-pointer scan: N+1 results from N inputs
extern "C" void rowscan() {
    sx_threads(sx_param(1));
    int N = sx_param(0); int n = (int) sx_int("size", 0, N);
    u64 *in = arr(n), *out = arr(n + 1), keep[32];
    for (int i = 0; i < n; i++) keep[i] = in[i] = sx_bv("v", 64);
    scan<u64>(in, out, (u64) n + 1);
    u64 s = 0; for (int i = 0; i <= n; i++) { sx_check_eq(out[i], s, "row pointer prefix sum"); if (i < n) s += keep[i]; }
    free(in); free(out); sx_cover("end");
}
// around the sequential/parallel threshold: long array, arbitrary values at thread and array boundaries
static void big(int n, int th, int extra, int which) {
    sx_threads(th);
    u64 *in = arr(n), *out = arr(n + extra);
    for (int i = 0; i < n; i++) in[i] = (i & 3) + 1;
    int pos[12], np = 0; pos[np++] = 0; pos[np++] = n - 1;
    for (int t = 1; t < th && np < 10; t++) { int b = ((n + extra) / th) * t; pos[np++] = b - 1; if (b < n) pos[np++] = b; }
    for (int k = 0; k < np; k++) if (pos[k] >= 0 && pos[k] < n) in[pos[k]] = sx_bv("v", 64);
    if (which == 0) exclusiveScan(in, (size_t) n, out, th); else if (which == 1) inclusiveScan(in, (size_t) n, out, th); else scan<u64>(in, out, (u64) n + 1);
    u64 s = 0; int k;
    for (int i = 0; i < n; i++) {
        bool chk = i < 4 || i > n - 4; for (k = 0; k < np; k++) chk |= i - pos[k] <= 2 && pos[k] - i <= 2;
        if (which != 1 && chk) sx_check_eq(out[i], s, "prefix sum");
        s += in[i];
        if (which == 1 && chk) sx_check_eq(out[i], s, "prefix sum");
    }
    if (which == 2) sx_check_eq(out[n], s, "total");
    free(in); free(out); sx_cover("end");
}
extern "C" void ex_big() { big(sx_param(0), sx_param(1), 0, 0); }
extern "C" void in_big() { big(sx_param(0), sx_param(1), 0, 1); }
extern "C" void rowscan_big() { big(sx_param(0), sx_param(1), 1, 2); }
