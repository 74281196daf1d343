#include "mat.h"
#include "spgemm-blocks/masked-spgemm.h"
typedef int IT; typedef u64 NT;
// per-row and total multiplication counts. params: rowsA, inner, cols, threads
extern "C" void flops() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), th = sx_param(3); sx_threads(th);
    Pat a, b, m; symPat(a, r, k, "A"); symPat(b, k, c, "B"); symPat(m, r, c, "M");
    CSR<IT, NT> A, B, M; buildCSR(A, a, 0); buildCSR(B, b, 1); buildCSR(M, m, 2); CSC<IT, NT> Bc; buildCSC(Bc, b, 1);
    IT *f = (IT *) malloc(sizeof(IT) * r), *fm = (IT *) malloc(sizeof(IT) * r), *w = (IT *) malloc(sizeof(IT) * r);
    IT tf = calculateFlops(A, B, f, th), tm = calculateFlops(A, B, M, fm, th), tw = calculateWork(A, Bc, M, w, th), ops = calculateMultOps(A, B, th), ops0 = calculateMultOps(A, B);
    IT sf = 0, sm = 0, sw = 0;
    for (int i = 0; i < r; i++) {
        IT x = 0, any = 0, la = 0, y = 0;
        for (int q = 0; q < k; q++) { la += a.b[i][q]; for (int j = 0; j < c; j++) x += a.b[i][q] & b.b[q][j]; }
        for (int j = 0; j < c; j++) { any |= m.b[i][j]; IT lb = 0; for (int q = 0; q < k; q++) lb += b.b[q][j]; if (m.b[i][j] && la && lb) y += la + lb; }
        sx_check_eq(f[i], x, "multiplications of the row"); sx_check_eq(fm[i], any ? x : 0, "multiplications of the row under a mask"); sx_check_eq(w[i], y, "inner product work of the row");
        sf += x; sm += any ? x : 0; sw += y;
    }
    sx_check_eq(tf, sf, "total multiplications"); sx_check_eq(tm, sm, "total multiplications under a mask"); sx_check_eq(tw, sw, "total inner product work");
    sx_check_eq(ops, sf, "total multiplication count"); sx_check_eq(ops0, sf, "total multiplication count, default threads");
    free(f); free(fm); free(w);
    sx_cover("end");
}
// distribution of rows to threads. params: rows, threads, largest work per row (0: skewed values)
template<class T> static void dist() {
    int n = sx_param(0), th = sx_param(1); int mx = sx_param(2);
    static const uint64_t skew[8] = {0, 1, 2, 3, 7, 50, 1000, 200000}, wide[6] = {0, 1, 5, 1ull << 31, (1ull << 32) + 9, 1ull << 40};
    T *acc = (T *) malloc(sizeof(T) * n); T tot = 0;
    for (int i = 0; i < n; i++) { T w = mx > 0 ? (T) sx_int("w", 0, mx) : mx < 0 ? (T) wide[sx_int("w", 0, 5)] : (T) skew[sx_int("w", 0, 7)]; acc[i] = tot; tot += w; }
    T prev = 0;
    for (int t = 0; t < th; t++) {
        auto [b, e] = distributeWork<T>(tot, acc, (T) n, th, t);
        sx_assert(b == prev && e >= b && e <= (T) n, "row ranges are consecutive");
        prev = e;
    }
    sx_assert(prev == (T) n, "row ranges cover every row");
    free(acc); sx_cover("end");
}
extern "C" void dist_i() { dist<int>(); }
extern "C" void dist_l() { dist<int64_t>(); }
extern "C" void dist_u() { dist<uint64_t>(); }
// upper bounds used to size buffers. params: rowsA, inner, cols
extern "C" void bounds_() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2);
    Pat a, b, m; symPat(a, r, k, "A"); symPat(b, k, c, "B"); symPat(m, r, c, "M");
    CSR<IT, NT> A, B, M; buildCSR(A, a, 0); buildCSR(B, b, 1); buildCSR(M, m, 2);
    IT f[MAXD]; calculateFlops(A, B, f, 1);
    int lo = (int) sx_int("lo", 0, r), hi = (int) sx_int("hi", 0, r); sx_assume(lo <= hi);
    auto [sc, ma, mm, mf] = scanInputs<false, true, true, true, true>(lo, hi, f, A, B, M);
    auto [sc2, ma2, mm2, mf2] = scanInputs<true, true, true, true, true>(lo, hi, f, A, B, M);
    IT est = estimateResultSize(lo, hi, f, A, B, M);
    IT nz = 0, nzc = 0, xa = 0, xm = 0, xf = 0;
    for (int i = 0; i < r; i++) if (i >= lo && i < hi) {
        IT la = 0, lm = 0, x = 0;
        for (int q = 0; q < k; q++) { la += a.b[i][q]; for (int j = 0; j < c; j++) x += a.b[i][q] & b.b[q][j]; }
        for (int j = 0; j < c; j++) { lm += m.b[i][j]; int any = 0; for (int q = 0; q < k; q++) any |= a.b[i][q] & b.b[q][j]; nz += any & m.b[i][j]; nzc += any & !m.b[i][j]; }
        if (la > xa) xa = la; if (lm > xm) xm = lm; if (x > xf) xf = x;
    }
    sx_assert(sc >= nz && est >= nz && sc2 >= nzc, "the result size bound is large enough");
    sx_assert(ma == xa && mm == xm && mf == xf && ma2 == xa && mm2 == xm && mf2 == xf, "largest row sizes and work");
    sx_cover("end");
}

// counts beyond 32 bits: rows of B and M of up to 2^40 entries (only their pointers exist). params: rowsA, inner, threads
template<class T> static void wide_() {
    int r = sx_param(0), k = sx_param(1), th = sx_param(2); sx_threads(th); static const uint64_t L[4] = {0, 3, (1ull << 32) + 5, 1ull << 40};
    Pat a, m; symPat(a, r, k, "A"); symPat(m, r, k, "M"); CSR<T, NT> A, B, M, W; CSC<T, NT> Bc; buildCSR(A, a, 0); buildCSR(M, m, 2);
    T *bp = (T *) malloc(sizeof(T) * (k + 1)), *wp = (T *) malloc(sizeof(T) * (r + 1)); T lb[MAXD], lm[MAXD];
    bp[0] = 7; for (int q = 0; q < k; q++) { lb[q] = (T) L[sx_int("lenB", 0, 3)]; bp[q + 1] = bp[q] + lb[q]; }
    wp[0] = 0; for (int i = 0; i < r; i++) { lm[i] = (T) L[sx_int("lenM", 0, 3)]; wp[i + 1] = wp[i] + lm[i]; }
    B.rows = k; B.rowptr = bp; Bc.cols = k; Bc.colptr = bp; W.rows = r; W.rowptr = wp;
    T f[MAXD], fm[MAXD], w[MAXD]; T tf = calculateFlops(A, B, f, th), tm = calculateFlops(A, B, W, fm, th), tw = calculateWork(A, Bc, M, w, th), ops = calculateMultOps(A, B, th); T sf = 0, sm = 0, sw = 0, est = 0, mx = 0, ml = 0;
    for (int i = 0; i < r; i++) {
        T x = 0, y = 0, la = 0; for (int q = 0; q < k; q++) { la += a.b[i][q]; x += a.b[i][q] ? lb[q] : 0; }
        for (int q = 0; q < k; q++) if (m.b[i][q] && la && lb[q]) y += la + lb[q];
        sx_check_eq(f[i], x, "multiplications of the row"); sx_check_eq(fm[i], lm[i] ? x : 0, "multiplications of the row under a mask"); sx_check_eq(w[i], y, "inner product work of the row");
        sf += x; sm += lm[i] ? x : 0; sw += y; est += x < lm[i] ? x : lm[i]; if (x > mx) mx = x; if (lm[i] > ml) ml = lm[i];
    }
    sx_check_eq(tf, sf, "total multiplications"); sx_check_eq(tm, sm, "total multiplications under a mask"); sx_check_eq(tw, sw, "total inner product work"); sx_check_eq(ops, sf, "total multiplication count");
    sx_assert(estimateResultSize((T) 0, (T) r, f, A, B, W) >= est, "the result size bound is large enough");
    auto [sc, xa, xm, xf] = scanInputs<false, true, true, true, true>((T) 0, (T) r, f, A, B, W); auto [sc2, xa2, xm2, xf2] = scanInputs<true, true, true, true, true>((T) 0, (T) r, f, A, B, W);
    sx_assert(sc >= est && sc2 >= sf, "the result size bound is large enough"); sx_assert(xm == ml && xf == mx && xm2 == ml && xf2 == mx, "largest row sizes and work");
    B.rowptr = W.rowptr = nullptr; Bc.colptr = nullptr; B.rows = W.rows = 0; Bc.cols = 0; free(bp); free(wp); sx_cover("end");
}
extern "C" void wide_l() { wide_<int64_t>(); }
extern "C" void wide_u() { wide_<uint64_t>(); }
