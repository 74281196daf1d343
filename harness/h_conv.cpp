#include "mat.h"
#include "util/transpose.h"
// format conversions. params: rows, cols, threads
static Pat P; static void setup() { sx_threads(sx_param(2)); symPat(P, sx_param(0), sx_param(1), "P"); }
// m holds exactly the entries of P (tag values as A); tr: exchanged coordinates; sorted: ascending ids
static void checkCSR(int *ptr, int *ids, u64 *vals, int nnz, bool tr, bool sorted) {
    int o_ = tr ? P.c : P.r, i_ = tr ? P.r : P.c, total = 0;
    sx_assert(ptr[0] == 0, "pointers start at zero");
    for (int o = 0; o < o_; o++) {
        int s = ptr[o], e = ptr[o + 1]; sx_assert(s == total && s <= e && e - s <= i_, "extents are valid");
        u64 got[MAXC] = {0}; int cnt[MAXC] = {0};
        for (int q = s; q < e; q++) {
            int i = ids[q]; sx_assert(i >= 0 && i < i_, "index in range"); got[i] = vals[q]; cnt[i]++;
            if (sorted && q > s) sx_assert(ids[q - 1] < ids[q], "indices are ascending");
        }
        for (int i = 0; i < i_; i++) {
            int r = tr ? i : o, c = tr ? o : i;
            sx_check_eq(cnt[i], P.b[r][c], "every entry is present exactly once"); sx_check_eq(got[i], P.b[r][c] ? tagA(r, c) : 0, "entry keeps its value");
        }
        total = e;
    }
    sx_assert(nnz == total, "number of entries is kept");
}
extern "C" void csc_to_csr() {
    setup(); CSC<int, u64> a; buildCSC(a, P, 0); u64 hm = sx_heap_mark();
    { CSR<int, u64> c(a); sx_assert(c.rows == P.r && c.cols == P.c && c.zerobased, "dimensions"); checkCSR(c.rowptr, c.colids, c.values, c.nnz, false, true); }
    checkUnchanged(a, P, 0, "source is unchanged"); sx_heap_check(hm, "conversion retains no memory"); sx_cover("end");
}
extern "C" void csc_to_csr_f() {
    setup(); CSC<int, u64> a; buildCSC(a, P, 0);
    CSR<int, u64> c(a, false); sx_assert(c.rows == P.r && c.cols == P.c && c.zerobased, "dimensions"); checkCSR(c.rowptr, c.colids, c.values, c.nnz, false, true);
    checkUnchanged(a, P, 0, "source is unchanged"); sx_cover("end");
}
extern "C" void csc_to_csr_t() { // the transpose: column structure becomes row structure
    setup(); CSC<int, u64> a; buildCSC(a, P, 0);
    CSR<int, u64> c(a, true); sx_assert(c.rows == P.c && c.cols == P.r && c.zerobased, "dimensions"); checkCSR(c.rowptr, c.colids, c.values, c.nnz, true, true);
    checkUnchanged(a, P, 0, "source is unchanged"); sx_cover("end");
}
// parallel transposition, and back
extern "C" void atomic_t() {
    setup(); CSR<int, u64> a; buildCSR(a, P, 0);
    int *cp = (int *) malloc(4 * (P.c + 1)), *ri = (int *) malloc(4 * a.nnz); u64 *v = (u64 *) malloc(8 * a.nnz); u64 hm = sx_heap_mark();
    csr2csc_atomic_nosort<int, u64>(P.r, P.c, a.nnz, a.rowptr, a.colids, a.values, cp, ri, v);
    sx_heap_check(hm, "transposition retains no memory");
    checkCSR(cp, ri, v, a.nnz, true, false); checkUnchanged(a, P, 0, "source is unchanged");
    int *rp = (int *) malloc(4 * (P.r + 1)), *ci = (int *) malloc(4 * a.nnz); u64 *w = (u64 *) malloc(8 * a.nnz);
    csr2csc_atomic_nosort<int, u64>(P.c, P.r, a.nnz, cp, ri, v, rp, ci, w);
    checkCSR(rp, ci, w, a.nnz, false, false);
    free(cp); free(ri); free(v); free(rp); free(ci); free(w); sx_cover("end");
}
extern "C" void round_trip() { // CSC -> CSR -> triples -> CSC
    setup(); CSC<int, u64> a; buildCSC(a, P, 0); CSR<int, u64> c(a);
    int *ri = (int *) malloc(4 * P.r * P.c), *ci = (int *) malloc(4 * P.r * P.c); u64 *v = (u64 *) malloc(8 * P.r * P.c); int n = 0;
    for (int i = 0; i < c.rows; i++) for (int q = c.rowptr[i]; q < c.rowptr[i + 1]; q++) { ri[n] = i; ci[n] = c.colids[q]; v[n++] = c.values[q]; }
    sx_assume(n > 0);
    { CSC<int, u64> b(ri, ci, v, n, P.r, P.c); checkUnchanged(b, P, 0, "the round trip restores the matrix"); } 
    free(ri); free(ci); free(v); sx_cover("end");
}
