#include "mat.h"
#ifdef SX_OUTER2
#include "outer_mult2.h"
#else
#include "outer_mult.h"
#endif
typedef int IT; typedef double NT;
// values: every (i, k, j) contributes a different exact amount, so a lost, doubled or moved product changes a sum
static const int AK[4] = {3, 5, 11, 29}, BK[4] = {7, 13, 17, 31};
static double va(int i, int k) { return (double) ((1 + 100 * i) * AK[k]); }
static double vb(int k, int j) { return (double) ((1 + 10000 * (long) j) * BK[k]); }
// params: rowsA, inner, cols, threads, row stretch, column stretch, blocks, block width, flags (4 C holds another matrix before, 8 heap)
extern "C" void outer() {
    u64 mark = sx_heap_mark();
    {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); sx_threads(sx_param(3)); int rs = sx_param(4), cs = sx_param(5), nb = sx_param(6), bw = sx_param(7);
    Pat a, b; symPat(a, r, k, "A"); symPat(b, k, c, "B");
    int R = (r - 1) * rs + 1, Cn = (c - 1) * cs + 1;
    if (r == 0) R = 0; if (c == 0) Cn = 0;
    CSC<IT, NT> A; CSR<IT, NT> B, C;
    A.rows = R; A.cols = k; A.colptr = (IT *) malloc(sizeof(IT) * (k + 1)); A.rowids = nullptr; A.values = nullptr;
    { IT n = 0; IT *ri = (IT *) malloc(sizeof(IT) * r * k); NT *v = (NT *) malloc(sizeof(NT) * r * k); A.colptr[0] = 0;
      for (int x = 0; x < k; x++) { for (int i = 0; i < r; i++) if (a.b[i][x]) { ri[n] = i * rs; v[n] = va(i, x); n++; } A.colptr[x + 1] = n; }
      A.nnz = n; if (n > 0) { A.rowids = (IT *) malloc(sizeof(IT) * n); A.values = (NT *) malloc(sizeof(NT) * n); for (IT q = 0; q < n; q++) { A.rowids[q] = ri[q]; A.values[q] = v[q]; } } free(ri); free(v); }
    B.rows = k; B.cols = Cn; B.zerobased = true; B.rowptr = (IT *) malloc(sizeof(IT) * (k + 1)); B.colids = nullptr; B.values = nullptr;
    { IT n = 0; IT *ci = (IT *) malloc(sizeof(IT) * c * k); NT *v = (NT *) malloc(sizeof(NT) * c * k); B.rowptr[0] = 0;
      for (int x = 0; x < k; x++) { for (int j = 0; j < c; j++) if (b.b[x][j]) { ci[n] = j * cs; v[n] = vb(x, j); n++; } B.rowptr[x + 1] = n; }
      B.nnz = n; if (n > 0) { B.colids = (IT *) malloc(sizeof(IT) * n); B.values = (NT *) malloc(sizeof(NT) * n); for (IT q = 0; q < n; q++) { B.colids[q] = ci[q]; B.values[q] = v[q]; } } free(ci); free(v); }
    if (sx_param(8) & 4) { C.rows = 2; C.cols = 5; C.nnz = 3; C.rowptr = (IT *) malloc(sizeof(IT) * 3); C.colids = (IT *) malloc(sizeof(IT) * 3); C.values = (NT *) malloc(sizeof(NT) * 3); C.rowptr[0] = 0; C.rowptr[1] = 1; C.rowptr[2] = 3; C.colids[0] = 4; C.colids[1] = 0; C.colids[2] = 2; C.values[0] = C.values[1] = C.values[2] = 7; }
#ifdef SX_OUTER2
    OuterSpGEMM(A, B, C, nb, bw);
#else
    OuterSpGEMM(A, B, C, nb, bw, 0);
#endif
    sx_assert(C.rows == R && C.cols == Cn && C.rowptr[0] == 0, "result has the dimensions of the product");
    IT total = 0;
    for (int i = 0; i < R; i++) {
        IT s = C.rowptr[i], e = C.rowptr[i + 1];
        sx_assert(s == total && s <= e && e - s <= c, "row extents are valid");
        if (i % rs) { sx_assert(s == e, "row without products is empty"); continue; }
        NT got[MAXD]; int cnt[MAXD];
        for (int j = 0; j < c; j++) { got[j] = 0; cnt[j] = 0; }
        for (IT q = s; q < e; q++) {
            IT j = C.colids[q];
            sx_assert(j >= 0 && j < Cn && j % cs == 0, "column index in range");
            if (q > s) sx_assert(C.colids[q - 1] < C.colids[q], "row is strictly ascending");
            got[j / cs] = C.values[q]; cnt[j / cs]++;
        }
        for (int j = 0; j < c; j++) {
            int p = i / rs; u64 any = 0; long w = 0;
            for (int x = 0; x < k; x++) { u64 h = a.b[p][x] & b.b[x][j]; any |= h; w += h ? (long) (va(p, x) * vb(x, j)) : 0; }
            sx_check_eq((u64) cnt[j], any, "entry is present exactly once iff a product exists");
            sx_assert(got[j] == (double) w, "entry equals the sum over all contributing products");
        }
        total = e;
    }
    sx_assert(C.nnz == total, "nnz equals the last row pointer");
    sx_assert(A.nnz == A.colptr[k] && B.nnz == B.rowptr[k], "operands keep their extents");
    }
    if (sx_param(8) & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
