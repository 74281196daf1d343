#include "big.h"
#ifdef SX_OUTER2
#include "outer_mult2.h"
#else
#include "outer_mult.h"
#endif
typedef int IT; typedef double NT;
static long va(int i, int k) { return (long) (big_a(i, k) % 1021) + 1; }
static long vb(int k, int j) { return (long) (big_b(k, j) % 1021) + 1; }
// params: 0 rows, 1 inner, 2 columns, 3 threads, 4 row stride, 5 column stride, 6 flags (8 heap check), 7 seed, 8 symbolic rows in each of A' and B, 9 kinds in A, 10 kinds in B, 11 blocks, 12 block width
extern "C" void outer() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), rs = sx_param(4), st = sx_param(5), fl = sx_param(6), seed = sx_param(7), ns = sx_param(8); sx_threads(sx_param(3));
    u64 mark = sx_heap_mark();
    static Big at, b; big_mat(at, k, r, rs, seed, ns, sx_param(9), "A"); big_mat(b, k, c, st, seed + 1, ns, sx_param(10), "B"); // A by columns
    {
        CSC<IT, NT> A; CSR<IT, NT> B, C; CSR<IT, NT> T; big_csr(T, at, 2); big_csr(B, b, 2);
        A.rows = at.nc(); A.cols = k; A.nnz = T.nnz; A.colptr = T.rowptr; A.rowids = T.colids; A.values = T.values; T.rowptr = T.colids = nullptr; T.values = nullptr; T.nnz = T.rows = T.cols = 0;
        { IT q = 0; for (int x = 0; x < k; x++) for (int i = 0; i < r; i++) if (at.b[x][i]) A.values[q++] = (NT) va(i, x); q = 0; for (int x = 0; x < k; x++) for (int j = 0; j < c; j++) if (b.b[x][j]) B.values[q++] = (NT) vb(x, j); }
#ifdef SX_OUTER2
        OuterSpGEMM(A, B, C, sx_param(11), sx_param(12));
#else
        OuterSpGEMM(A, B, C, sx_param(11), sx_param(12), 0);
#endif
        sx_assert(C.rows == (IT) at.nc() && C.cols == (IT) b.nc() && C.rowptr[0] == 0, "result has the dimensions of the product");
        IT total = 0; static long want[BC]; static NT got[BC]; static unsigned char any[BC], cnt[BC];
        for (int i = 0; i < (int) C.rows; i++) {
            IT s = C.rowptr[i], e = C.rowptr[i + 1]; sx_assert(s == total && s <= e && e - s <= (IT) c, "row extents are valid"); total = e;
            if (i % rs) { sx_assert(s == e, "row without products is empty"); continue; }
            int p = i / rs;
            for (int j = 0; j < c; j++) { want[j] = 0; got[j] = 0; any[j] = cnt[j] = 0; }
            for (int x = 0; x < k; x++) if (at.b[x][p]) { long y = va(p, x); for (int j = 0; j < c; j++) if (b.b[x][j]) { want[j] += y * vb(x, j); any[j] = 1; } }
            IT prev = -1;
            for (IT q = s; q < e; q++) { IT j = C.colids[q]; sx_assert(prev < j, "row is strictly ascending"); prev = j; sx_assert(j >= 0 && j < (IT) b.nc() && j % st == 0, "column index in range"); got[j / st] = C.values[q]; cnt[j / st]++; }
            for (int j = 0; j < c; j++) { sx_check_eq(cnt[j], any[j], "entry is present exactly once iff a product exists"); sx_assert(got[j] == (NT) want[j], "entry equals the sum over all contributing products"); }
        }
        sx_assert(C.nnz == total, "nnz equals the last row pointer");
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
