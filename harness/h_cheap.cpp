#include "mat.h"
#include "HeapEntry.h"
#include "heap_mult.h"
typedef int IT; typedef u64 NT;
// params: rowsA, inner, cols, threads, flags (1 parity, 4 C holds another matrix before, 8 operands and heap)
extern "C" void heap_csc() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), fl = sx_param(4); sx_threads(sx_param(3));
    u64 mark = sx_heap_mark();
    Pat a, b; symPat(a, r, k, "A"); symPat(b, k, c, "B");
    {
        CSC<IT, NT> A, B, C; buildCSC(A, a, 0); buildCSC(B, b, 1); if (fl & 4) { Pat o; constPat(o, 2, 3, 0x2d); buildCSC(C, o, 2); }
        TMul mu; TAdd ad; mu.par = ad.par = fl & 1;
        HeapSpGEMM(A, B, C, mu, ad);
        sx_assert(C.rows == (IT) r && C.cols == (IT) c && C.colptr[0] == 0, "result has the dimensions of the product");
        IT total = 0;
        for (int j = 0; j < c; j++) {
            IT s = C.colptr[j], e = C.colptr[j + 1];
            sx_assert(s == total && s <= e && e - s <= r, "column extents are valid");
            NT got[MAXD]; int cnt[MAXD];
            for (int i = 0; i < r; i++) { got[i] = 0; cnt[i] = 0; }
            for (IT q = s; q < e; q++) {
                IT i = C.rowids[q]; sx_assert(i >= 0 && i < r, "row index in range");
                got[i] = C.values[q]; cnt[i]++;
                if (q > s) sx_assert(C.rowids[q - 1] < C.rowids[q], "column is strictly ascending");
            }
            for (int i = 0; i < r; i++) {
                u64 w = expectC(a, b, i, j);
                sx_check_eq((u64) cnt[i], w != 0, "entry is present exactly once iff a product exists");
                if (fl & 1) { u64 par = 1; for (int x = 0; x < k; x++) par ^= a.b[i][x] & b.b[x][j]; w = w ? par : 0; }
                sx_check_eq((u64) got[i], w, "entry equals the sum over all contributing products");
            }
            total = e;
        }
        sx_assert(C.nnz == total, "nnz equals the last column pointer");
        if (fl & 8) { checkUnchanged(A, a, 0, "left operand unchanged"); checkUnchanged(B, b, 1, "right operand unchanged"); }
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
