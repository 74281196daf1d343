#include "big.h"
#include "HeapEntry.h"
#include "heap_mult.h"
typedef int IT; typedef u64 NT;
// params: 0 rows, 1 inner, 2 columns, 3 threads, 4 -, 5 column stride, 6 flags (8 heap check), 7 seed, 8 symbolic rows in each of A and B, 9 kinds in A, 10 kinds in B
extern "C" void heap_csc() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), st = sx_param(5), fl = sx_param(6), seed = sx_param(7), ns = sx_param(8); sx_threads(sx_param(3));
    u64 mark = sx_heap_mark();
    static Big a, b; big_mat(a, r, k, 1, seed, ns, sx_param(9), "A"); big_mat(b, k, c, st, seed + 1, ns, sx_param(10), "B");
    {
        CSC<IT, NT> A, B, C; big_csc(A, a, 0); big_csc(B, b, 1);
        HeapSpGEMM(A, B, C, BMul(), BAdd());
        sx_assert(C.rows == (IT) r && C.cols == (IT) b.nc() && C.colptr[0] == 0, "result has the dimensions of the product");
        IT total = 0;
        for (int j = 0; j < (int) C.cols; j++) {
            IT s = C.colptr[j], e = C.colptr[j + 1]; sx_assert(s == total && s <= e && e - s <= (IT) r, "column extents are valid"); total = e;
            u64 want[BD], got[BD]; int any[BD], cnt[BD];
            for (int i = 0; i < r; i++) { want[i] = got[i] = 0; any[i] = cnt[i] = 0; }
            if (j % st == 0) for (int x = 0; x < k; x++) if (b.b[x][j / st]) { u64 y = big_b(x, j / st); for (int i = 0; i < r; i++) if (a.b[i][x]) { want[i] += big_mul(big_a(i, x), y); any[i] = 1; } }
            IT prev = -1;
            for (IT q = s; q < e; q++) { IT i = C.rowids[q]; sx_assert(prev < i && i < (IT) r, "column is strictly ascending"); prev = i; got[i] = C.values[q]; cnt[i]++; }
            for (int i = 0; i < r; i++) { sx_check_eq(cnt[i], any[i], "entry is present exactly once iff a product exists"); sx_check_eq(got[i], want[i], "entry equals the sum over all contributing products"); }
        }
        sx_assert(C.nnz == total, "nnz equals the last column pointer");
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
