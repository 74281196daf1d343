#include "mat.h"
#include "BIN.h"
#include "HeapEntry.h"
#include "hash_mult_hw.h"
typedef int IT; typedef u64 NT;
// params: rowsA, inner, cols, threads, column stretch, flags (1 parity, 2 any stored order, 4 C holds another matrix before, 8 operands and heap, 16 template rows), seed
template<class F> static void runu(F f, bool sorted) {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); unsigned th = sx_param(3); int cs = sx_param(4), fl = sx_param(5);
    u64 mark = sx_heap_mark();
    Pat a, b, m; symPat(a, r, k, "A");
    if (fl & 16) symRows(b, k, c, "B", sx_param(6)); else symPat(b, k, c, "B");
    b.cs = cs;
    if (fl & 2) { symOrd(a, "oA"); symOrd(b, "oB"); }
    {
        CSR<IT, NT> A, B, C; buildCSR(A, a, 0); buildCSR(B, b, 1); if (fl & 4) { Pat o; constPat(o, 2, 3, 0x2d); buildCSR(C, o, 2); }
        TMul mu; TAdd ad; mu.par = ad.par = fl & 1;
        f(A, B, C, mu, ad, th);
        checkProduct(C, a, b, m, MASK_NONE, sorted, fl & 1);
        if (fl & 8) { checkUnchanged(A, a, 0, "left operand unchanged"); checkUnchanged(B, b, 1, "right operand unchanged"); }
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
extern "C" void hash_u() { runu([](auto &A, auto &B, auto &C, TMul mu, TAdd ad, unsigned t) { HashSpGEMM<false>(A, B, C, mu, ad, t); }, false); }
extern "C" void hash_s() { runu([](auto &A, auto &B, auto &C, TMul mu, TAdd ad, unsigned t) { HashSpGEMM<true>(A, B, C, mu, ad, t); }, true); }
// sizing pass alone: counts equal the distinct columns of each row, row pointers are their prefix sums
extern "C" void sizing() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); unsigned th = sx_param(3); int cs = sx_param(4);
    Pat a, b; symPat(a, r, k, "A"); if (sx_param(5) & 16) symRows(b, k, c, "B", sx_param(6)); else symPat(b, k, c, "B"); b.cs = cs;
    CSR<IT, NT> A, B; buildCSR(A, a, 0); buildCSR(B, b, 1);
    {
        BIN<IT, NT> bin(A.rows, IMB_PWMIN, (int) th);
        bin.set_max_bin(A.rowptr, A.colids, B.rowptr, A.rows, B.cols);
        bin.create_local_hash_table(B.cols);
        IT *rp = (IT *) malloc(sizeof(IT) * (r + 1)), nnz = -1;
        hash_symbolic(A.rowptr, A.colids, B.rowptr, B.colids, rp, bin, A.rows, &nnz, th);
        IT tot = 0;
        for (int i = 0; i < r; i++) {
            sx_check_eq((u64) rp[i], (u64) tot, "row pointers are the prefix sums of the counts");
            IT n = 0; for (int j = 0; j < c; j++) n += expectC(a, b, i, j) != 0;
            sx_check_eq((u64) bin.row_nz[i], (u64) n, "sizing pass counts the distinct columns of the row"); tot += n;
        }
        sx_check_eq((u64) rp[r], (u64) tot, "row pointers are the prefix sums of the counts"); sx_check_eq((u64) nnz, (u64) tot, "total is the last row pointer");
        free(rp);
    }
    sx_cover("end");
}
