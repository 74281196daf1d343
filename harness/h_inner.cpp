#include "mat.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
typedef int IT; typedef u64 NT;
// params: rowsA, inner, cols, threads, phases, flags (1 parity, 2 mask rows in any order, 4 C prefilled, 8 operands/leaks), alias (0, 1 C is A, 3 C is M)
template<class F> static void run(F f) {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); unsigned th = sx_param(3); int fl = sx_param(5), al = sx_param(6);
    u64 mark = sx_heap_mark();
    Pat a, b, m; symPat(a, r, k, "A"); symPat(b, k, c, "B"); symPat(m, r, c, "M");
    if (fl & 2) symOrd(m, "oM");
    {
        CSR<IT, NT> A, M, C0; CSC<IT, NT> B; buildCSR(A, a, 0); buildCSC(B, b, 1); buildCSR(M, m, 2);
        if (fl & 4) { Pat o; constPat(o, 2, 3, 0x2d); buildCSR(C0, o, 2); }
        CSR<IT, NT> &C = al == 1 ? A : al == 3 ? M : C0;
        TMul mu; TAdd ad; mu.par = ad.par = fl & 1;
        f(A, B, C, M, mu, ad, th);
        checkProduct(C, a, b, m, 0, !(fl & 2), fl & 1);
        if (fl & 2 && al != 3) { // columns come in mask order
            for (int i = 0; i < r; i++) { IT q = C.rowptr[i], e = C.rowptr[i + 1]; for (IT t = M.rowptr[i]; t < M.rowptr[i + 1]; t++) if (q < e && C.colids[q] == M.colids[t]) q++; sx_assert(q == e, "columns are in mask order"); }
        }
        if (fl & 8) { if (al != 1) checkUnchanged(A, a, 0, "left operand unchanged"); checkUnchanged(B, b, 1, "right operand unchanged"); if (al != 3) checkUnchanged(M, m, 2, "mask unchanged"); }
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
extern "C" void inner() { if (sx_param(4) == 1) run([](auto &A, auto &B, auto &C, auto &M, TMul mu, TAdd ad, unsigned t) { MaskedSpGEMM1p<MaskedInner>(A, B, C, M, mu, ad, t); }); else run([](auto &A, auto &B, auto &C, auto &M, TMul mu, TAdd ad, unsigned t) { MaskedSpGEMM2p<MaskedInner>(A, B, C, M, mu, ad, t); }); }
extern "C" void innerprod() { if (sx_param(4) == 1) run([](auto &A, auto &B, auto &C, auto &M, TMul mu, TAdd ad, unsigned t) { MaskedSpGEMM1pInnerProduct(A, B, C, M, mu, ad, t); }); else run([](auto &A, auto &B, auto &C, auto &M, TMul mu, TAdd ad, unsigned t) { MaskedSpGEMM2pInnerProduct(A, B, C, M, mu, ad, t); }); }
