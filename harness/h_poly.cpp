#include "masked.inc"
#include "spgemm-blocks/masked-spgemm-poly.h"
extern "C" void poly() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); unsigned th = sx_param(3); int cs = sx_param(4), fl = sx_param(5), al = sx_param(6); sx_exact = fl & 32;
    u64 mark = sx_heap_mark();
    Pat a, b, m; symPat(a, r, k, "A");
    if (fl & 16) { symRows(b, k, c, "B", sx_param(7)); symRows(m, r, c, "M", sx_param(7) + 1); } else { symPat(b, k, c, "B"); symPat(m, r, c, "M"); }
    b.cs = m.cs = cs;
    {
        CSR<IT, NT> A, B, M, C0; buildCSR(A, a, 0); buildCSR(B, b, 1); buildCSR(M, m, 2);
        CSR<IT, NT> &C = al == 1 ? A : al == 2 ? B : al == 3 ? M : C0;
        TMul mu; TAdd ad; mu.par = ad.par = fl & 1;
        MaskedSpGEMM1p(A, B, C, M, mu, ad, th);
        checkProduct(C, a, b, m, 0, false, fl & 1);
        if (fl & 8) { if (al != 1) checkUnchanged(A, a, 0, "left operand unchanged"); if (al != 2) checkUnchanged(B, b, 1, "right operand unchanged"); if (al != 3) checkUnchanged(M, m, 2, "mask unchanged"); }
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
