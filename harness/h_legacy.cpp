#include "mat.h"
#include "BIN.h"
#include "HeapEntry.h"
#include "hash_mult_hw.h"
#include "mask_hash_mult.h"
#include "spa_mult.h"
#include "inner_mult.h"
#include "heap_mult_generic.h"
typedef int IT; typedef u64 NT;
// params: rowsA, inner, cols, threads, column stretch, flags (1 parity, 2 any stored order, 4 C prefilled, 8 operands, heap, 16 template rows), seed
template<class F> static void runv(F f, bool sorted, bool masked) {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); unsigned th = sx_param(3); int cs = sx_param(4), fl = sx_param(5);
    u64 mark = sx_heap_mark();
    Pat a, b, m; symPat(a, r, k, "A");
    if (fl & 16) { symRows(b, k, c, "B", sx_param(6)); symRows(m, r, c, "M", sx_param(6) + 1); } else { symPat(b, k, c, "B"); symPat(m, r, c, "M"); }
    b.cs = m.cs = cs;
    if (fl & 2) { symOrd(a, "oA"); symOrd(b, "oB"); symOrd(m, "oM"); }
    {
        CSR<IT, NT> A, B, M, C; buildCSR(A, a, 0); buildCSR(B, b, 1); buildCSR(M, m, 2);
        if (fl & 4) { Pat o; constPat(o, 2, 3, 0x2d); buildCSR(C, o, 2); }
        TMul mu; TAdd ad; mu.par = ad.par = fl & 1;
        f(A, B, C, M, mu, ad, th);
        checkProduct(C, a, b, m, masked ? MASK_PLAIN : MASK_NONE, sorted, fl & 1);
        if (fl & 8) { checkUnchanged(A, a, 0, "left operand unchanged"); checkUnchanged(B, b, 1, "right operand unchanged"); checkUnchanged(M, m, 2, "mask unchanged"); }
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
#define RUN(name, sorted, masked, call) extern "C" void name() { runv([](auto &A, auto &B, auto &C, auto &M, TMul mu, TAdd ad, unsigned t) { call; }, sorted, masked); }
RUN(mhash, false, true, mxm_hash_mask(A, B, C, M, mu, ad, t))
RUN(mhash_nobin, false, true, mxm_hash_mask_wobin(A, B, C, M, mu, ad, t))
RUN(mspa, false, true, MaskedSPASpGEMM(A, B, C, M, mu, ad, t))
RUN(gheap_v0, true, true, HeapSpGEMM<rowAlg::MaskedHeap_v0>(A, B, C, M, mu, ad, t))
RUN(gheap_v1, true, true, HeapSpGEMM<rowAlg::MaskedHeap_v1>(A, B, C, M, mu, ad, t))
RUN(gheap_v2, true, true, HeapSpGEMM<rowAlg::MaskedHeap_v2>(A, B, C, M, mu, ad, t))
RUN(gmca_v1, true, true, HeapSpGEMM<rowAlg::MCA_v1>(A, B, C, M, mu, ad, t))
RUN(gmca_v2, true, true, HeapSpGEMM<rowAlg::MCA_v2>(A, B, C, M, mu, ad, t))
RUN(gmca_v3, true, true, HeapSpGEMM<rowAlg::MCA_v3>(A, B, C, M, mu, ad, t))
RUN(gbasic, true, false, HeapSpGEMM<rowAlg::BasicHeap>(A, B, C, mu, ad, t))
RUN(glinear, true, false, HeapSpGEMM<rowAlg::HeapLinear<2>>(A, B, C, mu, ad, t))
RUN(glinear8, true, false, HeapSpGEMM<rowAlg::HeapLinear<8>>(A, B, C, mu, ad, t))
// the inner-product variant takes B by columns
extern "C" void minner() {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); unsigned th = sx_param(3); int fl = sx_param(5);
    u64 mark = sx_heap_mark();
    Pat a, b, m; symPat(a, r, k, "A"); symPat(b, k, c, "B"); symPat(m, r, c, "M");
    if (fl & 2) symOrd(m, "oM");
    {
        CSR<IT, NT> A, M, C; CSC<IT, NT> B; buildCSR(A, a, 0); buildCSC(B, b, 1); buildCSR(M, m, 2);
        if (fl & 4) { Pat o; constPat(o, 2, 3, 0x2d); buildCSR(C, o, 2); }
        TMul mu; TAdd ad; mu.par = ad.par = fl & 1;
        innerSpGEMM_nohash<false, false>(A, B, C, M, mu, ad, th);
        checkProduct(C, a, b, m, MASK_PLAIN, !(fl & 2), fl & 1);
        if (fl & 8) { checkUnchanged(A, a, 0, "left operand unchanged"); checkUnchanged(B, b, 1, "right operand unchanged"); checkUnchanged(M, m, 2, "mask unchanged"); }
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
