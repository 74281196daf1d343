#include "mat.h"
#include "sx_exact.h"
#include "spgemm-blocks/masked-spgemm.h"
#ifndef SX_IT
#define SX_IT int
#endif
typedef SX_IT IT; typedef u64 NT;
// params: 0 rowsA, 1 inner, 2 cols, 3 threads, 4 phases, 5 column stretch, 6 flags (1 parity semiring, 2 arbitrary stored
// order of every row, 4 C holds another matrix before the call, 8 check operands/leaks), 7 alias (0 none, 1 C is A, 2 C is B, 3 C is M)
// flag 16: rows of B and M are symbolic choices of row templates (seed = param 8)   flag 32: exact scratch buffers
template<template<class, class> class Alg> static void run(int mode, bool sorted) {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2); unsigned th = sx_param(3); int ph = sx_param(4), cs = sx_param(5), fl = sx_param(6), al = sx_param(7);
    sx_exact = fl & 32; u64 mark = sx_heap_mark();
    Pat a, b, m; symPat(a, r, k, "A");
    if (fl & 16) { symRows(b, k, c, "B", sx_param(8)); symRows(m, r, c, "M", sx_param(8) + 1); } else { symPat(b, k, c, "B"); symPat(m, r, c, "M"); }
    b.cs = m.cs = cs;
    if (fl & 2) { symOrd(a, "oA"); symOrd(b, "oB"); symOrd(m, "oM"); }
    {
        CSR<IT, NT> A, B, M, C0; buildCSR(A, a, 0); buildCSR(B, b, 1); buildCSR(M, m, 2);
        if (fl & 4) { Pat o; constPat(o, 2, 3, 0x2d); buildCSR(C0, o, 2); }
        CSR<IT, NT> &C = al == 1 ? A : al == 2 ? B : al == 3 ? M : C0;
        TMul mu; TAdd ad; mu.par = ad.par = fl & 1;
        if (ph == 1) MaskedSpGEMM1p<Alg>(A, B, C, M, mu, ad, th); else MaskedSpGEMM2p<Alg>(A, B, C, M, mu, ad, th);
        checkProduct(C, a, b, m, mode, sorted, fl & 1);
        if (fl & 8) {
            if (al != 1) checkUnchanged(A, a, 0, "left operand unchanged");
            if (al != 2) checkUnchanged(B, b, 1, "right operand unchanged");
            if (al != 3) checkUnchanged(M, m, 2, "mask unchanged");
        }
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
#define E(n, alg, mode, sorted) template<class I, class N> using X_##n = typename alg::template Impl<I, N>; extern "C" void n() { run<X_##n>(mode, sorted); }
#define P(...) __VA_ARGS__
