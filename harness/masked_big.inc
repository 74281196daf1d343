#include "big.h"
#include "sx_exact.h"
#include "spgemm-blocks/masked-spgemm.h"
#ifndef SX_IT
#define SX_IT int
#endif
typedef SX_IT IT; typedef u64 NT;
// params: 0 rows, 1 inner, 2 columns, 3 threads, 4 phases, 5 column stride, 6 flags (8 heap check, 32 exact buffers), 7 seed, 8 symbolic rows in each of A, B and M, 9 kinds in A, 10 kinds in B, 11 kinds in M
template<template<class, class> class Alg> static void run(int mode, bool sorted) {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), th = sx_param(3), ph = sx_param(4), st = sx_param(5), fl = sx_param(6), seed = sx_param(7), ns = sx_param(8);
    sx_exact = fl & 32; u64 mark = sx_heap_mark();
    static Big a, b, m; big_mat(a, r, k, 1, seed, ns, sx_param(9), "A"); big_mat(b, k, c, st, seed + 1, ns, sx_param(10), "B"); big_mat(m, r, c, st, seed + 2, ns, sx_param(11), "M");
    {
        CSR<IT, NT> A, B, M, C; big_csr(A, a, 0); big_csr(B, b, 1); big_csr(M, m, 2);
        if (ph == 1) MaskedSpGEMM1p<Alg>(A, B, C, M, BMul(), BAdd(), th); else MaskedSpGEMM2p<Alg>(A, B, C, M, BMul(), BAdd(), th);
        big_check(C, a, b, m, mode, sorted);
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
#define E(n, alg, mode, sorted) template<class I, class N> using X_##n = typename alg::template Impl<I, N>; extern "C" void n() { run<X_##n>(mode, sorted); }
#define P(...) __VA_ARGS__
