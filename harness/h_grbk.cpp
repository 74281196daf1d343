#ifdef SX_WIDE
#define GBD 36
#endif
#include "sx_grb.h"
#include "utility.h"
#include "CSC.h"
#include "CSR.h"
#include "BIN.h"
#include "hash_mult_hw.h"
#include "mask_hash_mult.h"
#include "inner_mult.h"
#include "heap_mult_generic.h"
#include "spa_mult.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
typedef uint64_t u64; typedef GrB_Index IT; typedef int64_t NT;
// One step of the graph analytics: matrices of 64-bit indices taken over from GraphBLAS, a masked product counting common neighbours,
// and all of them given back. params: vertices, threads, which pattern (0 any, 1 undirected, 2 lower triangle)
static int R; static unsigned char pat[GBD][GBD];
#ifndef SX_WIDE
static void setup() { R = sx_param(0); int k = sx_param(2), at = 0, n = k == 1 ? R * (R - 1) / 2 : R * R; u64 b = sx_bv("P", n); for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) pat[i][j] = 0; for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) if (k != 1 || j < i) { pat[i][j] = b >> at++ & 1; if (k == 1) pat[j][i] = pat[i][j]; if (k == 2 && j >= i) pat[i][j] = 0; } }
#else
// params: vertices, threads, which pattern, seed: a fixed graph in which four vertices have one of four neighbourhoods of 0 or 14 to 17 (more than 33 vertices: 30 to 33) vertices
static void setup() {
    R = sx_param(0); int k = sx_param(2); unsigned x = (unsigned) sx_param(3) * 2654435761u + 99; auto rnd = [&]() { x = x * 1664525u + 1013904223u; return x >> 16; };
    for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) pat[i][j] = rnd() % (2 + i % 5) == 0;
    if (k) for (int i = 0; i < R; i++) { if (k == 1) pat[i][i] = 0; for (int j = i + 1; j < R; j++) if (k == 1) pat[i][j] = pat[j][i]; else pat[i][j] = 0; }
    if (k == 2) for (int i = 0; i < R; i++) pat[i][i] = 0;
    int m = R > 33 ? 32 : 16;
    for (int s = 0; s < 4; s++) {
        int v = s ? R - s * s : R / 3, lim = k == 2 ? v : R; unsigned char t[4][GBD];
        for (int q = 0; q < 4; q++) { int want = q ? m - 2 + q : (sx_param(3) & 1 ? 0 : m - 2), have = 0; if (k == 1 && want > R - 1) want = R - 1; if (want > lim) want = lim; int left = lim - (k == 1); for (int j = 0; j < R; j++) { t[q][j] = 0; if (j >= lim || (k == 1 && j == v)) continue; t[q][j] = (int) (rnd() % left) < want - have; have += t[q][j]; left--; } }
        int sel = (int) sx_int("neighbourhood", 0, 3); for (int j = 0; j < R; j++) { pat[v][j] = t[sel][j]; if (k == 1) pat[j][v] = t[sel][j]; }
    }
}
#endif
static GrB_Matrix make(bool csc) { GrB_Matrix a; GrB_Matrix_new(&a, GrB_INT64, R, R); a->csc = csc; for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) if (pat[i][j]) { a->has[i][j] = 1; a->val[i][j] = 100 + 10 * i + j; } return a; }
static void same(GrB_Matrix a, const char *what) { for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) { sx_check_eq(a->has[i][j], pat[i][j], what); if (pat[i][j]) sx_check_eq(a->val[i][j], 100 + 10 * i + j, what); } }
static void result(GrB_Matrix c) { for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) { u64 n = 0; for (int k = 0; k < R; k++) n += pat[i][k] & pat[k][j]; if (!pat[i][j]) n = 0; sx_check_eq(c->has[i][j], n != 0, "an entry per edge with a common neighbour"); sx_check_eq(c->has[i][j] ? c->val[i][j] : 0, n, "the number of common neighbours"); } }
// the library is told that rows are in order: kernels that do not promise it leave that to their caller
static void sorted(CSR<IT, NT> &m) { for (IT i = 0; i < (IT) R; i++) for (IT p = m.rowptr[i]; p < m.rowptr[i + 1]; p++) for (IT q = m.rowptr[i]; q + 1 < m.rowptr[i + 1]; q++) { IT x = m.colids[q], y = m.colids[q + 1]; NT v = m.values[q], w = m.values[q + 1]; bool s = y < x; m.colids[q] = s ? y : x; m.colids[q + 1] = s ? x : y; m.values[q] = s ? w : v; m.values[q + 1] = s ? v : w; } }
static void order(const CSR<IT, NT> &m) { for (IT i = 0; i < (IT) R; i++) for (IT q = m.rowptr[i]; q + 1 < m.rowptr[i + 1]; q++) sx_assert(m.colids[q] < m.colids[q + 1], "columns in order, as the GraphBLAS library is told"); }
template<template<class, class> class BT, bool ord = true> static void step(void (*f)(const CSR<IT, NT> &, const BT<IT, NT> &, CSR<IT, NT> &, const CSR<IT, NT> &, NT(NT &, NT &), plus<NT>, unsigned)) {
    constexpr bool csc = is_same<BT<IT, NT>, CSC<IT, NT>>::value; setup(); int th = sx_param(1); sx_threads(th); u64 mark = sx_heap_mark(); GrB_Matrix a = make(false), b = csc ? make(true) : nullptr, c = nullptr; GrB_Matrix_new(&c, GrB_INT64, R, R); auto one = [](NT &, NT &) -> NT { return 1; };
    { CSR<IT, NT> A(a), C(c); if constexpr (csc) { BT<IT, NT> B(b); f(A, B, C, A, one, plus<NT>(), th); B.get_grb_mat(b); same(b, "operands are given back"); } else f(A, A, C, A, one, plus<NT>(), th); if (ord) order(C); else sorted(C); C.get_grb_mat(c); A.get_grb_mat(a); }
    same(a, "operands are given back"); result(c); GrB_Matrix_free(&a); GrB_Matrix_free(&b); GrB_Matrix_free(&c); sx_heap_check(mark, "memory retained"); sx_cover("end");
}
#define ROW(name, ...) extern "C" void name() { step<CSR>(__VA_ARGS__); }
#define UROW(name, ...) extern "C" void name() { step<CSR, false>(__VA_ARGS__); }
#define COL(name, ...) extern "C" void name() { step<CSC>(__VA_ARGS__); }
#define BOTH(name, ...) ROW(name##_1, MaskedSpGEMM1p<__VA_ARGS__>) ROW(name##_2, MaskedSpGEMM2p<__VA_ARGS__>)
#define BOTHI(name, ...) ROW(name##_1, MaskedSpGEMM1p<__VA_ARGS__::Impl>) ROW(name##_2, MaskedSpGEMM2p<__VA_ARGS__::Impl>)
UROW(spa, MaskedSPASpGEMM)
BOTH(msa2old, MSA2A_old)
BOTH(msa1old, MSA1A_old)
BOTHI(msa2, MSA2A<false, false>)
BOTHI(msa1, MSA1A<false, false>)
UROW(hash_wobin, mxm_hash_mask_wobin)
UROW(hash, mxm_hash_mask)
BOTHI(mhash, MaskedHash<false, false>)
BOTH(heapv0, MaskedHeap_v0)
BOTH(heapv1, MaskedHeap_v1)
BOTH(heapv2, MaskedHeap_v2)
BOTHI(heap0, MaskedHeap<false, true, 0>)
BOTHI(heap1, MaskedHeap<false, true, 1>)
BOTHI(heapdot, MaskedHeap<false, true, MaskedHeapDot>)
BOTHI(mca, MCA<false, false>)
ROW(poly, MaskedSpGEMM1p)
COL(inner_nohash, innerSpGEMM_nohash<false, false>)
COL(inner1, MaskedSpGEMM1pInnerProduct)
COL(inner2, MaskedSpGEMM2pInnerProduct)
COL(minner1, MaskedSpGEMM1p<MaskedInner>)
COL(minner2, MaskedSpGEMM2p<MaskedInner>)
