// Functional model of the GraphBLAS calls the headers use: a matrix is the set of its entries. Include before CSR.h.
// Every handle and every array handed over is one heap object, so that leaks and wrong sizes are visible. Checked against the
// installed library (7.4): which call fails with what, iso matrices, sizes of exported arrays, empty matrices (NULL arrays).
#pragma once
#include "IO.h"
// library calls stay calls: what they allocate and nobody releases must not be optimised away
#define OPQ __attribute__((noinline, optnone))
extern "C" {
#include "GraphBLAS.h"
}
#include <cstdlib>
#include <cstring>
#ifndef GBD
#define GBD 6
#endif
typedef uint64_t gbu;
struct GB_Type_opaque { int code, size; };
struct GB_BinaryOp_opaque { int op, type; };                 // 0 min, 1 plus, 2 times, 3 and, 4 pair, 5 second
struct GB_UnaryOp_opaque { int op, type; };
struct GB_Monoid_opaque { int op, type; };
struct GB_Semiring_opaque { int add, mul, type; };
struct GB_SelectOp_opaque { int op; };                       // 0 tril, 1 triu, 2 diag, 3 offdiag
struct GB_Descriptor_opaque { int tran0, tran1; };
struct GB_Scalar_opaque { GrB_Type type; bool has; int64_t v; };
struct GB_Matrix_opaque { GrB_Type type; gbu m, n; bool csc, iso, jumbled; unsigned char has[GBD][GBD]; gbu val[GBD][GBD]; };
static GxB_Format_Value gb_format = GxB_BY_ROW;
static GB_Type_opaque gb_types[6] = {{0, 8}, {1, 8}, {2, 4}, {3, 4}, {4, 4}, {5, 8}};
#define GB_FOR(X) X(UINT64, 0, uint64_t) X(INT64, 1, int64_t) X(UINT32, 2, uint32_t) X(INT32, 3, int32_t) X(FP32, 4, float) X(FP64, 5, double)
extern "C" {
#define X(T, k, c) static GB_BinaryOp_opaque gb_min_##T{0, k}, gb_plus_##T{1, k}, gb_times_##T{2, k}; static GB_Monoid_opaque gb_mon_##T{1, k}; static GB_UnaryOp_opaque gb_one_##T{0, k}; \
  static GB_Semiring_opaque gb_pt_##T{1, 2, k}, gb_pl_##T{1, 3, k}, gb_pp_##T{1, 4, k}, gb_ps_##T{1, 5, k}; \
  GrB_Type GrB_##T = &gb_types[k]; GrB_BinaryOp GrB_MIN_##T = &gb_min_##T, GrB_PLUS_##T = &gb_plus_##T, GrB_TIMES_##T = &gb_times_##T; GrB_Monoid GrB_PLUS_MONOID_##T = &gb_mon_##T; GrB_UnaryOp GxB_ONE_##T = &gb_one_##T; \
  GrB_Semiring GrB_PLUS_TIMES_SEMIRING_##T = &gb_pt_##T, GxB_PLUS_LAND_##T = &gb_pl_##T, GxB_PLUS_PAIR_##T = &gb_pp_##T, GxB_PLUS_SECOND_##T = &gb_ps_##T;
GB_FOR(X)
#undef X
static GB_SelectOp_opaque gb_tril{0}, gb_triu{1}, gb_diag{2}, gb_off{3};
GxB_SelectOp GxB_TRIL = &gb_tril, GxB_TRIU = &gb_triu, GxB_DIAG = &gb_diag, GxB_OFFDIAG = &gb_off;
static gbu gb_nv(const GB_Matrix_opaque *a) { gbu k = 0; for (gbu i = 0; i < a->m; i++) for (gbu j = 0; j < a->n; j++) k += a->has[i][j]; return k; }
static void gb_wipe(GB_Matrix_opaque *a) { a->iso = a->jumbled = false; for (int i = 0; i < GBD; i++) for (int j = 0; j < GBD; j++) { a->has[i][j] = 0; a->val[i][j] = 0; } }
static gbu gb_load(const void *p, gbu i, int size) { return size == 8 ? ((const gbu *) p)[i] : (gbu) ((const uint32_t *) p)[i]; }
static void gb_store(void *p, gbu i, int size, gbu v) { if (size == 8) ((gbu *) p)[i] = v; else ((uint32_t *) p)[i] = (uint32_t) v; }
static bool gb_less(int code, gbu x, gbu y) { float f, g; double d, e; switch (code) { case 0: case 2: return x < y; case 1: return (int64_t) x < (int64_t) y; case 3: return (int32_t) x < (int32_t) y; case 4: memcpy(&f, &x, 4); memcpy(&g, &y, 4); return f < g; default: memcpy(&d, &x, 8); memcpy(&e, &y, 8); return d < e; } }
static gbu gb_plus(int code, gbu x, gbu y) { float f, g; double d, e; switch (code) { case 0: case 1: return x + y; case 2: case 3: return (uint32_t) (x + y); case 4: memcpy(&f, &x, 4); memcpy(&g, &y, 4); f += g; x = 0; memcpy(&x, &f, 4); return x; default: memcpy(&d, &x, 8); memcpy(&e, &y, 8); d += e; memcpy(&x, &d, 8); return x; } }
OPQ GrB_Info GrB_Matrix_new(GrB_Matrix *A, GrB_Type t, GrB_Index m, GrB_Index n) { if (!A || !t) return GrB_NULL_POINTER; sx_assert(m <= GBD && n <= GBD, "matrix fits the model"); auto a = (GB_Matrix_opaque *) malloc(sizeof(GB_Matrix_opaque)); a->type = t; a->m = m; a->n = n; a->csc = gb_format == GxB_BY_COL; gb_wipe(a); *A = a; return GrB_SUCCESS; }
OPQ GrB_Info GrB_Matrix_dup(GrB_Matrix *C, const GrB_Matrix A) { if (!C || !A) return GrB_NULL_POINTER; auto a = (GB_Matrix_opaque *) malloc(sizeof(GB_Matrix_opaque)); *a = *A; *C = a; return GrB_SUCCESS; }
OPQ GrB_Info GrB_Matrix_free(GrB_Matrix *A) { if (A) { free(*A); *A = nullptr; } return GrB_SUCCESS; }
GrB_Info GrB_Matrix_clear(GrB_Matrix A) { if (!A) return GrB_NULL_POINTER; gb_wipe(A); return GrB_SUCCESS; }
GrB_Info GrB_Matrix_nrows(GrB_Index *x, const GrB_Matrix A) { if (!A) return GrB_NULL_POINTER; *x = A->m; return GrB_SUCCESS; }
GrB_Info GrB_Matrix_ncols(GrB_Index *x, const GrB_Matrix A) { if (!A) return GrB_NULL_POINTER; *x = A->n; return GrB_SUCCESS; }
GrB_Info GrB_Matrix_nvals(GrB_Index *x, const GrB_Matrix A) { if (!A) return GrB_NULL_POINTER; *x = gb_nv(A); return GrB_SUCCESS; }
GrB_Info GxB_Matrix_type(GrB_Type *t, const GrB_Matrix A) { if (!A) return GrB_NULL_POINTER; *t = A->type; return GrB_SUCCESS; }
OPQ GrB_Info GrB_Descriptor_new(GrB_Descriptor *d) { *d = (GrB_Descriptor) malloc(sizeof(GB_Descriptor_opaque)); (*d)->tran0 = (*d)->tran1 = 0; return GrB_SUCCESS; }
OPQ GrB_Info GrB_Descriptor_free(GrB_Descriptor *d) { if (d) { free(*d); *d = nullptr; } return GrB_SUCCESS; }
GrB_Info GrB_Descriptor_set(GrB_Descriptor d, GrB_Desc_Field f, GrB_Desc_Value v) { if (f == GrB_INP0) d->tran0 = v == GrB_TRAN; else if (f == GrB_INP1) d->tran1 = v == GrB_TRAN; else sx_assert(0, "descriptor field outside the model"); return GrB_SUCCESS; }
OPQ GrB_Info GxB_Scalar_new(GrB_Scalar *s, GrB_Type t) { *s = (GrB_Scalar) malloc(sizeof(GB_Scalar_opaque)); (*s)->type = t; (*s)->has = false; return GrB_SUCCESS; }
OPQ GrB_Info GxB_Scalar_free(GrB_Scalar *s) { if (s) { free(*s); *s = nullptr; } return GrB_SUCCESS; }
GrB_Info GrB_Scalar_new(GrB_Scalar *s, GrB_Type t) { return GxB_Scalar_new(s, t); }
OPQ GrB_Info GrB_Scalar_free(GrB_Scalar *s) { return GxB_Scalar_free(s); }
GrB_Info GxB_Scalar_setElement_INT64(GrB_Scalar s, int64_t x) { s->has = true; s->v = x; return GrB_SUCCESS; }
GrB_Info GrB_Scalar_setElement_INT64(GrB_Scalar s, int64_t x) { return GxB_Scalar_setElement_INT64(s, x); }
static GrB_Info gb_build(GrB_Matrix C, const gbu *I, const gbu *J, const void *V, gbu n, const GrB_BinaryOp dup, int code) {
    if (!C) return GrB_NULL_POINTER; if (gb_nv(C) != 0) return GrB_OUTPUT_NOT_EMPTY;
    sx_assert(C->type->code == code && dup && dup->type == code, "one type for the matrix, the values and the operator");
    for (gbu q = 0; q < n; q++) if (I[q] >= C->m || J[q] >= C->n) return GrB_INDEX_OUT_OF_BOUNDS;
    gb_wipe(C); bool iso = n > 0; gbu first = 0;
    for (gbu q = 0; q < n; q++) {
        gbu i = I[q], j = J[q], v = gb_load(V, q, C->type->size); if (q == 0) first = v; else if (v != first) iso = false;
        if (C->has[i][j]) { gbu o = C->val[i][j]; v = dup->op == 0 ? (gb_less(code, v, o) ? v : o) : dup->op == 1 ? gb_plus(code, o, v) : v; sx_assert(dup->op <= 1, "operator outside the model"); }
        C->has[i][j] = 1; C->val[i][j] = v;
    }
    C->iso = iso; return GrB_SUCCESS;
}
static GrB_Info gb_tuples(gbu *I, gbu *J, void *V, gbu *n, const GrB_Matrix A, int code) {
    gbu nv = gb_nv(A); if (*n < nv) return GrB_INSUFFICIENT_SPACE; sx_assert(A->type->code == code, "one type for the matrix and the values"); gbu q = 0;
    gbu o_ = A->csc ? A->n : A->m, i_ = A->csc ? A->m : A->n;
    for (gbu o = 0; o < o_; o++) for (gbu i = 0; i < i_; i++) { gbu r = A->csc ? i : o, c = A->csc ? o : i; if (A->has[r][c]) { if (I) I[q] = r; if (J) J[q] = c; if (V) gb_store(V, q, A->type->size, A->val[r][c]); q++; } }
    *n = nv; return GrB_SUCCESS;
}
static GrB_Info gb_set(GrB_Matrix A, gbu v, gbu i, gbu j, int code) {
    if (!A) return GrB_NULL_POINTER; if (i >= A->m || j >= A->n) return GrB_INVALID_INDEX; sx_assert(A->type->code == code, "one type for the matrix and the values");
    gbu nv = gb_nv(A); if (nv == 0) A->iso = true; else if (A->iso) for (gbu r = 0; r < A->m; r++) for (gbu c = 0; c < A->n; c++) if (A->has[r][c] && A->val[r][c] != v) A->iso = false;
    A->has[i][j] = 1; A->val[i][j] = v; return GrB_SUCCESS;
}
#define X(T, k, c) \
GrB_Info GrB_Matrix_build_##T(GrB_Matrix C, const GrB_Index *I, const GrB_Index *J, const c *V, GrB_Index n, const GrB_BinaryOp dup) { return gb_build(C, I, J, V, n, dup, k); } \
GrB_Info GrB_Matrix_extractTuples_##T(GrB_Index *I, GrB_Index *J, c *V, GrB_Index *n, const GrB_Matrix A) { return gb_tuples(I, J, V, n, A, k); } \
GrB_Info GrB_Matrix_setElement_##T(GrB_Matrix A, c x, GrB_Index i, GrB_Index j) { gbu v = 0; memcpy(&v, &x, sizeof x); return gb_set(A, v, i, j, k); }
GB_FOR(X)
#undef X
GrB_Info GrB_Matrix_reduce_UINT64(uint64_t *c, const GrB_BinaryOp acc, const GrB_Monoid m, const GrB_Matrix A, const GrB_Descriptor) { sx_assert(m->op == 1 && m->type == 0 && A->type->code == 0, "reduction outside the model"); gbu s = 0; for (gbu i = 0; i < A->m; i++) for (gbu j = 0; j < A->n; j++) if (A->has[i][j]) s += A->val[i][j]; if (acc) s += *c; *c = s; return GrB_SUCCESS; }
GrB_Info GxB_Matrix_select(GrB_Matrix C, const GrB_Matrix M, const GrB_BinaryOp acc, const GxB_SelectOp op, const GrB_Matrix A, const GrB_Scalar th, const GrB_Descriptor d) {
    sx_assert(!M && !acc && !d, "selection outside the model"); if (!C || !A) return GrB_NULL_POINTER; if (C->m != A->m || C->n != A->n) return GrB_DIMENSION_MISMATCH; sx_assert(C->type == A->type, "one type");
    int64_t k = th && th->has ? th->v : 0; bool iso = A->iso; GB_Matrix_opaque t = *A; gb_wipe(C); C->iso = iso;
    for (gbu i = 0; i < t.m; i++) for (gbu j = 0; j < t.n; j++) if (t.has[i][j]) { int64_t x = (int64_t) j - (int64_t) i; if (op->op == 0 ? x <= k : op->op == 1 ? x >= k : op->op == 2 ? x == k : x != k) { C->has[i][j] = 1; C->val[i][j] = t.val[i][j]; } }
    return GrB_SUCCESS;
}
static GrB_Info gb_ewise(GrB_Matrix C, int op, const GrB_Matrix A, const GrB_Matrix B, const GrB_Descriptor d) {
    GB_Matrix_opaque a = *A, b = *B; bool ta = d && d->tran0, tb = d && d->tran1; gbu m = ta ? a.n : a.m, n = ta ? a.m : a.n; if ((tb ? b.n : b.m) != m || (tb ? b.m : b.n) != n || C->m != m || C->n != n) return GrB_DIMENSION_MISMATCH;
    sx_assert(op == 1 && a.type == b.type && a.type == C->type, "sum outside the model"); gb_wipe(C);
    for (gbu i = 0; i < m; i++) for (gbu j = 0; j < n; j++) { bool ha = ta ? a.has[j][i] : a.has[i][j], hb = tb ? b.has[j][i] : b.has[i][j]; gbu va = ta ? a.val[j][i] : a.val[i][j], vb = tb ? b.val[j][i] : b.val[i][j]; if (ha || hb) { C->has[i][j] = 1; C->val[i][j] = ha && hb ? gb_plus(a.type->code, va, vb) : ha ? va : vb; } }
    return GrB_SUCCESS;
}
GrB_Info GrB_Matrix_eWiseAdd_Semiring(GrB_Matrix C, const GrB_Matrix M, const GrB_BinaryOp acc, const GrB_Semiring s, const GrB_Matrix A, const GrB_Matrix B, const GrB_Descriptor d) { sx_assert(!M && !acc, "sum outside the model"); return gb_ewise(C, s->add, A, B, d); }
GrB_Info GrB_Matrix_eWiseAdd_BinaryOp(GrB_Matrix C, const GrB_Matrix M, const GrB_BinaryOp acc, const GrB_BinaryOp s, const GrB_Matrix A, const GrB_Matrix B, const GrB_Descriptor d) { sx_assert(!M && !acc, "sum outside the model"); return gb_ewise(C, s->op, A, B, d); }
GrB_Info GrB_Matrix_eWiseAdd_Monoid(GrB_Matrix C, const GrB_Matrix M, const GrB_BinaryOp acc, const GrB_Monoid s, const GrB_Matrix A, const GrB_Matrix B, const GrB_Descriptor d) { sx_assert(!M && !acc, "sum outside the model"); return gb_ewise(C, s->op, A, B, d); }
// arrays out of a matrix: exact sizes, NULL for no entries; an iso matrix gives one value if the caller can be told, rows of a jumbled one are reversed if the caller can be told
static GrB_Info gb_out(GrB_Matrix A, bool csc, gbu **P, gbu **J, void **V, gbu *ps, gbu *js, gbu *vs, bool *iso, bool *jum) {
    if (!A || !P || !J || !V || !ps || !js || !vs) return GrB_NULL_POINTER; gbu nv = gb_nv(A), o_ = csc ? A->n : A->m, i_ = csc ? A->m : A->n; int sz = A->type->size; bool one = A->iso && iso && nv > 0, rev = A->jumbled && jum && csc == A->csc;
    gbu *p = (gbu *) malloc(8 * (o_ + 1)), *j = nv ? (gbu *) malloc(8 * nv) : nullptr; void *v = nv ? malloc((one ? 1 : nv) * sz) : nullptr; gbu q = 0; p[0] = 0;
    for (gbu o = 0; o < o_; o++) { for (gbu x = 0; x < i_; x++) { gbu i = rev ? i_ - 1 - x : x, r = csc ? i : o, c = csc ? o : i; if (A->has[r][c]) { j[q] = i; if (!one) gb_store(v, q, sz, A->val[r][c]); else if (q == 0) gb_store(v, 0, sz, A->val[r][c]); q++; } } p[o + 1] = q; }
    *P = p; *J = j; *V = v; *ps = 8 * (o_ + 1); *js = 8 * nv; *vs = (nv ? (one ? 1 : nv) : 0) * sz; if (iso) *iso = one; if (jum) *jum = rev; gb_wipe(A); return GrB_SUCCESS;
}
static GrB_Info gb_in(GrB_Matrix A, bool csc, gbu **P, gbu **J, void **V, gbu ps, gbu js, gbu vs, bool iso, bool jum) {
    if (!A || !P || !J || !V) return GrB_NULL_POINTER; gbu o_ = csc ? A->n : A->m, i_ = csc ? A->m : A->n; int sz = A->type->size; if (!*P || ps < 8 * (o_ + 1)) return GrB_INVALID_VALUE;
    gbu *p = *P, *j = *J; gbu nv = p[o_]; if (js < 8 * nv || vs < (iso ? (nv > 0) : nv) * sz) return GrB_INVALID_VALUE;
    // the library keeps the arrays and later reuses as many bytes as it was told they have
    volatile unsigned char t; t = ((unsigned char *) p)[ps - 1]; if (js) t = ((unsigned char *) j)[js - 1]; if (vs) t = (*(unsigned char **) V)[vs - 1]; (void) t;
    gb_wipe(A); sx_assert(p[0] == 0, "pointers start at zero"); A->csc = csc;
    for (gbu o = 0; o < o_; o++) { gbu last = i_; sx_assert(p[o] <= p[o + 1], "pointers do not decrease"); for (gbu q = p[o]; q < p[o + 1]; q++) { gbu i = j[q]; sx_assert(i < i_ && (jum || last == i_ || last < i), "indices are in range and in order"); last = i; gbu r = csc ? i : o, c = csc ? o : i; sx_assert(!A->has[r][c], "no index twice"); A->has[r][c] = 1; A->val[r][c] = gb_load(*V, iso ? 0 : q, sz); } }
    A->iso = iso && nv > 0; free(*P); free(*J); free(*V); *P = *J = nullptr; *V = nullptr; return GrB_SUCCESS;
}
GrB_Info GxB_Matrix_unpack_CSR(GrB_Matrix A, gbu **p, gbu **j, void **v, gbu *ps, gbu *js, gbu *vs, bool *iso, bool *jum, const GrB_Descriptor) { return gb_out(A, false, p, j, v, ps, js, vs, iso, jum); }
GrB_Info GxB_Matrix_unpack_CSC(GrB_Matrix A, gbu **p, gbu **j, void **v, gbu *ps, gbu *js, gbu *vs, bool *iso, bool *jum, const GrB_Descriptor) { return gb_out(A, true, p, j, v, ps, js, vs, iso, jum); }
GrB_Info GxB_Matrix_pack_CSR(GrB_Matrix A, gbu **p, gbu **j, void **v, gbu ps, gbu js, gbu vs, bool iso, bool jum, const GrB_Descriptor) { return gb_in(A, false, p, j, v, ps, js, vs, iso, jum); }
GrB_Info GxB_Matrix_pack_CSC(GrB_Matrix A, gbu **p, gbu **j, void **v, gbu ps, gbu js, gbu vs, bool iso, bool jum, const GrB_Descriptor) { return gb_in(A, true, p, j, v, ps, js, vs, iso, jum); }
GrB_Info GxB_Matrix_import_CSR(GrB_Matrix *A, GrB_Type t, gbu m, gbu n, gbu **p, gbu **j, void **v, gbu ps, gbu js, gbu vs, bool iso, bool jum, const GrB_Descriptor) { GrB_Matrix x; GrB_Info i = GrB_Matrix_new(&x, t, m, n); if (i) return i; i = gb_in(x, false, p, j, v, ps, js, vs, iso, jum); if (i) { free(x); return i; } *A = x; return i; }
GrB_Info GxB_Matrix_export_CSR(GrB_Matrix *A, GrB_Type *t, gbu *m, gbu *n, gbu **p, gbu **j, void **v, gbu *ps, gbu *js, gbu *vs, bool *iso, bool *jum, const GrB_Descriptor) { if (!A || !*A) return GrB_NULL_POINTER; *t = (*A)->type; *m = (*A)->m; *n = (*A)->n; GrB_Info i = gb_out(*A, false, p, j, v, ps, js, vs, iso, jum); free(*A); *A = nullptr; return i; }
}
static GrB_Info gb_opt_get(GxB_Option_Field f, GxB_Format_Value *v) { sx_assert(f == GxB_FORMAT, "option outside the model"); *v = gb_format; return GrB_SUCCESS; }
static GrB_Info gb_opt_set(GxB_Option_Field f, GxB_Format_Value v) { sx_assert(f == GxB_FORMAT, "option outside the model"); gb_format = v; return GrB_SUCCESS; }
#define GxB_Global_Option_get(f, v) gb_opt_get(f, v)
#define GxB_Global_Option_set(f, v) gb_opt_set(f, v)
