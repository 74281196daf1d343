// Shared harness helpers: symbolic sparse matrices and tagged semiring.
#pragma once
#include "sx_pre.h"
#ifndef CPP
#define CPP
#endif
#include "CSR.h"
#include "CSC.h"
typedef uint64_t u64;

static const int MAXD = 6, MAXC = 40;
// presence pattern of an r x c matrix, every bit symbolic (complete over all 2^(r*c) patterns)
//   cs: column stretch (pattern column j is stored as column j*cs; from 100 on: j*(cs/100) + cs%100)   ord: stored order of each row (index of a permutation)
struct Pat { int r, c; int b[MAXD][MAXC]; int cs; int ord[MAXD]; int st() const { return cs < 100 ? cs : cs / 100; } int off() const { return cs < 100 ? 0 : cs % 100; } int col(int j) const { return j * st() + off(); } int ncols() const { return c ? (c - 1) * st() + off() + 1 : 0; } };
static const unsigned char PERM2[2][2] = {{0, 1}, {1, 0}}, PERM3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static inline int permAt(const Pat &p, int i, int t) { return p.c == 2 ? PERM2[p.ord[i]][t] : p.c == 3 ? PERM3[p.ord[i]][t] : t; }
static inline void symOrd(Pat &p, const char *nm) { if (p.c == 2 || p.c == 3) for (int i = 0; i < p.r; i++) p.ord[i] = (int) sx_int(nm, 0, p.c == 2 ? 1 : 5); }
static inline void symPat(Pat &p, int r, int c, const char *nm) {
    p.r = r; p.c = c; p.cs = 1; for (int i = 0; i < MAXD; i++) p.ord[i] = 0;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) p.b[i][j] = (int) sx_int(nm, 0, 1);
}
static inline void constPat(Pat &p, int r, int c, u64 bits) { p.r = r; p.c = c; p.cs = 1; for (int i = 0; i < MAXD; i++) p.ord[i] = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) p.b[i][j] = bits >> (i * c + j) & 1; }
// every row is one of four templates (empty, short, medium, long), chosen symbolically: wide rows at the cost of 2 bits each
static inline void symRows(Pat &p, int r, int c, const char *nm, unsigned seed) {
    p.r = r; p.c = c; p.cs = 1; for (int i = 0; i < MAXD; i++) p.ord[i] = 0;
    unsigned x = seed * 2654435761u + 12345;
    auto rnd = [&]() { x = x * 1664525u + 1013904223u; return x >> 16; };
    for (int i = 0; i < r; i++) {
        int t[4][MAXC];
        if (seed >= 1000) { // exact entry counts around the table sizes: 15, 16, 17 (31, 32, 33) entries
            int m = c > 33 ? 32 : c > 17 ? 16 : c > 2 ? c - 1 : 1;
            for (int s = 0; s < 4; s++) {
                int want = s == 0 ? (seed & 1 ? 1 : 0) : m - 2 + s, have = 0;
                if (want > c) want = c;
                for (int j = 0; j < c; j++) { t[s][j] = (int) (rnd() % (unsigned) (c - j)) < want - have; have += t[s][j]; }
            }
        } else
        for (int j = 0; j < c; j++) { t[0][j] = 0; t[1][j] = rnd() % (c > 6 ? c / 3 : 2) == 0; t[2][j] = rnd() % 2; t[3][j] = rnd() % 8 != 0; }
        int sel = (int) sx_int(nm, 0, 3);
        for (int j = 0; j < c; j++) p.b[i][j] = t[sel][j];
    }
}
// semiring values are tags, so one run covers every commutative semiring:
//   A(i,k) -> i<<8 | k<<4 | 1        B(k,j) -> k<<4 | j<<12 | 2     (i, k < 16, j < 256)
//   a*b    -> (1 << (20+4k)) | i<<8 | j<<12   and bit 63 if operands are swapped or k differs
//   x+y    -> counters added, ids kept, bit 62 if ids differ
static inline u64 tagA(u64 i, u64 k) { return i << 8 | k << 4 | 1; }
static inline u64 tagB(u64 k, u64 j) { return k << 4 | j << 12 | 2; }
static inline u64 tmul(u64 a, u64 b) {
    u64 k = (a >> 4) & 15, kb = (b >> 4) & 15;
    u64 bad = ((a & 3) != 1) | ((b & 3) != 2) | (k != kb);
    return (1ull << (20 + 4 * k)) | (((a >> 8) & 15) << 8) | (((b >> 12) & 255) << 12) | bad << 63;
}
static const u64 CNT = 0x0ffffffffff00000ull;
static inline u64 tadd(u64 x, u64 y) {
    u64 bad = ((x ^ y) & 0xfff00) != 0;
    return (((x & CNT) + (y & CNT)) & CNT) | (x & 0xfff00) | ((x | y) & 0xf000000000000000ull) | bad << 62;
}
// parity semiring: a product is 0 and the sum flips the parity, so the identity is 1 and neither 0 nor a default value may stand for "nothing yet"
struct TMul { int par = 0; u64 operator()(u64 a, u64 b) const { return par ? (tmul(a, b) >> 63) << 63 : tmul(a, b); } };
struct TAdd { int par = 0; u64 operator()(u64 x, u64 y) const { return par ? ((x ^ y ^ 1) & 1) | ((x | y) & ~1ull) : tadd(x, y); } };
// expected value for C(i,j) given patterns (0 when no product contributes)
static inline u64 expectC(const Pat &a, const Pat &b, int i, int j) {
    u64 v = 0, any = 0;
    for (int k = 0; k < a.c; k++) { u64 h = a.b[i][k] & b.b[k][j]; any |= h; v += h << (20 + 4 * k); }
    return any ? (v | (u64) i << 8 | (u64) j << 12) : 0;
}
// build a CSR from a pattern; which: 0 tag as A, 1 tag as B, 2 mask (constant values)
template<class IT, class NT> void buildCSR(CSR<IT, NT> &m, const Pat &p, int which) {
    m.rows = p.r; m.cols = p.ncols(); m.zerobased = true;
    m.rowptr = (IT *) malloc(sizeof(IT) * (p.r + 1)); m.colids = nullptr; m.values = nullptr;
    IT cap = (IT) p.r * p.c;
    IT *ci = (IT *) malloc(sizeof(IT) * cap); NT *va = (NT *) malloc(sizeof(NT) * cap);
    IT n = 0; m.rowptr[0] = 0;
    for (int i = 0; i < p.r; i++) {
        for (int t = 0; t < p.c; t++) { int j = permAt(p, i, t); if (p.b[i][j]) { ci[n] = p.col(j); va[n] = which == 0 ? (NT) tagA(i, j) : which == 1 ? (NT) tagB(i, j) : (NT) 77; n++; } }
        m.rowptr[i + 1] = n;
    }
    m.nnz = n;
    if (n > 0) { // exact-size buffers so that overruns are visible
        m.colids = (IT *) malloc(sizeof(IT) * n); m.values = (NT *) malloc(sizeof(NT) * n);
        for (IT q = 0; q < n; q++) { m.colids[q] = ci[q]; m.values[q] = va[q]; }
    }
    free(ci); free(va);
}
template<class IT, class NT> void buildCSC(CSC<IT, NT> &m, const Pat &p, int which) {
    m.rows = p.r; m.cols = p.c;
    m.colptr = (IT *) malloc(sizeof(IT) * (p.c + 1)); m.rowids = nullptr; m.values = nullptr;
    IT cap = (IT) p.r * p.c;
    IT *ri = (IT *) malloc(sizeof(IT) * cap); NT *va = (NT *) malloc(sizeof(NT) * cap);
    IT n = 0; m.colptr[0] = 0;
    for (int j = 0; j < p.c; j++) {
        for (int i = 0; i < p.r; i++) if (p.b[i][j]) { ri[n] = i; va[n] = which == 0 ? (NT) tagA(i, j) : which == 1 ? (NT) tagB(i, j) : (NT) 77; n++; }
        m.colptr[j + 1] = n;
    }
    m.nnz = n;
    if (n > 0) {
        m.rowids = (IT *) malloc(sizeof(IT) * n); m.values = (NT *) malloc(sizeof(NT) * n);
        for (IT q = 0; q < n; q++) { m.rowids[q] = ri[q]; m.values[q] = va[q]; }
    }
    free(ri); free(va);
}
// structural + value check of C against the masked product; sorted: rows must be ascending; parity: values are the
// parity of the number of contributing products, 0 if odd (so entries with value 0 exist and must stay)
enum { MASK_PLAIN = 0, MASK_COMPL = 1, MASK_NONE = 2 };
template<class IT, class NT> void checkProduct(const CSR<IT, NT> &C, const Pat &a, const Pat &b, const Pat &m, int mode, bool sorted, bool parity = false, bool allowUnsortedDup = false) {
    sx_assert(C.rows == (IT) a.r && C.cols == (IT) b.ncols(), "result has the dimensions of the product");
    sx_assert(C.rowptr[0] == 0, "row pointers start at zero");
    IT total = 0;
    for (int i = 0; i < a.r; i++) {
        IT s = C.rowptr[i], e = C.rowptr[i + 1];
        sx_assert(s == total && s <= e && e - s <= (IT) b.c, "row extents are valid");
        NT got[MAXC]; int cnt[MAXC];
        for (int j = 0; j < b.c; j++) { got[j] = 0; cnt[j] = 0; }
        for (IT q = s; q < e; q++) {
            IT c = C.colids[q];
            sx_assert(c >= 0 && c < (IT) b.ncols() && (c - b.off()) % b.st() == 0 && c >= b.off(), "column index in range");
            c = (c - b.off()) / b.st();
            got[c] = C.values[q]; cnt[c]++;
            if (sorted && q > s) sx_assert(C.colids[q - 1] < C.colids[q], "row is strictly ascending");
        }
        for (int j = 0; j < b.c; j++) {
            u64 w = expectC(a, b, i, j);
            int allowed = mode == MASK_NONE ? 1 : mode == MASK_PLAIN ? m.b[i][j] : !m.b[i][j];
            if (!allowed) w = 0;
            sx_check_eq((u64) cnt[j], w != 0, "entry is present exactly once iff an allowed product exists");
            if (parity) { u64 par = 1; for (int k = 0; k < a.c; k++) par ^= a.b[i][k] & b.b[k][j]; w = w ? par : 0; }
            sx_check_eq((u64) got[j], w, "entry equals the sum over all contributing products");
        }
        total = e;
    }
    sx_assert(C.nnz == total, "nnz equals the last row pointer");
}
template<class IT, class NT> void checkUnchanged(const CSR<IT, NT> &m, const Pat &p, int which, const char *msg) {
    IT n = 0; int ok = m.rows == (IT) p.r && m.cols == (IT) p.ncols() && m.rowptr[0] == 0;
    for (int i = 0; i < p.r; i++) {
        for (int t = 0; t < p.c; t++) { int j = permAt(p, i, t); if (p.b[i][j]) { NT v = which == 0 ? (NT) tagA(i, j) : which == 1 ? (NT) tagB(i, j) : (NT) 77; ok &= (m.colids[n] == (IT) p.col(j)) & (m.values[n] == v); n++; } }
        ok &= m.rowptr[i + 1] == n;
    }
    sx_assert(ok && m.nnz == n, msg);
}
template<class IT, class NT> void checkUnchanged(const CSC<IT, NT> &m, const Pat &p, int which, const char *msg) {
    IT n = 0; int ok = m.rows == (IT) p.r && m.cols == (IT) p.c && m.colptr[0] == 0;
    for (int j = 0; j < p.c; j++) {
        for (int i = 0; i < p.r; i++) if (p.b[i][j]) { NT v = which == 0 ? (NT) tagA(i, j) : which == 1 ? (NT) tagB(i, j) : (NT) 77; ok &= (m.rowids[n] == (IT) i) & (m.values[n] == v); n++; }
        ok &= m.colptr[j + 1] == n;
    }
    sx_assert(ok && m.nnz == n, msg);
}
