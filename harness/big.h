// Larger matrices: a fixed pseudo-random background with rows of every kind (empty, one entry, sparse, dense, full, one run),
// in which some rows of A, B and M are symbolic choices among four kinds. Values are 64-bit hashes, products are combined by an
// operation that is not commutative, sums are taken modulo 2^64.
#pragma once
#include "mat.h"
static const int BD = 36, BC = 640;
struct Big { int r, c, st; unsigned char b[BD][BC]; int nc() const { return c ? (c - 1) * st + 1 : 0; } };
static unsigned big_x; static inline unsigned big_rnd() { big_x = big_x * 1664525u + 1013904223u; return big_x >> 16; }
static inline void big_row(unsigned char *t, int c, int kind) {
    int s = big_rnd() % c, l = 1 + big_rnd() % (c / 3 + 1);
    for (int j = 0; j < c; j++) {
        unsigned x = big_rnd();
        t[j] = kind == 0 ? 0 : kind == 1 ? j == s : kind == 2 ? x % 16 == 0 : kind == 3 ? x % 4 == 0 : kind == 4 ? x % 8 != 0 : kind == 5 ? 1 : kind == 6 ? (j >= s && j < s + l) : kind == 7 ? (j == 0 || j == c - 1) : x % 2;
    }
}
// kinds of the rows that are not symbolic: bits of a mask over the nine kinds
static inline void big_mat(Big &p, int r, int c, int st, unsigned seed, int nsym, unsigned kinds, const char *nm) {
    p.r = r; p.c = c; p.st = st; big_x = seed * 2654435761u + 977;
    unsigned symrow = 0; for (int q = 0; q < nsym; q++) symrow |= 1u << (big_rnd() % r);
    for (int i = 0; i < r; i++) {
        int kd; do kd = big_rnd() % 9; while (!(kinds >> kd & 1));
        if (!(symrow >> i & 1)) { big_row(p.b[i], c, kd); continue; }
        static unsigned char t[4][BC]; big_row(t[0], c, 0); big_row(t[1], c, 1 + big_rnd() % 2); big_row(t[2], c, 3 + big_rnd() % 2); big_row(t[3], c, 5 + big_rnd() % 4);
        int sel = (int) sx_int(nm, 0, 3);
        for (int j = 0; j < c; j++) p.b[i][j] = t[sel][j];
    }
}
static inline u64 big_h(u64 a, u64 b) { u64 x = a * 0x9e3779b97f4a7c15ull + b * 0xc2b2ae3d27d4eb4full + 0x165667b19e3779f9ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ x >> 32; }
static inline u64 big_a(int i, int k) { return big_h(i, k + 1000); }
static inline u64 big_b(int k, int j) { return big_h(k + 5000, j); }
static inline u64 big_mul(u64 a, u64 b) { return a * 3 + (b ^ a >> 7) * b; }
struct BMul { u64 operator()(u64 a, u64 b) const { return big_mul(a, b); } };
struct BAdd { u64 operator()(u64 a, u64 b) const { return a + b; } };
template<class IT, class NT> static void big_csr(CSR<IT, NT> &m, const Big &p, int which) {
    m.rows = p.r; m.cols = p.nc(); m.zerobased = true; m.rowptr = (IT *) malloc(sizeof(IT) * (p.r + 1)); m.colids = nullptr; m.values = nullptr;
    IT n = 0; m.rowptr[0] = 0;
    for (int i = 0; i < p.r; i++) { for (int j = 0; j < p.c; j++) n += p.b[i][j]; m.rowptr[i + 1] = n; }
    m.nnz = n;
    if (n > 0) {
        m.colids = (IT *) malloc(sizeof(IT) * n); m.values = (NT *) malloc(sizeof(NT) * n); IT q = 0;
        for (int i = 0; i < p.r; i++) for (int j = 0; j < p.c; j++) if (p.b[i][j]) { m.colids[q] = (IT) j * p.st; m.values[q] = which == 0 ? big_a(i, j) : which == 1 ? big_b(i, j) : 77; q++; }
    }
}
template<class IT, class NT> static void big_csc(CSC<IT, NT> &m, const Big &p, int which) {
    m.rows = p.r; m.cols = p.nc(); m.colptr = (IT *) malloc(sizeof(IT) * (m.cols + 1)); m.rowids = nullptr; m.values = nullptr;
    IT n = 0; m.colptr[0] = 0;
    for (int j = 0; j < m.cols; j++) { if (j % p.st == 0) for (int i = 0; i < p.r; i++) n += p.b[i][j / p.st]; m.colptr[j + 1] = n; }
    m.nnz = n;
    if (n > 0) {
        m.rowids = (IT *) malloc(sizeof(IT) * n); m.values = (NT *) malloc(sizeof(NT) * n); IT q = 0;
        for (int j = 0; j < p.c; j++) for (int i = 0; i < p.r; i++) if (p.b[i][j]) { m.rowids[q] = i; m.values[q] = which == 0 ? big_a(i, j) : which == 1 ? big_b(i, j) : 77; q++; }
    }
}
template<class IT, class NT> static void big_check(const CSR<IT, NT> &C, const Big &a, const Big &b, const Big &m, int mode, bool sorted) {
    sx_assert(C.rows == (IT) a.r && C.cols == (IT) b.nc(), "result has the dimensions of the product");
    IT total = 0; static u64 want[BC], got[BC]; static unsigned char any[BC], cnt[BC];
    sx_assert(C.rowptr[0] == 0, "row pointers start at zero");
    for (int i = 0; i < a.r; i++) {
        for (int j = 0; j < b.c; j++) { want[j] = got[j] = 0; any[j] = cnt[j] = 0; }
        for (int k = 0; k < a.c; k++) if (a.b[i][k]) { u64 x = big_a(i, k); for (int j = 0; j < b.c; j++) if (b.b[k][j]) { want[j] += big_mul(x, big_b(k, j)); any[j] = 1; } }
        IT s = C.rowptr[i], e = C.rowptr[i + 1];
        sx_assert(s == total && s <= e && e - s <= (IT) b.c, "row extents are valid");
        IT prev = -1;
        for (IT q = s; q < e; q++) {
            IT c = C.colids[q]; if (sorted) sx_assert(prev < c, "row is strictly ascending"); prev = c;
            sx_assert(c >= 0 && c < (IT) b.nc() && c % b.st == 0, "column index in range"); c /= b.st; got[c] = C.values[q]; cnt[c]++;
        }
        for (int j = 0; j < b.c; j++) {
            bool allowed = mode == MASK_NONE ? true : mode == MASK_PLAIN ? m.b[i][j] : !m.b[i][j]; bool ex = allowed && any[j];
            sx_check_eq(cnt[j], ex, "entry is present exactly once iff an allowed product exists");
            sx_check_eq(got[j], ex ? want[j] : 0, "entry equals the sum over all contributing products");
        }
        total = e;
    }
    sx_assert(C.nnz == total, "nnz equals the last row pointer");
}
