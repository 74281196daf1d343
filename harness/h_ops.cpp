#define SX_MAXDRAW 7
#include "sx_rand.h"
#include "mat.h"
#include "spgemm-blocks/masked-spgemm.h"
// copying, assigning, comparing, sorting, relabelling. params vary per entry
template<class IT, class NT> static void buildAny(CSR<IT, NT> &m, const Pat &p, int w) { if (p.r) buildCSR(m, p, w); else m.cols = p.c; }
template<class IT, class NT> static void buildAny(CSC<IT, NT> &m, const Pat &p, int w) { if (p.c) buildCSC(m, p, w); else m.rows = p.r; }
template<class M> static int outer(const M &m); template<> int outer(const CSR<int, int64_t> &m) { return m.rows; } template<> int outer(const CSC<int, int64_t> &m) { return m.cols; }
template<class M> static void sameAs(const M &m, const Pat &p, const char *msg) { if (outer(m)) checkUnchanged(m, p, 0, msg); else sx_assert(m.rows == p.r && m.cols == p.c && m.nnz == 0, msg); }
static void poke(CSR<int, int64_t> &m) { if (!m.rows) return; m.rowptr[0] = 99; if (m.nnz > 0) { m.colids[0] = 77; m.values[0] = 55; } }
static void poke(CSC<int, int64_t> &m) { if (!m.cols) return; m.colptr[0] = 99; if (m.nnz > 0) { m.rowids[0] = 77; m.values[0] = 55; } }
// params: rows, cols of the source, rows, cols of the previous contents of the target (0 rows: default-constructed), emptied first
template<class M> static void copyAssign() {
    Pat P, Q; symPat(P, sx_param(0), sx_param(1), "P"); symPat(Q, sx_param(2), sx_param(3), "Q"); u64 hm = sx_heap_mark();
    {
        M a; buildAny(a, P, 0); M t; if (sx_param(2)) buildAny(t, Q, 1); if (sx_param(4)) t.make_empty();
        M c(a); sameAs(c, P, "copy construction gives the same matrix");
        M &r = (t = a); sx_assert(&r == &t, "assignment returns the target"); sameAs(t, P, "assignment gives the same matrix");
        t = t; sameAs(t, P, "self-assignment changes nothing");
        sx_assert(t == a && a == t && c == a && a == a, "copies compare equal");
        poke(t); sameAs(a, P, "changing the assigned matrix leaves the source alone"); sameAs(c, P, "changing one copy leaves the other alone");
        poke(c); sameAs(a, P, "changing the copy leaves the source alone");
        M d; a = d; sx_assert(a.rows == 0 && a.cols == 0 && a.nnz == 0 && a.isEmpty(), "assigning an empty matrix empties the target"); sx_assert(a == d, "empty matrices compare equal");
        a.make_empty(); c.make_empty(); c.make_empty(); sx_assert(c.nnz == 0 && c.isEmpty() && c.rows == 0 && c.cols == 0, "emptied matrix is empty");
        buildAny(c, Q, 0); sameAs(c, Q, "an emptied matrix can be filled again");
    }
    sx_heap_check(hm, "copies are released exactly once"); sx_cover("end");
}
extern "C" void copy_csr() { copyAssign<CSR<int, int64_t>>(); }
extern "C" void copy_csc() { copyAssign<CSC<int, int64_t>>(); }
// equality of two arbitrary matrices with symbolic values. params: rows, cols of both, differing dimensions of the second
static u64 sv(const char *n) { return sx_int(n, 0, 3); }
template<class M> static void eqv() {
    Pat P, Q; symPat(P, sx_param(0), sx_param(1), "P"); symPat(Q, sx_param(2), sx_param(3), "Q"); M a, b; buildAny(a, P, 2); buildAny(b, Q, 2);
    int same = P.r == Q.r && P.c == Q.c;
    if (same) for (int i = 0; i < P.r; i++) for (int j = 0; j < P.c; j++) same &= P.b[i][j] == Q.b[i][j];
    int cap = P.r * P.c; int vals = 1;
    for (int t = 0; t < cap; t++) { u64 x = 10 * sv("va"), y = 10 * sv("vb"); if (t < (int) a.nnz) a.values[t] = x; if (t < (int) b.nnz) b.values[t] = y; if (t < (int) a.nnz) vals &= x == y; }
    int r = a == b, r2 = b == a; int e = same && vals; sx_check_eq(r, e, "equality holds exactly for equal matrices"); sx_check_eq(r2, e, "equality is symmetric"); sx_cover("end");
}
extern "C" void eq_csr() { eqv<CSR<int, int64_t>>(); }
extern "C" void eq_csc() { eqv<CSC<int, int64_t>>(); }
// floating point: equal up to the documented tolerance. params: rows, cols
extern "C" void eq_fp() {
    static const double T[6] = {0.0, 1.0, 1.0004, 1.5, 1e6, 1e6 + 100}; static const int CL[6] = {0, 1, 1, 2, 3, 3};
    Pat P; symPat(P, sx_param(0), sx_param(1), "P"); CSR<int, double> a, b; buildCSR(a, P, 2); buildCSR(b, P, 2); int e = 1;
    for (int t = 0; t < P.r * P.c; t++) { int x = (int) sx_int("va", 0, 5), y = (int) sx_int("vb", 0, 5); if (t < a.nnz) { a.values[t] = T[x]; b.values[t] = T[y]; e &= CL[x] == CL[y]; } }
    int r = a == b; sx_check_eq(r, e, "values are compared up to the tolerance"); sx_cover("end");
}
// same structure, other numbering. params: rows, cols
extern "C" void eq_based() {
    Pat P, Q; symPat(P, sx_param(0), sx_param(1), "P"); symPat(Q, sx_param(0), sx_param(1), "Q"); CSR<int, int64_t> a, b; buildCSR(a, P, 2); buildCSR(b, Q, 2);
    int same = 1; for (int i = 0; i < P.r; i++) for (int j = 0; j < P.c; j++) same &= P.b[i][j] == Q.b[i][j];
    for (int i = 0; i <= P.r; i++) b.rowptr[i]++; for (int t = 0; t < b.nnz; t++) b.colids[t]++; b.zerobased = false;
    u64 hm = sx_heap_mark(); int r = a == b, r2 = b == a; sx_check_eq(r, same, "equality across numberings"); sx_check_eq(r2, same, "equality across numberings is symmetric"); sx_heap_check(hm, "comparison retains no memory"); sx_cover("end");
}
// numbering there and back, emptied and reused as the output of a product. params: rows, cols
extern "C" void numbering() {
    Pat P; symPat(P, sx_param(0), sx_param(1), "P"); CSR<int, u64> a, z; buildCSR(a, P, 0); buildCSR(z, P, 0);
    sx_assert(a.ConvertZeroBased() && a.zerobased, "a zero-based matrix stays zero-based"); checkUnchanged(a, P, 0, "no change");
    sx_assert(a.ConvertOneBased() && !a.zerobased, "conversion to one-based happens"); sx_assert(!a.ConvertOneBased() && !a.zerobased, "and happens once");
    int n = 0; sx_assert(a.rowptr[0] == 1 && a.nnz == z.nnz, "one-based pointers");
    for (int i = 0; i < P.r; i++) { sx_assert(a.rowptr[i + 1] == z.rowptr[i + 1] + 1, "one-based pointers"); }
    for (int t = 0; t < z.nnz; t++) sx_assert(a.colids[t] == z.colids[t] + 1 && a.values[t] == z.values[t], "one-based indices, same values");
    CSR<int, u64> c(a), d; d = a; sx_assert(!c.zerobased && !d.zerobased, "copies keep the numbering");
    c.ConvertZeroBased(); d.ConvertZeroBased(); checkUnchanged(c, P, 0, "copies convert back"); checkUnchanged(d, P, 0, "copies convert back");
    a.ConvertZeroBased(); checkUnchanged(a, P, 0, "back to the original"); sx_assert(a.zerobased, "zero-based again");
    a.ConvertOneBased(); a.make_empty(); buildCSR(a, P, 0); sx_cover("end");
}
extern "C" void reuse() { // a one-based matrix used as output. params: rows, cols (square product), phases
    Pat P; symPat(P, sx_param(0), sx_param(0), "P"); CSR<int, u64> a, m, c; buildCSR(a, P, 0); buildCSR(m, P, 2); buildCSR(c, P, 0); c.ConvertOneBased();
    Pat Q = P; CSR<int, u64> b; buildCSR(b, Q, 1);
    if (sx_param(1) == 1) MaskedSpGEMM1p<MSA1A<false, false>::Impl>(a, b, c, m, TMul(), TAdd(), 1); else MaskedSpGEMM2p<MSA1A<false, false>::Impl>(a, b, c, m, TMul(), TAdd(), 1);
    sx_assert(c.zerobased, "a product is zero-based whatever the output was before"); checkProduct(c, P, Q, P, MASK_PLAIN, false); sx_cover("end");
}
// sorting and shuffling. params: rows, cols (2 or 3), threads
extern "C" void sort_ids() {
    sx_threads(sx_param(2)); Pat P; symPat(P, sx_param(0), sx_param(1), "P"); symOrd(P, "ord"); CSR<int, u64> a; buildCSR(a, P, 0); u64 hm = sx_heap_mark();
    a.sortIds(); for (int i = 0; i < P.r; i++) P.ord[i] = 0;
    checkUnchanged(a, P, 0, "rows are sorted and values stay with their index"); sx_heap_check(hm, "sorting retains no memory"); sx_cover("end");
}
template<class M> static void shuffled(M &a, int *ptr, int *ids, u64 *vals, const Pat &P, bool csc) {
    int o_ = csc ? P.c : P.r, i_ = csc ? P.r : P.c, n = 0; sx_assert(ptr[0] == 0, "pointers unchanged");
    for (int o = 0; o < o_; o++) {
        u64 got[MAXC] = {0}; int cnt[MAXC] = {0};
        for (int q = ptr[o]; q < ptr[o + 1]; q++) { int i = ids[q]; sx_assert(i >= 0 && i < i_, "index in range"); got[i] = vals[q]; cnt[i]++; }
        for (int i = 0; i < i_; i++) { int r = csc ? i : o, c = csc ? o : i; n += P.b[r][c]; sx_check_eq(cnt[i], P.b[r][c], "same entries in every row"); sx_check_eq(got[i], P.b[r][c] ? tagA(r, c) : 0, "values stay with their index"); }
        sx_assert(ptr[o + 1] == n, "pointers unchanged");
    }
    sx_cover("end");
}
extern "C" void shuffle_csr() { Pat P; symPat(P, sx_param(0), sx_param(1), "P"); CSR<int, u64> a; buildCSR(a, P, 0); a.shuffleIds(); shuffled(a, a.rowptr, a.colids, a.values, P, false); }
extern "C" void shuffle_csc() { Pat P; symPat(P, sx_param(0), sx_param(1), "P"); CSC<int, u64> a; buildCSC(a, P, 0); a.shuffleIds(); shuffled(a, a.colptr, a.rowids, a.values, P, true); }

// arbitrary stored order: distinct symbolic indices. params: rows, entries per row, largest index, threads
extern "C" void sort_any() {
    sx_threads(sx_param(3)); int r = sx_param(0), n = sx_param(1), mx = sx_param(2); CSR<int, u64> a; a.rows = r; a.cols = mx + 1; a.nnz = r * n; a.rowptr = (int *) malloc(4 * (r + 1)); a.colids = (int *) malloc(4 * r * n); a.values = (u64 *) malloc(8 * r * n);
    int id[4][6]; a.rowptr[0] = 0;
    for (int i = 0; i < r; i++) { a.rowptr[i + 1] = (i + 1) * n; for (int t = 0; t < n; t++) { id[i][t] = (int) sx_int("index", 0, mx); for (int u = 0; u < t; u++) sx_assume(id[i][u] != id[i][t]); a.colids[i * n + t] = id[i][t]; a.values[i * n + t] = 100 * i + id[i][t]; } }
    a.sortIds();
    for (int i = 0; i < r; i++) {
        sx_assert(a.rowptr[i] == i * n, "pointers unchanged");
        for (int t = 0; t < n; t++) { int q = i * n + t, rank = 0; if (t) sx_assert(a.colids[q - 1] < a.colids[q], "rows are sorted"); sx_assert(a.values[q] == (u64) 100 * i + a.colids[q], "values stay with their index"); int in = 0; for (int u = 0; u < n; u++) in |= id[i][u] == a.colids[q]; sx_assert(in, "indices are those stored"); }
    }
    sx_cover("end");
}
