#define SX_MAXDRAW 700
#include "sx_rand.h"
#include "big.h"
#include "util/transpose.h"
#include "SplitTuples.h"
#include <vector>
#include <tuple>
typedef int IT; typedef u64 NT;
// params: 0 rows, 1 columns, 2 threads, 3 seed, 4 symbolic rows, 5 kinds, 6.. per entry
static Big P, Q, X; static int R, C_;
static void setup() { R = sx_param(0); C_ = sx_param(1); sx_threads(sx_param(2)); big_mat(P, R, C_, 1, sx_param(3), sx_param(4), sx_param(5), "P"); }
// compressed arrays hold exactly the entries of p; tr: outer dimension is the columns; ord: ascending
static void exact(const Big &p, const IT *ptr, const IT *ids, const NT *vals, IT nnz, bool tr, bool ord, int which = 0) {
    int o_ = tr ? p.c : p.r, i_ = tr ? p.r : p.c; IT total = 0; static NT got[BC]; static unsigned char cnt[BC];
    sx_assert(ptr[0] == 0, "pointers start at zero");
    for (int o = 0; o < o_; o++) {
        IT s = ptr[o], e = ptr[o + 1]; sx_assert(s == total && s <= e && e - s <= i_, "extents are valid"); total = e;
        for (int i = 0; i < i_; i++) { got[i] = 0; cnt[i] = 0; }
        IT prev = -1;
        for (IT q = s; q < e; q++) { IT i = ids[q]; sx_assert(i >= 0 && i < i_, "index in range"); if (ord) { sx_assert(prev < i, "indices are ascending"); prev = i; } got[i] = vals[q]; cnt[i]++; }
        for (int i = 0; i < i_; i++) { int r = tr ? i : o, c = tr ? o : i, h = p.b[r][c]; sx_check_eq(cnt[i], h, "every entry is present exactly once"); sx_check_eq(got[i], h ? (which ? big_b(r, c) : big_a(r, c)) : 0, "entry keeps its value"); }
    }
    sx_assert(nnz == total, "number of entries");
}
static void same(const CSR<IT, NT> &m, const Big &p, int w = 0) { sx_assert(m.rows == p.r && m.cols == p.c, "dimensions"); exact(p, m.rowptr, m.colids, m.values, m.nnz, false, true, w); }
static void same(const CSC<IT, NT> &m, const Big &p, int w = 0) { sx_assert(m.rows == p.r && m.cols == p.c, "dimensions"); exact(p, m.colptr, m.rowids, m.values, m.nnz, true, true, w); }
extern "C" void convert() {
    setup(); u64 mark = sx_heap_mark(); { CSC<IT, NT> a; big_csc(a, P, 0);
    { CSR<IT, NT> c(a); same(c, P); } { CSR<IT, NT> c(a, false); same(c, P); }
    { CSR<IT, NT> c(a, true); sx_assert(c.rows == P.c && c.cols == P.r, "dimensions"); exact(P, c.rowptr, c.colids, c.values, c.nnz, true, true); }
    same(a, P); } sx_heap_check(mark, "memory retained"); sx_cover("end");
}
extern "C" void transp() {
    setup(); CSR<IT, NT> a; big_csr(a, P, 0); IT *cp = (IT *) malloc(4 * (P.c + 1)), *ri = (IT *) malloc(4 * a.nnz); NT *v = (NT *) malloc(8 * a.nnz); u64 mark = sx_heap_mark();
    csr2csc_atomic_nosort<IT, NT>(P.r, P.c, a.nnz, a.rowptr, a.colids, a.values, cp, ri, v); sx_heap_check(mark, "memory retained");
    exact(P, cp, ri, v, a.nnz, true, false); same(a, P); free(cp); free(ri); free(v); sx_cover("end");
}
extern "C" void copies() {
    setup(); u64 mark = sx_heap_mark(); { CSR<IT, NT> a, t; big_csr(a, P, 0); CSR<IT, NT> c(a); same(c, P); big_mat(Q, R / 2 + 1, C_ / 3 + 1, 1, sx_param(3) + 5, 0, 511, "Q"); big_csr(t, Q, 0); t = a; same(t, P); 
    CSC<IT, NT> b, u; big_csc(b, P, 0); CSC<IT, NT> d(b); same(d, P); big_csc(u, Q, 0); u = b; same(u, P);
    sx_assert(a.ConvertOneBased(), "numbering"); CSR<IT, NT> o(a); sx_assert(!o.zerobased, "numbering"); o.ConvertZeroBased(); same(o, P); a.ConvertZeroBased(); same(a, P); c.make_empty(); d.make_empty(); sx_assert(c.isEmpty() && d.isEmpty() && c.nnz == 0 && d.nnz == 0, "emptied"); same(t, P); same(u, P);
    } sx_heap_check(mark, "memory retained"); sx_cover("end");
}
// equality: one entry of one row differs (in position or value) or none
extern "C" void equal() {
    R = sx_param(0); C_ = sx_param(1); sx_threads(sx_param(2)); big_mat(P, R, C_, 1, sx_param(3), 0, sx_param(5), "P"); Q = P;
    CSR<IT, int64_t> a, b; CSC<IT, int64_t> c, d; big_csr(a, P, 2); big_csr(b, P, 2); big_csc(c, P, 2); big_csc(d, P, 2);
    sx_assert(a == b && c == d, "equal matrices");
    int at = (int) sx_int("at", 0, a.nnz - 1), kind = (int) sx_int("kind", 0, 1);
    if (kind) { b.values[at]++; d.values[at]--; } else { b.colids[at] = C_ + 3; d.rowids[at] = R + 3; }
    sx_assert(!(a == b) && !(b == a) && !(c == d) && !(d == c), "one different entry makes a difference"); sx_cover("end");
}
struct Pick { u64 operator()(u64 a, u64 b) const { return big_mul(a, b); } };
extern "C" void intersect() {
    setup(); big_mat(Q, R, C_, 1, sx_param(3) + 9, sx_param(4), sx_param(5), "Q"); u64 mark = sx_heap_mark();
    { CSR<IT, NT> a, b; big_csr(a, P, 0); big_csr(b, Q, 1); CSR<IT, NT> c = Intersect(a, b, Pick()); IT n = 0; sx_assert(c.rows == R && c.cols == C_ && c.rowptr[0] == 0, "dimensions");
      for (int i = 0; i < R; i++) { for (int j = 0; j < C_; j++) if (P.b[i][j] & Q.b[i][j]) { sx_assert(n < c.nnz && c.colids[n] == j && c.values[n] == big_mul(big_a(i, j), big_b(i, j)), "common entries are combined, in order"); n++; } sx_assert(c.rowptr[i + 1] == n, "row pointers count the common entries"); }
      sx_assert(c.nnz == n, "nothing else is returned"); u64 s = 0; for (IT q = 0; q < a.nnz; q++) s += a.values[q]; sx_check_eq(a.sumall(), s, "sum of all values"); same(a, P); same(b, Q, 1); } sx_heap_check(mark, "memory retained"); sx_cover("end");
}
static void mix(IT *ids, NT *v, IT n) { for (IT q = n - 1; q > 0; q--) { IT x = big_rnd() % (q + 1); IT t = ids[q]; ids[q] = ids[x]; ids[x] = t; NT w = v[q]; v[q] = v[x]; v[x] = w; } }
extern "C" void sorting() { setup(); CSR<IT, NT> a; big_csr(a, P, 0); for (int i = 0; i < R; i++) mix(a.colids + a.rowptr[i], a.values + a.rowptr[i], a.rowptr[i + 1] - a.rowptr[i]); a.sortIds(); same(a, P); sx_cover("end"); }
extern "C" void selecting() { // rows and columns at a symbolic offset with a symbolic stride
    setup(); CSC<IT, NT> a; big_csc(a, P, 0); int ro = (int) sx_int("ro", 0, 2), rs = (int) sx_int("rs", 1, 2), co = (int) sx_int("co", 0, 2), cs = (int) sx_int("cs", 1, 3); std::vector<IT> ri, ci; ri.reserve(BD); ci.reserve(BC);
    for (int i = ro; i < R; i += rs) ri.push_back(i); for (int j = co; j < C_; j += cs) ci.push_back(j);
    auto chk = [&](CSC<IT, NT> &m) { sx_assert(m.rows == (IT) ri.size() && m.cols == (IT) ci.size(), "one row and column per selected index"); IT n = 0; for (size_t j = 0; j < ci.size(); j++) { for (size_t i = 0; i < ri.size(); i++) if (P.b[ri[i]][ci[j]]) { sx_assert(n < m.nnz && m.rowids[n] == (IT) i && m.values[n] == big_a(ri[i], ci[j]), "selected entries, renumbered, in order"); n++; } sx_assert(m.colptr[j + 1] == n, "column pointers count the selected entries"); } sx_assert(m.nnz == n, "nothing else is returned"); };
    { CSC<IT, NT> m = a.SpRef(ri, ci); chk(m); } { CSC<IT, NT> m = a.SpRef1(ri, ci); chk(m); } { CSC<IT, NT> m = a.SpRef2(ri.data(), (IT) ri.size(), ci.data(), (IT) ci.size()); chk(m); } same(a, P); sx_cover("end");
}
// lists of entries with duplicates: every entry of P is listed 1 to 3 times in a mixed order
extern "C" void lists() {
    setup(); u64 mark = sx_heap_mark(); {
    int cap = 3 * R * C_, n = 0; IT *r = (IT *) malloc(4 * cap), *c = (IT *) malloc(4 * cap); 
    static unsigned char rep[BD][BC]; for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) { unsigned y = big_rnd() % 16; rep[i][j] = y < 12 ? 1 : y < 15 ? 2 : 3; }
    int st = 1; while ((R * C_) % (st += 2) == 0 || st < 7) if (st > 1000) break;
    for (int k = 0; k < 3; k++) for (int q = 0, x = 0; q < R * C_; q++, x = (x + st) % (R * C_)) { int i = x / C_, j = x % C_; if (k < rep[i][j]) if (P.b[i][j]) { r[n] = i; c[n] = j; n++; } }
    sx_assume(n > 0);
    NT *v = (NT *) malloc(8 * n); for (int q = 0; q < n; q++) v[q] = big_a(r[q], c[q]) + q;
    std::vector<std::tuple<IT, IT, NT>> tv; tv.reserve(cap); for (int q = 0; q < n; q++) tv.push_back({r[q], c[q], v[q]});
    auto *t = (Triple<IT, NT> *) malloc(sizeof(Triple<IT, NT>) * n); for (int q = 0; q < n; q++) t[q] = Triple<IT, NT>(r[q], c[q], v[q]);
    auto chk = [&](CSC<IT, NT> &m, bool merged) {
        sx_assert(m.rows == R && m.cols == C_ && m.colptr[0] == 0, "dimensions"); IT total = 0; static NT want[BC][BD]; static int cnt[BC][BD]; for (int j = 0; j < C_; j++) for (int i = 0; i < R; i++) { want[j][i] = 0; cnt[j][i] = 0; }
        for (int q = 0; q < n; q++) { want[c[q]][r[q]] += v[q]; cnt[c[q]][r[q]]++; }
        for (int j = 0; j < C_; j++) { IT s = m.colptr[j], e = m.colptr[j + 1]; sx_assert(s == total && s <= e && e <= m.nnz, "extents are valid"); total = e; NT got[BD]; int k[BD]; for (int i = 0; i < R; i++) { got[i] = 0; k[i] = 0; } IT prev = -1;
          for (IT q = s; q < e; q++) { IT i = m.rowids[q]; sx_assert(i >= 0 && i < R && (merged ? prev < i : prev <= i), "indices are ascending"); prev = i; got[i] += m.values[q]; k[i]++; }
          for (int i = 0; i < R; i++) { sx_check_eq(k[i], merged ? cnt[j][i] > 0 : cnt[j][i], "exactly the listed entries are stored"); sx_check_eq(got[i], want[j][i], "values belong to their entries"); } }
        sx_assert(total == m.nnz, "number of entries"); };
    { CSC<IT, NT> m(t, n, R, C_); chk(m, false); } { CSC<IT, NT> m(tv, R, C_, std::plus<NT>()); chk(m, false); m.MergeDuplicates(std::plus<NT>()); chk(m, true); } { CSC<IT, NT> m(r, c, v, n, R, C_); chk(m, false); }
    free(r); free(c); free(v); free(t); }
    sx_heap_check(mark, "memory retained"); sx_cover("end");
}
// edges sorted by start, with duplicates
extern "C" void graphs() {
    setup(); graph G; G.n = R; int cap = 2 * R * C_; G.start = (long *) malloc(8 * cap); G.end = (long *) malloc(8 * cap); G.w = (long *) malloc(8 * cap); long m = 0;
    for (int i = 0; i < R; i++) { for (int k = 0; k < 2; k++) for (int q = 0, x = 0; q < C_; q++, x = (x + (C_ % 7 ? 7 : 11)) % C_) if (k == 0 || (x + i) % 3 == 0) if (P.b[i][x]) { G.start[m] = i; G.end[m] = x % R; G.w[m] = big_a(i, x) + k; m++; } }
    G.m = m; sx_assume(m > 0); static NT want[BD][BD]; static int has[BD][BD]; for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) { want[i][j] = 0; has[i][j] = 0; }
    for (long q = 0; q < m; q++) { want[G.start[q]][G.end[q]] += G.w[q]; has[G.start[q]][G.end[q]] = 1; }
    auto chk = [&](IT *ptr, IT *ids, NT *v, IT nnz, bool tr) { IT n = 0; sx_assert(ptr[0] == 0, "pointers start at zero"); for (int o = 0; o < R; o++) { for (int i = 0; i < R; i++) { int r = tr ? i : o, c = tr ? o : i; if (has[r][c]) { sx_assert(n < nnz && ids[n] == i && v[n] == want[r][c], "parallel edges are merged into one entry, in order"); n++; } } sx_assert(ptr[o + 1] == n, "pointers"); } sx_assert(nnz == n, "nothing else is stored"); };
    { CSR<IT, NT> a(G); sx_assert(a.rows == R && a.cols == R, "dimensions"); chk(a.rowptr, a.colids, a.values, a.nnz, false); } { CSC<IT, NT> a(G); sx_assert(a.rows == R && a.cols == R, "dimensions"); chk(a.colptr, a.rowids, a.values, a.nnz, true); }
    free(G.start); free(G.end); free(G.w); sx_cover("end");
}
extern "C" void splits() {
    setup(); CSC<IT, NT> a; big_csc(a, P, 0); CSR<IT, NT> b; big_csr(b, P, 0); int sp = sx_param(6), per = R / sp < 1 ? 1 : R / sp;
    auto chk = [&](auto &s, bool local) { static unsigned char seen[BD][BC]; for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) seen[i][j] = 0; int total = 0; sx_assert((int) s.splitTuples.size() == sp, "number of pieces");
        for (int o = 0; o < sp; o++) for (auto &t : s.splitTuples[o]) { int r = std::get<0>(t) + (local ? o * per : 0), c = std::get<1>(t); sx_assert(r >= 0 && r < R && c >= 0 && c < C_, "entry is inside the matrix"); sx_assert(o == (r / per < sp - 1 ? r / per : sp - 1), "entry is in the piece its row belongs to"); sx_assert(std::get<2>(t) == big_a(r, c), "entry keeps its value"); seen[r][c]++; total++; }
        for (int r = 0; r < R; r++) for (int c = 0; c < C_; c++) sx_check_eq(seen[r][c], P.b[r][c], "every entry is in exactly one piece"); sx_assert(s.nnz == total, "number of entries"); };
    { SplitTuples<IT, NT> s(a, sp); chk(s, false); } { SplitTuples<IT, NT> s(b, sp); chk(s, true); } sx_cover("end");
}
