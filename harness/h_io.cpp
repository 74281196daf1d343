#define SX_MAXDRAW 10
#include "sx_file.h"
#ifdef MALFORMED // a reader may refuse the file by ending the process
extern "C" void sx_exit_ok();
namespace std { inline void sx_leave(int) { sx_exit_ok(); } }
using std::sx_leave;
#define exit sx_leave
#endif
#include "CSR.h"
#include "IO.h"
typedef int IX; typedef double VX;
// textual forms of values, all of the same width
static const int NV = 10; static const char VT[NV][4] = {"1.0", "0.1", "-3.", ".25", "4e0", "07.", "-.5", "+12", "9e9", "2.5"};
static const double VV[] = {1.0, 0.1, -3.0, .25, 4.0, 7.0, -.5, 12.0, 9e9, 2.5};
struct Ent3 { int r, c; double v; };
static Ent3 exq[160]; static int nex;
// separators between the fields of an entry and at the end of its line
static const char SEP[6][44] = {" ", "  ", "\t", " \t ", "                                        ", " 0"}; static const char END[4][5] = {"\n", " \n", "\r\n", "   \n"};
// comment lines: 0 none, 1 short, 2 mentions a symmetric matrix, 3-8 long lines around the old line buffer, 9 mentions a general one
static void comment(int k) {
    if (k == 0) return;
    int len[] = {0, 5, 0, 253, 254, 255, 256, 300, 700, 0};
    f_s("%"); if (k == 2) f_s(" this is not symmetric"); else if (k == 9) f_s(" in general, skip"); else for (int i = 0; i < len[k]; i++) f_c(i % 9 ? 'a' + i % 7 : ' ');
    f_c('\n');
}
// params: 0 rows, 1 columns, 2 entries written, 3 banner (0 general, 1 symmetric, 2 none), 4 comment, 5 separator, 6 line end, 7 values present (0 no, 1 yes),
// 3 plus 4*s: many entries with indices of several digits, every s-th symbolic
// 8 last line ends without a newline, 9 entries beyond the declared count
static void wellformed(int maxv) {
    int m = sx_param(0), n = sx_param(1), k = sx_param(2), sym = sx_param(3) & 3, many = sx_param(3) >> 2, hv = sx_param(7), extra = sx_param(9);
    const char *sp = SEP[sx_param(5)], *en = END[sx_param(6)];
    if (sym == 0) f_s("%%MatrixMarket matrix coordinate real general\n"); else if (sym == 1) f_s("%%MatrixMarket matrix coordinate real symmetric\n");
    comment(sx_param(4)); if (sx_param(4)) comment(1);
    bool lead = sx_param(5) == 5; if (lead) f_s("0"); // zero-padded counts and indices
    f_n(m); f_s(sp); f_n(n); f_s(sp); f_n(k); f_s(en);
    nex = 0;
    for (int i = 0; i < k + extra; i++) {
        if (many) { // rows and columns up to three digits; symbolic ones choose their last digit
            int r = 1 + (i * 37 + 5) % m, c = 1 + (i * 53 + 11) % n, v = i * 7 % NV; if (sym == 1 && c > r) { int t = r; r = c; c = t; } bool sy = i % many == many / 2;
            if (lead) f_s("0"); int hi = r / 10 * 10; if (sy) { int d = (int) sx_int("r", hi == 0, m - hi < 9 ? m - hi : 9); if (sym == 1 && c > hi) c = hi ? hi : 1; if (hi) f_n(hi / 10); f_c('0' + d); r = hi + d; } else f_n(r);
            f_s(sp); f_n(c); if (hv) { f_s(lead ? SEP[0] : sp); for (int q = 0; q < 3; q++) f_c(VT[v][q]); }
            double val = hv ? VV[v] : 1.0; if (i + 1 < k + extra || !sx_param(8)) f_s(en);
            if (i < k) { exq[nex++] = {r - 1, c - 1, val}; if (sym == 1) { exq[nex] = {c - 1, r - 1, r == c ? -99.0 : val}; nex++; } }
            continue;
        }
        int r = (int) sx_int("r", 1, m), c = (int) sx_int("c", 1, n), v = hv ? (int) sx_int("v", 0, maxv - 1) : 0; if (sym == 1) sx_assume(c <= r);
        if (lead) f_s("0"); f_c('0' + r); f_s(sp); f_c('0' + c); double val = 1.0;
        if (hv) { f_s(lead ? SEP[0] : sp); for (int q = 0; q < 3; q++) { char x = 0; for (int w = 0; w < maxv; w++) if (v == w) { x = VT[w][q]; val = VV[w]; } f_c(x); } }
        if (i + 1 < k + extra || !sx_param(8)) f_s(en);
        if (i < k) { exq[nex++] = {r - 1, c - 1, val}; if (sym == 1) { exq[nex] = {c - 1, r - 1, r == c ? -99.0 : val}; nex++; } }
    }
}
static bool live(int i) { return exq[i].v != -99.0; }
static int nlive() { int t = 0; for (int i = 0; i < nex; i++) t += live(i); return t; }
// how often entry (r, c, v) must occur
static int want(int r, int c, double v) { int t = 0; for (int i = 0; i < nex; i++) t += live(i) && exq[i].r == r && exq[i].c == c && exq[i].v == v; return t; }
template<class G> static void compare(int m, int n, int z, G get) {
    int k = nlive(); sx_assert(z == k, "number of entries");
    for (int i = 0; i < nex; i++) { if (i >= k) continue; Ent3 e = get(i); sx_assert(e.r >= 0 && e.r < m && e.c >= 0 && e.c < n, "entry in range"); }
    for (int j = 0; j < nex; j++) { if (!live(j)) continue; int t = 0; for (int i = 0; i < nex; i++) if (i < k) { Ent3 e = get(i); t += e.r == exq[j].r && e.c == exq[j].c && e.v == exq[j].v; } sx_assert(t == want(exq[j].r, exq[j].c, exq[j].v), "entry occurs as often as in the file"); }
}
static void checkCSC(CSC<IX, VX> &A, int m, int n) {
    sx_assert((int) A.rows == m && (int) A.cols == n, "declared dimensions");
    Ent3 g[160]; int k = 0; if (A.nnz > 0) for (int j = 0; j < n; j++) { sx_assert(A.colptr[j] <= A.colptr[j + 1], "column pointers"); for (int p = A.colptr[j]; p < A.colptr[j + 1]; p++) { g[k++] = {(int) A.rowids[p], j, A.values[p]}; } }
    sx_assert(k == (int) A.nnz, "entries are in columns");
    compare(m, n, k, [&](int i) { return g[i]; });
}
#ifdef MALFORMED
// 0: counts and entries arbitrary (out of range, too many, too few); 1: one byte of a good file replaced; 2: the file ends early; 3: arbitrary short text
static const char ALPHA[] = " \n1-x%9.";
static void malformed() {
    int kind = sx_param(0), m = sx_param(1), n = sx_param(2), k = sx_param(3), sym = sx_param(4);
    if (kind == 3) { int L = sx_param(1), na = sx_param(2); if (sym == 1) f_s("%%MatrixMarket symmetric\n"); else if (sym == 0) f_s("%%MatrixMarket general\n"); if (sx_param(3)) f_s("1 1 1\n"); for (int i = 0; i < L; i++) { int q = (int) sx_int("ch", 0, na - 1); char c = 0; for (int w = 0; w < na; w++) if (q == w) c = ALPHA[w]; f_c(c); } return; }
    if (sym == 0) f_s("%%MatrixMarket matrix coordinate real general\n"); else if (sym == 1) f_s("%%MatrixMarket matrix coordinate real symmetric\n");
    size_t h0 = sx_fl; bool any = kind == 0;
    f_c('0' + (any ? (int) sx_int("m", 0, m) : m)); f_c(' '); f_c('0' + (any ? (int) sx_int("n", 0, n) : n)); f_c(' '); f_c('0' + (any ? (int) sx_int("nnz", 0, k + 1) : k)); f_c('\n');
    for (int i = 0; i < k; i++) { f_c('0' + (int) sx_int("r", !any, m + any)); f_c(' '); f_c('0' + (int) sx_int("c", !any, n + any)); if (sx_param(5)) { f_c(' '); f_c('5'); } f_c('\n'); }
    if (kind == 1) { size_t p = h0 + (size_t) sx_int("position", 0, sx_fl - h0 - 1); int q = (int) sx_int("byte", 0, 7); char c = 0; for (int w = 0; w < 8; w++) if (q == w) c = ALPHA[w]; for (size_t i = h0; i < sx_fl; i++) if (i == p) sx_fd[i] = c; }
    if (kind == 2) { sx_fl = (size_t) sx_int("length", 0, sx_fl); }
    if (kind == 4) sx_fx = false;
}
template<class M> static void wellShaped(M *ptr, M *ids, VX *val, int major, int minor, int z) {
    sx_assert(z >= 0 && major >= 0 && minor >= 0, "counts"); if (!z) return;
    sx_assert(ptr[0] == 0 && ptr[major] == z, "pointers cover the entries"); volatile double s = 0;
    for (int j = 0; j < major; j++) { sx_assert(ptr[j] <= ptr[j + 1], "pointers ascend"); for (int p = ptr[j]; p < ptr[j + 1]; p++) { sx_assert(ids[p] >= 0 && ids[p] < minor, "entry in range"); s = val[p]; } }
}
extern "C" void ascii_bad() {
    malformed(); std::string p = f_name(); uint64_t hm = sx_heap_mark();
    bool empty; // a matrix without columns keeps its one column pointer
    { CSC<IX, VX> A; int rc = ReadASCII(p, A); empty = A.cols == 0; if (rc == 1) { wellShaped(A.colptr, A.rowids, A.values, A.cols, A.rows, A.nnz); sx_cover("accepted"); } else { sx_assert(A.nnz == 0, "a refused file leaves the matrix empty"); sx_cover("refused"); } }
    if (!empty) sx_heap_check(hm, "no memory is retained"); f_done(p); sx_cover("end");
}
extern "C" void triples_bad() {
    malformed(); std::string p = f_name(); uint64_t hm = sx_heap_mark();
    IX m = 0, n = 0, z = 0, *r = nullptr, *c = nullptr; VX *v = nullptr; volatile double s = 0;
    int rc = ReadASCII_Triples(p, m, n, z, r, c, v, (bool) sx_param(6));
    if (rc == 1) { for (int i = 0; i < z; i++) { sx_assert(r[i] >= 0 && r[i] < m && c[i] >= 0 && c[i] < n, "entry in range"); s = v[i]; } delete[] r; delete[] c; delete[] v; sx_cover("accepted"); } else sx_cover("refused");
    sx_heap_check(hm, "no memory is retained"); f_done(p); sx_cover("end");
}
extern "C" void csr_bad() {
    malformed(); std::string p = f_name(); uint64_t hm = sx_heap_mark();
    bool empty;
    { CSR<IX, VX> A(p); empty = A.rows == 0; wellShaped(A.rowptr, A.colids, A.values, A.rows, A.cols, A.nnz); }
    if (!empty) sx_heap_check(hm, "no memory is retained"); f_done(p); sx_cover("end");
}
#endif
// binary: params rows, columns, entries, bytes cut off at most, indices may be out of range
extern "C" void binary() {
    int m = sx_param(0), n = sx_param(1), k = sx_param(2), any = sx_param(4); int good = 1; nex = 0;
    f_b<IX>(m); f_b<IX>(n); int nz = any ? k - 1 + (int) sx_int("nnz", 0, 2) : k; if (nz != k) good = 0; f_b<IX>(nz);
    int r[8], c[8], v[8];
    for (int i = 0; i < k; i++) { r[i] = (int) sx_int("r", 0, m - 1 + 2 * any) - any; c[i] = (int) sx_int("c", 0, n - 1 + 2 * any) - any; v[i] = (int) sx_int("v", 0, NV - 1); if (nz > i && (r[i] < 0 || r[i] >= m || c[i] < 0 || c[i] >= n)) good = 0; }
    for (int i = 0; i < k; i++) f_b<IX>(r[i]);
    for (int i = 0; i < k; i++) f_b<IX>(c[i]);
    for (int i = 0; i < k; i++) { double d = 0; for (int w = 0; w < NV; w++) if (v[i] == w) d = VV[w]; f_b<VX>(d); exq[nex++] = {r[i], c[i], d}; }
    if (sx_param(3)) { int cut = (int) sx_int("cut", 0, sx_param(3)); if (cut) good = 0; sx_fl -= cut; }
    std::string p = f_name(); uint64_t hm = sx_heap_mark();
    { CSC<IX, VX> A; int rc = ReadBinary(p, A);
      if (good) { sx_assert(rc == 1, "the file is accepted"); checkCSC(A, m, n); sx_cover("accepted"); }
      else if (rc != 1) sx_assert(A.nnz == 0, "a refused file leaves the matrix empty");
      else { for (int j = 0; j < (int) A.cols; j++) for (int q = A.colptr[j]; q < A.colptr[j + 1]; q++) sx_assert(A.rowids[q] >= 0 && A.rowids[q] < (int) A.rows, "entry in range"); } }
    sx_heap_check(hm, "no memory is retained");
    f_done(p); sx_cover("end");
}
extern "C" void ascii() {
    wellformed(sx_param(10)); std::string p = f_name();
    uint64_t hm = sx_heap_mark();
    { CSC<IX, VX> A; int rc = ReadASCII(p, A); sx_assert(rc == 1, "the file is accepted"); checkCSC(A, sx_param(0), sx_param(1)); }
    sx_heap_check(hm, "no memory is retained");
    f_done(p); sx_cover("end");
}
extern "C" void triples() {
    wellformed(sx_param(10)); std::string p = f_name(); bool rd = sx_param(11);
    IX m = -1, n = -1, z = -1, *r, *c; VX *v; uint64_t hm = sx_heap_mark();
    int rc = ReadASCII_Triples(p, m, n, z, r, c, v, rd);
    sx_assert(rc == 1, "the file is accepted"); sx_assert(m == (int) sx_param(0) && n == (int) sx_param(1), "declared dimensions");
    if (rd) for (int i = 0; i < nex; i++) if (exq[i].r == exq[i].c) exq[i].v = -99.0;
    compare(m, n, z, [&](int i) { return Ent3{r[i], c[i], v[i]}; });
    delete[] r; delete[] c; delete[] v; sx_heap_check(hm, "no memory is retained");
    f_done(p); sx_cover("end");
}
extern "C" void csr() {
    wellformed(sx_param(10)); std::string p = f_name(); int m = sx_param(0), n = sx_param(1);
    uint64_t hm = sx_heap_mark();
    { CSR<IX, VX> A(p); sx_assert((int) A.rows == m && (int) A.cols == n, "declared dimensions");
      Ent3 g[160]; int k = 0; for (int j = 0; j < m; j++) for (int q = A.rowptr[j]; q < A.rowptr[j + 1]; q++) { g[k++] = {j, (int) A.colids[q], A.values[q]}; }
      sx_assert(k == (int) A.nnz, "entries are in rows"); compare(m, n, k, [&](int i) { return g[i]; }); }
    sx_heap_check(hm, "no memory is retained");
    f_done(p); sx_cover("end");
}
