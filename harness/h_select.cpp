#include "mat.h"
// intersection. params: rows, cols, threads
struct Pick { u64 operator()(u64 a, u64 b) const { return a << 32 | b; } }; // the order of the operands matters
extern "C" void intersect_csr() {
    sx_threads(sx_param(2)); Pat P, Q; symPat(P, sx_param(0), sx_param(1), "P"); symPat(Q, sx_param(0), sx_param(1), "Q"); CSR<int, u64> a, b; buildCSR(a, P, 0); buildCSR(b, Q, 1); u64 hm = sx_heap_mark();
    {
        CSR<int, u64> c = Intersect(a, b, Pick()); int n = 0;
        sx_assert(c.rows == P.r && c.cols == P.c && c.rowptr[0] == 0 && c.zerobased, "dimensions");
        for (int i = 0; i < P.r; i++) {
            for (int j = 0; j < P.c; j++) if (P.b[i][j] & Q.b[i][j]) { sx_assert(n < c.nnz && c.colids[n] == j && c.values[n] == Pick()(tagA(i, j), tagB(i, j)), "common entries are combined, in order"); n++; }
            sx_assert(c.rowptr[i + 1] == n, "row pointers count the common entries");
        }
        sx_assert(c.nnz == n, "nothing else is returned");
    }
    sx_heap_check(hm, "intersection retains no memory"); checkUnchanged(a, P, 0, "left operand unchanged"); checkUnchanged(b, Q, 1, "right operand unchanged"); sx_cover("end");
}
extern "C" void intersect_dim() { Pat P, Q; symPat(P, sx_param(0), sx_param(1), "P"); symPat(Q, sx_param(2), sx_param(3), "Q"); CSR<int, u64> a, b; buildCSR(a, P, 0); buildCSR(b, Q, 1); CSR<int, u64> c = Intersect(a, b, Pick()); sx_assert(c.nnz == 0 && c.rows == 0, "operands of different shape intersect to nothing"); sx_cover("end"); }
extern "C" void sum_all() {
    sx_threads(sx_param(2)); Pat P; symPat(P, sx_param(0), sx_param(1), "P"); CSR<int, u64> a; buildCSR(a, P, 0); u64 w = 0;
    for (int i = 0; i < P.r; i++) for (int j = 0; j < P.c; j++) w += P.b[i][j] ? (1ull << 40 << (i * P.c + j)) + 1 : 0;
    int n = 0; for (int i = 0; i < P.r; i++) for (int j = 0; j < P.c; j++) if (P.b[i][j]) a.values[n++] = (1ull << 40 << (i * P.c + j)) + 1;
    sx_check_eq(a.sumall(), w, "the sum of all stored values"); sx_assert(a.isEmpty() == (n == 0), "emptiness"); sx_cover("end");
}
// selection of rows and columns. params: rows, cols, number of selected rows, of selected columns, repeats allowed
static int ri[6], ci[6], nr, nc; static Pat P; static CSC<int, u64> *A;
static void setup(bool rep) {
    symPat(P, sx_param(0), sx_param(1), "P"); nr = (int) sx_int("selected rows", 0, sx_param(2)); nc = (int) sx_int("selected cols", 0, sx_param(3));
    for (int t = 0; t < (int) sx_param(2); t++) { ri[t] = (int) sx_int("row", 0, P.r - 1); if (t) sx_assume(t >= nr || (rep ? ri[t - 1] <= ri[t] : ri[t - 1] < ri[t])); }
    for (int t = 0; t < (int) sx_param(3); t++) { ci[t] = (int) sx_int("col", 0, P.c - 1); if (t) sx_assume(t >= nc || (rep ? ci[t - 1] <= ci[t] : ci[t - 1] < ci[t])); }
}
static void check(CSC<int, u64> &m, CSC<int, u64> &a) {
    sx_assert(m.rows == nr && m.cols == nc, "one row and column per selected index"); sx_assert(nc == 0 || m.colptr[0] == 0, "pointers start at zero"); int n = 0;
    for (int j = 0; j < nc; j++) {
        for (int i = 0; i < nr; i++) if (P.b[ri[i]][ci[j]]) { sx_assert(n < m.nnz && m.rowids[n] == i && m.values[n] == tagA(ri[i], ci[j]), "selected entries, renumbered, in order"); n++; }
        sx_assert(m.colptr[j + 1] == n, "column pointers count the selected entries");
    }
    sx_assert(m.nnz == n, "nothing else is returned"); checkUnchanged(a, P, 0, "source is unchanged"); sx_cover("end");
}
extern "C" void spref() { setup(sx_param(4)); CSC<int, u64> a; buildCSC(a, P, 0); std::vector<int> r(ri, ri + nr), c(ci, ci + nc); CSC<int, u64> m = a.SpRef(r, c); check(m, a); }
extern "C" void spref1() { setup(sx_param(4)); CSC<int, u64> a; buildCSC(a, P, 0); std::vector<int> r(ri, ri + nr), c(ci, ci + nc); CSC<int, u64> m = a.SpRef1(r, c); check(m, a); }
extern "C" void spref2() { setup(false); sx_assume(nc > 0); // a matrix without columns never releases its column pointer (C06 covers products only)
    CSC<int, u64> a; buildCSC(a, P, 0); u64 hm = sx_heap_mark(); { CSC<int, u64> m = a.SpRef2(ri, nr, ci, nc); check(m, a); } sx_heap_check(hm, "selection retains no memory"); }
// merge of one column with a sorted list. params: rows, list length
extern "C" void intersect_col() {
    symPat(P, sx_param(0), 1, "P"); nr = (int) sx_int("listed", 0, sx_param(1)); for (int t = 0; t < (int) sx_param(1); t++) { ri[t] = (int) sx_int("row", 0, P.r - 1); if (t) sx_assume(t >= nr || ri[t - 1] < ri[t]); }
    CSC<int, u64> a; buildCSC(a, P, 0); int *ro = (int *) malloc(4 * a.nnz); u64 *vo = (u64 *) malloc(8 * a.nnz); int len = -1, n = 0;
    a.intersect(a.rowids, a.values, a.nnz, ri, nr, ro, vo, &len);
    for (int i = 0; i < P.r; i++) { int in = 0; for (int t = 0; t < (int) sx_param(1); t++) in |= t < nr & ri[t] == i; if (P.b[i][0] & in) { sx_assert(n < len && ro[n] == i && vo[n] == tagA(i, 0), "listed entries are kept, in order"); n++; } }
    sx_assert(len == n, "nothing else is returned"); free(ro); free(vo); sx_cover("end");
}
