#include "sx_grb.h"
// the file reader is replaced by the list of entries it delivers (C24 is about the reader)
template<class IT, class NT> static int grb_file(IT &nr, IT &nc, IT &n, IT *&r, IT *&c, NT *&v, bool diag, bool rnd);
#define ReadASCII_Triples(f, nr, nc, n, r, c, v, d, x) grb_file(nr, nc, n, r, c, v, d, x)
#include "CSR.h"
#include "CSC.h"
typedef uint64_t u64; typedef GrB_Index IT;
// params: 0 rows, 1 columns, 2.. per entry
static int R, C_; static unsigned char pat[GBD][GBD]; static u64 all;
static u64 val(int i, int j) { return all ? 7 : 100 + 10 * i + j; }
static void setup() { R = sx_param(0); C_ = sx_param(1); u64 b = R * C_ ? sx_bv("P", R * C_) : 0; for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) pat[i][j] = b >> (i * C_ + j) & 1; }
static int count() { int n = 0; for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) n += pat[i][j]; return n; }
static GrB_Matrix make(GrB_Type t) { GrB_Matrix a; GrB_Matrix_new(&a, t, R, C_); for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) if (pat[i][j]) { a->has[i][j] = 1; a->val[i][j] = val(i, j); } a->iso = all && count() > 0; return a; }
static void same(GrB_Matrix a, const char *what) { sx_assert(a != nullptr && a->m == (u64) R && a->n == (u64) C_, "dimensions"); for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) { sx_check_eq(a->has[i][j], pat[i][j], what); if (pat[i][j]) sx_check_eq(a->val[i][j], val(i, j), what); } }
template<class M, class NT> static void arrays(const M &m, const IT *ptr, const IT *ids, const NT *v, bool tr, u64 base = 0) {
    sx_assert(m.rows == (IT) R && m.cols == (IT) C_ && m.nnz == (IT) count(), "dimensions and number of entries"); IT n = 0; int o_ = tr ? C_ : R, i_ = tr ? R : C_;
    if (o_) sx_assert(ptr[0] == base, "pointers start at the base");
    for (int o = 0; o < o_; o++) { for (int i = 0; i < i_; i++) { int r = tr ? i : o, c = tr ? o : i; if (pat[r][c]) { sx_assert(ids[n] == i + base && v[n] == (NT) val(r, c), "every entry, in order"); n++; } } sx_assert(ptr[o + 1] == n + base, "pointers count the entries"); }
}
template<class NT> static CSR<IT, NT> *csr() { auto m = new CSR<IT, NT>; m->rows = R; m->cols = C_; m->zerobased = true; m->nnz = count(); m->rowptr = (IT *) malloc(8 * (R + 1)); m->colids = (IT *) malloc(8 * m->nnz); m->values = (NT *) malloc(sizeof(NT) * m->nnz); IT n = 0; m->rowptr[0] = 0; for (int i = 0; i < R; i++) { for (int j = 0; j < C_; j++) if (pat[i][j]) { m->colids[n] = j; m->values[n++] = (NT) val(i, j); } m->rowptr[i + 1] = n; } return m; }
template<class NT> static CSC<IT, NT> *csc() { auto m = new CSC<IT, NT>; m->rows = R; m->cols = C_; m->nnz = count(); m->colptr = (IT *) malloc(8 * (C_ + 1)); m->rowids = (IT *) malloc(8 * m->nnz); m->values = (NT *) malloc(sizeof(NT) * m->nnz); IT n = 0; m->colptr[0] = 0; for (int j = 0; j < C_; j++) { for (int i = 0; i < R; i++) if (pat[i][j]) { m->rowids[n] = i; m->values[n++] = (NT) val(i, j); } m->colptr[j + 1] = n; } return m; }
// taking a matrix over and giving it back
template<class NT> static void csr_there_and_back_t(GrB_Type t) { setup(); u64 mark = sx_heap_mark(); GrB_Matrix a = make(t); { CSR<IT, NT> m(a); arrays(m, m.rowptr, m.colids, m.values, false); sx_assert(m.zerobased && gb_nv(a) == 0, "the entries have moved"); m.get_grb_mat(a); same(a, "entries are given back"); } same(a, "entries stay"); GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
extern "C" void csr_there_and_back() { csr_there_and_back_t<u64>(GrB_UINT64); }
extern "C" void csr_there_and_back_u32() { csr_there_and_back_t<uint32_t>(GrB_UINT32); }
extern "C" void csr_there_and_back_i32() { csr_there_and_back_t<int32_t>(GrB_INT32); }
template<class NT> static void csr_only_t(GrB_Type t) { setup(); u64 mark = sx_heap_mark(); GrB_Matrix a = make(t); { CSR<IT, NT> m(a), k(m); arrays(k, k.rowptr, k.colids, k.values, false); } sx_assert(gb_nv(a) == 0, "the entries have moved"); GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
extern "C" void csr_only() { csr_only_t<u64>(GrB_UINT64); }
extern "C" void csr_only_u32() { csr_only_t<uint32_t>(GrB_UINT32); }
extern "C" void csr_only_i32() { csr_only_t<int32_t>(GrB_INT32); }
template<class NT> static void csc_there_and_back_t(GrB_Type t) { setup(); u64 mark = sx_heap_mark(); all = sx_param(2) & 1; GrB_Matrix a = make(t); a->csc = true; a->jumbled = sx_param(2) >> 1 & 1; { CSC<IT, NT> m(a); arrays(m, m.colptr, m.rowids, m.values, true); sx_assert(gb_nv(a) == 0, "the entries have moved"); m.get_grb_mat(a); same(a, "entries are given back"); } same(a, "entries stay"); GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
extern "C" void csc_there_and_back() { csc_there_and_back_t<u64>(GrB_UINT64); }
extern "C" void csc_there_and_back_u32() { csc_there_and_back_t<uint32_t>(GrB_UINT32); }
extern "C" void csc_there_and_back_i32() { csc_there_and_back_t<int32_t>(GrB_INT32); }
// a copy, or the matrix itself; equal values (iso) included
template<class NT> static void from_ptr(GrB_Type t) {
    setup(); u64 mark = sx_heap_mark(); bool dup = sx_param(2) & 1; all = sx_param(2) >> 1 & 1; GrB_Matrix a = make(t);
    { CSR<IT, NT> m(&a, dup); arrays(m, m.rowptr, m.colids, m.values, false); sx_assert(m.zerobased, "zero based"); if (dup) same(a, "the original keeps its entries"); else sx_assert(a == nullptr, "the handle of a matrix that was taken over is reset"); }
    if (dup) same(a, "the original keeps its entries"); GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end");
}
extern "C" void ptr_u64() { from_ptr<u64>(GrB_UINT64); }
extern "C" void ptr_u32() { from_ptr<uint32_t>(GrB_UINT32); }
extern "C" void ptr_i64() { from_ptr<int64_t>(GrB_INT64); }
// a new matrix out of the arrays, replacing an existing one; one-based numbering included. param 2: bit 0 existing matrix, bit 1 one-based
template<class NT> static void to_ptr(GrB_Type t) {
    setup(); u64 mark = sx_heap_mark(); auto m = csr<NT>(); GrB_Matrix a = nullptr; if (sx_param(2) & 1) { GrB_Matrix_new(&a, t, C_, R); a->has[0][0] = 1; a->val[0][0] = 3; } int base = sx_param(2) >> 1 & 1; if (base) m->ConvertOneBased();
    m->get_grb_mat(&a); same(a, "every entry arrives"); sx_assert(a->type == t, "the type of the values"); arrays(*m, m->rowptr, m->colids, m->values, false, base); GrB_Matrix_free(&a); delete m; if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end");
}
extern "C" void build_u64() { to_ptr<u64>(GrB_UINT64); }
extern "C" void build_i32() { to_ptr<int32_t>(GrB_INT32); }
extern "C" void build_u32() { to_ptr<uint32_t>(GrB_UINT32); }
extern "C" void build_i64() { to_ptr<int64_t>(GrB_INT64); }
// the arrays themselves become the matrix
template<class NT> static void move_ptr(GrB_Type t) { setup(); u64 mark = sx_heap_mark(); auto m = csr<NT>(); GrB_Matrix a = nullptr; m->get_grb_mat_ptr(&a); same(a, "every entry arrives"); sx_assert(a->type == t, "the type of the values"); sx_assert(!m->rowptr && !m->colids && !m->values, "the arrays have moved"); delete m; same(a, "entries stay"); GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
extern "C" void move_u64() { move_ptr<u64>(GrB_UINT64); }
extern "C" void move_u32() { move_ptr<uint32_t>(GrB_UINT32); }
extern "C" void move_i32() { move_ptr<int32_t>(GrB_INT32); }
template<class NT> static void pack_t(GrB_Type t) { setup(); u64 mark = sx_heap_mark(); auto m = csr<NT>(); auto c = csc<NT>(); GrB_Matrix a, b; GrB_Matrix_new(&a, t, R, C_); GrB_Matrix_new(&b, t, R, C_); a->has[0][0] = 1; m->get_grb_mat(a); c->get_grb_mat(b); same(a, "every entry arrives"); same(b, "every entry arrives"); delete m; delete c; GrB_Matrix_free(&a); GrB_Matrix_free(&b); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
extern "C" void pack() { pack_t<u64>(GrB_UINT64); }
extern "C" void pack_u32() { pack_t<uint32_t>(GrB_UINT32); }
extern "C" void pack_i32() { pack_t<int32_t>(GrB_INT32); }
// setting an entry so that the matrix can be exported although all values are equal
extern "C" void noniso() { setup(); u64 mark = sx_heap_mark(); all = sx_param(2); GrB_Matrix a = make(GrB_UINT64); int i = (int) sx_int("i", 0, R - 1), j = (int) sx_int("j", 0, C_ - 1); avoid_iso<u64>(a, 7, i, j); sx_assert(a->has[i][j] && a->val[i][j] == 7, "the entry is set"); a->val[i][j] = val(i, j); pat[i][j] = 1; { CSR<IT, u64> m(a); arrays(m, m.rowptr, m.colids, m.values, false); } GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
template<class NT> static void tri(GrB_Type t) { setup(); u64 mark = sx_heap_mark(); GrB_Matrix a = make(t), l = nullptr; get_lowtri<NT>(a, &l); same(a, "the operand is unchanged"); for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) if (j >= i) pat[i][j] = 0; same(l, "the strictly lower triangle"); sx_assert(l->type == t, "the type of the values"); GrB_Matrix_free(&a); GrB_Matrix_free(&l); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
extern "C" void lowtri_u64() { tri<u64>(GrB_UINT64); }
extern "C" void lowtri_i64() { tri<int64_t>(GrB_INT64); }
extern "C" void bycol() { setup(); u64 mark = sx_heap_mark(); all = sx_param(2); gb_format = sx_param(3) ? GxB_BY_COL : GxB_BY_ROW; GxB_Format_Value f = gb_format; GrB_Matrix a = make(GrB_UINT64), c = nullptr; convert_to_csc<u64>(a, &c); same(a, "the operand is unchanged"); same(c, "every entry arrives"); sx_assert(c->csc && gb_format == f, "stored by columns, and later matrices as before"); GrB_Matrix_free(&a); GrB_Matrix_free(&c); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end"); }
// vertices renamed so that degrees do not increase; values name the original position
extern "C" void degrees() {
    setup(); u64 mark = sx_heap_mark(); GrB_Matrix a = make(GrB_UINT64); int deg[GBD], to[GBD]; for (int i = 0; i < R; i++) { to[i] = -1; deg[i] = 0; for (int j = 0; j < C_; j++) deg[i] += pat[i][j]; }
    sort_by_degree<u64>(&a); sx_assert(a->m == (u64) R && a->n == (u64) R && gb_nv(a) == (u64) count(), "as many entries as before"); int last = R;
    for (int i = 0; i < R; i++) { int d = 0; for (int j = 0; j < R; j++) if (a->has[i][j]) { d++; u64 x = a->val[i][j] - 100; int p = (int) (x / 10), q = (int) (x % 10); sx_assert(x < 100 && p < R && q < R && pat[p][q], "an entry of the original"); pat[p][q] = 0;
        sx_assert((to[p] < 0 || to[p] == i) && (p == q ? i == j : true), "one new name per vertex"); to[p] = i; sx_assert(to[q] < 0 || to[q] == j, "the same name in rows and columns"); to[q] = j; } sx_assert(d <= last, "degrees do not increase"); last = d; }
    for (int i = 0; i < R; i++) for (int j = 0; j < i; j++) sx_assert(to[i] < 0 || to[i] != to[j], "different names for different vertices"); GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end");
}
// reading: entries in any order, duplicates keep the smaller value, diagonal removed and transpose added on request. params: entries, symmetric
static int F, fr[8], fc[8]; static bool wantDiag, wantRand;
template<class T, class NT> static int grb_file(T &nr, T &nc, T &n, T *&r, T *&c, NT *&v, bool diag, bool rnd) { sx_assert(diag == wantDiag && rnd == wantRand, "options reach the reader"); nr = R; nc = C_; n = F; r = new T[F]; c = new T[F]; v = new NT[F]; for (int q = 0; q < F; q++) { r[q] = fr[q]; c[q] = fc[q]; v[q] = 10 + q; } return 0; }
template<class NT> static void rd(GrB_Type t) {
    R = sx_param(0); C_ = sx_param(1); F = sx_param(2); bool sym = sx_param(3); wantDiag = sx_int("diag", 0, 1); wantRand = sx_int("rand", 0, 1); for (int q = 0; q < F; q++) { fr[q] = (int) sx_int("r", 0, R - 1); fc[q] = (int) sx_int("c", 0, C_ - 1); }
    u64 mark = sx_heap_mark(); GrB_Matrix a = nullptr; char nm[2] = "f"; read_grb_mtx<NT>(&a, nm, wantDiag, sym, wantRand); sx_assert(a && a->m == (u64) R && a->n == (u64) C_ && a->type == t, "dimensions");
    u64 w[GBD][GBD] = {}; for (int q = F - 1; q >= 0; q--) w[fr[q]][fc[q]] = 10 + q;
    for (int i = 0; i < R; i++) for (int j = 0; j < C_; j++) { u64 x = w[i][j] + (sym ? w[j][i] : 0); sx_check_eq(a->has[i][j], x != 0, "every listed entry"); sx_check_eq(a->has[i][j] ? a->val[i][j] : 0, x, "its value"); }
    GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained"); sx_cover("end");
}
extern "C" void read_u64() { rd<u64>(GrB_UINT64); }
extern "C" void read_i64() { rd<int64_t>(GrB_INT64); }
extern "C" void read_i32() { rd<int32_t>(GrB_INT32); }
// each type's objects, and entries there and back through every typed call
template<class NT> static void typed(GrB_Type t, int k) {
    u64 mark = sx_heap_mark(); GrB_Matrix a = nullptr; IT r[3] = {2, 0, 2}, c[3] = {1, 2, 1}, p[3] = {9, 9, 9}, q[3] = {9, 9, 9}, n = 3; NT v[3] = {(NT) 40, (NT) 5, (NT) 30}, w[3] = {};
    GrbMatrixBuild<NT>()(&a, r, c, v, 3, 4, 3); sx_assert(a->type == t && a->m == 3 && a->n == 4, "type and dimensions"); GrbMatrixExtractTuples<NT>()(p, q, w, &n, a); sx_assert(n == 2 && p[0] == 0 && q[0] == 2 && w[0] == (NT) 5 && p[1] == 2 && q[1] == 1 && w[1] == (NT) 30, "entries there and back, the smaller of two");
    sx_assert(GrbAlgObj<NT>().get_type() == t, "type object"); GrB_Matrix_free(&a); if (R && C_) sx_heap_check(mark, "memory retained");
    GrbAlgObj<NT> g; sx_assert(g.get_sr_plus_times()->add == 1 && g.get_sr_plus_times()->mul == 2 && g.get_sr_plus_times()->type == k, "sum of products"); sx_assert(g.get_sr_plus_second()->add == 1 && g.get_sr_plus_second()->mul == 5 && g.get_sr_plus_second()->type == k, "sum of second operands"); sx_assert(g.get_monoid_plus()->op == 1 && g.get_monoid_plus()->type == k, "sum"); sx_assert(g.get_binary_plus()->op == 1 && g.get_binary_plus()->type == k, "addition");
}
template<class NT> static void ints(int k) { GrbAlgObj<NT> g; sx_assert(g.get_sr_plus_land()->mul == 3 && g.get_sr_plus_land()->add == 1 && g.get_sr_plus_land()->type == k, "count of common entries"); sx_assert(g.get_unary_set_one()->op == 0 && g.get_unary_set_one()->type == k, "one"); }
extern "C" void types() {
    typed<u64>(GrB_UINT64, 0); typed<int64_t>(GrB_INT64, 1); typed<uint32_t>(GrB_UINT32, 2); typed<int32_t>(GrB_INT32, 3); typed<float>(GrB_FP32, 4); typed<double>(GrB_FP64, 5); ints<u64>(0); ints<int64_t>(1); ints<uint32_t>(2); ints<int32_t>(3);
    sx_assert(GrbAlgObj<u64>().get_sr_plus_pair()->mul == 4 && GrbAlgObj<u64>().get_sr_plus_pair()->type == 0 && GrbAlgObj<int64_t>().get_sr_plus_pair()->mul == 4 && GrbAlgObj<int64_t>().get_sr_plus_pair()->type == 1 && GrbAlgObj<float>().get_binary_times()->op == 2 && GrbAlgObj<float>().get_binary_times()->type == 4 && GrbAlgObj<double>().get_binary_times()->op == 2 && GrbAlgObj<double>().get_binary_times()->type == 5, "counting and product");
    GrB_Matrix a; R = 2; C_ = 3; u64 b = sx_bv("P", 6), s = 0, c = 5; for (int i = 0; i < 6; i++) { pat[i / 3][i % 3] = b >> i & 1; if (b >> i & 1) s += val(i / 3, i % 3); } a = make(GrB_UINT64); GrbMatrixReduce<u64>()(&c, GrB_PLUS_MONOID_UINT64, a, nullptr); sx_check_eq(c, s, "sum of all values"); GrB_Matrix_free(&a); sx_cover("end");
}
