#include "mat.h"
#include <tuple>
// constructors from entry lists. params: rows, cols, largest number of entries, threads, smallest number of entries
static const int MAXT = 8;
static int R, Cc, N; static int row_[MAXT], col_[MAXT]; static u64 val_[MAXT];
static void symEntries() {
    R = sx_param(0); Cc = sx_param(1); int mx = sx_param(2); sx_threads(sx_param(3)); N = (int) sx_int("entries", sx_param(4), mx);
    for (int t = 0; t < mx; t++) { row_[t] = (int) sx_int("row", 0, R - 1); col_[t] = (int) sx_int("col", 0, Cc - 1); val_[t] = 1ull << t; }
}
static u64 sumAt(int r, int c) { u64 s = 0; for (int t = 0; t < (int) sx_param(2); t++) s += (u64) (t < N & row_[t] == r & col_[t] == c) << t; return s; }
static u64 cntAt(int r, int c) { u64 s = 0; for (int t = 0; t < (int) sx_param(2); t++) s += (t < N & row_[t] == r & col_[t] == c); return s; }
// one compressed dimension: ptr over outer, ids are inner. merged: duplicates must be combined; ones: every value is 1
template<class IT> static void check(int outer, int inner, IT *ptr, IT *ids, u64 *vals, IT nnz, bool csc, bool merged, bool ones, bool sorted) {
    sx_assert(ptr[0] == 0, "pointers start at zero"); IT total = 0;
    for (int o = 0; o < outer; o++) {
        IT s = ptr[o], e = ptr[o + 1]; sx_assert(s == total && s <= e && e <= nnz, "extents are valid");
        u64 sum[8] = {0}, cnt[8] = {0};
        for (IT q = s; q < e; q++) {
            IT i = ids[q]; sx_assert(i >= 0 && i < (IT) inner, "index in range");
            sum[i] += vals[q]; cnt[i]++;
            if (sorted && q > s) sx_assert(merged ? ids[q - 1] < ids[q] : ids[q - 1] <= ids[q], "indices are ascending");
        }
        for (int i = 0; i < inner; i++) {
            u64 c = csc ? cntAt(i, o) : cntAt(o, i), w = csc ? sumAt(i, o) : sumAt(o, i);
            sx_check_eq(cnt[i], merged ? c != 0 : c, "exactly the listed entries are stored");
            sx_check_eq(sum[i], ones ? cnt[i] : w, "values belong to their entries");
        }
        total = e;
    }
    sx_assert(nnz == total, "nnz equals the last pointer"); sx_cover("end");
}
template<class IT> static void checkCSC(CSC<IT, u64> &m, bool merged, bool ones = false) { sx_assert(m.rows == (IT) R && m.cols == (IT) Cc, "dimensions"); check<IT>(Cc, R, m.colptr, m.rowids, m.values, m.nnz, true, merged, ones, true); }
extern "C" void csc_triples() {
    symEntries(); auto *t = (Triple<int, u64> *) malloc(sizeof(Triple<int, u64>) * N);
    for (int k = 0; k < N; k++) t[k] = Triple<int, u64>(row_[k], col_[k], val_[k]);
    { CSC<int, u64> m(t, N, R, Cc); checkCSC(m, false); } free(t);
}
extern "C" void csc_pairs() {
    symEntries(); std::vector<std::pair<int64_t, int64_t>> v; v.reserve(MAXT);
    for (int k = 0; k < N; k++) v.push_back({row_[k], col_[k]});
    CSC<int, u64> m(v, N, R, Cc); checkCSC(m, false, true);
}
extern "C" void csc_tuples() {
    symEntries(); std::vector<std::tuple<int, int, u64>> v; v.reserve(MAXT);
    for (int k = 0; k < N; k++) v.push_back({row_[k], col_[k], val_[k]});
    CSC<int, u64> m(v, R, Cc, std::plus<u64>()); checkCSC(m, false);
}
extern "C" void csc_arrays() {
    symEntries(); int *r = (int *) malloc(4 * N), *c = (int *) malloc(4 * N); u64 *v = (u64 *) malloc(8 * N);
    for (int k = 0; k < N; k++) { r[k] = row_[k]; c[k] = col_[k]; v[k] = val_[k]; }
    { CSC<int, u64> m(r, c, v, N, R, Cc); checkCSC(m, false); } free(r); free(c); free(v);
}
static graph symGraph() { // edges sorted by start, duplicates possible
    R = Cc = sx_param(0); int mx = sx_param(2); sx_threads(sx_param(3)); N = (int) sx_int("entries", sx_param(4), mx);
    graph G; G.n = R; G.m = N; G.start = (long *) malloc(sizeof(long) * N); G.end = (long *) malloc(sizeof(long) * N); G.w = (long *) malloc(sizeof(long) * N);
    for (int t = 0; t < mx; t++) {
        row_[t] = (int) sx_int("start", 0, R - 1); col_[t] = (int) sx_int("end", 0, R - 1); val_[t] = 1ull << t;
        if (t) sx_assume(row_[t] >= row_[t - 1]);
        if (t < N) { G.start[t] = row_[t]; G.end[t] = col_[t]; G.w[t] = val_[t]; }
    }
    return G;
}
extern "C" void csc_graph() { graph G = symGraph(); { CSC<int, u64> m(G); checkCSC(m, true); } free(G.start); free(G.end); free(G.w); }
extern "C" void csr_graph() { graph G = symGraph(); { CSR<int, u64> m(G); sx_assert(m.rows == R && m.cols == Cc && m.zerobased, "dimensions"); check<int>(R, Cc, m.rowptr, m.colids, m.values, m.nnz, false, true, false, true); } free(G.start); free(G.end); free(G.w); }
// MergeDuplicates of a matrix with duplicates
extern "C" void merge_dups() {
    symEntries(); std::vector<std::tuple<int, int, u64>> v; v.reserve(MAXT);
    for (int k = 0; k < N; k++) v.push_back({row_[k], col_[k], val_[k]});
    CSC<int, u64> m(v, R, Cc, std::plus<u64>()); m.MergeDuplicates(std::plus<u64>()); checkCSC(m, true);
}
