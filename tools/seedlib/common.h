// Shared by the demonstrations: small matrices, a reference product, and a comparison.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <functional>
#include <algorithm>
#include <numeric>
#include <vector>
#include <random>
#include <tuple>
#include <map>
#include <omp.h>
#include <unistd.h>
using namespace std;
#include "CSR.h"
#include "CSC.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "spgemm-blocks/masked-spgemm-inner.h"
#include "spgemm-blocks/inner/MaskedInnerSpGEMM.h"
#include "spgemm-blocks/masked-spgemm-poly.h"
typedef int32_t IT;
typedef double NT;
struct Sp { int r, c; vector<vector<pair<int, double>>> row; };
static Sp randSp(mt19937 &g, int r, int c, double dens) {
    Sp s{r, c, vector<vector<pair<int, double>>>(r)};
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (g() % 10000 < dens * 10000) s.row[i].push_back({j, 1 + g() % 7});
    return s;
}
static void toCSR(const Sp &s, CSR<IT, NT> &m) {
    m.make_empty();
    size_t n = 0; for (auto &x : s.row) n += x.size();
    m.rows = s.r; m.cols = s.c; m.nnz = n; m.zerobased = true;
    m.rowptr = my_malloc<IT>(s.r + 1); m.colids = my_malloc<IT>(n); m.values = my_malloc<NT>(n);
    IT p = 0; for (int i = 0; i < s.r; i++) { m.rowptr[i] = p; for (auto &e : s.row[i]) { m.colids[p] = e.first; m.values[p++] = e.second; } }
    m.rowptr[s.r] = p;
}
static Sp transp(const Sp &s) { Sp t{s.c, s.r, vector<vector<pair<int, double>>>(s.c)}; for (int i = 0; i < s.r; i++) for (auto &e : s.row[i]) t.row[e.first].push_back({i, e.second}); return t; }
static void toCSC(const Sp &s, CSC<IT, NT> &m) {
    Sp t = transp(s);
    m.make_empty();
    size_t n = 0; for (auto &x : t.row) n += x.size();
    m.rows = s.r; m.cols = s.c; m.nnz = n;
    m.colptr = my_malloc<IT>(s.c + 1); m.rowids = my_malloc<IT>(n); m.values = my_malloc<NT>(n);
    IT p = 0; for (int i = 0; i < t.r; i++) { m.colptr[i] = p; for (auto &e : t.row[i]) { m.rowids[p] = e.first; m.values[p++] = e.second; } }
    m.colptr[s.c] = p;
}
static Sp fromCSR(const CSR<IT, NT> &m) {
    Sp s{m.rows, m.cols, vector<vector<pair<int, double>>>(m.rows)};
    for (int i = 0; i < m.rows; i++) for (IT k = m.rowptr[i]; k < m.rowptr[i + 1]; k++) s.row[i].push_back({m.colids[k], m.values[k]});
    return s;
}
enum { PLAIN, COMPL, NOMASK };
static Sp refMul(const Sp &a, const Sp &b, const Sp &m, int mode) {
    Sp c{a.r, b.c, vector<vector<pair<int, double>>>(a.r)};
    for (int i = 0; i < a.r; i++) {
        map<int, double> acc; vector<char> in(b.c, 0);
        if (mode != NOMASK) for (auto &e : m.row[i]) in[e.first] = 1;
        for (auto &e : a.row[i]) for (auto &f : b.row[e.first]) if (mode == NOMASK || (mode == PLAIN) == (bool)in[f.first]) acc[f.first] += e.second * f.second;
        for (auto &x : acc) c.row[i].push_back(x);
    }
    return c;
}
// sorted: columns must come in ascending order; otherwise any order
static bool same(Sp got, const Sp &want, bool sorted) {
    if (got.r != want.r || got.c != want.c) return false;
    for (int i = 0; i < got.r; i++) { if (!sorted) sort(got.row[i].begin(), got.row[i].end()); if (got.row[i] != want.row[i]) return false; }
    return true;
}
static int fail(const char *what, long seed) { printf("FAIL: %s (case %ld)\n", what, seed); return 1; }
