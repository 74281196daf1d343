HI = '''                if (comp_.lt(*cursor2, *cursor1)) {
                    *(dest--)'''
BUGS = [
dict(id='b22-probe-step', property='C07', needs='a mask row in which two columns hash to the same place and the first of them is taken out while the second is still wanted',
  breaks='lookups probe with a stride of three, but taking an entry out closes the gap with a stride of one, so entries behind it are lost',
  edits=[('spgemm-blocks/hash/HashAccumulator.h', 'while (_table[hv].key != EMPTY && _table[hv].key != key) { hv = (hv + 1) & _mask; }', 'while (_table[hv].key != EMPTY && _table[hv].key != key) { hv = (hv + 3) & _mask; }'),
         ('spgemm-blocks/hash/HashAccumulator.h', 'while (_table[hv].key != key) { hv = (hv + 1) & _mask; }', 'while (_table[hv].key != key) { hv = (hv + 3) & _mask; }')],
  demo='''#include "common.h"
int main() {
    for (long seed = 0; seed < 2000; seed++) {
        mt19937 g(seed); HashAccumulator<int, void, void> h(16); vector<unsigned char> mem(1 << 16, 0xFF); h.setBuffer((std::byte *) mem.data(), mem.size(), 0); h.resize(12); h.init();
        vector<int> in; for (int k = 0; k < 12; k++) { int c = g() % 200; if (h.insert<false>(c)) in.push_back(c); }
        for (int k = 0; k < 20 && !in.empty(); k++) {
            int p = g() % in.size(); if (!h.erase(in[p])) return fail("an inserted column is not found", seed); in.erase(in.begin() + p);
            for (int c : in) if (h.find(c) == h.NOT_FOUND) return fail("a column is lost", seed);
        }
    }
    return 0;
}
'''),
dict(id='b25-radix-skip', property='C20', needs='radix sorting of 32-bit keys in which every value of the upper half occurs an even number of times',
  breaks='the passes over the upper bytes are skipped although the keys differ there',
  edits=[('radix_sort/radix_sort.hpp', '''            ++counts2[(key >> 16) & 0xff];
            ++counts3[(key >> 24) & 0xff];
        }
        count_type total0 = 0;
        count_type total1 = 0;
        count_type total2 = 0;
        count_type total3 = 0;
        for''', '''            ++counts2[(key >> 16) & 0xff];
            ++counts3[(key >> 24) & 0xff];
            upper ^= key >> 16;
        }
        count_type total0 = 0;
        count_type total1 = 0;
        count_type total2 = 0;
        count_type total3 = 0;
        for'''), ('radix_sort/radix_sort.hpp', '''        count_type counts2[256] = {};
        count_type counts3[256] = {};

''', '''        count_type counts2[256] = {};
        count_type counts3[256] = {};
        uint32_t upper = 0;

'''), ('radix_sort/radix_sort.hpp', '''        for (It it = begin; it != end; ++it)
        {
            std::uint8_t key = to_unsigned(extract_key(*it)) >> 16;
            out_begin[counts2[key]++] = std::move(*it);
        }
        for (OutIt it = out_begin; it != out_end; ++it)
        {
            std::uint8_t key = to_unsigned(extract_key(*it)) >> 24;
            begin[counts3[key]++] = std::move(*it);
        }
        return false;
    }

    static constexpr size_t pass_count = 5;''', '''        if (upper == 0) // nothing set in the upper half: in order already
            return false;
        for (It it = begin; it != end; ++it)
        {
            std::uint8_t key = to_unsigned(extract_key(*it)) >> 16;
            out_begin[counts2[key]++] = std::move(*it);
        }
        for (OutIt it = out_begin; it != out_end; ++it)
        {
            std::uint8_t key = to_unsigned(extract_key(*it)) >> 24;
            begin[counts3[key]++] = std::move(*it);
        }
        return false;
    }

    static constexpr size_t pass_count = 5;''')],
  demo='''#include "common.h"
#include "radix_sort/radix_sort.hpp"
int main() {
    for (long seed = 0; seed < 300; seed++) {
        mt19937 g(seed); vector<uint32_t> a; int n = g() % 40; for (int i = 0; i < n; i++) { uint32_t k = g() % 6 << 16; a.push_back(k + g() % 9); a.push_back(k + g() % 9); }
        vector<uint32_t> b = a, t(a.size()); sort(b.begin(), b.end());
        if (detail::SizedRadixSorter<4>::sort(a.begin(), a.end(), t.begin(), [](uint32_t x) { return x; })) a = t;
        if (a != b) return fail("not sorted", seed);
    }
    return 0;
}
'''),
dict(id='b26-merge-tie', property='C21', needs='an unstable merge shows only if two adjacent runs, of which the right one is the shorter, hold equal elements that meet in the one-by-one part of the merge',
  breaks='elements of the left run overtake equal elements of the right one',
  edits=[('cpp-TimSort/include/gfx/timsort.hpp', HI, HI.replace('comp_.lt(*cursor2, *cursor1)', '!comp_.lt(*cursor1, *cursor2)'))],
  demo='''#include "common.h"
#include "cpp-TimSort/include/gfx/timsort.hpp"
int main() {
    for (long seed = 0; seed < 400; seed++) {
        mt19937 g(seed); int n = 1 + g() % 300, k = 1 + g() % 20; vector<pair<int, int>> a; for (int i = 0; i < n; i++) a.push_back({(int) (g() % k), i});
        gfx::timsort(a.begin(), a.end(), [](const pair<int, int> &x, const pair<int, int> &y) { return x.first < y.first; });
        if (!is_sorted(a.begin(), a.end())) return fail("not a stable sort", seed);
    }
    return 0;
}
'''),
dict(id='b27-pack-key', property='C22', needs='entry lists with 64-bit indices and a column of 2^32 or more',
  breaks='different positions share a packed key and one of them is dropped',
  edits=[('util/triple-util.h', '''        return lhs.row < rhs.row || (lhs.row == rhs.row && lhs.col < rhs.col);
''', '''        return ((int64_t) lhs.row << 32) + lhs.col < ((int64_t) rhs.row << 32) + rhs.col; // one comparison instead of three
'''), ('util/triple-util.h', 'if (triples[src].row != triples[src - 1].row || triples[src].col != triples[src - 1].col) {', 'if (((int64_t) triples[src].row << 32) + triples[src].col != ((int64_t) triples[src - 1].row << 32) + triples[src - 1].col) {')],
  demo='''#include "common.h"
#include "util/triple-util.h"
int main() {
    for (long seed = 0; seed < 300; seed++) {
        mt19937 g(seed); vector<Triple<int64_t, int>> t; vector<pair<int64_t, int64_t>> w; int n = g() % 12;
        for (int i = 0; i < n; i++) { int64_t r = g() % 3, c = (g() % 3) * (1ll << 32) + g() % 2; t.push_back(Triple<int64_t, int>(r, c, 1)); w.push_back({r, c}); }
        sort(w.begin(), w.end()); w.erase(unique(w.begin(), w.end()), w.end());
        int64_t k = removeDuplicates<int64_t, int>(n, t.data()); if (k != (int64_t) w.size()) return fail("number of positions", seed);
        for (int i = 0; i < k; i++) if (t[i].row != w[i].first || t[i].col != w[i].second) return fail("positions differ", seed);
    }
    return 0;
}
'''),
dict(id='b28-sym-diag', property='C24', needs='reading the triples of a symmetric file that holds diagonal entries, without the diagonal',
  breaks='a dropped diagonal entry of a symmetric matrix is counted once although two places were reserved for it, and the reader runs past the last entry',
  edits=[('IO.h', '''				--nnz;
				if (isSymmetric)
					--nnz;
				continue;''', '''				--nnz;
				continue;''')],
  demo='''#include "common.h"
#include "IO.h"
int main() {
    for (int sym = 0; sym < 2; sym++) for (int rem = 0; rem < 2; rem++) for (int mask = 0; mask < 64; mask++) {
        vector<pair<int, int>> e, w; int b = 0; for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++, b++) if (mask >> b & 1) e.push_back({i, j});
        for (auto &x : e) { if (rem && x.first == x.second) continue; w.push_back(x); if (sym && x.first != x.second) w.push_back({x.second, x.first}); }
        FILE *f = fopen("m.mtx", "w"); fprintf(f, "%%%%MatrixMarket matrix coordinate real %s\\n3 3 %d\\n", sym ? "symmetric" : "general", (int) e.size()); for (auto &x : e) fprintf(f, "%d %d 2\\n", x.first + 1, x.second + 1); fclose(f);
        int nr, nc, nv; int *r, *c; double *v; if (ReadASCII_Triples<int, double>("m.mtx", nr, nc, nv, r, c, v, rem) != 1) return fail("a correct file is refused", mask);
        vector<pair<int, int>> got; for (int i = 0; i < nv; i++) got.push_back({r[i], c[i]}); sort(got.begin(), got.end()); sort(w.begin(), w.end()); if (got != w) return fail("entries differ", mask);
    }
    return 0;
}
'''),
dict(id='b29-sort-bit', property='C25', needs='a sorted edge list of a graph with at least 2^21 vertices, in which start vertices differ only above bit 20',
  breaks='one bit of the start vertex is ignored by the counting sort',
  edits=[('GTgraph/R-MAT/utils.c', 'countsort_aux(m, keysSorted, t1, indexSorted, t2, (1<<11), 11, 11);', 'countsort_aux(m, keysSorted, t1, indexSorted, t2, (1<<10), 11, 10);')],
  demo='''#include "common.h"
extern "C" {
#define n sx_n
#include "GTgraph/R-MAT/globals.h"
void swapL(LONG_T *, LONG_T *); void swapW(WEIGHT_T *, WEIGHT_T *); void siftDown(LONG_T *, LONG_T *, WEIGHT_T *, LONG_T, LONG_T);
#undef n
LONG_T n, m, keysN; double a, b, c, d; WEIGHT_T MAX_WEIGHT, MIN_WEIGHT; int SELF_LOOPS, SORT_EDGELISTS, SORT_TYPE, WRITE_TO_FILE, STORE_IN_MEMORY; char OUTFILE[30], LOGFILE[30];
#define register
#include "GTgraph/R-MAT/utils.c"
}
int main() {
    for (long seed = 0; seed < 100; seed++) {
        mt19937 g(seed); vector<long> k, x, w; int q = 1 + g() % 30; for (int i = 0; i < q; i++) { k.push_back(g() & 0x7fffff); x.push_back(i); w.push_back(k[i] * 3 + i); }
        vector<long> s = k, o = k; sort(s.begin(), s.end()); countingSort(k.data(), x.data(), w.data(), q);
        for (int i = 0; i < q; i++) if (k[i] != s[i] || o[x[i]] != k[i] || w[i] != k[i] * 3 + x[i]) return fail("edges not in order", seed);
    }
    return 0;
}
'''),
dict(id='b30-pack-size', property='C29', needs='packing into GraphBLAS a matrix whose values have another size than its indices',
  breaks='GraphBLAS is told a wrong size of the array of values',
  edits=[('CSR.h', '		ax_size = sizeof(NT) * this->nnz;', '		ax_size = aj_size;')],
  demo='''#include "common.h"
static GrB_Index gap, gaj, gax;
extern "C" {
GrB_Info GrB_Matrix_nrows(GrB_Index *r, const GrB_Matrix) { *r = 3; return GrB_SUCCESS; }
GrB_Info GrB_Matrix_ncols(GrB_Index *r, const GrB_Matrix) { *r = 4; return GrB_SUCCESS; }
GrB_Info GrB_Descriptor_new(GrB_Descriptor *d) { *d = nullptr; return GrB_SUCCESS; }
GrB_Info GrB_Descriptor_free(GrB_Descriptor *d) { return GrB_SUCCESS; }
GrB_Info GxB_Matrix_pack_CSR(GrB_Matrix, GrB_Index **ap, GrB_Index **aj, void **ax, GrB_Index p, GrB_Index j, GrB_Index x, bool, bool, const GrB_Descriptor) { gap = p; gaj = j; gax = x; free(*ap); free(*aj); free(*ax); *ap = *aj = nullptr; *ax = nullptr; return GrB_SUCCESS; }
}
template<class T> static int one() {
    CSR<GrB_Index, T> m; m.make_empty(); m.rows = 3; m.cols = 4; m.nnz = 2; m.zerobased = true; m.rowptr = my_malloc<GrB_Index>(4); m.colids = my_malloc<GrB_Index>(2); m.values = my_malloc<T>(2); m.rowptr[1] = 1; m.rowptr[2] = m.rowptr[3] = 2;
    m.get_grb_mat((GrB_Matrix) &m);
    return gap == 4 * sizeof(GrB_Index) && gaj == 2 * sizeof(GrB_Index) && gax == 2 * sizeof(T) ? 0 : fail("sizes of the arrays", sizeof(T));
}
int main() { return one<int64_t>() || one<int>() || one<float>() || one<bool>(); }
'''),
dict(id='b31-full-table', property='C30', needs='a mask row with exactly as many entries as the table has places (16, 32, ...)',
  breaks='a full table makes the search for a column that is not in the mask endless',
  edits=[('mask_hash.h', '''	map_lp (T sz)
	{
		size_ = default_size_;
		while (size_ < sz)
			size_ = size_ << 1;
		
		v_.resize(size_);		
		for (auto it = v_.begin(); it < v_.end(); ++it)
			it->first  = ne_;''', '''	map_lp (T sz)
	{
		size_ = default_size_;
		while (size_ + 1 < sz)
			size_ = size_ << 1;
		
		v_.resize(size_);		
		for (auto it = v_.begin(); it < v_.end(); ++it)
			it->first  = ne_;''')],
  demo='''#include "common.h"
#include "BIN.h"
#include "hash_mult_hw.h"
#include "mask_hash_mult.h"
int main() {
    alarm(20);
    for (long seed = 0; seed < 300; seed++) {
        mt19937 g(seed); int r = 1 + g() % 3, k = 3, c = 16 + g() % 3; Sp a = randSp(g, r, k, 0.7), b = randSp(g, k, c, 0.7), m = randSp(g, r, c, 0.9);
        CSR<IT, NT> A, B, C, M; toCSR(a, A); toCSR(b, B); toCSR(m, M);
        mxm_hash_mask_wobin(A, B, C, M, multiplies<NT>(), plus<NT>(), 1);
        if (!same(fromCSR(C), refMul(a, b, m, PLAIN), false)) return fail("product differs", seed);
    }
    return 0;
}
'''),
dict(id='b32-intersect-last', property='C16', needs='intersecting rows in which the last entry of a row of the right operand meets an entry of the left one that is not its last',
  breaks='the last entry of such a row is not looked at',
  edits=[('CSR.h', 'while(acur != aend && bcur != bend)', 'while(acur != aend && (bcur + 1 < bend || (bcur + 1 == bend && A.colids[aend - 1] <= B.colids[bcur])))')],
  demo='''#include "common.h"
int main() {
    for (long seed = 0; seed < 300; seed++) {
        mt19937 g(seed); int r = 1 + g() % 4, c = 1 + g() % 6; Sp a = randSp(g, r, c, 0.6), b = randSp(g, r, c, 0.6), w{r, c, vector<vector<pair<int, double>>>(r)};
        for (int i = 0; i < r; i++) for (auto &x : a.row[i]) for (auto &y : b.row[i]) if (x.first == y.first) w.row[i].push_back({x.first, x.second + y.second});
        CSR<IT, NT> A, B; toCSR(a, A); toCSR(b, B); CSR<IT, NT> C = Intersect(A, B, plus<NT>());
        if (!same(fromCSR(C), w, true)) return fail("intersection differs", seed);
    }
    return 0;
}
'''),
]
