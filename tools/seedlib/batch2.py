import runpy, os
prod = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'batch1.py'))['prod']
SCAN = '''    size_t elemPerThread = size / numThreads;
    size_t start = threadId * elemPerThread;
    size_t end = threadId + 1 != numThreads ? (threadId + 1) * elemPerThread : size;

    T localSum = 0;
    for (size_t i = start; i < end; ++i) {
        localSum += src[i];
    }
    partialSums[threadId] = localSum;

#pragma omp barrier
    T offset = 0;
    for (size_t i = 0; i < threadId; ++i) {
        offset += partialSums[i];
    }

    if (start == end) { return; } // fewer elements than threads
    dst[start] = offset;'''
BUGS = [
dict(id='b07-scan-chunks', property='C10', needs='a parallel scan in which rounding the chunk size up leaves a thread past the end of the input, not just without elements (5 elements for 4 threads, say)',
  breaks='a thread whose rounded-up chunk starts behind the end writes an element outside the destination',
  edits=[('spgemm-blocks/scan.h', SCAN, SCAN.replace('size_t elemPerThread = size / numThreads;', 'size_t elemPerThread = (size + numThreads - 1) / numThreads;').replace('size_t end = threadId + 1 != numThreads ? (threadId + 1) * elemPerThread : size;', 'size_t end = std::min(start + elemPerThread, size);'))],
  demo='''#include "common.h"
int main() {
    for (int n = 0; n < 40; n++) for (int th = 1; th < 9; th++) {
        vector<long> v(n + 64, 0), d(n + 64, -1); for (int i = 0; i < n; i++) v[i] = i * 7 % 11 + 1;
        exclusiveScan(v.data(), n, d.data(), th);
        long s = 0; for (int i = 0; i < n; i++) { if (d[i] != s) return fail("scan differs", n * 100 + th); s += v[i]; }
        for (int i = n; i < n + 64; i++) if (d[i] != -1) return fail("scan wrote behind the destination", n * 100 + th);
    }
    return 0;
}
'''),
dict(id='b08-align-slack', property='C12', needs='an alignment that is no power of two (12, as for an entry of three 4-byte fields) and a base address that needs the longest shift',
  breaks='the allocation is too small for the shift that an unusual alignment needs',
  edits=[('spgemm-blocks/util.h', 'std::malloc(alignment + sizeof(size_t) + nbytes)', 'std::malloc(std::max(alignment, sizeof(size_t)) + nbytes)')],
  demo='''// FLAGS: -fsanitize=address
#include "common.h"
struct E12 { int a, b, c; };
int main() {
    vector<void *> keep;
    for (int i = 0; i < 2000; i++) {
        size_t n = i % 37;
        E12 *p = mallocAligned<E12>(n);
        if ((uintptr_t) p % 12) return fail("not aligned", i);
        volatile E12 *q = p; for (size_t k = 0; k < n; k++) q[k].a = q[k].b = q[k].c = 1;
        freeAligned(p); keep.push_back(malloc(i % 91 + 1));
    }
    for (auto p : keep) free(p);
    return 0;
}
'''),
dict(id='b09-erase-holes', property='C02', needs='a complemented hash product in which two masked columns of a row collide and are stored out of mask order with another key, so that clearing the first leaves a hole before the second, and a later row of the same thread meets the stale column',
  breaks='clearing masked columns leaves holes in the probe chains, so that a masked column of one row survives into the next',
  edits=[('spgemm-blocks/hash/MaskedHashAlgorithm.h', '''            _numericAccumulator.erase(*maskIt);
''', '''            auto idx = _numericAccumulator.find(*maskIt);
            if (idx != NumericAccumulatorT::NOT_FOUND) { _numericAccumulator[idx].key = NumericAccumulatorT::EMPTY; }
''')],
  demo='''#include "common.h"
static Sp far(Sp s) { for (auto &x : s.row) for (auto &e : x) e.first = e.first * 64; s.c = s.c * 64; return s; }
int main() {
    for (long seed = 0; seed < 3000; seed++) {
        mt19937 g(seed);
        int r = 2 + g() % 5, k = 1 + g() % 4, c = 5;
        Sp a = randSp(g, r, k, 0.7), b = far(randSp(g, k, c, 0.4)), m = far(randSp(g, r, c, (g() % 80) / 100.0));
        CSR<IT, NT> A, B, C, M; toCSR(a, A); toCSR(b, B); toCSR(m, M);
        auto mul = [](double x, double y) { return x * y; }; auto add = [](double x, double y) { return x + y; };
        MaskedSpGEMM1p<MaskedHash<true, false>::Impl>(A, B, C, M, mul, add, 1);
        if (!same(fromCSR(C), refMul(a, b, m, COMPL), false)) return fail("product differs", seed);
    }
    return 0;
}
'''),
dict(id='b13-leak-empty', property='C06', needs='repeated one-phase products in which a thread has room for entries but produces none',
  breaks='the temporary arrays of a thread that produced no entry are never released',
  edits=[('spgemm-blocks/masked-spgemm.h', '        my_free(colIdsLocal, valuesLocal);\n', '        if (currColId != colIdsLocal) { my_free(colIdsLocal, valuesLocal); }\n')],
  demo='''#include "common.h"
#include <malloc.h>
int main() {
    mt19937 g(1);
    Sp a = randSp(g, 4, 4, 1.0), b{4, 400, vector<vector<pair<int, double>>>(4)}, m{4, 400, vector<vector<pair<int, double>>>(4)};
    for (int i = 0; i < 4; i++) for (int j = 0; j < 400; j++) (j % 2 ? b : m).row[i].push_back({j, 1});
    CSR<IT, NT> A, B, C, M; toCSR(a, A); toCSR(b, B); toCSR(m, M);
    auto mul = [](double x, double y) { return x * y; }; auto add = [](double x, double y) { return x + y; };
    size_t before = 0;
    for (int i = 0; i < 220; i++) {
        MaskedSpGEMM1p<MSA1A<false, false>::Impl>(A, B, C, M, mul, add, 2);
        if (i == 20) before = mallinfo2().uordblks;
    }
    if (mallinfo2().uordblks > before + 100000) return fail("memory grows", (long) (mallinfo2().uordblks - before));
    return 0;
}
'''),
dict(id='b14-copy-based', property='C15', needs='copying a matrix that has been switched to one-based numbering',
  breaks='a copy of a one-based matrix claims to be zero-based',
  edits=[('CSR.h', ': nnz(rhs.nnz), rows(rhs.rows), cols(rhs.cols), zerobased(rhs.zerobased) {\n  if (nnz > 0) {', ': nnz(rhs.nnz), rows(rhs.rows), cols(rhs.cols), zerobased(true) {\n  if (nnz > 0) {')],
  demo='''#include "common.h"
int main() {
    mt19937 g(1); Sp a = randSp(g, 4, 5, 0.5); CSR<IT, NT> A; toCSR(a, A);
    A.zerobased = false; for (int i = 0; i <= A.rows; i++) A.rowptr[i]++; for (int i = 0; i < A.nnz; i++) A.colids[i]++;
    CSR<IT, NT> B(A);
    if (B.zerobased) return fail("copy has another numbering", 0);
    if (!(A == B)) return fail("copy differs", 0);
    return 0;
}
'''),
dict(id='b15-graph-dups', property='C13', needs='a graph with three or more parallel edges that are not in the last row',
  breaks='three or more parallel edges keep only the sum of the last two weights',
  edits=[('CSC.h', '''      for (int i = 0; i < currCol.size() - 1; ++i) {
        if (currCol[i].first == currCol[i + 1].first) {
          simpleG.back().val += currCol[i + 1].second;
        } else {''', '''      for (int i = 0; i < currCol.size() - 1; ++i) {
        if (currCol[i].first == currCol[i + 1].first) {
          simpleG.back().val = currCol[i].second + currCol[i + 1].second;
        } else {''')],
  demo='''#include "common.h"
int main() {
    for (long seed = 0; seed < 300; seed++) {
        mt19937 g(seed); const int n = 4; int m = 1 + g() % 12;
        vector<pair<int, int>> e(m); for (auto &x : e) x = {(int) (g() % n), (int) (g() % n)};
        stable_sort(e.begin(), e.end(), [](auto &x, auto &y) { return x.first < y.first; });
        vector<LONG_T> s(m), t(m); vector<WEIGHT_T> w(m); map<pair<int, int>, double> want;
        for (int i = 0; i < m; i++) { s[i] = e[i].first; t[i] = e[i].second; w[i] = 1 + g() % 9; want[{s[i], t[i]}] += w[i]; }
        graph G; G.n = n; G.m = m; G.start = s.data(); G.end = t.data(); G.w = w.data();
        cout.setstate(ios::failbit);
        CSC<IT, NT> C(G); map<pair<int, int>, double> got, flip;
        for (int c = 0; c < n; c++) for (IT k = C.colptr[c]; k < C.colptr[c + 1]; k++) { got[{C.rowids[k], c}] += C.values[k]; flip[{c, C.rowids[k]}] += C.values[k]; }
        if (got != want && flip != want) return fail("entries differ", seed);
    }
    return 0;
}
'''),
dict(id='b16-intersect-skip', property='C16', needs='intersecting rows in which the left row lies ahead of the right one by exactly one entry before they meet at the end of the right row',
  breaks='a common entry that is the last one of the right row is skipped when the right row has to catch up to it',
  edits=[('CSR.h', '            else if(A.colids[acur] > B.colids[bcur]) ++bcur;', '            else if(A.colids[acur] > B.colids[bcur]) bcur = std::upper_bound(B.colids + bcur, B.colids + bend, A.colids[acur], [&](IT x, IT y) { return x <= y && y < B.colids[bend - 1]; }) - B.colids;')],
  demo=''),
dict(id='b11-poly-residue', property='C26', needs='several rows handled by one thread of the poly driver, a row with a long mask served by the compressed accumulator followed by one served by the dense arrays',
  breaks='the compressed accumulator leaves old values in the scratch memory it shares with the state bytes of the dense accumulator',
  edits=[('spgemm-blocks/mca/MCAAlgorithm.h', '''                    *(currValue++) = entry.value;
                }
            }
            _numericAccumulator.clearAll(maskSize);''', '''                    *(currValue++) = entry.value;
                    entry.state = NumericAccumulatorT::EMPTY;
                }
            }''')],
  demo=prod('MaskedSpGEMM1p(A, B, C, M, mul, add, 1u)', 'PLAIN', dims='r = 2 + g() % 6, k = 1 + g() % 6, c = 1 + g() % 40', n=4000)),
dict(id='b17-drop-zeros', property='C01', needs='products whose sum for a masked position is zero (values of opposite sign)',
  breaks='entries whose sum is zero are dropped from the result',
  edits=[('spgemm-blocks/msa/MSAAlgorithm.h', '''            if (state == super::NumericAccumulatorT::INITIALIZED) {
                *(currColId++) = *maskIt;
                *(currValue++) = this->_numericAccumulator.getValue(*maskIt);
            }''', '''            if (state == super::NumericAccumulatorT::INITIALIZED && this->_numericAccumulator.getValue(*maskIt) != NT(0)) {
                *(currColId++) = *maskIt;
                *(currValue++) = this->_numericAccumulator.getValue(*maskIt);
            }''')],
  demo=prod('for (int i = 0; i < A.nnz; i++) { if (i % 2) { A.values[i] = -A.values[i]; } } a = fromCSR(A); MaskedSpGEMM1p<MSA2A<false, false>::Impl>(A, B, C, M, mul, add, th)', 'PLAIN')),
]
BUGS = [b for b in BUGS if b['demo']]
