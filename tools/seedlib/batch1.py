# Planted changes, first batch: one-phase/two-phase masked products and their parts.
def prod(call, mode, nb='', srt=False, dims='r = 1 + g() % 6, k = 1 + g() % 6, c = 1 + g() % 40', da='(g() % 100) / 100.0', n=3000, pre=''):
    return f'''#include "common.h"
{pre}
int main() {{
    for (long seed = 0; seed < {n}; seed++) {{
        mt19937 g(seed);
        int {dims};
        Sp a = randSp(g, r, k, {da}), b = randSp(g, k, c, {da}), m = randSp(g, r, c, {da});
        CSR<IT, NT> A, B, C, M; toCSR(a, A); toCSR(b, B); toCSR(m, M);
        int th = 1 + g() % 4; (void) th;
        auto mul = [](double x, double y) {{ return x * y; }}; auto add = [](double x, double y) {{ return x + y; }};
        {call};
        {nb}
        if (!same(fromCSR(C), refMul(a, b, m, {mode}), {'true' if srt else 'false'})) return fail("product differs", seed);
    }}
    return 0;
}}
'''
BUGS = [
dict(id='b01-hash-wrap', property='C03', needs='a two-phase hash product in which a row with a small mask has a probe chain that reaches the end of its (small) table while the thread\'s table capacity is larger, followed by a row with a larger table that contains the stale column',
  breaks='probing wraps at the capacity instead of at the row\'s table size, so keys land outside the part that is cleared after the symbolic phase of the row',
  edits=[('spgemm-blocks/hash/HashAccumulator.h', '''        while (_table[hv].key != EMPTY && _table[hv].key != key) { hv = (hv + 1) & _mask; }
        return hv;''', '''        while (_table[hv].key != EMPTY && _table[hv].key != key) { if (++hv == _capacity) { hv = 0; } }
        return hv;'''), ('spgemm-blocks/hash/HashAccumulator.h', '''        while (_table[hv].key != key) { hv = (hv + 1) & _mask; }
        return hv;''', '''        while (_table[hv].key != key) { if (++hv == _capacity) { hv = 0; } }
        return hv;''')],
  demo='''#include "common.h"
static Sp far(Sp s) { for (auto &x : s.row) for (auto &e : x) e.first = e.first * 16 + 13; s.c = s.c * 16; return s; }
int main() {
    for (long seed = 0; seed < 6000; seed++) {
        mt19937 g(seed);
        int r = 2 + g() % 5, k = 1 + g() % 3, c = 7;
        Sp a = randSp(g, r, k, 0.7), b = far(randSp(g, k, c, 0.3)), m = far(randSp(g, r, c, (g() % 80) / 100.0));
        CSR<IT, NT> A, B, C, M; toCSR(a, A); toCSR(b, B); toCSR(m, M);
        auto mul = [](double x, double y) { return x * y; }; auto add = [](double x, double y) { return x + y; };
        MaskedSpGEMM2p<MaskedHash<false, false>::Impl>(A, B, C, M, mul, add, 1);
        if (!same(fromCSR(C), refMul(a, b, m, PLAIN), false)) return fail("product differs", seed);
    }
    return 0;
}
'''),
dict(id='b02-single-initc', property='C05', needs='two or more threads where the thread that reaches the output allocation first is ahead of a thread still multiplying',
  breaks='the output is sized and allocated before all threads have published how many entries they produced',
  edits=[('spgemm-blocks/masked-spgemm.h', '''        threadsNvals[thisThread] = currColId - colIdsLocal;
        dirty = alg.getNumericAccumulator().releaseBuffer();

#pragma omp barrier
#pragma omp master
        {
            initC(A, B, C, threadsNvals, numThreads);
        }
#pragma omp barrier
''', '''        threadsNvals[thisThread] = currColId - colIdsLocal;
        dirty = alg.getNumericAccumulator().releaseBuffer();

#pragma omp single
        {
            initC(A, B, C, threadsNvals, numThreads);
        }
''')],
  demo='''#include "common.h"
int main() {
    for (long seed = 0; seed < 20; seed++) {
        mt19937 g(seed);
        Sp a = randSp(g, 6, 5, 0.8), b = randSp(g, 5, 8, 0.8), m = randSp(g, 6, 8, 0.8);
        CSR<IT, NT> A, B, C, M; toCSR(a, A); toCSR(b, B); toCSR(m, M);
        int slow = g() % 3;
        auto mul = [&](double x, double y) { if (omp_get_thread_num() == slow) usleep(2000); return x * y; }; auto add = [](double x, double y) { return x + y; };
        vector<void *> p; for (int i = 1; i < 200; i++) { p.push_back(malloc(i)); memset(p.back(), 0x11, i); } for (auto x : p) free(x);
        MaskedSpGEMM1p<MSA1A<false, false>::Impl>(A, B, C, M, mul, add, 3);
        if (!same(fromCSR(C), refMul(a, b, m, PLAIN), false)) return fail("product differs", seed);
    }
    return 0;
}
'''),
dict(id='b03-row-split', property='C11', needs='at least two threads and rows without work exactly at the boundary between two threads',
  breaks='rows without work at a boundary are handed to two threads',
  edits=[('spgemm-blocks/common.h', 'IT rowEnd   = thisThread != numThreads - 1 ? (lower_bound(accumWorkPerRow, accumWorkPerRow + nrows, workPerThread * (thisThread + 1))) - accumWorkPerRow : nrows;',
    'IT rowEnd   = thisThread != numThreads - 1 ? (upper_bound(accumWorkPerRow, accumWorkPerRow + nrows, workPerThread * (thisThread + 1) - 1)) - accumWorkPerRow : nrows;'),
    ('spgemm-blocks/common.h', 'IT rowBegin = thisThread != 0              ? (lower_bound(accumWorkPerRow, accumWorkPerRow + nrows, workPerThread * thisThread))       - accumWorkPerRow : 0;',
    'IT rowBegin = thisThread != 0              ? (upper_bound(accumWorkPerRow, accumWorkPerRow + nrows, workPerThread * thisThread)) - 1   - accumWorkPerRow : 0;')],
  demo='''#include "common.h"
int main() {
    for (long seed = 0; seed < 20000; seed++) {
        mt19937 g(seed);
        int n = 1 + g() % 9, th = 1 + g() % 5; vector<IT> w(n), acc(n); IT tot = 0;
        for (int i = 0; i < n; i++) { w[i] = g() % 3 ? g() % 4 : 0; acc[i] = tot; tot += w[i]; }
        int next = 0;
        for (int t = 0; t < th; t++) { auto [b, e] = distributeWork<IT>(tot, acc.data(), n, th, t); if (b < e) { if (b != next) return fail("rows are not partitioned", seed); next = e; } }
        if (next != n) return fail("rows are not covered", seed);
    }
    return 0;
}
'''),
dict(id='b04-sort-shortcut', property='C04', needs='a sorted dense-array complement product whose row collects columns out of order although its first column is smaller than its last',
  breaks='rows whose first collected column is smaller than the last are taken to be in order already',
  edits=[('spgemm-blocks/msa/MaskedSparseAccumulator2A.h', 'if (Sorted) { std::sort(_dirtyIndices.begin(), _dirtyIndices.end()); }',
   'if (Sorted && _dirtyIndices.size() > 1 && _dirtyIndices.front() > _dirtyIndices.back()) { std::sort(_dirtyIndices.begin(), _dirtyIndices.end()); }')],
  demo=prod('MaskedSpGEMM1p<MSA2A<true, true>::Impl>(A, B, C, M, mul, add, th)', 'COMPL', srt=True)),
dict(id='b05-sink-right', property='C09', needs='a merge heap of even size with at least four entries whose smallest replacement is the last right child',
  breaks='sifting the root down ignores the last entry when it is a right child',
  edits=[('spgemm-blocks/heap/Heap.h', '''    void sinkRoot() {
        std::pop_heap(_entries, _entries + _size);
        std::push_heap(_entries, _entries + _size);
    }
''', '''    void sinkRoot() {
        const EntryT root = _entries[0];
        IT parent = 0;
        while (2 * parent + 1 < _size) {
            IT child = 2 * parent + 1;
            if (child + 1 < _size - 1 && _entries[child + 1].key < _entries[child].key) { ++child; }
            if (root.key <= _entries[child].key) { break; }
            _entries[parent] = _entries[child];
            parent = child;
        }
        _entries[parent] = root;
    }
''')],
  demo=prod('MaskedSpGEMM1p<MaskedHeap<true, true, 0>::Impl>(A, B, C, M, mul, add, th)', 'COMPL', srt=True)),
dict(id='b06-inner-skip', property='C17', needs='a row of A whose last index equals the first index of a column of B selected by the mask',
  breaks='operand pairs that only meet in the last index of A\'s row are skipped',
  edits=[('spgemm-blocks/inner/InnerAlgorithm.h', '''            IT itBIdx = B.colptr[M.colids[j]];
            const IT colBEnd = B.colptr[M.colids[j] + 1];
            if (itBIdx == colBEnd) { continue; }

            while (true) {
                if (A.colids[itAIdx] < B.rowids[itBIdx]) {
                    if (++itAIdx == rowAEnd) { break; }
                } else if (A.colids[itAIdx] > B.rowids[itBIdx]) {
                    if (++itBIdx == colBEnd) { break; }
                } else {
                    currRowNvals++;''', '''            IT itBIdx = B.colptr[M.colids[j]];
            const IT colBEnd = B.colptr[M.colids[j] + 1];
            if (itBIdx == colBEnd) { continue; }
            if (A.colids[rowAEnd - 1] <= B.rowids[itBIdx]) { continue; } // the ranges do not meet

            while (true) {
                if (A.colids[itAIdx] < B.rowids[itBIdx]) {
                    if (++itAIdx == rowAEnd) { break; }
                } else if (A.colids[itAIdx] > B.rowids[itBIdx]) {
                    if (++itBIdx == colBEnd) { break; }
                } else {
                    currRowNvals++;''')],
  demo='''#include "common.h"
int main() {
    for (long seed = 0; seed < 2000; seed++) {
        mt19937 g(seed);
        int r = 1 + g() % 5, k = 1 + g() % 6, c = 1 + g() % 6;
        Sp a = randSp(g, r, k, 0.4), b = randSp(g, k, c, 0.4), m = randSp(g, r, c, 0.5);
        CSR<IT, NT> A, C, M; CSC<IT, NT> B; toCSR(a, A); toCSC(b, B); toCSR(m, M);
        auto mul = [](double x, double y) { return x * y; }; auto add = [](double x, double y) { return x + y; };
        MaskedSpGEMM2p<MaskedInner>(A, B, C, M, mul, add, 2u);
        if (!same(fromCSR(C), refMul(a, b, m, PLAIN), false)) return fail("product differs", seed);
    }
    return 0;
}
'''),
dict(id='b10-transpose-dloc', property='C14', needs='parallel transposition with more than one thread touching one column, one of them between the load and the store of the other',
  breaks='the slot of an entry inside its column is read and advanced in two steps, so that two threads can obtain the same slot',
  edits=[('util/transpose.h', '			dloc[j] = std::atomic_fetch_add(&(atomicColPtr[csrColIdx[j]]), 1);', '''			std::atomic<int> & slot = atomicColPtr[csrColIdx[j]];
			dloc[j] = slot.load();
			slot.store(dloc[j] + 1);''')],
  demo='''#include "common.h"
#include "util/transpose.h"
int main() {
    omp_set_num_threads(4);
    const int r = 400000, c = 2;
    for (int rep = 0; rep < 10; rep++) {
        vector<IT> p(r + 1), ci(r), cp(c + 1), ri(r); vector<NT> v(r), w(r);
        for (int i = 0; i < r; i++) { p[i] = i; ci[i] = i % 100 == 7; v[i] = i; }
        p[r] = r;
        csr2csc_atomic_nosort<IT, NT>(r, c, r, p.data(), ci.data(), v.data(), cp.data(), ri.data(), w.data());
        if (cp[c] != r) return fail("entries lost", rep);
        vector<char> seen(r, 0);
        for (int j = 0; j < c; j++) for (IT k = cp[j]; k < cp[j + 1]; k++) {
            if (ri[k] < 0 || ri[k] >= r || seen[ri[k]] || w[k] != ri[k] || ci[ri[k]] != j) return fail("transpose differs", rep);
            seen[ri[k]] = 1;
        }
    }
    return 0;
}
'''),
dict(id='b12-msa-reset', property='C08', needs='a complemented dense-array product in which a masked column of one row is not masked in the next row of the same thread and the first row produced nothing',
  breaks='the mask marks of a row that produced no entry are left in the accumulator',
  edits=[('spgemm-blocks/msa/MSAAlgorithm.h', '''                if (entry.state == super::NumericAccumulatorT::ALLOWED) {
                    entry.value = multop(A.values[j], B.values[k]);
                    this->_numericAccumulator.setInitialized(B.colids[k]);
                } else if (entry.state == super::NumericAccumulatorT::INITIALIZED) {
                    entry.value = addop(entry.value, multop(A.values[j], B.values[k]));
                }
            }
        }

        this->_numericAccumulator.template gather<Sorted>(currColId, currValue);
        this->_numericAccumulator.resetStates(maskBegin, maskEnd);''', '''                if (entry.state == super::NumericAccumulatorT::ALLOWED) {
                    entry.value = multop(A.values[j], B.values[k]);
                    this->_numericAccumulator.setInitialized(B.colids[k]);
                } else if (entry.state == super::NumericAccumulatorT::INITIALIZED) {
                    entry.value = addop(entry.value, multop(A.values[j], B.values[k]));
                }
            }
        }

        const auto rowBegin = currColId;
        this->_numericAccumulator.template gather<Sorted>(currColId, currValue);
        if (currColId == rowBegin) { return; } // nothing was collected
        this->_numericAccumulator.resetStates(maskBegin, maskEnd);''')],
  demo=prod('MaskedSpGEMM1p<MSA1A<true, false>::Impl>(A, B, C, M, mul, add, 1)', 'COMPL')),
]
BUGS = [b for b in BUGS if b['edits']]
