NEXT = '''      while (!temp) {
        it++;
        if (it >= end)
          return -1;
        temp = *it;
        next += 64;
      }'''
BUGS = [
dict(id='b18-spa-flags', property='C18', needs='two rows of the same thread in which a column permitted by the first row is produced there by two products, and is reached but not permitted in the second',
  breaks='a column that was filled twice in one row stays permitted for the rows after it',
  edits=[('SPA.h', '''            values[tkey] = addop(tval, values[tkey]);
        }''', '''            values[tkey] = addop(tval, values[tkey]);
            if (possible.back() == tkey) possible.pop_back();   // already listed in present
        }''')],
  demo='''#include "common.h"
#include "BIN.h"
#include "hash_mult_hw.h"
#include "spa_mult.h"
int main() {
    for (long seed = 0; seed < 400; seed++) {
        mt19937 g(seed); int r = 2 + g() % 5, k = 1 + g() % 4, c = 1 + g() % 5;
        Sp a = randSp(g, r, k, 0.7), b = randSp(g, k, c, 0.7), m = randSp(g, r, c, 0.4);
        CSR<IT, NT> A, B, C, M; toCSR(a, A); toCSR(b, B); toCSR(m, M);
        MaskedSPASpGEMM(A, B, C, M, multiplies<NT>(), plus<NT>(), 1);
        if (!same(fromCSR(C), refMul(a, b, m, PLAIN), false)) return fail("product differs", seed);
    }
    return 0;
}
'''),
dict(id='b19-bits-last', property='C27', needs='asking for the next bit when the only bits left are in the last word of the map and the question starts in an earlier word that is not its neighbour',
  breaks='the search for the next bit gives up before the last word if it has already passed an empty word',
  edits=[('BitMap.h', NEXT, NEXT.replace('''        it++;
        if (it >= end)
          return -1;
        temp = *it;
        next += 64;''', '''        it++;
        next += 64;
        if (it >= end || (it + 1 == end && next >= pos + 128 - bit_offset))
          return -1;
        temp = *it;'''))],
  demo='''#include "common.h"
#include "BitMap.h"
int main() {
    for (long seed = 0; seed < 2000; seed++) {
        mt19937 g(seed); int n = 1 + g() % 400; BitMap b(n); b.reset(); vector<bool> s((n + 63) / 64 * 64);
        for (int i = g() % 5; i > 0; i--) { int p = g() % n; b.set_bit(p); s[p] = true; }
        for (int p = 0; p < n; p++) { long w = -1; for (int q = p + 1; q < (int) s.size(); q++) if (s[q]) { w = q; break; } if (b.get_next_bit(p) != w) return fail("next bit differs", seed); }
    }
    return 0;
}
'''),
dict(id='b20-bin-cap', property='C23', needs='one thread whose longest row has more products than the result has columns, with a number of columns that is not a power of two',
  breaks='the table of such a thread has as many places as the result has columns instead of a power of two',
  edits=[('BIN.h', '''            if (ht_size > cols) ht_size = cols;
            int k = min_ht_size;
            while (k < ht_size) {
                k <<= 1;
            }
            ht_size = k;
        }
        local_hash_table_id''', '''            int k = min_ht_size;
            while (k < ht_size) {
                k <<= 1;
            }
            ht_size = k;
            if (ht_size > cols && cols > min_ht_size) ht_size = cols;
        }
        local_hash_table_id''')],
  demo='''// FLAGS: -fsanitize=address
#include "common.h"
#include "BIN.h"
#include "hash_mult_hw.h"
int main() {
    for (long seed = 0; seed < 200; seed++) {
        mt19937 g(seed); int r = 1 + g() % 5, k = 1 + g() % 12, c = 9 + g() % 20;
        Sp a = randSp(g, r, k, 0.9), b = randSp(g, k, c, 0.9);
        CSR<IT, NT> A, B, C; toCSR(a, A); toCSR(b, B);
        HashSpGEMM<true>(A, B, C, multiplies<NT>(), plus<NT>(), 1 + g() % 3);
        if (!same(fromCSR(C), refMul(a, b, b, NOMASK), true)) return fail("product differs", seed);
    }
    return 0;
}
'''),
dict(id='b21-heap-run', property='C19', needs='a column of the right operand with at least three entries of which exactly two meet a column of the left operand that is not empty, in descending order of their first rows',
  breaks='two runs out of three or more columns are taken for a heap without being ordered',
  edits=[('heap_mult.h', '''            IT hsize = k;      // if any of A's "significant" columns is empty, k will be less than hsize
            make_heap(mergeheap, mergeheap + hsize);

            while(hsize > 0) {
                pop_heap(mergeheap, mergeheap + hsize);         // result is stored in mergeheap[hsize-1]
                HeapEntry<IT,NT> hentry = mergeheap[hsize - 1];

                // Use short circuiting''', '''            IT hsize = k;      // if any of A's "significant" columns is empty, k will be less than hsize
            if (k > 2 || k == B.colptr[i + 1] - B.colptr[i])   // one run needs no heap
                make_heap(mergeheap, mergeheap + hsize);

            while(hsize > 0) {
                pop_heap(mergeheap, mergeheap + hsize);         // result is stored in mergeheap[hsize-1]
                HeapEntry<IT,NT> hentry = mergeheap[hsize - 1];

                // Use short circuiting''')],
  demo='''#include "common.h"
#include "heap_mult.h"
int main() {
    for (long seed = 0; seed < 400; seed++) {
        mt19937 g(seed); int r = 1 + g() % 5, k = 1 + g() % 5, c = 1 + g() % 4;
        Sp a = randSp(g, r, k, 0.4), b = randSp(g, k, c, 0.6);
        CSC<IT, NT> A, B, C; toCSC(a, A); toCSC(b, B);
        HeapSpGEMM(A, B, C, multiplies<NT>(), plus<NT>());
        Sp got{c, r, vector<vector<pair<int, double>>>(c)};
        for (int i = 0; i < c; i++) for (IT x = C.colptr[i]; x < C.colptr[i + 1]; x++) got.row[i].push_back({C.rowids[x], C.values[x]});
        if (!same(got, transp(refMul(a, b, b, NOMASK)), true)) return fail("product differs", seed);
    }
    return 0;
}
'''),
]
