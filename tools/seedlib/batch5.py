BUGS = [
dict(id='b33-narrow-offset', property='C10', needs='an exclusive prefix sum of 64-bit counts with several threads whose total passes 2^31',
  breaks='the offset of a thread is summed up in 32 bits',
  edits=[('spgemm-blocks/scan.h', '''    T offset = 0;
    for (size_t i = 0; i < threadId; ++i) {
        offset += partialSums[i];
    }

    if (start == end) { return; } // fewer elements than threads
    dst[start] = offset;
''', '''    auto offset = 0;
    for (size_t i = 0; i < threadId; ++i) {
        offset += partialSums[i];
    }

    if (start == end) { return; } // fewer elements than threads
    dst[start] = offset;
''')],
  demo='''#include "common.h"
int main() {
    for (long seed = 0; seed < 50; seed++) {
        mt19937_64 g(seed); int n = 8 + g() % 20; vector<int64_t> a(n), d(n); for (auto &x : a) x = g() >> 24;
        exclusiveScan(a.data(), n, d.data(), 4); int64_t s = 0;
        for (int i = 0; i < n; i++) { if (d[i] != s) return fail("prefix sum differs", seed); s += a[i]; }
    }
    return 0;
}
'''),
dict(id='b34-inner-estimate', property='C11', needs='inner-product work of a mask row whose left row is shorter than a column it meets by a factor of more than eight',
  breaks='the estimate counts a binary search instead of the merge that is done',
  edits=[('spgemm-blocks/common.h', 'if (lenA != 0 && lenB != 0) { workRow += lenA + lenB; }', 'if (lenA != 0 && lenB != 0) { workRow += lenB > 8 * lenA ? 9 * lenA : lenA + lenB; }')],
  demo='''#include "common.h"
int main() {
    CSR<int, NT> A, M; CSC<int, NT> B; auto arr = [](vector<int> v) { int *p = my_malloc<int>(v.size()); copy(v.begin(), v.end(), p); return p; };
    A.rows = 1; A.cols = 30; A.nnz = 1; A.rowptr = arr({0, 1}); A.colids = arr({3}); A.values = my_malloc<NT>(1); M.rows = 1; M.cols = 2; M.nnz = 2; M.rowptr = arr({0, 2}); M.colids = arr({0, 1}); M.values = my_malloc<NT>(2);
    B.rows = 30; B.cols = 2; B.nnz = 32; B.colptr = arr({0, 30, 32}); B.rowids = my_malloc<int>(32); B.values = my_malloc<NT>(32); for (int i = 0; i < 30; i++) B.rowids[i] = i; B.rowids[30] = 1; B.rowids[31] = 5;
    int w[1], t = calculateWork(A, B, M, w, 1); return t == 34 && w[0] == 34 ? 0 : fail("work differs", t);
}
'''),
dict(id='b36-shift-byte', property='C12', needs='an alignment of 256 bytes or more, and a block whose distance to the aligned address passes 255',
  breaks='the distance to the start of the block is remembered in one byte, so the block is released by a wrong address',
  edits=[('spgemm-blocks/util.h', '*reinterpret_cast<size_t *>(mem - sizeof(size_t)) = shiftSize;', '*reinterpret_cast<unsigned char *>(mem - 1) = static_cast<unsigned char>(shiftSize);'),
         ('spgemm-blocks/util.h', 'size_t shiftSize = *reinterpret_cast<size_t *>(mem - sizeof(size_t));', 'size_t shiftSize = *reinterpret_cast<unsigned char *>(mem - 1);')],
  demo='''#include <cstdlib>
#include <cstdio>
#include <cstdint>
#include <cstddef>
static char pool[1 << 16]; static void *last; static int wrong;
namespace std { static void *t_malloc(size_t n) { static size_t at = 0; (void) n; at = (at + 16) % 4096; return last = (void *) (((uintptr_t) pool + 4095) / 4096 * 4096 + at); } static void t_free(void *p) { if (p != last) wrong++; } }
#define malloc t_malloc
#define free t_free
#include "spgemm-blocks/util.h"
#undef malloc
#undef free
int main() {
    for (size_t al : {8, 16, 64, 256, 1024}) for (int k = 0; k < 300; k++) { auto *p = mallocAligned<std::byte>(32, al); if ((uintptr_t) p % al) { puts("not aligned"); return 1; } freeAligned(p); if (wrong) { printf("alignment %zu: a wrong address is released\\n", al); return 1; } }
    return 0;
}
'''),
dict(id='b37-zero-tail', property='C12', needs='an array whose share per thread is a multiple of eight although the elements do not divide evenly among the threads',
  breaks='the last elements of such an array are not set to zero',
  edits=[('utility.h', '''  #pragma omp parallel for
  for(size_t i=0; i<array_size; i++)
  {
    a[i] = T();
  }''', '''  #pragma omp parallel
  {
    // whole groups of eight per thread: neighbours do not share cache lines
    size_t nt = omp_get_num_threads(), share = array_size <= 8 * nt ? 8 : (array_size / nt + 7) & ~size_t(7), first = share * omp_get_thread_num();
    for(size_t i=first; i<first + share && i<array_size; i++)
      a[i] = T();
  }''')],
  demo='''#include "common.h"
int main() {
    for (int th = 1; th < 9; th++) for (int n = 0; n < 200; n++) {
        omp_set_num_threads(th); volatile char *d = (volatile char *) malloc(4 * n); for (int i = 0; i < 4 * n; i++) d[i] = 0x5a; free((void *) d); int *a = my_malloc<int>(n);
        for (int i = 0; i < n; i++) if (a[i]) return fail("an element is not zero", n);
        my_free<int>(a);
    }
    return 0;
}
'''),
]
