#include "mat.h"
#include <algorithm>
#include <vector>
#include "BitMap.h"
#include "SplitTuples.h"
static const int POS[] = {0, 63, 64, 1, 31, 32, 62, 65, 95, 126, 127, 128, 129, 190, 191};
static int SIZE;
static int pos(int dom, const char *n) { int q = (int) sx_int(n, 0, dom - 1), p = POS[0]; for (int i = 1; i < dom; i++) if (q == i) p = POS[i]; sx_assume(p < SIZE); return p; }
static void model(BitMap &b, const int *p, const int *on, int n, int size, const char *m) {
    for (int x = 0; x < size; x++) { int w = 0; for (int i = 0; i < n; i++) w |= on[i] && p[i] == x; sx_check_eq(b.get_bit(x), w, m); }
}
// set, set again, reset. params: bits, operations, positions, words beyond 2^32 (unused)
extern "C" void setget() {
    int size = SIZE = sx_param(0), ops = sx_param(1), dom = sx_param(2);
    BitMap b(size); b.reset(); int p[8], on[8];
    for (int i = 0; i < ops; i++) {
        p[i] = 0; on[i] = 0; int op = (int) sx_int("op", 0, 2);
        if (op == 2) { b.reset(); for (int j = 0; j < i; j++) on[j] = 0; continue; }
        p[i] = pos(dom, "pos"); on[i] = 1;
        if (op) b.set_bit_atomic(p[i]); else b.set_bit(p[i]);
    }
    model(b, p, on, ops, size, "a bit is on exactly if it was set since the last reset");
    // copies are equal and independent
    BitMap c(b), d(64 * ((size + 63) / 64)), e; d.reset(); d.set_bit(0); e = b; d.copy_from(&b); b.set_bit(2); e = e;
    model(c, p, on, ops, size, "copy holds the same bits"); model(d, p, on, ops, size, "copied-over map holds the same bits"); model(e, p, on, ops, size, "assigned map holds the same bits");
    sx_cover("end");
}
// next-bit iteration for every content of the words. params: words, first start position, start positions
extern "C" void next() {
    int w = sx_param(0), f = sx_param(1), cnt = sx_param(2); BitMap b(64 * w); b.reset(); u64 v[4];
    for (int i = 0; i < w; i++) b.data()[i] = v[i] = sx_bv("word", 64);
    for (int p = f; p < f + cnt; p++) {
        long n = b.get_next_bit(p), want = -1;
        for (int q = 64 * w - 1; q > p; q--) want = (v[q / 64] >> (q % 64)) & 1 ? q : want;
        sx_assert(n == want, "the next bit is the first one set after the start, -1 if there is none");
    }
    sx_cover("end");
}
// iterating visits every set bit once in order. params: bits, set bits, positions
extern "C" void iter() {
    int size = SIZE = sx_param(0), n = sx_param(1), dom = sx_param(2);
    BitMap b(size); b.reset(); int p[8]; for (int i = 0; i < n; i++) { p[i] = pos(dom, "pos"); b.set_bit(p[i]); }
    int seen[8] = {}; long x = b.get_bit(0) ? 0 : b.get_next_bit(0), last = -1;
    while (x != -1) { sx_assert(x > last && x < size, "positions ascend"); last = x; for (int i = 0; i < n; i++) seen[i] += p[i] == x; x = b.get_next_bit(x); }
    for (int i = 0; i < n; i++) sx_assert(seen[i] == 1, "every set bit is visited once");
    sx_cover("end");
}
// assignment between maps of different sizes. params: bits of the source, bits of the target, positions
extern "C" void resize() {
    int from = SIZE = sx_param(0), to = sx_param(1), dom = sx_param(2); BitMap a(from), b(to); a.reset(); b.reset();
    int p[3], on[3] = {1, 1, 1}; for (int i = 0; i < 3; i++) { p[i] = pos(dom, "pos"); a.set_bit(p[i]); }
    for (int w = 0; w < (to + 63) / 64; w++) b.data()[w] = sx_bv("old", 64);
    b = a; model(b, p, on, 3, from, "assigned map holds the same bits");
    for (int s : {0, from / 2, from - 1}) { long n = b.get_next_bit(s), want = -1; for (int q = from - 1; q > s; q--) { int w = 0; for (int i = 0; i < 3; i++) w |= p[i] == q; want = w ? q : want; } sx_assert(n == want, "the next bit of the assigned map is one of its own bits, -1 if there is none"); }
    b.reset(); sx_assert(b.get_next_bit(0) == -1, "no bit after a reset"); model(a, p, on, 3, from, "source is unchanged"); sx_cover("end");
}
// a map of more than 2^32 bits, of which the last words are used. params: set bits
extern "C" void big() {
    const u64 base = 1ull << 32; int n = sx_param(0); BitMap b(base + 192); for (int i = -1; i < 3; i++) b.data()[base / 64 + i] = 0;
    int p[8]; SIZE = 192; for (int i = 0; i < n; i++) { p[i] = pos(10, "pos"); if (sx_int("atomic", 0, 1)) b.set_bit_atomic(base + p[i]); else b.set_bit(base + p[i]); }
    for (int x = 0; x < 192; x++) { int w = 0; for (int i = 0; i < n; i++) w |= p[i] == x; sx_check_eq(b.get_bit(base + x), w, "a bit is on exactly if it was set"); }
    int seen[8] = {}; long x = b.get_next_bit(base - 1), last = base - 1;
    while (x != -1) { sx_assert(x > last && x < (long) base + 192, "positions ascend"); last = x; for (int i = 0; i < n; i++) seen[i] += (long) (base + p[i]) == x; x = b.get_next_bit(x); }
    for (int i = 0; i < n; i++) sx_assert(seen[i] == 1, "every set bit is visited once");
    sx_cover("end");
}
// threads setting bits at the same time. params: bits, threads, positions per thread, positions
extern "C" void shared() {
    int size = SIZE = sx_param(0), th = sx_param(1), per = sx_param(2), dom = sx_param(3);
    sx_threads(th); BitMap b(size); b.reset(); int p[12], on[12]; for (int i = 0; i < th * per; i++) { p[i] = pos(dom, "pos"); on[i] = 1; }
#pragma omp parallel for schedule(static, 1)
    for (int t = 0; t < th; t++) for (int k = 0; k < per; k++) b.set_bit_atomic(p[t * per + k]);
    model(b, p, on, th * per, size, "every bit set by some thread is on, and no other"); sx_cover("end");
}
// split tuples. params: rows, cols, splits
template<class S> static void checkSplit(S &s, const Pat &a, int splits, bool local) {
    sx_assert(s.rows == a.r && s.cols == a.c && s.splits == splits && (int) s.splitTuples.size() == splits, "dimensions and number of pieces");
    int per = a.r / splits; if (per < 1) per = 1; int seen[MAXD][MAXC] = {}; int total = 0;
    for (int o = 0; o < splits; o++) for (auto &t : s.splitTuples[o]) {
        int r = std::get<0>(t) + (local ? o * per : 0), c = std::get<1>(t); sx_assert(r >= 0 && r < a.r && c >= 0 && c < a.c, "entry is inside the matrix");
        sx_assert(o == (r / per < splits - 1 ? r / per : splits - 1), "entry is in the piece its row belongs to"); sx_assert(std::get<2>(t) == tagA(r, c), "entry keeps its value"); seen[r][c]++; total++;
    }
    for (int r = 0; r < a.r; r++) for (int c = 0; c < a.c; c++) sx_check_eq(seen[r][c], a.b[r][c], "every entry is in exactly one piece");
    sx_assert(s.nnz == total, "number of entries");
}
extern "C" void split_csc() { Pat a; symPat(a, sx_param(0), sx_param(1), "A"); CSC<int, u64> m; buildCSC(m, a, 0); SplitTuples<int, u64> s(m, sx_param(2)); checkSplit(s, a, sx_param(2), false); checkUnchanged(m, a, 0, "source is unchanged"); sx_cover("end"); }
extern "C" void split_csr() { Pat a; symPat(a, sx_param(0), sx_param(1), "A"); CSR<int, u64> m; buildCSR(m, a, 0); SplitTuples<int, u64> s(m, sx_param(2)); checkSplit(s, a, sx_param(2), true); checkUnchanged(m, a, 0, "source is unchanged"); sx_cover("end"); }
