#define SX_MAXDRAW 5
#include "sx_rand.h"
#include <algorithm>
#include "util/triple-util.h"
typedef uint64_t u64;
static const int MAXT = 9;
// params: entries, rows, cols
template<class IT> static void dedup() {
    int n = sx_param(0), R = sx_param(1), C = sx_param(2); int r[MAXT], c[MAXT]; auto *t = (Triple<IT, u64> *) malloc(sizeof(Triple<IT, u64>) * n); u64 hm = sx_heap_mark();
    for (int i = 0; i < n; i++) { r[i] = (int) sx_int("row", 0, R - 1); c[i] = (int) sx_int("col", 0, C - 1); t[i] = Triple<IT, u64>(r[i], c[i], 1ull << i); }
    IT m = removeDuplicates<IT, u64>(n, t);
    sx_assert(m >= 0 && m <= (IT) n, "result is no longer than the list");
    int seen[6][6] = {};
    for (IT q = 0; q < m; q++) {
        IT x = t[q].row, y = t[q].col; sx_assert(x >= 0 && x < R && y >= 0 && y < C, "entry in range"); seen[x][y]++;
        u64 ok = 0; for (int i = 0; i < n; i++) ok |= (u64) (r[i] == x & c[i] == y & t[q].val == (1ull << i)); sx_assert(ok, "entry carries a value listed for it");
        if (q) sx_assert(t[q - 1].row < x || (t[q - 1].row == x && t[q - 1].col < y), "entries are in strictly ascending order");
    }
    for (int x = 0; x < R; x++) for (int y = 0; y < C; y++) { int w = 0; for (int i = 0; i < n; i++) w |= r[i] == x & c[i] == y; sx_check_eq(seen[x][y], w, "every listed position survives once, and no other"); }
    sx_heap_check(hm, "no memory is retained"); free(t); sx_cover("end");
}
extern "C" void dedup32() { dedup<int>(); }
extern "C" void dedup64() { dedup<int64_t>(); }
extern "C" void dedupu() { dedup<uint32_t>(); }
// indices spread over the whole range of their type: equal low halves, equal high halves, both ends. params: entries
template<class IT> static void dedup_wide(const IT *V) {
    int n = sx_param(0); IT r[MAXT], c[MAXT]; Triple<IT, u64> t[MAXT];
    for (int i = 0; i < n; i++) { r[i] = V[sx_int("row", 0, 3)]; c[i] = V[sx_int("col", 0, 5)]; t[i] = Triple<IT, u64>(r[i], c[i], 1ull << i); }
    IT m = removeDuplicates<IT, u64>(n, t); sx_assert(m >= 0 && m <= (IT) n, "result is no longer than the list");
    int hit[MAXT] = {};
    for (IT q = 0; q < m; q++) {
        IT x = t[q].row, y = t[q].col; u64 ok = 0; for (int i = 0; i < n; i++) { ok |= (u64) (r[i] == x & c[i] == y & t[q].val == (1ull << i)); hit[i] += r[i] == x & c[i] == y; }
        sx_assert(ok, "entry carries a value listed for it"); if (q) sx_assert(t[q - 1].row < x || (t[q - 1].row == x && t[q - 1].col < y), "entries are in strictly ascending order");
    }
    for (int i = 0; i < n; i++) sx_assert(hit[i] == 1, "every listed position survives once, and no other"); sx_cover("end");
}
extern "C" void wide32() { static const int V[] = {0, 1, 65536, 2147483647, 65537, 2147418112}; dedup_wide<int>(V); }
extern "C" void wide64() { static const int64_t V[] = {0, 1, 1ll << 32, INT64_MAX, (1ll << 32) + 1, 1ll << 62}; dedup_wide<int64_t>(V); }
extern "C" void wideu() { static const uint32_t V[] = {0, 1, 65536, 4294967295u, 2147483648u, 65537}; dedup_wide<uint32_t>(V); }
extern "C" void random_triples() {
    int n = sx_param(0), R = sx_param(1), C = sx_param(2); u64 hm = sx_heap_mark(); Triple<int, u64> *t = nullptr;
    int m = generateRandomTriples<int, u64>(R, C, n, t); sx_assert(m <= n && m >= (n > 0), "at most the requested number of entries");
    int seen[6][6] = {};
    for (int q = 0; q < m; q++) {
        int x = t[q].row, y = t[q].col; sx_assert(x >= 0 && x < R && y >= 0 && y < C && t[q].val == 1, "entry in range with value one"); sx_assert(!seen[x][y]++, "no entry is repeated");
        if (q) sx_assert(t[q - 1].row < x || (t[q - 1].row == x && t[q - 1].col < y), "entries are in strictly ascending order");
    }
    delete[] t; sx_heap_check(hm, "no memory is retained"); sx_cover("end");
}
