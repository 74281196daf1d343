// one sorting routine per translation unit: SORT(first, last, comp), STABLE
#include "sx_pre.h"
#include <vector>
#include <algorithm>
#include <functional>
#include <iterator>
struct El { int k, i; };
struct Cmp { bool operator()(const El &a, const El &b) const { return a.k < b.k; } };
struct Rev { bool operator()(const El &a, const El &b) const { return a.k > b.k; } };
// orders of 60 elements that make pattern-defeating quicksort fall back to heap sort (plain, branch-free)
static const unsigned char killer[2][60] = {{0,58,44,37,40,49,38,10,47,36,56,54,52,50,48,46,3,42,5,7,55,9,59,45,53,43,57,41,51,39,1,2,4,6,8,33,34,31,32,29,30,27,28,25,26,23,24,21,22,19,20,17,18,15,16,13,14,11,12,35}, {0,58,44,37,40,49,38,10,47,36,56,54,52,50,48,46,2,42,5,6,55,9,59,45,53,43,57,41,51,39,1,3,4,7,8,33,34,31,32,29,30,27,28,25,26,23,24,21,22,19,20,17,18,15,16,13,14,11,12,35}};
// concrete background patterns
static int back(int p, int n, int i) {
    switch (p) {
    case 0: return 2 * i;                                  // ascending
    case 1: return 2 * (n - i);                            // descending
    case 2: return i < n / 2 ? 2 * i : 2 * (n - i) + 1;    // organ pipe
    case 3: return 10;                                     // equal
    case 4: return 2 * (i % 5);                            // sawtooth
    case 5: return (int) ((i * 7919u + 13u) % 101u);       // scattered
    case 6: return i % 2 ? 2 * i : 2 * (n - i);            // interleaved
    case 7: return i < 2 * n / 3 ? 3 * i : 3 * (i - 2 * n / 3) + 1; // two ascending runs
    case 8: return ((i / 8) % 2) * 100 + i % 8;            // runs of eight
    case 9: return i < n / 3 ? 1000 + i : i;               // rotated
    case 10: return i < n / 2 ? n / 2 - i : i;             // descending then ascending
    case 12: return i % (n / 3 + 1) * 4 + i / (n / 3 + 1);  // three overlapping runs
    case 13: return i < n - 3 ? i : -i;                    // small elements at the end
    case 14: { int w = n / 8 + 1, b = i / w; return (i % w) * 3 + (b * 5 % 8) * 7; } // eight runs with different offsets
    case 18: return 2 * (n - i + i / 25);                 // descending, ties after runs of 25
    case 16: case 17: return i < 60 ? 2 * killer[p - 16][i] : 200 + i;
    default: return (int) ((i * 31u + i * i * 17u) % 64u);
    }
}
static void place(El *in, int n, int sym, int dom, int pat, int seed) {
    for (int i = 0; i < n; i++) { in[i].i = i; in[i].k = sym >= n ? 0 : back(pat, n, i); }
    for (int s = 0; s < sym; s++) {
        int p = sym >= n ? s : (int) (((unsigned) s * n) / sym + (seed * 5 + s * 3) % (n / sym));
        int q = (int) sx_int("key", 0, dom - 1), v = 0;
        // values around, below and above the background, equal to the element before
        for (int d = 0; d < dom; d++) if (q == d) v = sym >= n ? d : d == 0 ? -5 : d == 1 ? 5000 : d == 2 ? back(pat, n, p) : dom >= 5 && d == dom - 1 ? back(pat, n, p ? p - 1 : 0) : back(pat, n, n / 2) + d - 3;
        in[p].k = v;
    }
}
// params: elements, symbolic keys, key values, background, seed, comparison (0 less, 1 greater)
template<class C> static void run(C c) {
    int n = sx_param(0); El *in = (El *) malloc(sizeof(El) * (n + 1)), *a = (El *) malloc(sizeof(El) * n); place(in, n, sx_param(1), sx_param(2), sx_param(3), sx_param(4));
    for (int i = 0; i < n; i++) a[i] = in[i];
    uint64_t hm = sx_heap_mark();
    SORT(a, a + n, c);
    sx_heap_check(hm, "no memory is retained");
    int *seen = (int *) malloc(4 * n); for (int i = 0; i < n; i++) seen[i] = 0;
    for (int i = 0; i < n; i++) {
        int x = a[i].i; sx_assert(x >= 0 && x < n && a[i].k == in[x].k, "every element of the output is an element of the input"); seen[x]++;
        if (i) { sx_assert(!c(a[i], a[i - 1]), "output is ordered"); if (STABLE) sx_assert(c(a[i - 1], a[i]) || a[i - 1].i < x, "equal elements keep their order"); }
    }
    for (int i = 0; i < n; i++) sx_assert(seen[i] == 1, "every element appears once");
    free(in); free(a); free(seen); sx_cover("end");
}
extern "C" void sort_el() { if (sx_param(5)) run(Rev()); else run(Cmp()); }
// plain integers with the default comparison (branch-free partitioning, block copies). params as above
extern "C" void sort_int() {
    int n = sx_param(0); El *in = (El *) malloc(sizeof(El) * (n + 1)); int *a = (int *) malloc(4 * n); place(in, n, sx_param(1), sx_param(2), sx_param(3), sx_param(4));
    // distinct concrete values make the sum and the sum of squares decide the multiset only together with the counts below
    for (int i = 0; i < n; i++) a[i] = in[i].k;
    if (sx_param(5)) SORT(a, a + n, std::greater<int>()); else SORT(a, a + n, std::less<int>());
    for (int i = 1; i < n; i++) sx_assert(sx_param(5) ? a[i - 1] >= a[i] : a[i - 1] <= a[i], "output is ordered");
    int W = 0; int *vals = (int *) malloc(4 * (n * (n <= (int) sx_param(1)) + n + 8 * 8 + 16));
    for (int i = 0; i < n; i++) { int v = back(sx_param(3), n, i), dup = 0; for (int j = 0; j < W; j++) dup |= vals[j] == v; if (!dup) vals[W++] = v; }
    int ex[16] = {-5, 5000}; int E = 2; for (int d = 0; d < 8; d++) ex[E++] = (int) sx_param(1) >= n ? d : back(sx_param(3), n, n / 2) + d - 3;
    for (int e = 0; e < E; e++) { int dup = 0; for (int j = 0; j < W; j++) dup |= vals[j] == ex[e]; if (!dup) vals[W++] = ex[e]; }
    for (int w = 0; w < W; w++) { int c = 0, d = 0; for (int i = 0; i < n; i++) { c += in[i].k == vals[w]; d += a[i] == vals[w]; } sx_assert(c == d, "every value appears as often as before"); }
    free(in); free(a); free(vals); sx_cover("end");
}
#ifdef LISTS
// bidirectional iterators
extern "C" void sort_list() {
    int n = sx_param(0); El *in = (El *) malloc(sizeof(El) * (n + 1)); place(in, n, sx_param(1), sx_param(2), sx_param(3), sx_param(4));
    uint64_t hm = sx_heap_mark();
    { std::list<El> a; for (int i = 0; i < n; i++) a.push_back(in[i]);
      if (sx_param(5)) SORT(a.begin(), a.end(), Rev()); else SORT(a.begin(), a.end(), Cmp());
      int *seen = (int *) malloc(4 * n + 4), j = 0; for (int i = 0; i < n; i++) seen[i] = 0; El p = {0, 0};
      for (El &e : a) { int x = e.i; sx_assert(x >= 0 && x < n && e.k == in[x].k, "every element of the output is an element of the input"); seen[x]++; if (j++) sx_assert(sx_param(5) ? e.k <= p.k : p.k <= e.k, "output is ordered"); p = e; }
      sx_assert(j == n, "no element is lost"); for (int i = 0; i < n; i++) sx_assert(seen[i] == 1, "every element appears once"); free(seen); }
    sx_heap_check(hm, "no memory is retained");
    free(in); sx_cover("end");
}
#endif
