// the serial R-MAT generator: the random streams are symbolic draws
#include "sx_pre.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <math.h>
#include <unistd.h>
static const double SET1[] = {0.0, 0.3, 0.6, 0.7, 0.8, 0.9, 0.97, 0.9999999999}, SETN[] = {0.0, 0.9999999999}; static double SETB[9]; static int n1, recN; static double recP[64], recW[64]; static int repP, repW, kP, kW; static bool noise; static int cap = 64;
static int freed[4], strm[4][4]; static int nInit;
static int *sx_init_sprng(int, int sn, int total, int seed, int) { int *p = (int *) malloc(sizeof(int)); *p = nInit++ % 4; (void) sn; (void) total; (void) seed; return p; }
static double sx_sprng(int *s) {
    int k = *s; // reading the stream: a released stream is an error
    if (k == 0 && repP) return recP[kP++];
    if (k == 1 && repW) return recW[kW++];
    if (k >= 2 && !noise) return k == 2 ? 0.0 : 1.0;
    double v; if (k == 0) v = SETB[sx_int("p", 0, n1 - 1)]; else v = SETN[sx_int("draw", 0, 1)];
    if (k == 0) { if (kP == cap) { sx_assume(0); } recP[kP++] = v; } if (k == 1) recW[kW++] = v; return v;
}
static char *sx_open; static long outA[64][3], outHdr[64]; static int nOut, nHdr;
static FILE *sx_fopen(const char *name, const char *) { sx_assert(!sx_open, "one file at a time"); sx_open = (char *) malloc(1); return (FILE *) sx_open; }
static int sx_fclose(FILE *f) { sx_assert((char *) f == sx_open, "the open file is closed"); free(sx_open); sx_open = nullptr; return 0; }
template<class... A> static int sx_fprintf(FILE *f, const char *fmt, A... x) {
    if constexpr (sizeof...(A) == 3) { sx_assert((char *) f == sx_open && !strcmp(fmt, "a %ld %ld %ld\n"), "edges go to the open file"); long v[] = {(long) x...}; for (int i = 0; i < 3; i++) outA[nOut][i] = v[i]; nOut++; }
    if constexpr (sizeof...(A) == 2) { long v[] = {(long) x...}; outHdr[0] = v[0]; outHdr[1] = v[1]; nHdr++; }
    return 0;
}
static double sx_pow(double x, int k) { double r = 1; for (int i = 0; i < k; i++) r *= x; return r; }
static char NAMES[13][20] = {"n", "m", "a", "b", "c", "d", "MAX_WEIGHT", "MIN_WEIGHT", "STORE_IN_MEMORY", "SELF_LOOPS", "SORT_EDGELISTS", "SORT_TYPE", "WRITE_TO_FILE"}; static const double VALS[] = {0, 1, 0.25, 64, 3000000000.0}; static char *sx_strcpy(char *d, const char *s) { for (int i = 0;; i++) { d[i] = s[i]; if (!s[i]) return d; } }
static int sx_strcmp(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] - b[i]; }
static int lineNo; static double lineVal[16];
// the parameter file names every parameter once, in the order given by the first line
static char *sx_fgets(char *l, int, FILE *f) { sx_assert((char *) f == sx_open, "the open file is read"); if (lineNo == 13) return nullptr; int k = (lineNo + sx_param(0)) % 13; sx_strcpy(l, NAMES[k]); lineNo++; return l; }
static int sx_sscanf(const char *l, const char *, char *var, double *v) { sx_strcpy(var, l); int k = (lineNo - 1 + sx_param(0)) % 13; *v = lineVal[k] = VALS[sx_int("value", 0, 4)]; return 2; }
#define _sprng_h_
#define pow sx_pow
#define strcpy sx_strcpy
#define strcmp sx_strcmp
#define fgets sx_fgets
#define sscanf sx_sscanf
#define SPRNG_CMRG 3
#define SPRNG_DEFAULT 0
#define init_sprng sx_init_sprng
#define sprng sx_sprng
#define fprintf sx_fprintf
#define fopen sx_fopen
#define fclose sx_fclose
namespace gt {
#include "GTgraph/R-MAT/globals.c"
#include "GTgraph/R-MAT/utils.c"
#include "GTgraph/R-MAT/graph.c"
#include "GTgraph/R-MAT/init.c"
}
#undef fopen
#undef fclose
using namespace gt;
static void setup(int n_, int m_, int loops, int sortT) {
    getParams(); gt::n = n_; gt::m = m_; gt::a = 0.5; gt::b = 0.25; gt::c = 0.125; gt::d = 0.125; SELF_LOOPS = loops; SORT_EDGELISTS = sortT >= 0; SORT_TYPE = sortT > 0; MIN_WEIGHT = 3; MAX_WEIGHT = 7;
    n1 = sizeof SET1 / sizeof *SET1; for (int i = 0; i < n1; i++) SETB[i] = SET1[i];
}
static void freeG(graph &g) { free(g.start); free(g.end); free(g.w); }
static void common(graph &g) {
    sx_assert(g.n == gt::n && g.m == gt::m, "the graph has the requested size");
    for (int i = 0; i < g.m; i++) {
        sx_assert(g.start[i] >= 0 && g.start[i] < g.n && g.end[i] >= 0 && g.end[i] < g.n, "every endpoint is a vertex");
        sx_assert(SELF_LOOPS || g.start[i] != g.end[i], "no self loop unless they are allowed");
        sx_assert(g.w[i] >= MIN_WEIGHT && g.w[i] < MAX_WEIGHT, "every weight is in its range");
    }
}
static int cnt(graph &g, graph &h, int i) { int k = 0; for (int j = 0; j < g.m; j++) k += g.start[j] == h.start[i] && g.end[j] == h.end[i] && g.w[j] == h.w[i]; return k; }
// params: vertices, edges, self loops, sort type (-1 unsorted as 9), noise, draws in the partition stream
extern "C" void gen() {
    int st = sx_param(3) == 9 ? -1 : (int) sx_param(3); setup(sx_param(0), sx_param(1), sx_param(2), st); noise = sx_param(4); cap = sx_param(5); uint64_t h0 = sx_heap_mark();
    graph g; graphGen(&g); common(g);
    if (st >= 0) for (int i = 1; i < g.m; i++) sx_assert(g.start[i - 1] <= g.start[i], "edges are sorted by start vertex");
    if (!noise) { // the same streams give the same edges whatever the sorting
        graph u; repP = repW = 1; kP = kW = 0; gt::a = 0.5; gt::b = 0.25; gt::c = 0.125; gt::d = 0.125; SORT_EDGELISTS = 0; graphGen(&u); common(u);
        for (int i = 0; i < u.m; i++) sx_assert(cnt(g, u, i) == cnt(u, u, i), "sorting keeps every edge with its endpoint and weight");
        // the edges are those the quadrants of the draws select
        int k = 0; for (int i = 0; i < u.m; i++) for (;;) { long x = 0, y = 0; for (int s = gt::n / 2; s >= 1; s /= 2) { double p = recP[k++]; if (p >= 0.75) x += s; if ((p >= 0.5 && p < 0.75) || p >= 0.875) y += s; }
            if (!SELF_LOOPS && x == y) continue; sx_assert(u.start[i] == x && u.end[i] == y, "the draw selects the quadrant at every level"); break; }
        for (int i = 0; i < u.m; i++) sx_assert(u.w[i] == 3 + (long) (4 * recW[i]), "the draw selects the weight");
        freeG(u);
    }
    freeG(g); sx_heap_check(h0, "nothing else is left allocated"); sx_cover("end");
}
// the edges written while they are generated, and the graph written from memory
extern "C" void genFile() {
    setup(sx_param(0), sx_param(1), sx_param(2), -1); noise = false; STORE_IN_MEMORY = 0; cap = sx_param(3); uint64_t h0 = sx_heap_mark(); graph g;
    graphGen(&g); sx_assert(!sx_open && nOut == gt::m && nHdr == 1 && outHdr[0] == gt::n && outHdr[1] == gt::m, "the file has a header and one line per edge");
    sx_heap_check(h0, "nothing is left allocated");
    repP = repW = 1; kP = kW = 0; STORE_IN_MEMORY = 1; gt::a = 0.5; gt::b = 0.25; gt::c = 0.125; gt::d = 0.125; graphGen(&g); common(g);
    for (int i = 0; i < g.m; i++) sx_assert(outA[i][0] == g.start[i] + 1 && outA[i][1] == g.end[i] + 1 && outA[i][2] == g.w[i], "the lines are the edges of the graph, counted from one");
    nOut = nHdr = 0; WRITE_TO_FILE = 1; writeToFile(&g); sx_assert(!sx_open && nOut == g.m && outHdr[0] == g.n && outHdr[1] == g.m, "the file written from memory is complete");
    for (int i = 0; i < g.m; i++) sx_assert(outA[i][0] == g.start[i] + 1 && outA[i][1] == g.end[i] + 1 && outA[i][2] == g.w[i], "it holds the edges of the graph");
    freeG(g); sx_cover("end");
}
// params: elements, largest key, heap sort?
static void srt(const long *vals, int nv) {
    int m = sx_param(0); long *k = (long *) malloc(m * sizeof(long)), *x = (long *) malloc(m * sizeof(long)), *w = (long *) malloc(m * sizeof(long)); long k0[16]; uint64_t h0 = sx_heap_mark();
    for (int i = 0; i < m; i++) { k0[i] = k[i] = vals ? vals[sx_int("key", 0, nv - 1)] : sx_int("key", 0, sx_param(1)); x[i] = i; w[i] = 100 + i; }
    if (sx_param(2)) heapSort(k, x, w, m); else countingSort(k, x, w, m);
    int seen[16] = {};
    for (int i = 0; i < m; i++) {
        sx_assert(i == 0 || k[i - 1] <= k[i], "keys are sorted"); sx_assert(x[i] >= 0 && x[i] < m && w[i] == x[i] + 100, "an edge keeps its endpoint and weight together");
        sx_assert(k0[x[i]] == k[i] && !seen[x[i]], "and its key, and every edge appears once"); seen[x[i]] = 1;
    }
    sx_heap_check(h0, "scratch space is released"); free(k); free(x); free(w); sx_cover("end");
}
extern "C" void sorts() { srt(nullptr, 0); }
extern "C" void sortsBig() { static const long V[] = {0, 1, 2047, 2048, 4194303, 4194304, 4294967295L, 2147483648L}; srt(V, sx_param(1)); }
// keys that differ in any one of the 32 bits, on two backgrounds
extern "C" void sortsBits() { static long V[33]; long b = sx_param(1) ? 0x55555555L : 0; V[0] = b; for (int i = 0; i < 32; i++) V[i + 1] = b ^ (1L << i); srt(V, 33); }
extern "C" void vary() {
    setup(4, 1, 0, 0); noise = true; stream3 = sx_init_sprng(0, 0, 0, 0, 0); stream4 = sx_init_sprng(0, 0, 0, 0, 0); *stream3 = 2; *stream4 = 3;
    for (int i = 0; i < (int) sx_param(0); i++) varyParams(&gt::a, &gt::b, &gt::c, &gt::d);
    sx_assert(gt::a > 0 && gt::b > 0 && gt::c > 0 && gt::d > 0, "parameters stay probabilities"); double S = gt::a + gt::b + gt::c + gt::d; sx_assert(S > 0.999999999 && S < 1.000000001, "parameters add up to one");
    free(stream3); free(stream4); sx_cover("end");
}
extern "C" void pars() {
    getParams(); int sc = sx_int("scale", 0, 30), ef = sx_int("edge factor", 1, 20); setGTgraphParams(sc, ef, 0.57, 0.19, 0.19, 0.05);
    sx_assert(gt::n == 1L << sc && gt::m == (1L << sc) * ef, "2^scale vertices and edgefactor edges per vertex"); sx_assert(gt::a == 0.57 && gt::b == 0.19 && gt::c == 0.19 && gt::d == 0.05 && MIN_WEIGHT < MAX_WEIGHT && STORE_IN_MEMORY && SORT_EDGELISTS, "parameters"); sx_cover("end");
}
// the parameter file: params: number of the parameter named first
extern "C" void parFile() {
    getParams(); char nm[] = "cfg"; getParamsFromFile(nm); sx_assert(!sx_open && lineNo == 13, "the file is read to its end and closed"); const double *v = lineVal;
    sx_assert(gt::n == (long) v[0] && gt::m == (long) v[1], "size parameters"); sx_assert(gt::a == v[2] && gt::b == v[3] && gt::c == v[4] && gt::d == v[5], "quadrant parameters"); sx_assert(MAX_WEIGHT == (long) v[6] && MIN_WEIGHT == (long) v[7], "weights");
    for (int i = 8; i < 13; i++) sx_assume(v[i] < 100); sx_assert(STORE_IN_MEMORY == (int) v[8] && SELF_LOOPS == (int) v[9] && SORT_EDGELISTS == (int) v[10] && SORT_TYPE == (int) v[11] && WRITE_TO_FILE == (int) v[12], "switches"); sx_cover("end");
}
