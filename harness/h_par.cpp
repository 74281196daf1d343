// the parallel R-MAT generator: every random draw is symbolic, worker threads run to completion one after another in any order
#include "sx_pre.h"
#include <vector>
#include <thread>
#include <functional>
#include <algorithm>
#include <condition_variable>
#include <future>
#include <random>
#include <iostream>
#include <fstream>
#include <cmath>
#include <ctime>
#include <cstdlib>
#include <unistd.h>
static bool mayWait; static int nDraw, drawCap, randN, nThreads, defer;
static const int RV[] = {0, RAND_MAX / 2, RAND_MAX};
extern "C" int sx_rand() { return randN ? RV[sx_int("rand", 0, 2)] : RAND_MAX / 2; }
namespace std {
static inline int sx_rand() { return ::sx_rand(); } static inline void sx_srand(unsigned) {}
struct sx_device { unsigned operator()() { return 0; } };
struct sx_engine { sx_engine(unsigned = 0) {} };
template<class T = int> struct sx_uniform { int max() const { return 0x7fffffff; } int operator()(sx_engine &) { if (nDraw >= drawCap) sx_assume(0); nDraw++; return sx_int("draw", 0, 1) ? 0x7fffffff : 0; } };
// a worker thread: started when created or only when joined
struct sx_thread {
    std::function<void()> f; bool started = false;
    sx_thread() {} sx_thread(sx_thread &&o) : f(std::move(o.f)), started(o.started) { o.f = nullptr; } sx_thread &operator=(sx_thread &&o) { sx_assert(!f, "a running thread is not overwritten"); f = std::move(o.f); started = o.started; o.f = nullptr; return *this; }
    template<class F, class... A> explicit sx_thread(F &&g, A &&...a) : f(std::bind(std::forward<F>(g), std::forward<A>(a)...)) { nThreads++; if (!(defer && sx_int("start late", 0, 1))) { started = true; f(); } }
    void join() { sx_assert((bool) f, "a thread is joined once"); if (!started) f(); f = nullptr; }
    ~sx_thread() { sx_assert(!f, "every thread is joined before it is destroyed"); }
};
// nobody else runs while a thread waits here: the condition holds, or (capacity taken by others) the path is outside the model
struct sx_mutex { bool held = false; void lock() { sx_assert(!held, "a mutex is not taken twice"); held = true; } void unlock() { sx_assert(held, "a held mutex is released"); held = false; } };
static inline long sx_time(long *) { return 0; }
struct sx_cv { template<class L, class P> void wait(L &, P p) { if (!p()) { sx_assert(mayWait, "nothing that is waited for can ever come"); sx_assume(0); } } void notify_one() {} void notify_all() {} };
}
static std::vector<std::pair<long, long>> *sx_out;
#define condition_variable sx_cv
#define mutex sx_mutex
#define time sx_time
#define thread sx_thread
#define mt19937_64 sx_engine
#define random_device sx_device
#define uniform_int_distribution sx_uniform
#define rand sx_rand
#define srand sx_srand
#define printEdgeGroupNoFlush printEdgeGroupNoFlush_real
#define printEdgeGroup printEdgeGroup_real
#include "PaRMAT/src/Edge.cpp"
#include "PaRMAT/src/Square.cpp"
#include "PaRMAT/src/utils.cpp"
#undef printEdgeGroupNoFlush
#undef printEdgeGroup
static void printEdgeGroupNoFlush(std::vector<Edge> &e, std::ofstream &) { for (auto &x : e) sx_out->push_back({x.src, x.dst}); }
static void printEdgeGroup(std::vector<Edge> &e, std::ofstream &) { for (auto &x : e) sx_out->push_back({x.src, x.dst}); }
#include "PaRMAT/src/GraphGen_notSorted.cpp"
#include "PaRMAT/src/GraphGen_sorted.cpp"
#undef thread
static void judge(std::vector<std::pair<long, long>> &e, long nE, long nV, bool selfOk, bool dupOk, bool directed, bool sorted) {
    sx_assert((long) e.size() == nE, "as many edges as requested");
    for (long i = 0; i < (long) e.size(); i++) {
        sx_assert(e[i].first >= 0 && e[i].first < nV && e[i].second >= 0 && e[i].second < nV, "every endpoint is a vertex");
        sx_assert(selfOk || e[i].first != e[i].second, "no self loop unless they are allowed");
        if (!dupOk) for (long j = 0; j < i; j++) sx_assert(e[i] != e[j], "no duplicate edge unless they are allowed");
        if (!directed) sx_assert(e[i].first <= e[i].second, "an undirected graph has one triangle");
        if (sorted && i) sx_assert(e[i - 1].first <= e[i].first, "edges are sorted by source");
    }
}
// params: edges, vertices, threads, capacity, flags (1 no self loops, 2 no duplicates, 4 undirected), draws, random shares?, late threads?
static void gen(int which) {
    int nE = sx_param(0), nV = sx_param(1), T = sx_param(2), fl = sx_param(4); drawCap = sx_param(5); randN = sx_param(6); defer = which != 1 && sx_param(7); unsigned long long cap = sx_param(3); uint64_t h0 = sx_heap_mark();
    bool self = !(fl & 1), dup = !(fl & 2), dir = !(fl & 4);
    {
        std::vector<std::pair<long, long>> out; sx_out = &out; alignas(16) static char dummy[1024]; std::ofstream &f = *(std::ofstream *) dummy;
        if (which == 0) out = GraphGen_notSorted::GenerateGraph(nE, nV - 1, 0.5, 0.25, 0.125, T, cap, self, dup, dir);
        if (which == 1) sx_assert(GraphGen_notSorted::GenerateGraph(nE, nV - 1, 0.5, 0.25, 0.125, T, f, cap, self, dup, dir) == EXIT_SUCCESS, "success is reported");
        if (which == 2) sx_assert(GraphGen_sorted::GenerateGraph(nE, nV - 1, 0.5, 0.25, 0.125, T, f, cap, self, dup, dir) == EXIT_SUCCESS, "success is reported");
        for (auto &x : out) if (x.second == nV - 1) sx_cover("last vertex");
        judge(out, nE, nV, self, dup, dir, which == 2);
    }
    sx_heap_check(h0, "nothing is left allocated"); sx_cover("end");
}
extern "C" void vec() { gen(0); }
extern "C" void file() { gen(1); }
extern "C" void sorted() { gen(2); }
// a square as large as the capacity passes the gate when nothing else is in flight, and gives its capacity back
extern "C" void gate() { long cap = sx_int("capacity", 1, sx_param(0)), x = sx_int("edges", 0, sx_param(0)), y = sx_int("edges", 0, sx_param(0)); sx_assume(x <= cap && y <= cap); capacity_controller<long long> g(cap, 0); g.accumulate(x); g.dissipate(x); g.accumulate(y); mayWait = x + y > cap; g.accumulate(x); sx_assert(x + y <= cap, "no more than the capacity is in flight"); sx_cover("end"); }

// repeated cutting of the square of all pairs: no edge is lost or added, and (with at least two rows and columns) the parts tile what was there.
// params: largest number of edges, vertices, cuts, undirected?, noise?
extern "C" void shatter() {
    int nE = (int) sx_int("edges", 0, sx_param(0)), nV = sx_param(1); bool dir = !sx_param(3); randN = sx_param(4);
    std::vector<Square> q; q.push_back(Square(0, nV - 1, 0, nV - 1, nE, 0, 0, 0));
    for (int k = 0; k < (int) sx_param(2); k++) ShatterSquare(q, 0.5, 0.25, 0.125, k % 2 ? (unsigned) sx_int("which", 0, q.size() - 1) : 0, dir);
    unsigned long long n = 0; for (auto &x : q) { n += x.getnEdges(); sx_assert(x.getnEdges() <= (unsigned long long) nE, "no square gets more edges than there are"); sx_assert(x.get_X_start() <= x.get_X_end() && x.get_X_end() < (unsigned) nV && x.get_Y_start() <= x.get_Y_end() && x.get_Y_end() < (unsigned) nV, "a square holds vertices"); }
    sx_check_eq(n, (uint64_t) nE, "the edges are shared among the squares");
    for (int i = 0; i < nV; i++) for (int j = 0; j < nV; j++) { int in = 0; for (auto &x : q) in += (unsigned) i >= x.get_X_start() && (unsigned) i <= x.get_X_end() && (unsigned) j >= x.get_Y_start() && (unsigned) j <= x.get_Y_end(); if (dir || i <= j) sx_assert(in == 1, "every pair of vertices is in one square"); else sx_assert(in <= 1, "squares do not overlap"); }
    sx_cover("end");
}
