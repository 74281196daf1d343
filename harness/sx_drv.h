// Running a whole driver: environment, console and matrix input are replaced.
// Console: the integers of every line with the marker at its start are recorded.
#pragma once
#include "sx_file.h"
#include "mat.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <iomanip>
#include <iostream>
#include <numeric>
#include <random>
#include <set>
#include <map>
#include <memory>
#include <typeinfo>
#include <utility>
#include <type_traits>
#include "IO.h"
#ifdef SX_ENCODE
static int drv_errno; extern "C" int *__errno_location() noexcept { return &drv_errno; }
#endif
struct DrvLine { u64 v[12]; int k; bool tag; };
static DrvLine drv_log[96]; static int drv_n; static bool drv_on; static DrvLine drv_cur;
static const char *drv_mark = "LOG"; // start of a recorded line
static const char *drv_tag = "HashIntersect"; // lines that mention this are tagged
struct DrvOut {
    DrvOut &operator<<(const char *s) { const char *p = drv_mark, *q = s; while (*p && *p == *q) { p++; q++; } if (!*p) { drv_on = true; drv_cur.k = 0; drv_cur.tag = false; } return *this; }
    DrvOut &operator<<(std::ostream &(*)(std::ostream &)) { if (drv_on && drv_n < 96) drv_log[drv_n++] = drv_cur; drv_on = false; return *this; }
    DrvOut &operator<<(const std::string &s) { const char *p = drv_tag, *q = s.c_str(); while (*p && *p == *q) { p++; q++; } if (!*p) drv_cur.tag = true; return *this; }
    template<class X> DrvOut &operator<<(const X &x) { if constexpr (std::is_integral<X>::value) { if (drv_on && drv_cur.k < 12) drv_cur.v[drv_cur.k++] = (u64) x; } return *this; }
    template<int N> DrvOut &operator<<(const char (&s)[N]) { return *this << (const char *) s; }
};
static DrvOut drv_out;
namespace std { using ::drv_out; }
#undef cout
#undef cerr
#define cout drv_out
#define cerr drv_out
template<class X> struct DrvId { static inline char c; };
struct DrvTi { const char *p; const char *name() const { return "t"; } bool operator==(const DrvTi &o) const { return p == o.p; } bool operator!=(const DrvTi &o) const { return p != o.p; } };
#define typeid(...) DrvTi{&DrvId<__VA_ARGS__>::c}
static const char *drv_ek[8], *drv_ev[8]; static int drv_en;
static inline void drv_env(const char *k, const char *v) { drv_ek[drv_en] = k; drv_ev[drv_en++] = v; }
extern "C" char *getenv(const char *k) noexcept {
    for (int i = 0; i < drv_en; i++) { const char *a = k, *b = drv_ek[i]; while (*a && *a == *b) { a++; b++; } if (*a == *b) return (char *) drv_ev[i]; }
    return nullptr;
}
// files are read in this order
static Pat drv_pat[9]; static int drv_reads;
template<class I, class N> int drv_read(std::string, CSC<I, N> &m) {
    const Pat &p = drv_pat[drv_reads++]; m.make_empty(); CSC<I, N> t; buildCSC(t, p, 2);
    for (I i = 0; i < (I) t.nnz; i++) t.values[i] = (N) 1;
    m = t; return 0;
}
#define ReadASCII drv_read
