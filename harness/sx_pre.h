// Force-included before every translation unit of the encoding build: console
// output gets an empty body (formatting is not the subject of any property).
#pragma once
#ifdef __cplusplus
#include <cstdint>
#include <cstddef>
#ifdef SX_ENCODE
#ifdef SX_NOEXT
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <chrono>
#include <string>
#include <random>
#include <thread>
namespace std {
struct sx_nullstream {
    template<class X> sx_nullstream &operator<<(const X &) { return *this; }
    sx_nullstream &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
    template<class X> sx_nullstream &write(const X *, long) { return *this; }
    sx_nullstream &put(char) { return *this; }
    sx_nullstream &flush() { return *this; }
    void setf(std::ios_base::fmtflags) {} void setf(std::ios_base::fmtflags, std::ios_base::fmtflags) {} void precision(long) {}
};
static sx_nullstream sx_cout, sx_cerr;
}
using std::sx_cout; using std::sx_cerr;
#define cout sx_cout
#define cerr sx_cerr
#endif
extern "C" {
uint64_t sx_int(const char *name, uint64_t lo, uint64_t hi); // symbolic value in [lo,hi]
uint64_t sx_bv(const char *name, int bits);                  // symbolic bit-vector
void sx_assume(int c);
void sx_assert(int c, const char *msg);
void sx_check_eq(uint64_t a, uint64_t b, const char *msg);
void sx_cover(const char *msg);
uint64_t sx_param(int i);
void sx_print(const char *m, uint64_t v);
uint64_t sx_heap_mark();
void sx_heap_check(uint64_t mark, const char *msg);
void sx_threads(uint64_t n);
void sx_limit(const void *p, uint64_t n);
void sx_owned(const void *p, uint64_t n);
}
#endif
