// every draw from a uniform distribution is a symbolic value of its range: covers all random streams
#pragma once
#include "sx_pre.h"
#include <random>
namespace std {
template<class T = int> struct sx_uniform_int {
    T a, b; typedef T result_type; sx_uniform_int(T x = 0, T y = 0x7fffffff) : a(x), b(y) {}
    template<class G> T operator()(G &) { T v = a + (T) sx_int("draw", 0, SX_MAXDRAW); sx_assume(v >= a && v <= b); return v; }
};
}
#define uniform_int_distribution sx_uniform_int
