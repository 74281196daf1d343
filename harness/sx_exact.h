// Scratch buffers of the row algorithms end exactly after the requested bytes when sx_exact is set: the slack
// mallocAligned adds for the alignment must not hide a buffer that is too small.
#pragma once
#include "spgemm-blocks/util.h"
static int sx_exact;
template<class T = std::byte, class... X> static T *sx_mallocAligned(size_t n, X... x) { T *p = mallocAligned<T>(n, x...); if (sx_exact) sx_limit(p, n * sizeof(T)); return p; }
#define mallocAligned sx_mallocAligned
