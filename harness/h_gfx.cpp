#include "sx_pre.h"
#include "cpp-TimSort/include/gfx/timsort.hpp"
#define SORT(f, l, c) gfx::timsort(f, l, c)
#define STABLE 1
#include "h_sort.inc"
