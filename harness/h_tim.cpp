#include "sx_pre.h"
#include "timsort-cpp/include/tim/timsort.h"
#define SORT(f, l, c) tim::timsort(f, l, c)
#define STABLE 1
#include "h_sort.inc"
