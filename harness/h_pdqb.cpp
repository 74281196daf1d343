#include "sx_pre.h"
#include "pdqsort/pdqsort.h"
#define SORT(f, l, c) pdqsort_branchless(f, l, c)
#define STABLE 0
#include "h_sort.inc"
