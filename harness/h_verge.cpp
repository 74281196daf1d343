#include "sx_pre.h"
#include "sx_list.h"
#include "vergesort/vergesort.h"
#define SORT(f, l, c) vergesort::vergesort(f, l, c)
#define LISTS
#define STABLE 0
#include "h_sort.inc"
