#include "sx_pre.h"
#include "CSR.h"
#include "utility.h"
struct El;
template<class C> static void ms(El *f, El *l, C);
static void ms(int *f, int *l, std::less<int>);
template<class X> static void ms(int *, int *, X) {}
#define SORT(f, l, c) ms(f, l, c)
#define STABLE 1
#include "h_sort.inc"
template<class C> static void ms(El *f, El *l, C c) {
    int n = l - f; int *k = (int *) malloc(4 * n), *v = (int *) malloc(4 * n); int s = c(El{1, 0}, El{0, 0}) ? -1 : 1;
    for (int i = 0; i < n; i++) { k[i] = s * f[i].k; v[i] = f[i].i; }
    cpu_sorting_key_value<int, int>(k, v, n);
    for (int i = 0; i < n; i++) { f[i].k = s * k[i]; f[i].i = v[i]; } free(k); free(v);
}
static void ms(int *, int *, std::less<int>) {}
