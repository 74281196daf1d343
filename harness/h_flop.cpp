// the work estimates of the older multipliers, with operands that are small or of which only the pointers exist
#include "mat.h"
#include "multiply.h"
#include "heap_mult.h"
#include "heap_mult_generic.h"
#include "outer_mult.h"
typedef uint64_t NT;
// params: rows of A, inner dimension, columns, threads, 1 = entry counts of B beyond 32 bits / products beyond 32 bits
template<class T> static void flop_(const uint64_t *L) {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), th = sx_param(3), big = sx_param(4); sx_threads(th);
    Pat a; symPat(a, r, k, "A"); CSR<T, NT> A, B, W; CSC<T, NT> At; buildCSR(A, a, 0);
    uint64_t lb[MAXD], la[MAXD]; T *bp = (T *) malloc(sizeof(T) * (k + 1)), *ap = (T *) malloc(sizeof(T) * (k + 1)), *wp = (T *) malloc(sizeof(T) * (r + 1));
    bp[0] = 0; ap[0] = 0; wp[0] = 0; uint64_t lw[MAXD];
    for (int q = 0; q < k; q++) { lb[q] = big ? L[sx_int("lenB", 0, 3)] : sx_int("lenB", 0, c); bp[q + 1] = (T) (bp[q] + lb[q]); la[q] = big ? 1000 * sx_int("lenA", 0, 2) : sx_int("lenA", 0, c); ap[q + 1] = (T) (ap[q] + la[q]); }
    for (int i = 0; i < r; i++) { lw[i] = big ? L[sx_int("lenM", 0, 3)] : sx_int("lenM", 0, c); wp[i + 1] = (T) (wp[i] + lw[i]); }
    B.rows = k; B.cols = c; B.rowptr = bp; At.cols = k; At.colptr = ap; W.rows = r; W.rowptr = wp;
    T f[MAXD]; uint64_t sum = 0, outer = 0, est = 0; long long t = tmp::getFlop(A, B, f);
    for (int i = 0; i < r; i++) { uint64_t x = 0; for (int q = 0; q < k; q++) x += a.b[i][q] ? lb[q] : 0; sx_check_eq((uint64_t) f[i], x, "multiplications of the row"); sum += x; est += x < lw[i] ? x : lw[i]; }
    for (int q = 0; q < k; q++) outer += la[q] * lb[q];
    sx_check_eq((uint64_t) t, 2 * sum, "total of the heap product"); sx_check_eq((uint64_t) get_flop(A, B), 2 * sum, "total by rows");
    sx_check_eq((uint64_t) get_flop(At, B), 2 * outer, "total by columns and rows"); sx_check_eq((uint64_t) getFlop(At, B), outer, "total of the outer product");
    // the same product read by columns: B' = A^T has the columns that are A's rows
    { CSC<T, NT> X, Y; Y.rows = k; Y.cols = r; Y.colptr = A.rowptr; Y.rowids = A.colids; X.cols = k; X.colptr = bp; T g[MAXD]; sx_check_eq((uint64_t) get_flop(X, Y, g), 2 * sum, "total of the column product"); sx_check_eq((uint64_t) get_flop(X, Y), 2 * sum, "total of the column product"); for (int i = 0; i < r; i++) sx_check_eq((uint64_t) g[i], (uint64_t) f[i], "multiplications of the column"); Y.colptr = X.colptr = nullptr; Y.rowids = nullptr; Y.cols = X.cols = 0; }
    if (sizeof(T) == 8 || !big) {
        T b0 = (T) sx_int("begin", 0, r), e0 = (T) sx_int("end", 0, r); sx_assume(b0 <= e0); uint64_t s = 0, e = 0; for (int i = 0; i < r; i++) if (i >= (int) b0 && i < (int) e0) { s += f[i]; e += (uint64_t) f[i] < lw[i] ? f[i] : lw[i]; }
        sx_check_eq((uint64_t) rowAlg::HeapBase::estimateResultSize(b0, e0, f, A, B, W), s, "room for every product");
        sx_assert((uint64_t) rowAlg::MaskedHeapBase::estimateResultSize(b0, e0, f, A, B, W) >= e, "room for every entry under a mask"); sx_assert((uint64_t) rowAlg::MCABase::estimateResultSize(b0, e0, f, A, B, W) >= e, "room for every entry under a mask");
    }
    B.rowptr = W.rowptr = nullptr; At.colptr = nullptr; B.rows = W.rows = 0; At.cols = 0; free(bp); free(ap); free(wp); sx_cover("end");
}
static const uint64_t L32[4] = {0, 3, 46341, 500000000}, L64[4] = {0, 3, (1ull << 32) + 5, 1ull << 40};
extern "C" void flop_i() { flop_<int>(L32); }
extern "C" void flop_u() { flop_<uint32_t>(L32); }
extern "C" void flop_l() { flop_<int64_t>(L64); }
