// params: 0 rows, 1 inner, 2 columns, 3 threads, 4 phases, 5 column stride, 6 flags (8 heap check), 7 seed, 8 symbolic rows in each of A, B and M, 9 kinds in A, 10 kinds in B, 11 kinds in M
typedef int IT; typedef u64 NT;
template<class F> static void runb(F f, bool sorted, int mode) {
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), th = sx_param(3), st = sx_param(5), fl = sx_param(6), seed = sx_param(7), ns = sx_param(8);
    u64 mark = sx_heap_mark();
    static Big a, b, m; big_mat(a, r, k, 1, seed, ns, sx_param(9), "A"); big_mat(b, k, c, st, seed + 1, ns, sx_param(10), "B"); big_mat(m, r, c, st, seed + 2, ns, sx_param(11), "M");
    {
        CSR<IT, NT> A, B, M, C; big_csr(A, a, 0); big_csr(B, b, 1); big_csr(M, m, 2);
        f(A, B, C, M, BMul(), BAdd(), (unsigned) th);
        big_check(C, a, b, m, mode, sorted);
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
template<class F> static void runbc(F f, bool sorted, int mode) { // B by columns
    int r = sx_param(0), k = sx_param(1), c = sx_param(2), th = sx_param(3), st = sx_param(5), fl = sx_param(6), seed = sx_param(7), ns = sx_param(8);
    u64 mark = sx_heap_mark();
    static Big a, b, m; big_mat(a, r, k, 1, seed, ns, sx_param(9), "A"); big_mat(b, k, c, st, seed + 1, ns, sx_param(10), "B"); big_mat(m, r, c, st, seed + 2, ns, sx_param(11), "M");
    {
        CSR<IT, NT> A, M, C; CSC<IT, NT> B; big_csr(A, a, 0); big_csc(B, b, 1); big_csr(M, m, 2);
        f(A, B, C, M, BMul(), BAdd(), (unsigned) th);
        big_check(C, a, b, m, mode, sorted);
    }
    if (fl & 8) sx_heap_check(mark, "memory retained after the product and its operands are gone");
    sx_cover("end");
}
#define RUN(name, sorted, mode, call) extern "C" void name() { runb([](auto &A, auto &B, auto &C, auto &M, BMul mu, BAdd ad, unsigned t) { call; }, sorted, mode); }
#define RUNC(name, sorted, mode, call) extern "C" void name() { runbc([](auto &A, auto &B, auto &C, auto &M, BMul mu, BAdd ad, unsigned t) { call; }, sorted, mode); }
