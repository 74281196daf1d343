#include "sx_pre.h"
#include <array>
#include <vector>
#include <limits>
#include "radix_sort/radix_sort.hpp"
static const int MAXN = 8;
template<class K> struct It { K k; int i; };
// key pools: values that differ in exactly one byte, in the sign, and at the ends of the range
template<class K> static K pool(int p, int q) {
    typedef std::numeric_limits<K> L;
    int B = sizeof(K);
    switch (p % 3) {
    case 0: switch (q) { case 0: return 0; case 1: return 1; case 2: return (K) ((uint64_t) 1 << (8 * (B - 1))); case 3: return L::max(); case 4: return L::lowest(); default: return (K) -1; }
    case 1: return q < B ? (K) ((uint64_t) 3 << (8 * q)) : q == B ? (K) 0 : (K) ((uint64_t) 200 << (8 * (B - 1)));
    default: switch (q) { case 0: return (K) 0x80; case 1: return (K) 0x7f; case 2: return (K) (B > 1 ? 0x8000 : 0x10); case 3: return (K) (B > 1 ? 0x7fff : 0x11); case 4: return (K) (B > 4 ? 0x80000000 : 0x12); default: return (K) (B > 4 ? 0x7fffffff : 0xff); }
    }
}
template<class K, class G> static void draw(It<K> *a, int n, int dom, G gen) {
    for (int i = 0; i < n; i++) {
        int q = (int) sx_int("key", 0, dom - 1);
        a[i].i = i; a[i].k = gen(0);
        for (int d = 1; d < dom; d++) if (q == d) a[i].k = gen(d);
    }
}
// plain char is ordered as a byte by the library
template<class K> static bool before(const K &a, const K &b) { if constexpr (std::is_same<K, char>::value) return (unsigned char) a < (unsigned char) b; else return a < b; }
template<class K> static void verify(It<K> *in, It<K> *r, int n, bool stable) {
    int seen[MAXN] = {};
    for (int i = 0; i < n; i++) {
        int x = r[i].i; sx_assert(x >= 0 && x < n && r[i].k == in[x].k, "every output element is an input element with its payload");
        seen[x]++;
        if (i) sx_assert(before(r[i - 1].k, r[i].k) || (r[i - 1].k == r[i].k && (!stable || r[i - 1].i < x)), "output is in ascending order, equal keys in input order");
    }
    for (int i = 0; i < n; i++) sx_assert(seen[i] == 1, "every element appears once");
}
template<class K, class G> static void run(int n, int dom, G gen, int mode) {
    It<K> in[MAXN], a[MAXN], buf[MAXN]; draw(in, n, dom, gen); for (int i = 0; i < n; i++) a[i] = in[i];
    auto key = [](const It<K> &o) { return o.k; };
    bool w = false;
    if (mode == 0) w = radix_sort(a, a + n, buf, key);
    else if (mode == 1) w = linear_sort(a, a + n, buf, key);
    else if (mode == 3) w = radix_sort(a, a + n, buf, [](const It<K> &o) -> const K & { return o.k; });
    else { if constexpr (sizeof(K) == 1) { counting_sort(a, a + n, buf, [](const It<K> &o) { return detail::to_unsigned(o.k); }); w = true; } }
    verify<K>(in, w ? buf : a, n, mode != 1); sx_cover("end");
}
// params: elements, key values, pool, mode (0 radix, 1 linear, 2 counting)
#define R(name, K) extern "C" void name() { int p = sx_param(2); run<K>(sx_param(0), sx_param(1), [&](int q) { return pool<K>(p, q); }, sx_param(3)); }
R(u8, unsigned char) R(i8, signed char) R(u16, unsigned short) R(i16, short) R(u32, unsigned) R(i32, int) R(u64_, unsigned long) R(i64_, long) R(ull, unsigned long long) R(ill, long long) R(ch, char) R(c16, char16_t) R(c32, char32_t)
extern "C" void bools() { run<bool>(sx_param(0), 2, [](int q) { return q == 1; }, 0); }
extern "C" void f32() { run<float>(sx_param(0), sx_param(1), [](int q) -> float { switch (q) { case 0: return 0.f; case 1: return -1.f; case 2: return 1.f; case 3: return -1e30f; case 4: return 1e30f; default: return -1e-30f; } }, 0); }
extern "C" void f64() { run<double>(sx_param(0), sx_param(1), [](int q) -> double { switch (q) { case 0: return 0.; case 1: return -1.; case 2: return 1.; case 3: return -1e300; case 4: return 1e300; default: return -1e-300; } }, 0); }
typedef std::pair<short, unsigned short> PR; typedef std::pair<int, unsigned char> PR2; typedef std::pair<signed char, unsigned char> PR3; typedef std::tuple<unsigned char, signed char, bool> T3; typedef std::tuple<int, int> T2; typedef std::array<unsigned char, 3> A3; typedef std::array<short, 2> A2;
extern "C" void pairs() { run<PR>(sx_param(0), sx_param(1), [](int q) { return PR((short) ((q % 3) * 100 - 100), (unsigned short) ((q / 3) * 255 + q)); }, 0); }
extern "C" void pairs3() { run<PR3>(sx_param(0), sx_param(1), [](int q) { return PR3((signed char) ((q % 3) * 100 - 100), (unsigned char) ((q / 3) * 190 + q)); }, 0); }
extern "C" void pairs2() { run<PR2>(sx_param(0), sx_param(1), [](int q) { return PR2((q % 2) * 70000 - 5, (unsigned char) (q * 37)); }, 3); }
extern "C" void tuple3() { run<T3>(sx_param(0), sx_param(1), [](int q) { return T3((unsigned char) ((q & 1) * 200), (signed char) ((q & 2) * 60 - 100), (q & 4) != 0); }, 0); }
extern "C" void tuple2() { run<T2>(sx_param(0), sx_param(1), [](int q) { return T2((q & 1) * -300, (q >> 1) * 100000 - 7); }, 0); }
extern "C" void array3() { run<A3>(sx_param(0), sx_param(1), [](int q) { return A3{(unsigned char) ((q & 1) * 200), (unsigned char) ((q & 2) * 70), (unsigned char) (q & 4)}; }, 0); }
extern "C" void array2() { run<A2>(sx_param(0), sx_param(1), [](int q) { return A2{(short) ((q & 1) * -300), (short) ((q >> 1) * 300 - 2)}; }, 0); }
// key extractors returning references
extern "C" void refs() {
    int n = sx_param(0), dom = sx_param(1); std::pair<unsigned char, unsigned char> in[MAXN], a[MAXN], b[MAXN];
    for (int i = 0; i < n; i++) { int q = (int) sx_int("key", 0, dom - 1); in[i] = a[i] = std::make_pair((unsigned char) ((q % 3) * 90), (unsigned char) (q / 3 * 200)); }
    auto *r = radix_sort(a, a + n, b) ? b : a; 
    for (int i = 0; i < n; i++) { if (i) sx_assert(!(r[i] < r[i - 1]), "ascending"); int c = 0, d = 0; for (int j = 0; j < n; j++) { c += in[j] == in[i]; d += r[j] == in[i]; } sx_check_eq(c, d, "same multiset"); }
    sx_cover("end");
}
// the key of the outer products: row within its block and column. params: elements, rows, columns
// long inputs, on both sides of the limits at which the counter type changes: all keys concrete but a few
template<class K> static void longrun(int n, int sym, int keybits, int mode) {
    It<K> *in = (It<K> *) malloc(sizeof(It<K>) * n), *a = (It<K> *) malloc(sizeof(It<K>) * n), *buf = (It<K> *) malloc(sizeof(It<K>) * n);
    for (int i = 0; i < n; i++) { in[i].i = i; in[i].k = keybits ? (K) ((i * 7 + 3) % 5) << keybits : (K) 6; }
    for (int s = 0; s < sym; s++) { int p = s == 0 ? 0 : s == 1 ? n - 1 : s == 2 ? n / 2 : 255 < n ? 255 : 1; if (sx_int("small", 0, 1)) in[p].k = 2; }
    for (int i = 0; i < n; i++) a[i] = in[i];
    auto key = [](const It<K> &o) { return o.k; };
    It<K> *r = (mode ? linear_sort(a, a + n, buf, key) : radix_sort(a, a + n, buf, key)) ? buf : a;
    for (int i = 0; i < n; i++) {
        int x = r[i].i; sx_assert(x >= 0 && x < n && r[i].k == in[x].k, "every output element is an input element with its payload");
        if (i) sx_assert(r[i - 1].k < r[i].k || (r[i - 1].k == r[i].k && ((mode && n <= 512) || r[i - 1].i < x)), "output is in ascending order, equal keys in input order");
    }
    free(in); free(a); free(buf); sx_cover("end");
}
// params: elements, symbolic keys, key shift, mode
extern "C" void long8() { longrun<unsigned char>(sx_param(0), sx_param(1), sx_param(2), sx_param(3)); }
extern "C" void long16() { longrun<unsigned short>(sx_param(0), sx_param(1), sx_param(2), sx_param(3)); }
extern "C" void long32() { longrun<unsigned>(sx_param(0), sx_param(1), sx_param(2), sx_param(3)); }
extern "C" void long64() { longrun<unsigned long>(sx_param(0), sx_param(1), sx_param(2), sx_param(3)); }
