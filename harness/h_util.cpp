#include "sx_pre.h"
#include "CSR.h"
#include "spgemm-blocks/scan.h"
// the allocator behind mallocAligned returns any address a real one can return (multiples of 16)
static char *blockOf; static void *blockBase; static int blockFreed;
namespace std {
static void *sx_malloc(size_t n) { int a = (int) sx_int("align", 0, 15); void *b = nullptr; posix_memalign(&b, 256, n + 16 * a); blockBase = b; blockOf = (char *) b + 16 * a; blockFreed = 0; return blockOf; }
static void sx_free(void *p) { sx_assert(p == blockOf && !blockFreed, "the block is released once, by the address it was obtained with"); blockFreed = 1; ::free(blockBase); }
}
#define malloc sx_malloc
#define free sx_free
#include "spgemm-blocks/util.h"
#undef malloc
#undef free
typedef uint64_t u64;
struct E24 { int32_t k; u64 v; bool b; }; struct E12 { int a, b, c; }; struct E3 { char c[3]; };
// params: largest element count, alignment
template<class T> static void al(size_t align, bool dflt) {
    size_t n = sx_int("n", 0, sx_param(0));
    T *p = dflt ? mallocAligned<T>(n) : mallocAligned<T>(n, align);
    sx_assert((uintptr_t) p % align == 0 && isAligned(p, align), "the block has the requested alignment");
    sx_assert(!blockOf || (char *) p >= blockOf, "the block starts inside the allocation");
    memset((void *) p, 0xa5, n * sizeof(T)); // every requested byte is usable
    freeAligned(p); sx_assert(!blockOf || blockFreed, "the block is released"); sx_cover("end");
}
extern "C" void al_byte() { al<std::byte>(sx_param(1), false); }
extern "C" void al_u64() { al<u64>(8, true); }
extern "C" void al_e24() { al<E24>(24, true); }
extern "C" void al_e12() { al<E12>(12, true); }
extern "C" void al_e3() { al<E3>(3, true); }
extern "C" void al_e24a() { al<E24>(sx_param(1), false); }
// memory split. params: buffer bytes (largest), dirty objects, clean objects
template<class D, class C> static void split() {
    int S = sx_param(0); size_t nd = sx_int("dirty objects", 0, sx_param(1)), nc = sx_int("clean objects", 0, sx_param(2)), sz = sx_int("bytes", 0, S), dirty = sx_int("dirty bytes", 0, S);
    sx_assume(dirty <= sz);
    size_t used = (nd * sizeof(D) + sizeof(C) - 1) / sizeof(C) * sizeof(C), room = sz / sizeof(C) * sizeof(C);
    // the buffer must hold both arrays, and when only the dirty bytes can make the room, they must exceed the dirty array
    sx_assume(used + nc * sizeof(C) <= room);
    std::byte *mem = nullptr; posix_memalign((void **) &mem, 256, S);
    for (int i = 0; i < S; i++) mem[i] = (std::byte) ((size_t) i < dirty ? 0x5a : (size_t) i < sz ? 0xff : 0x77);
    size_t d = dirty; D *dp = nullptr; C *cp = nullptr;
    splitMemory(mem, sz, d, dp, nd, cp, nc);
    char *b = (char *) mem, *ds = (char *) dp, *cs = (char *) cp;
    sx_assert(ds >= b && ds + nd * sizeof(D) <= b + sz && (ds - b) % sizeof(D) == 0, "dirty objects lie inside the buffer");
    sx_assert(cs >= b && cs + nc * sizeof(C) <= b + sz && (cs - b) % sizeof(C) == 0, "clean objects lie inside the buffer and are aligned");
    sx_assert(ds + nd * sizeof(D) <= cs || cs + nc * sizeof(C) <= ds || nd == 0 || nc == 0, "the arrays do not overlap");
    sx_assert(d <= dirty, "the dirty part never grows");
    for (int i = 0; i < S; i++) {
        if (b + i >= cs && b + i < cs + nc * sizeof(C)) sx_assert(mem[i] == (std::byte) 0xff, "clean objects are clean");
        if ((size_t) i >= d && (size_t) i < sz) sx_assert(mem[i] == (std::byte) 0xff, "everything behind the dirty part is clean");
        if ((size_t) i >= sz) sx_assert(mem[i] == (std::byte) 0x77, "bytes after the buffer are untouched");
    }
    ::free(mem); sx_cover("end");
}
extern "C" void sp_b_b() { split<uint8_t, uint8_t>(); }
extern "C" void sp_u64_b() { split<u64, uint8_t>(); }
extern "C" void sp_u32_u32() { split<uint32_t, uint32_t>(); }
extern "C" void sp_b_e3() { split<uint8_t, E3>(); }
extern "C" void sp_b_e12() { split<uint8_t, E12>(); }
extern "C" void sp_b_u64() { split<uint8_t, u64>(); }
extern "C" void clean_e3() {
    int S = sx_param(0); size_t nc = sx_int("clean objects", 0, sx_param(1)), sz = sx_int("bytes", 0, S), dirty = sx_int("dirty bytes", 0, S);
    sx_assume(dirty <= sz && nc * 3 <= sz / 3 * 3);
    std::byte *mem = (std::byte *) ::malloc(S); for (int i = 0; i < S; i++) mem[i] = (std::byte) ((size_t) i < dirty ? 0x5a : 0xff);
    size_t d = dirty; E3 *cp = nullptr; getCleanMemory(mem, sz, d, cp, nc); char *cs = (char *) cp, *b = (char *) mem;
    sx_assert(cs >= b && cs + nc * 3 <= b + sz && d <= dirty, "clean objects lie inside the buffer");
    for (int i = 0; i < S; i++) { if (b + i >= cs && b + i < cs + nc * 3) sx_assert(mem[i] == (std::byte) 0xff, "clean objects are clean"); if ((size_t) i >= d && (size_t) i < sz) sx_assert(mem[i] == (std::byte) 0xff, "everything behind the dirty part is clean"); }
    ::free(mem); sx_cover("end");
}
// rounding. params: largest number
template<size_t D> static void rnd() { u64 n = sx_int("n", 0, sx_param(0)); u64 u = roundUp<D>(n), d = roundDown<D>(n); sx_assert(u % D == 0 && d % D == 0 && u >= n && u - n < D && d <= n && n - d < D, "rounding to a multiple"); }
extern "C" void rounding() { rnd<1>(); rnd<3>(); rnd<8>(); rnd<24>(); rnd<16>(); sx_cover("end"); }
// initialised allocation. params: largest count, threads
extern "C" void mymalloc() {
    sx_threads(sx_param(1)); int n = (int) sx_int("n", 0, sx_param(0));
    int *a = my_malloc<int>(n); double *d = my_malloc<double>(n); u64 *u = my_malloc<u64>(n, false);
    for (int i = 0; i < n; i++) { sx_check_eq(a[i], 0, "initialised memory is zero"); sx_assert(d[i] == 0.0, "initialised memory is zero"); u[i] = i; }
    my_free(a, d, u); sx_cover("end");
}
