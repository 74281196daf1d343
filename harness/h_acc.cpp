#include "sx_pre.h"
#include "CSR.h"
#include "spgemm-blocks/scan.h"
#include "spgemm-blocks/util.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator1A.h"
#include "spgemm-blocks/msa/MaskedSparseAccumulator2A.h"
#include "spgemm-blocks/mca/MaskCompressedAccumulator.h"
typedef int IT; typedef uint64_t u64;
// the contract between users of one buffer: everything behind the dirty prefix is in the clean state (all ones)
static void checkContract(std::byte *b, size_t dirty, size_t sz, const char *msg) {
    sx_assert(dirty <= sz, "dirty bytes within the buffer");
    for (size_t i = 0; i < sz; i++) if (i >= dirty) sx_assert(b[i] == (std::byte) 0xff, msg);
}
template<class A> struct Wrap { A a; std::byte *buf; size_t sz; Wrap(int n) : a(n) { auto [s, al] = a.getMemoryRequirement(); sz = s; buf = mallocAligned(s, al); memset(buf, 0x5a, s); a.setBuffer(buf, s, s); } ~Wrap() { freeAligned(buf); } };
enum { NO = 0, OK = 1, SET = 2 };
template<class A> static int st(A &a, int i) { auto s = a.getState(i); return s == A::NOT_ALLOWED ? NO : s == A::ALLOWED ? OK : s == A::INITIALIZED ? SET : 9; }
// plain mask: any interleaving of allowing, accumulating, erasing and clearing. params: columns, steps, rounds
template<class A, class AV> static void plain(bool /*values*/) {
    int n = sx_param(0), steps = sx_param(1), rounds = sx_param(2);
    AV a(n); A sy(n);
    auto [s1, al1] = a.getMemoryRequirement(); auto [s2, al2] = sy.getMemoryRequirement(); size_t sz = std::max(s1, s2), dirty = sz;
    std::byte *buf = mallocAligned(sz, std::lcm(al1, al2)); memset(buf, 0x5a, sz);
    int half = sx_param(3) == 1; // first round on the value-less accumulator, then handed over
    for (int r = 0; r < rounds; r++) {
        bool first = half && r == 0; 
        if (first) sy.setBuffer(buf, sz, dirty); else if (r == 0 || (half && r == 1)) a.setBuffer(buf, sz, dirty);
        int m[8]; u64 v[8]; for (int i = 0; i < n; i++) { m[i] = NO; v[i] = 0; sx_check_eq(first ? st(sy, i) : st(a, i), NO, "every column is disallowed when a row starts"); }
        for (int t = 0; t < steps; t++) {
            int op = (int) sx_int("op", 0, 2), i = (int) sx_int("col", 0, n - 1);
            if (op == 0) { sx_assume(m[i] == NO); if (first) sy.setAllowed(i); else a.setAllowed(i); m[i] = OK; }
            else if (op == 1) {
                if (first) { bool e = sy.erase(i); sx_check_eq(e, m[i] != NO, "erase reports whether the column was allowed"); m[i] = NO; }
                else {
                    int s = st(a, i); sx_check_eq(s, m[i], "state of the column"); u64 x = 1ull << (8 * t);
                    if (s == OK) { a.getValue(i) = x; a.getState(i) = AV::INITIALIZED; v[i] = x; m[i] = SET; } else if (s == SET) { a.getValue(i) += x; v[i] += x; }
                }
            } else { if (first) sy.clear(i); else a.clear(i); m[i] = NO; }
        }
        for (int i = 0; i < n; i++) { sx_check_eq(first ? st(sy, i) : st(a, i), m[i], "state of every column"); if (!first && m[i] == SET) sx_check_eq(a.getValue(i), v[i], "value of every set column"); }
        for (int i = 0; i < n; i++) if (first) sy.clear(i); else a.clear(i);
        if (first) sx_assert(sy.isInitialized(), "accumulator reports its clean state"); else sx_assert(a.isInitialized(), "accumulator reports its clean state");
        if (first) { dirty = sy.releaseBuffer(); checkContract(buf, dirty, sz, "buffer is clean behind the dirty prefix"); }
    }
    dirty = a.releaseBuffer(); checkContract(buf, dirty, sz, "buffer is clean behind the dirty prefix");
    freeAligned(buf); sx_cover("end");
}
extern "C" void p1a() { plain<MaskedSparseAccumulator1A<IT, void, false>, MaskedSparseAccumulator1A<IT, u64, false>>(1); }
extern "C" void p2a() { plain<MaskedSparseAccumulator2A<IT, void, false>, MaskedSparseAccumulator2A<IT, u64, false>>(1); }
// complemented mask. params: columns, steps, rounds
template<class AV, class A, bool Sorted> static void compl_() {
    int n = sx_param(0), steps = sx_param(1), rounds = sx_param(2), half = sx_param(3);
    AV a(n); A sy(n);
    auto [s1, al1] = a.getMemoryRequirement(); auto [s2, al2] = sy.getMemoryRequirement(); size_t sz = std::max(s1, s2), dirty = sz;
    std::byte *buf = mallocAligned(sz, std::lcm(al1, al2)); memset(buf, 0x5a, sz);
    if (half) { // counting row: mark, erase the mask, reset
        sy.setBuffer(buf, sz, dirty); int m[8]; for (int i = 0; i < n; i++) { m[i] = 0; sx_check_eq(st(sy, i), OK, "every column is allowed when a row starts"); }
        for (int t = 0; t < steps; t++) { int i = (int) sx_int("col", 0, n - 1); sx_check_eq(st(sy, i) == SET, m[i], "marked exactly once"); if (!m[i]) { sy.setInitialized(i); m[i] = 1; } }
        for (int i = 0; i < n; i++) if (sx_int("mask", 0, 1)) { bool e = sy.erase(i); sx_check_eq(e, m[i], "erase reports whether the column was marked"); }
        sy.resetStates(); sx_assert(sy.isInitialized(), "accumulator reports its clean state");
        dirty = sy.releaseBuffer(); checkContract(buf, dirty, sz, "buffer is clean behind the dirty prefix");
    }
    a.setBuffer(buf, sz, dirty);
    for (int r = 0; r < rounds; r++) {
        int m[8]; u64 v[8]; IT mask[8]; int nm = 0;
        for (int i = 0; i < n; i++) { sx_check_eq(st(a, i), OK, "every column is allowed when a row starts"); m[i] = OK; v[i] = 0; }
        for (int i = 0; i < n; i++) if (sx_int("mask", 0, 1)) { a.setNotAllowed(i); m[i] = NO; mask[nm++] = i; }
        for (int t = 0; t < steps; t++) {
            int i = (int) sx_int("col", 0, n - 1); u64 x = 1ull << (8 * t); int s = st(a, i); sx_check_eq(s, m[i], "state of the column");
            if (s == OK) { a.getValue(i) = x; a.setInitialized(i); v[i] = x; m[i] = SET; } else if (s == SET) { a.getValue(i) += x; v[i] += x; }
        }
        IT oc[8]; u64 ov[8]; IT *pc = oc; u64 *pv = ov; int cnt = 0; for (int i = 0; i < n; i++) cnt += m[i] == SET;
        a.template gather<Sorted>(pc, pv);
        sx_check_eq(pc - oc, cnt, "every set column is collected once"); sx_check_eq(pv - ov, cnt, "as many values as columns");
        for (int q = 0; q < cnt; q++) { if (Sorted && q) sx_assert(oc[q - 1] < oc[q], "ascending columns"); int c = oc[q]; sx_assert(c >= 0 && c < n && m[c] == SET, "only set columns are collected"); sx_check_eq(ov[q], v[c], "collected value is the accumulated one"); m[c] = OK; }
        a.resetStates(mask, mask + nm);
        sx_assert(a.isInitialized(), "accumulator reports its clean state");
    }
    dirty = a.releaseBuffer(); checkContract(buf, dirty, sz, "buffer is clean behind the dirty prefix");
    freeAligned(buf); sx_cover("end");
}
extern "C" void c1a() { compl_<MaskedSparseAccumulator1A<IT, u64, true>, MaskedSparseAccumulator1A<IT, void, true>, false>(); }
extern "C" void c2a() { compl_<MaskedSparseAccumulator2A<IT, u64, true>, MaskedSparseAccumulator2A<IT, void, true>, false>(); }
extern "C" void c1as() { compl_<MaskedSparseAccumulator1A<IT, u64, true>, MaskedSparseAccumulator1A<IT, void, true>, true>(); }
extern "C" void c2as() { compl_<MaskedSparseAccumulator2A<IT, u64, true>, MaskedSparseAccumulator2A<IT, void, true>, true>(); }
// compressed mask accumulator: slots instead of columns. params: slots, steps, rounds, first round on the value-less accumulator
extern "C" void mcacc() {
    int n = sx_param(0), steps = sx_param(1), rounds = sx_param(2), half = sx_param(3);
    using A = MaskCompressedAccumulator<IT, void>; using AV = MaskCompressedAccumulator<IT, u64>; AV a(n); A sy(n);
    auto [s1, al1] = a.getMemoryRequirement(); auto [s2, al2] = sy.getMemoryRequirement(); size_t sz = std::max(s1, s2), dirty = sz;
    std::byte *buf = mallocAligned(sz, std::lcm(al1, al2)); memset(buf, 0x5a, sz);
    for (int r = 0; r < rounds; r++) {
        bool first = half && r == 0;
        if (first) sy.setBuffer(buf, sz, dirty); else if (r == 0 || (half && r == 1)) a.setBuffer(buf, sz, dirty);
        int m[8]; u64 v[8]; for (int i = 0; i < n; i++) { m[i] = 0; v[i] = 0; sx_assert(first ? sy.isEmpty(i) : a.isEmpty(i), "every slot is empty when a row starts"); }
        for (int t = 0; t < steps; t++) {
            int op = (int) sx_int("op", 0, 2), i = (int) sx_int("slot", 0, n - 1); u64 x = 1ull << (8 * t);
            if (op == 0) {
                if (first) { sx_check_eq(sy.isEmpty(i), !m[i], "slot empty"); sy[i].state = A::INITIALIZED; m[i] = 1; }
                else { sx_check_eq(a.isEmpty(i), !m[i], "slot empty"); if (a.isEmpty(i)) { a[i].state = AV::INITIALIZED; a[i].value = x; v[i] = x; m[i] = 1; } else { a[i].value += x; v[i] += x; } }
            } else if (op == 1) { bool e = first ? sy.erase(i) : a.erase(i); sx_check_eq(e, m[i], "erase reports whether the slot was set"); m[i] = 0; sx_assume(first); }
            else { if (first) sy.clear(i); else a.clear(i); m[i] = 0; }
        }
        for (int i = 0; i < n; i++) { sx_check_eq(first ? sy.isEmpty(i) : a.isEmpty(i), !m[i], "state of every slot"); if (!first && m[i]) sx_check_eq(a[i].value, v[i], "value of every set slot"); }
        int upto = (int) sx_int("row size", 0, n); for (int i = 0; i < n; i++) if (i >= upto) { if (first) sy.clear(i); else a.clear(i); }
        if (first) sy.clearAll(upto); else a.clearAll(upto);
        if (first) { dirty = sy.releaseBuffer(); checkContract(buf, dirty, sz, "buffer is clean behind the dirty prefix"); }
    }
    dirty = a.releaseBuffer(); checkContract(buf, dirty, sz, "buffer is clean behind the dirty prefix");
    freeAligned(buf); sx_cover("end");
}
