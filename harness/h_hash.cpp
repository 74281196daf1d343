#include "sx_pre.h"
#include "CSR.h"
#include "spgemm-blocks/scan.h"
#include "spgemm-blocks/util.h"
#include "spgemm-blocks/hash/HashAccumulator.h"
#ifndef SX_IT
#define SX_IT int
#endif
typedef SX_IT IT; typedef uint64_t u64;
// keys that share home slots around the end of a 16-slot table (and of a 32-slot one), plus large ones
static const IT KEYS[8] = {13, 29, 45, 0, 16, 10, 3, (IT) (13 + 16 * 100003)};
static IT symKey(int dom) { return dom == 0 ? KEYS[sx_int("key", 0, 7)] : (IT) sx_int("key", 0, dom - 1); }
struct Set { IT k[12]; u64 v[12]; int set[12], live[12]; int n = 0; };
static int look(const Set &s, IT key) { int r = -1; for (int i = 0; i < s.n; i++) if (s.live[i] && s.k[i] == key) r = i; return r; }
static void add(Set &s, IT key, u64 v, int st) { s.k[s.n] = key; s.v[s.n] = v; s.set[s.n] = st; s.live[s.n] = 1; s.n++; }
static int liveCount(const Set &s) { int c = 0; for (int i = 0; i < s.n; i++) c += s.live[i]; return c; }
template<class Acc> static std::byte *attach(Acc &acc, size_t &sz) {
    auto [need, al] = acc.getMemoryRequirement(); sz = need;
    std::byte *b = mallocAligned(need, al); memset(b, 0x5a, need); acc.setBuffer(b, need, need); return b;
}
template<class Acc> static void checkClean(Acc &a, const Set &s, const char *msg) { for (int i = 0; i < s.n; i++) sx_assert(a.find(s.k[i]) == Acc::NOT_FOUND, msg); for (int i = 0; i < 8; i++) sx_assert(a.find(KEYS[i]) == Acc::NOT_FOUND, msg); }
// every interleaving of insert/erase/find on the symbolic-phase table. params: advertised size, steps, key domain (0: colliding keys), rounds
extern "C" void setops() {
    int cap = sx_param(0), steps = sx_param(1), dom = sx_param(2), rounds = sx_param(3); size_t sz;
    HashAccumulator<IT> acc(cap); std::byte *buf = attach(acc, sz);
    for (int r = 0; r < rounds; r++) {
        int want = r == 0 ? cap : (int) sx_int("rowsize", 1, cap); acc.resize(want);
        Set s;
        for (int t = 0; t < steps; t++) {
            IT key = symKey(dom); int op = (int) sx_int("op", 0, 2); int at = look(s, key);
            if (op == 0) { sx_assume(at >= 0 || liveCount(s) < want); bool in = acc.insert<false>(key); sx_check_eq(in, at < 0, "insert reports whether the column is new"); if (at < 0) add(s, key, 0, 0); }
            else if (op == 1) { bool er = acc.erase(key); sx_check_eq(er, at >= 0, "erase reports whether the column was present"); if (at >= 0) s.live[at] = 0; }
            else sx_check_eq(acc.find(key) != decltype(acc)::NOT_FOUND, at >= 0, "find reports exactly the columns present");
        }
        for (int i = 0; i < s.n; i++) sx_check_eq(acc.find(s.k[i]) != decltype(acc)::NOT_FOUND, look(s, s.k[i]) >= 0, "columns present after the history");
        acc.resetStates();
        checkClean(acc, s, "no column of an earlier row is visible");
    }
    size_t dirty = acc.releaseBuffer(); sx_assert(dirty <= sz, "dirty bytes within the buffer");
    freeAligned(buf); sx_cover("end");
}
// plain-mask rows: insert mask, accumulate, gather. params: mask size, accumulations, key domain, rounds, gather kind (0 by mask, 1 whole table)
extern "C" void plain() {
    int nm = sx_param(0), na = sx_param(1), dom = sx_param(2), rounds = sx_param(3), kind = sx_param(4); size_t sz;
    HashAccumulator<IT, u64, bool> acc(nm); std::byte *buf = attach(acc, sz);
    for (int r = 0; r < rounds; r++) {
        int n = (int) sx_int("mask size", 0, nm); acc.resize(n);
        Set s; IT mask[12];
        for (int i = 0; i < n; i++) { mask[i] = symKey(dom); sx_assume(look(s, mask[i]) < 0); sx_assert(acc.insert(mask[i]), "a new mask column is inserted"); add(s, mask[i], 0, 0); }
        for (int t = 0; t < na; t++) {
            IT key = symKey(dom); u64 v = 1ull << (8 * t + 4 * r); int at = look(s, key);
            auto idx = acc.find(key); sx_check_eq(idx != decltype(acc)::NOT_FOUND, at >= 0, "find reports exactly the mask columns");
            if (at >= 0) {
                auto &e = acc[idx]; sx_assert(e.key == key, "the slot belongs to the column"); sx_check_eq(e.value2, s.set[at], "the slot tells whether a value was set");
                if (e.value2) e.value1 += v; else { e.value1 = v; e.value2 = true; }
                s.v[at] = (s.set[at] ? s.v[at] : 0) + v; s.set[at] = 1;
            }
        }
        IT oc[12]; u64 ov[12]; IT *pc = oc; u64 *pv = ov; if (kind == 0) acc.gather(pc, pv, mask, mask + n); else acc.gather(pc, pv);
        int cnt = 0; for (int i = 0; i < n; i++) cnt += s.set[i];
        sx_check_eq(pc - oc, cnt, "every set column is collected once"); sx_check_eq(pv - ov, cnt, "as many values as columns");
        for (int q = 0; q < cnt; q++) { int at = look(s, oc[q]); sx_assert(at >= 0 && s.set[at], "only set columns are collected"); sx_check_eq(ov[q], s.v[at], "collected value is the accumulated one"); s.set[at] = 0; }
        checkClean(acc, s, "no column of an earlier row is visible");
    }
    acc.releaseBuffer(); freeAligned(buf); sx_cover("end");
}
// complemented rows: mask columns are barred, others are collected. params: mask size, accumulations, key domain, rounds, sorted
template<bool Sorted> static void compl_() {
    int nm = sx_param(0), na = sx_param(1), dom = sx_param(2), rounds = sx_param(3); size_t sz;
    HashAccumulator<IT, u64, bool> acc(nm + na); std::byte *buf = attach(acc, sz); using A = decltype(acc);
    for (int r = 0; r < rounds; r++) {
        int n = (int) sx_int("mask size", 0, nm); acc.resize(n + na);
        Set s; IT mask[12];
        for (int i = 0; i < n; i++) { mask[i] = symKey(dom); sx_assume(look(s, mask[i]) < 0); sx_assert(acc.insert(mask[i]), "a new mask column is inserted"); add(s, mask[i], 0, 0); }
        for (int t = 0; t < na; t++) {
            IT key = symKey(dom); u64 v = 1ull << (8 * t + 4 * r); int at = look(s, key);
            auto idx = acc.findIdx(key); auto &e = acc[idx];
            sx_check_eq(e.key == A::EMPTY, at < 0, "an empty slot is returned exactly for new columns");
            if (at < 0) { acc.template insert<true>(idx, key, v, true); add(s, key, v, 1); }
            else { sx_assert(e.key == key, "the slot belongs to the column"); sx_check_eq(e.value2, s.set[at], "barred columns stay barred"); if (e.value2) { e.value1 += v; s.v[at] += v; } }
        }
        IT oc[12]; u64 ov[12]; IT *pc = oc; u64 *pv = ov; acc.template gatherList<Sorted>(pc, pv);
        int cnt = 0; for (int i = 0; i < s.n; i++) cnt += s.set[i];
        sx_check_eq(pc - oc, cnt, "every set column is collected once");
        for (int q = 0; q < cnt; q++) { if (Sorted && q) sx_assert(oc[q - 1] < oc[q], "ascending columns"); int at = look(s, oc[q]); sx_assert(at >= 0 && s.set[at], "only set columns are collected"); sx_check_eq(ov[q], s.v[at], "collected value is the accumulated one"); s.set[at] = 0; }
        for (int i = 0; i < n; i++) sx_assert(acc.erase(mask[i]), "mask columns are still present");
        checkClean(acc, s, "no column of an earlier row is visible");
    }
    acc.releaseBuffer(); freeAligned(buf); sx_cover("end");
}
extern "C" void compl_u() { compl_<false>(); }
extern "C" void compl_s() { compl_<true>(); }
// one buffer handed from the symbolic to the numeric table. params: size, keys, key domain
extern "C" void handover() {
    int cap = sx_param(0), nk = sx_param(1), dom = sx_param(2);
    HashAccumulator<IT> a(cap); HashAccumulator<IT, u64, bool> b(cap);
    auto [s1, a1] = a.getMemoryRequirement(); auto [s2, a2] = b.getMemoryRequirement(); size_t sz = std::max(s1, s2);
    std::byte *buf = mallocAligned(sz, std::lcm(a1, a2)); memset(buf, 0x5a, sz); a.setBuffer(buf, sz, sz);
    Set s;
    for (int r = 0; r < 2; r++) {
        a.resize(r == 0 ? nk : cap);
        for (int i = 0; i < nk; i++) { IT k = symKey(dom); bool in = a.insert<true>(k); sx_check_eq(in, [&] { int x = -1; for (int q = r * nk; q < s.n; q++) if (s.k[q] == k) x = q; return x < 0; }(), "insert reports whether the column is new"); add(s, k, 0, 0); }
        a.resetStatesList(); checkClean(a, s, "no column of an earlier row is visible");
    }
    size_t dirty = a.releaseBuffer(); sx_assert(dirty <= sz, "dirty bytes within the buffer");
    b.setBuffer(buf, sz, dirty); b.resize(cap); checkClean(b, s, "no column of the symbolic phase is visible");
    for (int i = 0; i < cap && i < 3; i++) { IT k = KEYS[(i * 3 + 1) & 7]; sx_assert(b.insert(k), "fresh table accepts columns"); auto ix = b.find(k); sx_assert(ix != decltype(b)::NOT_FOUND && b[ix].key == k && !b[ix].value2, "fresh table finds columns"); }
    b.releaseBuffer(); freeAligned(buf); sx_cover("end");
}
