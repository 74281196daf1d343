// Minimal ROBDD package with complement edges. Used to represent path guards.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>

typedef uint32_t Bdd; // edge: (node index << 1) | complement
static const Bdd BT = 0; // true  = node 0, no complement
static const Bdd BF = 1; // false = node 0, complement
static inline Bdd bnot(Bdd a) { return a ^ 1u; }

struct BddMgr {
    struct Node { uint32_t var; Bdd lo, hi; uint32_t next; };
    std::vector<Node> n;
    std::vector<uint8_t> atom;       // node support contains a theory atom
    std::vector<uint32_t> tab;
    uint32_t mask;
    struct CE { Bdd a, b, r; };
    std::vector<CE> cache;
    uint32_t cmask;
    std::vector<uint8_t> varAtom;
    size_t limit = 60u * 1000 * 1000;
    void (*onLimit)() = nullptr;

    BddMgr() {
        n.reserve(1 << 16);
        n.push_back({0xffffffffu, 0, 0, 0}); atom.push_back(0);
        tab.assign(1 << 16, 0); mask = (1 << 16) - 1;
        cache.assign(1 << 20, {0xffffffffu, 0xffffffffu, 0}); cmask = (1 << 20) - 1;
    }
    static uint32_t h3(uint32_t a, uint32_t b, uint32_t c) {
        uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (uint64_t) b * 0xC2B2AE3D27D4EB4Full ^ (uint64_t) c * 0x165667B19E3779F9ull;
        x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return (uint32_t) x;
    }
    void grow() {
        uint32_t ns = (mask + 1) * 2; tab.assign(ns, 0); mask = ns - 1;
        for (uint32_t i = 1; i < n.size(); i++) { uint32_t h = h3(n[i].var, n[i].lo, n[i].hi) & mask; n[i].next = tab[h]; tab[h] = i; }
        if (cache.size() < (1u << 23) && n.size() > cache.size()) { cache.assign(cache.size() * 4, {0xffffffffu, 0xffffffffu, 0}); cmask = cache.size() - 1; }
    }
    Bdd mk(uint32_t v, Bdd lo, Bdd hi) {
        if (lo == hi) return lo;
        uint32_t c = hi & 1; lo ^= c; hi ^= c; // hi edge is never complemented
        uint32_t h = h3(v, lo, hi) & mask;
        for (uint32_t i = tab[h]; i; i = n[i].next) if (n[i].var == v && n[i].lo == lo && n[i].hi == hi) return (i << 1) | c;
        if (n.size() >= limit && onLimit) onLimit();
        uint32_t id = n.size();
        n.push_back({v, lo, hi, tab[h]}); tab[h] = id;
        atom.push_back(varAtom[v] | atom[lo >> 1] | atom[hi >> 1]);
        if (n.size() > mask + 1) grow();
        return (id << 1) | c;
    }
    uint32_t newVar(bool isAtom) { varAtom.push_back(isAtom); return varAtom.size() - 1; }
    Bdd var(uint32_t v) { return mk(v, BF, BT); }
    bool hasAtom(Bdd a) const { return atom[a >> 1]; }
    Bdd land(Bdd a, Bdd b) {
        if (a == BF || b == BF) return BF;
        if (a == BT) return b;
        if (b == BT) return a;
        if (a == b) return a;
        if (a == (b ^ 1)) return BF;
        if (a > b) { Bdd t = a; a = b; b = t; }
        uint32_t h = h3(a, b, 7) & cmask;
        if (cache[h].a == a && cache[h].b == b) return cache[h].r;
        uint32_t va = n[a >> 1].var, vb = n[b >> 1].var, v = va < vb ? va : vb;
        Bdd al = a, ah = a, bl = b, bh = b;
        if (va == v) { al = n[a >> 1].lo ^ (a & 1); ah = n[a >> 1].hi ^ (a & 1); }
        if (vb == v) { bl = n[b >> 1].lo ^ (b & 1); bh = n[b >> 1].hi ^ (b & 1); }
        Bdd l = land(al, bl), hh = land(ah, bh);
        Bdd r = mk(v, l, hh);
        h = h3(a, b, 7) & cmask;
        cache[h] = {a, b, r};
        return r;
    }
    Bdd lor(Bdd a, Bdd b) { return bnot(land(bnot(a), bnot(b))); }
    Bdd diff(Bdd a, Bdd b) { return land(a, bnot(b)); }
};
