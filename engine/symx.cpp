// symx: bounded symbolic executor for LLVM IR with guarded value summaries.
//
// Every SSA value / memory cell is a set of (guard, leaf) pairs. Guards are
// propositional formulas over the symbolic input bits (kept canonical as BDDs so
// infeasible combinations are pruned) plus theory atoms over bit-vector terms.
// Paths are merged at joins, loops are unrolled until the guard of the back edge
// is unsatisfiable. Obligations are discharged by z3.
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <z3++.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
#include <math.h>
#include <chrono>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <functional>
#include <memory>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include "bdd.h"
using namespace llvm;
using std::string; using std::vector; using std::map; using std::set; using std::pair;

static BddMgr M;
static z3::context *Z;
static Module *Mod; static const DataLayout *DL;

// ------------------------------------------------------------------ options / stats
struct Opt {
    string entry, out = "-"; vector<int64_t> params; double timeout = 300; uint64_t maxIter = 4000; unsigned maxViol = 4;
    int preThr = -1, preAt = -1; unsigned defThreads = 1; unsigned qTimeout = 60000; bool race = true, verbose = false; unsigned maxLeaves = 20000;
    set<string> ignore; map<string, uint64_t> fixed; bool replay = false;
} opt;
struct Stats { uint64_t instrs = 0, blocks = 0, queries = 0, unsat = 0, sat = 0, unknown = 0, asserts = 0, accesses = 0, guardedAccesses = 0, racePairs = 0, maxIter = 0, objs = 0, obligations = 0, merges = 0, bddDecided = 0; double solver = 0; } st;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ------------------------------------------------------------------ leaves and value summaries
enum K : uint8_t { KINT, KPTR, KTERM, KUNDEF, KCAT };
struct Leaf {
    K k; uint32_t o; uint64_t v;
    bool operator==(const Leaf &b) const { return k == b.k && o == b.o && v == b.v; }
    bool operator<(const Leaf &b) const { return k != b.k ? k < b.k : o != b.o ? o < b.o : v < b.v; }
};
struct LeafH { size_t operator()(const Leaf &l) const { uint64_t x = l.v * 0x9E3779B97F4A7C15ull + l.o * 0xC2B2AE3D27D4EB4Full + l.k; return x ^ (x >> 31); } };
static Leaf LI(uint64_t v) { return {KINT, 0, v}; }
static Leaf LP(uint32_t o, int64_t off) { return {KPTR, o, (uint64_t) off}; }
static const Leaf LU = {KUNDEF, 0, 0};
struct Ent { Bdd g; Leaf l; };
typedef SmallVector<Ent, 2> GV;
static GV gv1(Leaf l) { GV r; r.push_back({BT, l}); return r; }
static GV gvi(uint64_t v) { return gv1(LI(v)); }
struct RV { GV g; vector<RV> agg; RV() {} RV(GV x) : g(std::move(x)) {} };

static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return (int64_t) v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t) ((v ^ m) - m); }

[[noreturn]] static void finish(const string &status, const string &why);
[[noreturn]] static void unsup(const string &s) { finish("inconclusive", s); }

struct Builder {
    GV r; std::unordered_map<Leaf, unsigned, LeafH> idx; bool big = false;
    void add(Bdd g, const Leaf &l) {
        if (g == BF) return;
        if (!big) {
            for (auto &e : r) if (e.l == l) { e.g = M.lor(e.g, g); return; }
            r.push_back({g, l});
            if (r.size() > 24) { big = true; for (unsigned i = 0; i < r.size(); i++) idx[r[i].l] = i; }
            return;
        }
        auto it = idx.find(l);
        if (it != idx.end()) { r[it->second].g = M.lor(r[it->second].g, g); return; }
        idx[l] = r.size(); r.push_back({g, l});
        if (r.size() > opt.maxLeaves) unsup("value summary exceeds leaf limit");
    }
    GV done() { if (r.size() == 1) r[0].g = BT; return std::move(r); }
};
static GV restrictG(const GV &a, Bdd g) {
    if (a.size() <= 1 || g == BT) return a;
    GV r;
    for (auto &e : a) { Bdd x = M.land(e.g, g); if (x != BF) r.push_back({x, e.l}); }
    if (r.size() == 1) r[0].g = BT;
    return r;
}
static GV mergeG(const GV &oldv, const GV &nw, Bdd g) { // nw under g, old elsewhere
    if (oldv.empty() || g == BT) return nw;
    if (oldv.size() == 1 && nw.size() == 1 && oldv[0].l == nw[0].l) return oldv;
    st.merges++;
    Builder b;
    for (auto &e : nw) b.add(M.land(e.g, g), e.l);
    Bdd ng = bnot(g);
    for (auto &e : oldv) b.add(M.land(e.g, ng), e.l);
    return b.done();
}
static RV mergeR(const RV &o, const RV &n, Bdd g) {
    RV r;
    if (!n.agg.empty()) {
        r.agg.resize(n.agg.size());
        for (unsigned i = 0; i < n.agg.size(); i++) r.agg[i] = i < o.agg.size() ? mergeR(o.agg[i], n.agg[i], g) : n.agg[i];
        return r;
    }
    r.g = mergeG(o.g, n.g, g);
    return r;
}

// ------------------------------------------------------------------ terms, atoms, z3
static vector<z3::expr> terms; static std::unordered_map<unsigned, unsigned> termIdx;
static unsigned mkTerm(z3::expr e) {
    auto it = termIdx.find(Z3_get_ast_id(*Z, e));
    if (it != termIdx.end()) return it->second;
    termIdx[Z3_get_ast_id(*Z, e)] = terms.size(); terms.push_back(e); return terms.size() - 1;
}
static Leaf termLeaf(z3::expr e) {
    e = e.simplify();
    uint64_t v;
    if (e.is_numeral() && Z3_get_numeral_uint64(*Z, e, &v)) return LI(v);
    return {KTERM, 0, mkTerm(e)};
}
static vector<z3::expr> varExpr; // bdd var -> z3 bool
static std::unordered_map<unsigned, unsigned> atomVar;
static Bdd atomBdd(z3::expr e) {
    e = e.simplify();
    if (e.is_true()) return BT;
    if (e.is_false()) return BF;
    bool neg = false;
    while (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT) { e = e.arg(0); neg = !neg; }
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_EQ && e.arg(0).is_bv() && e.arg(0).get_sort().bv_size() == 1) // bit == 0 is not (bit == 1)
        for (unsigned i = 0; i < 2; i++) { uint64_t v; z3::expr k = e.arg(i); if (k.is_numeral() && Z3_get_numeral_uint64(*Z, k, &v)) { e = e.arg(1 - i) == Z->bv_val(1, 1); if (!v) neg = !neg; break; } }
    unsigned id = Z3_get_ast_id(*Z, e); unsigned v;
    auto it = atomVar.find(id);
    if (it != atomVar.end()) v = it->second;
    else { v = M.newVar(true); varExpr.push_back(e); atomVar[id] = v; }
    Bdd b = M.var(v);
    return neg ? bnot(b) : b;
}
static std::unordered_map<uint32_t, Z3_ast> b2z; static vector<z3::expr> keep;
static z3::expr toZ3(Bdd b) {
    if (b == BT) return Z->bool_val(true);
    if (b == BF) return Z->bool_val(false);
    // iterative post-order
    vector<uint32_t> stk{b >> 1};
    while (!stk.empty()) {
        uint32_t x = stk.back();
        if (x == 0 || b2z.count(x)) { stk.pop_back(); continue; }
        auto nd = M.n[x]; bool ok = true;
        for (Bdd c : {nd.lo, nd.hi}) if ((c >> 1) && !b2z.count(c >> 1)) { stk.push_back(c >> 1); ok = false; }
        if (!ok) continue;
        auto ge = [&](Bdd c) -> z3::expr { if ((c >> 1) == 0) return Z->bool_val(c == BT); z3::expr e(*Z, b2z[c >> 1]); return (c & 1) ? !e : e; };
        z3::expr v = varExpr[nd.var], hi = ge(nd.hi), lo = ge(nd.lo), r(*Z);
        if (nd.hi == BT && nd.lo == BF) r = v;
        else if (nd.lo == BF) r = v && hi;
        else if (nd.lo == BT) r = !v || hi;
        else if (nd.hi == BT) r = v || lo;
        else r = z3::ite(v, hi, lo);
        keep.push_back(r); b2z[x] = r; stk.pop_back();
    }
    z3::expr e(*Z, b2z[b >> 1]);
    return (b & 1) ? !e : e;
}
struct Input { string name; unsigned kind; unsigned bits; uint64_t lo, hi; vector<z3::expr> b; z3::expr t; Bdd g = BT; };
static vector<Input> inputs; static map<string, unsigned> nameCnt;
static z3::solver *S;
static vector<z3::expr> theoryFacts; // global facts on terms
typedef vector<pair<string, uint64_t>> Model;
static int solve(const vector<z3::expr> &fs, Model *m) { // 1 sat 0 unsat -1 unknown
    auto t = std::chrono::steady_clock::now();
    S->push();
    for (auto &f : fs) S->add(f);
    for (auto &f : theoryFacts) S->add(f);
    z3::check_result r = S->check();
    st.queries++;
    if (r == z3::sat && m) {
        z3::model mo = S->get_model();
        // only the inputs drawn on the path of this model, numbered in the order in which that path draws them
        map<string, unsigned> cnt;
        for (auto &in : inputs) {
            uint64_t v = 0;
            if (in.g != BT && !mo.eval(toZ3(in.g), true).is_true()) continue;
            string base = in.name.substr(0, in.name.rfind('#')); unsigned k = cnt[base]++;
            if (in.kind == 0) { for (unsigned i = 0; i < in.b.size(); i++) if (mo.eval(in.b[i], true).is_true()) v |= 1ull << i; v += in.lo; if (v > in.hi) v = in.hi; }
            else { z3::expr e = mo.eval(in.t, true); Z3_get_numeral_uint64(*Z, e, &v); }
            m->push_back({k ? base + "#" + std::to_string(k) : base, v});
        }
    }
    S->pop();
    st.solver += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
    if (r == z3::sat) { st.sat++; return 1; }
    if (r == z3::unsat) { st.unsat++; return 0; }
    st.unknown++; return -1;
}
// a satisfying cube of a guard without theory atoms: exact, no search needed
static z3::expr cubeOf(Bdd b) {
    z3::expr_vector v(*Z);
    while ((b >> 1) != 0) { auto &nd = M.n[b >> 1]; Bdd lo = nd.lo ^ (b & 1), hi = nd.hi ^ (b & 1); if (lo != BF) { v.push_back(!varExpr[nd.var]); b = lo; } else { v.push_back(varExpr[nd.var]); b = hi; } }
    return z3::mk_and(v);
}
static size_t bddSize(Bdd b, size_t lim) {
    std::unordered_map<uint32_t, bool> seen; vector<uint32_t> stk{b >> 1};
    while (!stk.empty() && seen.size() < lim) { uint32_t x = stk.back(); stk.pop_back(); if (x == 0 || seen.count(x)) continue; seen[x] = true; stk.push_back(M.n[x].lo >> 1); stk.push_back(M.n[x].hi >> 1); }
    return seen.size();
}
static std::unordered_map<Bdd, bool> feasCache;
static bool feasible(Bdd g) {
    if (g == BF) return false;
    if (!M.hasAtom(g)) return true;
    auto it = feasCache.find(g);
    if (it != feasCache.end()) return it->second;
    int r = solve({toZ3(g)}, nullptr);
    return feasCache[g] = (r != 0);
}

// ------------------------------------------------------------------ violations
struct Viol { string kind, msg, loc; Model m; };
static vector<Viol> viols; static set<string> violKeys; static set<string> covers; static vector<string> incon;
static string curLoc();
// returns the guard that remains infeasible-free: caller continues with diff(g, bad)
static void report(const string &kind, const string &msg, Bdd bad, string loc = "") {
    if (bad == BF) return;
    st.obligations++;
    if (loc.empty()) loc = curLoc();
    string key = kind + "|" + msg + "|" + loc;
    if (violKeys.count(key)) return;
    for (auto &ig : opt.ignore) if (key.find(ig) != string::npos) return;
    Model m; int r = M.hasAtom(bad) ? solve({toZ3(bad)}, &m) : solve({cubeOf(bad)}, &m);
    if (r == 0) return;
    if (r < 0) { incon.push_back("solver unknown: " + key); return; }
    violKeys.insert(key); viols.push_back({kind, msg, loc, m});
    if (opt.verbose) fprintf(stderr, "VIOL %s %s @ %s\n", kind.c_str(), msg.c_str(), loc.c_str());
    if (viols.size() >= opt.maxViol) finish("violation", "");
}

// ------------------------------------------------------------------ memory objects
struct Cell { uint8_t w; SmallVector<Ent, 2> e; };
enum OK { OHEAP, OSTACK, OGLOBAL, OFUNC, OARG };
struct Obj {
    OK kind; GV size; string name; Bdd alloc = BT, freed = BF; bool zero = false, ro = false; int allocKind = 0;
    map<int64_t, SmallVector<Cell, 1>> cells; Function *fn = nullptr; uint64_t base = 0; int owner = -1; unsigned region = 0; unsigned epoch = 0;
    int symAlign = -1; // index into inputs for symbolic alignment
    GV alignGV;
};
static vector<std::unique_ptr<Obj>> objs;
static uint64_t nextBase = 0x100000;
static unsigned heapEpoch = 0;
struct Team;
struct TC { int tid = 0, nth = 1, depth = 0; unsigned region = 0; int lock = 0; struct Frame *top = nullptr; Team *team = nullptr; vector<int> locks; };
static TC mainT; static TC *T = &mainT;
static unsigned regionCounter = 0;

static uint32_t newObj(OK k, GV size, const string &name) {
    auto o = std::make_unique<Obj>();
    o->kind = k; uint64_t mx = 0;
    for (auto &e : size) if (e.l.k == KINT) mx = std::max(mx, e.l.v);
    o->size = std::move(size); o->name = name;
    if (mx > (1ull << 40)) mx = 1ull << 40;
    o->base = nextBase; nextBase += ((mx + 4096 + 255) / 256) * 256;
    o->owner = T->tid; o->region = T->region; o->epoch = heapEpoch;
    objs.push_back(std::move(o)); st.objs++;
    return objs.size() - 1;
}
// composite leaves: sequence of (leaf, bytes)
struct CatP { Leaf l; unsigned w; };
static vector<vector<CatP>> cats; static map<vector<pair<Leaf, unsigned>>, unsigned> catIdx;
static Leaf subLeaf(const Leaf &l, unsigned w, unsigned off, unsigned n);
static z3::expr tz(const Leaf &l, unsigned bits) { if (l.k == KTERM) return terms[l.v]; return Z->bv_val((uint64_t) l.v, bits); }
static Leaf mkCat(vector<CatP> ps) {
    // flatten
    vector<CatP> f;
    for (auto &p : ps) { if (p.l.k == KCAT) for (auto &q : cats[p.l.v]) f.push_back(q); else f.push_back(p); }
    bool allu = true, allint = true, numeric = true; unsigned tot = 0;
    for (auto &p : f) { allu &= p.l.k == KUNDEF; allint &= p.l.k == KINT; numeric &= p.l.k == KINT || p.l.k == KTERM; tot += p.w; }
    if (f.size() == 1) return f[0].l;
    if (allu) return LU;
    if (allint && tot <= 8) { uint64_t v = 0; unsigned s = 0; for (auto &p : f) { v |= (p.l.v & maskw(8 * p.w)) << (8 * s); s += p.w; } return LI(v); }
    if (numeric && tot <= 8) { z3::expr e = tz(f.back().l, f.back().w * 8); for (int i = (int) f.size() - 2; i >= 0; i--) e = z3::concat(e, tz(f[i].l, f[i].w * 8)); return termLeaf(e); }
    // re-join adjacent slices of one pointer
    if (true) {
        // slices are CAT pieces tagged KPTR with o having high marker; only whole pointers are re-joined
        vector<pair<Leaf, unsigned>> key; for (auto &p : f) key.push_back({p.l, p.w});
        auto it = catIdx.find(key);
        if (it != catIdx.end()) return {KCAT, 0, it->second};
        unsigned id = cats.size(); cats.push_back(f); catIdx[key] = id; return {KCAT, 0, id};
    }
}
// pointer byte slices: represented as KCAT with special single piece list {ptr, marker}
static vector<std::tuple<Leaf, unsigned, unsigned>> slices; // (whole leaf, off, n)
static Leaf subLeaf(const Leaf &l, unsigned w, unsigned off, unsigned n) {
    if (off == 0 && n == w) return l;
    switch (l.k) {
        case KINT: return LI((l.v >> (8 * off)) & maskw(8 * n));
        case KUNDEF: return LU;
        case KTERM: return termLeaf(terms[l.v].extract(8 * (off + n) - 1, 8 * off));
        case KPTR: { // slice of a pointer: kept symbolic as UNDEF-like marker
            unsup("partial access to a pointer value");
        }
        case KCAT: {
            vector<CatP> out; unsigned p = 0;
            for (auto &q : cats[l.v]) {
                unsigned a = std::max(p, off), b = std::min(p + q.w, off + n);
                if (a < b) out.push_back({subLeaf(q.l, q.w, a - p, b - a), b - a});
                p += q.w;
            }
            return mkCat(out);
        }
    }
    return LU;
}
static void addEnt(SmallVector<Ent, 2> &v, Bdd g, const Leaf &l) { if (g == BF) return; for (auto &e : v) if (e.l == l) { e.g = M.lor(e.g, g); return; } v.push_back({g, l}); }
static Cell &cellAt(Obj &o, int64_t off, unsigned w) {
    auto &v = o.cells[off];
    for (auto &c : v) if (c.w == w) return c;
    v.push_back(Cell{(uint8_t) w, {}}); return v.back();
}
static void memWrite(Obj &o, int64_t off, unsigned w, const GV &val, Bdd g) {
    if (g == BF) return;
    // clear overlap
    auto it = o.cells.lower_bound(off - 15);
    struct Pend { int64_t off; unsigned w; Bdd g; Leaf l; }; vector<Pend> pend;
    for (; it != o.cells.end() && it->first < off + (int64_t) w; ++it) {
        for (auto &c : it->second) {
            int64_t b = it->first, e = b + c.w;
            if (e <= off) continue;
            if (c.e.empty()) continue;
            SmallVector<Ent, 2> keepE;
            for (auto &en : c.e) {
                Bdd h = M.diff(en.g, g);
                if (h != en.g && !(b >= off && e <= off + (int64_t) w)) {
                    Bdd x = M.land(en.g, g);
                    if (b < off) pend.push_back({b, (unsigned) (off - b), x, subLeaf(en.l, c.w, 0, off - b)});
                    if (e > off + (int64_t) w) pend.push_back({off + (int64_t) w, (unsigned) (e - off - w), x, subLeaf(en.l, c.w, off + w - b, e - off - w)});
                }
                if (h != BF) keepE.push_back({h, en.l});
            }
            c.e = std::move(keepE);
        }
    }
    for (auto &p : pend) {
        // split into power of two pieces
        int64_t po = p.off; unsigned rem = p.w, done = 0;
        while (rem) { unsigned s = 8; while (s > rem || (po % s)) s >>= 1; addEnt(cellAt(o, po, s).e, p.g, subLeaf(p.l, p.w, done, s)); po += s; done += s; rem -= s; }
    }
    Cell &c = cellAt(o, off, w);
    if (val.size() == 1) addEnt(c.e, g, val[0].l);
    else if (c.e.size() + val.size() > 32) {
        std::unordered_map<Leaf, unsigned, LeafH> ix; for (unsigned i = 0; i < c.e.size(); i++) ix[c.e[i].l] = i;
        for (auto &en : val) { Bdd h = M.land(en.g, g); if (h == BF) continue; auto f = ix.find(en.l); if (f != ix.end()) c.e[f->second].g = M.lor(c.e[f->second].g, h); else { ix[en.l] = c.e.size(); c.e.push_back({h, en.l}); } }
    } else for (auto &en : val) addEnt(c.e, M.land(en.g, g), en.l);
}
static void memRead(Obj &o, int64_t off, unsigned w, Bdd g, Builder &out) {
    if (g == BF) return;
    Bdd rem = g; bool other = false;
    auto it = o.cells.lower_bound(off - 15);
    for (; it != o.cells.end() && it->first < off + (int64_t) w; ++it)
        for (auto &c : it->second) {
            if (it->first + c.w <= off || c.e.empty()) continue;
            if (it->first == off && c.w == w) {
                for (auto &en : c.e) { Bdd x = M.land(en.g, g); if (x != BF) { out.add(x, en.l); rem = M.diff(rem, en.g); } if (rem == BF) return; }
            } else other = true;
        }
    if (rem == BF) return;
    if (other) {
        // is any other overlapping cell live under rem?
        bool live = false;
        it = o.cells.lower_bound(off - 15);
        for (; !live && it != o.cells.end() && it->first < off + (int64_t) w; ++it)
            for (auto &c : it->second) { if (it->first + c.w <= off || (it->first == off && c.w == w)) continue; for (auto &en : c.e) if (M.land(en.g, rem) != BF) { live = true; break; } }
        if (live) {
            // containing cells first
            it = o.cells.lower_bound(off - 15);
            for (; it != o.cells.end() && it->first <= off; ++it)
                for (auto &c : it->second) {
                    if (it->first + (int64_t) c.w < off + (int64_t) w || (it->first == off && c.w == w)) continue;
                    for (auto &en : c.e) { Bdd x = M.land(en.g, rem); if (x != BF) { out.add(x, subLeaf(en.l, c.w, off - it->first, w)); rem = M.diff(rem, en.g); } }
                    if (rem == BF) return;
                }
            if (w > 1) {
                unsigned h = 1; while (h * 2 < w) h *= 2;
                Builder lo, hi; memRead(o, off, h, rem, lo); memRead(o, off + h, w - h, rem, hi);
                // lo/hi entries carry explicit guards (not normalised)
                for (auto &a : lo.r) for (auto &b : hi.r) { Bdd x = M.land(a.g, b.g); if (x != BF) out.add(x, mkCat({{a.l, h}, {b.l, w - h}})); }
                return;
            }
        }
    }
    if (rem != BF) out.add(rem, o.zero ? LI(0) : LU);
}

// ------------------------------------------------------------------ race log
struct AccKey { uint32_t o; int64_t off; uint16_t w; int16_t cls; bool operator<(const AccKey &b) const { return o != b.o ? o < b.o : off != b.off ? off < b.off : w != b.w ? w < b.w : cls < b.cls; } };
struct Acc { vector<Bdd> r, w; string loc[2]; };
struct Team {
    unsigned nth; map<AccKey, Acc> log; bool raceOn;
    struct Disp { int64_t lb, ub, st, chunk, n; unsigned kind; vector<int> owner; vector<GV> pos; int initCount = 0; vector<char> started; }; std::shared_ptr<Disp> disp;
    vector<int> singleCnt; set<int> dummy;
    vector<unsigned> singleSeen, dispSeen; vector<std::shared_ptr<Disp>> disps;
};
static void logAcc(uint32_t o, int64_t off, unsigned w, bool wr, Bdd g, int cls) {
    if (!T->team || !T->team->raceOn || T->depth != 1) return;
    Obj &ob = *objs[o];
    if (ob.kind == OSTACK && ob.region == T->region && ob.owner == T->tid) return;
    if (ob.ro) return;
    auto &a = T->team->log[{o, off, (uint16_t) w, (int16_t) cls}];
    if (a.r.empty()) { a.r.assign(T->team->nth, BF); a.w.assign(T->team->nth, BF); }
    auto &x = wr ? a.w[T->tid] : a.r[T->tid];
    if (a.loc[wr].empty()) a.loc[wr] = curLoc();
    x = M.lor(x, g);
}
static void raceCheck(Team &t) {
    vector<pair<AccKey, Acc *>> v; for (auto &p : t.log) v.push_back({p.first, &p.second});
    for (size_t i = 0; i < v.size(); i++) {
        for (size_t j = i; j < v.size(); j++) {
            if (v[j].first.o != v[i].first.o || v[j].first.off >= v[i].first.off + v[i].first.w) break;
            if (v[i].first.cls && v[i].first.cls == v[j].first.cls) continue;
            for (unsigned a = 0; a < t.nth; a++) for (unsigned b = 0; b < t.nth; b++) {
                if (a == b || (i == j && a > b)) continue;
                Acc &x = *v[i].second, &y = *v[j].second;
                Bdd c1 = M.land(x.w[a], M.lor(y.w[b], y.r[b])), c2 = M.land(x.r[a], y.w[b]);
                if (x.w[a] != BF || x.r[a] != BF) st.racePairs++;
                Bdd c = M.lor(c1, c2);
                if (c != BF) report("race", "unsynchronised conflicting accesses to " + objs[v[i].first.o]->name, c, (x.loc[1].empty() ? x.loc[0] : x.loc[1]) + " / " + (y.loc[1].empty() || &x == &y ? y.loc[y.loc[0].empty()] : y.loc[1]));
            }
        }
    }
    t.log.clear();
}

// ------------------------------------------------------------------ checked access
static bool inRange(int64_t off, uint64_t w, const Leaf &sz) { return sz.k == KINT && off >= 0 && (uint64_t) off + w <= sz.v; }
// calls f(obj, off, guard) for each valid target; returns guard under which access was valid
template<class Fn> static Bdd access(const GV &p0, uint64_t w, bool wr, Bdd g, Fn f, int cls = 0) {
    Bdd ok = BF; GV p = restrictG(p0, g);
    st.accesses++; if (p.size() > 1) st.guardedAccesses++;
    Bdd bad = BF;
    for (auto &e : p) {
        Bdd h = M.land(e.g, g);
        if (h == BF) continue;
        if (e.l.k == KINT || e.l.k == KTERM) { report(e.l.v == 0 && e.l.k == KINT ? "null-deref" : "wild-pointer", wr ? "write" : "read", h); bad = M.lor(bad, h); continue; }
        if (e.l.k == KUNDEF || e.l.k == KCAT) { report("uninit-pointer", wr ? "write" : "read", h); bad = M.lor(bad, h); continue; }
        Obj &o = *objs[e.l.o]; int64_t off = (int64_t) e.l.v;
        if (w == 0) { ok = M.lor(ok, h); continue; }
        for (auto &s : o.size) if (!inRange(off, w, s.l)) { Bdd x = M.land(h, s.g); if (x != BF && feasible(x)) { report("out-of-bounds", string(wr ? "write" : "read") + " beyond " + o.name, x); bad = M.lor(bad, x); h = M.diff(h, x); } else h = M.diff(h, x); }
        if (o.freed != BF) { Bdd x = M.land(h, o.freed); if (x != BF) { report("use-after-free", string(wr ? "write to " : "read of ") + o.name, x); h = M.diff(h, x); } }
        if (wr && o.ro) { report("write-to-constant", o.name, h); continue; }
        if (h == BF) continue;
        ok = M.lor(ok, h);
        if (o.kind != OFUNC) { logAcc(e.l.o, off, w, wr, h, cls); f(o, off, h); }
    }
    return ok;
}
static GV loadGV(const GV &p, unsigned w, Bdd &g, int cls = 0) {
    Builder b;
    g = access(p, w, false, g, [&](Obj &o, int64_t off, Bdd h) { memRead(o, off, w, h, b); }, cls);
    GV r = b.done(); if (r.empty()) r = gv1(LU); return r;
}
static void storeGV(const GV &p, unsigned w, const GV &v, Bdd &g, int cls = 0) {
    g = access(p, w, true, g, [&](Obj &o, int64_t off, Bdd h) { memWrite(o, off, w, v, h); }, cls);
}

// ------------------------------------------------------------------ functions
struct FI { Function *F; DenseMap<const Value *, unsigned> slot; unsigned nslots = 0; vector<BasicBlock *> order; DenseMap<const BasicBlock *, unsigned> idx; vector<char> isHeader; };
static DenseMap<const Function *, FI *> fis;
static void wtoRec(vector<BasicBlock *> &nodes, set<BasicBlock *> &in, BasicBlock *start, vector<BasicBlock *> &out, set<BasicBlock *> &headers) {
    // Tarjan SCC over nodes restricted to 'in'
    map<BasicBlock *, int> num, low; vector<BasicBlock *> stk; set<BasicBlock *> on; int cnt = 0; vector<vector<BasicBlock *>> sccs;
    struct It { BasicBlock *b; unsigned i; };
    auto run = [&](BasicBlock *s) {
        vector<It> cs; cs.push_back({s, 0}); num[s] = low[s] = ++cnt; stk.push_back(s); on.insert(s);
        while (!cs.empty()) {
            auto &c = cs.back(); auto *t = c.b->getTerminator();
            if (c.i < t->getNumSuccessors()) {
                BasicBlock *n = t->getSuccessor(c.i++);
                if (!in.count(n)) continue;
                if (!num.count(n)) { num[n] = low[n] = ++cnt; stk.push_back(n); on.insert(n); cs.push_back({n, 0}); }
                else if (on.count(n)) low[c.b] = std::min(low[c.b], num[n]);
            } else {
                BasicBlock *b = c.b; cs.pop_back();
                if (!cs.empty()) low[cs.back().b] = std::min(low[cs.back().b], low[b]);
                if (low[b] == num[b]) { vector<BasicBlock *> scc; BasicBlock *x; do { x = stk.back(); stk.pop_back(); on.erase(x); scc.push_back(x); } while (x != b); sccs.push_back(scc); }
            }
        }
    };
    if (start) run(start);
    for (auto *b : nodes) if (!num.count(b)) run(b);
    // reverse order of completion = topological
    // components not reachable from start come from later runs; sort by runs reversed is still topological
    for (int i = (int) sccs.size() - 1; i >= 0; i--) {
        auto &scc = sccs[i];
        if (scc.size() == 1) {
            BasicBlock *b = scc[0]; bool self = false; auto *t = b->getTerminator();
            for (unsigned k = 0; k < t->getNumSuccessors(); k++) if (t->getSuccessor(k) == b) self = true;
            if (self) headers.insert(b);
            out.push_back(b);
        } else {
            // header: the block with an incoming edge from outside; pick min num
            set<BasicBlock *> inner(scc.begin(), scc.end()); BasicBlock *h = nullptr;
            for (auto *b : scc) if (!h || num[b] < num[h]) h = b;
            headers.insert(h); inner.erase(h); out.push_back(h);
            vector<BasicBlock *> rest;
            // keep deterministic order by num
            for (auto *b : scc) if (b != h) rest.push_back(b);
            std::sort(rest.begin(), rest.end(), [&](BasicBlock *a, BasicBlock *b) { return num[a] < num[b]; });
            wtoRec(rest, inner, nullptr, out, headers);
        }
    }
}
static FI *getFI(Function *F) {
    auto it = fis.find(F); if (it != fis.end()) return it->second;
    FI *fi = new FI; fi->F = F;
    for (auto &a : F->args()) fi->slot[&a] = fi->nslots++;
    vector<BasicBlock *> nodes; set<BasicBlock *> in;
    for (auto &b : *F) { nodes.push_back(&b); in.insert(&b); for (auto &i : b) if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->nslots++; }
    set<BasicBlock *> headers; 
    // restrict to reachable blocks
    { set<BasicBlock *> seen; vector<BasicBlock *> q{&F->getEntryBlock()}; while (!q.empty()) { auto *b = q.back(); q.pop_back(); if (!seen.insert(b).second) continue; for (auto *s : successors(b)) q.push_back(s); } vector<BasicBlock *> n2; for (auto *b : nodes) if (seen.count(b)) n2.push_back(b); nodes = n2; in = seen; }
    wtoRec(nodes, in, &F->getEntryBlock(), fi->order, headers);
    fi->isHeader.resize(fi->order.size());
    for (unsigned i = 0; i < fi->order.size(); i++) { fi->idx[fi->order[i]] = i; fi->isHeader[i] = headers.count(fi->order[i]); }
    return fis[F] = fi;
}
struct Frame {
    FI *fi; vector<RV> s; map<unsigned, Bdd> pend; Frame *up; Instruction *cur = nullptr; vector<uint32_t> stackObjs; vector<uint32_t> iters; vector<RV> varargs;
};
static string dloc(const Instruction *i) {
    string r;
    if (!i) return "?";
    const DILocation *l = i->getDebugLoc().get();
    while (l) { string f = l->getFilename().str(); size_t p = f.find("/repo/"); if (p != string::npos) f = f.substr(p + 6); else { p = f.rfind('/'); if (p != string::npos) f = f.substr(p + 1); }
        r += (r.empty() ? "" : "<-") + f + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); }
    return r.empty() ? i->getFunction()->getName().str() : r;
}
static string curLoc() {
    string r; int n = 0;
    for (Frame *f = T->top; f && n < 6; f = f->up, n++) r += (r.empty() ? "" : "<-") + dloc(f->cur);
    return r;
}
static set<string> reached; // "file:function"
static std::unordered_map<const void *, char> spSeen;
static void noteFn(const Instruction *i) {
    const DILocation *l = i->getDebugLoc().get();
    while (l) {
        auto *sp = l->getScope()->getSubprogram();
        if (sp && !spSeen[sp]) {
            spSeen[sp] = 1; string f = sp->getFilename().str(); 
            if (sp->getFile()) { string d = sp->getDirectory().str(); if (!f.empty() && f[0] != '/') f = d + "/" + f; }
            size_t p = f.find("/repo/"); if (p != string::npos) reached.insert(f.substr(p + 6) + ":" + sp->getName().str());
        }
        l = l->getInlinedAt();
    }
}

// ------------------------------------------------------------------ constants
static DenseMap<const GlobalValue *, uint32_t> globObj;
static DenseMap<const Constant *, GV> constCache;
static GV evalConst(const Constant *c);
static RV evalConstR(const Constant *c) {
    Type *t = c->getType();
    if (t->isStructTy() || t->isArrayTy()) { RV r; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; i++) r.agg.push_back(evalConstR(c->getAggregateElement(i))); return r; }
    return RV(evalConst(c));
}
static void initObj(Obj &o, int64_t off, const Constant *c) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *s = dyn_cast<ConstantDataSequential>(c)) { unsigned w = DL->getTypeAllocSize(s->getElementType()); for (unsigned i = 0; i < s->getNumElements(); i++) initObj(o, off + (int64_t) i * w, s->getElementAsConstant(i)); return; }
    if (t->isStructTy()) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) initObj(o, off + (int64_t) sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (t->isArrayTy()) { unsigned w = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) initObj(o, off + (int64_t) i * w, c->getAggregateElement(i)); return; }
    memWrite(o, off, DL->getTypeStoreSize(t), evalConst(c), BT);
}
static uint32_t globalObj(const GlobalValue *gv) {
    auto it = globObj.find(gv); if (it != globObj.end()) return it->second;
    if (auto *a = dyn_cast<GlobalAlias>(gv)) return globObj[gv] = globalObj(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
    if (auto *f = dyn_cast<Function>(gv)) { uint32_t id = newObj(OFUNC, gvi(1), f->getName().str()); objs[id]->fn = const_cast<Function *>(f); return globObj[gv] = id; }
    auto *g = cast<GlobalVariable>(gv);
    uint32_t id = newObj(OGLOBAL, gvi(DL->getTypeAllocSize(g->getValueType())), g->getName().str());
    globObj[gv] = id; objs[id]->zero = true; objs[id]->owner = -1; objs[id]->region = 0;
    if (g->hasInitializer()) { initObj(*objs[id], 0, g->getInitializer()); }
    objs[id]->ro = g->isConstant();
    return id;
}
static GV binop(unsigned op, const GV &a, const GV &b, unsigned w, Bdd &g);
static GV castop(unsigned op, const GV &a, Type *st_, Type *dt, Bdd g);
static GV gepAdd(const GV &base, const GV &idx, int64_t scale, unsigned iw, Bdd g);
static GV evalConst(const Constant *c) {
    auto it = constCache.find(c); if (it != constCache.end()) return it->second;
    GV r;
    if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) { if (i->getValue().getActiveBits() > 64) unsup("i128 constant"); } r = gvi(i->getValue().getLoBits(std::min(64u, i->getBitWidth())).getZExtValue()); }
    else if (auto *f = dyn_cast<ConstantFP>(c)) { r = gvi(f->getValueAPF().bitcastToAPInt().getLimitedValue()); }
    else if (isa<ConstantPointerNull>(c)) r = gvi(0);
    else if (isa<UndefValue>(c)) r = gv1(LU);
    else if (auto *gl = dyn_cast<GlobalValue>(c)) r = gv1(LP(globalObj(gl), 0));
    else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        Bdd g = BT;
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) unsup("const gep");
            r = gepAdd(evalConst(cast<Constant>(gep->getPointerOperand())), gvi(off.getZExtValue()), 1, 64, BT);
        } else if (ce->isCast()) r = castop(ce->getOpcode(), evalConst(ce->getOperand(0)), ce->getOperand(0)->getType(), ce->getType(), BT);
        else if (Instruction::isBinaryOp(ce->getOpcode())) r = binop(ce->getOpcode(), evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)), ce->getType()->getIntegerBitWidth(), g);
        else unsup("constant expression");
    } else if (isa<ConstantAggregateZero>(c)) r = gvi(0);
    else { string s; raw_string_ostream os(s); c->print(os); unsup("constant " + os.str()); }
    constCache[c] = r; return r;
}

// ------------------------------------------------------------------ arithmetic
static uint64_t addrOf(const Leaf &l) { return l.k == KPTR ? objs[l.o]->base + l.v : l.v; }
static Bdd atomOf(z3::expr e) { return atomBdd(e); }
static bool concBin(unsigned op, uint64_t a, uint64_t b, unsigned w, uint64_t &r, bool &dz) {
    dz = false; uint64_t m = maskw(w);
    switch (op) {
        case Instruction::Add: r = (a + b) & m; return true;
        case Instruction::Sub: r = (a - b) & m; return true;
        case Instruction::Mul: r = (a * b) & m; return true;
        case Instruction::UDiv: if (!(b & m)) { dz = true; return false; } r = (a & m) / (b & m); return true;
        case Instruction::URem: if (!(b & m)) { dz = true; return false; } r = (a & m) % (b & m); return true;
        case Instruction::SDiv: { int64_t x = sext(a, w), y = sext(b, w); if (!y) { dz = true; return false; } if (y == -1) { r = (0 - (uint64_t) x) & m; return true; } r = (uint64_t) (x / y) & m; return true; }
        case Instruction::SRem: { int64_t x = sext(a, w), y = sext(b, w); if (!y) { dz = true; return false; } if (y == -1) { r = 0; return true; } r = (uint64_t) (x % y) & m; return true; }
        case Instruction::Shl: r = b >= w ? 0 : (a << b) & m; return true;
        case Instruction::LShr: r = b >= w ? 0 : (a & m) >> b; return true;
        case Instruction::AShr: r = b >= w ? (sext(a, w) < 0 ? m : 0) : (uint64_t) (sext(a, w) >> b) & m; return true;
        case Instruction::And: r = a & b; return true;
        case Instruction::Or: r = a | b; return true;
        case Instruction::Xor: r = (a ^ b) & m; return true;
    }
    unsup("binary op"); return false;
}
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { uint32_t x = v; float d; memcpy(&d, &x, 4); return d; }
static uint64_t frD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t frF(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static string uniq(const string &n) { unsigned k = nameCnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static GV mkInput(const string &name0, uint64_t lo, uint64_t hi, Bdd &g) {
    string name = uniq(name0);
    if (opt.replay) { // concrete re-execution
        uint64_t v = lo; auto f = opt.fixed.find(name); if (f != opt.fixed.end()) v = f->second;
        inputs.push_back({name, 0, 0, lo, hi, {}, Z->bool_val(true), g}); return gvi(v);
    }
    if (lo == hi) { inputs.push_back({name, 0, 0, lo, hi, {}, Z->bool_val(true), g}); return gvi(lo); }
    if (hi < lo || hi - lo > 65535) unsup("sx_int domain");
    unsigned nb = 0; while ((hi - lo) >> nb) nb++;
    Input in{name, 0, nb, lo, hi, {}, Z->bool_val(true), g}; vector<Bdd> bits;
    for (unsigned i = 0; i < nb; i++) { z3::expr b = Z->bool_const((name + "!" + std::to_string(i)).c_str()); in.b.push_back(b); }
    vector<unsigned> vs(nb);
    for (int i = nb - 1; i >= 0; i--) { vs[i] = M.newVar(false); }
    // varExpr must be pushed in var order (msb first)
    for (int i = nb - 1; i >= 0; i--) varExpr.push_back(in.b[i]);
    for (unsigned i = 0; i < nb; i++) bits.push_back(M.var(vs[i]));
    GV r; Bdd dom = BF;
    for (uint64_t v = lo; v <= hi; v++) { Bdd x = BT; for (unsigned i = 0; i < nb; i++) x = M.land(x, ((v - lo) >> i & 1) ? bits[i] : bnot(bits[i])); r.push_back({x, LI(v)}); dom = M.lor(dom, x); }
    g = M.land(g, dom);
    inputs.push_back(in);
    return r;
}
// symbolic alignment of heap objects (multiples of 16 modulo 64)
static GV numeric(const Leaf &l, Bdd &g) { return gvi(addrOf(l)); }

static GV fbin(unsigned op, const GV &a, const GV &b, Type *t, Bdd g) {
    Builder r; bool dbl = t->isDoubleTy();
    if (!dbl && !t->isFloatTy()) unsup("fp type");
    for (auto &x : a) for (auto &y : b) {
        Bdd h = a.size() == 1 && b.size() == 1 ? BT : M.land(M.land(x.g, y.g), g); if (h == BF) continue;
        if (x.l.k == KUNDEF || y.l.k == KUNDEF) { r.add(h, LU); continue; }
        if (x.l.k != KINT || y.l.k != KINT) unsup("symbolic fp arithmetic");
        uint64_t v;
        if (dbl) { double p = asD(x.l.v), q = asD(y.l.v), z; switch (op) { case Instruction::FAdd: z = p + q; break; case Instruction::FSub: z = p - q; break; case Instruction::FMul: z = p * q; break; case Instruction::FDiv: z = p / q; break; case Instruction::FRem: z = fmod(p, q); break; default: unsup("fp op"); } v = frD(z); }
        else { float p = asF(x.l.v), q = asF(y.l.v), z; switch (op) { case Instruction::FAdd: z = p + q; break; case Instruction::FSub: z = p - q; break; case Instruction::FMul: z = p * q; break; case Instruction::FDiv: z = p / q; break; case Instruction::FRem: z = fmodf(p, q); break; default: unsup("fp op"); } v = frF(z); }
        r.add(h, LI(v));
    }
    return r.done();
}
static GV binop(unsigned op, const GV &a0, const GV &b0, unsigned w, Bdd &g) {
    if (w > 64) unsup("wide integer arithmetic");
    bool single = a0.size() == 1 && b0.size() == 1;
    GV a = single ? a0 : restrictG(a0, g), b = single ? b0 : restrictG(b0, g);
    Builder r; Bdd kill = BF;
    for (auto &x : a) for (auto &y : b) {
        Bdd h = single ? BT : M.land(x.g, y.g); if (h == BF) continue;
        Bdd hg = M.land(h, g); if (hg == BF) continue;
        if (!single) h = hg;
        Leaf p = x.l, q = y.l;
        if (p.k == KUNDEF || q.k == KUNDEF) {
            if (op == Instruction::And && ((p.k == KINT && p.v == 0) || (q.k == KINT && q.v == 0))) { r.add(h, LI(0)); continue; }
            if (op == Instruction::Or && w == 1 && ((p.k == KINT && p.v) || (q.k == KINT && q.v))) { r.add(h, LI(1)); continue; }
            if (op == Instruction::Mul && ((p.k == KINT && p.v == 0) || (q.k == KINT && q.v == 0))) { r.add(h, LI(0)); continue; }
            r.add(h, LU); continue;
        }
        if (p.k == KCAT || q.k == KCAT) {
            if (op == Instruction::LShr && q.k == KINT && q.v % 8 == 0 && q.v < w) { unsigned n = q.v / 8, W = w / 8; r.add(h, mkCat({{subLeaf(p, W, n, W - n), W - n}, {LI(0), n}})); continue; }
            if (op == Instruction::And && q.k == KINT && w == 64 && q.v == 0xffffffffull) { r.add(h, mkCat({{subLeaf(p, 8, 0, 4), 4}, {LI(0), 4}})); continue; }
            if (op == Instruction::And && p.k == KINT && w == 64 && p.v == 0xffffffffull) { r.add(h, mkCat({{subLeaf(q, 8, 0, 4), 4}, {LI(0), 4}})); continue; }
            r.add(h, LU); continue;
        }
        if (p.k == KPTR || q.k == KPTR) {
            if (op == Instruction::Sub && p.k == KPTR && q.k == KPTR && p.o == q.o) { r.add(h, LI((p.v - q.v) & maskw(w))); continue; }
            if (op == Instruction::Add && p.k == KPTR && q.k == KINT) { r.add(h, LP(p.o, p.v + q.v)); continue; }
            if (op == Instruction::Add && q.k == KPTR && p.k == KINT) { r.add(h, LP(q.o, p.v + q.v)); continue; }
            if (op == Instruction::Sub && p.k == KPTR && q.k == KINT) { r.add(h, LP(p.o, p.v - q.v)); continue; }
            if (op == Instruction::And && w == 64 && (p.k == KINT || q.k == KINT)) { // align an address down: stays a pointer into the same object
                const Leaf &pt = p.k == KPTR ? p : q; uint64_t mk = p.k == KINT ? p.v : q.v, low = ~mk;
                if (low && low < 4096 && !(low & (low + 1))) { uint64_t ad = addrOf(pt); r.add(h, LP(pt.o, (int64_t) pt.v - (int64_t) (ad & low))); continue; }
            }
            if (p.k == KTERM || q.k == KTERM) unsup("pointer with symbolic offset");
            p = LI(addrOf(p)); q = LI(addrOf(q));
        }
        if (p.k == KTERM || q.k == KTERM) {
            z3::expr u = tz(p, w), v = tz(q, w);
            if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
                Bdd z = M.land(hg, atomOf(v == Z->bv_val(0, w)));
                if (z != BF && feasible(z)) { report("div-by-zero", "division by zero", z); }
                kill = M.lor(kill, z);
            }
            z3::expr e(*Z);
            switch (op) {
                case Instruction::Add: e = u + v; break; case Instruction::Sub: e = u - v; break; case Instruction::Mul: e = u * v; break;
                case Instruction::UDiv: e = z3::udiv(u, v); break; case Instruction::URem: e = z3::urem(u, v); break;
                case Instruction::SDiv: e = u / v; break; case Instruction::SRem: e = z3::srem(u, v); break;
                case Instruction::Shl: e = z3::shl(u, v); break; case Instruction::LShr: e = z3::lshr(u, v); break; case Instruction::AShr: e = z3::ashr(u, v); break;
                case Instruction::And: e = u & v; break; case Instruction::Or: e = u | v; break; case Instruction::Xor: e = u ^ v; break;
                default: unsup("bv op");
            }
            r.add(h, termLeaf(e)); continue;
        }
        uint64_t v; bool dz;
        if (concBin(op, p.v, q.v, w, v, dz)) r.add(h, LI(v));
        else { report("div-by-zero", "division by zero", hg); kill = M.lor(kill, hg); }
    }
    if (kill != BF) g = M.diff(g, kill);
    GV o = r.done(); if (o.empty()) o = gv1(LU);
    return o;
}
static bool concCmp(unsigned p, uint64_t a, uint64_t b, unsigned w) {
    a &= maskw(w); b &= maskw(w); int64_t x = sext(a, w), y = sext(b, w);
    switch (p) {
        case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
        case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y; case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y;
    }
    unsup("icmp"); return false;
}
static GV icmp(unsigned pr, const GV &a0, const GV &b0, unsigned w, Bdd g) {
    bool single = a0.size() == 1 && b0.size() == 1;
    GV a = single ? a0 : restrictG(a0, g), b = single ? b0 : restrictG(b0, g);
    Builder r;
    for (auto &x : a) for (auto &y : b) {
        Bdd h = single ? BT : M.land(x.g, y.g); if (h == BF) continue;
        if (!single) { h = M.land(h, g); if (h == BF) continue; }
        Leaf p = x.l, q = y.l;
        if (p.k == KUNDEF || q.k == KUNDEF || p.k == KCAT || q.k == KCAT) { r.add(h, LU); continue; }
        if (p.k == KTERM || q.k == KTERM) {
            if (p.k == KPTR || q.k == KPTR) { p.k == KPTR ? p = LI(addrOf(p)) : q = LI(addrOf(q)); }
            z3::expr u = tz(p, w), v = tz(q, w), e(*Z);
            switch (pr) {
                case CmpInst::ICMP_EQ: e = u == v; break; case CmpInst::ICMP_NE: e = u != v; break; case CmpInst::ICMP_UGT: e = z3::ugt(u, v); break; case CmpInst::ICMP_UGE: e = z3::uge(u, v); break;
                case CmpInst::ICMP_ULT: e = z3::ult(u, v); break; case CmpInst::ICMP_ULE: e = z3::ule(u, v); break; case CmpInst::ICMP_SGT: e = u > v; break; case CmpInst::ICMP_SGE: e = u >= v; break;
                case CmpInst::ICMP_SLT: e = u < v; break; case CmpInst::ICMP_SLE: e = u <= v; break; default: unsup("icmp");
            }
            Bdd at = atomBdd(e);
            r.add(M.land(h, at), LI(1)); r.add(M.diff(h, at), LI(0)); continue;
        }
        bool res;
        if (p.k == KPTR && q.k == KPTR && p.o == q.o) { bool u = pr >= CmpInst::ICMP_UGT && pr <= CmpInst::ICMP_ULE; unsigned p2 = pr; if (u) p2 = pr - CmpInst::ICMP_UGT + CmpInst::ICMP_SGT; res = concCmp(p2, p.v, q.v, 64); }
        else if (p.k == KPTR && q.k == KPTR && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE)) res = pr == CmpInst::ICMP_NE;
        else res = concCmp(pr, addrOf(p), addrOf(q), w);
        r.add(h, LI(res));
    }
    GV o = r.done(); if (o.empty()) o = gv1(LU); return o;
}
static GV fcmp(unsigned pr, const GV &a, const GV &b, Type *t, Bdd g) {
    Builder r; bool dbl = t->isDoubleTy();
    for (auto &x : a) for (auto &y : b) {
        Bdd h = a.size() == 1 && b.size() == 1 ? BT : M.land(M.land(x.g, y.g), g); if (h == BF) continue;
        if (x.l.k == KUNDEF || y.l.k == KUNDEF || x.l.k == KCAT || y.l.k == KCAT) { r.add(h, LU); continue; }
        if (x.l.k == KTERM || y.l.k == KTERM) {
            // symbolic floating point comparison: interpret the bits
            z3::sort fs = dbl ? Z->fpa_sort(11, 53) : Z->fpa_sort(8, 24); unsigned w = dbl ? 64 : 32;
            auto F = [&](const Leaf &l) { return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, tz(l, w), fs)); };
            z3::expr u = F(x.l), v = F(y.l), nan = z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, u)) || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, v));
            auto L = [&](Z3_ast q) { return z3::expr(*Z, q); };
            z3::expr e(*Z); unsigned base = pr & 7; // LLVM: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
            e = Z->bool_val(false);
            if (base & 1) e = e || L(Z3_mk_fpa_eq(*Z, u, v));
            if (base & 2) e = e || L(Z3_mk_fpa_gt(*Z, u, v));
            if (base & 4) e = e || L(Z3_mk_fpa_lt(*Z, u, v));
            if (pr & 8) e = e || nan;
            Bdd at = atomBdd(e); r.add(M.land(h, at), LI(1)); r.add(M.diff(h, at), LI(0)); continue;
        }
        double p = dbl ? asD(x.l.v) : asF(x.l.v), q = dbl ? asD(y.l.v) : asF(y.l.v); bool un = std::isnan(p) || std::isnan(q);
        bool res = un ? (pr & 8) != 0 : ((pr & 1) && p == q) || ((pr & 2) && p > q) || ((pr & 4) && p < q);
        r.add(h, LI(res));
    }
    return r.done();
}
template<class Fn> static GV mapG(const GV &a, Fn f) { Builder r; for (auto &e : a) r.add(e.g, f(e.l)); return r.done(); }
static GV castop(unsigned op, const GV &a, Type *s, Type *d, Bdd g) {
    unsigned sw = s->isPointerTy() ? 64 : s->getPrimitiveSizeInBits(), dw = d->isPointerTy() ? 64 : d->getPrimitiveSizeInBits();
    if (s->isVectorTy() || d->isVectorTy()) unsup("vector cast");
    return mapG(a, [&](const Leaf &l) -> Leaf {
        if (l.k == KUNDEF) return LU;
        switch (op) {
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: if (dw < sw) { if (l.k == KPTR) return LI(addrOf(l) & maskw(dw)); } return l;
            case Instruction::Trunc:
                if (l.k == KTERM) return termLeaf(terms[l.v].extract(dw - 1, 0));
                if (l.k == KPTR) return LI(addrOf(l) & maskw(dw));
                if (l.k == KCAT) { if (dw % 8 == 0) return subLeaf(l, sw / 8, 0, dw / 8); return LU; }
                return LI(l.v & maskw(dw));
            case Instruction::ZExt:
                if (l.k == KTERM) return termLeaf(z3::zext(terms[l.v], dw - sw));
                if (l.k == KCAT) return mkCat({{l, sw / 8}, {LI(0), (dw - sw) / 8}});
                return l;
            case Instruction::SExt: if (l.k == KTERM) return termLeaf(z3::sext(terms[l.v], dw - sw)); if (l.k == KCAT) return LU; return LI((uint64_t) sext(l.v, sw) & maskw(dw));
        }
        if (l.k == KTERM) unsup("symbolic int/fp conversion");
        if (l.k == KCAT) return LU;
        switch (op) {
            case Instruction::UIToFP: { if (d->isDoubleTy()) return LI(frD((double) (l.v & maskw(sw)))); return LI(frF((float) (l.v & maskw(sw)))); }
            case Instruction::SIToFP: { if (d->isDoubleTy()) return LI(frD((double) sext(l.v, sw))); return LI(frF((float) sext(l.v, sw))); }
            case Instruction::FPToUI: { double x = s->isDoubleTy() ? asD(l.v) : asF(l.v); return LI((uint64_t) x & maskw(dw)); }
            case Instruction::FPToSI: { double x = s->isDoubleTy() ? asD(l.v) : asF(l.v); return LI((uint64_t) (int64_t) x & maskw(dw)); }
            case Instruction::FPExt: return LI(frD((double) asF(l.v)));
            case Instruction::FPTrunc: return LI(frF((float) asD(l.v)));
        }
        unsup("cast"); return LU;
    });
}
static GV concretize(const GV &a, unsigned w, Bdd g, unsigned maxn = 64) {
    bool any = false; for (auto &e : a) any |= e.l.k == KTERM; if (!any) return a;
    Builder r;
    for (auto &e : a) {
        Bdd h = M.land(e.g, g);
        if (e.l.k != KTERM) { r.add(a.size() == 1 ? BT : h, e.l); continue; }
        unsigned n = 0;
        while (h != BF) {
            // find a value
            auto t = std::chrono::steady_clock::now(); S->push(); S->add(toZ3(h)); for (auto &f : theoryFacts) S->add(f); auto cr = S->check(); st.queries++;
            uint64_t v = 0; bool ok = cr == z3::sat; if (ok) { z3::expr x = S->get_model().eval(terms[e.l.v], true); Z3_get_numeral_uint64(*Z, x, &v); st.sat++; } else st.unsat++;
            S->pop(); st.solver += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
            if (cr == z3::unknown) unsup("solver unknown while enumerating an address");
            if (!ok) break;
            if (++n > maxn) unsup("symbolic address with more than 64 values");
            Bdd at = atomBdd(terms[e.l.v] == Z->bv_val(v, w)); r.add(M.land(h, at), LI(v)); h = M.diff(h, at);
        }
    }
    return r.done();
}
static GV gepAdd(const GV &base, const GV &idx0, int64_t scale, unsigned iw, Bdd g) {
    GV idx = concretize(idx0, iw, g);
    if (base.size() == 1 && idx.size() == 1) {
        Leaf p = base[0].l, i = idx[0].l;
        if (p.k == KUNDEF || i.k == KUNDEF || i.k == KCAT || p.k == KCAT) return gv1(LU);
        if (i.k == KPTR) i = LI(addrOf(i));
        if (p.k == KPTR) return gv1(LP(p.o, p.v + sext(i.v, iw) * scale));
        if (p.k == KINT) return gvi(p.v + sext(i.v, iw) * scale);
        unsup("gep on term");
    }
    Builder r;
    for (auto &x : base) { Bdd hx = base.size() == 1 ? g : M.land(x.g, g); if (hx == BF) continue;
        for (auto &y : idx) {
            Bdd h = M.land(hx, y.g); if (h == BF) continue;
            Leaf p = x.l, i = y.l;
            if (p.k == KUNDEF || i.k == KUNDEF || i.k == KCAT || p.k == KCAT) { r.add(h, LU); continue; }
            if (i.k == KPTR) i = LI(addrOf(i));
            if (p.k == KPTR) r.add(h, LP(p.o, p.v + sext(i.v, iw) * scale));
            else if (p.k == KINT) r.add(h, LI(p.v + sext(i.v, iw) * scale));
            else unsup("gep on term");
        } }
    GV o = r.done(); if (o.empty()) o = gv1(LU); return o;
}
// condition guard: true-part of an i1 GV; undef part returned separately
static void condGuard(const GV &c, Bdd g, Bdd &t, Bdd &f, Bdd &u) {
    t = f = u = BF;
    for (auto &e : c) { Bdd h = M.land(e.g, g); if (e.l.k == KINT) { if (e.l.v & 1) t = M.lor(t, h); else f = M.lor(f, h); } else if (e.l.k == KTERM) { Bdd at = atomBdd(terms[e.l.v] == Z->bv_val(1, 1)); t = M.lor(t, M.land(h, at)); f = M.lor(f, M.diff(h, at)); } else u = M.lor(u, h); }
}
// SMT term of a summary (guards become ite conditions)
static z3::expr gvTerm(const GV &a, unsigned w) {
    z3::expr r = Z->bv_val((uint64_t) 0, w); bool first = true;
    for (auto &e : a) {
        z3::expr l = e.l.k == KTERM ? terms[e.l.v] : e.l.k == KUNDEF || e.l.k == KCAT ? Z->bv_val((uint64_t) 0xdeadbeefcafeull, w) : Z->bv_val((uint64_t) (addrOf(e.l) & maskw(w)), w);
        if (first) { r = l; first = false; } else r = z3::ite(toZ3(e.g), l, r);
    }
    return r;
}
#include "exec.inc"
