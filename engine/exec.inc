// ------------------------------------------------------------------ executor
static Bdd runFunction(Function *F, vector<RV> &args, Bdd g, RV &ret);
static void tick() {
    static unsigned n = 0;
    if ((++n & 255) == 0 && now() > opt.timeout) unsup("time budget exhausted");
}
static GV opG(Frame &f, Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return evalConst(c);
    auto it = f.fi->slot.find(v);
    if (it == f.fi->slot.end()) unsup("operand");
    RV &r = f.s[it->second];
    if (r.g.empty()) return gv1(LU);
    return r.g;
}
static RV opR(Frame &f, Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return evalConstR(c);
    return f.s[f.fi->slot[v]];
}
static bool solePath(Frame &f) { return f.pend.empty(); }
static void setSlot(Frame &f, const Value *v, RV r, Bdd g) {
    unsigned s = f.fi->slot.find(v)->second;
    RV &o = f.s[s];
    if (solePath(f) || (o.g.empty() && o.agg.empty())) o = std::move(r);
    else o = mergeR(o, r, g);
}
static void addPend(Frame &f, unsigned idx, Bdd g) { auto it = f.pend.find(idx); if (it == f.pend.end()) f.pend[idx] = g; else it->second = M.lor(it->second, g); }
// take the edge from -> to under guard g, evaluating phis. stillLive: other paths of this frame exist outside g
static void takeEdge(Frame &f, BasicBlock *from, BasicBlock *to, Bdd g, bool others) {
    if (g == BF) return;
    vector<pair<const Value *, RV>> vals;
    for (auto &phi : to->phis()) {
        Value *in = phi.getIncomingValueForBlock(from);
        RV r = opR(f, in);
        if (r.agg.empty()) r.g = restrictG(r.g.empty() ? gv1(LU) : r.g, g);
        vals.push_back({&phi, r});
    }
    for (auto &p : vals) {
        RV &o = f.s[f.fi->slot.find(p.first)->second];
        if ((!others && f.pend.empty()) || (o.g.empty() && o.agg.empty())) o = p.second;
        else o = mergeR(o, p.second, g);
    }
    addPend(f, f.fi->idx[to], g);
}
static unsigned tyW(Type *t) { return t->isPointerTy() ? 64 : t->getPrimitiveSizeInBits(); }
static RV loadTyped(const GV &p, Type *t, Bdd &g, int cls = 0) {
    if (t->isStructTy() || t->isArrayTy()) {
        RV r; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) {
            Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
            uint64_t off = t->isStructTy() ? (uint64_t) DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
            r.agg.push_back(loadTyped(gepAdd(p, gvi(off), 1, 64, g), et, g, cls));
        }
        return r;
    }
    if (t->isVectorTy()) unsup("vector load");
    unsigned w = DL->getTypeStoreSize(t);
    GV v = loadGV(p, w, g, cls);
    unsigned bw = tyW(t);
    if (bw < w * 8) v = mapG(v, [&](const Leaf &l) { return l.k == KINT ? LI(l.v & maskw(bw)) : l.k == KTERM ? termLeaf(terms[l.v].extract(bw - 1, 0)) : l; });
    return RV(v);
}
static void storeTyped(const GV &p, Type *t, const RV &v, Bdd &g, int cls = 0) {
    if (t->isStructTy() || t->isArrayTy()) {
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) {
            Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
            uint64_t off = t->isStructTy() ? (uint64_t) DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
            storeTyped(gepAdd(p, gvi(off), 1, 64, g), et, v.agg[i], g, cls);
        }
        return;
    }
    if (t->isVectorTy()) unsup("vector store");
    unsigned w = DL->getTypeStoreSize(t), bw = tyW(t); GV x = v.g.empty() ? gv1(LU) : v.g;
    if (bw < w * 8) x = mapG(x, [&](const Leaf &l) { return l.k == KTERM ? termLeaf(z3::zext(terms[l.v], w * 8 - bw)) : l; });
    storeGV(p, w, x, g, cls);
}
static uint64_t single(const GV &v, Bdd g, const char *what) {
    GV r = restrictG(v, g); r = concretize(r, 64, g, 8);
    if (r.size() != 1 || r[0].l.k == KUNDEF) unsup(string("needs a single value: ") + what);
    return r[0].l.k == KPTR ? addrOf(r[0].l) : r[0].l.v;
}
static string cstr(const GV &p, Bdd g) {
    GV r = restrictG(p, g); if (r.size() != 1 || r[0].l.k != KPTR) return "?";
    string s; Obj &o = *objs[r[0].l.o]; int64_t off = r[0].l.v;
    for (;; off++) { Builder b; memRead(o, off, 1, BT, b); if (b.r.size() != 1 || b.r[0].l.k != KINT || !b.r[0].l.v) break; s += (char) b.r[0].l.v; if (s.size() > 500) break; }
    return s;
}
static string objStr(const GV &p) { if (p.size() == 1 && p[0].l.k == KPTR) return objs[p[0].l.o]->name; return "?"; }
static GV doMalloc(const GV &size0, Bdd g, int kind, bool zero, const string &nm) {
    GV size = concretize(restrictG(size0, g), 64, g);
    for (auto &e : size) {
        if (e.l.k != KINT) { report("uninit-size", "allocation size", M.land(e.g, g)); return gvi(0); }
        if (e.l.v > (1ull << 36)) report("huge-allocation", "allocation size " + std::to_string((int64_t) e.l.v), M.land(e.g, g));
    }
    string loc = "?"; int n = 0;
    for (Frame *f = T->top; f && n < 3; f = f->up, n++) { loc = dloc(f->cur); if (loc.find("utility.h") != 0 && loc.find("c++") == string::npos && loc.find("new_alloc") == string::npos) break; }
    uint32_t id = newObj(OHEAP, size, nm + "@" + loc.substr(0, loc.find("<-")));
    objs[id]->alloc = g; objs[id]->zero = zero; objs[id]->allocKind = kind;
    return gv1(LP(id, 0));
}
static void doFree(const GV &p0, Bdd &g, int kind) {
    GV p = restrictG(p0, g);
    for (auto &e : p) {
        Bdd h = M.land(e.g, g); if (h == BF) continue;
        if (e.l.k == KINT && e.l.v == 0) continue;
        if (e.l.k != KPTR) { report("invalid-free", e.l.k == KUNDEF ? "free of an uninitialised pointer" : "free of a wild pointer", h); g = M.diff(g, h); continue; }
        Obj &o = *objs[e.l.o];
        if (o.kind != OHEAP || e.l.v != 0) { report("invalid-free", "free of " + o.name, h); g = M.diff(g, h); continue; }
        if (o.freed != BF) { Bdd x = M.land(h, o.freed); if (x != BF) { report("double-free", o.name, x); g = M.diff(g, x); h = M.diff(h, x); } }
        if (kind != o.allocKind && !opt.ignore.count("alloc-mismatch")) report("alloc-mismatch", o.name, h);
        uint64_t mx = 0; for (auto &s : o.size) if (s.l.k == KINT) mx = std::max(mx, s.l.v);
        if (T->team && T->team->raceOn && T->depth == 1) for (auto &c : o.cells) for (auto &cc : c.second) if (!cc.e.empty()) logAcc(e.l.o, c.first, cc.w, true, h, 0);
        o.freed = M.lor(o.freed, h);
    }
}
static unsigned gcdu(uint64_t a, uint64_t b) { while (b) { uint64_t t = a % b; a = b; b = t; } return a; }
static void doMemcpy(const GV &d0, const GV &s0, const GV &n0, Bdd &g, bool) {
    GV n = concretize(restrictG(n0, g), 64, g), d = restrictG(d0, g), s = restrictG(s0, g);
    struct W { uint32_t o; int64_t off; unsigned w; Bdd g; GV v; }; vector<W> ws;
    for (auto &ed : d) for (auto &es : s) {
        Bdd h0 = M.land(M.land(ed.g, es.g), g); if (h0 == BF) continue;
        vector<pair<uint64_t, Bdd>> lens; 
        for (auto &en : n) { Bdd h = M.land(en.g, h0); if (h == BF) continue; if (en.l.k != KINT) { report("uninit-size", "memcpy length", h); continue; } if (en.l.v) lens.push_back({en.l.v, h}); }
        if (lens.empty()) continue;
        std::sort(lens.begin(), lens.end());
        // bounds
        for (int side = 0; side < 2; side++) for (auto &ln : lens) {
            Leaf l = side ? ed.l : es.l; if (ln.second == BF) continue;
            Bdd ok = access(gv1(l), ln.first, side == 1, ln.second, [](Obj &, int64_t, Bdd) {});
            ln.second = ok;
        }
        if (ed.l.k != KPTR || es.l.k != KPTR) continue;
        Obj &so = *objs[es.l.o]; int64_t sof = es.l.v, dof = ed.l.v;
        uint64_t mx = lens.back().first; unsigned gr = 8;
        for (auto &ln : lens) gr = gcdu(gr, ln.first);
        set<uint64_t> bnd; for (auto &ln : lens) bnd.insert(ln.first);
        uint64_t p = 0;
        while (p < mx) {
            unsigned w = 0;
            auto it = so.cells.find(sof + p);
            if (it != so.cells.end()) for (auto &c : it->second) if (!c.e.empty() && c.w > w && p + c.w <= mx) { bool cut = false; for (uint64_t b : bnd) if (b > p && b < p + c.w) cut = true; if (!cut) w = c.w; }
            if (!w) { w = gr; while ((p % w) || p + w > mx || ((sof + p) % w)) w >>= 1; // do not straddle the next cell start
                for (unsigned q = 1; q < w; q++) { auto i2 = so.cells.find(sof + p + q); if (i2 != so.cells.end()) { bool live = false; for (auto &c : i2->second) live |= !c.e.empty(); if (live) { while (w > q) w >>= 1; } } } }
            Bdd h = BF; for (auto &ln : lens) if (ln.first >= p + w) h = M.lor(h, ln.second);
            if (h != BF) { Builder b; memRead(so, sof + p, w, h, b); GV v = b.done(); if (v.size() != 1 || v[0].l.k != KUNDEF || true) ws.push_back({ed.l.o, (int64_t) (dof + p), w, h, v}); }
            p += w;
        }
    }
    for (auto &w : ws) memWrite(*objs[w.o], w.off, w.w, w.v, w.g);
}
static void doMemset(const GV &d0, const GV &v0, const GV &n0, Bdd &g) {
    GV n = concretize(restrictG(n0, g), 64, g), d = restrictG(d0, g), v = restrictG(v0, g);
    for (auto &ed : d) {
        Bdd h0 = M.land(ed.g, g); if (h0 == BF) continue;
        vector<pair<uint64_t, Bdd>> lens;
        for (auto &en : n) { Bdd h = M.land(en.g, h0); if (h == BF) continue; if (en.l.k != KINT) { report("uninit-size", "memset length", h); continue; } if (en.l.v) lens.push_back({en.l.v, h}); }
        for (auto &ln : lens) ln.second = access(gv1(ed.l), ln.first, true, ln.second, [](Obj &, int64_t, Bdd) {});
        if (lens.empty() || ed.l.k != KPTR) continue;
        std::sort(lens.begin(), lens.end());
        unsigned gr = 8; for (auto &ln : lens) gr = gcdu(gr, ln.first);
        int64_t off = ed.l.v; while (off % gr) gr >>= 1;
        Obj &o = *objs[ed.l.o]; uint64_t mx = lens.back().first;
        for (uint64_t p = 0; p < mx;) {
            unsigned w = gr; auto it = o.cells.find(off + p);
            if (it != o.cells.end()) for (auto &c : it->second) if (!c.e.empty() && c.w < w) w = c.w;
            Bdd h = BF; for (auto &ln : lens) if (ln.first >= p + w) h = M.lor(h, ln.second);
            GV x = mapG(v, [&](const Leaf &l) -> Leaf { if (l.k == KINT) { uint64_t b = l.v & 0xff; return LI((b * 0x0101010101010101ull) & maskw(8 * w)); } if (l.k == KUNDEF) return LU; unsup("memset value"); });
            memWrite(o, off + p, w, x, h); p += w;
        }
    }
}

// ------------------------------------------------------------------ OpenMP
struct Thr { ucontext_t uc; char *stk; TC tc; Bdd g; int state = 0; vector<RV> args; Function *fn; };
static ucontext_t *schedUc = nullptr; static Thr *curThr = nullptr;
static const size_t STK = 256u << 20;
static void thrMain() {
    Thr *t = curThr; RV r;
    t->g = runFunction(t->fn, t->args, t->g, r);
    t->state = 2;
    swapcontext(&t->uc, schedUc);
}
static uint32_t tmpInt(int v) { uint32_t id = newObj(OSTACK, gvi(4), "tid"); memWrite(*objs[id], 0, 4, gvi(v), BT); return id; }
static int pushedThreads = 0;
static Bdd forkCall(Function *fn, vector<RV> captured, Bdd g) {
    unsigned n = pushedThreads > 0 ? pushedThreads : opt.defThreads; pushedThreads = 0;
    if (T->depth >= 1 || n == 1) {
        TC save = *T; vector<RV> a; T->region = ++regionCounter;
        a.push_back(gv1(LP(tmpInt(0), 0))); a.push_back(gv1(LP(tmpInt(0), 0)));
        for (auto &c : captured) a.push_back(c);
        int stid = T->tid, snth = T->nth; T->tid = save.depth ? T->tid : 0;
        int realTid = T->tid; (void) realTid;
        Team *oldTeam = T->team; Team tm; tm.nth = 1; tm.raceOn = false; tm.singleSeen.assign(1, 0); tm.dispSeen.assign(1, 0);
        if (T->depth >= 1) { T->depth++; T->tid = 0; T->nth = 1; } else { T->depth = 1; T->nth = 1; T->team = &tm; }
        RV r; Bdd o;
        // nested region: keep logging for the enclosing team by preserving the outer tid via team pointer
        if (save.depth >= 1) { T->team = nullptr; }
        o = runFunction(fn, a, g, r);
        T->team = oldTeam; T->depth = save.depth; T->tid = stid; T->nth = snth; T->region = save.region;
        return o;
    }
    Team team; team.nth = n; team.raceOn = opt.race; team.singleSeen.assign(n, 0); team.dispSeen.assign(n, 0);
    TC *outer = T; ucontext_t me; ucontext_t *oldSched = schedUc; Thr *oldThr = curThr; schedUc = &me;
    unsigned reg = ++regionCounter;
    vector<std::unique_ptr<Thr>> ths;
    for (unsigned i = 0; i < n; i++) {
        auto t = std::make_unique<Thr>();
        t->stk = (char *) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        getcontext(&t->uc); t->uc.uc_stack.ss_sp = t->stk; t->uc.uc_stack.ss_size = STK; t->uc.uc_link = nullptr;
        makecontext(&t->uc, (void (*)()) thrMain, 0);
        t->tc.tid = i; t->tc.nth = n; t->tc.depth = 1; t->tc.region = reg; t->tc.team = &team; t->tc.top = outer->top;
        T = &t->tc;
        t->args.push_back(gv1(LP(tmpInt(i), 0))); t->args.push_back(gv1(LP(tmpInt(i), 0)));
        for (auto &c : captured) t->args.push_back(c);
        T = outer;
        t->fn = fn; t->g = g; ths.push_back(std::move(t));
    }
    for (;;) {
        bool all = true;
        vector<Thr *> order; for (auto &t : ths) order.push_back(t.get());
        if (opt.preThr >= 0 && opt.preThr < (int) n) std::rotate(order.begin(), order.begin() + opt.preThr, order.end());
        for (unsigned i = 0; i < order.size(); i++) {
            Thr *t = order[i]; if (t->state == 2) continue;
            curThr = t; T = &t->tc; t->state = 0;
            swapcontext(&me, &t->uc);
            T = outer;
            if (t->state == 3) { order.push_back(t); continue; }
            if (t->state != 2) all = false;
        }
        T = outer;
        if (team.raceOn) { if (!team.log.empty()) { T = &ths[0]->tc; Frame *s = T->top; T->top = outer->top; raceCheck(team); T->top = s; T = outer; } }
        if (all) break;
        Bdd gb = BT; bool mix = false; for (auto &t : ths) if (t->state == 2) mix = true;
        for (auto &t : ths) gb = M.land(gb, t->g);
        if (mix) { report("barrier-divergence", "some threads leave the parallel region while others wait at a barrier", gb); break; }
        // a thread stopped (assert/exit) kills the run for all
        for (auto &t : ths) t->g = gb;
    }
    Bdd o = g; for (auto &t : ths) o = M.land(o, t->g);
    for (auto &t : ths) munmap(t->stk, STK);
    schedUc = oldSched; curThr = oldThr; T = outer;
    return o;
}
// A context switch before the k-th atomic operation of one thread (--preempt thread,k): the others run on to their next barrier first.
static int preCount = 0; static bool preHit = false;
static void preemptPoint() {
    if (opt.preThr < 0 || T->depth != 1 || T->nth == 1 || !curThr || T->tid != opt.preThr || T->lock) return;
    if (preCount++ != opt.preAt) return;
    preHit = true; Thr *me = curThr; TC *mt = T; me->state = 3;
    swapcontext(&me->uc, schedUc);
    curThr = me; T = mt;
}
static Bdd barrier(Bdd g) {
    if (T->depth != 1 || T->nth == 1 || !curThr) return g;
    for (Frame *f = T->top; f; f = f->up) { if (T->team && f->fi->F == curThr->fn) { for (auto &p : f->pend) if (feasible(p.second)) unsup("divergent barrier"); break; } for (auto &p : f->pend) if (feasible(p.second)) unsup("divergent barrier"); }
    curThr->g = g; curThr->state = 1;
    Thr *me = curThr; TC *mt = T;
    swapcontext(&me->uc, schedUc);
    curThr = me; T = mt;
    return M.land(g, curThr->g);
}

// ------------------------------------------------------------------ calls
struct CallCtx { Frame *f; CallBase *ci; vector<RV> a; Bdd g; RV ret; };
typedef std::function<void(CallCtx &)> Hook;
static std::unordered_map<string, Hook> hooks;
static GV A(CallCtx &c, unsigned i) { return c.a[i].g.empty() ? gv1(LU) : c.a[i].g; }
static void setupHooks() {
    auto H = [&](const char *n, Hook h) { hooks[n] = h; };
    H("sx_int", [](CallCtx &c) { string n = cstr(A(c, 0), c.g); uint64_t lo = single(A(c, 1), c.g, "lo"), hi = single(A(c, 2), c.g, "hi"); c.ret.g = mkInput(n, lo, hi, c.g); });
    H("sx_bv", [](CallCtx &c) {
        string n = uniq(cstr(A(c, 0), c.g)); unsigned b = single(A(c, 1), c.g, "bits");
        if (opt.replay) { uint64_t v = 0; auto f = opt.fixed.find(n); if (f != opt.fixed.end()) v = f->second; c.ret.g = gvi(v); inputs.push_back({n, 1, b, 0, 0, {}, Z->bv_val(v, 64), c.g}); return; }
        z3::expr e = Z->bv_const(n.c_str(), b); inputs.push_back({n, 1, b, 0, 0, {}, b < 64 ? z3::zext(e, 64 - b) : e, c.g});
        c.ret.g = gv1({KTERM, 0, mkTerm(b < 64 ? z3::zext(e, 64 - b) : e)});
    });
    H("sx_assume", [](CallCtx &c) { Bdd t, f, u; condGuard(icmp(CmpInst::ICMP_NE, A(c, 0), gvi(0), tyW(c.ci->getArgOperand(0)->getType()), c.g), c.g, t, f, u); c.g = t; if (!feasible(c.g)) c.g = BF; });
    H("sx_assert", [](CallCtx &c) {
        Bdd t, f, u; condGuard(icmp(CmpInst::ICMP_NE, A(c, 0), gvi(0), tyW(c.ci->getArgOperand(0)->getType()), c.g), c.g, t, f, u);
        st.asserts++; st.obligations++; string m = cstr(A(c, 1), c.g);
        if (u != BF) report("assert", m + " (depends on uninitialised data)", u);
        if (f != BF) report("assert", m, f);
        else if (c.g != BF) { // discharge by the solver: path condition and negated assertion
            if (!M.hasAtom(c.g) && !M.hasAtom(t) && bddSize(c.g, 2000) >= 2000) { st.bddDecided++; c.g = t; return; }
            int r = solve({toZ3(c.g), !toZ3(t)}, nullptr);
            if (r == 1) incon.push_back("solver/BDD disagreement"); if (r < 0) incon.push_back("solver unknown: " + m);
        }
        c.g = t;
    });
    H("sx_check_eq", [](CallCtx &c) {
        st.asserts++; st.obligations++; string m = cstr(A(c, 2), c.g);
        GV a = restrictG(A(c, 0), c.g), b = restrictG(A(c, 1), c.g);
        Bdd t, f, u; condGuard(icmp(CmpInst::ICMP_EQ, a, b, 64, c.g), c.g, t, f, u);
        if (u != BF) report("assert", m + " (depends on uninitialised data)", u);
        if (f != BF) report("assert", m, f);
        bool prop = !M.hasAtom(t); size_t sz = 0; // purely propositional: the canonical BDD form has decided it exactly
        for (auto *v : {&a, &b}) for (auto &e : *v) { if (e.l.k != KINT || M.hasAtom(e.g)) prop = false; else sz += bddSize(e.g, 2000); }
        if (t != BF && prop && sz + bddSize(t, 2000) >= 2000) st.bddDecided++;
        else if (t != BF) { int r = solve({toZ3(t), gvTerm(a, 64) != gvTerm(b, 64)}, nullptr); if (r == 1) incon.push_back("solver/engine disagreement: " + m); if (r < 0) incon.push_back("solver unknown: " + m); }
        c.g = t;
    });
    H("sx_cover", [](CallCtx &c) { string m = cstr(A(c, 0), c.g); if (c.g != BF && !covers.count(m) && solve({M.hasAtom(c.g) ? toZ3(c.g) : cubeOf(c.g)}, nullptr) == 1) covers.insert(m); });
    H("sx_param", [](CallCtx &c) { unsigned i = single(A(c, 0), c.g, "param"); if (i >= opt.params.size()) unsup("missing parameter"); c.ret.g = gvi((uint64_t) opt.params[i]); });
    H("sx_print", [](CallCtx &c) { if (!opt.verbose) return; fprintf(stderr, "PRINT %s: ", cstr(A(c, 0), c.g).c_str()); GV v = restrictG(A(c, 1), c.g); for (auto &e : v) if (e.l.k == KINT) fprintf(stderr, "%llx ", (unsigned long long) e.l.v); else fprintf(stderr, "<k%d:%u:%lld> ", e.l.k, e.l.o, (long long) e.l.v); fprintf(stderr, "(guards %zu nodes %zu)\n", v.size(), M.n.size()); });
    H("sx_heap_mark", [](CallCtx &c) { heapEpoch++; c.ret.g = gvi(heapEpoch); });
    H("sx_heap_check", [](CallCtx &c) { // every heap object allocated since the given mark has been freed
        unsigned ep = single(A(c, 0), c.g, "mark"); string m = cstr(A(c, 1), c.g);
        for (auto &o : objs) if (o->kind == OHEAP && o->epoch >= ep) {
            st.obligations++; Bdd x = M.land(c.g, M.diff(o->alloc, o->freed));
            for (auto &e : o->size) if (e.l.k == KINT && e.l.v == 0) x = M.diff(x, e.g); // zero-byte blocks hold nothing
            if (x != BF && feasible(x)) report("leak", m + ": " + o->name + " never released", x);
        }
    });
    H("sx_threads", [](CallCtx &c) { opt.defThreads = single(A(c, 0), c.g, "threads"); });
    H("sx_owned", [](CallCtx &c) { uint64_t n = single(A(c, 1), c.g, "n"); (void) n; c.g = access(A(c, 0), n, false, c.g, [](Obj &, int64_t, Bdd) {}); });
    // bytes from p + n on do not belong to the object any more (slack an allocator may add for alignment)
    H("sx_limit", [](CallCtx &c) {
        GV p = restrictG(A(c, 0), c.g), n = restrictG(A(c, 1), c.g);
        for (auto &e : p) if (e.l.k == KPTR) for (auto &m : n) { Bdd h = M.land(M.land(e.g, m.g), c.g); if (h != BF) { Obj &o = *objs[e.l.o]; o.size = mergeG(o.size, gvi(e.l.v + m.l.v), h); } }
    });
    for (auto n : {"malloc", "valloc"}) H(n, [](CallCtx &c) { c.ret.g = doMalloc(A(c, 0), c.g, 0, false, "malloc"); });
    for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) H(n, [](CallCtx &c) { c.ret.g = doMalloc(A(c, 0), c.g, 1, false, "new"); });
    for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) H(n, [](CallCtx &c) { c.ret.g = doMalloc(A(c, 0), c.g, 2, false, "new[]"); });
    H("calloc", [](CallCtx &c) { c.ret.g = doMalloc(binop(Instruction::Mul, A(c, 0), A(c, 1), 64, c.g), c.g, 0, true, "calloc"); });
    H("aligned_alloc", [](CallCtx &c) { c.ret.g = doMalloc(A(c, 1), c.g, 0, false, "malloc"); });
    H("posix_memalign", [](CallCtx &c) { GV p = doMalloc(A(c, 2), c.g, 0, false, "malloc"); storeGV(A(c, 0), 8, p, c.g); c.ret.g = gvi(0); });
    H("free", [](CallCtx &c) { doFree(A(c, 0), c.g, 0); });
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) H(n, [](CallCtx &c) { doFree(A(c, 0), c.g, 1); });
    for (auto n : {"_ZdaPv", "_ZdaPvm"}) H(n, [](CallCtx &c) { doFree(A(c, 0), c.g, 2); });
    H("realloc", [](CallCtx &c) {
        GV np = doMalloc(A(c, 1), c.g, 0, false, "realloc");
        GV p = restrictG(A(c, 0), c.g), n = A(c, 1);
        for (auto &e : p) if (e.l.k == KPTR) { Obj &o = *objs[e.l.o]; for (auto &s : o.size) for (auto &m : n) { Bdd h = M.land(M.land(M.land(e.g, s.g), m.g), c.g); if (h != BF) { uint64_t q = std::min(s.l.v, m.l.v); doMemcpy(np, gv1(e.l), gvi(q), h, false); } } }
        doFree(A(c, 0), c.g, 0); c.ret.g = np;
    });
    H("memcpy", [](CallCtx &c) { doMemcpy(A(c, 0), A(c, 1), A(c, 2), c.g, false); c.ret = c.a[0]; });
    H("memmove", [](CallCtx &c) { doMemcpy(A(c, 0), A(c, 1), A(c, 2), c.g, true); c.ret = c.a[0]; });
    H("memset", [](CallCtx &c) { doMemset(A(c, 0), A(c, 1), A(c, 2), c.g); c.ret = c.a[0]; });
    for (auto n : {"memcmp", "bcmp"}) H(n, [](CallCtx &c) {
        GV n = concretize(restrictG(A(c, 2), c.g), 64, c.g); uint64_t mx = 0; for (auto &e : n) mx = std::max(mx, e.l.v);
        GV res = gvi(0);
        for (uint64_t i = mx; i-- > 0;) {
            Bdd h = BF; for (auto &e : n) if (e.l.v > i) h = M.lor(h, M.land(e.g, c.g));
            Bdd h2 = h, h3 = h; GV x = loadGV(gepAdd(A(c, 0), gvi(i), 1, 64, h), 1, h2), y = loadGV(gepAdd(A(c, 1), gvi(i), 1, 64, h), 1, h3);
            Bdd lt, f, u, gt; condGuard(icmp(CmpInst::ICMP_ULT, x, y, 8, h), h, lt, f, u); condGuard(icmp(CmpInst::ICMP_UGT, x, y, 8, h), h, gt, f, u);
            res = mergeG(res, gvi(0xffffffffu), lt); res = mergeG(res, gvi(1), gt);
            if (u != BF) report("uninit-branch", "memcmp", u);
        }
        c.ret.g = res;
    });
    H("strlen", [](CallCtx &c) { c.ret.g = gvi(cstr(A(c, 0), c.g).size()); });
    H("__assert_fail", [](CallCtx &c) { report("assertion-abort", "assert(" + cstr(A(c, 0), c.g) + ")", c.g); c.g = BF; });
    H("abort", [](CallCtx &c) { report("abort", "abort()", c.g); c.g = BF; });
    for (auto n : {"exit", "_exit"}) H(n, [](CallCtx &c) { report("exit", "the process exits", c.g); c.g = BF; });
    H("sx_exit_ok", [](CallCtx &c) { c.g = BF; });
    for (auto n : {"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "fwrite", "perror", "__cxa_atexit", "__cxa_guard_release", "usleep", "sleep", "omp_set_dynamic", "omp_set_nested", "fclose", "srand", "srand48"}) H(n, [](CallCtx &c) { c.ret.g = gvi(0); });
    H("__cxa_guard_acquire", [](CallCtx &c) { GV v = loadGV(A(c, 0), 1, c.g); Bdd g = c.g; storeGV(A(c, 0), 1, gvi(1), g); c.ret.g = icmp(CmpInst::ICMP_EQ, v, gvi(0), 8, c.g); });
    // OpenMP
    H("omp_get_thread_num", [](CallCtx &c) { c.ret.g = gvi(T->tid); });
    H("omp_get_num_threads", [](CallCtx &c) { c.ret.g = gvi(T->nth); });
    H("omp_get_max_threads", [](CallCtx &c) { c.ret.g = gvi(opt.defThreads); });
    H("omp_get_num_procs", [](CallCtx &c) { c.ret.g = gvi(opt.defThreads); });
    H("omp_in_parallel", [](CallCtx &c) { c.ret.g = gvi(T->depth > 0 && T->nth > 1); });
    H("omp_set_num_threads", [](CallCtx &c) { opt.defThreads = single(A(c, 0), c.g, "omp_set_num_threads"); });
    H("omp_get_wtime", [](CallCtx &c) { c.ret.g = gvi(frD(0.0)); });
    H("__kmpc_global_thread_num", [](CallCtx &c) { c.ret.g = gvi(T->tid); });
    H("__kmpc_push_num_threads", [](CallCtx &c) { GV v = restrictG(A(c, 2), c.g); pushedThreads = (int) single(v, c.g, "num_threads"); });
    for (auto n : {"__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel", "__kmpc_end_master", "__kmpc_end_single", "__kmpc_for_static_fini", "__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_8", "__kmpc_flush", "__kmpc_end_masked"}) H(n, [](CallCtx &c) {});
    for (auto n : {"__kmpc_master", "__kmpc_masked"}) H(n, [](CallCtx &c) { c.ret.g = gvi(T->tid == 0); });
    H("__kmpc_single", [](CallCtx &c) { c.ret.g = gvi(T->tid == 0); });
    for (auto n : {"__kmpc_critical", "__kmpc_critical_with_hint"}) H(n, [](CallCtx &c) { T->locks.push_back(T->lock); T->lock = 2 + (restrictG(A(c, 2), c.g)[0].l.o % 30000); });
    H("__kmpc_end_critical", [](CallCtx &c) { if (!T->locks.empty()) { T->lock = T->locks.back(); T->locks.pop_back(); } });
    for (auto n : {"__kmpc_reduce_nowait", "__kmpc_reduce"}) H(n, [](CallCtx &c) { T->locks.push_back(T->lock); T->lock = 1; c.ret.g = gvi(1); });
    H("__kmpc_end_reduce_nowait", [](CallCtx &c) { if (!T->locks.empty()) { T->lock = T->locks.back(); T->locks.pop_back(); } });
    H("__kmpc_end_reduce", [](CallCtx &c) { if (!T->locks.empty()) { T->lock = T->locks.back(); T->locks.pop_back(); } c.g = barrier(c.g); });
    H("__kmpc_barrier", [](CallCtx &c) { c.g = barrier(c.g); });
    H("__kmpc_fork_call", [](CallCtx &c) {
        GV f = restrictG(A(c, 2), c.g); if (f.size() != 1 || f[0].l.k != KPTR || !objs[f[0].l.o]->fn) unsup("fork target");
        vector<RV> cap(c.a.begin() + 3, c.a.end());
        c.g = forkCall(objs[f[0].l.o]->fn, cap, c.g);
    });
    for (int bits : {32, 64}) for (int sg : {0, 1}) {
        string n = string("__kmpc_for_static_init_") + (bits == 32 ? "4" : "8") + (sg ? "" : "u");
        H(n.c_str(), [bits, sg](CallCtx &c) {
            int64_t sched = single(A(c, 2), c.g, "schedule"); unsigned w = bits / 8;
            auto SX = [&](uint64_t v) -> int64_t { return sg ? sext(v, bits) : (int64_t) (v & maskw(bits)); };
            GV lo = loadGV(A(c, 4), w, c.g), up = loadGV(A(c, 5), w, c.g), inc = A(c, 7), ch = A(c, 8);
            int64_t incr = sext(single(inc, c.g, "incr"), bits), chunk = sext(single(ch, c.g, "chunk"), bits);
            int64_t nth = T->nth, tid = T->tid; Builder nl, nu, ns, la;
            for (auto &x : lo) for (auto &y : up) {
                Bdd h = M.land(M.land(x.g, y.g), c.g); if (h == BF) continue;
                if (x.l.k != KINT || y.l.k != KINT) unsup("symbolic loop bounds");
                int64_t l = SX(x.l.v), u = SX(y.l.v), trip = incr > 0 ? (u >= l ? (u - l) / incr + 1 : 0) : (l >= u ? (l - u) / (-incr) + 1 : 0), l2, u2, last, stride;
                if (sched == 33) { chunk = std::max<int64_t>(chunk, 1); int64_t span = chunk * incr; stride = span * nth; l2 = l + span * tid; u2 = l2 + span - incr; last = trip && tid == ((trip - 1) / chunk) % nth; }
                else if (trip == 0) { l2 = l; u2 = u; stride = 1; last = 0; }
                else if (trip < nth) { if (tid < trip) { l2 = u2 = l + tid * incr; } else { l2 = u + incr; u2 = u; } last = tid == trip - 1; stride = trip; }
                else { int64_t sm = trip / nth, ex = trip % nth; l2 = l + incr * (tid * sm + std::min(tid, ex)); u2 = l2 + sm * incr - (tid < ex ? 0 : incr); last = tid == nth - 1; stride = trip; }
                nl.add(h, LI(l2 & maskw(bits))); nu.add(h, LI(u2 & maskw(bits))); ns.add(h, LI(stride & maskw(bits))); la.add(h, LI(last));
            }
            storeGV(A(c, 3), 4, la.done(), c.g); storeGV(A(c, 4), w, nl.done(), c.g); storeGV(A(c, 5), w, nu.done(), c.g); storeGV(A(c, 6), w, ns.done(), c.g);
        });
        // dynamic scheduling: the owner of every chunk is a symbolic value
        n = string("__kmpc_dispatch_init_") + (bits == 32 ? "4" : "8") + (sg ? "" : "u");
        H(n.c_str(), [bits, sg](CallCtx &c) {
            Team *t = T->team; unsigned seq = T->team ? t->dispSeen[T->tid]++ : 0;
            if (!t || T->depth != 1) unsup("dispatch in nested region");
            if (t->disps.size() <= seq) {
                auto d = std::make_shared<Team::Disp>();
                auto SX = [&](uint64_t v) -> int64_t { return sg ? sext(v, bits) : (int64_t) (v & maskw(bits)); };
                d->kind = bits; d->lb = SX(single(A(c, 3), c.g, "dynamic loop bound")); d->ub = SX(single(A(c, 4), c.g, "dynamic loop bound")); d->st = sext(single(A(c, 5), c.g, "stride"), bits); d->chunk = std::max<int64_t>(1, sext(single(A(c, 6), c.g, "chunk"), bits));
                int64_t trip = d->st > 0 ? (d->ub >= d->lb ? (d->ub - d->lb) / d->st + 1 : 0) : 0; d->n = (trip + d->chunk - 1) / d->chunk;
                d->pos.assign(t->nth, GV()); t->disps.push_back(d);
                for (int64_t i = 0; i < d->n; i++) d->owner.push_back(-1);
            }
            t->disps[seq]->pos[T->tid] = gvi(0);
        });
        n = string("__kmpc_dispatch_next_") + (bits == 32 ? "4" : "8") + (sg ? "" : "u");
        H(n.c_str(), [bits](CallCtx &c) {
            Team *t = T->team; auto d = t->disps[t->dispSeen[T->tid] - 1]; unsigned w = bits / 8;
            static map<pair<void *, int64_t>, GV> owners; static vector<std::shared_ptr<Team::Disp>> keepAlive;
            Builder np, lb, ub, res; Bdd got = BF;
            for (auto &e : d->pos[T->tid]) {
                Bdd h = M.land(e.g, c.g);
                for (int64_t i = e.l.v; i < d->n && h != BF; i++) {
                    auto key = std::make_pair((void *) d.get(), i);
                    if (!owners.count(key)) { keepAlive.push_back(d); if (t->nth == 1) owners[key] = gvi(0); else if (d->n > 8 && i >= 3 && i < d->n - 3) owners[key] = gvi(i % t->nth); /* long loops: the outer chunks only */ else { Bdd dom = BT; owners[key] = mkInput("chunk_owner", 0, t->nth - 1, dom); inputs.back().g = c.g; if (dom != BT) { /* out-of-domain codes belong to thread 0 */ owners[key].push_back({bnot(dom), LI(0)}); } } }
                    Bdd mine = BF; for (auto &o : owners[key]) if ((int) o.l.v == T->tid) mine = M.lor(mine, o.g);
                    Bdd x = M.land(h, mine); int64_t l = d->lb + i * d->chunk * d->st, u = std::min(l + (d->chunk - 1) * d->st, d->ub);
                    if (x != BF) { np.add(x, LI(i + 1)); lb.add(x, LI(l & maskw(bits))); ub.add(x, LI(u & maskw(bits))); res.add(x, LI(1)); got = M.lor(got, x); }
                    h = M.diff(h, mine);
                }
                if (h != BF) { np.add(h, LI(d->n)); res.add(h, LI(0)); }
            }
            GV r = res.done(); Bdd gg = got;
            if (got != BF) { GV L = lb.done(), U = ub.done(); storeGV(A(c, 3), w, L, gg); gg = got; storeGV(A(c, 4), w, U, gg); gg = got; storeGV(A(c, 2), 4, gvi(0), gg); }
            d->pos[T->tid] = mergeG(d->pos[T->tid], np.done(), c.g); c.ret.g = r;
        });
    }
    auto fm = [&](const char *n, double (*fn)(double)) { H(n, [fn](CallCtx &c) { c.ret.g = mapG(A(c, 0), [&](const Leaf &l) { if (l.k == KUNDEF) return LU; if (l.k != KINT) unsup("symbolic libm"); return LI(frD(fn(asD(l.v)))); }); }); };
    fm("log2", log2); fm("floor", floor); fm("ceil", ceil); fm("sqrt", sqrt); fm("log", log); fm("fabs", fabs); fm("round", round);
    fm("llvm.floor.f64", floor); fm("llvm.ceil.f64", ceil); fm("llvm.sqrt.f64", sqrt); fm("llvm.fabs.f64", fabs); fm("llvm.log2.f64", log2); fm("llvm.log.f64", log); fm("llvm.round.f64", round);
    auto fm2 = [&](const char *n, double (*fn)(double, double)) { H(n, [fn](CallCtx &c) { Builder b; for (auto &x : A(c, 0)) for (auto &y : A(c, 1)) { Bdd h = M.land(M.land(x.g, y.g), c.g); if (h == BF) continue; if (x.l.k != KINT || y.l.k != KINT) { b.add(h, LU); continue; } b.add(h, LI(frD(fn(asD(x.l.v), asD(y.l.v))))); } c.ret.g = b.done(); }); };
    fm2("pow", pow); fm2("llvm.pow.f64", pow); fm2("fmod", fmod);
    fm2("llvm.maxnum.f64", fmax); fm2("llvm.minnum.f64", fmin);
}
static bool intrinsic(CallCtx &c, Function *F) {
    auto id = F->getIntrinsicID(); if (!id) return false;
    Type *rt = F->getReturnType(); unsigned w = rt->isIntegerTy() ? rt->getIntegerBitWidth() : 0;
    auto sel = [&](unsigned pr) { GV x = A(c, 0), y = A(c, 1); Bdd t, f, u; condGuard(icmp(pr, x, y, w, c.g), c.g, t, f, u); Builder b; for (auto &e : x) b.add(M.land(e.g, t), e.l); for (auto &e : y) b.add(M.land(e.g, f), e.l); b.add(u, LU); c.ret.g = b.done(); if (c.ret.g.empty()) c.ret.g = gv1(LU); };
    switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: return true;
        case Intrinsic::stacksave: c.ret.g = gvi(0); return true;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: doMemcpy(A(c, 0), A(c, 1), A(c, 2), c.g, true); return true;
        case Intrinsic::memset: case Intrinsic::memset_inline: doMemset(A(c, 0), A(c, 1), A(c, 2), c.g); return true;
        case Intrinsic::umax: sel(CmpInst::ICMP_UGT); return true; case Intrinsic::umin: sel(CmpInst::ICMP_ULT); return true;
        case Intrinsic::smax: sel(CmpInst::ICMP_SGT); return true; case Intrinsic::smin: sel(CmpInst::ICMP_SLT); return true;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: c.ret = c.a[0]; return true;
        case Intrinsic::ctpop: { Builder b; for (auto &e : A(c, 0)) { if (e.l.k == KUNDEF) b.add(e.g, LU); else if (e.l.k == KINT) b.add(e.g, LI(__builtin_popcountll(e.l.v))); else if (e.l.k == KTERM) { z3::expr x = terms[e.l.v], sum = Z->bv_val(0, w); for (unsigned i = 0; i < w; i++) sum = sum + (w > 1 ? z3::zext(x.extract(i, i), w - 1) : x); b.add(e.g, termLeaf(sum)); } else unsup("symbolic bit intrinsic"); } c.ret.g = b.done(); return true; }
        case Intrinsic::ctlz: case Intrinsic::cttz: { // the first set bit: one case per position
            bool tzc = id == Intrinsic::cttz; Builder b;
            for (auto &e : A(c, 0)) { if (e.l.k == KUNDEF) { b.add(e.g, LU); continue; }
                if (e.l.k == KINT) { uint64_t v = e.l.v; b.add(e.g, LI(!v ? w : tzc ? (uint64_t) __builtin_ctzll(v) : (uint64_t) __builtin_clzll(v) - (64 - w))); continue; }
                if (e.l.k != KTERM) unsup("symbolic bit intrinsic");
                Bdd h = M.land(e.g, c.g);
                for (unsigned i = 0; i < w && h != BF; i++) { unsigned p = tzc ? i : w - 1 - i; Bdd at = atomBdd(terms[e.l.v].extract(p, p) == Z->bv_val(1, 1)); b.add(M.land(h, at), LI(i)); h = M.diff(h, at); }
                if (h != BF) b.add(h, LI(w)); }
            c.ret.g = b.done(); if (c.ret.g.empty()) c.ret.g = gv1(LU); return true; }
        case Intrinsic::bswap: { Builder b; for (auto &e : A(c, 0)) { if (e.l.k == KUNDEF) b.add(e.g, LU); else if (e.l.k == KINT) b.add(e.g, LI(__builtin_bswap64(e.l.v) >> (64 - w))); else if (e.l.k == KTERM) { z3::expr x = terms[e.l.v], r = x.extract(7, 0); for (unsigned i = 8; i < w; i += 8) r = z3::concat(r, x.extract(i + 7, i)); b.add(e.g, termLeaf(r)); } else unsup("symbolic bit intrinsic"); } c.ret.g = b.done(); return true; }
        case Intrinsic::bitreverse: { Builder b; for (auto &e : A(c, 0)) { if (e.l.k == KUNDEF) b.add(e.g, LU); else if (e.l.k == KINT) { uint64_t v = 0; for (unsigned i = 0; i < w; i++) if (e.l.v >> i & 1) v |= 1ull << (w - 1 - i); b.add(e.g, LI(v)); } else if (e.l.k == KTERM) { z3::expr x = terms[e.l.v], r = x.extract(0, 0); for (unsigned i = 1; i < w; i++) r = z3::concat(r, x.extract(i, i)); b.add(e.g, termLeaf(r)); } else unsup("symbolic bit intrinsic"); } c.ret.g = b.done(); return true; }
        case Intrinsic::abs: { Builder b; for (auto &e : A(c, 0)) { if (e.l.k == KUNDEF) b.add(e.g, LU); else if (e.l.k == KINT) { int64_t x = sext(e.l.v, w); b.add(e.g, LI((uint64_t) (x < 0 ? -x : x) & maskw(w))); } else if (e.l.k == KTERM) { z3::expr x = terms[e.l.v]; b.add(e.g, termLeaf(z3::ite(z3::slt(x, Z->bv_val(0, w)), -x, x))); } else unsup("symbolic bit intrinsic"); } c.ret.g = b.done(); return true; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned W = c.ci->getArgOperand(0)->getType()->getIntegerBitWidth(), op = id == Intrinsic::sadd_with_overflow ? Instruction::Add : id == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
            GV d = binop(op, A(c, 0), A(c, 1), W, c.g); Builder b;
            for (auto &x : A(c, 0)) for (auto &y : A(c, 1)) { Bdd h = M.land(M.land(x.g, y.g), c.g); if (h == BF) continue; if (x.l.k == KUNDEF || y.l.k == KUNDEF) { b.add(h, LU); continue; }
                if (x.l.k == KINT && y.l.k == KINT) { __int128 u = sext(x.l.v, W), v = sext(y.l.v, W), r = op == Instruction::Add ? u + v : op == Instruction::Sub ? u - v : u * v; b.add(h, LI(r != (__int128) sext((uint64_t) r & maskw(W), W))); }
                else { z3::expr u = z3::sext(tz(x.l, W), W), v = z3::sext(tz(y.l, W), W), r = op == Instruction::Add ? u + v : op == Instruction::Sub ? u - v : u * v; Bdd a = atomBdd(r != z3::sext(r.extract(W - 1, 0), W)); b.add(M.land(h, a), LI(1)); b.add(M.diff(h, a), LI(0)); } }
            c.ret.agg = {RV(d), RV(b.done())}; return true; }
        case Intrinsic::usub_sat: { GV d = binop(Instruction::Sub, A(c, 0), A(c, 1), w, c.g); Bdd t, f, u; condGuard(icmp(CmpInst::ICMP_UGE, A(c, 0), A(c, 1), w, c.g), c.g, t, f, u); c.ret.g = mergeG(gvi(0), d, t); return true; }
        case Intrinsic::uadd_sat: { GV d = binop(Instruction::Add, A(c, 0), A(c, 1), w, c.g); Bdd t, f, u; condGuard(icmp(CmpInst::ICMP_ULT, d, A(c, 0), w, c.g), c.g, t, f, u); c.ret.g = mergeG(d, gvi(maskw(w)), t); return true; }
        case Intrinsic::uadd_with_overflow: { GV d = binop(Instruction::Add, A(c, 0), A(c, 1), c.ci->getArgOperand(0)->getType()->getIntegerBitWidth(), c.g); c.ret.agg = {RV(d), RV(icmp(CmpInst::ICMP_ULT, d, A(c, 0), c.ci->getArgOperand(0)->getType()->getIntegerBitWidth(), c.g))}; return true; }
        case Intrinsic::usub_with_overflow: { unsigned W = c.ci->getArgOperand(0)->getType()->getIntegerBitWidth(); GV d = binop(Instruction::Sub, A(c, 0), A(c, 1), W, c.g); c.ret.agg = {RV(d), RV(icmp(CmpInst::ICMP_ULT, A(c, 0), A(c, 1), W, c.g))}; return true; }
        case Intrinsic::umul_with_overflow: {
            unsigned W = c.ci->getArgOperand(0)->getType()->getIntegerBitWidth(); GV d = binop(Instruction::Mul, A(c, 0), A(c, 1), W, c.g); Builder b;
            for (auto &x : A(c, 0)) for (auto &y : A(c, 1)) { Bdd h = M.land(M.land(x.g, y.g), c.g); if (h == BF) continue; if (x.l.k == KUNDEF || y.l.k == KUNDEF) { b.add(h, LU); continue; }
                if (x.l.k == KINT && y.l.k == KINT) { unsigned __int128 p = (unsigned __int128) x.l.v * y.l.v; b.add(h, LI((p >> W) != 0)); }
                else { z3::expr u = z3::zext(tz(x.l, W), W), v = z3::zext(tz(y.l, W), W); Bdd a = atomBdd((u * v).extract(2 * W - 1, W) != Z->bv_val(0, W)); b.add(M.land(h, a), LI(1)); b.add(M.diff(h, a), LI(0)); } }
            c.ret.agg = {RV(d), RV(b.done())}; return true; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            uint64_t s = single(A(c, 2), c.g, "funnel shift amount") % w; GV x = A(c, 0), y = A(c, 1);
            if (id == Intrinsic::fshl) { c.ret.g = s == 0 ? x : binop(Instruction::Or, binop(Instruction::Shl, x, gvi(s), w, c.g), binop(Instruction::LShr, y, gvi(w - s), w, c.g), w, c.g); }
            else c.ret.g = s == 0 ? y : binop(Instruction::Or, binop(Instruction::Shl, x, gvi(w - s), w, c.g), binop(Instruction::LShr, y, gvi(s), w, c.g), w, c.g);
            return true; }
        case Intrinsic::trap: report("trap", "unreachable code reached", c.g); c.g = BF; return true;
        case Intrinsic::objectsize: c.ret.g = gvi(~0ull & maskw(w)); return true;
        case Intrinsic::is_constant: c.ret.g = gvi(0); return true;
        case Intrinsic::fmuladd: { Type *t = rt; c.ret.g = fbin(Instruction::FAdd, fbin(Instruction::FMul, A(c, 0), A(c, 1), t, c.g), A(c, 2), t, c.g); return true; }
        case Intrinsic::eh_typeid_for: c.ret.g = gvi(0); return true;
        default: break;
    }
    auto h = hooks.find(F->getName().str()); if (h != hooks.end()) { h->second(c); return true; }
    unsup("intrinsic " + F->getName().str()); return true;
}
static void callTarget(CallCtx &c, Function *F) {
    auto h = hooks.find(F->getName().str());
    if (h != hooks.end()) { h->second(c); return; }
    if (F->isIntrinsic()) { intrinsic(c, F); return; }
    if (F->isDeclaration()) {
        string n = F->getName().str();
        if (n.find("_ZSt") == 0 && n.find("__throw_") != string::npos) { report("throw", demangle(n), c.g); c.g = BF; return; }
        if (n == "__cxa_throw" || n == "__cxa_pure_virtual" || n == "_ZSt9terminatev" || n == "__clang_call_terminate") { report("throw", n, c.g); c.g = BF; return; }
        if (n == "__cxa_allocate_exception") { c.ret.g = doMalloc(gvi(64), c.g, 0, false, "exception"); return; }
        unsup("call to external function " + n);
    }
    if (F->getName() == "__clang_call_terminate") { report("throw", "terminate", c.g); c.g = BF; return; }
    c.g = runFunction(F, c.a, c.g, c.ret);
}
static Bdd doCall(Frame &f, CallBase *ci, Bdd g) {
    Value *cv = ci->getCalledOperand(); CallCtx c; c.f = &f; c.ci = ci; c.g = g;
    if (ci->isInlineAsm()) { if (cast<InlineAsm>(cv)->getAsmString().empty()) return g; unsup("inline asm"); }
    Function *F = dyn_cast<Function>(cv->stripPointerCasts());
    if (isa<DbgInfoIntrinsic>(ci)) return g;
    if (F && F->isIntrinsic() && (F->getIntrinsicID() == Intrinsic::dbg_value || F->getIntrinsicID() == Intrinsic::dbg_declare || F->getIntrinsicID() == Intrinsic::assume || F->getIntrinsicID() == Intrinsic::experimental_noalias_scope_decl)) return g;
    for (auto &a : ci->args()) {
        if (a->getType()->isMetadataTy()) { c.a.push_back(RV()); continue; }
        RV r = opR(f, a); if (r.agg.empty()) { if (r.g.empty()) r.g = gv1(LU); r.g = restrictG(r.g, g); }
        c.a.push_back(r);
        // byval aggregates are copied
        unsigned i = c.a.size() - 1;
        if (ci->isByValArgument(i)) {
            Type *t = ci->getParamByValType(i); uint32_t id = newObj(OSTACK, gvi(DL->getTypeAllocSize(t)), "byval"); GV p = gv1(LP(id, 0));
            Bdd gg = g; doMemcpy(p, r.g, gvi(DL->getTypeAllocSize(t)), gg, false); c.a[i] = RV(p);
        }
    }
    if (F) callTarget(c, F);
    else {
        GV t = restrictG(opG(f, cv), g); Bdd out = BF; RV acc; bool first = true; vector<RV> args = c.a;
        for (auto &e : t) {
            Bdd h = M.land(e.g, g); if (h == BF) continue;
            if (e.l.k != KPTR || !objs[e.l.o]->fn) { report("bad-call", "call through an invalid function pointer", h); continue; }
            CallCtx d; d.f = &f; d.ci = ci; d.a = args; d.g = h; callTarget(d, objs[e.l.o]->fn);
            acc = first ? d.ret : mergeR(acc, d.ret, h); first = false; out = M.lor(out, d.g);
        }
        c.g = out; c.ret = acc;
    }
    if (!ci->getType()->isVoidTy()) { if (c.ret.agg.empty() && c.ret.g.empty()) c.ret.g = gv1(LU); setSlot(f, ci, c.ret, c.g); }
    return c.g;
}
static bool g_inFinish = false;
static Bdd execBlock(Frame &f, BasicBlock *bb, Bdd g, Bdd &retG, RV &ret) {
    st.blocks++;
    for (auto &I : *bb) {
        if (isa<PHINode>(I)) continue;
        if (g == BF) return BF;
        f.cur = &I; st.instrs++; tick(); noteFn(&I);
        switch (I.getOpcode()) {
            case Instruction::Alloca: {
                auto *ai = cast<AllocaInst>(&I); GV n = opG(f, ai->getArraySize());
                uint64_t es = DL->getTypeAllocSize(ai->getAllocatedType()); GV sz = mapG(n, [&](const Leaf &l) { return LI(l.v * es); });
                uint32_t id = newObj(OSTACK, sz, ai->getName().str().empty() ? "local" : "local " + ai->getName().str());  { uint64_t al = ai->getAlign().value(); if (al < 256) objs[id]->base += al; } f.stackObjs.push_back(id);
                setSlot(f, &I, RV(gv1(LP(id, 0))), g); break;
            }
            case Instruction::Load: { auto *l = cast<LoadInst>(&I); if (l->isAtomic()) preemptPoint(); RV r = loadTyped(restrictG(opG(f, l->getPointerOperand()), g), l->getType(), g, l->isAtomic() ? -1 : T->lock); setSlot(f, &I, r, g); break; }
            case Instruction::Store: { auto *s = cast<StoreInst>(&I); if (s->isAtomic()) preemptPoint(); RV v = opR(f, s->getValueOperand()); if (v.agg.empty()) v.g = restrictG(v.g.empty() ? gv1(LU) : v.g, g); storeTyped(restrictG(opG(f, s->getPointerOperand()), g), s->getValueOperand()->getType(), v, g, s->isAtomic() ? -1 : T->lock); break; }
            case Instruction::GetElementPtr: {
                auto *ge = cast<GEPOperator>(&I); if (I.getType()->isVectorTy()) unsup("vector gep");
                GV p = restrictG(opG(f, ge->getPointerOperand()), g); int64_t co = 0;
                for (auto gti = gep_type_begin(ge), e = gep_type_end(ge); gti != e; ++gti) {
                    Value *ix = gti.getOperand();
                    if (StructType *sty = gti.getStructTypeOrNull()) { co += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
                    if (auto *ci = dyn_cast<ConstantInt>(ix)) { co += ci->getSExtValue() * sc; continue; }
                    p = gepAdd(p, restrictG(opG(f, ix), g), sc, ix->getType()->getIntegerBitWidth(), g);
                }
                if (co) p = gepAdd(p, gvi(co), 1, 64, g);
                setSlot(f, &I, RV(p), g); break;
            }
            case Instruction::ICmp: { auto *c = cast<ICmpInst>(&I); if (c->getOperand(0)->getType()->isVectorTy()) unsup("vector icmp"); unsigned w = tyW(c->getOperand(0)->getType()); setSlot(f, &I, RV(icmp(c->getPredicate(), opG(f, c->getOperand(0)), opG(f, c->getOperand(1)), w, g)), g); break; }
            case Instruction::FCmp: { auto *c = cast<FCmpInst>(&I); setSlot(f, &I, RV(fcmp(c->getPredicate(), opG(f, c->getOperand(0)), opG(f, c->getOperand(1)), c->getOperand(0)->getType(), g)), g); break; }
            case Instruction::FNeg: { bool d = I.getType()->isDoubleTy(); setSlot(f, &I, RV(mapG(opG(f, I.getOperand(0)), [&](const Leaf &l) { if (l.k == KUNDEF) return LU; if (l.k != KINT) unsup("fneg"); return LI(l.v ^ (d ? 1ull << 63 : 1ull << 31)); })), g); break; }
            case Instruction::Select: {
                Bdd t, fa, u; condGuard(opG(f, I.getOperand(0)), g, t, fa, u); RV x = opR(f, I.getOperand(1)), y = opR(f, I.getOperand(2));
                if (!x.agg.empty()) { RV r = mergeR(y, x, t); setSlot(f, &I, r, g); break; }
                if (x.g.empty()) x.g = gv1(LU); if (y.g.empty()) y.g = gv1(LU);
                Builder b; for (auto &e : x.g) b.add(M.land(e.g, t), e.l); for (auto &e : y.g) b.add(M.land(e.g, fa), e.l);
                if (u != BF) b.add(u, LU);
                GV r = b.done(); if (r.empty()) r = gv1(LU); setSlot(f, &I, RV(r), g); break;
            }
            case Instruction::Freeze: { setSlot(f, &I, opR(f, I.getOperand(0)), g); break; }
            case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(&I); RV r = opR(f, e->getAggregateOperand()); for (unsigned i : e->indices()) { if (i >= r.agg.size()) { r = RV(gv1(LU)); break; } RV t = r.agg[i]; r = t; } setSlot(f, &I, r, g); break; }
            case Instruction::InsertValue: {
                auto *e = cast<InsertValueInst>(&I); RV r = opR(f, e->getAggregateOperand()); RV v = opR(f, e->getInsertedValueOperand());
                std::function<void(RV &, Type *, ArrayRef<unsigned>)> ins = [&](RV &x, Type *t, ArrayRef<unsigned> ix) { if (ix.empty()) { x = v; return; } unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); if (x.agg.size() < n) { x.agg.resize(n, RV(gv1(LU))); } ins(x.agg[ix[0]], t->isStructTy() ? t->getStructElementType(ix[0]) : t->getArrayElementType(), ix.slice(1)); };
                ins(r, e->getType(), e->getIndices()); setSlot(f, &I, r, g); break;
            }
            case Instruction::AtomicRMW: {
                auto *a = cast<AtomicRMWInst>(&I); preemptPoint(); unsigned w = DL->getTypeStoreSize(a->getType()); GV p = restrictG(opG(f, a->getPointerOperand()), g); GV old = loadGV(p, w, g, -1), v = opG(f, a->getValOperand()), nv; unsigned bw = w * 8;
                switch (a->getOperation()) {
                    case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, bw, g); break; case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, bw, g); break;
                    case AtomicRMWInst::And: nv = binop(Instruction::And, old, v, bw, g); break; case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v, bw, g); break; case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, v, bw, g); break;
                    case AtomicRMWInst::FAdd: nv = fbin(Instruction::FAdd, old, v, a->getType(), g); break;
                    default: unsup("atomicrmw");
                }
                storeGV(p, w, restrictG(nv, g), g, -1); setSlot(f, &I, RV(old), g); break;
            }
            case Instruction::AtomicCmpXchg: {
                auto *a = cast<AtomicCmpXchgInst>(&I); preemptPoint(); unsigned w = DL->getTypeStoreSize(a->getNewValOperand()->getType()); GV p = restrictG(opG(f, a->getPointerOperand()), g); GV old = loadGV(p, w, g, -1);
                GV eq = icmp(CmpInst::ICMP_EQ, old, opG(f, a->getCompareOperand()), w * 8, g); Bdd t, fa, u; condGuard(eq, g, t, fa, u); if (t != BF) { Bdd gg = t; storeGV(p, w, restrictG(opG(f, a->getNewValOperand()), t), gg, -1); }
                RV r; r.agg = {RV(old), RV(eq)}; setSlot(f, &I, r, g); break;
            }
            case Instruction::Fence: break;
            case Instruction::Br: {
                auto *b = cast<BranchInst>(&I);
                if (b->isUnconditional()) { takeEdge(f, bb, b->getSuccessor(0), g, false); return BF; }
                Bdd t, fa, u; condGuard(opG(f, b->getCondition()), g, t, fa, u);
                if (u != BF) { report("uninit-branch", "control flow depends on uninitialised memory", u); }
                if (M.hasAtom(t) && !feasible(t)) t = BF;
                if (M.hasAtom(fa) && !feasible(fa)) fa = BF;
                takeEdge(f, bb, b->getSuccessor(0), t, fa != BF); takeEdge(f, bb, b->getSuccessor(1), fa, t != BF);
                return BF;
            }
            case Instruction::Switch: {
                auto *s = cast<SwitchInst>(&I); GV c = concretize(restrictG(opG(f, s->getCondition()), g), tyW(s->getCondition()->getType()), g); map<BasicBlock *, Bdd> tg;
                for (auto &e : c) { Bdd h = M.land(e.g, g); if (h == BF) continue; if (e.l.k != KINT) { report("uninit-branch", "switch on uninitialised memory", h); continue; }
                    auto *ci = ConstantInt::get(cast<IntegerType>(s->getCondition()->getType()), e.l.v); BasicBlock *d = s->findCaseValue(ci)->getCaseSuccessor(); auto it = tg.find(d); if (it == tg.end()) tg[d] = h; else it->second = M.lor(it->second, h); }
                for (auto &p : tg) takeEdge(f, bb, p.first, p.second, tg.size() > 1);
                return BF;
            }
            case Instruction::Ret: {
                auto *r = cast<ReturnInst>(&I);
                if (r->getReturnValue()) { RV v = opR(f, r->getReturnValue()); if (v.agg.empty()) v.g = restrictG(v.g.empty() ? gv1(LU) : v.g, g); if (retG == BF) ret = v; else ret = mergeR(ret, v, g); }
                retG = M.lor(retG, g); return BF;
            }
            case Instruction::Unreachable: report("unreachable", "undefined behaviour reached (unreachable)", g); return BF;
            case Instruction::Call: g = doCall(f, cast<CallBase>(&I), g); break;
            case Instruction::Invoke: { auto *iv = cast<InvokeInst>(&I); g = doCall(f, iv, g); if (g != BF) takeEdge(f, bb, iv->getNormalDest(), g, false); return BF; }
            default:
                if (I.isBinaryOp()) {
                    Type *t = I.getType(); if (t->isVectorTy()) unsup("vector arithmetic");
                    if (t->isFloatingPointTy()) setSlot(f, &I, RV(fbin(I.getOpcode(), opG(f, I.getOperand(0)), opG(f, I.getOperand(1)), t, g)), g);
                    else { GV r = binop(I.getOpcode(), opG(f, I.getOperand(0)), opG(f, I.getOperand(1)), t->getIntegerBitWidth(), g); setSlot(f, &I, RV(r), g); }
                } else if (I.isCast()) setSlot(f, &I, RV(castop(I.getOpcode(), restrictG(opG(f, I.getOperand(0)), g), I.getOperand(0)->getType(), I.getType(), g)), g);
                else { string s; raw_string_ostream os(s); I.print(os); unsup("instruction " + os.str()); }
        }
    }
    return BF;
}
static int depth = 0;
static Bdd runFunction(Function *F, vector<RV> &args, Bdd g, RV &ret) {
    if (F->isDeclaration()) unsup("no body: " + F->getName().str());
    if (F->isVarArg()) unsup("varargs function");
    FI *fi = getFI(F); Frame f; f.fi = fi; f.s.resize(fi->nslots); f.iters.assign(fi->order.size(), 0); f.up = T->top;
    int d = 0; for (Frame *x = T->top; x; x = x->up) d++;
    if (d > 400) { report("non-termination", "call depth exceeds 400 in " + F->getName().str(), g); return BF; }
    unsigned i = 0; for (auto &a : F->args()) { if (i < args.size()) f.s[fi->slot[&a]] = args[i]; i++; }
    T->top = &f; TC *myT = T;
    Bdd retG = BF; f.pend[fi->idx[&F->getEntryBlock()]] = g;
    while (!f.pend.empty()) {
        auto it = f.pend.begin(); unsigned idx = it->first; Bdd h = it->second; f.pend.erase(it);
        if (h == BF) continue;
        if (++f.iters[idx] > opt.maxIter) { f.cur = &*fi->order[idx]->begin(); report("non-termination", "loop exceeds " + std::to_string(opt.maxIter) + " iterations", h); f.iters[idx] = 0; unsup("loop bound exceeded"); }
        if (f.iters[idx] > st.maxIter) st.maxIter = f.iters[idx];
        execBlock(f, fi->order[idx], h, retG, ret);
    }
    T = myT; T->top = f.up;
    for (uint32_t o : f.stackObjs) { objs[o]->freed = BT; objs[o]->cells.clear(); }
    return retG;
}

// ------------------------------------------------------------------ output
static string js(const string &s) { string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) r += ' '; else r += c; } return r + "\""; }
static void finish(const string &status0, const string &why) {
    string status = status0;
    if (g_inFinish) _exit(3);
    g_inFinish = true;
    if (!viols.empty()) status = "violation"; else if (status == "pass" && !incon.empty()) status = "inconclusive";
    std::ostringstream o;
    o << "{\"status\":" << js(status) << ",\"reason\":" << js(why.empty() && !incon.empty() ? incon[0] : why) << ",\"entry\":" << js(opt.entry) << ",\"at\":" << js(why.empty() ? "" : curLoc()) << ",\"params\":[";
    for (size_t i = 0; i < opt.params.size(); i++) o << (i ? "," : "") << opt.params[i];
    o << "],\"violations\":[";
    for (size_t i = 0; i < viols.size(); i++) {
        o << (i ? "," : "") << "{\"kind\":" << js(viols[i].kind) << ",\"msg\":" << js(viols[i].msg) << ",\"loc\":" << js(viols[i].loc) << ",\"model\":{";
        for (size_t j = 0; j < viols[i].m.size(); j++) o << (j ? "," : "") << js(viols[i].m[j].first) << ":" << viols[i].m[j].second;
        o << "}}";
    }
    o << "],\"covers\":["; bool fst = true; for (auto &c : covers) { o << (fst ? "" : ",") << js(c); fst = false; }
    o << "],\"functions\":["; fst = true; for (auto &c : reached) { o << (fst ? "" : ",") << js(c); fst = false; }
    o << "],\"stats\":{\"bdd_decided\":" << st.bddDecided << ",\"instrs\":" << st.instrs << ",\"blocks\":" << st.blocks << ",\"bdd_nodes\":" << M.n.size() << ",\"vars\":" << varExpr.size() << ",\"inputs\":" << inputs.size() << ",\"queries\":" << st.queries << ",\"unsat\":" << st.unsat << ",\"sat\":" << st.sat << ",\"unknown\":" << st.unknown
      << ",\"asserts\":" << st.asserts << ",\"obligations\":" << st.obligations << ",\"accesses\":" << st.accesses << ",\"symbolic_accesses\":" << st.guardedAccesses << ",\"race_pairs\":" << st.racePairs << ",\"max_iter\":" << st.maxIter << ",\"objects\":" << st.objs << ",\"merges\":" << st.merges << ",\"solver_s\":" << st.solver << ",\"wall_s\":" << now() << "}}\n";
    if (opt.out == "-") std::cout << o.str() << std::flush; else { std::ofstream f(opt.out); f << o.str(); }
    _exit(status == "pass" ? 0 : status == "violation" ? 1 : 2);
}
int main(int argc, char **argv) {
    T0 = std::chrono::steady_clock::now(); string file;
    struct rlimit rl = {1ull << 30, 1ull << 30}; 
    if (getenv("SYMX_CHILD") == nullptr) { setenv("SYMX_CHILD", "1", 1); setrlimit(RLIMIT_STACK, &rl); execv("/proc/self/exe", argv); }
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
        if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--timeout") opt.timeout = std::stod(nx());
        else if (a == "--params") { std::stringstream s(nx()); string t; while (getline(s, t, ',')) if (!t.empty()) opt.params.push_back(std::stoll(t)); }
        else if (a == "--max-iter") opt.maxIter = std::stoull(nx()); else if (a == "--max-viol") opt.maxViol = std::stoul(nx()); else if (a == "--threads") opt.defThreads = std::stoul(nx());
        else if (a == "--preempt") { string s = nx(); sscanf(s.c_str(), "%d,%d", &opt.preThr, &opt.preAt); } else if (a == "--no-race") opt.race = false; else if (a == "-v") opt.verbose = true; else if (a == "--query-timeout") opt.qTimeout = std::stoul(nx());
        else if (a == "--ignore") opt.ignore.insert(nx()); else if (a == "--mem-nodes") M.limit = std::stoull(nx());
        else if (a == "--fix") { opt.replay = true; string t = nx(); size_t e = t.rfind('='); if (e != string::npos) opt.fixed[t.substr(0, e)] = std::stoull(t.substr(e + 1)); }
        else file = a;
    }
    LLVMContext C; SMDiagnostic err; auto m = parseIRFile(file, err, C);
    if (!m) { fprintf(stderr, "cannot parse %s: %s\n", file.c_str(), err.getMessage().str().c_str()); return 3; }
    Mod = m.get(); DL = &Mod->getDataLayout(); z3::context zc; Z = &zc; z3::solver sv(zc); z3::params pr(zc); pr.set("timeout", opt.qTimeout); sv.set(pr); S = &sv;
    M.onLimit = [] { unsup("guard formula too large"); };
    newObj(OGLOBAL, gvi(0), "null"); // object 0 is never handed out
    setupHooks();
    Function *F = Mod->getFunction(opt.entry); if (!F) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
    RV r; vector<RV> none; Bdd g = BT;
    if (auto *gc = Mod->getGlobalVariable("llvm.global_ctors")) {
        auto *ar = dyn_cast<ConstantArray>(gc->getInitializer());
        if (ar) for (auto &op : ar->operands()) { auto *s = cast<ConstantStruct>(op); if (auto *cf = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) { RV x; g = runFunction(cf, none, g, x); } }
    }
    g = runFunction(F, none, g, r);
    finish("pass", "");
}
