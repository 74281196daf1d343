#include "sx_pre.h"
#include "CSR.h"
#include "spgemm-blocks/scan.h"
#include "spgemm-blocks/util.h"
#include "spgemm-blocks/heap/Heap.h"
#include "HeapEntry.h"
typedef int IT;
static const int MAXN = 12;
struct Model { int key[MAXN], loc[MAXN], live[MAXN]; int n; };
static int minKey(const Model &m) { int r = 1 << 30; for (int i = 0; i < m.n; i++) if (m.live[i] && m.key[i] < r) r = m.key[i]; return r; }
static int cnt(const Model &m) { int c = 0; for (int i = 0; i < m.n; i++) c += m.live[i]; return c; }
static void checkTop(Heap<IT> &h, const Model &m) {
    int c = cnt(m); sx_check_eq(h.isEmpty(), c == 0, "empty exactly when nothing is left");
    if (c) { auto &t = h.top(); sx_assert(t.runr >= 0 && t.runr < m.n && m.live[t.runr], "the top is an element that was inserted and not removed"); sx_check_eq(m.key[t.runr], t.key, "the key travels with its element"); sx_check_eq(m.loc[t.runr], t.loc, "the position travels with its element"); sx_check_eq(t.key, minKey(m), "the top has the smallest key"); }
}
// params: elements, steps, distinct keys, rounds
extern "C" void ops() {
    int n = sx_param(0), steps = sx_param(1), dom = sx_param(2), rounds = sx_param(3);
    Heap<IT> h(n); auto [sz, al] = h.getMemoryRequirement(); std::byte *buf = mallocAligned(sz, al); h.setBuffer(buf, sz, sz);
    for (int r = 0; r < rounds; r++) {
        Model m; m.n = rounds > 1 ? (int) sx_int("elements", 0, n) : n;
        for (int i = 0; i < m.n; i++) { m.key[i] = (int) sx_int("key", 0, dom - 1); m.loc[i] = 100 + i; m.live[i] = 1; h.append(m.key[i], i, m.loc[i]); }
        h.make(); checkTop(h, m);
        for (int t = 0; t < steps; t++) {
            if (h.isEmpty()) break;
            auto &e = h.top(); int id = e.runr;
            if (sx_int("op", 0, 1)) { h.pop(); m.live[id] = 0; }
            else { int k = (int) sx_int("newkey", 0, dom); e.key = k; e.loc++; h.sinkRoot(); m.key[id] = k; m.loc[id]++; }
            checkTop(h, m);
        }
        if (r == 0 && rounds > 1) { h.clear(); sx_assert(h.isEmpty(), "empty after clear"); continue; }
        while (!h.isEmpty()) { int id = h.top().runr; h.pop(); m.live[id] = 0; checkTop(h, m); }
        sx_check_eq(cnt(m), 0, "every element was delivered");
    }
    size_t d = h.releaseBuffer(); sx_assert(d <= sz, "dirty bytes within the buffer"); freeAligned(buf); sx_cover("end");
}
// the ordering used by the standard heap routines on heap entries. params: elements, distinct keys
extern "C" void entry() {
    int n = sx_param(0), dom = sx_param(1);
    typedef HeapEntry<IT, double> E1; typedef HeapEntry<IT, void> E2; E1 a[MAXN]; E2 b[MAXN]; int key[MAXN];
    for (int i = 0; i < n; i++) { key[i] = (int) sx_int("key", 0, dom - 1); a[i].key = b[i].key = key[i]; a[i].runr = b[i].runr = i; a[i].loc = b[i].loc = 50 + i; a[i].value = 0.5 + i; }
    // strict weak order, the smaller key on top
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (key[i] != key[j]) { sx_check_eq(a[i] < a[j], key[i] > key[j], "the entry with the smaller key comes first"); sx_check_eq(b[i] < b[j], key[i] > key[j], "the entry with the smaller key comes first"); }
        else sx_assert(!(a[i] < a[j] && a[j] < a[i]) && !(b[i] < b[j] && b[j] < b[i]), "entries with equal keys do not both come first");
    }
    std::make_heap(a, a + n); std::make_heap(b, b + n);
    int da[MAXN], db[MAXN]; for (int i = 0; i < n; i++) da[i] = db[i] = 0;
    int pa = -1, pb = -1;
    for (int s = n; s > 0; s--) {
        sx_assert(a[0].key >= pa && b[0].key >= pb, "elements come in ascending key order"); pa = a[0].key; pb = b[0].key;
        sx_assert(key[a[0].runr] == pa && key[b[0].runr] == pb && a[0].loc == 50 + a[0].runr && b[0].loc == 50 + b[0].runr && a[0].value == 0.5 + a[0].runr, "payload travels with the key"); da[a[0].runr]++; db[b[0].runr]++;
        std::pop_heap(a, a + s); std::pop_heap(b, b + s);
    }
    for (int i = 0; i < n; i++) sx_assert(da[i] == 1 && db[i] == 1, "every element was delivered once");
    sx_cover("end");
}
