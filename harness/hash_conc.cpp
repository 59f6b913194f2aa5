// C11/C12: concurrent hash containers. Every operation is recorded with a global ticket before and after; an offline
// checker decides linearizability of the insert-only set per key, conservation and exactly-once.
#include "vt.h"
#include "conc.h"
#include <algorithm>
#include <map>
#include <set>
#include <thread>
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
using namespace vt;

typedef uint32_t K;

struct Op { uint64_t b, e; K key; uint32_t val; char kind; char res; }; // kind I insert, C contains; res T F U(full)
static std::atomic<uint64_t> ticket{1};


struct Plan {
    int threads, mode;
    bool stamp, chaos, yields, readers;
    size_t per;     // ops per thread
    K universe, base;
    int shift;
    K key(Rng &r) const {
        K k = 0;
        while (!k) k = mode == 0 ? (K)r.range(1, universe) : mode == 1 ? (K)(base + (K)r.below(universe)) : (K)(r.range(1, universe) << shift);
        return k;
    }
};
static void pause(Rng &r, const Plan &p) {
    if (!p.yields) return;
    switch (r.below(40)) {
        case 0: std::this_thread::yield(); break;
        case 1: { timespec d{0, (long)r.below(50000)}; nanosleep(&d, nullptr); break; }
        case 2: for (volatile unsigned i = 0; i < r.below(3000); ++i) {} break;
    }
}
static Plan mkPlan(Rng &r) {
    Plan p;
    p.threads = (int)r.range(2, 8);
    p.mode = (int)r.below(3);
    p.stamp = r.chance(1, 2);
    p.chaos = r.chance(2, 3);
    p.yields = r.chance(1, 2);
    p.readers = r.chance(1, 2);
    p.per = r.chance(1, 4) ? r.range(1, 8) : r.range(10, 1500);
#ifdef VT_TSAN
    p.per = std::min<size_t>(p.per, 400);
#endif
    p.universe = (K)(r.chance(1, 3) ? r.range(1, 12) : r.range(10, 4000));
    p.base = (K)r.next();
    p.shift = (int)r.range(1, 6);
    return p;
}

// per-key linearizability of an insert-only set
static void judge(const char *p, const std::vector<std::vector<Op>> &logs, bool stamp, std::set<K> &present) {
    std::map<K, std::vector<const Op *>> by;
    uint64_t n = 0;
    for (auto &l : logs) for (auto &o : l) { by[o.key].push_back(&o); ++n; }
    uint64_t overlap = 0;
    for (auto &kv : by) {
        const Op *win = nullptr;
        int wins = 0;
        for (auto o : kv.second) if (o->kind == 'I' && o->res == 'T') { ++wins; win = o; }
        bool claimed = false;
        for (auto o : kv.second) claimed |= o->res != 'U' && (o->kind == 'I' || o->res == 'T');
        if (claimed)
            VT_CHECK(str(p, "once"), wins == 1, "key ", kv.first, ": ", wins, " inserts returned true");
        if (claimed) present.insert(kv.first);
        if (!stamp || !win) continue;
        uint64_t firstKnown = ~0ull;
        for (auto o : kv.second)
            if (o->res != 'U' && (o->kind == 'I' || o->res == 'T')) firstKnown = std::min(firstKnown, o->e);
        for (auto o : kv.second) {
            if (o != win && o->b < win->e && win->b < o->e) ++overlap;
            if (o->res == 'U') continue;
            if ((o->kind == 'I' && o->res == 'F') || (o->kind == 'C' && o->res == 'T'))
                VT_CHECK(str(p, "early"), o->e > win->b, "key ", kv.first, " reported present before its insert began");
            if (o->kind == 'C' && o->res == 'F')
                VT_CHECK(str(p, "lost-read"), o->b < firstKnown, "key ", kv.first, " reported absent after it was reported present");
        }
    }
    ctx().count("ops", n);
    ctx().count("overlapping_ops_same_key", overlap);
}

static InsertReturn ins(Concurrent_LP_Set<K, false> &s, K k, uint32_t) { return s.insert(k); }
template <class H> char resOf(const InsertReturn &r) { return r == InsertReturn::State::Full ? 'U' : r ? 'T' : 'F'; }
static char rs(const InsertReturn &r) { return r == InsertReturn::State::Full ? 'U' : (bool)r ? 'T' : 'F'; }

// ---- fixed-size set
static void fixedSet(Rng &r) {
    Plan p = mkPlan(r);
    size_t cap = r.chance(1, 3) ? r.range(1, 64) : r.range(16, 2 * (size_t)p.universe + 16);
    Concurrent_LP_Set<K, false> s(cap);
    cap = s.capacity();
    std::vector<std::vector<Op>> logs(p.threads);
    uint64_t seed = r.next();
    parallel(p.threads, seed, p.chaos, [&](int t) {
        Rng q(seed, t);
        auto &L = logs[t];
        for (size_t i = 0; i < p.per; ++i) {
            Op o{};
            o.key = p.key(q);
            o.kind = q.chance(1, 3) ? 'C' : 'I';
            if (p.stamp) o.b = ticket.fetch_add(1);
            if (o.kind == 'I') o.res = rs(s.insert(o.key));
            else o.res = q.chance(1, 2) ? (s.contains(o.key) ? 'T' : 'F') : (s.get(o.key) == o.key ? 'T' : 'F');
            if (p.stamp) o.e = ticket.fetch_add(1);
            L.push_back(o);
            if (o.kind == 'I' && o.res != 'U')
                VT_CHECK("fs:own", s.contains(o.key) && s.count(o.key) == 1, "own insert of ", o.key, " not visible");
            pause(q, p);
        }
    });
    std::set<K> present;
    judge("fs:", logs, p.stamp, present);
    bool anyFull = false;
    for (auto &l : logs) for (auto &o : l) anyFull |= o.res == 'U';
    VT_CHECK("fs:size", s.size() == present.size(), "size ", s.size(), " but ", present.size(), " keys were inserted");
    VT_CHECK("fs:capacity", s.capacity() == cap && present.size() <= cap, "capacity");
    if (anyFull) VT_CHECK("fs:full", present.size() == cap, "insert reported Full with ", present.size(), " of ", cap, " slots used");
    std::multiset<K> it;
    for (auto k : s) it.insert(k);
    VT_CHECK("fs:iterate", std::equal(it.begin(), it.end(), present.begin(), present.end()), "iteration visits ", it.size(), " of ", present.size());
    for (auto k : present) VT_CHECK("fs:lost", s.contains(k), "lost ", k);
    for (int i = 0; i < 20; ++i) {
        K k = p.key(r);
        VT_CHECK("fs:absent", s.contains(k) == (present.count(k) == 1), "contains(", k, ")");
    }
    if (anyFull) ctx().count("full_tables");
    ctx().nontrivial(fnv(str(present.size(), " ", cap, " ", ticket.load(), " ", p.threads)));
#ifndef VT_TSAN
    // merge with a second table under a filter
    Concurrent_LP_Set<K, false> o(64 + r.below(64));
    std::set<K> m2, f;
    for (int i = 0, e = (int)r.below(50); i < e; ++i) { K k = p.key(r); m2.insert(k); o.insert(k); }
    for (auto k : present) if (r.chance(1, 3)) f.insert(k);
    for (auto k : m2) if (r.chance(1, 3)) f.insert(k);
    s.unsafe_merge(std::move(o), f);
    present.insert(m2.begin(), m2.end());
    for (auto k : f) present.erase(k);
    std::multiset<K> it2;
    for (auto k : s) it2.insert(k);
    VT_CHECK("fs:merge", s.size() == present.size() && std::equal(it2.begin(), it2.end(), present.begin(), present.end()),
             "merge: size ", s.size(), ", visits ", it2.size(), ", expected ", present.size());
    for (auto k : present) VT_CHECK("fs:merge", s.contains(k), "merge lost ", k);
    ctx().count("merges");
#endif
}

// value of an insert: thread, counter -> unique
static uint32_t uval(int t, size_t i) { return (uint32_t)((t + 1) << 20 | (i + 1)); }

// ---- maps, fixed (tab = Concurrent_LP_Map) or growing (handle)
struct Fixed {};
template <class MAP, class MkH> void mapWorkers(const char *pf, Rng &r, Plan &p, MkH mkHandle, std::map<K, std::set<uint32_t>> &written, bool &anyFull) {
    std::vector<std::vector<Op>> logs(p.threads);
    uint64_t seed = r.next();
    parallel(p.threads, seed, p.chaos, [&](int t) {
        Rng q(seed, t);
        auto h = mkHandle();
        auto &L = logs[t];
        for (size_t i = 0; i < p.per; ++i) {
            Op o{};
            o.key = p.key(q);
            o.val = uval(t, i);
            o.kind = 'I';
            if (p.stamp) o.b = ticket.fetch_add(1);
            o.res = rs(h->insert(o.key, o.val));
            if (p.stamp) o.e = ticket.fetch_add(1);
            L.push_back(o);
            if (o.res != 'U') {
                uint32_t g = h->get(o.key);
                VT_CHECK(str(pf, "own"), g != 0 && h->contains(o.key), "own insert of ", o.key, " not visible");
            }
            pause(q, p);
        }
    });
    std::set<K> present;
    judge(pf, logs, p.stamp, present);
    for (auto &l : logs) for (auto &o : l) {
        if (o.res == 'U') anyFull = true;
        else written[o.key].insert(o.val);
    }
}
template <class C> void mapAudit(const char *pf, const C &s, const std::map<K, std::set<uint32_t>> &w, Rng &r, const Plan &p, std::map<K, uint32_t> &cur) {
    VT_CHECK(str(pf, "size"), s.size() == w.size(), "size ", s.size(), " expected ", w.size());
    size_t vis = 0;
    cur.clear();
    for (auto kv : s) {
        ++vis;
        auto it = w.find(kv.first);
        VT_CHECK(str(pf, "value"), it != w.end() && it->second.count(kv.second), "entry ", kv.first, " -> ", kv.second, " was never inserted");
        VT_CHECK(str(pf, "iterate"), cur.emplace(kv.first, kv.second).second, "key ", kv.first, " stored twice");
    }
    VT_CHECK(str(pf, "iterate"), vis == w.size(), "iteration visits ", vis, " of ", w.size());
    for (auto &kv : w) {
        uint32_t g = s.get(kv.first);
        VT_CHECK(str(pf, "get"), kv.second.count(g) && s.contains(kv.first) && s.count(kv.first) == 1, "get(", kv.first, ") = ", g);
    }
    for (int i = 0; i < 20; ++i) {
        K k = p.key(r);
        VT_CHECK(str(pf, "absent"), (s.get(k) != 0) == (w.count(k) == 1), "get(", k, ")");
    }
}
// last write wins when writes to a key do not overlap: single-writer epilogue
template <class H> void mapUpdates(const char *pf, H &h, const std::map<K, uint32_t> &cur, Rng &r) {
    for (auto &kv : cur) if (r.chance(1, 4)) {
        uint32_t v = (uint32_t)r.range(1, 1u << 30);
        auto x = rs(h.insert(kv.first, v));
        if (x == 'U') continue;
        VT_CHECK(str(pf, "update"), x == 'F' && h.get(kv.first) == v, "update of ", kv.first);
    }
}
static void fixedMap(Rng &r) {
    typedef Concurrent_LP_Map<K, uint32_t> M;
    Plan p = mkPlan(r);
    size_t cap = r.chance(1, 3) ? r.range(1, 64) : r.range(16, 4 * (size_t)p.universe + 16);
    M s(cap);
    std::map<K, std::set<uint32_t>> w;
    std::map<K, uint32_t> cur;
    bool full = false;
    mapWorkers<M>("fm:", r, p, [&] { return &s; }, w, full);
    if (full) {
        ctx().count("full_tables");
        VT_CHECK("fm:full", w.size() >= s.capacity() / 2, "insert reported Full with ", w.size(), " of ", s.capacity());
    }
    mapAudit("fm:", s, w, r, p, cur);
    mapUpdates("fm:", s, cur, r);
    ctx().nontrivial(fnv(str(w.size(), " ", s.capacity(), " ", ticket.load())));
#ifndef VT_TSAN
    M o(256);
    w.clear();
    for (auto kv : s) w[kv.first] = {kv.second};
    std::map<K, uint32_t> m2;
    for (int i = 0, e = (int)r.below(50); i < e; ++i) { K k = p.key(r); m2[k] = 7 + i; o.insert(k, 7 + i); }
    std::set<K> f;
    if (r.chance(1, 2)) {
        for (auto &kv : w) if (r.chance(1, 3)) f.insert(kv.first);
        for (auto &kv : m2) if (r.chance(1, 3)) f.insert(kv.first);
        s.unsafe_merge(std::move(o), f);
    } else s.unsafe_merge(std::move(o));
    for (auto &kv : m2) w[kv.first].insert(kv.second);
    for (auto k : f) w.erase(k);
    mapAudit("fm:merge:", s, w, r, p, cur);
    s.unsafe_rehash(2 * s.size() + 1 + r.below(100));
    for (auto &kv : w) kv.second = {s.get(kv.first)};
    mapAudit("fm:rehash:", s, w, r, p, cur);
    ctx().count("merges");
#endif
}

// ---- multimap
typedef std::map<K, std::multiset<uint32_t>> MM;
template <class MkH> void mmWorkers(const char *pf, Rng &r, Plan &p, MkH mkHandle, MM &w, bool &anyFull, size_t &maxItemsAtFull) {
    std::vector<std::vector<Op>> logs(p.threads);
    uint64_t seed = r.next();
    parallel(p.threads, seed, p.chaos, [&](int t) {
        Rng q(seed, t);
        auto h = mkHandle();
        auto &L = logs[t];
        for (size_t i = 0; i < p.per; ++i) {
            Op o{};
            o.key = p.key(q);
            o.val = uval(t, i);
            o.res = rs(h->insert(o.key, o.val));
            L.push_back(o);
            if (o.res != 'U' && q.chance(1, 4)) {
                // look every value of the key up through the container's own range; ours must be among them
                bool seen = false;
                size_t n = 0;
                auto rg = h->get(o.key);
                for (auto it = rg.first; it != rg.second; ++it) {
                    auto x = *it;
                    VT_CHECK(str(pf, "range-key"), x.first == o.key, "range of ", o.key, " yields ", x.first);
                    seen |= x.second == o.val;
                    if (++n > p.per * p.threads) break;
                }
                VT_CHECK(str(pf, "own"), seen && h->contains(o.key), "own value of ", o.key, " not visible");
            }
            pause(q, p);
        }
    });
    for (auto &l : logs) for (auto &o : l) {
        ctx().count("ops");
        if (o.res == 'U') anyFull = true;
        else {
            VT_CHECK(str(pf, "insert"), o.res == 'T', "insert returned false");
            w[o.key].insert(o.val);
        }
    }
}
template <class C> void mmAudit(const char *pf, const C &s, const MM &w, Rng &r, const Plan &p) {
    size_t tot = 0;
    for (auto &kv : w) tot += kv.second.size();
    VT_CHECK(str(pf, "size"), s.size() == tot, "size ", s.size(), " expected ", tot);
    MM it;
    for (auto kv : s) it[kv.first].insert(kv.second);
    VT_CHECK(str(pf, "iterate"), it == w, "iteration yields different entries");
    for (auto &kv : w) {
        std::multiset<uint32_t> g;
        auto rg = s.get(kv.first);
        for (auto i = rg.first; i != rg.second; ++i) { g.insert((*i).second); if (g.size() > tot) break; }
        VT_CHECK(str(pf, "get"), g == kv.second && s.contains(kv.first), "get(", kv.first, ") yields ", g.size(), " of ", kv.second.size());
    }
    for (int i = 0; i < 20; ++i) {
        K k = p.key(r);
        if (w.count(k)) continue;
        auto rg = s.get(k);
        VT_CHECK(str(pf, "absent"), rg.first == rg.second && !s.contains(k), "absent key ", k, " found");
    }
}
static void fixedMM(Rng &r) {
    typedef Concurrent_LP_MultiMap<K, uint32_t> M;
    Plan p = mkPlan(r);
    p.per = std::min<size_t>(p.per, 300);
    size_t cap = r.chance(1, 2) ? r.range(1, 64) : r.range(16, 16 + 4 * p.per * p.threads);
    M s(cap);
    MM w;
    bool full = false;
    size_t x = 0;
    mmWorkers("fx:", r, p, [&] { return &s; }, w, full, x);
    mmAudit("fx:", s, w, r, p);
    if (full) ctx().count("full_tables");
    VT_CHECK("fx:full", !full || s.size() >= s.capacity() / 2, "insert reported Full with ", s.size(), " of ", s.capacity());
    VT_CHECK("fx:overfull", s.size() < s.capacity(), "table completely full");
    ctx().nontrivial(fnv(str(s.size(), " ", s.capacity(), " ", p.threads, " ", p.per)));
#ifndef VT_TSAN
    M o(256);
    std::set<K> f;
    for (auto &kv : w) if (r.chance(1, 3)) f.insert(kv.first);
    for (int i = 0, e = (int)r.below(50); i < e; ++i) {
        K k = p.key(r);
        w[k].insert(i);
        o.insert(k, i);
        if (r.chance(1, 4)) f.insert(k);
    }
    s.unsafe_merge(std::move(o), f);
    for (auto k : f) w.erase(k);
    mmAudit("fx:merge:", s, w, r, p);
    s.unsafe_rehash(2 * s.size() + 1 + r.below(100));
    mmAudit("fx:rehash:", s, w, r, p);
    ctx().count("merges");
#endif
}

// ---- growing
static size_t tiny(Rng &r) { return r.chance(1, 2) ? r.range(1, 16) : r.range(1, 600); }
static void growSet(Rng &r) {
    typedef GrowingHashTable<Concurrent_LP_Set<K, true>> G;
    Plan p = mkPlan(r);
    G g(tiny(r));
    std::set<K> present;
    int phases = (int)r.range(1, 3);
    uint64_t growths = 0;
    for (int ph = 0; ph < phases; ++ph) {
        std::vector<std::vector<Op>> logs(p.threads);
        uint64_t seed = r.next();
        std::set<K> before = present;
        uint ep0 = g.get_epoch();
        parallel(p.threads, seed, p.chaos, [&](int t) {
            Rng q(seed, t);
            auto h = g.handle();
            const G &cg = g;
            auto ch = cg.handle();
            auto &L = logs[t];
            bool reader = p.readers && t % 2;
            for (size_t i = 0; i < p.per; ++i) {
                Op o{};
                o.key = p.key(q);
                o.kind = q.chance(reader ? 9 : 2, 10) ? 'C' : 'I';
                if (q.chance(1, 200)) { // a fresh handle
                    auto h2 = g.handle();
                    VT_CHECK("gs:handle", h2.capacity() >= 1, "handle");
                    if (!L.empty() && L.back().kind == 'I') VT_CHECK("gs:handle", h2.contains(L.back().key), "fresh handle misses own key");
                }
                if (p.stamp) o.b = ticket.fetch_add(1);
                if (o.kind == 'I') o.res = rs(h.insert(o.key));
                else if (q.chance(1, 2)) o.res = h.contains(o.key) ? 'T' : 'F';
                else o.res = ch.count(o.key) ? 'T' : 'F';
                if (p.stamp) o.e = ticket.fetch_add(1);
                L.push_back(o);
                if (o.kind == 'I') VT_CHECK("gs:own", h.contains(o.key) && ch.contains(o.key), "own insert of ", o.key, " not visible");
                if (!before.empty() && q.chance(1, 8)) {
                    auto it = before.lower_bound(o.key);
                    if (it != before.end()) VT_CHECK("gs:old", h.contains(*it), "key ", *it, " of an earlier phase lost");
                }
                pause(q, p);
            }
        });
        growths += g.get_epoch() - ep0;
        // keys known before this phase are present for every operation
        std::vector<std::vector<Op>> fresh(p.threads);
        for (int t = 0; t < p.threads; ++t)
            for (auto &o : logs[t]) {
                if (!before.count(o.key)) { fresh[t].push_back(o); continue; }
                VT_CHECK("gs:known", o.kind == 'I' ? o.res == 'F' : o.res == 'T', "known key ", o.key, " reported ", o.res);
            }
        judge("gs:", fresh, p.stamp, present);
        auto h = g.handle();
        VT_CHECK("gs:size", h.size() == present.size() && h.empty() == present.empty(), "size ", h.size(), " but ", present.size(), " keys inserted");
        std::multiset<K> it;
        for (auto k : h) it.insert(k);
        VT_CHECK("gs:iterate", std::equal(it.begin(), it.end(), present.begin(), present.end()), "iteration visits ", it.size(), " of ", present.size());
        for (auto k : present) VT_CHECK("gs:lost", h.contains(k), "lost ", k);
        VT_CHECK("gs:capacity", h.capacity() >= present.size() && g.data().size() == present.size(), "capacity");
        for (int i = 0; i < 20; ++i) {
            K k = p.key(r);
            VT_CHECK("gs:absent", h.contains(k) == (present.count(k) == 1), "contains(", k, ")");
        }
        if (r.chance(1, 3)) {
            G o(std::move(g));
            VT_CHECK("gs:move", o.handle().size() == present.size(), "move");
            g = std::move(o);
        }
#ifndef VT_TSAN
        if (r.chance(1, 2)) {
            Concurrent_LP_Set<K, true> o(1024);
            std::set<K> m2, f;
            for (int i = 0, e = (int)r.below(50); i < e; ++i) { K k = p.key(r); if ((bool)o.insert(k)) m2.insert(k); }
            for (auto k : present) if (r.chance(1, 3)) f.insert(k);
            for (auto k : m2) if (r.chance(1, 3)) f.insert(k);
            auto hh = g.handle();
            hh.unsafe_merge(std::move(o), f);
            present.insert(m2.begin(), m2.end());
            for (auto k : f) present.erase(k);
            std::multiset<K> it2;
            for (auto k : hh) it2.insert(k);
            VT_CHECK("gs:merge", hh.size() == present.size() && std::equal(it2.begin(), it2.end(), present.begin(), present.end()), "merge");
            for (auto k : present) VT_CHECK("gs:merge", hh.contains(k), "merge lost ", k);
            ctx().count("merges");
        }
#endif
    }
    ctx().count("growths", growths);
    ctx().nontrivial(fnv(str(present.size(), " ", growths, " ", ticket.load())));
}
static void growMap(Rng &r) {
    typedef GrowingHashTable<Concurrent_LP_Map<K, uint32_t>> G;
    Plan p = mkPlan(r);
    G g(tiny(r));
    std::map<K, std::set<uint32_t>> w;
    std::map<K, uint32_t> cur;
    bool full = false;
    mapWorkers<G>("gm:", r, p, [&] { return std::make_unique<GrowingHashTableHandle<Concurrent_LP_Map<K, uint32_t>>>(g); }, w, full);
    VT_CHECK("gm:full", !full, "a growing table reported Full");
    auto h = g.handle();
    mapAudit("gm:", g.data(), w, r, p, cur);
    VT_CHECK("gm:size", h.size() == w.size(), "size");
    mapUpdates("gm:", h, cur, r);
    ctx().count("growths", g.get_epoch());
    ctx().nontrivial(fnv(str(w.size(), " ", g.get_epoch(), " ", ticket.load())));
}
static void growMM(Rng &r) {
    typedef GrowingHashTable<Concurrent_LP_MultiMap<K, uint32_t>> G;
    Plan p = mkPlan(r);
    p.per = std::min<size_t>(p.per, 300);
    if (p.universe < 30) p.universe = 30;
    G g(tiny(r));
    MM w;
    bool full = false;
    size_t x = 0;
    mmWorkers("gx:", r, p, [&] { return std::make_unique<GrowingHashTableHandle<Concurrent_LP_MultiMap<K, uint32_t>>>(g); }, w, full, x);
    VT_CHECK("gx:full", !full, "a growing table reported Full");
    mmAudit("gx:", g.data(), w, r, p);
    VT_CHECK("gx:size", g.handle().size() == g.data().size(), "size");
    ctx().count("growths", g.get_epoch());
    ctx().nontrivial(fnv(str(g.data().size(), " ", g.get_epoch(), " ", p.threads, " ", p.per)));
}

int main(int argc, char **argv) {
    auto &c = ctx();
    c.init(argc, argv);
    long reps = atol(c.opt("reps", "20").c_str());
    bool grow = c.opt("part") == "grow";
    for (long id = 0; id < reps * 3; ++id) {
        if (!c.runs(id)) continue;
        Rng r(c.seed, id, grow ? 12 : 11);
        startGen.seed((unsigned)r.next());
        int k = (int)((id / 8 + id) % 3);
        static const char *nm[] = {"set", "map", "multimap"};
        c.begin(id, str(grow ? "growing " : "fixed ", nm[k]));
        guarded("hc", [&] {
            if (grow) { if (k == 0) growSet(r); else if (k == 1) growMap(r); else growMM(r); }
            else { if (k == 0) fixedSet(r); else if (k == 1) fixedMap(r); else fixedMM(r); }
        });
    }
    c.count("preemptions_injected", chaos::ticks().load());
    return c.finish();
}
