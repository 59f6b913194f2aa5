// C14: blocked storage, simplex container and point container against reference maps over random histories.
#include "vt.h"
#include <map>
#include <set>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include "Geometry.h"
#include "datastructures/BlockedArray.hxx"
using namespace vt;

static uint64_t trace;

struct Layout { // disjoint id ranges
    std::vector<std::pair<uint64_t, uint64_t>> free;
    Layout(Rng &r, uint64_t start) {
        uint64_t x = start;
        int n = (int)r.range(1, 24);
        for (int i = 0; i < n; ++i) {
            if (r.chance(1, 2)) x += r.chance(1, 4) ? r.below(100000) : r.range(1, 20);
            uint64_t e = x + (r.chance(1, 3) ? 1 : r.range(1, 60));
            free.push_back({x, e});
            x = e;
        }
    }
    bool take(Rng &r, std::pair<uint64_t, uint64_t> &o) {
        if (free.empty()) return false;
        size_t i = r.below(free.size());
        o = free[i];
        free.erase(free.begin() + i);
        return true;
    }
};

template <class F> bool throwsRange(F f) {
    try { f(); } catch (const std::out_of_range &) { return true; } catch (...) { return false; }
    return false;
}

// iteration, backward iteration and recursively split ranges must visit exactly the expected (id, element address) sequence
template <class C, class RT, class ID> void traverse(const char *p, C &c, const std::vector<uint64_t> &want, Rng &r, ID idOf) {
    std::vector<uint64_t> seen;
    size_t cap = 2 * want.size() + 100;
    for (auto it = c.begin(); it != c.end() && seen.size() < cap; ++it) seen.push_back(idOf(*it));
    VT_CHECK(str(p, "iterate"), seen == want, "forward iteration visited ", seen.size(), " of ", want.size());
    if (!want.empty()) {
        std::vector<uint64_t> back;
        auto it = c.end();
        while (back.size() < want.size()) { --it; back.push_back(idOf(*it)); }
        std::reverse(back.begin(), back.end());
        VT_CHECK(str(p, "backward"), back == want, "backward iteration");
    }
    std::vector<uint64_t> got;
    std::vector<RT> st;
    st.push_back(RT(c, r.range(1, 50)));
    size_t leaves = 0;
    while (!st.empty() && leaves < 20000 && got.size() < cap) {
        RT x = st.back();
        st.pop_back();
        if (x.is_divisible() && !r.chance(1, 15)) {
            RT y(x, tbb::split());
            st.push_back(x); st.push_back(y);
        } else {
            ++leaves;
            if (!x.empty()) for (auto it = x.begin(); it != x.end() && got.size() < cap; ++it) got.push_back(idOf(*it));
        }
    }
    std::sort(got.begin(), got.end());
    VT_CHECK(str(p, "range"), got == want, "split ranges visited ", got.size(), " elements of ", want.size());
    ctx().count("range_leaves", leaves);
}

// ------------------------------------------------------------ BlockedArray2
typedef BlockedArray2<uint64_t, uint64_t> BA;
struct BAModel { std::map<uint64_t, uint64_t> v; std::vector<std::pair<uint64_t, uint64_t>> blocks; };

static void fillBlock(BA &a, BAModel &m, std::pair<uint64_t, uint64_t> b, Rng &r) {
    m.blocks.push_back(b);
    uint32_t hint = 0;
    for (uint64_t i = b.first; i < b.second; ++i) {
        uint64_t x = i * 1000 + r.below(1000);
        a.at(i, hint) = x;
        m.v[i] = x;
    }
}
static void auditBA(const char *p, BA &a, const BAModel &m, Rng &r) {
    const BA &ca = a;
    VT_CHECK(str(p, "lower"), a.lowerBound() == m.v.begin()->first, "lowerBound ", a.lowerBound());
    VT_CHECK(str(p, "upper"), a.upperBound() == m.v.rbegin()->first + 1, "upperBound ", a.upperBound());
    VT_CHECK(str(p, "size"), a.exact_size() == m.v.size(), "exact_size ", a.exact_size(), " of ", m.v.size());
    std::vector<uint64_t> want;
    for (auto &kv : m.v) want.push_back(kv.second);
    traverse<const BA, BA::const_range_type>(p, ca, want, r, [](const uint64_t &x) { return x; });
    // element access through random hints, ids inside, in gaps and outside
    BlockedArray2Handle<BA, uint64_t> h(a);
    BlockedArray2Handle<const BA, uint64_t> ch(ca);
    uint32_t hint = 0;
    uint64_t lo = m.v.begin()->first, hi = m.v.rbegin()->first;
    for (int i = 0; i < 60; ++i) {
        if (r.chance(1, 3)) hint = (uint32_t)r.below(m.blocks.size());
        uint64_t id;
        switch (r.below(4)) {
            case 0: { auto &b = m.blocks[r.below(m.blocks.size())]; id = r.chance(1, 2) ? b.first : b.second - 1; break; }
            case 1: { auto &b = m.blocks[r.below(m.blocks.size())]; id = r.chance(1, 2) ? b.first - 1 : b.second; break; }
            case 2: id = r.chance(1, 4) ? r.next() : lo + r.below(hi - lo + 1); break;
            default: { auto it = m.v.lower_bound(lo + r.below(hi - lo + 1)); id = it->first; }
        }
        auto it = m.v.find(id);
        bool in = it != m.v.end();
        switch (r.below(4)) {
            case 0: VT_CHECK(str(p, "contains"), a.contains(id, hint) == in, "contains ", id, " expected ", in); break;
            case 1: VT_CHECK(str(p, "contains"), a.unsafe_contains(id) == in, "unsafe_contains ", id, " expected ", in); break;
            case 2: VT_CHECK(str(p, "contains"), h.contains(id) == in && ch.contains(id) == in, "handle contains ", id, " expected ", in); break;
            default:
                if (in) {
                    VT_CHECK(str(p, "at"), a.at(id, hint) == it->second && ca.at(id, hint) == it->second && a.unsafe_at(id) == it->second && h.at(id) == it->second
                             && h[id] == it->second && ch.at(id) == it->second && ch[id] == it->second, "value of ", id);
                } else {
                    uint32_t hh = hint;
                    VT_CHECK(str(p, "at-absent"), throwsRange([&] { (void)a.at(id, hh); }) && throwsRange([&] { hh = hint; (void)ca.at(id, hh); }),
                             "access to ", id, " outside of every block did not throw out_of_range");
                }
        }
        ctx().count("accesses");
    }
}
static void baCase(Rng &r) {
    Layout l(r, r.chance(1, 3) ? 0 : r.chance(1, 4) ? r.next() >> 2 : r.below(1000));
    std::pair<uint64_t, uint64_t> b;
    l.take(r, b);
    BAModel m;
    BA a(b.first, b.second);
    uint32_t h0 = 0;
    for (uint64_t i = b.first; i < b.second; ++i) VT_CHECK("ba:zero", a.at(i, h0) == 0, "new element not value-initialised");
    fillBlock(a, m, b, r);
    auditBA("ba:", a, m, r);
    while (l.take(r, b)) {
        const char *p = "ba:add:";
        switch (r.below(5)) {
            case 0: case 1: { auto &nb = a.addBlock(b.first, b.second);
                VT_CHECK("ba:block", nb.min() == b.first && nb.max() == b.second && nb.size() == b.second - b.first, "addBlock returned another block");
                nb[b.first] = 7; uint32_t h = 0; VT_CHECK("ba:block", a.at(b.first, h) == 7, "the block returned is not the one stored");
                fillBlock(a, m, b, r); break; }
            default: {
                BA o(b.first, b.second);
                BAModel mo;
                fillBlock(o, mo, b, r);
                while (r.chance(1, 2) && l.take(r, b)) { o.addBlock(b.first, b.second); fillBlock(o, mo, b, r); }
                if (r.chance(1, 3)) { a.unsafe_contains(b.first); }
                if (r.chance(1, 2)) { a.merge(std::move(o)); } else { o.merge(std::move(a)); a = std::move(o); }
                m.v.insert(mo.v.begin(), mo.v.end());
                m.blocks.insert(m.blocks.end(), mo.blocks.begin(), mo.blocks.end());
                p = "ba:merge:";
            }
        }
        if (r.chance(1, 6)) { BA o(std::move(a)); auditBA("ba:moved:", o, m, r); a = std::move(o); p = "ba:assigned:"; }
        if (r.chance(1, 6)) {
            std::stringstream f;
            { boost::archive::binary_oarchive x(f); x << const_cast<const BA &>(a); }
            BA o(1, 3);
            if (r.chance(1, 2)) { o.addBlock(10, 20); o.addBlock(30, 31); o.unsafe_at(30) = 1; } // leaves a hint behind
            { boost::archive::binary_iarchive x(f); x >> o; }
            auditBA("ba:loaded:", o, m, r);
            a = std::move(o);
            p = "ba:archive:";
        }
        auditBA(p, a, m, r);
        ctx().count("steps");
    }
    trace = mix(trace ^ m.v.size() ^ (m.blocks.size() << 32));
}

// ------------------------------------------------------------ simplex container
template <uint D> struct SM {
    typedef dSimplex<D, double> S;
    typedef dSimplices<D, double> DT;
    struct E { S s; bool alive; };
    std::map<uint64_t, E> v;
    std::vector<std::pair<uint64_t, uint64_t>> blocks;
    std::vector<uint64_t> hull;

    void fill(DT &dt, std::pair<uint64_t, uint64_t> b, Rng &r) {
        blocks.push_back(b);
        uint32_t hint = 0;
        for (uint64_t i = b.first; i < b.second; ++i) {
            S s;
            s.id = i;
            std::set<uint64_t> vs;
            while (vs.size() < D + 1) vs.insert(r.chance(1, 10) ? dPoint<D, double>::cINF + r.below(1 << D) : r.range(1, 1000));
            std::copy(vs.begin(), vs.end(), s.vertices.begin());
            for (auto &n : s.neighbors) n = r.range(1, 5000);
            s.genFingerprint();
            s.mark = (uint8_t)r.next();
            dt.at(i, hint) = s;
            v[i] = {s, true};
            bool inf = !s.isFinite();
            if (inf) { dt.convexHull.push_back(i); hull.push_back(i); }
        }
    }
    static bool same(const S &a, const S &b) { return a.id == b.id && a.vertices == b.vertices && a.neighbors == b.neighbors && a.vFingerprint == b.vFingerprint && a.mark == b.mark; }
    void audit(const char *p, DT &dt, Rng &r) {
        const DT &c = dt;
        std::vector<uint64_t> want;
        typename DT::tHash fp;
        fp.fill(0);
        for (auto &kv : v) if (kv.second.alive) { want.push_back(kv.first); fp[kv.second.s.vFingerprint & 0xff] ^= kv.second.s.vFingerprint; }
        traverse<const DT, typename DT::const_range_type>(p, c, want, r, [&](const S &s) {
            auto it = v.find(s.id);
            VT_CHECK("sx:element", it != v.end() && same(it->second.s, s), "iteration delivers a wrong element ", s.id);
            return s.id; });
        traverse<DT, typename DT::range_type>(p, dt, want, r, [&](const S &s) { return s.id; });
        VT_CHECK(str(p, "fingerprint"), c.genFingerprint() == fp, "genFingerprint is not the xor over the live simplices");
        VT_CHECK(str(p, "bounds"), c.lowerBound() == v.begin()->first && c.upperBound() == v.rbegin()->first + 1 && c.exact_size() == v.size(), "bounds/exact_size");
        std::vector<uint64_t> h(c.convexHull.begin(), c.convexHull.end()), w = hull;
        std::sort(h.begin(), h.end());
        std::sort(w.begin(), w.end());
        VT_CHECK(str(p, "hull"), h == w, "hull has ", h.size(), " entries, expected ", w.size());
        uint32_t hint = 0;
        dSimplicesHandle<D, double> hd(dt);
        dSimplicesConstHandle<D, double> chd(c);
        uint64_t lo = v.begin()->first, hi = v.rbegin()->first;
        for (int i = 0; i < 50; ++i) {
            if (r.chance(1, 3)) hint = (uint32_t)r.below(blocks.size());
            auto &b = blocks[r.below(blocks.size())];
            uint64_t id = r.chance(1, 3) ? (r.chance(1, 2) ? b.first - 1 : b.second) : r.chance(1, 8) ? r.next() : lo + r.below(hi - lo + 1);
            if (r.chance(1, 2)) id = b.first + r.below(b.second - b.first);
            auto it = v.find(id);
            bool in = it != v.end(), alive = in && it->second.alive;
            S key;
            key.id = id;
            VT_CHECK(str(p, "contains"), c.contains(id, hint) == alive && c.unsafe_contains(id) == alive && hd.contains(id) == alive && chd.contains(id) == alive
                     && c.contains(key, hint) == alive && c.unsafe_contains(key) == alive, "contains ", id, " expected ", alive);
            VT_CHECK(str(p, "inrange"), c.inRange(id, hint) == in && c.unsafe_inRange(id) == in && hd.inRange(id) == in && chd.inRange(id) == in
                     && c.inRange(key, hint) == in && c.unsafe_inRange(key) == in, "inRange ", id, " expected ", in);
            if (alive) VT_CHECK(str(p, "at"), same(c.at(id, hint), it->second.s) && same(hd[id], it->second.s) && same(chd.at(id), it->second.s) && same(c.unsafe_at(id), it->second.s), "element ", id);
            ctx().count("accesses");
        }
    }
    static void archive(DT &from, DT &to) { (void)from; (void)to; }
};
template <uint D> static void sxCase(Rng &r) {
    typedef typename SM<D>::DT DT;
    Layout l(r, r.range(1, 1000));
    std::pair<uint64_t, uint64_t> b;
    l.take(r, b);
    SM<D> m;
    DT dt(b.first, b.second, r.below(20));
    {
        std::vector<uint64_t> none;
        const DT &c = dt;
        traverse<const DT, typename DT::const_range_type>("sx:new:", c, none, r, [&](const dSimplex<D, double> &s) { return s.id; });
        uint32_t h = 0;
        VT_CHECK("sx:new:contains", !c.contains(b.first, h) && c.inRange(b.first, h), "unset slot counts as a simplex");
    }
    m.fill(dt, b, r);
    m.audit("sx:", dt, r);
    int n = (int)r.range(1, 20);
    for (int i = 0; i < n; ++i) {
        const char *p = "sx:";
        switch (r.below(4)) {
            case 0:
                if (!l.take(r, b)) break;
                dt.addBlock(b.first, b.second);
                m.fill(dt, b, r);
                p = "sx:add:";
                break;
            case 1: { // remove a set of simplices
                std::vector<uint64_t> alive;
                for (auto &kv : m.v) if (kv.second.alive) alive.push_back(kv.first);
                if (alive.empty()) break;
                size_t k = r.chance(1, 5) ? alive.size() : r.below(alive.size() + 1);
                if (r.chance(1, 4)) k = std::min<size_t>(k, 3);
                std::set<uint64_t> rem;
                if (r.chance(1, 3)) { size_t s = r.below(alive.size() - (k ? k - 1 : 0)); for (size_t j = 0; j < k; ++j) rem.insert(alive[s + j]); } // a consecutive run
                else for (size_t j = 0; j < k; ++j) rem.insert(r.pick(alive));
                rem.erase(0);
                if (rem.empty()) break;
                if (r.chance(1, 2)) { Simplex_Ids f(rem.size()); for (auto x : rem) f.insert(x); dt.filter(f); }
                else { Concurrent_Fixed_Simplex_Ids f(2 * rem.size() + 2); for (auto x : rem) f.insert(x); dt.filter(f); }
                for (auto x : rem) m.v[x].alive = false;
                m.hull.erase(std::remove_if(m.hull.begin(), m.hull.end(), [&](uint64_t x) { return rem.count(x); }), m.hull.end());
                p = "sx:filter:";
                break;
            }
            case 2: {
                if (!l.take(r, b)) break;
                DT o(b.first, b.second, 4);
                SM<D> mo;
                mo.fill(o, b, r);
                while (r.chance(1, 2) && l.take(r, b)) { o.addBlock(b.first, b.second); mo.fill(o, b, r); }
                o.mark = (uint8_t)r.next();
                dt.mark = (uint8_t)r.next();
                uint8_t mk = std::max(o.mark, dt.mark);
                bool hull = r.chance(2, 3);
                bool dflt = r.chance(1, 2);
                if (hull && dflt) dt.merge(std::move(o)); else dt.merge(std::move(o), hull);
                VT_CHECK("sx:merge:mark", dt.mark == mk, "mark after merge");
                m.v.insert(mo.v.begin(), mo.v.end());
                m.blocks.insert(m.blocks.end(), mo.blocks.begin(), mo.blocks.end());
                if (hull) m.hull.insert(m.hull.end(), mo.hull.begin(), mo.hull.end());
                p = "sx:merge:";
                break;
            }
            default: { DT o(std::move(dt)); m.audit("sx:moved:", o, r); if (r.chance(1, 2)) dt = DT(); dt = std::move(o); p = "sx:assigned:"; }
        }
        m.audit(p, dt, r);
        ctx().count("steps");
    }
    trace = mix(trace ^ m.v.size() ^ (m.hull.size() << 32));
}

// ------------------------------------------------------------ points
template <uint D> static void ptCase(Rng &r) {
    typedef dPoint<D, double> P;
    typedef dPoints<D, double> PS;
    PS ps;
    VT_CHECK("pt:reserved", ps.finite_size() == 1 && ps.size() == 1 + P::nINF && !ps.contains(0), "index 0 is reserved");
    std::vector<std::array<double, D>> m(1); // by slot
    m[0].fill(0);
    std::array<std::array<double, D>, (1 << D)> inf;
    auto rnd = [&] { P p; for (auto &x : p.coords) x = r.uniform(-5, 5); return p; };
    for (uint64_t i = 0; i < P::nINF; ++i) { P p = rnd(); ps.at(P::cINF + i) = p; inf[i] = p.coords; }
    uint64_t off = 0;
    int n = (int)r.range(1, 30);
    for (int i = 0; i < n; ++i) {
        switch (r.below(5)) {
            case 0: case 1: { int k = (int)r.below(20); for (int j = 0; j < k; ++j) { P p = rnd(); ps.emplace_back(p); m.push_back(p.coords); } break; }
            case 2: { size_t up = off + m.size() + r.below(10) - (r.chance(1, 2) ? std::min<size_t>(m.size(), r.below(5)) : 0); ps.reserveUpToIdx(up);
                      while (m.size() < up - off) { P p = rnd(); ps[off + m.size()] = p; m.push_back(p.coords); } break; }
            case 3: { off = r.below(1000); ps.offset(off); break; }
            default: { size_t s = r.range(1, m.size() + 5), o = m.size(); ps.resize(s); m.resize(s); for (size_t j = o; j < s; ++j) { P p = rnd(); ps[off + j] = p; m[j] = p.coords; } }
        }
        const PS &c = ps;
        VT_CHECK("pt:size", c.finite_size() == m.size() && c.size() == m.size() + P::nINF && c.offset() == off, "size ", c.size(), " finite ", c.finite_size(), " of ", m.size());
        auto rg = c.range();
        VT_CHECK("pt:range", rg.begin() == off + 1 && rg.end() == off + m.size(), "range [", rg.begin(), ",", rg.end(), ") for ", m.size(), " slots at ", off);
        bool ok = true;
        size_t k = 0;
        for (auto &p : c) { ok &= k < m.size() && p.coords == m[k]; ++k; }
        VT_CHECK("pt:iterate", ok && k == m.size(), "iteration over ", k);
        for (int j = 0; j < 30; ++j) {
            uint64_t id = r.chance(1, 3) ? P::cINF - 2 + r.below(P::nINF + 2) : r.chance(1, 4) ? r.next() : off + r.below(m.size() + 6) - std::min<uint64_t>(off, 3);
            bool isInf = id >= P::cINF;
            bool in = isInf || (id > off && id < off + m.size());
            VT_CHECK("pt:finite", P::isFinite(id) == !isInf, "isFinite ", id);
            VT_CHECK("pt:contains", c.contains(id) == in, "contains ", id, " (offset ", off, ", ", m.size(), " slots) expected ", in);
            if (in) {
                auto &w = isInf ? inf[id - P::cINF] : m[id - off];
                VT_CHECK("pt:at", c[id].coords == w && c.at(id).coords == w && ps[id].coords == w && ps.at(id).coords == w, "point ", id);
                if (isInf) VT_CHECK("pt:infindex", P::infIndex(id) == id - P::cINF, "infIndex");
            } else if (!(id == off)) {
                bool t = false;
                try { (void)c.at(id); } catch (...) { t = true; }
                VT_CHECK("pt:at-absent", t, "access to point ", id, " outside did not throw");
            }
        }
        // selection of points
        std::vector<uint64_t> ids;
        if (m.size() > 1) for (int j = 0; j < 10; ++j) ids.push_back(r.chance(1, 5) ? P::cINF + r.below(P::nINF) : off + r.range(1, m.size() - 1));
        auto sel = r.chance(1, 2) ? c.template filter<std::vector<P>>(ids) : c.template filter<std::vector<P>>(ids.begin(), ids.end());
        ok = sel.size() == ids.size();
        for (size_t j = 0; ok && j < ids.size(); ++j) ok = sel[j].coords == (ids[j] >= P::cINF ? inf[ids[j] - P::cINF] : m[ids[j] - off]);
        VT_CHECK("pt:filter", ok, "filter returned other points");
        // comparison with id sets
        std::set<tIdType> all;
        for (size_t j = 1; j < m.size(); ++j) all.insert(off + j);
        for (uint64_t j = 0; j < P::nINF; ++j) all.insert(P::cINF + j);
        VT_CHECK("pt:compare", c == all && !(c != all), "== all ids");
        std::set<tIdType> x = all;
        if (r.chance(1, 2)) x.erase(x.begin()); else { x.erase(std::next(x.begin(), r.below(x.size()))); x.insert(off + m.size()); }
        VT_CHECK("pt:compare-other", !(c == x) && c != x, "== with a different id set");
        // archive-free copy through the adapter
        if (r.chance(1, 4)) { PS o(static_cast<const VectorAdapter2<P> &>(c)); VT_CHECK("pt:copy", o == all && o.offset() == off, "copy"); ps = o; }
        ctx().count("steps");
    }
    trace = mix(trace ^ m.size() ^ (off << 32) ^ D);
}

// ------------------------------------------------------------ BlockedArray
template <class A, size_t BS> static void oldBA(Rng &r, const char *p) {
    size_t c0 = r.below(3 * BS + 2);
    bool dflt = r.chance(1, 4);
    A a = dflt ? A() : A(c0);
    size_t cap = dflt ? BS : (c0 + BS - 1) / BS * BS;
    std::vector<uint32_t> m(cap);
    std::vector<const uint32_t *> addr;
    for (size_t i = 0; i < cap; ++i) a[i] = m[i] = (uint32_t)r.next();
    for (int s = 0; s < 12; ++s) {
        addr.clear();
        for (size_t i = 0; i < cap; ++i) addr.push_back(&a[i]);
        if (r.chance(2, 3)) {
            size_t want = r.below(10 * BS), nc = std::max(cap, (want + BS - 1) / BS * BS);
            a.reserve(want);
            m.resize(nc);
            for (size_t i = cap; i < nc; ++i) a.at(i) = m[i] = (uint32_t)r.next();
            for (size_t i = 0; i < cap; ++i) VT_CHECK(str(p, "stable"), addr[i] == &a[i], "element moved when growing");
            cap = nc;
        } else if (r.chance(1, 2)) { A o(std::move(a)); const A &co = o; for (size_t i = 0; i < cap; ++i) VT_CHECK(str(p, "moved"), co.at(i) == m[i], "moved element ", i);
            a.~A(); new (&a) A(std::move(o)); }
        else if (cap) { size_t i = r.below(cap); a[i] = m[i] = (uint32_t)r.next(); }
        const A &ca = a;
        for (size_t i = 0; i < cap; ++i) VT_CHECK(str(p, "value"), a[i] == m[i] && ca[i] == m[i] && ca.at(i) == m[i] && a.at(i) == m[i], "element ", i);
        for (size_t i : {cap, cap + 1, cap + BS, cap + r.below(100000)})
            VT_CHECK(str(p, "beyond"), throwsRange([&] { (void)a.at(i); }) && throwsRange([&] { (void)ca.at(i); }), "at(", i, ") beyond ", cap, " does not throw");
        ctx().count("steps");
    }
    trace = mix(trace ^ cap);
}

int main(int argc, char **argv) {
    auto &c = ctx();
    c.init(argc, argv);
    long reps = atol(c.opt("reps", "100").c_str());
    for (long id = 0; id < reps; ++id) {
        if (!c.runs(id)) continue;
        Rng r(c.seed, id, 14);
        int k = (int)((id / 8 + id) % 7);
        static const char *nm[] = {"BlockedArray2", "dSimplices 2D", "dSimplices 3D", "dPoints 2D", "dPoints 3D", "BlockedArray", "Concurrent_BlockedArray"};
        c.begin(id, nm[k]);
        trace = 0;
        guarded("storage", [&] {
            switch (k) {
                case 0: baCase(r); break;
                case 1: sxCase<2>(r); break;
                case 2: sxCase<3>(r); break;
                case 3: ptCase<2>(r); break;
                case 4: ptCase<3>(r); break;
                case 5: oldBA<BlockedArray<uint32_t, 8>, 8>(r, "old:"); break;
                default: oldBA<Concurrent_BlockedArray<uint32_t, 8>, 8>(r, "oldc:");
            }
        });
        c.nontrivial(trace);
    }
    return c.finish();
}
