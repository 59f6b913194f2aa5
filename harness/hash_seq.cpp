// C10: sequential hash containers against reference containers over random operation sequences.
#include "vt.h"
#include <map>
#include <set>
#include <unordered_set>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
using namespace vt;

template <class K> struct Keys {
    int mode; K base; K mask;
    Keys(Rng &r) {
        mode = (int)r.below(6);
        base = (K)r.next();
        mask = (K)((K(1) << r.range(3, 12)) - 1);
    }
    K operator()(Rng &r) const {
        K k = 0;
        while (k == 0) switch (mode) {
            case 0: k = (K)(r.next() & mask); break;                       // dense small
            case 1: k = (K)r.next(); break;                                // anything
            case 2: k = (K)(base + (K)(r.next() & mask)); break;           // dense anywhere (wraps)
            case 3: k = (K)((r.next() & mask) << 7); break;                // colliding low bits
            case 4: k = (K)(std::numeric_limits<K>::max() - (K)(r.next() & mask)); break; // close to the maximum
            default: k = r.chance(1, 2) ? (K)(r.next() & mask) : (K)r.next();
        }
        return k;
    }
};

static size_t pickCap(Rng &r) {
    switch (r.below(5)) {
        case 0: return r.below(4);
        case 1: return r.range(1, 16);
        case 2: return size_t(1) << r.range(0, 9);
        case 3: return (size_t(1) << r.range(1, 9)) + r.range(0, 2) - 1;
        default: return r.range(1, 600);
    }
}

template <class C, class F> void ranges(const C &c, Rng &r, F f) {
    // split the range recursively as a scheduler would, visit leaves in random order of splitting
    std::vector<typename C::const_range_type> st;
    typename C::const_range_type root(c, r.range(1, 40));
    st.push_back(root);
    size_t leaves = 0, visited = 0;
    std::vector<typename C::const_range_type> done;
    while (!st.empty() && leaves < 100000 && st.size() < 100000 && visited <= 2 * c.capacity() + 8) {
        auto x = st.back();
        st.pop_back();
        if (x.is_divisible() && !r.chance(1, 12)) {
            typename C::const_range_type y(x, tbb::split());
            st.push_back(x);
            st.push_back(y);
        } else {
            ++leaves;
            if (x.empty()) continue;
            for (auto it = x.begin(); it != x.end() && ++visited <= 2 * c.capacity() + 8; ++it) f(*it);
        }
    }
    ctx().count("range_leaves", leaves);
}

static uint64_t trace; // digest of the observations of a case
template <class T> void obs(const T &t) { trace = mix(trace ^ (uint64_t)t); }

// ---------------------------------------------------------------- sets
template <class K, bool G> struct SetCase {
    const char *n;
    std::set<K> m;
    Rng &r;
    Keys<K> key;
    size_t limit; // non-growing sets hold fewer elements than their capacity
    SetCase(Rng &r_, const char *n_) : n(n_), r(r_), key(r_) {}

    void full(LP_Set<K, G> &s, const std::set<K> &m) {
        std::string p = str("set", G ? "G" : "", ":");
        VT_CHECK(p + "size", s.size() == m.size(), "size ", s.size(), " expected ", m.size());
        VT_CHECK(p + "empty", s.empty() == m.empty(), "empty() with ", m.size());
        VT_CHECK(p + "capacity", s.capacity() >= 1 && (s.capacity() & (s.capacity() - 1)) == 0 && s.capacity() >= m.size(), "capacity ", s.capacity());
        if (s.capacity() < m.size()) return;
        std::multiset<K> it;
        for (auto k : s) it.insert(k);
        VT_CHECK(p + "iterate", std::equal(it.begin(), it.end(), m.begin(), m.end()), "iteration visits ", it.size(), " elements of ", m.size());
        std::multiset<K> rg;
        ranges(s, r, [&](K k) { rg.insert(k); });
        VT_CHECK(p + "range", std::equal(rg.begin(), rg.end(), m.begin(), m.end()), "split range visits ", rg.size(), " elements of ", m.size());
        if (!m.empty()) { // backwards
            std::multiset<K> bw;
            auto i = s.end();
            do { --i; bw.insert(*i); } while (i != s.begin() && bw.size() <= m.size());
            VT_CHECK(p + "backward", std::equal(bw.begin(), bw.end(), m.begin(), m.end()), "backward iteration visits ", bw.size(), " of ", m.size());
        }
        for (auto k : m) VT_CHECK(p + "contains", s.contains(k) && s.count(k) == 1, "lost ", k);
        if (G || m.size() < s.capacity())
            for (int i = 0; i < 10; ++i) {
                K k = key(r);
                VT_CHECK(p + "absent", s.contains(k) == (m.count(k) == 1) && s.count(k) == m.count(k), "contains(", k, ")");
            }
        obs(m.size()); obs(s.capacity());
        ctx().count("set_audits");
    }
    size_t room(const LP_Set<K, G> &s) { return G ? ~size_t(0) : s.capacity() - 1; }

    void fill(LP_Set<K, G> &s, std::set<K> &m, size_t k) {
        while (k-- && m.size() < room(s)) {
            K x = key(r);
            VT_CHECK("set:insert", s.insert(x) == m.insert(x).second, "insert(", x, ")");
        }
    }
    void run() {
        LP_Set<K, G> s(pickCap(r));
        int ops = (int)r.range(1, 60);
        full(s, m);
        for (int o = 0; o < ops; ++o) {
            int op = (int)r.below(20);
            if (s.capacity() > 4096 && op >= 13 && op <= 16) op = 12; // merging adds up capacities
            ctx().count("set_ops");
            if (op < 9) {
                fill(s, m, r.below(40));
            } else if (op == 9) {
                LP_Set<K, G> t(s);
                full(t, m);
                VT_CHECK("set:eq", s == t && t == m, "copy not equal");
                if (room(t) > m.size()) { // independence
                    auto m2 = m;
                    fill(t, m2, 3);
                    full(t, m2);
                    full(s, m);
                    VT_CHECK("set:ne", (s == t) == (m == m2), "operator==");
                }
            } else if (op == 10) {
                LP_Set<K, G> t(std::move(s));
                full(t, m);
                s = std::move(t);
            } else if (op == 11) {
                s = s.copy();
            } else if (op == 12) {
                s.rehash(G ? std::max<size_t>(pickCap(r), 2 * m.size() + 1) : m.size() + 1 + pickCap(r));
            } else if (op == 13 || op == 14) {
                std::set<K> m2;
                LP_Set<K, G> t(pickCap(r) + 1);
                fill(t, m2, r.below(60));
                s.merge(std::move(t));
                m.insert(m2.begin(), m2.end());
            } else if (op == 15 || op == 16) {
                std::set<K> m2, f;
                LP_Set<K, G> t(pickCap(r) + 1);
                fill(t, m2, r.below(60));
                for (auto k : m) if (r.chance(1, 3)) f.insert(k);
                for (auto k : m2) if (r.chance(1, 3)) f.insert(k);
                for (int i = 0; i < 3; ++i) f.insert(key(r));
                bool lp = r.chance(1, 2);
                if (lp) {
                    LP_Set<K, true> lf(1);
                    for (auto k : f) lf.insert(k);
                    s.merge(std::move(t), lf);
                } else s.merge(std::move(t), f);
                m.insert(m2.begin(), m2.end());
                for (auto k : f) m.erase(k);
            } else if (op == 17) {
                std::set<K> f;
                for (auto k : m) if (r.chance(1, 3)) f.insert(k);
                s.filter(f);
                for (auto k : f) m.erase(k);
            } else if (op == 18) {
                Concurrent_LP_Set<K, G> c(std::move(s));
                VT_CHECK("set:conv", c.size() == m.size(), "conversion size ", c.size());
                for (auto k : m) VT_CHECK("set:conv", c.contains(k), "conversion lost ", k);
                size_t vis = 0;
                for (auto k : c) { ++vis; VT_CHECK("set:conv", m.count(k), "conversion invented ", k); }
                VT_CHECK("set:conv", vis == m.size(), "conversion visits ", vis);
                LP_Set<K, G> t(std::move(c));
                s = std::move(t);
                if (r.chance(1, 2) && m.size()) { // a fixed-size concurrent set, possibly filled to the last slot
                    Concurrent_LP_Set<K, false> d(G && r.chance(1, 2) ? m.size() : m.size() + 1);
                    bool fits = true;
                    for (auto k : m) fits &= d.insert(k);
                    VT_CHECK("set:fill", fits && d.size() == m.size(), "a fixed-size set of ", d.capacity(), " slots refused one of ", m.size(), " keys");
                    for (int i = 0; i < 5; ++i) { K k = key(r); VT_CHECK("set:fill", d.contains(k) == (m.count(k) == 1), "full set contains(", k, ")"); }
                    LP_Set<K, G> u(std::move(d));
                    for (int i = 0; i < 5; ++i) { K k = key(r); VT_CHECK("set:convfull", u.contains(k) == (m.count(k) == 1), "set converted from a fixed-size one, contains(", k, ")"); }
                    full(u, m);
                    s = std::move(u);
                }
            } else {
                std::stringstream st;
                { boost::archive::binary_oarchive oa(st); const auto &cs = s; oa << cs; }
                LP_Set<K, G> t(1);
                { boost::archive::binary_iarchive ia(st); ia >> t; }
                full(t, m);
                VT_CHECK("set:archive", t == s, "archive round trip");
                s = std::move(t);
            }
            if (r.chance(1, 3)) full(s, m);
        }
        full(s, m);
        std::multiset<K> x(m.begin(), m.end());
    }
};

// ---------------------------------------------------------------- maps
template <class K, class V> struct MapCase {
    std::map<K, V> m;
    Rng &r;
    Keys<K> key;
    MapCase(Rng &r_) : r(r_), key(r_) {}
    V val() { V v = (V)r.next(); return v ? v : 1; }
    void full(LP_Map<K, V> &s) {
        VT_CHECK("map:size", s.size() == m.size(), "size ", s.size(), " expected ", m.size());
        VT_CHECK("map:empty", s.empty() == m.empty(), "empty()");
        std::multimap<K, V> it;
        for (auto kv : s) it.insert(kv);
        VT_CHECK("map:iterate", std::equal(it.begin(), it.end(), m.begin(), m.end()), "iteration visits ", it.size(), " of ", m.size());
        std::multimap<K, V> rg;
        ranges(s, r, [&](auto kv) { rg.insert(kv); });
        VT_CHECK("map:range", std::equal(rg.begin(), rg.end(), m.begin(), m.end()), "split range visits ", rg.size(), " of ", m.size());
        for (auto &kv : m) {
            V g = s.get(kv.first);
            VT_CHECK("map:get", g == kv.second && s.contains(kv.first) && s.count(kv.first) == 1, "get(", kv.first, ")=", g, " expected ", kv.second);
        }
        for (int i = 0; i < 10; ++i) {
            K k = key(r);
            auto e = m.find(k);
            VT_CHECK("map:absent", s.get(k) == (e == m.end() ? V(0) : e->second) && s.contains(k) == (e != m.end()), "get(", k, ")");
        }
        obs(m.size()); obs(s.capacity());
        ctx().count("map_audits");
    }
    void fill(LP_Map<K, V> &s, std::map<K, V> &m, size_t k) {
        while (k--) {
            K x = !m.empty() && r.chance(1, 6) ? m.begin()->first : key(r);
            V v = val();
            bool fresh = !m.count(x);
            m[x] = v;
            bool got = r.chance(1, 2) ? s.insert(x, v) : s.insert(std::make_pair(x, v));
            VT_CHECK("map:insert", got == fresh, "insert(", x, ") returned ", got);
        }
    }
    void run() {
        LP_Map<K, V> s(pickCap(r));
        int ops = (int)r.range(1, 50);
        full(s);
        for (int o = 0; o < ops; ++o) {
            ctx().count("map_ops");
            int op = (int)r.below(15);
            if (s.capacity() > 2048 && (op == 10 || op == 11)) op = 9;
            if (op < 8) fill(s, m, r.below(40));
            else if (op == 8) { LP_Map<K, V> t(std::move(s)); full(t); s = std::move(t); }
            else if (op == 9) s.rehash(2 * m.size() + 1 + pickCap(r));
            else if (op == 10 || op == 11) {
                std::map<K, V> m2;
                LP_Map<K, V> t(pickCap(r));
                fill(t, m2, r.below(50));
                if (op == 10) {
                    s.merge(std::move(t));
                    for (auto &kv : m2) m[kv.first] = kv.second;
                } else {
                    std::set<K> f;
                    for (auto &kv : m) if (r.chance(1, 3)) f.insert(kv.first);
                    for (auto &kv : m2) if (r.chance(1, 3)) f.insert(kv.first);
                    s.merge(std::move(t), f);
                    for (auto &kv : m2) m[kv.first] = kv.second;
                    for (auto k : f) m.erase(k);
                }
            } else if (op == 12) {
                std::set<K> f;
                for (auto &kv : m) if (r.chance(1, 3)) f.insert(kv.first);
                s.rehash(s.capacity(), f);
                for (auto k : f) m.erase(k);
            } else if (op == 13) {
                Concurrent_LP_Map<K, V> c(std::move(s));
                VT_CHECK("map:conv", c.size() == m.size(), "conversion size ", c.size());
                for (auto &kv : m) VT_CHECK("map:conv", c.get(kv.first) == kv.second, "conversion lost ", kv.first);
                LP_Map<K, V> t(std::move(c));
                s = std::move(t);
            } else {
                std::stringstream st;
                // slots without a key hold indeterminate values: give every slot a defined one for valgrind-like tools
                { boost::archive::binary_oarchive oa(st); const auto &cs = s; oa << cs; }
                LP_Map<K, V> t(1);
                { boost::archive::binary_iarchive ia(st); ia >> t; }
                full(t);
                s = std::move(t);
            }
            if (r.chance(1, 3)) full(s);
        }
        full(s);
    }
};

// ---------------------------------------------------------------- multimaps
template <class K, class V> struct MMCase {
    typedef std::map<K, std::multiset<V>> M;
    M m;
    size_t n = 0;
    Rng &r;
    Keys<K> key;
    MMCase(Rng &r_) : r(r_), key(r_) {}
    static size_t total(const M &m) { size_t t = 0; for (auto &kv : m) t += kv.second.size(); return t; }
    template <class C> void look(const C &s, const char *p) {
        for (auto &kv : m) {
            std::multiset<V> got;
            auto rg = s.get(kv.first);
            for (auto it = rg.first; it != rg.second; ++it) {
                auto x = *it;
                VT_CHECK(str(p, "get"), x.first == kv.first, "range of ", kv.first, " yields key ", x.first);
                got.insert(x.second);
                if (got.size() > kv.second.size() + 4) break;
            }
            VT_CHECK(str(p, "get"), got == kv.second, "get(", kv.first, ") yields ", got.size(), " values, expected ", kv.second.size());
            VT_CHECK(str(p, "contains"), s.contains(kv.first) && s.count(kv.first) == 1, "contains(", kv.first, ")");
        }
        for (int i = 0; i < 10; ++i) {
            K k = key(r);
            if (m.count(k)) continue;
            auto rg = s.get(k);
            VT_CHECK(str(p, "absent"), !s.contains(k) && rg.first == rg.second, "absent ", k);
        }
    }
    void full(const LP_MultiMap<K, V> &s) {
        VT_CHECK("mm:size", s.size() == total(m), "size ", s.size(), " expected ", total(m));
        VT_CHECK("mm:empty", s.empty() == m.empty(), "empty()");
        M it, rg;
        for (auto kv : s) it[kv.first].insert(kv.second);
        VT_CHECK("mm:iterate", it == m, "iteration visits ", total(it), " of ", total(m));
        ranges(s, r, [&](auto kv) { rg[kv.first].insert(kv.second); });
        VT_CHECK("mm:range", rg == m, "split range visits ", total(rg), " of ", total(m));
        look(s, "mm:");
        obs(total(m)); obs(s.capacity());
        ctx().count("mm_audits");
    }
    void fill(LP_MultiMap<K, V> &s, M &m, size_t k) {
        while (k--) {
            K x = !m.empty() && r.chance(1, 3) ? (r.chance(1, 2) ? m.begin()->first : m.rbegin()->first) : key(r);
            V v = (V)r.below(8);
            m[x].insert(v);
            VT_CHECK("mm:insert", s.insert(x, v), "insert returned false");
        }
    }
    void run() {
        LP_MultiMap<K, V> s(pickCap(r));
        int ops = (int)r.range(1, 40);
        full(s);
        for (int o = 0; o < ops; ++o) {
            ctx().count("mm_ops");
            int op = (int)r.below(14);
            if (s.capacity() > 4096 && (op == 9 || op == 10)) op = 8;
            if (op < 7) fill(s, m, r.below(30));
            else if (op == 7) { LP_MultiMap<K, V> t(std::move(s)); full(t); s = std::move(t); }
            else if (op == 8) s.rehash(2 * total(m) + 1 + pickCap(r));
            else if (op == 9 || op == 10) {
                M m2;
                LP_MultiMap<K, V> t(pickCap(r));
                fill(t, m2, r.below(40));
                std::set<K> f;
                if (op == 9) s.merge(std::move(t));
                else {
                    for (auto &kv : m) if (r.chance(1, 3)) f.insert(kv.first);
                    for (auto &kv : m2) if (r.chance(1, 3)) f.insert(kv.first);
                    s.merge(std::move(t), f);
                }
                for (auto &kv : m2) m[kv.first].insert(kv.second.begin(), kv.second.end());
                for (auto k : f) m.erase(k);
            } else if (op == 11) {
                std::set<K> f;
                for (auto &kv : m) if (r.chance(1, 3)) f.insert(kv.first);
                s.rehash(s.capacity(), f);
                for (auto k : f) m.erase(k);
            } else if (op == 12) {
                Concurrent_LP_MultiMap<K, V> c(std::move(s));
                VT_CHECK("mm:conv", c.size() == total(m), "conversion size ", c.size());
                look(c, "mm:conv:");
                LP_MultiMap<K, V> t(std::move(c));
                s = std::move(t);
            } else {
                std::stringstream st;
                { boost::archive::binary_oarchive oa(st); const auto &cs = s; oa << cs; }
                LP_MultiMap<K, V> t(1);
                { boost::archive::binary_iarchive ia(st); ia >> t; }
                full(t);
                s = std::move(t);
            }
            if (r.chance(1, 3)) full(s);
        }
        full(s);
    }
};

int main(int argc, char **argv) {
    auto &c = ctx();
    c.init(argc, argv);
    long reps = atol(c.opt("reps", "400").c_str());
    const int KINDS = 7;
    for (long id = 0; id < reps * KINDS; ++id) {
        if (!c.runs(id)) continue;
        Rng r(c.seed, id, 10);
        startGen.seed((unsigned)r.next());
        static const char *names[] = {"set32", "set32G", "set64", "set64G", "map32", "map64", "mm32"};
        int k = (int)(id % KINDS);
        k = (int)(((id / 8) + id) % KINDS);
        c.begin(id, names[k]);
        trace = k;
        guarded("hash", [&] {
            switch (k) {
                case 0: SetCase<uint32_t, false>(r, "").run(); break;
                case 1: SetCase<uint32_t, true>(r, "").run(); break;
                case 2: SetCase<uint64_t, false>(r, "").run(); break;
                case 3: SetCase<uint64_t, true>(r, "").run(); break;
                case 4: MapCase<uint32_t, int>(r).run(); break;
                case 5: MapCase<uint64_t, uint64_t>(r).run(); break;
                default: MMCase<uint32_t, uint32_t>(r).run();
            }
        });
        c.nontrivial(trace);
    }
    return c.finish();
}
