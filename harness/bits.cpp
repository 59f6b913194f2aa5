// C13: bit sets against a reference set; concurrent bit operations against a per-bit linearizability checker.
#include "vt.h"
#include "conc.h"
#include <set>
#include <unordered_set>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "datastructures/Bit_Set.hxx"
using namespace vt;
typedef uint32_t K;
typedef std::set<K> M;

static uint64_t trace;
struct Bounds { uint64_t lo, hi; uint64_t rlo() const { return lo / 32 * 32; } uint64_t rhi() const { return (hi + 31) / 32 * 32; } };

static Bounds mkB(Rng &r, uint64_t base) {
    Bounds b;
    b.lo = base + (r.chance(1, 3) ? 0 : r.below(400));
    b.hi = b.lo + (r.chance(1, 8) ? 0 : r.chance(1, 3) ? r.range(1, 70) : r.range(1, 700));
    b.hi = std::min<uint64_t>(b.hi, 0xffffffe0ull);
    b.lo = std::min(b.lo, b.hi);
    return b;
}

template <class S> void audit(const char *p, const S &s, const M &m, Bounds b, Rng &r) {
    VT_CHECK(str(p, "bounds"), s.lowerBound() == b.rlo() && s.upperBound() == b.rhi(), "bounds [", s.lowerBound(), ",", s.upperBound(), ") for [", b.lo, ",", b.hi, ")");
    uint64_t n = b.rhi() - b.rlo();
    VT_CHECK(str(p, "ones"), s.ones() == m.size() && s.size() == m.size() && s.zeros() == n - m.size(), "ones ", s.ones(), " zeros ", s.zeros(), " expected ", m.size(), " of ", n);
    VT_CHECK(str(p, "zero-one"), s.zero() == m.empty() && s.empty() == m.empty() && s.one() == (m.size() == n), "zero/one/empty");
    std::vector<K> seen;
    size_t cap = n + 8;
    for (auto it = s.begin(); it != s.end() && seen.size() < cap; ++it) seen.push_back(*it);
    VT_CHECK(str(p, "iterate"), std::equal(seen.begin(), seen.end(), m.begin(), m.end()), "forward iteration visited ", seen.size(), " of ", m.size());
    if (!m.empty()) {
        std::vector<K> back;
        auto it = s.end();
        while (back.size() < m.size()) { --it; back.push_back(*it); }
        std::reverse(back.begin(), back.end());
        VT_CHECK(str(p, "backward"), std::equal(back.begin(), back.end(), m.begin(), m.end()), "backward iteration");
        VT_CHECK(str(p, "backward-begin"), it == s.begin(), "stepping back over all bits does not end at begin()");
    }
    // recursively split ranges
    std::vector<K> leaf;
    std::vector<typename S::const_range_type> st;
    st.push_back(typename S::const_range_type(s, r.range(1, 60)));
    size_t leaves = 0;
    while (!st.empty() && leaves < 5000 && leaf.size() < 2 * cap) {
        auto x = st.back();
        st.pop_back();
        if (x.is_divisible() && !r.chance(1, 12)) {
            typename S::const_range_type y(x, tbb::split());
            st.push_back(x); st.push_back(y);
        } else {
            ++leaves;
            if (!x.empty()) for (auto it = x.begin(); it != x.end() && leaf.size() < 2 * cap; ++it) leaf.push_back(*it);
        }
    }
    std::sort(leaf.begin(), leaf.end());
    VT_CHECK(str(p, "range"), std::equal(leaf.begin(), leaf.end(), m.begin(), m.end()), "split ranges visited ", leaf.size(), " of ", m.size(), " bits");
    ctx().count("range_leaves", leaves);
    for (int i = 0; i < 24; ++i) {
        K k = (K)(r.chance(1, 4) ? r.next() : b.rlo() + r.below(n + 80) - (b.rlo() >= 40 ? 40 : 0));
        bool w = m.count(k);
        VT_CHECK(str(p, "isset"), s.isSet(k) == w && s.contains(k) == w && s.count(k) == (size_t)w && s.one(k) == w && s.zero(k) == !w && s.empty(k) == !w
                 && s.at(k) == (w ? k : 0), "bit ", k, " expected ", w);
    }
    trace = mix(trace ^ m.size() ^ (n << 20));
}

template <class S> void fill(S &s, M &m, Bounds b, Rng &r, int n) {
    uint64_t w = b.rhi() - b.rlo();
    if (!w) return;
    for (int i = 0; i < n; ++i) {
        K k = (K)(b.rlo() + r.below(w));
        bool was = m.count(k);
        switch (r.below(5)) {
            case 0: VT_CHECK("bits:testunset", s.testAndUnset(k) == was, "testAndUnset ", k); m.erase(k); break;
            case 1: VT_CHECK("bits:erase", s.erase(k) == was, "erase ", k); m.erase(k); break;
            case 2: VT_CHECK("bits:insert", s.insert(k) == !was, "insert ", k); m.insert(k); break;
            default: VT_CHECK("bits:testset", s.testAndSet(k) == was, "testAndSet ", k); m.insert(k);
        }
    }
}
static void batch(Bit_Set &s, M &m, Bounds b, Rng &r) {
    uint64_t w = b.rhi() - b.rlo();
    if (!w) return;
    uint64_t f = b.rlo() + r.below(w), t = f + r.below(b.rhi() - f + 1);
    if (r.chance(1, 4)) f = f / 32 * 32;
    if (r.chance(1, 4)) t = std::max(f, t / 32 * 32);
    if (r.chance(1, 4)) t = std::min(b.rhi(), f + r.below(40));
    s.batchSet((K)f, (K)t);
    for (uint64_t i = f; i < t; ++i) m.insert((K)i);
    ctx().count("batches");
}
static Bit_Set make(Rng &r, Bounds b, M &m) {
    Bit_Set s(b.lo, b.hi);
    fill(s, m, b, r, (int)r.below(200));
    if (r.chance(1, 2)) batch(s, m, b, r);
    return s;
}
template <class S> void randomBits(S &s, M &m, Bounds b, Rng &r) { fill(s, m, b, r, (int)r.below(200)); }

static void seq(Rng &r) {
    uint64_t base = r.chance(1, 3) ? 0 : r.chance(1, 4) ? 0xffffffffull - 1200 : r.below(1u << 30);
    Bounds b = mkB(r, base);
    M m;
    Bit_Set s = make(r, b, m);
    int n = (int)r.range(1, 10);
    for (int i = 0; i < n; ++i) {
        Bounds b2 = mkB(r, base), b3 = mkB(r, base);
        if (r.chance(1, 5)) b2 = b;
        M m2, m3;
        const char *p = "bits:";
        switch (r.below(11)) {
            case 0: fill(s, m, b, r, (int)r.below(60)); break;
            case 1: batch(s, m, b, r); p = "bits:batch:"; break;
            case 2: { Bit_Set o = make(r, b2, m2); s.filter(o); for (K k : m2) m.erase(k); p = "bits:filter:"; audit("bits:filter-arg:", o, m2, b2, r); break; }
            case 3: { Bit_Set o = make(r, b2, m2); s.merge(std::move(o)); m.insert(m2.begin(), m2.end());
                      b = {std::min(b.rlo(), b2.rlo()), std::max(b.rhi(), b2.rhi())}; p = "bits:merge:"; break; }
            case 4: { Bit_Set o = make(r, b2, m2), f = make(r, b3, m3); s.mergeFilter(std::move(o), f); m.insert(m2.begin(), m2.end());
                      for (K k : m3) m.erase(k);
                      b = {std::min(b.rlo(), b2.rlo()), std::max(b.rhi(), b2.rhi())}; p = "bits:mergefilter:"; break; }
            case 5: if (r.chance(1, 2)) { s.resize(b2.lo, b2.hi); b = {std::min(b.rlo(), b2.rlo()), std::max(b.rhi(), b2.rhi())}; }
                    else { s.resize(b2.hi); b = {b.rlo(), std::max(b.rhi(), b2.rhi())}; }
                    p = "bits:resize:"; break;
            case 6: { Bit_Set o(0, r.below(100)); o.copy(s); audit("bits:copied:", o, m, b, r); fill(o, m2 = m, b, r, 20); p = "bits:copy:"; break; }
            case 7: { Bit_Set o(std::move(s)); audit("bits:moved:", o, m, b, r); s = std::move(o); p = "bits:move:"; break; }
            case 8: { Concurrent_Bit_Set o(std::move(s)); audit("bits:conc:", o, m, b, r); randomBits(o, m, b, r);
                      Concurrent_Bit_Set o2(std::move(o)); Concurrent_Bit_Set o3(b2.lo, b2.hi); o3 = std::move(o2); audit("bits:concmoved:", o3, m, b, r);
                      s = Bit_Set(std::move(o3)); p = "bits:conversion:"; break; }
            case 9: { std::stringstream f; { boost::archive::binary_oarchive a(f); a << const_cast<const Bit_Set &>(s); }
                      Bit_Set o(b2.lo, b2.hi); { boost::archive::binary_iarchive a(f); a >> o; } audit("bits:loaded:", o, m, b, r); s = std::move(o); p = "bits:archive:"; break; }
            default: { Concurrent_Bit_Set o(b2.lo, b2.hi), f(b3.lo, b3.hi); randomBits(o, m2, b2, r); randomBits(f, m3, b3, r);
                      Bit_Set of(b3.lo, b3.hi);
                      switch (r.below(4)) {
                          case 0: s.filter(o); for (K k : m2) m.erase(k); p = "bits:filterconc:"; break;
                          case 1: s.merge(Bit_Set(std::move(o))); m.insert(m2.begin(), m2.end()); b = {std::min(b.rlo(), b2.rlo()), std::max(b.rhi(), b2.rhi())}; p = "bits:mergeconc:"; break;
                          case 2: of = Bit_Set(std::move(f)); s.mergeFilter(Bit_Set(std::move(o)), of); m.insert(m2.begin(), m2.end()); for (K k : m3) m.erase(k);
                                  b = {std::min(b.rlo(), b2.rlo()), std::max(b.rhi(), b2.rhi())}; p = "bits:mergefilterconc:"; break;
                          default: s.copy(o); m = m2; b = b2; p = "bits:copyconc:";
                      } }
        }
        audit(p, s, m, b, r);
        ctx().count("steps");
    }
}

// ---- concurrent
struct Op { uint64_t b, e; char kind; bool res; }; // kind S set, U unset, R read; res = bit was set
static bool linearizable(std::vector<Op> &h, bool final) {
    size_t n = h.size();
    if (n > 62) return true;
    std::sort(h.begin(), h.end(), [](const Op &a, const Op &b) { return a.b < b.b; });
    std::unordered_set<uint64_t> seen;
    // state: executed mask | bit
    std::function<bool(uint64_t, bool)> go = [&](uint64_t done, bool bit) -> bool {
        if (done == (1ull << n) - 1) return bit == final;
        if (!seen.insert(done << 1 | bit).second) return false;
        uint64_t minE = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1)) minE = std::min(minE, h[i].e);
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1) continue;
            if (h[i].b > minE) break; // an unexecuted operation returned before this one began
            if (h[i].res != bit) continue;
            if (go(done | 1ull << i, h[i].kind == 'S' ? true : h[i].kind == 'U' ? false : bit)) return true;
        }
        return false;
    };
    return go(0, false);
}
static std::atomic<uint64_t> ticket{1};
static void conc(Rng &r) {
    Bounds b = mkB(r, r.below(5000));
    b.hi += 1;
    Concurrent_Bit_Set s(b.lo, b.hi);
    uint64_t w = std::min<uint64_t>(b.rhi() - b.rlo(), r.chance(1, 2) ? r.range(1, 40) : 700);
    int T = (int)r.range(2, 8);
    size_t per = r.chance(1, 2) ? r.range(1, 40) : r.range(100, 2000);
    bool stamp = r.chance(2, 3), ch = r.chance(2, 3);
    int unsets = (int)r.below(3); // 0: only sets
    bool reads = r.chance(1, 2);
    struct L { K key; Op o; };
    std::vector<std::vector<L>> logs(T);
    uint64_t seed = r.next();
    parallel(T, seed, ch, [&](int t) {
        Rng q(seed, t);
        for (size_t i = 0; i < per; ++i) {
            L l{(K)(b.rlo() + q.below(w)), {}};
            l.o.kind = reads && q.chance(1, 4) ? 'R' : unsets && q.chance(unsets, 4) ? 'U' : 'S';
            if (stamp) l.o.b = ticket.fetch_add(1);
            l.o.res = l.o.kind == 'S' ? s.testAndSet(l.key) : l.o.kind == 'U' ? s.testAndUnset(l.key) : s.isSet(l.key);
            if (stamp) l.o.e = ticket.fetch_add(1);
            logs[t].push_back(l);
        }
    });
    std::map<K, std::vector<Op>> by;
    uint64_t ops = 0, checked = 0;
    for (auto &l : logs) for (auto &o : l) { by[o.key].push_back(o.o); ++ops; }
    M m;
    for (auto &kv : by) {
        long d = 0;
        for (auto &o : kv.second) d += o.kind == 'S' && !o.res ? 1 : o.kind == 'U' && o.res ? -1 : 0;
        bool fin = s.isSet(kv.first);
        VT_CHECK("bits:conserve", d == (long)fin, "bit ", kv.first, ": successful sets minus unsets is ", d, " but the bit is ", fin);
        if (fin) m.insert(kv.first);
        if (stamp && kv.second.size() <= 62) {
            ++checked;
            VT_CHECK("bits:linearizable", linearizable(kv.second, fin), "history of bit ", kv.first, " (", kv.second.size(), " operations) is not linearizable");
        }
    }
    audit("bits:after:", s, m, b, r);
    ctx().count("concurrent_ops", ops);
    ctx().count("histories_checked", checked);
}

int main(int argc, char **argv) {
    auto &c = ctx();
    c.init(argc, argv);
    long reps = atol(c.opt("reps", "100").c_str());
    bool cc = c.opt("part") == "conc";
    for (long id = 0; id < reps; ++id) {
        if (!c.runs(id)) continue;
        Rng r(c.seed, id, cc ? 131 : 13);
        c.begin(id, cc ? "concurrent bits" : "sequence");
        trace = 0;
        guarded("bits", [&] { cc ? conc(r) : seq(r); });
        c.nontrivial(trace);
    }
    c.count("preemptions_injected", chaos::ticks().load());
    return c.finish();
}
