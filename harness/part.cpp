// C07: classic partitioners and point statistics against a brute-force model.
#include "points.h"
#include "Partitioner.h"
#include <tbb/global_control.h>
#include <set>
using namespace vt;
static uint64_t trace;

template <uint D, typename B, typename V> bool inBox(const B &b, const V &p) {
    for (uint d = 0; d < D; ++d) if (!(b.low[d] <= p[d] && p[d] <= b.high[d])) return false;
    return true;
}
template <uint D, typename P> struct Box { dVector<D, P> lo, hi; };
template <uint D, typename P> Box<D, P> bbox(const std::set<tIdType> &ids, const dPoints<D, P> &ps, bool inf) {
    Box<D, P> b; b.lo.fill(std::numeric_limits<P>::max()); b.hi.fill(std::numeric_limits<P>::lowest());
    for (auto i : ids) if (inf || dPoint<D, P>::isFinite(i)) for (uint d = 0; d < D; ++d) { b.lo[d] = std::min(b.lo[d], ps[i].coords[d]); b.hi[d] = std::max(b.hi[d], ps[i].coords[d]); }
    return b;
}
template <uint D, typename P> void checkStats(const char *who, const dPointStats<D, P> &s, const Box<D, P> &b, size_t n) {
    if (!n) return;
    for (uint d = 0; d < D; ++d) {
        VT_CHECK(str("stats:", who), s.min[d] == b.lo[d] && s.max[d] == b.hi[d], who, " min/max in dim ", d, " are ", s.min[d], "/", s.max[d], " instead of ", b.lo[d], "/", b.hi[d]);
        long double m = ((long double)b.lo[d] + b.hi[d]) / 2, t = 2 * std::numeric_limits<P>::epsilon() * std::max(std::fabs((long double)b.lo[d]), std::fabs((long double)b.hi[d]));
        VT_CHECK(str("stats:mid:", who), std::fabs(s.mid[d] - m) <= t && s.mid[d] >= s.min[d] && s.mid[d] <= s.max[d], who, " mid in dim ", d, " is ", s.mid[d], " of ", b.lo[d], "..", b.hi[d]);
    }
}

struct Split { int kind; uint dim; }; // 'd','c','e','1'

// one level; returns false if a violation makes going deeper meaningless
template <uint D, typename P>
void level(Partitioner<D, P> &part, Split sp, const Point_Ids &ids, const std::set<tIdType> &set, const dPoints<D, P> &ps, const std::string &prov, Rng &r, int depth) {
    size_t fin = 0; for (auto i : set) fin += dPoint<D, P>::isFinite(i);
    if (!fin) return;
    auto b = bbox<D, P>(set, ps, false);
    checkStats<D, P>("seq", getPointStatsSeq(ids.begin(), ids.end(), ps), b, fin);
    auto st = getPointStats(ids, ps);
    checkStats<D, P>("par", st, b, fin);
    VT_CHECK("stats:equal", st == getPointStatsSeq(ids.begin(), ids.end(), ps), "sequential and parallel statistics differ");
    if (r.chance(1, 3)) {
        auto bi = bbox<D, P>(set, ps, true);
        checkStats<D, P>("par-inf", getPointStats(ids, ps, false), bi, fin);
        checkStats<D, P>("seq-inf", getPointStatsSeq(ids.begin(), ids.end(), ps, false), bi, fin);
    }
    bool noInf = r.chance(1, 4);
    auto res = r.chance(1, 2) ? part.partition(ids, ps, prov, noInf) : part.partition(st, ids, ps, prov, noInf);
    size_t want = sp.kind == 'd' ? 1u << D : 2;
    const char *k = sp.kind == 'd' ? "d-way" : sp.kind == 'c' ? "cycle" : sp.kind == 'e' ? "extend" : "one-dim";
    VT_CHECK(str("part:count:", k), res.size() == want, k, ": ", res.size(), " partitions");
    if (res.size() != want) return;
    std::map<tIdType, int> owner;
    std::vector<std::set<tIdType>> got(want);
    for (size_t q = 0; q < want; ++q) {
        auto &p = res[q];
        VT_CHECK(str("part:id:", k), p.id == q, k, ": partition ", q, " has id ", p.id);
        size_t m = 0;
        for (auto i : p.points) { ++m; got[q].insert(i); }
        VT_CHECK(str("part:size:", k), m == got[q].size() && m == p.points.size(), k, ": partition ", q, " lists ", m, " ids, ", got[q].size(), " distinct, size() ", p.points.size());
        size_t inf = 0;
        for (auto i : got[q]) {
            if (!dPoint<D, P>::isFinite(i)) { ++inf; continue; }
            VT_CHECK(str("part:once:", k), owner.emplace(i, q).second, k, ": point ", i, " is in two partitions");
            VT_CHECK(str("part:foreign:", k), set.count(i), k, ": point ", i, " was not given");
            VT_CHECK(str("part:bounds:", k), inBox<D>(p.bounds, ps[i].coords), k, ": point ", i, " lies outside the bounds of its partition ", q);
        }
        VT_CHECK(str("part:inf:", k), inf == (noInf ? 0 : dPoint<D, P>::nINF), k, ": ", inf, " bounding points in partition ", q, ", ignoreInfinite=", noInf);
        for (int t = 0; t < 20; ++t) { tIdType i = 1 + r.below(ps.finite_size() - 1); VT_CHECK(str("part:contains:", k), p.contains(i) == (got[q].count(i) == 1), k, ": contains(", i, ") is wrong"); }
        dSimplex<D, P> s; for (uint v = 0; v <= D; ++v) s.vertices[v] = r.chance(1, 2) && got[q].size() ? *std::next(got[q].begin(), r.below(std::min<size_t>(got[q].size(), 30))) : 1 + r.below(ps.finite_size() - 1);
        uint c = 0; for (auto v : s.vertices) c += got[q].count(v);
        VT_CHECK(str("part:simplex:", k), p.contains(s) == (c == D + 1) && p.contains(s, true) == (c > 0), k, ": contains(simplex) with ", c, " vertices in the partition");
    }
    VT_CHECK(str("part:lost:", k), owner.size() == fin, k, ": ", owner.size(), " of ", fin, " finite points were assigned");
    for (int t = 0; t < 10; ++t) {
        tIdType i = 1 + r.below(ps.finite_size() - 1);
        auto it = owner.find(i);
        try { uint o = res.partition(i); VT_CHECK(str("part:lookup:", k), it != owner.end() && (uint)it->second == o, k, ": partition(", i, ") is ", o); }
        catch (const std::out_of_range &) { VT_CHECK(str("part:lookup:", k), it == owner.end(), k, ": partition(", i, ") not found"); }
    }
    // geometry: the boxes are the bounding box cut at its midpoint
    P mid[D]; for (uint d = 0; d < D; ++d) mid[d] = st.mid[d];
    std::vector<uint> dims;
    if (sp.kind == '1') dims = {sp.dim};
    else if (sp.kind == 'c') dims = {(uint)(prov.size() - 1) % D};
    else if (sp.kind == 'e') { P m = 0; for (uint d = 0; d < D; ++d) m = std::max<P>(m, b.hi[d] - b.lo[d]); for (uint d = 0; d < D; ++d) if (b.hi[d] - b.lo[d] == m) dims.push_back(d); }
    bool ok = false;
    if (sp.kind == 'd') {
        ok = true;
        for (uint q = 0; q < want; ++q) for (uint d = 0; d < D; ++d) ok &= res[q].bounds.low[d] == (q >> d & 1 ? mid[d] : b.lo[d]) && res[q].bounds.high[d] == (q >> d & 1 ? b.hi[d] : mid[d]);
    } else for (uint k2 : dims) {
        bool o = true;
        for (uint q = 0; q < 2; ++q) for (uint d = 0; d < D; ++d) o &= res[q].bounds.low[d] == (d == k2 && q ? mid[d] : b.lo[d]) && res[q].bounds.high[d] == (d == k2 && !q ? mid[d] : b.hi[d]);
        ok |= o;
    }
    VT_CHECK(str("part:cut:", k), ok, k, ": the partitions' bounds are not the bounding box cut at its midpoint");
    ctx().eval();
    ctx().count(str("split_", k));
    for (auto &g : got) trace = mix(trace ^ g.size());
    if (depth) for (size_t q = 0; q < want; ++q) level<D, P>(part, sp, res[q].points, got[q], ps, prov + std::to_string(q), r, depth - 1);
}

template <uint D, typename P> void one(long c, Rng &r) {
    int fam = r.below(F_COUNT); size_t n = r.chance(1, 6) ? r.range(2, 6) : r.chance(1, 10) ? r.range(1000, 6000) : r.range(3, 400);
    dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    if (pts.size() < 2) return;
    if (r.chance(1, 8)) for (auto &p : pts) for (auto &x : p) x = (P)std::floor(x);
    auto ps = toPoints<D, P>(pts);
    for (uint k = 0; k < dPoint<D, P>::nINF; ++k) { dPoint<D, P> q; for (uint d = 0; d < D; ++d) q.coords[d] = (P)(((k >> d) & 1 ? 1e5 : -1e5) * (d + 1)); ps[dPoint<D, P>::cINF + k] = q; }
    Split sp; const char kinds[] = "dce1"; sp.kind = kinds[r.below(4)]; sp.dim = r.below(D);
    uint conc = 1 + r.below(8);
    ctx().begin(c, str(D, "D ", sizeof(P) == 4 ? "float " : "double ", FAMILIES[fam], " n=", pts.size(), " splitter ", (char)sp.kind, " conc=", conc));
    trace = sp.kind;
    guarded("part", [&] {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, conc);
        auto part = Partitioner<D, P>::make(sp.kind == '1' ? '0' + sp.dim : sp.kind);
        for (uint e = 0; e < 5; ++e) {
            uint t = sp.kind == 'd' ? 1u << (D * e) : 1u << e;
            VT_CHECK("part:depth", part->getRecursionDepth(t) == e, "getRecursionDepth(", t, ") is ", part->getRecursionDepth(t));
        }
        std::set<tIdType> set; Point_Ids ids;
        bool all = r.chance(2, 3);
        for (tIdType i = 1; i < ps.finite_size(); ++i) if (all || r.chance(1, 2)) { set.insert(i); ids.insert(i); }
        if (r.chance(1, 2)) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) { set.insert(k); ids.insert(k); }
        if (all && r.chance(1, 4)) checkStats<D, P>("range", getPointStatsSeq(size_t(1), ps.finite_size(), ps), bbox<D, P>(set, ps, false), pts.size());
        level<D, P>(*part, sp, ids, set, ps, "0", r, sp.kind == 'd' ? 1 : 3);
        ctx().nontrivial(mix(trace ^ pts.size()));
    });
}
int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "2000").c_str());
    for (long c = 0; c < reps; ++c) {
        Rng r(C.seed, c, 707);
        if (!C.runs(c)) continue;
        uint64_t k = r.below(8);
        if (k < 3) one<2, double>(c, r); else if (k < 6) one<3, double>(c, r); else if (k < 7) one<2, float>(c, r); else one<3, float>(c, r);
    }
    return C.finish();
}
