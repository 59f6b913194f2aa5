// C08: partition trees of every load-balancing partitioner; C17: sampling and sample graphs.
#include "points.h"
#include "lb_make.h"
#include "side.h"
#include <tbb/global_control.h>
#include <set>
using namespace vt;
typedef long double LD;
typedef double P;
static uint64_t trace;
template <uint D> using Tree = lb::PartitionTree<D, P>;
template <uint D> using Kids = typename Tree<D>::ChildContainer;

template <uint D> void leavesOf(const Tree<D> &t, std::vector<const Tree<D> *> &out) {
    if (auto k = std::get_if<Kids<D>>(&t.attachment)) { for (auto &c : *k) leavesOf<D>(c, out); }
    else out.push_back(&t);
}
template <uint D> std::set<tIdType> idsOf(const Tree<D> &t) {
    std::vector<const Tree<D> *> l; leavesOf<D>(t, l);
    std::set<tIdType> s; for (auto x : l) for (auto i : std::get<Point_Ids>(x->attachment)) s.insert(i);
    return s;
}
template <uint D> bool deepInside(const dSphere<D, P> &s, const dPoint<D, P> &p, LD mag) {
    LD d = 0; for (uint k = 0; k < D; ++k) { LD e = (LD)p.coords[k] - s.center[k]; d += e * e; }
    d = std::sqrt(d);
    return d <= s.radius - 1e-12L * (mag + s.radius + d);
}
template <uint D> struct Probe { dSphere<D, P> sp; dSimplex<D, P> sx; };

template <uint D> void node(const std::string &kind, const Tree<D> &t, const dPoints<D, P> &ps, const std::vector<Probe<D>> &probes, LD mag, bool root, bool exact) {
    VT_CHECK("lbp:nochecker:" + kind, t.intersectionChecker != nullptr, kind, ": a node has no intersection checker");
    if (!t.intersectionChecker) return;
    auto ids = idsOf<D>(t);
    std::vector<tIdType> fin; for (auto i : ids) if (dPoint<D, P>::isFinite(i)) fin.push_back(i);
    VT_CHECK("lbp:hasfinite:" + kind, t.hasFinitePoints() == !fin.empty(), kind, ": hasFinitePoints() is ", t.hasFinitePoints(), " for ", fin.size(), " finite points");
    auto &b = t.intersectionChecker->bounds();
    for (auto i : fin) {
        bool in = true; for (uint d = 0; d < D; ++d) in &= b.low[d] <= ps[i].coords[d] && ps[i].coords[d] <= b.high[d];
        VT_CHECK("lbp:bounds:" + kind, in, kind, ": point ", i, " lies outside the bounds of its node");
        if (!in) break;
    }
    for (auto &pr : probes) {
        bool inside = false;
        for (auto i : fin) if (deepInside<D>(pr.sp, ps[i], mag) && (!exact || sideOf<P>(ps, pr.sx, ps[i]) >= 0)) { inside = true; break; } // the accurate checker judges the simplex, not the sphere
        bool got = t.intersectionChecker->intersects(pr.sp, pr.sx);
        if (inside) VT_CHECK("lbp:missed:" + kind, got, kind, root ? " (root)" : "", ": a sphere of radius ", pr.sp.radius, " contains a point of the subtree but its checker says no");
        ctx().count(got ? "answers_yes" : "answers_no");
        if (inside) ctx().count("inside");
        trace = mix(trace ^ got);
    }
    if (auto k = std::get_if<Kids<D>>(&t.attachment)) for (auto &c : *k) node<D>(kind, c, ps, probes, mag, false, exact);
}

template <uint D> struct Shape { // structure of a tree as text + answers
    static void run(const Tree<D> &t, const std::vector<Probe<D>> &probes, std::string &o) {
        for (auto &p : probes) o += t.intersectionChecker->intersects(p.sp, p.sx) ? '1' : '0';
        for (uint d = 0; d < D; ++d) o += str(t.intersectionChecker->bounds().low[d], ",");
        if (auto k = std::get_if<Kids<D>>(&t.attachment)) { o += "("; for (auto &c : *k) run(c, probes, o); o += ")"; }
        else { std::set<tIdType> s; for (auto i : std::get<Point_Ids>(t.attachment)) s.insert(i); o += "["; for (auto i : s) o += str(i, " "); o += "]"; }
    }
};

// the sample graph is the edge graph of the Delaunay triangulation of the sampled points
template <uint D> void sampling(const std::string &kind, const lb::Sampling<D, P> &s, const dPoints<D, P> &ps, const std::set<tIdType> &given, size_t maxSample, size_t parts, bool weighted) {
    auto &C = ctx();
    size_t n = s.points.size();
    VT_CHECK("samp:size:" + kind, s.graph.size() == n && s.partition.size() == n && s.size() == n && n <= maxSample, kind, ": ", n, " sample points, ", s.graph.size(), " nodes, ", s.partition.size(), " assignments, at most ", maxSample, " requested");
    if (s.graph.size() != n || s.partition.size() != n) return;
    std::map<std::array<P, D>, tIdType> at;
    for (auto i : given) if (dPoint<D, P>::isFinite(i)) { std::array<P, D> a; for (uint d = 0; d < D; ++d) a[d] = ps[i].coords[d]; at[a] = i; }
    std::vector<tIdType> node(n); std::map<tIdType, size_t> back;
    for (size_t i = 0; i < n; ++i) {
        std::array<P, D> a; for (uint d = 0; d < D; ++d) a[d] = s.points[i][d];
        auto it = at.find(a);
        VT_CHECK("samp:points:" + kind, it != at.end(), kind, ": sample point ", i, " is no given point");
        if (it == at.end()) return;
        node[i] = it->second;
        VT_CHECK("samp:twice:" + kind, back.emplace(it->second, i).second, kind, ": point ", it->second, " was sampled twice");
        VT_CHECK("samp:assignment:" + kind, s.partition[i] >= 0 && (size_t)s.partition[i] < std::max<size_t>(parts, 1), kind, ": partition ", s.partition[i], " of ", parts);
    }
    std::vector<tIdType> ids(node); std::sort(ids.begin(), ids.end());
    auto ref = Ref<D, P>::run(ps, ids);
    std::set<std::pair<tIdType, tIdType>> edges, got;
    for (auto &v : ref) for (uint a = 0; a <= D; ++a) for (uint b = 0; b <= D; ++b) if (a != b) edges.emplace(v[a], v[b]);
    std::map<std::pair<size_t, size_t>, int> w;
    auto &g = s.graph;
    bool ok = g.nodeRecords[0] == 0;
    for (size_t i = 0; i < n; ++i) ok &= g.nodeRecords[i] <= g.nodeRecords[i + 1];
    ok &= (size_t)g.nodeRecords[n] == g.adjacency.size() && g.edgeWeights.size() == g.adjacency.size();
    VT_CHECK("samp:csr:" + kind, ok, kind, ": malformed adjacency structure");
    if (!ok) return;
    for (size_t i = 0; i < n; ++i) for (int e = g.nodeRecords[i]; e < g.nodeRecords[i + 1]; ++e) {
        int j = g.adjacency[e];
        if (j < 0 || (size_t)j >= n) { C.violation("samp:target:" + kind, str(kind, ": edge to node ", j, " of ", n)); return; }
        VT_CHECK("samp:dupedge:" + kind, got.emplace(node[i], node[j]).second, kind, ": edge ", i, "-", j, " twice");
        w[{i, (size_t)j}] = g.edgeWeights[e];
    }
    VT_CHECK("samp:edges:" + kind, got == edges, kind, ": ", got.size(), " directed edges, the Delaunay triangulation of the ", n, " sample points has ", edges.size());
    std::vector<std::pair<LD, int>> lw;
    for (auto &x : w) {
        auto o = w.find({x.first.second, x.first.first});
        VT_CHECK("samp:symmetric:" + kind, o != w.end() && o->second == x.second, kind, ": weights of the two directions differ");
        VT_CHECK("samp:weight:" + kind, weighted ? x.second >= 1 && x.second <= 99 : x.second == 1, kind, ": weight ", x.second);
        LD d = 0; for (uint k = 0; k < D; ++k) { LD e = (LD)s.points[x.first.first][k] - s.points[x.first.second][k]; d += e * e; }
        lw.emplace_back(d, x.second);
    }
    std::sort(lw.begin(), lw.end());
    for (size_t i = 1; i < lw.size(); ++i) if (lw[i].first > lw[i - 1].first * (1 + 1e-9)) VT_CHECK("samp:monotone:" + kind, lw[i].second <= lw[i - 1].second, kind, ": a longer edge has a larger weight");
    C.count("sample_edges", got.size()); C.count("samplings");
    for (auto &e : got) trace = mix(trace ^ (e.first * 65537 + e.second));
}

template <uint D> void one(long c, Rng &r, bool samplerOnly, bool large = false) {
    int fam = r.below(F_COUNT); size_t n = r.range(150, r.chance(1, 8) ? 4000 : 700);
    if (large) { fam = r.pick(std::vector<int>{F_UNIFORM, F_NORMAL, F_BUBBLE, F_JLATTICE}); n = D == 2 ? r.range(90000, 130000) : r.range(20000, 30000); }
    dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    n = pts.size();
    auto ps = toPoints<D, P>(pts);
    double ext = 0; for (uint d = 0; d < D; ++d) ext = std::max<double>(ext, box.high[d] - box.low[d]);
    LD mag = 0; for (auto &p : pts) for (auto x : p) mag = std::max(mag, std::fabs((LD)x));
    for (uint k = 0; k < dPoint<D, P>::nINF; ++k) { dPoint<D, P> q; for (uint d = 0; d < D; ++d) q.coords[d] = ((k >> d) & 1 ? box.high[d] + 2 * ext : box.low[d] - 2 * ext); ps[dPoint<D, P>::cINF + k] = q; }
    LBConf conf = randomConf(r, D, n, ext);
    auto &C = ctx();
    if (!C.opt("kind").empty()) conf.kind = atoi(C.opt("kind").c_str());
    vt_kahip_mode = r.below(3);
    int conc = 1 + r.below(8);
    Point_Ids ids; std::set<tIdType> set;
    for (tIdType i = 1; i <= n; ++i) { ids.insert(i); set.insert(i); }
    for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) { ids.insert(k); set.insert(k); }
    C.begin(c, str(D, "D ", FAMILIES[fam], " n=", n, " ", samplerOnly ? "sampler " : "", conf.str(), " conc=", conc, " kahip=", vt_kahip_mode));
    trace = conf.kind;
    guarded(samplerOnly ? "samp" : "lbp", [&] {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, conc);
        if (samplerOnly) {
            size_t want = r.chance(1, 8) ? r.range(1, D + 1) : r.range(D + 2, 150); // degenerate samples have no triangulation
            std::set<tIdType> sub; Point_Ids sids;
            if (large) want = r.chance(1, 3) ? n : D == 2 ? r.range(67000, n - 5000) : r.range(5000, 15000); else if (r.chance(1, 30)) want = r.range(1000, 3000);
            bool most = !large || want < n; for (auto i : set) if (!most || r.chance(large ? 98 : 75, 100)) { sub.insert(i); sids.insert(i); }
            auto f = [want](size_t) -> size_t { return want; };
            typename lb::Sampler<D, P>::DistanceToEdgeWeightFunction wf = [](P d) -> P { return 1 / std::sqrt(d + 1e-7); };
            if (r.chance(1, 3)) wf = [](P d) -> P { return 1 - d; };
            else if (r.chance(1, 3)) wf = [](P d) -> P { return -std::log(d + 1e-9); };
            auto sampler = conf.weights ? lb::Sampler<D, P>(conf.seed, f, FAST, 0.05, wf) : lb::Sampler<D, P>(conf.seed, f, FAST, 0.05);
            size_t parts = r.range(1, 8);
            auto before = ps;
            auto s = sampler(box, ps, sids, parts);
            sampling<D>("sampler", s, ps, sub, want, parts, conf.weights);
            auto cl = s.clone();
            VT_CHECK("samp:clone", cl.partition == s.partition && cl.points == s.points && cl.graph.adjacency == s.graph.adjacency && cl.graph.nodeRecords == s.graph.nodeRecords && cl.graph.edgeWeights == s.graph.edgeWeights, "clone() differs");
            bool same = before.finite_size() == ps.finite_size(); for (tIdType i = 1; same && i <= n; ++i) same = before[i].coords == ps[i].coords;
            VT_CHECK("samp:input", same, "sampling changed the points");
            if (vt_kahip_bad) { C.violation("samp:kahip", vt_kahip_msg); vt_kahip_bad = 0; }
            C.nontrivial(trace);
            return;
        }
        std::string kind = LBKINDS[conf.kind];
        auto p = makeLB<D, P>(conf);
        VT_CHECK("lbp:info", !p->info().empty(), "info() is empty");
        lb::UnpluggedMonitor mon;
        auto t = p->partition(box, ps, ids, mon);
        C.count("kind_" + kind);
        std::vector<const Tree<D> *> leaves; leavesOf<D>(t, leaves);
        std::set<tIdType> seen; size_t fin = 0;
        for (auto l : leaves) {
            std::set<tIdType> got; size_t m = 0, inf = 0;
            auto &a = std::get<Point_Ids>(l->attachment);
            for (auto i : a) {
                ++m; got.insert(i);
                if (!dPoint<D, P>::isFinite(i)) { ++inf; continue; }
                ++fin;
                VT_CHECK("lbp:twice:" + kind, seen.insert(i).second, kind, ": point ", i, " is in two leaves");
                VT_CHECK("lbp:foreign:" + kind, set.count(i), kind, ": point ", i, " was not given");
            }
            VT_CHECK("lbp:size:" + kind, m == got.size() && a.size() == m, kind, ": a leaf lists ", m, " ids, ", got.size(), " distinct, size() ", a.size());
            VT_CHECK("lbp:inf:" + kind, (inf == dPoint<D, P>::nINF), kind, ": a leaf has ", inf, " bounding points");
        }
        VT_CHECK("lbp:lost:" + kind, seen.size() == n, kind, ": ", seen.size(), " of ", n, " points are in leaves");
        size_t maxLeaves = conf.kind == LB_BESP ? 1024 : std::max<size_t>(1, conf.threads);
        VT_CHECK("lbp:leaves:" + kind, leaves.size() >= 1 && leaves.size() <= maxLeaves, kind, ": ", leaves.size(), " leaves for ", conf.threads, " threads");
        C.maxi("leaves", leaves.size());
        // probes: spheres and circumspheres
        std::vector<Probe<D>> probes;
        bool accurate = conf.kind >= LB_CENTER && conf.kind <= LB_PASB && conf.checker == 1;
        for (int k = 0; k < 25; ++k) {
            Probe<D> pr; std::set<tIdType> vs; tIdType base = 1 + r.below(n);
            bool wide = r.chance(1, 4);
            while (vs.size() < D + 1) vs.insert(wide ? 1 + r.below(n) : 1 + (base + r.below(20)) % n);
            std::copy(vs.begin(), vs.end(), pr.sx.vertices.begin());
            pr.sp = pr.sx.circumsphere(ps);
            if (accurate && flat<P>(ps, pr.sx)) continue;
            if (!accurate && r.chance(1, 2)) { auto &q = ps[1 + r.below(n)]; for (uint d = 0; d < D; ++d) pr.sp.center[d] = q.coords[d] + 0.1 * ext * r.normal(); pr.sp.radius = ext * r.unit() * r.unit(); }
            if (std::isinf(pr.sp.radius) || !(pr.sp.radius < 1e6 * ext)) continue;
            probes.push_back(pr);
        }
        node<D>(kind, t, ps, probes, mag, true, accurate);
        if (conf.kind == LB_NEAREST && !conf.flatten) sampling<D>(kind, static_cast<lb::NearestSamplePointAssigningSamplePartitioner<D, P, lb::UnpluggedMonitor> *>(p.get())->sampling(), ps, set, conf.sample, conf.threads, conf.weights);
        // derived operations
        std::string s0, s1; Shape<D>::run(t, probes, s0);
        { Tree<D> cp(t); Shape<D>::run(cp, probes, s1); VT_CHECK("lbp:copy:" + kind, s0 == s1, kind, ": a copied tree differs"); cp.collect(); VT_CHECK("lbp:collect:" + kind, cp.isLeaf() && idsOf<D>(cp) == set, kind, ": collect() lost or added points"); std::string s2; Shape<D>::run(t, probes, s2); VT_CHECK("lbp:copy2:" + kind, s0 == s2, kind, ": changing a copy changed the original"); }
        {
            Tree<D> fl(t); fl.flatten();
            std::vector<const Tree<D> *> fl2; leavesOf<D>(fl, fl2);
            bool ok = fl2.size() == leaves.size();
            if (auto k = std::get_if<Kids<D>>(&fl.attachment)) for (auto &x : *k) ok &= x.isLeaf();
            std::multiset<std::string> a, b;
            for (auto l : leaves) { std::string o; Shape<D>::run(*l, probes, o); a.insert(o); }
            for (auto l : fl2) { std::string o; Shape<D>::run(*l, probes, o); b.insert(o); }
            VT_CHECK("lbp:flatten:" + kind, ok && a == b, kind, ": flatten() does not keep the leaves");
        }
        if (conf.flatten) if (auto k = std::get_if<Kids<D>>(&t.attachment)) for (auto &x : *k) VT_CHECK("lbp:flat:" + kind, x.isLeaf(), kind, ": flattened tree has inner nodes below the root");
        if (auto k = std::get_if<Kids<D>>(&t.attachment)) {
            std::vector<std::set<tIdType>> want; std::vector<dBox<D, P>> bs; std::vector<std::string> ans; std::vector<char> skip;
            for (auto &x : *k) { skip.push_back(!x.hasFinitePoints()); want.push_back(idsOf<D>(x)); bs.push_back(x.intersectionChecker->bounds()); std::string o; for (auto &pr : probes) o += x.intersectionChecker->intersects(pr.sp, pr.sx) ? '1' : '0'; ans.push_back(o); }
            auto old = lb::toOldPartitioning<D, P>(std::move(*k));
            bool ok = old.first.size() == want.size() && old.second.size() == want.size();
            VT_CHECK("lbp:old:" + kind, ok, kind, ": ", old.first.size(), " old partitions, ", old.second.size(), " checkers for ", want.size(), " children");
            for (size_t i = 0; ok && i < want.size(); ++i) {
                std::set<tIdType> got; for (auto x : old.first[i].points) got.insert(x);
                std::string o; for (auto &pr : probes) o += old.second[i] && old.second[i]->intersects(pr.sp, pr.sx) ? '1' : '0';
                VT_CHECK("lbp:old:" + kind, got == want[i] && old.first[i].id == i && (skip[i] || (old.first[i].bounds.low == bs[i].low && old.first[i].bounds.high == bs[i].high && o == ans[i])), kind, ": old partition ", i, " does not match child ", i);
            }
        }
        if (vt_kahip_bad) { C.violation("lbp:samplegraph", vt_kahip_msg); vt_kahip_bad = 0; }
        C.nontrivial(mix(trace ^ leaves.size()));
        C.sample(str(D, "D ", FAMILIES[fam], " n=", n, " ", conf.str(), ": ", leaves.size(), " leaves"));
    });
}
int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "200").c_str());
    bool samp = C.opt("part") == "sampler";
    for (long c = 0; c < reps; ++c) {
        Rng r(C.seed, c, samp ? 1717 : 808);
        if (!C.runs(c)) continue;
        if (r.chance(1, 2)) one<2>(c, r, samp); else one<3>(c, r, samp);
    }
    for (long c = reps, e = reps + atol(C.opt("large", "0").c_str()); c < e; ++c) {
        Rng r(C.seed, c, 1718);
        if (!C.runs(c)) continue;
        C.count("large");
        if (r.chance(2, 3)) one<2>(c, r, true, true); else one<3>(c, r, true, true);
    }
    return C.finish();
}
