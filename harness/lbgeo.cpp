// C09: grid, AABB tree, intersection checkers and partition makers against brute force.
#include "points.h"
#include "lb_make.h"
#include "side.h"
#include <tbb/global_control.h>
#include <set>
using namespace vt;
typedef long double LD;
static uint64_t trace;
static void mark(uint64_t x) { trace = mix(trace ^ x); }

// squared distance of a point to a box, long double
template <uint D, typename P> LD dist2(const std::array<LD, D> &lo, const std::array<LD, D> &hi, const dVector<D, P> &c) {
    LD s = 0;
    for (uint d = 0; d < D; ++d) { LD e = std::max<LD>(lo[d] - c[d], 0) + std::max<LD>((LD)c[d] - hi[d], 0); s += e * e; }
    return s;
}
// +1 meets, -1 does not, 0 too close to call (tol: absolute error of coordinates)
template <uint D, typename P> int meets(const std::array<LD, D> &lo, const std::array<LD, D> &hi, const dSphere<D, P> &s, LD tol) {
    if (std::isinf(s.radius)) return 1;
    LD d = std::sqrt(dist2<D, P>(lo, hi, s.center)), t = tol + 16 * std::numeric_limits<P>::epsilon() * ((LD)s.radius + d);
    if (d <= (LD)s.radius - t) return 1;
    if (d > (LD)s.radius + t) return -1;
    return 0;
}
template <uint D, typename P> int meets(const dBox<D, P> &b, const dSphere<D, P> &s, LD tol) {
    std::array<LD, D> lo, hi; for (uint d = 0; d < D; ++d) { lo[d] = b.low[d]; hi[d] = b.high[d]; }
    return meets<D, P>(lo, hi, s, tol);
}
template <uint D> using Cell = dIndex<D, int64_t>;
// the cell as it is specified: [i*w, (i+1)*w]
template <uint D, typename P> int cellMeets(const Cell<D> &c, P w, const dSphere<D, P> &s, LD tol) {
    std::array<LD, D> lo, hi; for (uint d = 0; d < D; ++d) { lo[d] = (LD)c[d] * w; hi[d] = (LD)(c[d] + 1) * w; }
    return meets<D, P>(lo, hi, s, tol);
}
template <uint D> bool nodeMeets(int r) { return r > 0; }

template <typename P> P cellWidthAny(Rng &r, double ext) {
    switch (r.below(5)) {
    case 0: return (P)std::ldexp(1.0, (int)std::floor(std::log2(ext)) - (int)r.below(6)); // dyadic: cells are exact
    case 1: return (P)(ext * r.pick(std::vector<double>{0.1, 0.3, 0.7, 1.0, 3.0}));
    case 2: return (P)(0.1 * std::pow(10.0, std::floor(std::log10(ext))));
    default: return (P)(ext * std::exp(-4 * r.unit()));
    }
}
// indices stay far below the precision of P
template <typename P> P cellWidth(Rng &r, double ext, LD mag) {
    P w = cellWidthAny<P>(r, ext);
    while (w * (sizeof(P) == 4 ? 0x1p16 : 0x1p40) < mag) w *= 2;
    return w;
}
template <uint D, typename P> LD magnitude(const std::vector<std::array<P, D>> &pts, P w) {
    LD m = w; for (auto &p : pts) for (auto x : p) m = std::max(m, std::fabs((LD)x)); return m;
}
template <uint D, typename P> dSphere<D, P> randomSphere(Rng &r, const std::vector<std::array<P, D>> &pts, const dBox<D, P> &box, double ext, P w) {
    dSphere<D, P> s;
    auto &q = pts[r.below(pts.size())];
    switch (r.below(4)) {
    case 0: for (uint d = 0; d < D; ++d) s.center[d] = (P)r.uniform(box.low[d] - ext, box.high[d] + ext); break;
    case 1: for (uint d = 0; d < D; ++d) s.center[d] = (P)(q[d] + w * 2 * r.normal()); break;
    case 2: for (uint d = 0; d < D; ++d) s.center[d] = q[d]; break;
    default: for (uint d = 0; d < D; ++d) s.center[d] = (P)r.uniform(box.low[d], box.high[d]);
    }
    auto &p = pts[r.below(pts.size())];
    double d2 = 0; for (uint d = 0; d < D; ++d) d2 += ((double)p[d] - s.center[d]) * ((double)p[d] - s.center[d]);
    switch (r.below(6)) {
    case 0: s.radius = (P)(std::sqrt(d2) * (1 + (r.chance(1, 2) ? 1e-4 : -1e-4))); break;
    case 1: s.radius = (P)(w * r.unit()); break;
    case 2: s.radius = 0; break;
    case 3: s.radius = r.chance(1, 20) ? std::numeric_limits<P>::infinity() : (P)(ext * 100 * r.unit()); break;
    case 4: s.radius = (P)(w * r.below(5)); break;
    default: s.radius = (P)(ext * r.unit() * r.unit());
    }
    return s;
}

template <uint D, typename P> void grids(const std::vector<std::array<P, D>> &pts, Rng &r, double ext) {
    P w = cellWidth<P>(r, ext, magnitude<D, P>(pts, (P)0));
    lb::Grid<D, P> g(w);
    LD mag = magnitude<D, P>(pts, w), tol = 8 * std::numeric_limits<P>::epsilon() * mag;
    int e; bool exact = std::frexp(w, &e) == (P)0.5;
    VT_CHECK("grid:width", g.cellWidth() == w, "cellWidth() is ", g.cellWidth(), " of a grid made with ", w);
    VT_CHECK("grid:diagonal", std::fabs((LD)g.diagonalCellLength() - std::sqrt((LD)D) * w) <= 4 * std::numeric_limits<P>::epsilon() * w * 2, "diagonalCellLength ", g.diagonalCellLength(), " width ", w);
    for (int k = 0; k < 30; ++k) {
        dVector<D, P> v;
        auto &p = pts[r.below(pts.size())];
        for (uint d = 0; d < D; ++d) v[d] = r.chance(1, 4) ? (P)(w * (P)(int64_t)std::floor(p[d] / w)) : r.chance(1, 8) ? (P)-p[d] : p[d];
        auto i = g.indexAt(v);
        auto b = g.boundsOf(i);
        auto c = g.centerOf(i);
        for (uint d = 0; d < D; ++d) {
            LD q = (LD)v[d] / w, t = exact ? 0 : tol / w;
            VT_CHECK("grid:index", (LD)i[d] <= q + t && q < (LD)i[d] + 1 + t, "indexAt(", v[d], ") is ", i[d], " for width ", w);
            VT_CHECK("grid:bounds", std::fabs((LD)b.low[d] - (LD)i[d] * w) <= tol && std::fabs((LD)b.high[d] - ((LD)i[d] + 1) * w) <= tol, "boundsOf cell ", i[d], " is ", b.low[d], "..", b.high[d], " width ", w);
            VT_CHECK("grid:center", std::fabs((LD)c[d] - ((LD)i[d] + 0.5L) * w) <= tol, "centerOf cell ", i[d], " is ", c[d], " width ", w);
            auto j = i; ++j[d];
            VT_CHECK("grid:tiling", g.boundsOf(j).low[d] == b.high[d], "cells ", i[d], " and ", j[d], " do not share their boundary, width ", w);
        }
        VT_CHECK("grid:centerindex", mag / w > 1e5 || g.indexAt(c) == i, "the centre of a cell lies in another cell, width ", w);
        dBox<D, P> none; none.low = none.high = v;
        auto s = randomSphere<D, P>(r, pts, none, ext, w);
        int want = cellMeets<D, P>(i, w, s, tol);
        bool got = lb::intersectsWith<D, P, int64_t>(g, s, i);
        if (want) VT_CHECK("grid:intersects", got == (want > 0), "intersectsWith says ", got, " sphere radius ", s.radius, " width ", w);
        mark(got);
        ctx().eval();
    }
}

template <uint D, typename P> void trees(const std::vector<std::array<P, D>> &pts, Rng &r, double ext) {
    P w = cellWidth<P>(r, ext, magnitude<D, P>(pts, (P)0));
    lb::Grid<D, P> g(w);
    LD mag = magnitude<D, P>(pts, w), tol = 8 * std::numeric_limits<P>::epsilon() * mag;
    size_t n = r.chance(1, 6) ? 1 : r.range(1, pts.size());
    dBox<D, P> b; for (uint d = 0; d < D; ++d) { b.low[d] = b.high[d] = pts[0][d]; }
    for (size_t i = 0; i < n; ++i) for (uint d = 0; d < D; ++d) { b.low[d] = std::min(b.low[d], pts[i][d]); b.high[d] = std::max(b.high[d], pts[i][d]); }
    bool corners = r.chance(1, 3);
    std::set<Cell<D>> cells;
    std::vector<Cell<D>> order;
    for (size_t i = 0; i < n; ++i) {
        dVector<D, P> v; for (uint d = 0; d < D; ++d) v[d] = corners && r.chance(1, 10) ? (r.chance(1, 2) ? b.low[d] : b.high[d]) : pts[i][d];
        order.push_back(g.indexAt(v));
        cells.insert(order.back());
    }
    for (size_t i = order.size(); i > 1; --i) if (r.chance(1, 2)) std::swap(order[i - 1], order[r.below(i)]);
    AABBTree<D, P> t(b, w);
    for (auto &c : order) VT_CHECK("aabb:insert", t.insert(g.boundsOf(c)), "a cell inside the bounds was refused, width ", w);
    ctx().maxi("aabb_cells", cells.size());
    AABBTree<D, P> copy(t);
    AABBTree<D, P> tmp(t);
    AABBTree<D, P> moved(std::move(tmp));
    if (r.chance(1, 2)) { dBox<D, P> z; z.low.fill(0); z.high.fill(1); AABBTree<D, P> other(z, w); AABBTree<D, P> src(t); other = std::move(src); copy = std::move(other); }
    lb::GridIntersectionChecker<D, P> gic(b, g, cells.begin(), cells.end());
    auto gcopy = gic.copy();
    VT_CHECK("gic:bounds", gic.bounds().low == b.low && gic.bounds().high == b.high && gcopy->bounds().low == b.low && gcopy->bounds().high == b.high, "bounds() of a grid checker");
    VT_CHECK("gic:cells", (std::multiset<Cell<D>>(gic.cellsBegin(), gic.cellsEnd()) == std::multiset<Cell<D>>(cells.begin(), cells.end())) && gic.grid().cellWidth() == w, "cells of a grid checker");
    dSimplex<D, P> none;
    for (int k = 0; k < 20; ++k) {
        auto s = randomSphere<D, P>(r, pts, b, ext, w);
        std::set<Cell<D>> yes, maybe;
        for (auto &c : cells) { int m = cellMeets<D, P>(c, w, s, tol); if (m > 0) yes.insert(c); if (m >= 0) maybe.insert(c); }
        auto judge = [&](const char *who, bool got) {
            if (!yes.empty() || maybe.empty())
                VT_CHECK(str("aabb:intersects:", who), got == !yes.empty(), who, " says ", got, " but ", yes.size(), " of ", cells.size(), " cells meet the sphere, radius ", s.radius, " width ", w);
        };
        judge("tree", t.intersects(s)); judge("copy", copy.intersects(s)); judge("moved", moved.intersects(s));
        judge("checker", gic.intersects(s, none)); judge("checkercopy", gcopy->intersects(s, none));
        auto list = [&](const char *who, const std::vector<Cell<D>> &v) {
            std::set<Cell<D>> q(v.begin(), v.end());
            VT_CHECK(str("aabb:cells:", who), q.size() == v.size() && std::includes(maybe.begin(), maybe.end(), q.begin(), q.end()) && std::includes(q.begin(), q.end(), yes.begin(), yes.end()),
                     who, ": ", v.size(), " cells listed, ", yes.size(), "..", maybe.size(), " of ", cells.size(), " meet the sphere, radius ", s.radius, " width ", w);
        };
        list("tree", t.intersectingCells(s)); list("copy", copy.intersectingCells(s)); list("moved", moved.intersectingCells(s)); list("checker", gic.intersectingCells(s));
        mark(yes.size());
        ctx().eval();
    }
}


template <uint D, typename P> void makers(const std::vector<std::array<P, D>> &pts, Rng &r, double ext) {
    auto ps = toPoints<D, P>(pts);
    for (uint k = 0; k < dPoint<D, P>::nINF; ++k) {
        dPoint<D, P> q; for (uint d = 0; d < D; ++d) q.coords[d] = (P)(pts[0][d] + ((k >> d) & 1 ? 4 : -4) * ext);
        ps[dPoint<D, P>::cINF + k] = q;
    }
    LBConf conf; conf.checker = r.below(3); conf.cellWidth = cellWidth<P>(r, ext, magnitude<D, P>(pts, (P)0));
    auto maker = makeMaker<D, P>(conf);
    const char *mk = CHECKERS[conf.checker];
    P w = (P)conf.cellWidth;
    LD mag = magnitude<D, P>(pts, w), tol = 16 * std::numeric_limits<P>::epsilon() * mag;
    Point_Ids ids;
    bool all = r.chance(1, 2), inf = r.chance(1, 2);
    std::vector<tIdType> fin;
    for (tIdType i = 1; i < ps.finite_size(); ++i) if (all || r.chance(1, 2)) { ids.insert(i); fin.push_back(i); }
    if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.insert(k);
    size_t np = r.range(1, 9);
    int how = r.below(4); uint ax = r.below(D); uint64_t salt = r.next();
    double lo = 1e300, hi = -1e300; for (auto &p : pts) { lo = std::min<double>(lo, p[ax]); hi = std::max<double>(hi, p[ax]); }
    auto assign = [&](tIdType i) -> size_t {
        switch (how) {
        case 0: return mix(i ^ salt) % np;
        case 1: return std::min<size_t>(np - 1, (size_t)((ps[i].coords[ax] - lo) / (hi - lo + 1e-300) * np));
        case 2: return mix(i ^ salt) % 5 == 0 ? mix(i * 3 + salt) % np : std::min<size_t>(np - 1, (size_t)((ps[i].coords[ax] - lo) / (hi - lo + 1e-300) * np));
        default: return np - 1 - (mix(i ^ salt) % np) / 2; // leaves partitions empty
        }
    };
    std::atomic<uint64_t> calls{0};
    std::vector<lb::IntersectionPartition<D, P>> parts;
    { auto moved = maker; parts = moved(ps, ids, np, [&](tIdType i) { ++calls; return assign(i); }); }
    VT_CHECK("maker:count", parts.size() == np, mk, ": ", parts.size(), " partitions instead of ", np);
    if (parts.size() != np) return;
    std::vector<std::set<tIdType>> want(np);
    for (auto i : fin) want[assign(i)].insert(i);
    for (size_t q = 0; q < np; ++q) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) want[q].insert(k);
    for (size_t q = 0; q < np; ++q) {
        std::set<tIdType> got; size_t m = 0;
        for (auto i : parts[q].pointIds) { got.insert(i); ++m; }
        VT_CHECK(str("maker:ids:", mk), got == want[q] && m == got.size() && parts[q].pointIds.size() == m, mk, ": partition ", q, " of ", np, " has ", m, " ids (", got.size(), " distinct), expected ", want[q].size());
        VT_CHECK(str("maker:checker:", mk), parts[q].intersectionChecker != nullptr, mk, ": partition ", q, " has no checker");
        if (!parts[q].intersectionChecker) return;
    }
    ctx().count(str("maker_", mk));
    std::vector<std::unique_ptr<lb::IntersectionChecker<D, P>>> copies;
    for (auto &p : parts) copies.push_back(p.intersectionChecker->copy());
    bool useCopy = r.chance(1, 3);
    lb::Grid<D, P> g(w);
    std::vector<std::vector<tIdType>> fp(np); std::vector<std::set<Cell<D>>> cells(np); std::vector<dBox<D, P>> tight(np);
    for (size_t q = 0; q < np; ++q) {
        for (auto i : want[q]) if (dPoint<D, P>::isFinite(i)) fp[q].push_back(i);
        if (fp[q].empty()) continue;
        tight[q].low = tight[q].high = ps[fp[q][0]].coords;
        for (auto i : fp[q]) {
            cells[q].insert(g.indexAt(ps[i].coords));
            for (uint d = 0; d < D; ++d) { tight[q].low[d] = std::min(tight[q].low[d], ps[i].coords[d]); tight[q].high[d] = std::max(tight[q].high[d], ps[i].coords[d]); }
        }
        auto &b = parts[q].intersectionChecker->bounds(); auto &b2 = copies[q]->bounds();
        VT_CHECK(str("maker:bounds:", mk), b.low == tight[q].low && b.high == tight[q].high && b2.low == b.low && b2.high == b.high, mk, ": bounds() of partition ", q, " are not the bounding box of its points");
    }
    std::vector<std::array<P, D>> fpts; for (auto i : fin) { std::array<P, D> a; for (uint d = 0; d < D; ++d) a[d] = ps[i].coords[d]; fpts.push_back(a); }
    if (fpts.empty()) return;
    dBox<D, P> box; box.low = box.high = fpts[0];
    for (auto &p : fpts) for (uint d = 0; d < D; ++d) { box.low[d] = std::min(box.low[d], p[d]); box.high[d] = std::max(box.high[d], p[d]); }
    for (int k = 0; k < 25; ++k) {
        dSimplex<D, P> s; dSphere<D, P> sp;
        bool accurate = conf.checker == 1;
        if (accurate || r.chance(1, 3)) {
            // neighbouring points by id or by a common random subset: small and large simplices
            if (ps.finite_size() < D + 3) return;
            std::set<tIdType> vs;
            tIdType base = 1 + r.below(ps.finite_size() - 1);
            while (vs.size() < D + 1) {
                tIdType v = r.chance(1, 2) ? 1 + (base + r.below(12)) % (ps.finite_size() - 1) : 1 + r.below(ps.finite_size() - 1);
                vs.insert(v);
            }
            std::copy(vs.begin(), vs.end(), s.vertices.begin());
            if (flat(ps, s)) continue;
            sp = s.circumsphere(ps);
        } else sp = randomSphere<D, P>(r, fpts, box, ext, w);
        for (size_t q = 0; q < np; ++q) {
            auto &ck = useCopy ? *copies[q] : *parts[q].intersectionChecker;
            bool got = ck.intersects(sp, s);
            ctx().eval();
            if (fp[q].empty()) { if (!accurate && conf.checker == 0) VT_CHECK("maker:empty:grid", !got, "a partition without finite points meets a sphere"); continue; }
            // safety: a point of the partition well inside the sphere (accurate: in or on the circumsphere, in a cell meeting the sphere) is never missed
            bool inside = false, any = false;
            for (auto i : fp[q]) {
                dBox<D, P> pb; pb.low = pb.high = ps[i].coords;
                if (accurate) { if (sideOf(ps, s, ps[i]) >= 0 && cellMeets<D, P>(g.indexAt(ps[i].coords), w, sp, tol) > 0) inside = true; }
                else if (meets<D, P>(pb, sp, tol) > 0) inside = true;
            }
            if (inside) { VT_CHECK(str("maker:missed:", mk), got, mk, ": partition ", q, " of ", np, " has a point inside the sphere (radius ", sp.radius, ", width ", w, ") but the checker says no"); ctx().count(str("inside_", mk)); }
            // precision
            if (conf.checker == 2) { int m = meets<D, P>(tight[q], sp, tol); if (m) VT_CHECK("maker:exact:box", got == (m > 0), "box checker says ", got); }
            else if (conf.checker == 0) {
                bool yes = false, maybe = false;
                for (auto &c : cells[q]) { int m = cellMeets<D, P>(c, w, sp, tol); yes |= m > 0; maybe |= m >= 0; }
                if (yes || !maybe) VT_CHECK("maker:exact:grid", got == yes, "grid checker says ", got, " for ", cells[q].size(), " cells");
            } else if (got) {
                for (auto i : ids) if (sideOf(ps, s, ps[i]) >= 0) { any = true; break; }
                VT_CHECK("maker:exact:accurate", any, "accurate checker says yes but no point lies in or on the circumsphere");
            }
            mark(got);
            ctx().count(got ? str("yes_", mk) : str("no_", mk));
        }
    }
}

template <uint D, typename P> void planes(const std::vector<std::array<P, D>> &pts, Rng &r, double ext) {
    dVector<D, P> nrm; LD l = 0;
    for (auto &x : nrm) { x = (P)(r.chance(1, 4) ? 0 : r.normal()); l += (LD)x * x; }
    if (l == 0) { nrm[0] = 1; l = 1; }
    for (auto &x : nrm) x = (P)(x / std::sqrt(l));
    auto &on = pts[r.below(pts.size())];
    LD off = 0; for (uint d = 0; d < D; ++d) off += (LD)nrm[d] * on[d];
    P offset = (P)(off + ext * 0.2 * r.normal());
    dBox<D, P> box; box.low = box.high = pts[0];
    for (auto &p : pts) for (uint d = 0; d < D; ++d) { box.low[d] = std::min(box.low[d], p[d]); box.high[d] = std::max(box.high[d], p[d]); }
    lb::HyperplaneIntersectionChecker<D, P> h(box, nrm, offset);
    auto cp = h.copy();
    VT_CHECK("plane:bounds", h.bounds().low == box.low && cp->bounds().high == box.high, "bounds() of a half-space checker");
    LD mag = magnitude<D, P>(pts, (P)1);
    dSimplex<D, P> none;
    for (int k = 0; k < 30; ++k) {
        auto s = randomSphere<D, P>(r, pts, box, ext, (P)(ext / 20));
        LD d = -(LD)offset; for (uint i = 0; i < D; ++i) d += (LD)nrm[i] * s.center[i];
        LD tol = 32 * std::numeric_limits<P>::epsilon() * (mag + std::fabs((LD)offset) + std::fabs(d) + (std::isinf(s.radius) ? 0 : (LD)s.radius));
        bool got = (k & 1) ? h.intersects(s, none) : cp->intersects(s, none);
        LD m = d + s.radius;
        if (std::fabs(m) > tol) VT_CHECK("plane:intersects", got == (m > 0), "half-space checker says ", got, ", centre at signed distance ", (double)d, ", radius ", s.radius);
        mark(got); ctx().eval();
    }
}

template <uint D, typename P> void one(long c, Rng &r) {
    int fam = r.below(F_COUNT); size_t n = r.chance(1, 5) ? r.range(1, 8) : r.range(5, 250);
    dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    if (pts.empty()) return;
    if (r.chance(1, 8)) for (auto &p : pts) for (auto &x : p) x = (P)std::floor(x); // points on grid lines, duplicates
    double ext = 1e-3; for (uint d = 0; d < D; ++d) ext = std::max<double>(ext, box.high[d] - box.low[d]);
    int what = r.below(10);
    ctx().begin(c, str(D, "D ", sizeof(P) == 4 ? "float " : "double ", FAMILIES[fam], " n=", pts.size(), " what=", what));
    trace = 0;
    guarded("lbgeo", [&] {
        if (what < 1) grids<D, P>(pts, r, ext);
        else if (what < 2) planes<D, P>(pts, r, ext);
        else if (what < 5) trees<D, P>(pts, r, ext);
        else makers<D, P>(pts, r, ext);
        ctx().nontrivial(mix(trace ^ ((uint64_t)what << 40) ^ pts.size()));
    });
}
int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "2000").c_str());
    tbb::global_control gc(tbb::global_control::max_allowed_parallelism, atoi(C.opt("conc", "4").c_str()));
    for (long c = 0; c < reps; ++c) {
        Rng r(C.seed, c, 909);
        if (!C.runs(c)) continue;
        uint64_t k = r.below(8);
        if (k < 3) one<2, double>(c, r); else if (k < 6) one<3, double>(c, r); else if (k < 7) one<2, float>(c, r); else one<3, float>(c, r);
    }
    return C.finish();
}
