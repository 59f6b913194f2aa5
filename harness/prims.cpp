// C06: boxes, circumspheres, point location, distances and box helpers against high-precision arithmetic.
#include "points.h"
#include "tri_oracle.h"
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/serialization/vector.hpp>
#include "load_balancing/BoxUtils.h"
using namespace vt;
typedef boost::multiprecision::number<boost::multiprecision::cpp_bin_float<400>> R;
static uint64_t trace;

// float coordinates are multiples of 2^-24: the window in which the predicates are exact (C05)
template <typename P> P win(double x) { return sizeof(P) == 4 ? (P)(std::round((double)(P)x * 16777216) / 16777216) : (P)x; }
template <uint D, typename P> std::array<P, D> rndPt(Rng &r, int mode, P scale, P off) {
    std::array<P, D> p;
    for (auto &x : p) x = mode ? (P)((int)r.range(0, 16) - 8) : win<P>(off + scale * r.uniform(-1, 1));
    return p;
}

// -1 certainly no, +1 certainly yes, 0 too close to call; exact for small integers
template <typename P> int cmpLe(const R &a, const R &b, const R &scale, bool exact) {
    if (exact) return a <= b ? 1 : -1;
    R m = scale * R(std::numeric_limits<P>::epsilon()) * 64;
    if (a <= b - m) return 1;
    if (a >= b + m) return -1;
    return 0;
}

template <uint D, typename P> static void boxes(Rng &r) {
    int mode = (int)r.below(2); // 1: small integers, ties decided exactly
    P scale = (P)std::ldexp(1, (int)r.range(0, 12) - 6), off = r.chance(1, 2) ? 0 : (P)r.uniform(-100, 100) * scale;
    auto mkBox = [&] {
        dBox<D, P> b;
        auto x = rndPt<D, P>(r, mode, scale, off), y = rndPt<D, P>(r, mode, scale, off);
        for (uint d = 0; d < D; ++d) { b.low[d] = std::min(x[d], y[d]); b.high[d] = std::max(x[d], y[d]); }
        return b;
    };
    auto b = mkBox(), o = mkBox();
    for (int k = 0; k < 30; ++k) {
        if (r.chance(1, 10)) b = mkBox();
        auto p = rndPt<D, P>(r, mode, (P)(scale * 1.3), off);
        for (auto &x : p) if (r.chance(1, 4)) { uint d = (uint)(&x - &p[0]); x = r.chance(1, 2) ? b.low[d] : b.high[d]; if (!mode && r.chance(1, 4)) x = std::nextafter(x, (P)(r.chance(1, 2) ? 1e30 : -1e30)); }
        bool in = true;
        for (uint d = 0; d < D; ++d) in &= b.low[d] <= p[d] && p[d] <= b.high[d];
        VT_CHECK("box:contains", b.contains(p) == in, "contains point, expected ", in);
        if (r.chance(1, 2)) o = mkBox();
        else { o = b; for (uint d = 0; d < D; ++d) { if (r.chance(1, 3)) o.low[d] = (P)(b.low[d] + (b.high[d] - b.low[d]) * 0.25); if (r.chance(1, 3)) o.high[d] = (P)(b.high[d] + (r.chance(1, 2) ? 1 : -1) * (b.high[d] - b.low[d]) * 0.25); } }
        bool inside = true, eq = true;
        for (uint d = 0; d < D; ++d) { inside &= b.low[d] <= o.low[d] && o.high[d] <= b.high[d]; eq &= b.low[d] == o.low[d] && b.high[d] == o.high[d]; }
        VT_CHECK("box:containsbox", b.contains(o) == inside, "contains box, expected ", inside);
        VT_CHECK("box:equal", (b == o) == eq, "operator==, expected ", eq);
        // spheres
        dSphere<D, P> s;
        s.center = p;
        s.radius = mode ? (P)r.below(10) : (P)(scale * r.unit() * (r.chance(1, 2) ? 1 : 0.1));
        R dist = 0, gap = -1, big = 0;
        bool cin = true;
        for (uint d = 0; d < D; ++d) {
            R e = p[d] < b.low[d] ? R(b.low[d]) - R(p[d]) : p[d] > b.high[d] ? R(p[d]) - R(b.high[d]) : R(0);
            dist += e * e;
            R g = std::min(R(p[d]) - R(b.low[d]), R(b.high[d]) - R(p[d]));
            if (gap < 0 || g < gap) gap = g < 0 ? R(0) : g;
            cin &= b.low[d] <= p[d] && p[d] <= b.high[d];
            for (P x : {b.low[d], b.high[d], p[d]}) if (big < abs(R(x))) big = abs(R(x));
        }
        if (big < R(s.radius)) big = R(s.radius);
        int want = cmpLe<P>(sqrt(dist), R(s.radius), big, mode);
        if (mode) want = dist <= R(s.radius) * R(s.radius) ? 1 : -1;
        if (want) VT_CHECK("box:intersects", b.intersects(s) == (want > 0), "sphere at distance ", sqrt(dist).convert_to<double>(), " radius ", s.radius, " intersects, expected ", want > 0);
        want = !cin ? -1 : cmpLe<P>(R(s.radius), gap, big, mode);
        if (want) VT_CHECK("box:containssphere", b.contains(s) == (want > 0), "sphere of radius ", s.radius, " center ", cin ? "inside" : "outside", ", gap ", gap.convert_to<double>(), ", expected ", want > 0);
        ctx().count("box_checks", 5);
        // helpers
        uint dim = (uint)r.below(D);
        P pos = (P)(b.low[dim] + (b.high[dim] - b.low[dim]) * r.unit());
        auto sp = LoadBalancing::splitBox<D, P>(b, dim, pos);
        auto &l = std::get<0>(sp), &h = std::get<1>(sp);
        bool ok = true;
        for (uint d = 0; d < D; ++d)
            ok &= l.low[d] == b.low[d] && h.high[d] == b.high[d] && l.high[d] == (d == dim ? pos : b.high[d]) && h.low[d] == (d == dim ? pos : b.low[d]);
        VT_CHECK("box:split", ok, "splitBox halves");
        if (b.low[dim] < pos && pos < b.high[dim]) {
            VT_CHECK("box:minus", (b - l) == h && (b - h) == l, "box minus one half is not the other half");
        }
        auto e = b;
        LoadBalancing::enlargeBoxAroundVector<D, P>(e, p);
        ok = true;
        for (uint d = 0; d < D; ++d) ok &= e.low[d] == std::min(b.low[d], p[d]) && e.high[d] == std::max(b.high[d], p[d]);
        VT_CHECK("box:enlarge", ok, "enlargeBoxAroundVector");
        std::vector<dVector<D, P>> vs;
        for (size_t i = r.range(1, 9); i; --i) vs.push_back(rndPt<D, P>(r, mode, scale, off));
        auto bb = LoadBalancing::makeBoundingBox(vs.begin(), vs.end());
        ok = true;
        for (uint d = 0; d < D; ++d) {
            P lo = vs[0][d], hi = lo;
            for (auto &v : vs) { lo = std::min(lo, v[d]); hi = std::max(hi, v[d]); }
            ok &= bb.low[d] == lo && bb.high[d] == hi;
        }
        VT_CHECK("box:bounding", ok, "makeBoundingBox");
        {
            auto toBox = LoadBalancing::vecToBox<D, P>(p, b);
            auto toB = LoadBalancing::vecToBoxBoundary<D, P>(p, b);
            R d2 = 0, b2 = 0;
            for (uint d = 0; d < D; ++d) { d2 += R(toBox[d]) * R(toBox[d]); b2 += R(toB[d]) * R(toB[d]); }
            R tol = big * R(std::numeric_limits<P>::epsilon()) * 64;
            VT_CHECK("box:vectobox", abs(sqrt(d2) - sqrt(dist)) <= tol, "vecToBox has length ", sqrt(d2).convert_to<double>(), ", distance ", sqrt(dist).convert_to<double>());
            R wb = cin ? gap : sqrt(dist);
            VT_CHECK("box:vectoboundary", abs(sqrt(b2) - wb) <= tol, "vecToBoxBoundary has length ", sqrt(b2).convert_to<double>(), ", distance to the boundary ", wb.convert_to<double>());
        }
        trace = mix(trace ^ (uint64_t)(in + 2 * inside + 4 * cin + 8 * (want + 1)));
    }
}

template <uint D, typename P> bool solveCircum(const std::vector<std::array<P, D>> &s, std::array<R, D> &c, R &rad, R &det) {
    R A[3][4];
    for (uint i = 0; i < D; ++i) {
        A[i][D] = 0;
        for (uint d = 0; d < D; ++d) { A[i][d] = R(s[i + 1][d]) - R(s[0][d]); A[i][D] += A[i][d] * A[i][d] / 2; }
    }
    if constexpr (D == 2) det = A[0][0] * A[1][1] - A[0][1] * A[1][0]; // exact: no division
    else det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
    if (det == 0) return false;
    for (uint i = 0; i < D; ++i) {
        uint pv = i;
        for (uint k = i; k < D; ++k) if (abs(A[k][i]) > abs(A[pv][i])) pv = k;
        for (uint d = 0; d <= D; ++d) std::swap(A[i][d], A[pv][d]);
        for (uint k = 0; k < D; ++k) if (k != i) { R f = A[k][i] / A[i][i]; for (uint d = i; d <= D; ++d) A[k][d] -= f * A[i][d]; }
    }
    rad = 0;
    for (uint d = 0; d < D; ++d) { R u = A[d][D] / A[d][d]; rad += u * u; c[d] = R(s[0][d]) + u; }
    rad = sqrt(rad);
    return true;
}

template <uint D, typename P> static void simplices(Rng &r) {
    typedef dSimplex<D, P> S;
    dPoints<D, P> ps;
    std::vector<std::array<P, D>> all;
    int mode = (int)r.below(4); // 0 random, 1 integers, 2 nearly degenerate, 3 far away
    P scale = (P)std::ldexp(1, (int)r.range(0, 16) - 8), off = mode == 3 ? (P)(1000 * scale * r.uniform(-1, 1)) : 0;
    for (int k = 0; k < 25; ++k) {
        std::vector<std::array<P, D>> s;
        for (uint i = 0; i < D + 1; ++i) s.push_back(rndPt<D, P>(r, mode == 1, scale, off));
        if (mode == 2) { // last vertex close to the hyperplane through the others
            std::array<double, D> w{};
            double t = 0, wt[3];
            for (uint i = 0; i < D; ++i) t += wt[i] = r.uniform(-0.3, 1);
            if (std::abs(t) < 1e-3) t = 1;
            double eps = std::pow(10.0, -(double)r.below(sizeof(P) == 4 ? 8 : 16));
            for (uint d = 0; d < D; ++d) { for (uint i = 0; i < D; ++i) w[d] += wt[i] / t * s[i][d]; s[D][d] = win<P>(w[d] + eps * scale * r.uniform(-1, 1)); }
        }
        all.insert(all.end(), s.begin(), s.end());
        S x;
        std::vector<tIdType> idx;
        for (auto &c : s) { dPoint<D, P> p; p.coords = c; ps.emplace_back(p); idx.push_back(ps.finite_size() - 1); }
        for (size_t j = idx.size(); j > 1; --j) std::swap(idx[j - 1], idx[r.below(j)]);
        for (uint i = 0; i < D + 1; ++i) x.vertices[i] = idx[i];
        // circumsphere
        std::array<R, D> c;
        R rad, det;
        if (solveCircum<D, P>(s, c, rad, det)) {
            auto sp = x.circumsphere(ps);
            if (std::isfinite(sp.radius)) {
                R dc = 0, mag = 0;
                for (uint d = 0; d < D; ++d) { R q = R(sp.center[d]) - c[d]; dc += q * q; for (auto &v : s) if (abs(R(v[d])) > mag) mag = abs(R(v[d])); }
                VT_CHECK("sphere:encloses", sqrt(dc) + rad <= R(sp.radius), "reported radius ", sp.radius, " around a center ", sqrt(dc).convert_to<double>(), " off does not enclose the exact radius ", rad.convert_to<double>());
                R edge = 0;
                for (uint i = 0; i < D; ++i) { R e = 0; for (uint d = 0; d < D; ++d) { R q = R(s[i + 1][d]) - R(s[0][d]); e += q * q; } if (e > edge) edge = e; }
                R cond = abs(det) / (D == 2 ? edge : edge * sqrt(edge));
                if (cond > 1e-2) {
                    R slack = (rad + mag) * R(std::numeric_limits<P>::epsilon()) * 300 + rad * 1e-9;
                    VT_CHECK("sphere:tight", R(sp.radius) <= rad + slack, "reported radius ", sp.radius, " for a well-shaped simplex of exact radius ", rad.convert_to<double>());
                    ctx().count("spheres_tight");
                }
                ctx().count("spheres_finite");
            } else {
                R edge = 0;
                for (uint i = 0; i < D; ++i) { R e = 0; for (uint d = 0; d < D; ++d) { R q = R(s[i + 1][d]) - R(s[0][d]); e += q * q; } if (e > edge) edge = e; }
                VT_CHECK("sphere:infinite", abs(det) / (D == 2 ? edge : edge * sqrt(edge)) < 1e-6, "infinite circumsphere of a well-shaped simplex");
                ctx().count("spheres_infinite");
            }
            // the predicate entry points use the simplex's own vertices
            dPoint<D, P> q;
            q.coords = rndPt<D, P>(r, mode == 1, scale, off);
            R dq = 0;
            for (uint d = 0; d < D; ++d) { R t = R(q.coords[d]) - c[d]; dq += t * t; }
            dq = sqrt(dq);
            R m = rad * 1e-60;
            if (dq < rad - m) VT_CHECK("simplex:insphere", x.inSphere(q, ps) && x.inSphere(q, ps, true), "point strictly inside the circumsphere not reported");
            if (dq > rad + m) VT_CHECK("simplex:insphere", !x.inSphere(q, ps) && !x.inSphere(q, ps, true), "point strictly outside the circumsphere reported");
            uint vi = (uint)r.below(D + 1);
            VT_CHECK("simplex:insphere-vertex", x.inSphere(ps[x.vertices[vi]], ps) && !x.inSphere(ps[x.vertices[vi]], ps, true), "a vertex lies on the circumsphere: inside when not strict, outside when strict");
            // inSimplex, distances: well-shaped simplices only
            R edge = 0;
            for (uint i = 0; i < D; ++i) { R e = 0; for (uint d = 0; d < D; ++d) { R t = R(s[i + 1][d]) - R(s[0][d]); e += t * t; } if (e > edge) edge = e; }
            if (abs(det) / (D == 2 ? edge : edge * sqrt(edge)) > 0.05 && mode != 3) {
                // barycentric coordinates chosen, point computed
                double w[4], t = 0, mn = 1;
                bool out = r.chance(1, 2);
                for (uint i = 0; i < D + 1; ++i) t += w[i] = out ? r.uniform(-1, 1) : r.uniform(0.02, 1);
                if (std::abs(t) > 0.2) {
                    dPoint<D, P> p;
                    for (uint i = 0; i < D + 1; ++i) { w[i] /= t; mn = std::min(mn, w[i]); }
                    for (uint d = 0; d < D; ++d) { double y = 0; for (uint i = 0; i < D + 1; ++i) y += w[i] * s[i][d]; p.coords[d] = (P)y; }
                    if (mn > 0.01) VT_CHECK("simplex:in", x.inSimplex(p, ps), "interior point (smallest weight ", mn, ") reported outside");
                    if (mn < -0.01) VT_CHECK("simplex:out", !x.inSimplex(p, ps), "exterior point (smallest weight ", mn, ") reported inside");
                    ctx().count(mn > 0.01 ? "interior" : "exterior");
                    // squared distance to each facet's hyperplane
                    for (uint k2 = 0; k2 < D + 1; ++k2) {
                        std::vector<std::array<R, D>> f;
                        for (uint i = 0; i < D + 1; ++i) if (i != k2) { std::array<R, D> z; for (uint d = 0; d < D; ++d) z[d] = R(ps[x.vertices[i]].coords[d]); f.push_back(z); }
                        std::array<R, D> n;
                        if constexpr (D == 2) { n[0] = f[1][1] - f[0][1]; n[1] = f[0][0] - f[1][0]; }
                        else for (uint d = 0; d < 3; ++d) { uint a = (d + 1) % 3, b = (d + 2) % 3; n[d] = (f[1][a] - f[0][a]) * (f[2][b] - f[0][b]) - (f[1][b] - f[0][b]) * (f[2][a] - f[0][a]); }
                        R nn = 0, dd = 0;
                        for (uint d = 0; d < D; ++d) { nn += n[d] * n[d]; dd += n[d] * (R(p.coords[d]) - f[0][d]); }
                        if (nn == 0) continue;
                        R wd = dd * dd / nn, far = edge + wd;
                        P got = x.sqDistanceToFace(k2, p, ps);
                        VT_CHECK("simplex:facedistance", abs(R(got) - wd) <= far * R(std::numeric_limits<P>::epsilon()) * 4000, "squared distance to facet ", k2, " is ", got, ", exact ", wd.convert_to<double>());
                        ctx().count("face_distances");
                    }
                }
            }
        } else { VT_CHECK("sphere:degenerate", !(x.circumsphere(ps).radius < std::numeric_limits<P>::infinity()), "degenerate simplex has a finite circumsphere"); ctx().count("degenerate"); }
        // nearest vertex
        dPoint<D, P> q;
        q.coords = rndPt<D, P>(r, mode == 1, (P)(2 * scale), off);
        R best = -1, got = -1;
        tIdType nv = x.findNearestVertex(q, ps);
        R mg = 0;
        for (auto v : x.vertices) {
            R d2 = 0;
            for (uint d = 0; d < D; ++d) { R t = R(q.coords[d]) - R(ps[v].coords[d]); d2 += t * t; }
            if (best < 0 || d2 < best) best = d2;
            if (v == nv) got = d2;
            mg = std::max(mg, d2);
        }
        VT_CHECK("simplex:nearestvertex", got >= 0 && got <= best + mg * R(std::numeric_limits<P>::epsilon()) * 8, "findNearestVertex returned ", nv);
        trace = mix(trace ^ (uint64_t)(rad.convert_to<double>() * 1000));
    }
}

// point location in a triangulation
template <uint D, typename P> static void locate(Rng &r) {
    typedef dSimplex<D, P> S;
    dBox<D, P> box;
    static const int fams[] = {F_UNIFORM, F_JLATTICE, F_NORMAL, F_BUBBLE};
    auto pts = makePoints<D, P>(fams[r.below(D == 2 && sizeof(P) == 8 ? 4 : 2)], r.range(D + 1, D == 2 ? 200 : 80), r, box);
    auto ps = toPoints<D, P>(pts);
    auto tri = Ref<D, P>::run(ps, allIds<D, P>(ps, false));
    if (tri.empty()) return;
    std::vector<tIdType> ids;
    tIdType base = r.range(1, 5000);
    for (size_t i = 0; i < tri.size() + r.below(5); ++i) ids.push_back(base + i);
    size_t slots = ids.size();
    for (size_t j = ids.size(); j > 1; --j) std::swap(ids[j - 1], ids[r.below(j)]);
    dSimplices<D, P> dt(base, base + slots, 1);
    std::map<std::array<tIdType, D>, std::vector<size_t>> faces;
    for (size_t i = 0; i < tri.size(); ++i) for (uint k = 0; k < D + 1; ++k) { std::array<tIdType, D> f; for (uint a = 0, b = 0; a < D + 1; ++a) if (a != k) f[b++] = tri[i][a]; faces[f].push_back(i); }
    for (size_t i = 0; i < tri.size(); ++i) {
        S s;
        s.id = ids[i];
        s.vertices = tri[i];
        for (uint k = 0; k < D + 1; ++k) {
            std::array<tIdType, D> f; for (uint a = 0, b = 0; a < D + 1; ++a) if (a != k) f[b++] = tri[i][a];
            s.neighbors[k] = S::cINF;
            for (auto o : faces[f]) if (o != i) s.neighbors[k] = ids[o];
        }
        s.genFingerprint();
        dt.unsafe_at(s.id) = s;
    }
    R ext = 0;
    for (uint d = 0; d < D; ++d) ext = std::max(ext, R(box.high[d]) - R(box.low[d]));
    for (int k = 0; k < 25; ++k) {
        size_t t = r.below(tri.size());
        double w[4], sum = 0;
        for (uint i = 0; i < D + 1; ++i) sum += w[i] = r.uniform(0.2, 1);
        dPoint<D, P> p;
        for (uint d = 0; d < D; ++d) { double y = 0; for (uint i = 0; i < D + 1; ++i) y += w[i] / sum * ps[tri[t][i]].coords[d]; p.coords[d] = (P)y; }
        bool outside = r.chance(1, 5);
        if (outside) for (uint d = 0; d < D; ++d) p.coords[d] = (P)(box.high[d] + (d + 1) * r.unit());
        tIdType hint = r.chance(1, 3) ? S::cINF : ids[r.below(tri.size())];
        tIdType got = hint == S::cINF && r.chance(1, 2) ? dt.findNearestSimplex(p, ps) : dt.findNearestSimplex(p, ps, hint);
        VT_CHECK("locate:live", dt.unsafe_contains(got), "findNearestSimplex returned ", got, ", not a simplex of the triangulation");
        if (!dt.unsafe_contains(got) || outside) { ctx().count("located_outside"); continue; }
        // p lies within (or, up to rounding, on) the simplex returned: no facet separates it
        const auto &v = dt.unsafe_at(got).vertices;
        R worst = 0;
        for (uint k2 = 0; k2 < D + 1; ++k2) {
            std::vector<std::array<R, D>> f;
            for (uint i = 0; i < D + 1; ++i) if (i != k2) { std::array<R, D> z; for (uint d = 0; d < D; ++d) z[d] = R(ps[v[i]].coords[d]); f.push_back(z); }
            std::array<R, D> n;
            if constexpr (D == 2) { n[0] = f[1][1] - f[0][1]; n[1] = f[0][0] - f[1][0]; }
            else for (uint d = 0; d < 3; ++d) { uint a = (d + 1) % 3, b = (d + 2) % 3; n[d] = (f[1][a] - f[0][a]) * (f[2][b] - f[0][b]) - (f[1][b] - f[0][b]) * (f[2][a] - f[0][a]); }
            R nn = 0, a = 0, b = 0;
            for (uint d = 0; d < D; ++d) { nn += n[d] * n[d]; a += n[d] * (R(p.coords[d]) - f[0][d]); b += n[d] * (R(ps[v[k2]].coords[d]) - f[0][d]); }
            if (nn == 0) continue;
            R sd = (b < 0 ? -a : a) / sqrt(nn); // negative: beyond this facet
            if (-sd > worst) worst = -sd;
        }
        // barycentric coordinates of slivers are inaccurate
        double shape = 1;
        for (auto &vv : {v, tri[t]}) {
            std::vector<std::array<P, D>> sv;
            for (auto q : vv) sv.push_back(ps[q].coords);
            std::array<R, D> cc;
            R rad, det, edge = 0;
            solveCircum<D, P>(sv, cc, rad, det);
            for (uint i = 0; i < D; ++i) { R e = 0; for (uint d = 0; d < D; ++d) { R q = R(sv[i + 1][d]) - R(sv[0][d]); e += q * q; } if (e > edge) edge = e; }
            shape = std::min(shape, R(abs(det) / (D == 2 ? edge : edge * sqrt(edge))).template convert_to<double>());
        }
        if (shape < (sizeof(P) == 4 ? 0.02 : 1e-5)) { ctx().count("located_in_sliver"); continue; }
        VT_CHECK("locate:contains", worst <= ext * (sizeof(P) == 4 ? 1e-2 : 1e-5), "the simplex found is ", worst.convert_to<double>(), " away from the point, which lies inside simplex ", ids[t]);
        ctx().count("located_inside");
        if (got == ids[t]) ctx().count("located_expected");
    }
    trace = mix(trace ^ tri.size());
}

int main(int argc, char **argv) {
    auto &C = ctx();
    C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "100").c_str());
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 6);
        int k = (int)r.below(12);
        static const char *nm[] = {"boxes", "simplices", "locate"};
        C.begin(c, str(nm[k / 4], k & 1 ? " 3D" : " 2D", k & 2 ? " float" : " double"));
        trace = 0;
        guarded("prims", [&] {
            switch (k) {
                case 0: boxes<2, double>(r); break; case 1: boxes<3, double>(r); break; case 2: boxes<2, float>(r); break; case 3: boxes<3, float>(r); break;
                case 4: simplices<2, double>(r); break; case 5: simplices<3, double>(r); break; case 6: simplices<2, float>(r); break; case 7: simplices<3, float>(r); break;
                case 8: locate<2, double>(r); break; case 9: locate<3, double>(r); break; case 10: locate<2, float>(r); break; default: locate<2, double>(r);
            }
        });
        C.nontrivial(trace);
    }
    return C.finish();
}
