// Oracle over a finished triangulation: compares with an independent Delaunay triangulation computed by
// stock CGAL (no code of the repository) and checks the simplex graph structurally.
#pragma once
#include "Geometry.h"
#include "vt.h"
#include <CGAL/Exact_predicates_inexact_constructions_kernel.h>
#include <CGAL/Delaunay_triangulation_2.h>
#include <CGAL/Delaunay_triangulation_3.h>
#include <CGAL/Triangulation_vertex_base_with_info_2.h>
#include <CGAL/Triangulation_vertex_base_with_info_3.h>
#include <CGAL/Triangulation_cell_base_3.h>

namespace vt {
typedef CGAL::Exact_predicates_inexact_constructions_kernel RK;
// the log level must not matter to a triangulation
inline const char *randomLogLevel(uint64_t seed, long c, size_t n) {
    vt::Rng r(seed, c, 911);
    int k = r.below(10);
    if (k == 9 && n > 1000) k = 8; // logs every step
    LOGGER.setLogLevel(k < 6 ? Logger::Verbosity::NORMAL : k < 8 ? Logger::Verbosity::SILENT : k < 9 ? Logger::Verbosity::VERBOSE : Logger::Verbosity::PROLIX);
    return k < 6 ? "normal" : k < 8 ? "silent" : k < 9 ? "verbose" : "prolix";
}
template <uint D> using Verts = std::array<tIdType, D + 1>;

template <uint D, typename P> struct Ref;
template <typename P> struct Ref<2, P> {
    typedef CGAL::Triangulation_vertex_base_with_info_2<tIdType, RK> Vb;
    typedef CGAL::Triangulation_data_structure_2<Vb> Tds;
    typedef CGAL::Delaunay_triangulation_2<RK, Tds> T;
    static std::vector<Verts<2>> run(const dPoints<2, P> &ps, const std::vector<tIdType> &ids) {
        T t; std::vector<std::pair<typename T::Point, tIdType>> v;
        for (auto i : ids) v.emplace_back(typename T::Point(ps[i].coords[0], ps[i].coords[1]), i);
        t.insert(v.begin(), v.end());
        std::vector<Verts<2>> r;
        for (auto f = t.finite_faces_begin(); f != t.finite_faces_end(); ++f) {
            Verts<2> a; for (int k = 0; k < 3; ++k) a[k] = f->vertex(k)->info();
            std::sort(a.begin(), a.end()); r.push_back(a);
        }
        std::sort(r.begin(), r.end()); return r;
    }
};
template <typename P> struct Ref<3, P> {
    typedef CGAL::Triangulation_vertex_base_with_info_3<tIdType, RK> Vb;
    typedef CGAL::Triangulation_data_structure_3<Vb, CGAL::Delaunay_triangulation_cell_base_3<RK>> Tds;
    typedef CGAL::Delaunay_triangulation_3<RK, Tds> T;
    static std::vector<Verts<3>> run(const dPoints<3, P> &ps, const std::vector<tIdType> &ids) {
        T t; std::vector<std::pair<typename T::Point, tIdType>> v;
        for (auto i : ids) v.emplace_back(typename T::Point(ps[i].coords[0], ps[i].coords[1], ps[i].coords[2]), i);
        t.insert(v.begin(), v.end());
        std::vector<Verts<3>> r;
        for (auto f = t.finite_cells_begin(); f != t.finite_cells_end(); ++f) {
            Verts<3> a; for (int k = 0; k < 4; ++k) a[k] = f->vertex(k)->info();
            std::sort(a.begin(), a.end()); r.push_back(a);
        }
        std::sort(r.begin(), r.end()); return r;
    }
};

template <uint D, typename P> std::vector<tIdType> allIds(const dPoints<D, P> &ps, bool inf = true) {
    std::vector<tIdType> ids;
    for (size_t i = 1; i < ps.finite_size(); ++i) ids.push_back(i);
    if (inf) for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k) ids.push_back(dPoint<D, P>::cINF + k);
    return ids;
}

// the artificial bounding points must strictly enclose the input, one per corner
template <uint D, typename P>
void checkEnclosed(const std::string &key, const dPoints<D, P> &ps) {
    for (uint d = 0; d < D; ++d) {
        P lo = std::numeric_limits<P>::max(), hi = std::numeric_limits<P>::lowest();
        for (size_t i = 1; i < ps.finite_size(); ++i) { lo = std::min(lo, ps[i].coords[d]); hi = std::max(hi, ps[i].coords[d]); }
        for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k) {
            P x = ps[dPoint<D, P>::cINF + k].coords[d];
            if (!((k & (1u << d)) ? x > hi : x < lo)) {
                ctx().violation(key + ":enclosure", str("bounding point ", k, " has coordinate ", x, " in dim ", d, " but the input spans [", lo, ",", hi, "]"));
                return;
            }
        }
    }
}

template <uint D, typename P>
uint64_t digest(const std::vector<Verts<D>> &v) { uint64_t h = 14695981039346656037ULL; for (auto &a : v) h = fnv(a.data(), sizeof a, h); return h; }

// structural and reference check; returns the sorted simplex list
template <uint D, typename P>
std::vector<Verts<D>> checkTriangulation(const std::string &key, const dSimplices<D, P> &dt, const dPoints<D, P> &ps,
                                         const std::vector<tIdType> &ids, const std::vector<Verts<D>> *refIn = nullptr) {
    typedef dSimplex<D, P> S;
    std::vector<const S *> s;
    for (const auto &x : dt) s.push_back(&x);
    std::vector<Verts<D>> mine; mine.reserve(s.size());
    std::map<tIdType, size_t> byId;
    uint hint = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        const S &x = *s[i];
        if (!S::isFinite(x.id)) { ctx().violation(key + ":iteration", "iteration yields a deleted simplex"); continue; }
        if (!byId.emplace(x.id, i).second) ctx().violation(key + ":dupid", str("simplex id ", x.id, " occurs twice"));
        if (!dt.contains(x.id, hint)) ctx().violation(key + ":contains", str("iterated simplex ", x.id, " is not contained"));
        for (uint d = 0; d < D; ++d)
            if (!(x.vertices[d] < x.vertices[d + 1])) { ctx().violation(key + ":unsorted", str("vertices of simplex ", x.id, " not ascending")); break; }
        S c = x; 
        if (c.genFingerprint() != x.fingerprint()) ctx().violation(key + ":fingerprint", str("stale fingerprint of simplex ", x.id));
        mine.push_back(x.vertices);
    }
    std::vector<Verts<D>> sorted = mine;
    for (auto &a : sorted) std::sort(a.begin(), a.end());
    std::sort(sorted.begin(), sorted.end());
    std::vector<Verts<D>> refOwn;
    if (!refIn) { refOwn = Ref<D, P>::run(ps, ids); refIn = &refOwn; }
    const auto &ref = *refIn;
    if (sorted != ref) {
        std::vector<Verts<D>> miss, extra;
        std::set_difference(ref.begin(), ref.end(), sorted.begin(), sorted.end(), std::back_inserter(miss));
        std::set_difference(sorted.begin(), sorted.end(), ref.begin(), ref.end(), std::back_inserter(extra));
        std::ostringstream o;
        o << "simplex set differs from the Delaunay triangulation: " << miss.size() << " missing, " << extra.size() << " extra (of " << ref.size() << ")";
        auto show = [&](const char *n, const std::vector<Verts<D>> &v) { if (!v.empty()) { o << " " << n << " ["; for (auto x : v[0]) o << (dPoint<D, P>::isFinite(x) ? (long long)x : -(long long)(~x) - 1) << " "; o << "]"; } };
        show("first missing", miss); show("first extra", extra);
        ctx().violation(key + ":simplices", o.str());
    }
    // neighbours: opposite facet
    std::map<std::array<tIdType, D>, std::vector<std::pair<size_t, uint>>> faces;
    for (size_t i = 0; i < s.size(); ++i)
        for (uint d = 0; d < D + 1; ++d) {
            std::array<tIdType, D> f; for (uint k = 0, j = 0; k < D + 1; ++k) if (k != d) f[j++] = s[i]->vertices[k];
            faces[f].emplace_back(i, d);
        }
    size_t bad = 0;
    for (auto &f : faces) {
        auto &v = f.second;
        if (v.size() > 2) { if (!bad++) ctx().violation(key + ":facet", str("a facet is shared by ", v.size(), " simplices")); continue; }
        tIdType want0 = v.size() == 2 ? s[v[1].first]->id : S::cINF;
        if (s[v[0].first]->neighbors[v[0].second] != want0 && !bad++)
            ctx().violation(key + ":neighbor", str("simplex ", s[v[0].first]->id, " neighbor slot ", v[0].second, " is ", s[v[0].first]->neighbors[v[0].second], ", facet is shared with ", want0));
        if (v.size() == 2 && s[v[1].first]->neighbors[v[1].second] != s[v[0].first]->id && !bad++)
            ctx().violation(key + ":neighbor", str("simplex ", s[v[1].first]->id, " neighbor slot ", v[1].second, " is ", s[v[1].first]->neighbors[v[1].second], ", facet is shared with ", s[v[0].first]->id));
    }
    // hull list
    std::map<tIdType, int> hull;
    for (auto id : dt.convexHull) ++hull[id];
    size_t inf = 0; bad = 0;
    for (auto *x : s) {
        bool isInf = false; for (auto v : x->vertices) isInf |= !dPoint<D, P>::isFinite(v);
        inf += isInf;
        if (isInf != (hull.count(x->id) > 0) && !bad++) ctx().violation(key + ":hull", str("simplex ", x->id, isInf ? " touches a bounding point but is not in the hull list" : " is in the hull list but finite"));
    }
    for (auto &h : hull) if (!byId.count(h.first) && !bad++) ctx().violation(key + ":hull", str("hull list names absent simplex ", h.first));
    for (auto &h : hull) if (h.second != 1 && !bad++) ctx().violation(key + ":hulldup", str("hull list names simplex ", h.first, " ", h.second, " times"));
    ctx().count("simplices_checked", s.size());
    ctx().count("facets_checked", faces.size());
    ctx().count("hull_simplices", inf);
    return sorted;
}
} // namespace vt
