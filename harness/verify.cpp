// C04: verify() and crossCheck() against an independent judgement of correct and damaged triangulations.
#include "points.h"
#include "tri_oracle.h"
#include <tbb/global_control.h>
using namespace vt;
static uint64_t trace;

template <uint D, typename P> struct Model {
    typedef dSimplex<D, P> S;
    typedef dSimplices<D, P> DT;
    std::map<tIdType, S> live;
    std::map<tIdType, S> removed;  // ids that were filled and then filtered out
    std::vector<tIdType> hull, gaps;
    std::vector<std::pair<tIdType, tIdType>> blocks;

    static bool inf(const S &s) { for (auto v : s.vertices) if (!dPoint<D, P>::isFinite(v)) return true; return false; }
    static int shared(const S &a, const S &b) { int n = 0; for (auto v : a.vertices) for (auto w : b.vertices) n += v == w; return n; }
    typedef std::array<tIdType, D> Face;
    static Face face(const S &s, uint d) { Face f; for (uint k = 0, j = 0; k < D + 1; ++k) if (k != d) f[j++] = s.vertices[k]; return f; }
    std::map<Face, std::vector<tIdType>> faces() const {
        std::map<Face, std::vector<tIdType>> m;
        for (auto &kv : live) for (uint d = 0; d < D + 1; ++d) m[face(kv.second, d)].push_back(kv.first);
        return m;
    }
    void connect() {
        auto fs = faces();
        for (auto &kv : live)
            for (uint d = 0; d < D + 1; ++d) {
                kv.second.neighbors[d] = S::cINF;
                for (auto o : fs[face(kv.second, d)]) if (o != kv.first && live[o].vertices != kv.second.vertices) { kv.second.neighbors[d] = o; break; }
            }
    }
    // simplices of the reference in several blocks with holes
    void build(const std::vector<Verts<D>> &tri, Rng &r, size_t extra) {
        tIdType x = r.range(1, 100000);
        size_t n = tri.size() + extra, i = 0;
        std::vector<tIdType> ids;
        while (i < n) {
            size_t k = std::min<size_t>(n - i + r.below(3), r.range(1, n));
            blocks.push_back({x, x + k});
            for (size_t j = 0; j < k; ++j) ids.push_back(x + j);
            i += k;
            x += k;
            if (r.chance(1, 2)) x += r.range(1, 1000);
        }
        for (size_t j = ids.size(); j > 1; --j) std::swap(ids[j - 1], ids[r.below(j)]);
        for (size_t j = 0; j < tri.size(); ++j) { S s; s.id = ids[j]; s.vertices = tri[j]; s.genFingerprint(); live[s.id] = s; }
        for (size_t j = tri.size(); j < ids.size(); ++j) gaps.push_back(ids[j]);
        connect();
        for (auto &kv : live) if (inf(kv.second)) hull.push_back(kv.first);
    }
    DT make(Rng &r) const {
        auto b = blocks;
        for (size_t j = b.size(); j > 1; --j) std::swap(b[j - 1], b[r.below(j)]);
        DT dt(b[0].first, b[0].second, 3);
        for (size_t j = 1; j < b.size(); ++j) dt.addBlock(b[j].first, b[j].second);
        for (auto &kv : live) dt.unsafe_at(kv.first) = kv.second;
        for (auto &kv : removed) dt.unsafe_at(kv.first) = kv.second;
        for (auto h : hull) dt.convexHull.push_back(h);
        if (!removed.empty()) { Simplex_Ids f(removed.size()); for (auto &kv : removed) f.insert(kv.first); dt.filter(f); }
        return dt;
    }
};

template <uint D, typename P> bool strictlyInside(const dPoints<D, P> &ps, const Verts<D> &s, tIdType q) {
    if constexpr (D == 2) {
        auto p = [&](tIdType i) { return RK::Point_2(ps[i].coords[0], ps[i].coords[1]); };
        if (CGAL::orientation(p(s[0]), p(s[1]), p(s[2])) == CGAL::COLLINEAR) return false;
        return CGAL::side_of_bounded_circle(p(s[0]), p(s[1]), p(s[2]), p(q)) == CGAL::ON_BOUNDED_SIDE;
    } else {
        auto p = [&](tIdType i) { return RK::Point_3(ps[i].coords[0], ps[i].coords[1], ps[i].coords[2]); };
        if (CGAL::orientation(p(s[0]), p(s[1]), p(s[2]), p(s[3])) == CGAL::COPLANAR) return false;
        return CGAL::side_of_bounded_sphere(p(s[0]), p(s[1]), p(s[2]), p(s[3]), p(q)) == CGAL::ON_BOUNDED_SIDE;
    }
}

template <uint D, typename P> struct Expect {
    bool points = true, hull = true;
    std::set<std::pair<tIdType, tIdType>> dup;
    std::set<tIdType> wrong; // simplices with a wrong neighbor list
    std::map<tIdType, std::set<tIdType>> inCircle;
    bool valid() const { return points && hull && dup.empty() && wrong.empty() && inCircle.empty(); }
};
template <uint D, typename P> Expect<D, P> judge(const Model<D, P> &m, const dPoints<D, P> &ps, const std::set<tIdType> &ids) {
    typedef dSimplex<D, P> S;
    Expect<D, P> e;
    std::set<tIdType> used;
    for (auto &kv : m.live) used.insert(kv.second.vertices.begin(), kv.second.vertices.end());
    for (auto i : ids) if (dPoint<D, P>::isFinite(i) && !used.count(i)) e.points = false;
    for (auto i : used) if (dPoint<D, P>::isFinite(i) && !ids.count(i)) e.points = false;
    std::set<tIdType> h(m.hull.begin(), m.hull.end());
    for (auto &kv : m.live) if (m.inf(kv.second) != (h.count(kv.first) > 0)) e.hull = false;
    std::map<Verts<D>, std::vector<tIdType>> byV;
    for (auto &kv : m.live) byV[kv.second.vertices].push_back(kv.first);
    for (auto &kv : byV) for (auto a : kv.second) for (auto b : kv.second) if (a < b) e.dup.insert({a, b});
    auto fs = m.faces();
    for (auto &kv : m.live) {
        std::set<tIdType> want, have;
        for (uint d = 0; d < D + 1; ++d) for (auto o : fs[m.face(kv.second, d)]) if (m.live.at(o).vertices != kv.second.vertices) want.insert(o);
        for (auto n : kv.second.neighbors) if (S::isFinite(n)) have.insert(n);
        if (want != have) e.wrong.insert(kv.first);
        for (auto n : have) {
            auto it = m.live.find(n);
            if (it == m.live.end()) continue;
            for (auto v : it->second.vertices)
                if (dPoint<D, P>::isFinite(v) && std::find(kv.second.vertices.begin(), kv.second.vertices.end(), v) == kv.second.vertices.end()
                    && strictlyInside<D, P>(ps, kv.second.vertices, v)) e.inCircle[kv.first].insert(v);
        }
    }
    return e;
}
template <uint D, typename P> void compare(const std::string &k, const VerificationReport<D, P> &v, const Expect<D, P> &e) {
    VT_CHECK(k + "valid", v.valid == e.valid(), "verify says ", v.valid ? "valid" : "invalid", " but points ", e.points, " hull ", e.hull, " duplicate pairs ", e.dup.size(),
             " wrong neighbor lists ", e.wrong.size(), " circle violations ", e.inCircle.size());
    std::set<std::pair<tIdType, tIdType>> d;
    for (auto &p : v.duplicates) d.insert({std::min(p.first.id, p.second.id), std::max(p.first.id, p.second.id)});
    VT_CHECK(k + "duplicates", d == e.dup, d.size(), " duplicate pairs reported, ", e.dup.size(), " exist");
    VT_CHECK(k + "wrongneighbors", v.wrongNeighbors.empty() == e.wrong.empty(), v.wrongNeighbors.size(), " wrong relations reported, ", e.wrong.size(), " simplices have a wrong list");
    for (auto &p : v.wrongNeighbors)
        VT_CHECK(k + "wrongneighbors-innocent", e.wrong.count(p.first.id) || e.wrong.count(p.second.id), "relation ", p.first.id, " - ", p.second.id, " reported, both lists are right");
    for (auto w : e.wrong) {
        bool f = false;
        for (auto &p : v.wrongNeighbors) f |= p.first.id == w || p.second.id == w;
        VT_CHECK(k + "wrongneighbors-missed", f, "the wrong neighbor list of simplex ", w, " is not reported");
    }
    std::map<tIdType, std::set<tIdType>> ic;
    for (auto &p : v.inCircle) ic[p.first.id] = p.second;
    VT_CHECK(k + "incircle", ic == e.inCircle, ic.size(), " simplices with circle violations reported, ", e.inCircle.size(), " exist");
    ctx().count(e.valid() ? "valid_triangulations" : "invalid_triangulations");
    if (!e.dup.empty()) ctx().count("with_duplicates");
    if (!e.wrong.empty()) ctx().count("with_wrong_neighbors");
    if (!e.inCircle.empty()) ctx().count("with_circle_violations");
    if (!e.points) ctx().count("with_point_violations");
    if (!e.hull) ctx().count("with_hull_violations");
    trace = mix(trace ^ e.dup.size() ^ (e.wrong.size() << 10) ^ (e.inCircle.size() << 20) ^ (e.points << 30) ^ (e.hull << 31));
}

template <uint D, typename P> void oneCase(Rng &r, int fam) {
    typedef dSimplex<D, P> S;
    dBox<D, P> box;
    size_t n = D == 2 ? r.range(4, 250) : r.range(5, 120);
    auto pts = makePoints<D, P>(fam, n, r, box);
    if (sizeof(P) == 4) { // the predicates' window
        std::set<std::array<P, D>> seen;
        std::vector<std::array<P, D>> q;
        for (auto &p : pts) { for (auto &x : p) x = std::round(x * 1048576) / 1048576; if (seen.insert(p).second) q.push_back(p); }
        pts = q;
    }
    auto ps = toPoints<D, P>(pts);
    bool withInf = r.chance(2, 3);
    P ext = 0;
    for (uint d = 0; d < D; ++d) ext = std::max(ext, box.high[d] - box.low[d]);
    ext = std::ceil(ext) + 1;
    for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k) {
        dPoint<D, P> p;
        for (uint d = 0; d < D; ++d) p.coords[d] = (P)(std::round((k & (1u << d)) ? box.high[d] : box.low[d]) + ((k & (1u << d)) ? 1 : -1) * ext * (P)(1 + (k * 7 + d * 3) % 5));
        ps.at(dPoint<D, P>::cINF + k) = p;
    }
    std::vector<tIdType> ids = allIds<D, P>(ps, withInf);
    bool subset = r.chance(1, 4) && pts.size() > 12;
    if (subset) ids.erase(std::remove_if(ids.begin(), ids.end(), [&](tIdType i) { return dPoint<D, P>::isFinite(i) && r.chance(1, 3); }), ids.end());
    auto tri = Ref<D, P>::run(ps, ids);
    if (tri.size() < 3) return;
    { // collinear/coplanar input without bounding points
        std::set<tIdType> used;
        for (auto &t : tri) used.insert(t.begin(), t.end());
        if (used.size() != ids.size()) return;
    }
    Model<D, P> m;
    m.build(tri, r, r.below(6));
    Model<D, P> real = m;
    std::set<tIdType> idSet(ids.begin(), ids.end());

    int muts = r.chance(1, 4) ? 0 : (int)r.range(1, 3);
    std::string key = muts ? "verify:damaged:" : "verify:intact:";
    auto anyId = [&] { auto it = m.live.begin(); std::advance(it, r.below(m.live.size())); return it->first; };
    for (int i = 0; i < muts; ++i) {
        if (m.live.size() < 3) break;
        switch (r.below(10)) {
            case 0: { // a simplex vanishes
                auto id = anyId();
                m.removed[id] = m.live[id];
                m.live.erase(id);
                m.hull.erase(std::remove(m.hull.begin(), m.hull.end(), id), m.hull.end());
                if (r.chance(1, 3)) m.connect();
                else if (r.chance(1, 3)) for (auto &kv : m.live) for (auto &x : kv.second.neighbors) if (x == id) x = S::cINF;
                break;
            }
            case 1: case 2: { // a wrong neighbor entry
                auto &s = m.live[anyId()];
                auto &x = s.neighbors[r.below(D + 1)];
                switch (r.below(6)) {
                    case 0: x = S::cINF; break;
                    case 1: x = s.id; break;
                    case 2: x = m.removed.empty() ? S::cINF - 5 : m.removed.begin()->first; break;
                    case 3: x = r.next() >> 8; break;
                    case 4: x = m.gaps.empty() ? anyId() : r.pick(m.gaps); break;
                    default: x = anyId();
                }
                break;
            }
            case 3: { // swapped entries of two simplices
                auto a = anyId(), b = anyId();
                std::swap(m.live[a].neighbors[r.below(D + 1)], m.live[b].neighbors[r.below(D + 1)]);
                break;
            }
            case 4: { // a duplicate
                if (m.gaps.empty()) break;
                auto g = m.gaps.back();
                m.gaps.pop_back();
                S s = m.live[anyId()];
                s.id = g;
                m.live[g] = s;
                if (m.inf(s)) m.hull.push_back(g);
                break;
            }
            case 5: // hull
                if (r.chance(1, 2) && !m.hull.empty()) { size_t k = r.below(m.hull.size()); m.hull.erase(m.hull.begin() + k); }
                else m.hull.push_back(anyId());
                break;
            case 6: { // a point moves
                auto v = ids[r.below(ids.size())];
                auto w = ids[r.below(ids.size())];
                double f = r.chance(1, 2) ? 0.5 : 0.01;
                for (uint d = 0; d < D; ++d) {
                    double x = ps[v].coords[d] + f * ((double)ps[w].coords[d] - ps[v].coords[d]);
                    ps[v].coords[d] = (P)(sizeof(P) == 4 ? std::round(x * 1048576) / 1048576 : x);
                }
                break;
            }
            case 7: { // other vertices
                auto &s = m.live[anyId()];
                auto v = r.pick(ids);
                if (std::find(s.vertices.begin(), s.vertices.end(), v) != s.vertices.end()) break;
                bool was = m.inf(s);
                s.vertices[r.below(D + 1)] = v;
                std::sort(s.vertices.begin(), s.vertices.end());
                s.genFingerprint();
                if (was && !m.inf(s)) m.hull.erase(std::remove(m.hull.begin(), m.hull.end(), s.id), m.hull.end());
                if (!was && m.inf(s)) m.hull.push_back(s.id);
                if (r.chance(1, 2)) m.connect();
                break;
            }
            case 8: { // ids the triangulation does not use, or uses but should not
                if (subset) { if (r.chance(1, 2)) idSet.erase(*idSet.begin()); else idSet.insert(r.range(1, ps.finite_size() - 1)); }
                else { dPoint<D, P> p; for (auto &x : p.coords) x = 7; ps.emplace_back(p); idSet.insert(ps.finite_size() - 1); }
                break;
            }
            default: { // flip: in 2D replace two triangles by the other two of their quadrilateral
                if (D != 2) break;
                auto a = anyId();
                auto b = m.live[a].neighbors[r.below(D + 1)];
                if (!m.live.count(b)) break;
                std::vector<tIdType> sh, own;
                auto &x = m.live[a]; auto &y = m.live[b];
                for (auto v : x.vertices) (std::find(y.vertices.begin(), y.vertices.end(), v) != y.vertices.end() ? sh : own).push_back(v);
                for (auto v : y.vertices) if (std::find(x.vertices.begin(), x.vertices.end(), v) == x.vertices.end()) own.push_back(v);
                if (sh.size() != 2 || own.size() != 2) break;
                for (int k = 0; k < 2; ++k) {
                    auto &s = k ? y : x;
                    s.vertices = {{}};
                    s.vertices[0] = own[0]; s.vertices[1] = own[1]; s.vertices[2] = sh[k];
                    std::sort(s.vertices.begin(), s.vertices.end());
                    s.genFingerprint();
                    m.hull.erase(std::remove(m.hull.begin(), m.hull.end(), s.id), m.hull.end());
                    if (m.inf(s)) m.hull.push_back(s.id);
                }
                m.connect();
            }
        }
    }
    auto dt = m.make(r);
    auto e = judge<D, P>(m, ps, idSet);
    {
        bool useIds = subset || r.chance(1, 3);
        Point_Ids pid(idSet.size());
        for (auto i : idSet) pid.insert(i);
        auto v = useIds ? dt.verify(ps, &pid) : dt.verify(ps);
        compare<D, P>(key, v, e);
    }
    // cross check against the undamaged one, numbered differently
    Model<D, P> other;
    if (r.chance(1, 2)) { std::vector<Verts<D>> t = tri; for (size_t j = t.size(); j > 1; --j) std::swap(t[j - 1], t[r.below(j)]); other.build(t, r, 0); }
    else other = real;
    auto ot = other.make(r);
    auto cc = dt.crossCheck(ot);
    std::map<Verts<D>, std::vector<tIdType>> mine;
    std::set<Verts<D>> theirs;
    for (auto &kv : m.live) mine[kv.second.vertices].push_back(kv.first);
    for (auto &kv : other.live) theirs.insert(kv.second.vertices);
    std::set<tIdType> miss, inv, gm, gi;
    bool ok = true, judgeable = true;
    for (auto &kv : other.live) {
        auto it = mine.find(kv.second.vertices);
        if (it == mine.end()) { miss.insert(kv.first); ok = false; continue; }
        if (it->second.size() > 1) judgeable = false; // either copy's neighbor list may be looked at
        std::set<Verts<D>> nb;
        for (auto x : m.live[it->second[0]].neighbors) if (m.live.count(x)) nb.insert(m.live[x].vertices);
        for (auto x : kv.second.neighbors) if (S::isFinite(x) && !nb.count(other.live[x].vertices)) ok = false;
    }
    for (auto &kv : m.live) if (!theirs.count(kv.second.vertices)) { inv.insert(kv.first); ok = false; }
    for (auto &s : cc.missing) gm.insert(s.id);
    for (auto &s : cc.invalid) gi.insert(s.id);
    key = muts ? "cross:damaged:" : "cross:intact:";
    VT_CHECK(key + "missing", gm == miss && cc.missing.size() == miss.size(), cc.missing.size(), " simplices reported missing, ", miss.size(), " are");
    VT_CHECK(key + "invalid", gi == inv && cc.invalid.size() == inv.size(), cc.invalid.size(), " simplices reported invalid, ", inv.size(), " are");
    if (judgeable) VT_CHECK(key + "valid", cc.valid == ok, "cross check says ", cc.valid, " expected ", ok, " (missing ", miss.size(), " invalid ", inv.size(), ")");
    ctx().count(ok ? "cross_ok" : "cross_bad");
    // equal triangulations have equal fingerprints
    if (!muts) VT_CHECK("verify:fingerprint", dt.genFingerprint() == ot.genFingerprint(), "fingerprints of the same triangulation differ");
    trace = mix(trace ^ digest<D, P>(tri));
}

int main(int argc, char **argv) {
    auto &C = ctx();
    C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "100").c_str());
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 4);
        int fam = (int)r.below(F_COUNT), k = (int)r.below(4);
        C.begin(c, str(k < 2 ? "2D " : "3D ", k & 1 ? "float " : "double ", FAMILIES[fam]));
        trace = 0;
        guarded("verify", [&] {
            tbb::global_control gc(tbb::global_control::max_allowed_parallelism, 1 + r.below(4));
            if (k == 0) oneCase<2, double>(r, fam); else if (k == 1) oneCase<2, float>(r, fam);
            else if (k == 2) oneCase<3, double>(r, fam); else oneCase<3, float>(r, fam);
        });
        if (trace) C.nontrivial(trace);
    }
    return C.finish();
}
