// C15: simplex operations and fixed-size sorting against sets.
#include "vt.h"
#include <set>
#include <algorithm>
#include <boost/serialization/vector.hpp>
#include "Geometry.h"
#include "utils/StaticSort.h"
using namespace vt;
static uint64_t trace;

template <uint D, typename P> static void simplexCase(Rng &r) {
    typedef dSimplex<D, P> S;
    typedef dPoint<D, P> Pt;
    uint64_t span = r.chance(1, 2) ? r.range(D + 2, 12) : r.chance(1, 2) ? 1000 : r.next() >> r.below(40);
    if (span < D + 2) span = D + 2;
    auto id = [&]() -> tIdType { return r.chance(1, 6) ? Pt::cINF + r.below(Pt::nINF) : r.chance(1, 10) ? (r.below(8) << 32 | r.range(1, span)) : r.range(1, span); };
    auto mk = [&](const std::set<tIdType> &v) {
        S s;
        std::copy(v.begin(), v.end(), s.vertices.begin());
        s.id = r.chance(1, 5) ? S::cINF : r.range(1, 20);
        for (auto &n : s.neighbors) n = r.chance(1, 4) ? S::cINF : r.range(1, 6);
        s.genFingerprint();
        return s;
    };
    auto rndSet = [&] { std::set<tIdType> v; while (v.size() < D + 1) v.insert(id()); return v; };
    for (int k = 0; k < 40; ++k) {
        auto va = rndSet(), vb = rndSet();
        if (r.chance(1, 2)) { vb = va; for (size_t j = r.below(D + 2); j; --j) { auto it = vb.begin(); std::advance(it, r.below(vb.size())); vb.erase(it); while (vb.size() < D + 1) vb.insert(id()); } }
        S a = mk(va), b = mk(vb);
        if (r.chance(1, 3)) b.neighbors = a.neighbors;
        if (r.chance(1, 6)) { b.neighbors = a.neighbors; b.neighbors[r.below(D + 1)] ^= 1; }
        uint shared = 0;
        for (auto v : va) shared += vb.count(v);
        VT_CHECK("simplex:shared", a.countSharedVertices(b) == shared && b.countSharedVertices(a) == shared, "countSharedVertices ", a.countSharedVertices(b), " expected ", shared);
        VT_CHECK("simplex:equal", a.equalVertices(b) == (va == vb) && b.equalVertices(a) == (va == vb), "equalVertices, expected ", va == vb);
        if (va != vb || a.id == b.id) VT_CHECK("simplex:neighbor", a.isNeighbor(b) == (shared == D) && b.isNeighbor(a) == (shared == D), "isNeighbor with ", shared, " shared vertices");
        VT_CHECK("simplex:equalneighbors", a.equalNeighbors(b) == (a.neighbors == b.neighbors) && a.equalNeighbors(a), "equalNeighbors, expected ", a.neighbors == b.neighbors);
        bool eq = (a.id == S::cINF) == (b.id == S::cINF) ? a.id == b.id : va == vb;
        VT_CHECK("simplex:operator==", (a == b) == eq && (b == a) == eq, "operator== expected ", eq);
        VT_CHECK("simplex:order", (a < b) == (a.id < b.id) && (a == a.id) && !(a == a.id + 1), "order by id");
        bool fin = true;
        for (auto v : va) fin &= v < Pt::cINF;
        VT_CHECK("simplex:finite", a.isFinite() == fin && S::isFinite(a.id) == (a.id != ~0ull), "isFinite, expected ", fin);
        for (int q = 0; q < 6; ++q) {
            tIdType p = r.chance(1, 2) ? *std::next(va.begin(), r.below(D + 1)) : id();
            VT_CHECK("simplex:contains", a.contains(p) == (va.count(p) > 0), "contains ", p, " expected ", va.count(p));
        }
        std::vector<tIdType> l;
        for (size_t j = r.below(4); j; --j) l.push_back(r.chance(2, 3) ? *std::next(va.begin(), r.below(D + 1)) : id());
        bool all = true, any = false;
        for (auto x : l) { all &= va.count(x) > 0; any |= va.count(x) > 0; }
        VT_CHECK("simplex:all-any", a.containsAll(l) == all && a.containsAny(l) == any, "containsAll/containsAny of ", l.size());
        // sorting keeps each neighbor with the vertex it is opposite to
        S u = a;
        std::array<uint, D + 1> perm;
        for (uint i = 0; i < D + 1; ++i) perm[i] = i;
        for (uint i = D; i; --i) std::swap(perm[i], perm[r.below(i + 1)]);
        for (uint i = 0; i < D + 1; ++i) { u.vertices[i] = a.vertices[perm[i]]; u.neighbors[i] = a.neighbors[perm[i]]; }
        S un = u;
        u.sortVertices();
        VT_CHECK("simplex:sort", u.vertices == a.vertices && u.neighbors == a.neighbors, "sortVertices lost the correspondence of vertices and neighbors");
        // fingerprints
        VT_CHECK("simplex:fingerprint", un.genFingerprint() == a.fingerprint() && un.fingerprint() == a.fingerprint() && u.genFingerprint() == a.fingerprint(), "fingerprint depends on the vertex order");
        if (shared == D)
            for (uint i = 0; i < D + 1; ++i)
                for (uint j = 0; j < D + 1; ++j)
                    if (!vb.count(a.vertices[i]) && !va.count(b.vertices[j]))
                        VT_CHECK("simplex:facefingerprint", a.faceFingerprint(i) == b.faceFingerprint(j), "fingerprints of the common facet differ");
        for (uint i = 0; i < D + 1; ++i) VT_CHECK("simplex:facefingerprint-zero", a.faceFingerprint(i) != 0, "facet fingerprint is zero");
        ctx().count("simplex_pairs");
        ctx().count(str("shared_", shared));
        trace = mix(trace ^ a.fingerprint() ^ ((uint64_t)b.fingerprint() << 32));
    }
}
template <size_t N> static void sortCase(Rng &r) {
    for (int k = 0; k < 40; ++k) {
        std::array<uint64_t, N> a, s;
        std::array<uint32_t, N> d;
        uint64_t m = r.chance(1, 2) ? r.range(1, 2 * N) : ~0ull;
        for (size_t i = 0; i < N; ++i) { a[i] = r.below(m); d[i] = (uint32_t)i; }
        if (r.chance(1, 5)) std::sort(a.begin(), a.end(), std::greater<uint64_t>());
        s = a;
        std::stable_sort(s.begin(), s.end());
        auto b = a;
        static_insertion_sort(b);
        VT_CHECK("sort:plain", b == s, "static_insertion_sort of ", N, " values");
        b = a;
        static_insertion_sort_with_data(b, d);
        bool ok = b == s, stable = true;
        std::set<uint32_t> seen(d.begin(), d.end());
        for (size_t i = 0; i < N; ++i) { ok &= d[i] < N && a[d[i]] == b[i]; if (i && b[i] == b[i - 1]) stable &= d[i] > d[i - 1]; }
        VT_CHECK("sort:data", ok && seen.size() == N, "static_insertion_sort_with_data of ", N, " values");
        VT_CHECK("sort:stable", stable, "equal values changed their order");
        ctx().count("sorts");
        trace = mix(trace ^ fnv(a.data(), sizeof a));
    }
}
int main(int argc, char **argv) {
    auto &c = ctx();
    c.init(argc, argv);
    long reps = atol(c.opt("reps", "100").c_str());
    for (long id = 0; id < reps; ++id) {
        if (!c.runs(id)) continue;
        Rng r(c.seed, id, 15);
        int k = (int)r.below(8);
        c.begin(id, k < 6 ? "simplices" : "sort");
        trace = 0;
        guarded("simplex", [&] {
            switch (k) {
                case 0: simplexCase<2, float>(r); break;
                case 1: case 2: simplexCase<2, double>(r); break;
                case 3: simplexCase<3, float>(r); break;
                case 4: case 5: simplexCase<3, double>(r); break;
                case 6: sortCase<3>(r); sortCase<4>(r); sortCase<2>(r); sortCase<1>(r); break;
                default: sortCase<8>(r); sortCase<17>(r); sortCase<64>(r);
            }
        });
        c.nontrivial(trace);
    }
    return c.finish();
}
