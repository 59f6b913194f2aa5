// C25: the base case triangulator (CGALTriangulator) on subsets of the points, one at a time and several at once.
#include "CGALTriangulator.h"
#include "points.h"
#include "tri_oracle.h"
#include <list>
#include <thread>
#include <unordered_set>
using namespace vt;

// id ranges used so far in this process; the shared counter is one per dimension and precision
template <uint D, typename P> std::vector<std::pair<tIdType, tIdType>> blocks;
static std::mutex blocksMx;

template <uint D, typename P> void claim(const std::string &key, const dSimplices<D, P> &dt, tIdType before, tIdType after) {
    tIdType lo = ~tIdType(0), hi = 0;
    for (const auto &s : dt) { lo = std::min(lo, s.id); hi = std::max(hi, s.id); }
    if (hi == 0 && lo) return; // nothing handed out
    if (lo < before || hi >= after) ctx().violation(key + ":idblock", str("ids [", lo, ",", hi, "] were not drawn from the shared counter, which moved from ", before, " to ", after));
    std::lock_guard<std::mutex> l(blocksMx);
    for (auto &b : blocks<D, P>) if (lo <= b.second && b.first <= hi) { ctx().violation(key + ":idblock", str("id range [", lo, ",", hi, "] overlaps the range [", b.first, ",", b.second, "] of another triangulation")); break; }
    blocks<D, P>.emplace_back(lo, hi);
    auto &B = blocks<D, P>;
    if (B.size() > 4000) B.erase(B.begin(), B.begin() + 2000);
}

template <uint D, typename P> std::vector<tIdType> subset(Rng &r, const dPoints<D, P> &ps) {
    std::vector<tIdType> ids;
    size_t n = ps.finite_size();
    int how = r.below(6);
    uint keep = r.range(1, 100);
    for (tIdType i = 1; i < n; ++i) {
        bool in = how == 0 || (how == 1 && r.chance(keep, 100)) || (how == 2 && i < n * keep / 100) ||
                  (how == 3 && ps[i].coords[0] <= ps[1].coords[0]) || (how == 4 && i % 7 == 0) || (how == 5 && r.chance(1, std::max<size_t>(1, n / 6)));
        if (in) ids.push_back(i);
    }
    int inf = r.below(4); // none, all, some, all but one
    for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k)
        if (inf == 1 || (inf == 2 && r.chance(1, 2)) || (inf == 3 && k != 1)) ids.push_back(dPoint<D, P>::cINF + k);
    return ids;
}

template <uint D, typename P, bool Par> void run(const std::string &key, const dBox<D, P> &box, dPoints<D, P> &ps, const std::vector<tIdType> &ids, int form, bool whole) {
    tIdType before = dSimplices<D, P>::simplexID.load();
    CGALTriangulator<D, P, Par> t(box, ps, 1 + form);
    dSimplices<D, P> dt = [&]() -> dSimplices<D, P> {
        if (whole) return t.triangulate();
        switch (form) {
        case 0: return t.triangulate(ids);
        case 1: { auto rev = ids; std::reverse(rev.begin(), rev.end()); return t.triangulate(std::list<tIdType>(rev.begin(), rev.end())); }
        case 2: return t.triangulate(std::set<tIdType>(ids.begin(), ids.end()));
        default: return t.triangulate(std::unordered_set<tIdType>(ids.begin(), ids.end()));
        }
    }();
    tIdType after = dSimplices<D, P>::simplexID.load();
    auto s = checkTriangulation<D, P>(key, dt, ps, ids);
    claim<D, P>(key, dt, before, after);
    if (s.empty()) ctx().count("empty_results");
    ctx().nontrivial(digest<D, P>(s));
    ctx().count(str("cases_", D, "d", Par ? "_par" : ""));
}

template <uint D, typename P> void oneCase(Rng &r, int fam, size_t n) {
    dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    auto ps = toPoints<D, P>(pts);
    for (uint d = 0; d < D; ++d) if (!(box.low[d] < box.high[d])) return;
    for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k) {
        for (uint d = 0; d < D; ++d) {
            P ext = (box.high[d] - box.low[d]) * P(r.chance(1, 2) ? 10 : 3);
            ps[dPoint<D, P>::cINF + k].coords[d] = (k & (1u << d)) ? box.high[d] + ext : box.low[d] - ext;
        }
    }
    int mode = r.below(8);
    guarded("base", [&] {
        if (mode == 0) { // several base cases at once
            int T = r.range(2, 6);
            std::vector<std::vector<tIdType>> sets;
            for (int i = 0; i < T; ++i) sets.push_back(subset(r, ps));
            std::vector<std::unique_ptr<dSimplices<D, P>>> res(T);
            std::vector<std::string> err(T);
            std::vector<std::thread> th;
            std::atomic<int> go{0};
            tIdType before = dSimplices<D, P>::simplexID.load();
            for (int i = 0; i < T; ++i) th.emplace_back([&, i] {
                ++go; while (go.load() < T) {}
                try { CGALTriangulator<D, P, false> t(box, ps, 1); res[i].reset(new dSimplices<D, P>(t.triangulate(sets[i]))); }
                catch (std::exception &e) { err[i] = e.what(); }
            });
            for (auto &t : th) t.join();
            tIdType after = dSimplices<D, P>::simplexID.load();
            uint64_t h = 0;
            for (int i = 0; i < T; ++i) {
                if (!res[i]) { ctx().violation("base:throw", err[i]); continue; }
                auto s = checkTriangulation<D, P>("base", *res[i], ps, sets[i]);
                claim<D, P>("base", *res[i], before, after);
                h ^= digest<D, P>(s) + i;
            }
            ctx().nontrivial(h);
            ctx().count("concurrent_base_cases", T);
            return;
        }
        bool whole = mode == 1;
        auto ids = whole ? allIds<D, P>(ps, true) : subset(r, ps);
        int form = r.below(4);
        if constexpr (D == 2) { if (r.chance(1, 2)) { run<D, P, true>("base", box, ps, ids, form, whole); return; } }
        run<D, P, false>("base", box, ps, ids, form, whole);
    });
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "2000").c_str());
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 250);
        int fam = r.below(F_COUNT), D = 2 + r.below(2), fl = r.below(2);
        size_t n = r.chance(1, 3) ? r.range(1, 20) : r.range(10, D == 2 ? 1200 : 700);
        C.begin(c, str(D, "D ", fl ? "float " : "double ", FAMILIES[fam], " n=", n));
        if (D == 2) { if (fl) oneCase<2, float>(r, fam, n); else oneCase<2, double>(r, fam, n); }
        else { if (fl) oneCase<3, float>(r, fam, n); else oneCase<3, double>(r, fam, n); }
    }
    return C.finish();
}
