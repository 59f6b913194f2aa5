#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "Partitioner.h"
#include "points.h"
#include "tri_oracle.h"
#include <tbb/global_control.h>
using namespace vt;

template <uint D, typename P> void oneCase(long c, Rng &r, int fam, size_t n, char split, uint threads, bool parBase, bool parEdge, uint grid, int conc) {
    dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    auto ps = toPoints<D, P>(pts);
    if (ps.finite_size() < 3) return;
    for (uint d = 0; d < D; ++d) if (!(box.low[d] < box.high[d])) return; // outside the quantifier
    std::string key = str("dc");
    guarded(key, [&] {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, conc);
        DCTriangulator<D, P> t(box, ps, threads, Partitioner<D, P>::make(split), grid, parBase, parEdge);
        checkEnclosed<D, P>(key, ps);
        auto dt = t.triangulate();
        auto ids = allIds<D, P>(ps);
        auto s = checkTriangulation<D, P>(key, dt, ps, ids);
        ctx().nontrivial(digest<D, P>(s));
        ctx().count(str("cases_", D, "d"));
        ctx().sample(str(D, "D ", sizeof(P) == 4 ? "float " : "double ", FAMILIES[fam], " n=", n, ": ", s.size(), " simplices, splitter ", split, ", ", threads, " threads"));
    });
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long c = 0;
    int maxFam = F_COUNT;
    std::string only = C.opt("fam");
    int reps = atoi(C.opt("reps", "2").c_str());
    for (int rep = 0; rep < reps; ++rep)
    for (int fam = 0; fam < maxFam; ++fam)
        for (int D = 2; D <= 3; ++D)
            for (int fl = 0; fl < 2; ++fl) {
                if (!only.empty() && only != FAMILIES[fam]) continue;
                Rng r(C.seed, c, 77);
                static const char sp2[] = {'c', 'd', 'e', '0', '1'}, sp3[] = {'c', 'd', 'e', '0', '2'};
                char split = D == 2 ? sp2[r.below(5)] : sp3[r.below(5)];
                uint threads = split == 'd' ? (1u << (D * r.range(0, 2))) : (1u << r.range(0, 5));
                size_t n = D == 2 ? r.range(30, 4000) : r.range(30, 3000);
                if (r.chance(1, 12)) n = r.range(3, 12);
                bool pb = r.chance(1, 4) && D == 2, pe = r.chance(3, 4);
                uint grid = r.chance(1, 2) ? 1 : 100;
                int conc = 1 + r.below(8);
                if (C.runs(c)) {
                    C.begin(c, str(D, "D ", fl ? "float" : "double", " ", FAMILIES[fam], " n=", n, " split=", split, " threads=", threads, " parBase=", pb, " parEdge=", pe, " conc=", conc, " log=", randomLogLevel(C.seed, c, n)));
                    if (D == 2) { if (fl) oneCase<2, float>(c, r, fam, n, split, threads, pb, pe, grid, conc); else oneCase<2, double>(c, r, fam, n, split, threads, pb, pe, grid, conc); }
                    else { if (fl) oneCase<3, float>(c, r, fam, n, split, threads, pb, pe, grid, conc); else oneCase<3, double>(c, r, fam, n, split, threads, pb, pe, grid, conc); }
                }
                ++c;
            }
    // large point sets: many blocks, tables beyond their first capacity, ids and counts beyond 16 bits
    static const int lf[] = {F_UNIFORM, F_NORMAL, F_BUBBLE, F_JLATTICE, F_DENSITY, F_LATTICE};
    for (int i = 0, L = atoi(C.opt("large", "0").c_str()); i < L; ++i, ++c) {
        Rng r(C.seed, c, 79); int D = r.chance(1, 2) ? 2 : 3, fl = r.chance(1, 3), fam = lf[r.below(fl ? 4 : 6)], conc = r.range(1, 8);
        size_t n = D == 2 ? r.range(70000, 120000) : r.range(15000, 30000); char split = r.pick(std::vector<char>{'c', 'e', 'd', '0'});
        uint threads = split == 'd' ? 1u << D : 1u << r.range(1, 5); bool pe = r.chance(3, 4);
        if (!C.runs(c)) continue;
        LOGGER.setLogLevel(Logger::Verbosity::SILENT);
        C.begin(c, str("large ", D, "D ", fl ? "float" : "double", " ", FAMILIES[fam], " n=", n, " split=", split, " threads=", threads, " parEdge=", pe, " conc=", conc));
        C.count("large");
        if (D == 2) { if (fl) oneCase<2, float>(c, r, fam, n, split, threads, false, pe, 1, conc); else oneCase<2, double>(c, r, fam, n, split, threads, false, pe, 1, conc); }
        else { if (fl) oneCase<3, float>(c, r, fam, n, split, threads, false, pe, 1, conc); else oneCase<3, double>(c, r, fam, n, split, threads, false, pe, 1, conc); }
    }
    return C.finish();
}
