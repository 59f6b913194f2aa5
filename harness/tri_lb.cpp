#include "points.h"
#include "lb_make.h"
#include "tri_oracle.h"
#include <tbb/global_control.h>
using namespace vt;
template <uint D> void oneCase(long c, Rng &r, int fam, size_t n, bool pb, bool pe, int conc) {
    typedef double P;
    dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    double ext = 0; for (uint d = 0; d < D; ++d) ext = std::max<double>(ext, box.high[d] - box.low[d]);
    auto ps = toPoints<D, P>(pts);
    LBConf conf = randomConf(r, D, n, ext);
    auto &C = ctx();
    if (!C.opt("kind").empty()) conf.kind = atoi(C.opt("kind").c_str());
    vt_kahip_mode = r.below(3);
    C.begin(c, str(D, "D ", FAMILIES[fam], " n=", n, " ", conf.str(), " parBase=", pb, " parEdge=", pe, " conc=", conc, " kahip=", vt_kahip_mode, " log=", randomLogLevel(C.seed, c, n)));
    guarded("lb", [&] {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, conc);
        lb::DCTriangulator<D, P> t(box, ps, conf.threads, makeLB<D, P>(conf), 100, pb, pe);
        checkEnclosed<D, P>("lb", ps);
        auto dt = t.triangulate();
        auto s = checkTriangulation<D, P>("lb", dt, ps, allIds<D, P>(ps));
        C.nontrivial(digest<D, P>(s));
        C.count(str("kind_", LBKINDS[conf.kind]));
        C.sample(str(D, "D ", FAMILIES[fam], " n=", n, " ", conf.str(), ": ", s.size(), " simplices"));
        if (vt_kahip_bad) { C.violation("lb:samplegraph", vt_kahip_msg); vt_kahip_bad = 0; }
    });
}
int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    int reps = atoi(C.opt("reps", "2").c_str());
    long c = 0;
    for (int rep = 0; rep < reps; ++rep)
    for (int fam = 0; fam < F_COUNT; ++fam)
        for (int D = 2; D <= 3; ++D) {
            Rng r(C.seed, c, 78);
            size_t n = r.range(150, D == 2 ? 3000 : 2000);
            bool pb = r.chance(1, 4), pe = r.chance(3, 4);
            int conc = 1 + r.below(8);
            if (C.runs(c)) { if (D == 2) oneCase<2>(c, r, fam, n, pb, pe, conc); else oneCase<3>(c, r, fam, n, pb, pe, conc); }
            ++c;
        }
    static const int lf[] = {F_UNIFORM, F_NORMAL, F_BUBBLE, F_JLATTICE, F_DENSITY, F_LATTICE};
    for (int i = 0, L = atoi(C.opt("large", "0").c_str()); i < L; ++i, ++c) {
        Rng r(C.seed, c, 80); int D = r.chance(1, 2) ? 2 : 3, fam = r.pick(std::vector<int>(lf, lf + 6)), conc = r.range(1, 8);
        size_t n = D == 2 ? r.range(70000, 100000) : r.range(12000, 20000); bool pe = r.chance(3, 4);
        if (!C.runs(c)) continue;
        C.count("large");
        if (D == 2) oneCase<2>(c, r, fam, n, false, pe, conc); else oneCase<3>(c, r, fam, n, false, pe, conc);
    }
    return C.finish();
}
