// C03: whole triangulations under adversarial schedules of a stand-in scheduler (minitbb), also under ThreadSanitizer.
#include "points.h"
#include "lb_make.h"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "tri_oracle.h"
using namespace vt;

template <uint D> void one(long c, Rng &r, bool lbt, size_t nmax) {
    typedef double P;
    int fam = r.below(F_COUNT);
    size_t n = lbt ? r.range(150, nmax) : r.range(nmax / 2, nmax * 3 / 2);
    dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    auto ps = toPoints<D, P>(pts);
    for (uint d = 0; d < D; ++d) if (!(box.low[d] < box.high[d])) return;
    double ext = 0; for (uint d = 0; d < D; ++d) ext = std::max<double>(ext, box.high[d] - box.low[d]);
    LBConf conf = randomConf(r, D, n, ext);
    static const char sp[] = {'c', 'd', 'e', '0', '1'};
    char split = sp[r.below(5)];
    uint threads = split == 'd' ? 1u << (D * r.range(1, 2)) : 1u << r.range(1, 4);
    int T = r.chance(1, 6) ? 1 : r.range(2, 8), iso = r.below(2), del = r.chance(1, 2);
    bool pe = r.chance(1, 2) && D == 2;
    vt_kahip_mode = r.below(3);
    auto &C = ctx();
    C.begin(c, str(D, "D ", FAMILIES[fam], " n=", pts.size(), lbt ? " lb " + conf.str() : str(" dc split=", split, " threads=", threads), " workers=", T, " isolate=", iso, " delays=", del, " log=", randomLogLevel(C.seed, c, n)));
    uint64_t t0 = minitbb::tasksRun(), s0 = minitbb::stolen(), n0 = minitbb::nested();
    guarded("sched", [&] {
        auto work = [&](uint64_t seed, int T, int iso, int del) {
            auto q = ps;
            minitbb::configure(T, seed, iso, del);
            if (lbt) { lb::DCTriangulator<D, P> t(box, q, conf.threads, makeLB<D, P>(conf), 1, false, pe); auto dt = t.triangulate(); minitbb::configure(1, seed, 0, 0); return checkTriangulation<D, P>("sched", dt, q, allIds<D, P>(q)); }
            DCTriangulator<D, P> t(box, q, threads, Partitioner<D, P>::make(split), 1, false, pe);
            auto dt = t.triangulate(); minitbb::configure(1, seed, 0, 0);
            return checkTriangulation<D, P>("sched", dt, q, allIds<D, P>(q));
        };
        auto s = work(r.next(), T, iso, del);
        C.nontrivial(digest<D, P>(s));
        C.sample(str(D, "D ", FAMILIES[fam], " n=", pts.size(), lbt ? " lb " + conf.str() : str(" dc split=", split, " threads=", threads), ": ", s.size(), " simplices, ", minitbb::tasksRun() - t0, " tasks on ", T, " threads"));
        C.count(lbt ? "lb" : "dc"); C.count(str("workers_", T));
    });
    C.count("tasks", minitbb::tasksRun() - t0); C.count("tasks_stolen_while_waiting", minitbb::stolen() - s0); C.count("tasks_nested", minitbb::nested() - n0);
}
int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "20").c_str());
    size_t nmax = atol(C.opt("n", "1500").c_str());
    minitbb::configure(8, 1, 0, 0);
    for (long c = 0; c < reps; ++c) {
        Rng r(C.seed, c, 303);
        if (!C.runs(c)) continue;
        bool lbt = r.chance(1, 2);
        if (r.chance(1, 2)) one<2>(c, r, lbt, nmax); else one<3>(c, r, lbt, nmax);
    }
    return C.finish();
}
