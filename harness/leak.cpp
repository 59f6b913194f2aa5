// C24: memory held after repeated identical work.
#include "points.h"
#include "lb_make.h"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "vt.h"
#include "utils/Timings.h"
#include <malloc.h>
#include <tbb/global_control.h>
using namespace vt;
static size_t held() { malloc_trim(0); auto m = mallinfo2(); return m.uordblks + m.hblkhd; }

template <uint D> void one(long c, Rng &r) {
    typedef double P;
    auto &C = ctx();
    int fam = r.below(F_COUNT); size_t n = r.range(600, D == 2 ? 2500 : 1200); dBox<D, P> box;
    auto pts = makePoints<D, P>(fam, n, r, box);
    double ext = 0; for (uint d = 0; d < D; ++d) ext = std::max<double>(ext, box.high[d] - box.low[d]);
    LBConf conf = randomConf(r, D, n, ext); bool lbt = r.chance(1, 2), check = r.chance(1, 3), pe = r.chance(1, 2) && D == 2;
    static const char sp[] = {'c', 'd', 'e', '0', '1'}; char split = sp[r.below(5)];
    uint threads = split == 'd' ? 1u << (D * r.range(1, 2)) : 1u << r.range(1, 4);
    int T = r.chance(1, 2) ? 1 : r.range(2, 4); uint64_t seed = r.next();
    vt_kahip_mode = 0;
    C.begin(c, str(D, "D ", FAMILIES[fam], " n=", pts.size(), lbt ? " lb " + conf.str() : str(" dc split=", split, " threads=", threads), check ? " verified" : "", " workers=", T));
    std::vector<size_t> at; size_t simplices = 0;
    guarded("leak", [&] {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, T);
        for (int i = 0, N = getenv("VT_LOOPS") ? atoi(getenv("VT_LOOPS")) : 8; i < N; ++i) {
            {
                auto ps = toPoints<D, P>(pts); startGen.seed(uint(seed));
                auto work = [&](auto &t) { auto dt = t.triangulate(); if (check) { auto v = dt.verify(ps); VT_CHECK("leak:valid", v.valid, "not valid"); VT_CHECK("leak:valid", dt.crossCheck(dt).valid, "differs from itself"); } simplices = std::distance(dt.begin(), dt.end()); };
                if (lbt) { lb::DCTriangulator<D, P> t(box, ps, conf.threads, makeLB<D, P>(conf), 1, false, pe); work(t); }
                else { DCTriangulator<D, P> t(box, ps, threads, Partitioner<D, P>::make(split), 1, false, pe); work(t); }
            }
            at.push_back(held());
        }
    });
    if (at.size() < 8) return;
    if (getenv("VT_SHOW")) { for (auto x : at) std::cerr << x << " "; std::cerr << "\n"; }
    bool grows = true; for (int i = 3; i < 8; ++i) grows &= at[i] > at[i - 1] + (T == 1 ? 256 : 32768); // always, so not one of the caches of the scheduler that fills
    long per = (long(at[7]) - long(at[3])) / 4;
    VT_CHECK("leak:grows", !grows, "memory held grows by ", per, " bytes with every repetition (", at[2], " to ", at[7], ")");
    C.maxi("kilobytes_held", at[7] >> 10); C.count("repetitions", 8); if (per == 0) C.count("exactly_stable");
    C.nontrivial(mix(simplices * 31 + n) ^ c);
}
int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "40").c_str());
    for (long c = 0; c < reps; ++c) {
        Rng r(C.seed, c, 241);
        if (!C.runs(c)) continue;
        if (r.chance(1, 2)) one<2>(c, r); else one<3>(c, r);
    }
    return C.finish();
}
