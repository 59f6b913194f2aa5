// Every load-balancing partitioner behind one factory.
#pragma once
#include "load_balancing/CommandLineInterface.h"
#include "vt.h"
namespace vt {
static const char *LBKINDS[] = {"binary-besp", "center-distance-pasp", "bounds-distance-pasp", "nearest-sample-pasp", "nearest-sample-pasb",
                                "hyperplane-sample-pasb", "kway-cycle", "old-d", "old-c", "old-e", "old-1dim"};
enum { LB_BESP, LB_CENTER, LB_BOUNDSD, LB_NEAREST, LB_PASB, LB_HYPER, LB_KWAY, LB_OLDD, LB_OLDC, LB_OLDE, LB_OLD1, LB_COUNT };
static const char *CHECKERS[] = {"grid", "accurate-grid", "box"};

struct LBConf {
    int kind; int checker; uint threads; size_t cutoff; double cellWidth; bool flatten; size_t sample; bool weights; uint seed; uint dim;
    std::string str() const {
        return vt::str(LBKINDS[kind], kind >= LB_CENTER && kind <= LB_PASB ? vt::str("/", CHECKERS[checker], "(", cellWidth, ")") : "", " threads=", threads, " cutoff=", cutoff,
                       flatten ? " flat" : "", " sample=", sample, weights ? " weighted" : "");
    }
};
inline LBConf randomConf(Rng &r, uint D, size_t n, double extent) {
    LBConf c;
    c.kind = r.below(LB_COUNT);
    c.checker = r.below(3);
    c.threads = c.kind == LB_OLDD ? 1u << (D * r.range(1, 2)) : 1u << r.range(0, 4);
    c.cutoff = r.pick(std::vector<size_t>{20, 100, 500, 5000});
    if (c.kind == LB_BESP && c.cutoff < 100) c.cutoff = 100;
    if (c.kind == LB_PASB && c.cutoff < 100) c.cutoff = 100;
    c.cellWidth = extent * r.pick(std::vector<double>{0.003, 0.02, 0.1, 0.5, 3});
    c.flatten = r.chance(1, 4);
    size_t lo = std::max<size_t>(20, (size_t)std::sqrt((double)n)); c.sample = r.range(lo, std::max<size_t>(120, 2 * lo));
    c.weights = r.chance(1, 2);
    c.seed = r.next();
    c.dim = r.below(D);
    return c;
}
template <uint D, typename P>
lb::IntersectionPartitionMakerFunction<D, P> makeMaker(const LBConf &c) {
    lb::IntersectionPartitionMakerFunction<D, P> f;
    if (c.checker == 0) f = lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{(P)c.cellWidth});
    else if (c.checker == 1) f = lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>{(P)c.cellWidth});
    else f = lb::BoundsIntersectionPartitionMaker<D, P>();
    return f;
}
template <uint D, typename P, typename M = lb::UnpluggedMonitor>
std::unique_ptr<lb::Partitioner<D, P, M>> makeLB(const LBConf &c) {
    auto f = [s = c.sample](size_t) -> size_t { return s; };
    typename lb::Sampler<D, P>::DistanceToEdgeWeightFunction w = [](P d) -> P { return 1 / std::sqrt(d + 0.0000001); };
    auto sampler = c.weights ? lb::Sampler<D, P>(c.seed, f, FAST, 0.05, w) : lb::Sampler<D, P>(c.seed, f, FAST, 0.05);
    std::unique_ptr<lb::Partitioner<D, P, M>> p;
    switch (c.kind) {
    case LB_BESP: p = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, P, M>>(c.cutoff, std::move(sampler)); break;
    case LB_CENTER: p = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, P, M>>(c.threads, std::move(sampler), makeMaker<D, P>(c)); break;
    case LB_BOUNDSD: p = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, P, M>>(c.threads, std::move(sampler), makeMaker<D, P>(c)); break;
    case LB_NEAREST: p = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, P, M>>(c.threads, std::move(sampler), makeMaker<D, P>(c)); break;
    case LB_PASB: p = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, P, M>>(c.threads, std::move(sampler), c.cutoff, makeMaker<D, P>(c)); break;
    case LB_HYPER: p = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, P, M>>(c.threads, std::move(sampler)); break;
    case LB_KWAY: p = std::make_unique<lb::KWaySplitter<D, P, M>>(c.threads); break;
    default: {
        std::unique_ptr<::Partitioner<D, P>> o;
        if (c.kind == LB_OLDD) o = std::make_unique<dWayPartitioner<D, P>>();
        else if (c.kind == LB_OLDC) o = std::make_unique<CyclePartitioner<D, P>>();
        else if (c.kind == LB_OLDE) o = std::make_unique<ExtendPartitioner<D, P>>();
        else o = std::make_unique<OneDimPartitioner<D, P>>(c.dim);
        auto rec = o->getRecursionDepth(c.threads);
        p = std::make_unique<lb::OldPartitionerPartitioner<D, P, M>>(std::move(o), rec, c.cutoff);
    } }
    if (c.flatten) p = std::make_unique<lb::FlatPartitioner<D, P, M>>(std::move(p));
    return p;
}
} // namespace vt
