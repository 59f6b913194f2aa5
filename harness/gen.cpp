// C18: point generators and spatial sorting.
#include "utils/Generator.h"
#include "load_balancing/CommandLineInterface.h"
#include "load_balancing/monitors/Monitor.h"
#include "vt.h"
#include "points.h"
using namespace vt;

template <uint D, typename P> std::array<P, D> at(const dPoints<D, P> &ps, size_t i) { std::array<P, D> a; for (uint d = 0; d < D; ++d) a[d] = ps[i].coords[d]; return a; }

template <uint D, typename P> void generators(Rng &r) {
    static const char *names[] = {"uniform", "normal", "bubble", "ellipsoid", "skew-line", "unbound-bubble", "patch-bubble", "malicious-bubble"};
    int g = r.below(8);
    std::string name = names[g];
    dBox<D, P> box;
    double scale = std::pow(10.0, (int)r.range(0, 6) - 3.0), off = r.chance(1, 2) ? 0 : (r.unit() - 0.5) * 20 * scale;
    for (uint d = 0; d < D; ++d) { box.low[d] = P(off - scale * (0.1 + r.unit())); box.high[d] = P(off + scale * (0.1 + r.unit())); }
    double minExt = 1e300;
    for (uint d = 0; d < D; ++d) minExt = std::min(minExt, double(box.high[d]) - box.low[d]);
    size_t n = r.chance(1, 3) ? r.range(0, 20) : r.range(1, 6000);
    size_t nb = g >= 5 ? r.range(2, 40) : 0;
    P radius = P(minExt * (0.01 + 0.4 * r.unit()));
    std::string key = "gen:" + name;
    auto make = [&](int how) -> std::unique_ptr<PointGenerator<D, P>> {
        if (how == 0 && g < 5) return GeneratorFactory<D, P>::make("unbel"[g]);
        if (how == 0 && g == 0) return GeneratorFactory<D, P>::make('x'); // anything else is uniform
        po::variables_map vm;
        vm.emplace("distribution", po::variable_value(name, false));
        if (g >= 5) vm.emplace("num-bubbles", po::variable_value(uint(nb), false));
        if (g == 5) vm.emplace("bubble-radius", po::variable_value(radius, false));
        return createGenerator<D, P>(vm);
    };
    int how = r.below(2);
    auto gp = make(how);
    if (!gp) { ctx().violation(key + ":factory", "no generator"); return; }
    { // the factory returns the kind asked for
        PointGenerator<D, P> *q = gp.get();
        bool ok = g == 0 ? !!dynamic_cast<UniformPointGenerator<D, P> *>(q) : g == 1 ? !!dynamic_cast<NormalPointGenerator<D, P> *>(q) : g == 2 ? !!dynamic_cast<BubblePointGenerator<D, P> *>(q)
                : g == 3 ? !!dynamic_cast<EllipsoidPointGenerator<D, P> *>(q) : g == 4 ? !!dynamic_cast<SkewLinePointGenerator<D, P> *>(q) : g == 5 ? !!dynamic_cast<lb::UnboundBubbleGenerator<D, P> *>(q)
                : g == 6 ? !!dynamic_cast<lb::PatchBubbleGenerator<D, P> *>(q) : !!dynamic_cast<lb::MaliciousBubbleGenerator<D, P> *>(q);
        VT_CHECK(key + ":factory", ok, "wrong kind of generator for ", name);
    }
    uint64_t s = r.next();
    tGenerator e1(s), e2(s), e3(s + 1);
    auto ps = gp->generate(n, box, e1);
    auto ps2 = make(1 - how)->generate(n, box, e2);
    VT_CHECK(key + ":count", ps.finite_size() == n + 1, ps.finite_size(), " slots for ", n, " points");
    if (ps.finite_size() != n + 1) return;
    bool same = ps2.finite_size() == ps.finite_size();
    for (size_t i = 1; same && i <= n; ++i) same = at<D, P>(ps, i) == at<D, P>(ps2, i);
    VT_CHECK(key + ":repeatable", same, "same seed, different points");
    if (n >= 20 && g != 4) {
        auto ps3 = make(how)->generate(n, box, e3);
        size_t eq = 0; for (size_t i = 1; i <= n; ++i) eq += at<D, P>(ps, i) == at<D, P>(ps3, i);
        if (g != 7) VT_CHECK(key + ":seed", eq < n / 2, eq, " of ", n, " points equal for different seeds");
    }
    double eps = std::numeric_limits<P>::epsilon();
    size_t outside = 0, bad = 0;
    uint64_t h = g;
    std::vector<std::vector<size_t>> quarter(D, std::vector<size_t>(4));
    std::vector<size_t> orth(1 << D);
    std::vector<double> mean(D);
    size_t onA = 0, onB = 0, onBoth = 0;
    std::set<std::array<P, D>> distinct;
    for (size_t i = 1; i <= n; ++i) {
        auto a = at<D, P>(ps, i);
        distinct.insert(a);
        uint o = 0;
        for (uint d = 0; d < D; ++d) {
            double lo = box.low[d], hi = box.high[d], tol = 8 * eps * std::max(std::abs(lo), std::abs(hi));
            if (!(a[d] >= lo - tol && a[d] <= hi + tol)) { if (!outside++) ctx().violation(key + ":bounds", str("point ", i, " coordinate ", a[d], " outside [", lo, ",", hi, "]")); }
            double q = (a[d] - lo) / (hi - lo);
            ++quarter[d][std::min(3, std::max(0, int(q * 4)))];
            o |= (q > 0.5) << d;
            mean[d] += q;
        }
        ++orth[o];
        if (g == 3) {
            double sum = 0, tol = 0;
            for (uint d = 0; d < D; ++d) { double c = box.low[d] + (double(box.high[d]) - box.low[d]) / 2, rad = .45 * (double(box.high[d]) - box.low[d]), u = (a[d] - c) / rad; sum += u * u; tol = std::max(tol, 40 * eps * (1 + std::max(std::abs(double(box.low[d])), std::abs(double(box.high[d]))) / rad)); }
            if (std::abs(sum - 1) > tol && !bad++) ctx().violation(key + ":shape", str("point ", i, " is not on the ellipsoid: ", sum));
        }
        if (g == 4) {
            // the parameter along each line from every coordinate
            auto on = [&](bool first) {
                double lo = 1e300, hi = -1e300, tol = 0;
                for (uint d = 0; d < D; ++d) {
                    double from, to;
                    if (first) { from = box.low[d] + (d == 1 ? .1 * (double(box.high[1]) - box.low[1]) : 0); to = box.high[d]; }
                    else { from = d == 0 ? box.high[0] : box.low[d]; to = d == 0 ? box.low[0] : box.high[d]; }
                    double t = (a[d] - from) / (to - from);
                    lo = std::min(lo, t); hi = std::max(hi, t);
                    tol = std::max(tol, 40 * eps * (1 + (std::abs(double(box.low[d])) + std::abs(double(box.high[d]))) / std::abs(to - from)));
                }
                return hi - lo <= tol && lo >= -tol && hi <= 1 + tol;
            };
            bool A = on(true), B = on(false);
            if (!A && !B && !bad++) ctx().violation(key + ":shape", str("point ", i, " is on neither line"));
            onA += A && !B; onB += B && !A; onBoth += A && B;
        }
    }
    if (g == 4) VT_CHECK(key + ":shape", onA <= (n + 1) / 2 && onB <= n / 2, onA, " points on the first and ", onB, " on the second of the lines, n=", n);
    if (g <= 2 && n >= 1500) {
        double dev = 3 * std::sqrt(double(n)) + (1 << D);
        for (uint d = 0; d < D; ++d) VT_CHECK(key + ":distribution", std::abs(mean[d] - n * 0.5) < dev, "mean in dimension ", d, " is ", mean[d] / n, " of the extent, n=", n);
        for (uint o = 0; o < orth.size(); ++o) VT_CHECK(key + ":distribution", std::abs(double(orth[o]) - double(n) / (1 << D)) < dev, orth[o], " of ", n, " points in orthant ", o);
        if (g == 0) for (uint d = 0; d < D; ++d) for (int q = 0; q < 4; ++q) VT_CHECK(key + ":distribution", std::abs(quarter[d][q] - n / 4.0) < dev, quarter[d][q], " of ", n, " points in quarter ", q, " of dimension ", d);
        if (g == 1) for (uint d = 0; d < D; ++d) VT_CHECK(key + ":distribution", std::abs(double(quarter[d][1] + quarter[d][2]) - 0.5609 * n) < dev, quarter[d][1] + quarter[d][2], " of ", n, " points in the inner half");
    }
    // colliding points only by chance of rounding
    if (g != 7 && g != 5 && g != 6 && n) VT_CHECK(key + ":distinct", double(distinct.size()) >= (sizeof(P) == 8 && std::abs(off) < 1e3 * scale ? double(n) - n / 500 : double(n) - n / 20 - 2), distinct.size(), " distinct of ", n, " points");
    if (g == 5 && n) { // inside some bubble of the given radius: at most nb clusters of extent 2*radius
        std::vector<std::array<P, D>> v(distinct.begin(), distinct.end());
        std::vector<bool> used(v.size());
        (void)used;
        // greedy: order along dimension 0 cannot separate more than nb groups with gaps above the diameter
        std::sort(v.begin(), v.end());
        size_t groups = 1; for (size_t i = 1; i < v.size(); ++i) groups += double(v[i][0]) - v[i - 1][0] > 2.0 * radius * (1 + 8 * eps);
        VT_CHECK(key + ":shape", groups <= nb, groups, " groups along the first dimension for ", nb, " bubbles");
    }
    // spatial order: neighbours in the sequence are close
    if (n >= 1500 && g <= 2) {
        double sum = 0; size_t m = 0;
        for (size_t i = n / 2 + 1; i < n; ++i) { double q = 0; for (uint d = 0; d < D; ++d) { double x = (double(ps[i].coords[d]) - ps[i + 1].coords[d]) / (double(box.high[d]) - box.low[d]); q += x * x; } sum += std::sqrt(q); ++m; }
        VT_CHECK("gen:sorted", sum / m < 0.35, "generated points are not spatially sorted: average step ", sum / m, " of the extent");
        ctx().count("sorted_checked");
    }
    for (size_t i = 1; i <= n && i <= 50; ++i) { auto a = at<D, P>(ps, i); h = fnv(a.data(), sizeof a, h); }
    ctx().count("points_generated", n);
    ctx().count("gen_" + name);
    ctx().nontrivial(h);
}

template <uint D, typename P> void sorting(Rng &r) {
    dBox<D, P> box;
    auto pts = makePoints<D, P>(r.below(F_COUNT), r.range(1, 3000), r, box);
    if (r.chance(1, 3)) { size_t k = pts.size(); for (size_t i = 0; i < k / 2; ++i) pts.push_back(pts[r.below(k)]); } // equal points
    auto ps = toPoints<D, P>(pts);
    dPoint<D, P> zero = ps[0];
    size_t n = ps.finite_size() - 1;
    std::vector<std::array<P, D>> before, after;
    for (size_t i = 1; i <= n; ++i) before.push_back(at<D, P>(ps, i));
    for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k) for (uint d = 0; d < D; ++d) ps[dPoint<D, P>::cINF + k].coords[d] = P(1000 + 10 * k + d);
    auto copy = ps;
    CGALSpatialSorter<D, P> s1;
    SpatialSorter<D, P> *s = &s1;
    s->sort(ps);
    s1.sort(copy);
    if (ps.finite_size() != n + 1) { ctx().violation("sort:count", str(ps.finite_size(), " slots after sorting ", n, " points")); return; }
    for (size_t i = 1; i <= n; ++i) after.push_back(at<D, P>(ps, i));
    VT_CHECK("sort:zero", (at<D, P>(ps, 0)) == (std::array<P, D>(zero.coords)), "the reserved point 0 was moved");
    bool inf = true, rep = true;
    for (tIdType k = 0; k < dPoint<D, P>::nINF; ++k) for (uint d = 0; d < D; ++d) inf &= ps[dPoint<D, P>::cINF + k].coords[d] == P(1000 + 10 * k + d);
    VT_CHECK("sort:inf", inf, "bounding points were changed");
    for (size_t i = 1; i <= n; ++i) rep &= after[i - 1] == (at<D, P>(copy, i));
    VT_CHECK("sort:repeatable", rep, "sorting the same points twice gives different orders");
    uint64_t h = fnv(after.data(), after.size() * sizeof(after[0]));
    std::sort(before.begin(), before.end()); std::sort(after.begin(), after.end());
    VT_CHECK("sort:permutation", before == after, "the sorted points are not a permutation of the given ones");
    ctx().count("points_sorted", n);
    ctx().nontrivial(h);
}

int main(int argc, char **argv) {
    auto &C = ctx(); C.init(argc, argv);
    LOGGER.setLogLevel(Logger::Verbosity::SILENT);
    long reps = atol(C.opt("reps", "2000").c_str());
    for (long c = 0; c < reps; ++c) {
        if (!C.runs(c)) continue;
        Rng r(C.seed, c, 180);
        int D = 2 + r.below(2), fl = r.below(2), w = r.below(3);
        C.begin(c, str(D, "D ", fl ? "float " : "double ", w ? "generator" : "sort"));
        guarded("gen", [&] {
            if (w) { if (D == 2) { if (fl) generators<2, float>(r); else generators<2, double>(r); } else { if (fl) generators<3, float>(r); else generators<3, double>(r); } }
            else { if (D == 2) { if (fl) sorting<2, float>(r); else sorting<2, double>(r); } else { if (fl) sorting<3, float>(r); else sorting<3, double>(r); } }
        });
    }
    return C.finish();
}
