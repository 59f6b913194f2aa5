// C05: orientation and in-sphere predicates against exact integer arithmetic.
#include "vt.h"
#include <boost/multiprecision/cpp_int.hpp>
#include "Geometry.h"
#include "utils/Predicates.h"
using namespace vt;
typedef boost::multiprecision::cpp_int Z;
static uint64_t batchHash;

template <class F> struct Win; // coordinates are multiples of 2^q, absolute value at most 2^t
template <> struct Win<float> { static const int q = -24, t = 21, bits = 24; };
template <> struct Win<double> { static const int q = -190, t = 190, bits = 53; };

template <class F> Z toZ(F x) { // x * 2^-q, exact
    int e;
    double m = std::frexp((double)x, &e); // 0.5 <= |m| < 1
    long long k = (long long)std::ldexp(m, 53);
    int s = e - 53 - Win<F>::q;
    Z z = k;
    if (s >= 0) z <<= s; else z >>= -s; // low bits are zero
    return z;
}
template <class F> F clampW(F x) {
    F lim = std::ldexp((F)1, Win<F>::t);
    if (x > lim) x = lim;
    if (x < -lim) x = -lim;
    // multiple of 2^q
    F s = std::ldexp((F)1, Win<F>::q);
    if (std::abs(x) < s * std::ldexp((F)1, Win<F>::bits)) x = std::trunc(x / s) * s;
    return x;
}

template <class F, int D, int N> struct Gen {
    typedef std::array<std::array<F, D>, N> Pts;
    Rng &r;
    F rnd(int e) { return clampW<F>((F)std::ldexp(r.uniform(-1, 1), e)); }
    F ulps(F x) { int k = (int)r.range(0, 4) - 2; for (int i = 0; i < std::abs(k); ++i) x = std::nextafter(x, (F)(k > 0 ? 1e300 : -1e300)); return clampW<F>(x); }
    Pts operator()(int fam) {
        Pts p{};
        int e = (int)r.range(0, 8) + (sizeof(F) == 4 ? 0 : (int)r.range(0, 200) - 100);
        switch (fam) {
            case 0: for (auto &x : p) for (auto &c : x) c = rnd(e); break;
            case 1: { int m = (int)r.range(1, 12); F off = r.chance(1, 2) ? 0 : (F)std::ldexp(1, (int)r.below(12)); // tiny lattice, many exact ties
                for (auto &x : p) for (auto &c : x) c = clampW<F>(off + (F)((int)r.range(0, 2 * m) - m)); break; }
            case 2: { // points on a line / plane through the first ones, plus some ulps
                for (int i = 0; i < D; ++i) for (auto &c : p[i]) c = rnd(e);
                for (int i = D; i < N; ++i) {
                    double u = r.uniform(-2, 2), v = r.uniform(-2, 2);
                    if (r.chance(1, 3)) { u = std::round(u * 4) / 4; v = std::round(v * 4) / 4; }
                    for (int d = 0; d < D; ++d)
                        p[i][d] = ulps(clampW<F>((F)(p[0][d] + u * ((double)p[1][d] - p[0][d]) + (D > 2 ? v * ((double)p[D - 1][d] - p[0][d]) : 0))));
                }
                break; }
            case 3: { // integer points on one sphere, moved and scaled, sometimes perturbed
                static const int c2[][3] = {{25, 0, 0}, {7, 24, 0}, {15, 20, 0}, {24, 7, 0}, {20, 15, 0}, {0, 25, 0}};
                static const int c3[][3] = {{1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {3, 0, 0}, {0, 3, 0}, {0, 0, 3}, {-2, 1, 2}, {-1, -2, 2}};
                double s = std::ldexp(1, (int)r.range(0, 5)), off = r.chance(1, 3) ? 0 : std::round(r.uniform(-1000, 1000));
                for (auto &x : p) {
                    const int *b = D == 2 ? c2[r.below(6)] : c3[r.below(8)];
                    int perm = (int)r.below(D);
                    for (int d = 0; d < D; ++d) x[d] = (F)(off + s * b[(d + perm) % D] * (r.chance(1, 2) ? 1 : -1));
                    if (r.chance(1, 3)) { int d = (int)r.below(D); x[d] = ulps(x[d]); }
                    for (auto &c : x) c = clampW<F>(c);
                }
                break; }
            case 4: { // far away, close together
                std::array<F, D> o;
                for (auto &c : o) c = rnd(e + 6);
                for (auto &x : p) for (int d = 0; d < D; ++d) { x[d] = o[d]; for (int k = (int)r.below(20); k; --k) x[d] = std::nextafter(x[d], (F)(r.chance(1, 2) ? 1e300 : -1e300)); x[d] = clampW<F>(x[d]); }
                break; }
            case 5: for (auto &x : p) for (auto &c : x) c = rnd((int)r.range(0, sizeof(F) == 4 ? 30 : 300) - (sizeof(F) == 4 ? 12 : 150)); break; // wildly different magnitudes
            default: { // on a circle/sphere up to rounding
                double rad = std::ldexp(r.uniform(0.5, 1), e), cx = r.uniform(-10, 10) * rad;
                for (auto &x : p) {
                    double v[3], n = 0;
                    for (int d = 0; d < D; ++d) { v[d] = r.normal(); n += v[d] * v[d]; }
                    n = std::sqrt(n);
                    for (int d = 0; d < D; ++d) x[d] = ulps(clampW<F>((F)(cx + rad * v[d] / n)));
                }
            }
        }
        if (r.chance(1, 6)) p[r.below(N)] = p[r.below(N)];
        if (r.chance(1, 6)) { int d = (int)r.below(D); F v = p[0][d]; for (auto &x : p) if (r.chance(2, 3)) x[d] = v; }
        return p;
    }
};
static int sgn(const Z &z) { return z < 0 ? -1 : z > 0; }
template <class F> int sgn(F x) { return x < 0 ? -1 : x > 0; }

template <class F, int D> std::string dump(const std::array<F, D> *p, int n) {
    std::string s;
    char b[64];
    for (int i = 0; i < n; ++i) { for (int d = 0; d < D; ++d) { snprintf(b, 64, "%a%s", (double)p[i][d], d + 1 < D ? "," : " "); s += b; } }
    return s;
}

template <class F> static void two(Rng &r, int fam, const char *p) {
    Gen<F, 2, 4> g{r};
    auto a = g(fam);
    Z x[4][2];
    for (int i = 0; i < 4; ++i) for (int d = 0; d < 2; ++d) x[i][d] = toZ<F>(a[i][d]);
    int w = sgn(Z((x[0][0] - x[2][0]) * (x[1][1] - x[2][1]) - (x[0][1] - x[2][1]) * (x[1][0] - x[2][0])));
    F o = Predicates<2, F>::orient(a[0].data(), a[1].data(), a[2].data());
    VT_CHECK(str(p, "orient2"), sgn(o) == w, "orient2d ", o, " exact sign ", w, " at ", dump<F, 2>(a.data(), 3));
    Z m[3][3];
    for (int i = 0; i < 3; ++i) {
        m[i][0] = x[i][0] - x[3][0]; m[i][1] = x[i][1] - x[3][1];
        m[i][2] = m[i][0] * m[i][0] + m[i][1] * m[i][1];
    }
    Z det = m[0][2] * (m[1][0] * m[2][1] - m[2][0] * m[1][1]) + m[1][2] * (m[2][0] * m[0][1] - m[0][0] * m[2][1]) + m[2][2] * (m[0][0] * m[1][1] - m[1][0] * m[0][1]);
    int wi = sgn(det);
    F ic = Predicates<2, F>::insphere(a[0].data(), a[1].data(), a[2].data(), a[3].data());
    VT_CHECK(str(p, "insphere2"), sgn(ic) == wi, "incircle ", ic, " exact sign ", wi, " at ", dump<F, 2>(a.data(), 4));
    // the library's entry points
    dPoint<2, F> P[4];
    for (int i = 0; i < 4; ++i) P[i].coords = a[i];
    F go = GeometryCore<2, F>::orientation(P[0], P[1], P[2]);
    VT_CHECK(str(p, "orientation2"), sgn(go) == w, "orientation sign");
    if (w) VT_CHECK(str(p, "inside2"), (GeometryCore<2, F>::inSphere(P[3], P[0], P[1], P[2])) == (w * wi >= 0), "inSphere of ", dump<F, 2>(a.data(), 4), "exact ", w * wi);
    ctx().count(w ? "orient_nonzero" : "orient_zero");
    ctx().count(wi ? "insphere_nonzero" : "insphere_zero");
    batchHash = fnv(a.data(), sizeof a, batchHash);
}
template <class F> static void three(Rng &r, int fam, const char *p) {
    Gen<F, 3, 5> g{r};
    auto a = g(fam);
    Z x[5][3];
    for (int i = 0; i < 5; ++i) for (int d = 0; d < 3; ++d) x[i][d] = toZ<F>(a[i][d]);
    auto det3 = [&](int i, int j, int k, int o) -> Z {
        Z u[3], v[3], w[3];
        for (int d = 0; d < 3; ++d) { u[d] = x[i][d] - x[o][d]; v[d] = x[j][d] - x[o][d]; w[d] = x[k][d] - x[o][d]; }
        return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]);
    };
    int w = sgn(det3(0, 1, 2, 3));
    F o = Predicates<3, F>::orient(a[0].data(), a[1].data(), a[2].data(), a[3].data());
    VT_CHECK(str(p, "orient3"), sgn(o) == w, "orient3d ", o, " exact sign ", w, " at ", dump<F, 3>(a.data(), 4));
    Z l[4];
    for (int i = 0; i < 4; ++i) { l[i] = 0; for (int d = 0; d < 3; ++d) { Z q = x[i][d] - x[4][d]; l[i] += q * q; } }
    Z det = l[3] * det3(0, 1, 2, 4) - l[2] * det3(3, 0, 1, 4) + l[1] * det3(2, 3, 0, 4) - l[0] * det3(1, 2, 3, 4);
    int wi = sgn(det);
    F is = Predicates<3, F>::insphere(a[0].data(), a[1].data(), a[2].data(), a[3].data(), a[4].data());
    VT_CHECK(str(p, "insphere3"), sgn(is) == wi, "insphere ", is, " exact sign ", wi, " at ", dump<F, 3>(a.data(), 5));
    dPoint<3, F> P[5];
    for (int i = 0; i < 5; ++i) P[i].coords = a[i];
    F go = GeometryCore<3, F>::orientation(P[0], P[1], P[2], P[3]);
    VT_CHECK(str(p, "orientation3"), sgn(go) == w, "orientation sign");
    if (w) VT_CHECK(str(p, "inside3"), (GeometryCore<3, F>::inSphere(P[4], P[0], P[1], P[2], P[3])) == (w * wi >= 0), "inSphere of ", dump<F, 3>(a.data(), 5), "exact ", w * wi);
    ctx().count(w ? "orient_nonzero" : "orient_zero");
    ctx().count(wi ? "insphere_nonzero" : "insphere_zero");
    batchHash = fnv(a.data(), sizeof a, batchHash);
}

int main(int argc, char **argv) {
    auto &c = ctx();
    c.init(argc, argv);
    long reps = atol(c.opt("reps", "1000").c_str());
    for (long id = 0; id < reps; ++id) {
        if (!c.runs(id)) continue;
        Rng r(c.seed, id, 5);
        int fam = (int)r.below(7);
        c.begin(id, str("batch family ", fam));
        batchHash = 1469598103934665603ULL;
        guarded("preds", [&] {
            for (int i = 0; i < 40; ++i) {
                two<float>(r, fam, "f:"); two<double>(r, fam, "d:");
                three<float>(r, fam, "f:"); three<double>(r, fam, "d:");
                c.eval(4);
            }
        });
        c.nontrivial(batchHash);
    }
    return c.finish();
}
