// Workload families: point sets of the shapes users triangulate, plus hostile ones.
#pragma once
#include "Geometry.h"
#include "vt.h"
#include <array>
#include <algorithm>
#include <set>

namespace vt {

static const char *FAMILIES[] = {"uniform", "normal", "bubble", "ellipsoid", "lines", "clusters", "jitterlattice",
                                 "anisotropic", "twofar", "midline", "diagonal", "offset", "negative", "lattice",
                                 "smallint", "shell", "density"};
enum { F_UNIFORM, F_NORMAL, F_BUBBLE, F_ELLIPSOID, F_LINES, F_CLUSTERS, F_JLATTICE, F_ANISO, F_TWOFAR, F_MIDLINE,
       F_DIAGONAL, F_OFFSET, F_NEGATIVE, F_LATTICE, F_SMALLINT, F_SHELL, F_DENSITY, F_COUNT };

// n distinct points; the family decides the shape.  Points are distinct in Precision.
template <uint D, typename P>
std::vector<std::array<P, D>> makePoints(int fam, size_t n, Rng &r, dBox<D, P> &box) {
    std::vector<std::array<P, D>> out;
    std::set<std::array<P, D>> seen;
    out.reserve(n);
    size_t tries = 0;
    std::vector<std::array<double, D>> cs;
    for (int i = 0; i < 7; ++i) { std::array<double, D> c; for (auto &x : c) x = r.uniform(5, 95); cs.push_back(c); }
    uint side = 1; while (std::pow((double)side, (double)D) < n) ++side;
    while (out.size() < n) {
        std::array<double, D> c{};
        size_t i = out.size();
        switch (fam) {
        case F_NORMAL: for (auto &x : c) do x = 50 + 25 * r.normal(); while (x < 0 || x > 100); break;
        case F_BUBBLE: for (auto &x : c) { double h = r.chance(1, 2) ? 25 : 75; do x = h + 12 * r.normal(); while (x < 0 || x > 100); } break;
        case F_ELLIPSOID: { double l = 0; for (auto &x : c) { x = r.normal(); l += x * x; } l = std::sqrt(l); for (uint d = 0; d < D; ++d) c[d] = 50 + (20 + 12 * d) * c[d] / l; break; }
        case F_SHELL: { double l = 0, rr = 40 + 1e-3 * r.normal(); for (auto &x : c) { x = r.normal(); l += x * x; } l = std::sqrt(l); for (uint d = 0; d < D; ++d) c[d] = 50 + rr * c[d] / l; break; }
        case F_LINES: { double t = r.unit(); for (uint d = 0; d < D; ++d) c[d] = (i & 1) ? (d == 0 ? 100 - 100 * t : 100 * t) : (d == 1 ? 10 + 90 * t : 100 * t); for (auto &x : c) x += 1e-3 * r.normal(); break; }
        case F_CLUSTERS: { auto &q = cs[r.below(cs.size())]; double s = std::pow(10.0, -(double)r.below(4)); for (uint d = 0; d < D; ++d) c[d] = q[d] + s * r.normal(); break; }
        case F_JLATTICE: { size_t k = i; for (uint d = 0; d < D; ++d) { c[d] = (double)(k % side) + 0.3 * (r.unit() - 0.5); k /= side; } break; }
        case F_ANISO: for (uint d = 0; d < D; ++d) c[d] = r.unit() * std::pow(30.0, (double)d); break;
        case F_TWOFAR: { bool b = r.chance(1, 2); for (uint d = 0; d < D; ++d) c[d] = (b ? 1000 : 0) + r.unit(); break; }
        case F_MIDLINE: for (auto &x : c) x = r.uniform(0, 100); if (r.chance(1, 4)) c[r.below(D)] = 50; if (i == 0) for (auto &x : c) x = 0; if (i == 1) for (auto &x : c) x = 100; break;
        case F_DIAGONAL: { double t = r.uniform(0, 100); for (auto &x : c) x = t + 0.01 * r.normal(); break; }
        case F_OFFSET: for (uint d = 0; d < D; ++d) c[d] = 5000 * (d + 1) + r.unit() * 10; break;
        case F_NEGATIVE: for (auto &x : c) x = -100 - 100 * r.unit(); break;
        case F_LATTICE: { size_t k = i; for (uint d = 0; d < D; ++d) { c[d] = (double)(k % side); k /= side; } break; }
        case F_SMALLINT: { double m = std::max(4.0, std::pow(3.0 * n, 1.0 / D)); for (auto &x : c) x = std::floor(r.unit() * m); break; }
        case F_DENSITY: for (auto &x : c) { double u = r.unit(); x = 100 * u * u * u * u; } break;
        case F_UNIFORM: default: for (auto &x : c) x = r.uniform(0, 100);
        }
        std::array<P, D> p;
        for (uint d = 0; d < D; ++d) p[d] = (P)c[d];
        if (seen.insert(p).second) { out.push_back(p); tries = 0; }
        else if (++tries > 10000) break;
    }
    for (uint d = 0; d < D; ++d) {
        box.low[d] = std::numeric_limits<P>::max(); box.high[d] = std::numeric_limits<P>::lowest();
        for (auto &p : out) { box.low[d] = std::min(box.low[d], p[d]); box.high[d] = std::max(box.high[d], p[d]); }
    }
    // order: shuffled, or sorted along an axis, or as generated
    switch (r.below(3)) {
    case 0: for (size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[r.below(i)]); break;
    case 1: std::sort(out.begin(), out.end()); break;
    default: break;
    }
    return out;
}

template <uint D, typename P> dPoints<D, P> toPoints(const std::vector<std::array<P, D>> &v) {
    dPoints<D, P> ps;
    for (auto &c : v) { dPoint<D, P> p; for (uint d = 0; d < D; ++d) p.coords[d] = c[d]; ps.emplace_back(p); }
    return ps;
}

} // namespace vt
