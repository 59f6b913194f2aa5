// exact in-sphere and flatness tests (stock CGAL)
#pragma once
#include "tri_oracle.h"
namespace vt {
template <typename P> int sideOf(const dPoints<2, P> &ps, const dSimplex<2, P> &s, const dPoint<2, P> &p) {
    auto q = [&](const dPoint<2, P> &x) { return RK::Point_2(x.coords[0], x.coords[1]); };
    auto r = CGAL::side_of_bounded_circle(q(ps[s.vertices[0]]), q(ps[s.vertices[1]]), q(ps[s.vertices[2]]), q(p));
    return r == CGAL::ON_BOUNDED_SIDE ? 1 : r == CGAL::ON_BOUNDARY ? 0 : -1;
}
template <typename P> int sideOf(const dPoints<3, P> &ps, const dSimplex<3, P> &s, const dPoint<3, P> &p) {
    auto q = [&](const dPoint<3, P> &x) { return RK::Point_3(x.coords[0], x.coords[1], x.coords[2]); };
    auto r = CGAL::side_of_bounded_sphere(q(ps[s.vertices[0]]), q(ps[s.vertices[1]]), q(ps[s.vertices[2]]), q(ps[s.vertices[3]]), q(p));
    return r == CGAL::ON_BOUNDED_SIDE ? 1 : r == CGAL::ON_BOUNDARY ? 0 : -1;
}
template <typename P> bool flat(const dPoints<2, P> &ps, const dSimplex<2, P> &s) {
    auto q = [&](tIdType i) { return RK::Point_2(ps[i].coords[0], ps[i].coords[1]); };
    return CGAL::orientation(q(s.vertices[0]), q(s.vertices[1]), q(s.vertices[2])) == CGAL::ZERO;
}
template <typename P> bool flat(const dPoints<3, P> &ps, const dSimplex<3, P> &s) {
    auto q = [&](tIdType i) { return RK::Point_3(ps[i].coords[0], ps[i].coords[1], ps[i].coords[2]); };
    return CGAL::orientation(q(s.vertices[0]), q(s.vertices[1]), q(s.vertices[2]), q(s.vertices[3])) == CGAL::ZERO;
}
}
