// Nearest-neighbour reference: the set of source indices that are nearest within rounding.
#pragma once
#include "common.h"
struct Src { vec lats, lons; gridpp::CoordinateType t; };
inline Src src_of(const GridSpec& g) { Src s; s.t = g.type; for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { s.lats.push_back(g.lats[y][x]); s.lons.push_back(g.lons[y][x]); } return s; }
inline Src src_of(const PointsSpec& p) { return Src{p.lats, p.lons, p.type}; }
// exact: double-precision geometry is exact up to float conversion of coordinates
inline ivec nn_candidates(const Src& s, float la, float lo) {
    ivec c; if(s.lats.empty()) return c;
    dvec d(s.lats.size()); double m = 1e300, mg = std::max(std::fabs(la), std::fabs(lo));
    for(size_t i = 0; i < d.size(); i++) { d[i] = ref_straight(s.lats[i], s.lons[i], la, lo, s.t); m = std::min(m, d[i]); mg = std::max(mg, std::max((double) std::fabs(s.lats[i]), (double) std::fabs(s.lons[i]))); }
    // float positions are off by < 1 m (geodetic); squared-distance comparisons in float are off by a relative 1e-6
    double tol = s.t == gridpp::Cartesian ? 2e-6 * (mg + m) : 2.0 + 1e-6 * m;
    for(size_t i = 0; i < d.size(); i++) if(d[i] <= m + tol) c.push_back(i);
    return c;
}
