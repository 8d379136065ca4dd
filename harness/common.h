// Generators and geometry for the harnesses of the C++ library.
#pragma once
#include "gridpp.h"
#include "core.h"

// ---------------------------------------------------------------- generators
struct GridSpec { vec2 lats, lons, elevs, lafs; gridpp::CoordinateType type; int Y, X; double dlat, dlon, lat0, lon0, ang, shear; std::string desc; gridpp::Grid grid() const { return gridpp::Grid(lats, lons, elevs, lafs, type); } };
struct PointsSpec { vec lats, lons, elevs, lafs; gridpp::CoordinateType type; gridpp::Points points() const { return gridpp::Points(lats, lons, elevs, lafs, type); } };

inline vec2 init2(int Y, int X, float v = 0) { return vec2(Y, vec(X, v)); }
inline vec3 init3(int Y, int X, int E, float v = 0) { return vec3(Y, vec2(X, vec(E, v))); }

struct GridOpt { int minY = 1, maxY = 9, minX = 1, maxX = 9; int type = -1; double maxLat = 75; double rotate = 0.5; double shear = 0.25; double jitter = 0; bool meta = true; double metaMissing = 0.05; double minSp = 0.002, maxSp = 1.0; bool isotropic = false; };
inline GridSpec gen_grid(Rng& r, GridOpt o = GridOpt()) {
    GridSpec g;
    g.Y = r.i(o.minY, o.maxY); g.X = r.i(o.minX, o.maxX);
    g.type = o.type < 0 ? (r.p(0.3) ? gridpp::Cartesian : gridpp::Geodetic) : (gridpp::CoordinateType) o.type;
    bool cart = g.type == gridpp::Cartesian;
    double sp = std::exp(r.u(std::log(o.minSp), std::log(o.maxSp)));
    g.dlat = cart ? sp * 1e5 : sp;
    g.dlon = o.isotropic ? g.dlat : g.dlat * r.u(0.6, 1.7);
    g.lat0 = cart ? r.u(-2e4, 2e4) : r.u(-o.maxLat, o.maxLat - std::min(o.maxLat, 9 * g.dlat));
    g.lon0 = cart ? r.u(-2e4, 2e4) : r.u(-170, 160);
    if(!cart && r.p(0.1)) g.lon0 = r.u(150, 180);
    if(!cart) g.dlon = std::min(g.dlon / std::max(0.2, std::cos(g.lat0 * M_PI / 180)), 4.0);
    g.ang = r.p(o.rotate) ? r.u(-0.6, 0.6) : 0;
    g.shear = r.p(0.4) ? r.u(-o.shear, o.shear) : 0;
    g.lats = init2(g.Y, g.X); g.lons = init2(g.Y, g.X); g.elevs = init2(g.Y, g.X); g.lafs = init2(g.Y, g.X);
    double base = r.u(0, 800), rough = r.p(0.2) ? 0 : r.u(0, 400);
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
        double yy = y, xx = x + g.shear * y;
        if(o.jitter > 0) { yy += r.u(-o.jitter, o.jitter); xx += r.u(-o.jitter, o.jitter); }
        double Yr = std::cos(g.ang) * yy + std::sin(g.ang) * xx, Xr = -std::sin(g.ang) * yy + std::cos(g.ang) * xx;
        double la = g.lat0 + Yr * g.dlat, lo = g.lon0 + Xr * g.dlon;
        if(!cart) la = std::max(-89.0, std::min(89.0, la));
        g.lats[y][x] = la; g.lons[y][x] = lo;
        g.elevs[y][x] = base + rough * r.n();
        g.lafs[y][x] = r.p(0.3) ? r.i(0, 1) : r.u();
        if(o.meta && r.p(o.metaMissing)) g.elevs[y][x] = NaNf;
        if(o.meta && r.p(o.metaMissing)) g.lafs[y][x] = NaNf;
    }
    if(!o.meta) { g.elevs.clear(); g.lafs.clear(); }
    g.desc = strf("grid %dx%d type=%d lat0=%.6g lon0=%.6g dlat=%.6g dlon=%.6g ang=%.4g shear=%.4g", g.Y, g.X, (int) g.type, g.lat0, g.lon0, g.dlat, g.dlon, g.ang, g.shear);
    return g;
}
// a location near/in the grid
inline void gen_loc(Rng& r, const GridSpec& g, double margin, float& lat, float& lon) {
    double y = r.u(-margin, g.Y - 1 + margin), x = r.u(-margin, g.X - 1 + margin);
    if(r.p(0.15)) y = std::round(y);
    if(r.p(0.15)) x = std::round(x);
    double xx = x + g.shear * y;
    double Yr = std::cos(g.ang) * y + std::sin(g.ang) * xx, Xr = -std::sin(g.ang) * y + std::cos(g.ang) * xx;
    double la = g.lat0 + Yr * g.dlat;
    if(g.type == gridpp::Geodetic) la = std::max(-89.5, std::min(89.5, la));
    lat = la; lon = g.lon0 + Xr * g.dlon;
}
inline PointsSpec gen_points_in(Rng& r, const GridSpec& g, int n, double margin = 1, double missing = 0.05, double dup = 0.1) {
    PointsSpec p; p.type = g.type;
    for(int i = 0; i < n; i++) {
        float la, lo; gen_loc(r, g, margin, la, lo);
        if(r.p(dup)) { int y = r.i(0, g.Y - 1), x = r.i(0, g.X - 1); la = g.lats[y][x]; lo = g.lons[y][x]; }
        else if(i > 0 && r.p(dup / 2)) { int k = r.i(0, i - 1); la = p.lats[k]; lo = p.lons[k]; }
        p.lats.push_back(la); p.lons.push_back(lo);
        p.elevs.push_back(r.p(missing) ? NaNf : r.u(-10, 1500)); p.lafs.push_back(r.p(missing) ? NaNf : (r.p(0.3) ? r.i(0, 1) : r.u()));
    }
    return p;
}
// an output grid over the input grid: scattered locations, or one of the special relations users have (the same grid, shared rows/columns of coordinates, transposed, mirrored, shifted, nested)
inline GridSpec cover_grid(Rng& r, const GridSpec& ig, const GridOpt& o0, double margin = 1.0) {
    GridOpt o = o0; o.type = ig.type; int mode = r.i(0, 17); int Y = ig.Y, X = ig.X;
    if(mode < 8) { GridSpec og = gen_grid(r, o); for(int y = 0; y < og.Y; y++) for(int x = 0; x < og.X; x++) { float la, lo; gen_loc(r, ig, margin, la, lo); if(r.p(0.2)) { int yy = r.i(0, Y - 1), xx = r.i(0, X - 1); la = ig.lats[yy][xx]; lo = ig.lons[yy][xx]; } og.lats[y][x] = la; og.lons[y][x] = lo; } return og; }
    GridSpec g = ig; auto metas = [&](std::function<void(vec2&)> f) { f(g.lats); f(g.lons); if(!g.elevs.empty()) f(g.elevs); if(!g.lafs.empty()) f(g.lafs); };
    switch(mode) {
    case 8: break;                                                                       // identical
    case 9: for(auto& row : g.lons) std::reverse(row.begin(), row.end()); break;          // same latitudes, other longitudes
    case 10: std::reverse(g.lats.begin(), g.lats.end()); break;                           // same longitudes, other latitudes
    case 11: metas([&](vec2& a) { std::reverse(a.begin(), a.end()); }); break;
    case 12: metas([&](vec2& a) { for(auto& row : a) std::reverse(row.begin(), row.end()); }); break;
    case 13: metas([&](vec2& a) { vec2 b(X, vec(Y)); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) b[x][y] = a[y][x]; a = b; }); std::swap(g.Y, g.X); break;
    case 14: { double f = r.u(-1.5, 1.5), h = r.p(0.5) ? 0 : r.u(-1.5, 1.5); for(auto& row : g.lats) for(auto& v : row) v += h * ig.dlat; for(auto& row : g.lons) for(auto& v : row) v += f * ig.dlon; break; } // same shape, shifted
    case 15: { int y0 = r.i(0, Y - 1), x0 = r.i(0, X - 1), ny = r.i(1, Y - y0), nx = r.i(1, X - x0); metas([&](vec2& a) { vec2 b; for(int y = y0; y < y0 + ny; y++) b.push_back(vec(a[y].begin() + x0, a[y].begin() + x0 + nx)); a = b; }); g.Y = ny; g.X = nx; break; } // subset
    case 16: for(auto& row : g.lats) for(auto& v : row) if(r.p(0.3)) v += r.u(-0.6, 0.6) * ig.dlat; break;  // mostly the same
    default: { int y = r.i(0, Y - 1), x = r.i(0, X - 1); g.lats[y][x] += r.u(-1, 1) * ig.dlat; g.lons[y][x] += r.u(-1, 1) * ig.dlon; }  // one different
    }
    if(g.type == gridpp::Geodetic) for(auto& row : g.lats) for(auto& v : row) v = std::max(-89.5f, std::min(89.5f, v));
    if(mode != 8 && r.p(0.5) && !g.elevs.empty()) for(auto& row : g.elevs) for(auto& v : row) if(r.p(0.3)) v = r.u(-10, 1500);
    g.desc = strf("related(%d) %s", mode, ig.desc.c_str()); return g;
}
// flatten a grid into points
inline PointsSpec flatten(const GridSpec& g) { PointsSpec p; p.type = g.type; for(size_t y = 0; y < g.lats.size(); y++) for(size_t x = 0; x < g.lats[y].size(); x++) { p.lats.push_back(g.lats[y][x]); p.lons.push_back(g.lons[y][x]); p.elevs.push_back(g.elevs.empty() ? NaNf : g.elevs[y][x]); p.lafs.push_back(g.lafs.empty() ? NaNf : g.lafs[y][x]); } return p; }
inline vec2 fold(const vec& v, int X) { vec2 o; for(size_t i = 0; i < v.size(); i += X) o.push_back(vec(v.begin() + i, v.begin() + std::min(v.size(), i + X))); return o; }
inline vec gen_vec(Rng& r, int n, double missing = 0.1, double lo = -20, double hi = 30) { vec v(n); bool ints = r.p(0.2); for(auto& f : v) { f = r.u(lo, hi); if(ints) f = std::round(f); if(r.p(missing)) f = NaNf; } return v; }
inline vec2 gen_field(Rng& r, int Y, int X, double missing = 0.1, double lo = -20, double hi = 30) { vec2 f(Y); bool ints = r.p(0.2); for(auto& row : f) { row.resize(X); for(auto& v : row) { v = r.u(lo, hi); if(ints) v = std::round(v); if(r.p(missing)) v = NaNf; } } return f; }
inline vec3 gen_field3(Rng& r, int Y, int X, int E, double missing = 0.1, double lo = -20, double hi = 30) { vec3 f(Y); for(auto& row : f) row = gen_field(r, X, E, missing, lo, hi); return f; }
inline double pick_missing(Rng& r) { return r.pick({0.0, 0.0, 0.05, 0.2, 0.6}); }

// ---------------------------------------------------------------- geometry reference (double)
struct XYZ { double x, y, z; };
inline XYZ ref_xyz(double lat, double lon, gridpp::CoordinateType t) {
    if(t == gridpp::Cartesian) return {lon, lat, 0};
    double R = 6.378137e6, la = lat * M_PI / 180, lo = lon * M_PI / 180;
    return {std::cos(la) * std::cos(lo) * R, std::cos(la) * std::sin(lo) * R, std::sin(la) * R};
}
inline double ref_straight(double lat1, double lon1, double lat2, double lon2, gridpp::CoordinateType t) {
    XYZ a = ref_xyz(lat1, lon1, t), b = ref_xyz(lat2, lon2, t);
    return std::sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z));
}
// accumulated float rounding of a position, in metres
inline double pos_tol(gridpp::CoordinateType t, double mag = 1e6) { return t == gridpp::Cartesian ? mag * 4e-7 : 3.0; }
