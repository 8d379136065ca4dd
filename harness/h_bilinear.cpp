// C03: bilinear downscaling against an inverse-bilinear reference.
#include "common.h"
#include "nnref.h"
#include "bilref.h"
using namespace gridpp;

// shape: 0 rectangle, 1 parallelogram (rotated/sheared), 2 trapezoid (row dependent spacing), 3 general convex quads, 4 lat-dependent spacing with column shear
static GridSpec make(Rng& r, int& shape) {
    shape = r.i(0, 4);
    GridOpt o; o.maxLat = 60; o.isotropic = true; o.maxSp = 0.4; o.minSp = shape >= 2 ? 0.1 : 0.004; o.rotate = shape == 1 ? 1 : 0; o.shear = shape == 1 ? 0.2 : 0;
    if(shape == 3) o.jitter = r.u(0.02, 0.12);
    GridSpec g = gen_grid(r, o);
    if(shape == 2 || shape == 4) {
        double k = r.u(-0.03, 0.03);
        for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
            if(shape == 2) { g.lats[y][x] = g.lat0 + y * g.dlat; g.lons[y][x] = g.lon0 + (x - 0.5 * (g.X - 1)) * g.dlon * (1 + k * y); }
            else { g.lats[y][x] = g.lat0 + (y - 0.5 * (g.Y - 1)) * g.dlat * (1 + k * x); g.lons[y][x] = g.lon0 + x * g.dlon; }
        }
    }
    return g;
}
struct Found { bool has; int y, x; double u, v, margin; };
static Found locate(const GridSpec& g, float la, float lo) {
    Found best = {false, 0, 0, 0, 0, -1e9};
    for(int y = 0; y + 1 < g.Y; y++) for(int x = 0; x + 1 < g.X; x++) {
        double py[4] = {g.lats[y][x], g.lats[y + 1][x], g.lats[y][x + 1], g.lats[y + 1][x + 1]}, px[4] = {g.lons[y][x], g.lons[y + 1][x], g.lons[y][x + 1], g.lons[y + 1][x + 1]}, u, v;
        if(!inv_bilinear(la, lo, py, px, u, v)) continue;
        double m = std::min(std::min(u, 1 - u), std::min(v, 1 - v));
        if(m > best.margin) best = {true, y, x, u, v, m};
    }
    return best;
}
CASE(value) {
    Rng& r = c.rng; int shape; GridSpec g = make(r, shape); Grid G = g.grid();
    double ms = r.pick({0.0, 0.0, 0.1, 0.3}); int T = r.i(1, 3);
    vec3 V; for(int t = 0; t < T; t++) V.push_back(gen_field(r, g.Y, g.X, ms));
    if(r.p(0.15)) { double a = r.u(-3, 3), b = r.u(-3, 3), k = r.u(-10, 10); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) V[0][y][x] = k + a * y + b * x; }
    int n = r.i(1, 14); PointsSpec ps = gen_points_in(r, g, n, 0.8, 0.05, 0.15); for(int i = 0; i < n; i++) if(shape >= 2 && g.Y > 1 && g.X > 1 && r.p(0.8)) { int y = r.i(0, g.Y - 2), x = r.i(0, g.X - 2); double u = r.u(), v = r.u(); if(r.p(0.1)) u = r.i(0, 1); if(r.p(0.1)) v = r.i(0, 1); ps.lats[i] = (1 - u) * (1 - v) * g.lats[y][x] + u * (1 - v) * g.lats[y + 1][x] + (1 - u) * v * g.lats[y][x + 1] + u * v * g.lats[y + 1][x + 1]; ps.lons[i] = (1 - u) * (1 - v) * g.lons[y][x] + u * (1 - v) * g.lons[y + 1][x] + (1 - u) * v * g.lons[y][x + 1] + u * v * g.lons[y + 1][x + 1]; }
    int oX = n; if(r.p(0.3)) { GridOpt oo; oo.maxY = oo.maxX = 5; GridSpec og = cover_grid(r, g, oo, 0.8); ps = flatten(og); n = ps.lats.size(); oX = og.X; }
    Points P = ps.points(); c.h(g.lats); c.h(V); c.h(ps.lats);
    std::string d = strf("shape=%d ", shape) + g.desc; c.sample(d + strf(" %d points", n));
    vec2 out = bilinear(G, P, V);
    if(!c.ok((int) out.size() == T && (int) out[0].size() == n, "bilinear:size", d)) return;
    vec2 ol = fold(ps.lats, oX), oo = fold(ps.lons, oX); Grid OG(ol, oo, vec2(), vec2(), g.type);
    vec3 og = bilinear(G, OG, V); vec2 og1 = bilinear(G, OG, V[0]); vec op1 = bilinear(G, P, V[0]);
    Src s = src_of(g);
    double fuzz = 2e-3 + (g.type == Geodetic ? 3e-5 / std::min(g.dlat, g.dlon) : 4e-7 * (std::fabs(g.lat0) + std::fabs(g.lon0) + 10 * g.dlat) / std::min(g.dlat, g.dlon));
    if(shape >= 2) fuzz += 1.2e-4 / (g.dlat * g.dlon);   // a quad whose opposite sides are within 1e-4 is treated as a parallelogram
    for(int t = 0; t < T; t++) for(int i = 0; i < n; i++) {
        float got = out[t][i]; std::string dd;
        auto det = [&] { return d + strf(" t=%d point %d (%.9g,%.9g) got %.9g", t, i, ps.lats[i], ps.lons[i], got); };
        c.near(og[t][i / oX][i % oX], got, 0, "bilinear:grid-vec3-vs-points", det);
        if(t == 0) { c.near(og1[i / oX][i % oX], got, 0, "bilinear:grid-vec2-vs-vec3", det); c.near(op1[i], got, 0, "bilinear:points-vec2-vs-vec3", det); }
        Found f = locate(g, ps.lats[i], ps.lons[i]);
        auto isnear = [&] { for(int k : nn_candidates(s, ps.lats[i], ps.lons[i])) { float w = V[t][k / g.X][k % g.X]; if(std::isnan(w) ? std::isnan(got) : w == got) return true; } return false; };
        double lo = 1e30, hi = -1e30; bool miss = false; double want = 0; 
        if(f.has) {
            double w[4] = {(1 - f.u) * (1 - f.v), f.u * (1 - f.v), (1 - f.u) * f.v, f.u * f.v};
            float q[4] = {V[t][f.y][f.x], V[t][f.y + 1][f.x], V[t][f.y][f.x + 1], V[t][f.y + 1][f.x + 1]};
            for(int k = 0; k < 4; k++) { if(std::isnan(q[k])) miss = true; else { lo = std::min(lo, (double) q[k]); hi = std::max(hi, (double) q[k]); want += w[k] * q[k]; } }
        }
        if(!f.has || f.margin < -fuzz) c.okf(isnear(), "bilinear:outside-not-nearest", det);
        else if(f.margin > fuzz) {
            if(miss) c.okf(isnear(), "bilinear:missing-corner-not-nearest", det);
            else {
                c.near(got, want, (hi - lo) * fuzz * 1.5 + 1e-4 * (1 + std::fabs(want)), "bilinear:value", [&] { return det() + strf(" u=%.6f v=%.6f", f.u, f.v); });
                c.okf(got >= lo - 1e-4 * (1 + std::fabs(lo)) && got <= hi + 1e-4 * (1 + std::fabs(hi)), "bilinear:outside-corner-range", det);
            }
        }
    }
    vec2 bad = init2(g.Y, g.X + 1);
    c.ok(!runs([&] { bilinear(G, P, bad); }) && !runs([&] { bilinear(G, OG, bad); }) && !runs([&] { bilinear(G, P, vec3(2, bad)); }) && !runs([&] { bilinear(G, OG, vec3(2, bad)); }), "bilinear:accepts-size-mismatch", d);
}
