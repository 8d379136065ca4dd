// C04: elevation / land-area-fraction gradient downscaling and smart neighbours.
#include "common.h"
using namespace gridpp;

static float full(float v, float ge, float oe, float ie, bool he, float gl, float ol, float il, bool hl) {
    double lc = 0, ec = 0;
    if(hl && isv(ol) && isv(il)) lc = (double) gl * ((double) ol - il);
    if(he && isv(oe) && isv(ie)) ec = (double) ge * ((double) oe - ie);
    return v + lc + ec;
}
CASEW(gradient, 3) {
    Rng& r = c.rng; GridOpt o; o.maxLat = 70; o.isotropic = true; o.shear = 0.1; o.maxSp = 0.5; o.metaMissing = r.pick({0.0, 0.05, 0.3}); GridSpec ig = gen_grid(r, o);
    if(r.p(0.08)) { ig.elevs.clear(); } if(r.p(0.08)) ig.lafs.clear();
    int oY = r.i(1, 5), oX = r.i(1, 5), n = oY * oX;
    PointsSpec ps = gen_points_in(r, ig, n, 1.0, o.metaMissing, 0.2);
    if(r.p(0.3)) { GridOpt oo; oo.maxY = oo.maxX = 5; GridSpec og = cover_grid(r, ig, oo, 1.0); ps = flatten(og); oY = og.Y; oX = og.X; n = oY * oX; }
    vec2 la = fold(ps.lats, oX), lo = fold(ps.lons, oX), el = fold(ps.elevs, oX), lf = fold(ps.lafs, oX);
    Grid G = ig.grid(), OG(la, lo, el, lf, ig.type); Points P = ps.points();
    int T = r.i(1, 3); double ms = r.pick({0.0, 0.1, 0.4}); Downscaler dn = r.p(0.5) ? Nearest : Bilinear;
    vec3 V = gen_field3(r, T, ig.Y, ig.X, ms), GE = gen_field3(r, T, ig.Y, ig.X, r.pick({0.0, 0.1}), -0.02, 0.02), GL = gen_field3(r, T, ig.Y, ig.X, r.pick({0.0, 0.1}), -10, 10);
    bool he = r.p(0.8), hl = r.p(0.8);
    vec3 ge = he ? GE : vec3(), gl = hl ? GL : vec3();
    vec2 ge2 = he ? GE[0] : vec2(), gl2 = hl ? GL[0] : vec2();
    c.h(ig.lats); c.h(V); c.h(ps.lats); std::string d = ig.desc + strf(" T=%d downscaler=%d elev=%d laf=%d", T, dn, he, hl); c.sample(d);
    // reference pieces, one field at a time through the simplest overload
    vec ie = downscaling(G, P, G.get_elevs(), dn), il = downscaling(G, P, G.get_lafs(), dn);
    std::vector<vec> dv(T), dge(T), dgl(T);
    for(int t = 0; t < T; t++) { dv[t] = downscaling(G, P, V[t], dn); dge[t] = downscaling(G, P, GE[t], dn); dgl[t] = downscaling(G, P, GL[t], dn); }
    auto want = [&](int t, int k) { return full(dv[t][k], dge[t][k], ps.elevs[k], ie[k], he, dgl[t][k], ps.lafs[k], il[k], hl); };
    auto tol = [&](int t, int k) { double a = std::fabs(dv[t][k]); if(he) a += std::fabs(dge[t][k] * ps.elevs[k]) + std::fabs(dge[t][k] * ie[k]); if(hl) a += std::fabs(dgl[t][k]); return std::isfinite(a) ? 2e-5 * (1 + a) : 0.1; };
    vec2 a2 = full_gradient(G, OG, V[0], ge2, gl2, dn); vec3 a3 = full_gradient(G, OG, V, ge, gl, dn); vec b1 = full_gradient(G, P, V[0], ge2, gl2, dn); vec2 b2 = full_gradient(G, P, V, ge, gl, dn); vec3 dbg = full_gradient_debug(G, OG, V[0], ge2, gl2, dn);
    float eg = r.p(0.1) ? NaNf : r.u(-0.02, 0.02);
    vec2 s2 = simple_gradient(G, OG, V[0], eg, dn); vec3 s3 = simple_gradient(G, OG, V, eg, dn); vec q1 = simple_gradient(G, P, V[0], eg, dn); vec2 q2 = simple_gradient(G, P, V, eg, dn);
    bool sz = (int) a2.size() == oY && (int) a3.size() == T && (int) b1.size() == n && (int) b2.size() == T && (int) dbg.size() == oY && (int) s2.size() == oY && (int) s3.size() == T && (int) q1.size() == n && (int) q2.size() == T;
    if(!c.ok(sz, "gradient:size", d)) return;
    for(int k = 0; k < n; k++) {
        int y = k / oX, x = k % oX;
        auto det = [&] { return d + strf(" output %d elev %.7g laf %.7g ielev %.7g ilaf %.7g", k, ps.elevs[k], ps.lafs[k], ie[k], il[k]); };
        c.near(a2[y][x], want(0, k), tol(0, k), "full_gradient(grid,grid,vec2)", det);
        c.near(b1[k], want(0, k), tol(0, k), "full_gradient(grid,points,vec2)", det);
        for(int t = 0; t < T; t++) { c.near(a3[t][y][x], want(t, k), tol(t, k), "full_gradient(grid,grid,vec3)", det); c.near(b2[t][k], want(t, k), tol(t, k), "full_gradient(grid,points,vec3)", det); }
        c.near(dbg[y][x][0], want(0, k), tol(0, k), "full_gradient_debug:value", det);
        if(he) { c.near(dbg[y][x][2], ps.elevs[k] - ie[k], 1e-3, "full_gradient_debug:elev_diff", det); }
        if(hl) { c.near(dbg[y][x][1], ps.lafs[k] - il[k], 1e-5, "full_gradient_debug:laf_diff", det); c.near(dbg[y][x][6], il[k], 1e-6, "full_gradient_debug:ilaf", det); }
        c.near(dbg[y][x][5], ps.lafs[k], 0, "full_gradient_debug:olaf", det);
        auto sw = [&](int t) { return (double) dv[t][k] + ((double) ps.elevs[k] - ie[k]) * eg; };
        double st = 2e-5 * (1 + std::fabs(dv[0][k]) + std::fabs(eg) * (std::fabs(ps.elevs[k]) + std::fabs(ie[k]))); if(!std::isfinite(st)) st = 0.1;
        c.near(s2[y][x], sw(0), st, "simple_gradient(grid,grid,vec2)", det); c.near(q1[k], sw(0), st, "simple_gradient(grid,points,vec2)", det);
        for(int t = 0; t < T; t++) { double st2 = std::isfinite(dv[t][k]) ? st + 2e-5 * std::fabs(dv[t][k]) : st; c.near(s3[t][y][x], sw(t), st2, "simple_gradient(grid,grid,vec3)", det); c.near(q2[t][k], sw(t), st2, "simple_gradient(grid,points,vec3)", det); }
    }
    // wrong sizes are refused, never read
    vec2 bad = init2(ig.Y + r.i(0, 1), ig.X + 1); vec3 badT = GE; badT.push_back(GE[0]); vec3 badS(T, bad);
    c.ok(!runs([&] { full_gradient(G, OG, bad, vec2(), vec2(), dn); }) && !runs([&] { full_gradient(G, P, bad, vec2(), vec2(), dn); }) && !runs([&] { simple_gradient(G, OG, bad, 0, dn); }) && !runs([&] { simple_gradient(G, P, bad, 0, dn); }) && !runs([&] { simple_gradient(G, P, badS, 0, dn); }) && !runs([&] { simple_gradient(G, OG, badS, 0, dn); }), "gradient:accepts-value-size-mismatch", d);
    c.ok(!runs([&] { full_gradient(G, OG, V[0], bad, vec2(), dn); }) && !runs([&] { full_gradient(G, OG, V[0], vec2(), bad, dn); }) && !runs([&] { full_gradient(G, P, V[0], bad, vec2(), dn); }) && !runs([&] { full_gradient(G, P, V[0], vec2(), bad, dn); }), "gradient:accepts-gradient-size-mismatch", d);
    c.ok(!runs([&] { full_gradient(G, OG, V, badT, vec3(), dn); }) && !runs([&] { full_gradient(G, OG, V, vec3(), badS, dn); }) && !runs([&] { full_gradient(G, P, V, vec3(), badT, dn); }) && !runs([&] { full_gradient(G, P, V, badS, vec3(), dn); }), "gradient:accepts-gradient3-size-mismatch", d);
}
CASE(smart) {
    Rng& r = c.rng; GridOpt o; o.maxLat = 70; o.isotropic = true; o.metaMissing = r.pick({0.0, 0.0, 0.1}); o.minSp = 0.01; o.maxSp = 0.2; GridSpec ig = gen_grid(r, o);
    int n = r.i(1, 8); PointsSpec ps = gen_points_in(r, ig, n, r.pick({0.5, 4.0}), o.metaMissing, 0.2);
    Grid OG(vec2(1, ps.lats), vec2(1, ps.lons), vec2(1, ps.elevs), vec2(1, ps.lafs), ig.type), G = ig.grid();
    double cell = ig.type == Cartesian ? ig.dlat : ig.dlat * 111e3;
    BarnesStructure st(cell * r.u(0.1, 1.0), r.p(0.7) ? r.u(50, 500) : 0, r.p(0.4) ? r.u(0.2, 1) : 0, r.p(0.5) ? 0 : cell * r.u(0.3, 4));
    vec2 V = gen_field(r, ig.Y, ig.X, r.pick({0.0, 0.0, 0.1})); int num = r.pick({0, 1, 1, 2, 3, 5, 20, 200}); c.h(ig.lats); c.h(V); c.h(ps.lats);
    vec2 out = smart(G, OG, V, num, st); std::string d = ig.desc + strf(" num=%d", num); c.sample(d);
    if(!c.ok(out.size() == 1 && (int) out[0].size() == n, "smart:size", d)) return;
    for(int k = 0; k < n; k++) {
        Point p1 = OG.get_point(0, k); double dist = st.localization_distance(p1); std::vector<std::pair<double, int>> rh; bool edge = false; double pt = ig.type == Cartesian ? 1e-6 * (std::fabs(ps.lats[k]) + std::fabs(ps.lons[k]) + cell) : 3;
        for(int q = 0; q < ig.Y * ig.X; q++) { double dd = ref_straight(ps.lats[k], ps.lons[k], ig.lats[q / ig.X][q % ig.X], ig.lons[q / ig.X][q % ig.X], ig.type); if(std::fabs(dd - dist) <= pt) edge = true; if(dd < dist) rh.push_back({st.corr(p1, G.get_point(q / ig.X, q % ig.X)), q}); }
        if(edge) continue;
        std::sort(rh.begin(), rh.end(), [](const std::pair<double, int>& a, const std::pair<double, int>& b) { return a.first > b.first; });
        int m = std::min(num, (int) rh.size()); double sum = 0; bool tie = m > 0 && m < (int) rh.size() && rh[m - 1].first - rh[m].first < 1e-6;
        if(tie) continue;
        for(int q = 0; q < m; q++) sum += V[rh[q].second / ig.X][rh[q].second % ig.X];
        double want = m > 0 ? sum / m : NaNd;
        c.near(out[0][k], want, 1e-4 * (1 + std::fabs(want)), "smart:value", [&] { return d + strf(" output %d of %d neighbours within %.6g", m, (int) rh.size(), dist); });
    }
}
