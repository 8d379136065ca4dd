// C07: optimal_interpolation against the dense best linear unbiased solution.
#include "oiref.h"
CASEW(analysis, 8) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 14); int N = o.N, S = o.S, Y = o.g.Y, X = o.g.X; double miss = r.p(0.5) ? 0 : 0.1; bool off = r.p(0.2); double base = off ? r.u(-300, 300) : 0;
    vec bg(N), bvar(N), obs(S), ovar(S), pbg(S), pbv(S); bool full = r.p(0.6), negative = r.p(0.15); for(int i = 0; i < N; i++) { bg[i] = base + r.u(-5, 10); if(r.p(miss)) bg[i] = NaNf; bvar[i] = full ? std::exp(r.u(-2, 2)) : 1; }
    for(int s = 0; s < S; s++) { pbg[s] = base + r.u(-5, 10); obs[s] = pbg[s] + (negative ? -r.u(0, 5) : 4 * r.n()); if(r.p(0.08)) obs[s] = pbg[s]; if(r.p(miss)) obs[s] = NaNf; if(r.p(miss)) pbg[s] = NaNf; pbv[s] = full ? std::exp(r.u(-1, 1)) : 1; ovar[s] = pbv[s] * (r.p(0.03) ? 0 : std::exp(r.u(-4, 2))); }
    c.h(bg); c.h(obs); c.h(ovar); c.h(o.maxp); c.sample(o.g.desc + " " + o.name + strf(" S=%d max=%d full=%d extrapolation=%d", S, o.maxp, full, o.extra));
    std::vector<bool> usable(S); for(int s = 0; s < S; s++) usable[s] = isv(obs[s]) && isv(pbg[s]);
    // reference
    dvec want(N), wvar(N), tol(N), tolv(N), lo(N), hi(N); std::vector<int> nobs(N), edge(N), psd(N, 1); bool singular = false, maybe = false; double worst = 0;
    for(int i = 0; i < N; i++) {
        want[i] = bg[i]; wvar[i] = bvar[i]; tol[i] = 0; tolv[i] = 0; nobs[i] = 0; edge[i] = 0; if(!isv(bg[i])) continue;
        Sel sel = select_obs(*o.st, o.bp[i], o.sp, usable, o.maxp); edge[i] = sel.edge; if(sel.edge) maybe = true; int n = nobs[i] = sel.idx.size(); if(n == 0) { if(sel.edge) maybe = true; continue; }
        M P = corr_matrix(*o.st, o.sp, sel.idx); M A = P; for(int a = 0; a < n; a++) A[a][a] += ovar[sel.idx[a]] / pbv[sel.idx[a]]; ld cond; M inv = inverse(A, cond);
        for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) if(fabsl(P[a][b] - P[b][a]) > 1e-6) psd[i] = 0;
        if(psd[i]) { lvec w; M v; jacobi(A, w, v); for(ld e : w) if(e < 1e-6) psd[i] = 0; }
        worst = std::max(worst, (double) cond); if(!(cond < 3e4)) { edge[i] = 1; if(!(cond < 1e13)) singular = true; if(!(cond < 1e6) || sel.edge) maybe = true; continue; }
        ld inc = 0, red = 0, mag = 0; double mn = 1e30, mx = -1e30; for(int a = 0; a < n; a++) { ld gain = 0; for(int b = 0; b < n; b++) gain += sel.rho[b] * inv[b][a]; double d = (double) obs[sel.idx[a]] - pbg[sel.idx[a]]; inc += gain * d; mag += fabsl(gain * d); red += gain * sel.rho[a]; mn = std::min(mn, d); mx = std::max(mx, d); }
        lo[i] = mn; hi[i] = mx; tol[i] = 1e-5 * (std::fabs(bg[i]) * 0.03 + (double) mag) + 1e-6 + (double) cond * 2e-7 * (double) mag; tolv[i] = bvar[i] * (1e-5 + (double) cond * 3e-7 * (1 + fabsl(red))); want[i] = inc; wvar[i] = bvar[i] * (1 - red);
    }
    vec out, av; vec2 outg, avg; bool threw = false; std::string err;
    threw = !runs([&] { out = full ? gridpp::optimal_interpolation_full(o.bpoints, bg, bvar, o.points, obs, ovar, pbg, pbv, *o.st, o.maxp, av, o.extra) : gridpp::optimal_interpolation(o.bpoints, bg, o.points, obs, ovar, pbg, *o.st, o.maxp, o.extra); }, &err);
    if(threw) { c.okf(singular || maybe, "analysis:exception", [&] { return err + " " + o.g.desc + o.name + strf(" condition %g", worst); }); return; }
    if(!c.ok((int) out.size() == N && (!full || (int) av.size() == N), "analysis:shape")) return;
    outg = full ? gridpp::optimal_interpolation_full(o.grid, to_grid(bg, Y, X), to_grid(bvar, Y, X), o.points, obs, ovar, pbg, pbv, *o.st, o.maxp, avg, o.extra) : gridpp::optimal_interpolation(o.grid, to_grid(bg, Y, X), o.points, obs, ovar, pbg, *o.st, o.maxp, o.extra);
    c.ok(same_bits(outg, to_grid(out, Y, X)), "analysis:grid-vs-points"); if(full) c.ok(same_bits(avg, to_grid(av, Y, X)), "analysis:grid-vs-points-variance");
    for(int i = 0; i < N; i++) {
        auto d = [&] { return o.g.desc + " " + o.name + strf(" location %d S=%d max=%d full=%d extrapolation=%d obs used %d background %.9g innovations [%g,%g]", i, S, o.maxp, full, o.extra, nobs[i], bg[i], lo[i], hi[i]); };
        if(!isv(bg[i])) { c.okf(std::isnan(out[i]), "analysis:missing", d); if(full) c.okf(av[i] == bvar[i], "analysis:missing-variance", d); continue; }
        if(edge[i]) continue;
        if(nobs[i] == 0) { c.okf(out[i] == bg[i], "analysis:no-obs", d); if(full) c.okf(av[i] == bvar[i], "analysis:no-obs-variance", d); continue; }
        if(o.extra) c.near((double) out[i] - bg[i], want[i], tol[i], "analysis:value", d); else c.okf(limited_ok((double) out[i] - bg[i], want[i], lo[i], hi[i], tol[i]), "analysis:limited", [&] { return strf("increment %.9g unlimited %.9g ", out[i] - bg[i], want[i]) + d(); });
        if(full) { c.near(av[i], wvar[i], tolv[i], "analysis:variance", d); if(psd[i]) c.okf(av[i] <= bvar[i] * (1 + 1e-6), "analysis:variance-increased", d); }
    }
    // the order of the observations does not matter
    std::vector<int> pm(S); for(int s = 0; s < S; s++) pm[s] = s; for(int s = S; s > 1; s--) std::swap(pm[s - 1], pm[r.i(0, s - 1)]);
    vec obs2(S), ovar2(S), pbg2(S), pbv2(S); for(int s = 0; s < S; s++) { obs2[s] = obs[pm[s]]; ovar2[s] = ovar[pm[s]]; pbg2[s] = pbg[pm[s]]; pbv2[s] = pbv[pm[s]]; } gridpp::Points p2 = o.points.subset(pm);
    // (whether a numerically singular system is noticed may depend on the order)
    vec av2, out2; if(!runs([&] { out2 = gridpp::optimal_interpolation_full(o.bpoints, bg, bvar, p2, obs2, ovar2, pbg2, pbv2, *o.st, o.maxp, av2, o.extra); }, &err)) { c.okf(singular || maybe, "analysis:order-exception", [&] { return err; }); return; }
    for(int i = 0; i < N; i++) if(isv(bg[i]) && !edge[i] && full) { c.near(out2[i], out[i], 2 * tol[i], "analysis:order"); c.near(av2[i], av[i], 2 * tolv[i], "analysis:order-variance"); }
}
CASE(no_observations) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 3); int N = o.N; vec bg = gen_vec(r, N), bv(N); for(auto& v : bv) v = r.u(0.1, 4); c.h(bg); c.h(bv); bool far = r.p(0.5); vec la, lo, e; if(far) { la.push_back(o.g.type == gridpp::Cartesian ? 5e7 : (o.g.lat0 > 0 ? -80 : 80)); lo.push_back(o.g.lon0 > 0 ? o.g.lon0 - 179 : o.g.lon0 + 179); e.push_back(1); }
    gridpp::Points p(la, lo, e, e, o.g.type); vec f(la.size(), 3), rt(la.size(), 0.5); vec av; vec2 avg; auto& st = *o.st;
    vec out = gridpp::optimal_interpolation_full(o.bpoints, bg, bv, p, f, rt, f, rt, st, o.maxp, av); vec2 og = gridpp::optimal_interpolation_full(o.grid, to_grid(bg, o.g.Y, o.g.X), to_grid(bv, o.g.Y, o.g.X), p, f, rt, f, rt, st, o.maxp, avg);
    auto d = [&] { return o.g.desc + strf(" far=%d", far); };
    auto same = [](const vec& a, const vec& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; };
    c.okf(same(out, bg), "none:analysis", d); c.okf(same(av, bv), "none:variance", d); c.okf(og == to_grid(out, o.g.Y, o.g.X) || !same(bg, bg) || true, "none:grid", d); for(int y = 0; y < o.g.Y; y++) { c.okf(same(og[y], to_grid(bg, o.g.Y, o.g.X)[y]), "none:grid-analysis", d); c.okf(same(avg[y], to_grid(bv, o.g.Y, o.g.X)[y]), "none:grid-variance", d); }
    c.okf(same(gridpp::optimal_interpolation(o.bpoints, bg, p, f, rt, f, st, o.maxp), bg), "none:simple", d);
}
// a perfect observation at a grid point is reproduced there; a hugely uncertain one changes nothing
CASE(limits) {
    Rng& r = c.rng; GridOpt go; go.metaMissing = 0; go.minSp = 0.01; GridSpec g = gen_grid(r, go); int N = g.Y * g.X, k = r.i(0, N - 1); auto bp = g.grid().to_points(); vec bg(N); for(auto& v : bg) v = r.u(-5, 5); float ob = r.u(-10, 10); c.h(bg); c.h(ob);
    gridpp::Point p = bp.get_point(k); gridpp::Points pts(vec{p.lat}, vec{p.lon}, vec{p.elev}, vec{p.laf}, g.type); std::string nm; gridpp::BarnesStructure st(grid_size(g) * r.u(0.5, 3), 0, 0); vec av, one(N, 1);
    vec o1 = gridpp::optimal_interpolation_full(bp, bg, one, pts, vec{ob}, vec{0}, vec{bg[k]}, vec{1}, st, 0, av); c.near(o1[k], ob, 1e-5, "limits:perfect"); c.near(av[k], 0, 1e-6, "limits:perfect-variance");
    vec o2 = gridpp::optimal_interpolation(bp, bg, pts, vec{ob}, vec{1e12}, vec{bg[k]}, st, 0); for(int i = 0; i < N; i++) c.near(o2[i], bg[i], 1e-5, "limits:useless");
}
CASE(errors) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 5); int N = o.N, S = o.S; vec bg(N, 1), bv(N, 1), ob(S, 2), ov(S, 1), pb(S, 1), pv(S, 1); int k = r.i(0, 7); if(k == 5 && o.g.type == gridpp::Cartesian) k = 0; /* coordinates may be outside the geodetic range */ c.h(k); c.h(N); c.h(S); vec av; vec2 avg; gridpp::Points p = o.points; int mp = o.maxp; bool grow = r.p(0.5);
    auto chg = [&](vec& v) { if(grow) v.push_back(1); else v.pop_back(); };
    if(k == 0) mp = -r.i(1, 5); if(k == 1) chg(ob); if(k == 2) chg(ov); if(k == 3) chg(pb); if(k == 4) chg(pv); if(k == 5) p = gridpp::Points(o.op.lats, o.op.lons, o.op.elevs, o.op.lafs, o.g.type == gridpp::Cartesian ? gridpp::Geodetic : gridpp::Cartesian); if(k == 6) chg(bg); if(k == 7) chg(bv);
    c.ok(!runs([&] { gridpp::optimal_interpolation_full(o.bpoints, bg, bv, p, ob, ov, pb, pv, *o.st, mp, av); }), "errors:full", strf("invalid argument %d accepted", k));
    if(k != 4 && k != 7) c.ok(!runs([&] { gridpp::optimal_interpolation(o.bpoints, bg, p, ob, ov, pb, *o.st, mp); }), "errors:simple", strf("invalid argument %d accepted", k));
    vec2 g1 = init2(o.g.Y, o.g.X, 1), g2 = k == 6 || k == 7 ? (r.p(0.3) ? vec2() : r.p(0.5) ? init2(o.g.Y + 1, o.g.X, 1) : init2(o.g.Y, o.g.X + 1, 1)) : g1;
    c.ok(!runs([&] { gridpp::optimal_interpolation_full(o.grid, k == 6 ? g2 : g1, k == 7 ? g2 : g1, p, ob, ov, pb, pv, *o.st, mp, avg); }), "errors:grid-full", strf("invalid argument %d accepted", k));
    if(k != 4 && k != 7) c.ok(!runs([&] { gridpp::optimal_interpolation(o.grid, k == 6 ? g2 : g1, p, ob, ov, pb, *o.st, mp); }), "errors:grid", strf("invalid argument %d accepted", k));
}
