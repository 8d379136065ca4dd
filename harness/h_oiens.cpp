// C08: optimal_interpolation_ensi against a dense ensemble-transform solution.
#include "oiref.h"
// reference at one location; want = analysis per valid member (unlimited), mag = size of the terms
static void letkf(const dvec& x, const M& Y, const lvec& ybar, const lvec& obs, const lvec& rinv, dvec& want, double& mag, double& cond) {
    int N = x.size(), n = Y.size(); M A = zeros(N, N); for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) { for(int i = 0; i < n; i++) A[a][b] += Y[i][a] * rinv[i] * Y[i][b]; if(a == b) A[a][b] += N - 1; }
    lvec w; M v; jacobi(A, w, v); ld wmin = 1e30, wmax = 0; for(ld e : w) { wmin = std::min(wmin, e); wmax = std::max(wmax, e); } cond = wmax / wmin;
    M W = zeros(N, N), P = W; for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) for(int k = 0; k < N; k++) { W[a][b] += v[a][k] * v[b][k] * sqrtl((N - 1) / w[k]); P[a][b] += v[a][k] * v[b][k] / w[k]; }
    lvec g(N, 0), ww(N, 0); for(int a = 0; a < N; a++) for(int i = 0; i < n; i++) g[a] += Y[i][a] * rinv[i] * (obs[i] - ybar[i]); for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) ww[a] += P[a][b] * g[b];
    ld xm = 0; for(double q : x) xm += q; xm /= N; want.assign(N, 0); mag = 0;
    for(int e = 0; e < N; e++) { ld t = 0; for(int k = 0; k < N; k++) { t += (x[k] - xm) * (W[k][e] + ww[k]); mag = std::max(mag, (double) (fabsl(x[k] - xm) * (1 + fabsl(ww[k])))); } want[e] = xm + t; }
}
CASEW(analysis, 8) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 9, 4); int N = o.N, S = o.S, Y = o.g.Y, X = o.g.X, E = r.p(0.1) ? r.i(1, 2) : r.i(2, 8); double base = r.p(0.2) ? r.u(-300, 300) : 0, miss = r.p(0.6) ? 0 : 0.06; bool badmember = E > 1 && r.p(0.25);
    vec2 bg = init2(N, E), pb = init2(S, E); vec obs(S), sig(S); for(int i = 0; i < N; i++) for(int e = 0; e < E; e++) bg[i][e] = base + r.u(-5, 5) + 0.5 * e; bool same = r.p(0.1); for(int s = 0; s < S; s++) { double m = base + r.u(-4, 4); for(int e = 0; e < E; e++) pb[s][e] = same ? m : m + 2 * r.n(); obs[s] = m + 3 * r.n(); if(r.p(miss)) obs[s] = NaNf; if(r.p(0.05)) obs[s] = pb[s][r.i(0, E - 1)]; if(r.p(miss / 2)) pb[s][r.i(0, E - 1)] = NaNf; sig[s] = std::exp(r.u(-1.5, 1.5)); }
    int bad = -1; if(badmember) { bad = r.i(0, E - 1); bg[r.i(0, N - 1)][bad] = NaNf; if(r.p(0.3)) for(int s = 0; s < S; s++) pb[s][bad] = r.p(0.5) ? NaNf : 99; } if(r.p(0.02)) for(auto& v : bg[0]) v = NaNf;
    c.h(bg); c.h(pb); c.h(obs); c.h(o.maxp); c.sample(o.g.desc + " " + o.name + strf(" S=%d E=%d max=%d extrapolation=%d bad member %d", S, E, o.maxp, o.extra, bad));
    ivec val; for(int e = 0; e < E; e++) { bool k = true; for(int i = 0; i < N; i++) if(!isv(bg[i][e])) k = false; if(k) val.push_back(e); } int nv = val.size();
    std::vector<bool> usable(S); for(int s = 0; s < S; s++) { usable[s] = isv(obs[s]); for(int e : val) if(!isv(pb[s][e])) usable[s] = false; }
    vec2 out = gridpp::optimal_interpolation_ensi(o.bpoints, bg, o.points, obs, sig, pb, *o.st, o.maxp, o.extra); if(!c.ok((int) out.size() == N && (int) out[0].size() == E, "analysis:shape")) return;
    vec3 og = gridpp::optimal_interpolation_ensi(o.grid, to_grid(bg, Y, X), o.points, obs, sig, pb, *o.st, o.maxp, o.extra); c.ok(same_bits(og, to_grid(out, Y, X)), "analysis:grid-vs-points");
    // permuted observations and members
    std::vector<int> ps(S), pe(E); for(int s = 0; s < S; s++) ps[s] = s; for(int s = S; s > 1; s--) std::swap(ps[s - 1], ps[r.i(0, s - 1)]); for(int s = 0; s < E; s++) pe[s] = s; for(int s = E; s > 1; s--) std::swap(pe[s - 1], pe[r.i(0, s - 1)]);
    vec obs2(S), sig2(S); vec2 pb2 = init2(S, E), bg2 = init2(N, E); for(int s = 0; s < S; s++) { obs2[s] = obs[ps[s]]; sig2[s] = sig[ps[s]]; for(int e = 0; e < E; e++) pb2[s][e] = pb[ps[s]][pe[e]]; } for(int i = 0; i < N; i++) for(int e = 0; e < E; e++) bg2[i][e] = bg[i][pe[e]];
    vec2 outp = gridpp::optimal_interpolation_ensi(o.bpoints, bg2, o.points.subset(ps), obs2, sig2, pb2, *o.st, o.maxp, o.extra);
    for(int i = 0; i < N; i++) {
        std::string info; auto d = [&] { return o.g.desc + " " + o.name + strf(" location %d S=%d E=%d valid %d max=%d extrapolation=%d ", i, S, E, nv, o.maxp, o.extra) + info; };
        for(int e = 0; e < E; e++) if(std::find(val.begin(), val.end(), e) == val.end()) c.okf(out[i][e] == bg[i][e] || (std::isnan(out[i][e]) && std::isnan(bg[i][e])), "analysis:excluded-member", d);
        if(nv == 0) continue; Sel sel = select_obs(*o.st, o.bp[i], o.sp, usable, o.maxp); if(sel.edge) continue; int n = sel.idx.size();
        if(n == 0 || nv == 1) { for(int e : val) c.okf(out[i][e] == bg[i][e], n == 0 ? "analysis:no-obs" : "analysis:one-member", d); continue; }
        dvec x; for(int e : val) x.push_back(bg[i][e]); M Ym = zeros(n, nv); lvec yb(n, 0), ob(n), ri(n); for(int k = 0; k < n; k++) { int s = sel.idx[k]; for(int e : val) yb[k] += pb[s][e]; yb[k] /= nv; for(int q = 0; q < nv; q++) Ym[k][q] = pb[s][val[q]] - yb[k]; ob[k] = obs[s]; ri[k] = sel.rho[k] / ((ld) sig[s] * sig[s]); }
        dvec want; double mag, cond; letkf(x, Ym, yb, ob, ri, want, mag, cond); if(cond > 1e7) continue; double tol = 2e-6 * (1 + std::fabs(base)) * (1 + 0.2 * std::sqrt(cond)) + 2e-6 * mag * std::sqrt(cond) + 1e-5 * mag;
        info = strf("obs used %d cond %.3g", n, cond);
        for(int q = 0; q < nv; q++) {
            int e = val[q]; double inc = want[q] - x[q], got = (double) out[i][e] - bg[i][e];
            if(o.extra) c.near(got, inc, tol, "analysis:value", d);
            else { double lo = 1e30, hi = -1e30; for(int s : sel.idx) { lo = std::min(lo, (double) obs[s] - pb[s][e]); hi = std::max(hi, (double) obs[s] - pb[s][e]); } c.okf(limited_ok(got, inc, lo, hi, tol), "analysis:limited", [&] { return strf("member %d increment %.9g unlimited %.9g innovations [%.9g,%.9g] ", e, got, inc, lo, hi) + d(); }); }
            int qe = std::find(pe.begin(), pe.end(), e) - pe.begin(); c.near(outp[i][qe], out[i][e], 2 * tol, "analysis:order", d);
        }
    }
}
CASE(none) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 3); int E = r.i(1, 5); vec2 bg = gen_field(r, o.N, E, pick_missing(r)); c.h(bg); vec e; gridpp::Points p(e, e, e, e, o.g.type);
    c.ok(same_bits(gridpp::optimal_interpolation_ensi(o.bpoints, bg, p, e, e, vec2(), *o.st, o.maxp), bg), "none:points"); c.ok(same_bits(gridpp::optimal_interpolation_ensi(o.grid, to_grid(bg, o.g.Y, o.g.X), p, e, e, vec2(), *o.st, o.maxp), to_grid(bg, o.g.Y, o.g.X)), "none:grid");
}
CASE(errors) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 5); int N = o.N, S = o.S, E = r.i(1, 4); vec2 bg = init2(N, E, 1), pb = init2(S, E, 1); vec ob(S, 1), sg(S, 1); int k = r.i(0, 6), mp = o.maxp; gridpp::Points p = o.points; bool grow = r.p(0.5); c.h(k); c.h(N); c.h(S); vec2 bgg = bg; vec3 gg = to_grid(bg, o.g.Y, o.g.X);
    if(k == 5 && o.g.type == gridpp::Cartesian) k = 0; auto chg = [&](vec& v) { if(grow) v.push_back(1); else v.pop_back(); };
    if(k == 0) mp = -1; if(k == 1) chg(ob); if(k == 2) chg(sg); if(k == 3) { if(grow) pb.push_back(vec(E, 1)); else pb.pop_back(); } if(k == 4) for(auto& v : pb) v.resize(grow ? E + 1 : E - 1); if(k == 5) p = gridpp::Points(o.op.lats, o.op.lons, o.op.elevs, o.op.lafs, gridpp::Cartesian);
    if(k == 6) { bgg.push_back(vec(E, 1)); gg = r.p(0.3) ? vec3() : r.p(0.5) ? init3(o.g.Y + 1, o.g.X, E) : init3(o.g.Y, o.g.X + 1, E); }
    c.ok(!runs([&] { gridpp::optimal_interpolation_ensi(o.bpoints, bgg, p, ob, sg, pb, *o.st, mp); }), "errors:points", strf("invalid argument %d accepted", k));
    c.ok(!runs([&] { gridpp::optimal_interpolation_ensi(o.grid, gg, p, ob, sg, pb, *o.st, mp); }), "errors:grid", strf("invalid argument %d accepted", k));
}
