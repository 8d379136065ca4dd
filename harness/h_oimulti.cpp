// C09: optimal_interpolation_ensi_multi_{ebe,ebesc,utem} against dense solutions.
#include "oiref.h"
static bool stat(const vec& v, double& mean, double& std) { mean = 0; for(float f : v) mean += f; mean /= v.size(); double s = 0; for(float f : v) s += (f - mean) * (f - mean); std = std::sqrt(s / v.size()); return std::fabs(std - 0.0013) > 3e-4; }
// (value - mean) / std / sqrt(N - 1), zero when there is no spread
static bool normal(const vec& v, dvec& o) { double m, s; bool ok = stat(v, m, s); o.assign(v.size(), 0); if(s > 0.0013 && v.size() > 1) for(size_t i = 0; i < v.size(); i++) o[i] = (v[i] - m) / s / std::sqrt(v.size() - 1.0); return ok; }
static vec pick(const vec& v, const ivec& k) { vec o; for(int i : k) o.push_back(v[i]); return o; }
static void run(Ctx& c, int mode) {   // 0 ebe, 1 ebesc, 2 utem
    Rng& r = c.rng; const char* nm[] = {"ebe", "ebesc", "utem"}; std::string K = nm[mode];
    OiCase o = gen_oi(r, 9, r.p(0.3) ? 1 : 4); int N = o.N, S = o.S, Y = o.g.Y, X = o.g.X, E = r.p(0.15) ? r.i(1, 2) : r.i(2, 8); double base = r.p(0.2) ? r.u(-300, 300) : 0, miss = r.p(0.6) ? 0 : 0.06;
    vec2 bg = init2(N, E), bc = bg, pb = init2(S, E), pc = pb, po = pb; vec br(N), pr(S), p1(S); bool identical = r.p(0.2), flat = r.p(0.1);
    for(int i = 0; i < N; i++) { br[i] = std::exp(r.u(-1, 1)); for(int e = 0; e < E; e++) { bg[i][e] = base + 4 * r.n(); bc[i][e] = identical ? bg[i][e] : flat ? base : base + 3 * r.n(); } }
    for(int s = 0; s < S; s++) { pr[s] = std::exp(r.u(-3, 2)); double m = base + 3 * r.n(); p1[s] = base + 4 * r.n(); if(r.p(miss)) p1[s] = NaNf; bool eq = r.p(0.1); for(int e = 0; e < E; e++) { pb[s][e] = m + 2 * r.n(); pc[s][e] = eq ? m : identical ? pb[s][e] : base + 3 * r.n(); po[s][e] = m + 3 * r.n(); if(r.p(0.05)) po[s][e] = pb[s][e]; if(r.p(miss)) po[s][e] = NaNf; } if(mode == 2 && r.p(0.05)) p1[s] = pb[s][r.i(0, E - 1)]; }
    if(E > 1 && r.p(0.25)) { int e = r.i(0, E - 1); switch(r.i(0, mode == 1 ? 1 : 3)) { case 0: bg[r.i(0, N - 1)][e] = NaNf; break; case 1: pb[r.i(0, S - 1)][e] = NaNf; break; case 2: bc[r.i(0, N - 1)][e] = NaNf; break; default: pc[r.i(0, S - 1)][e] = NaNf; } }
    c.h(mode); c.h(bg); c.h(pb); c.h(po); c.h(p1); c.sample(K + " " + o.g.desc + " " + o.name + strf(" S=%d E=%d max=%d extrapolation=%d", S, E, o.maxp, o.extra));
    auto call = [&](const vec2& bg, const vec2& bc, const gridpp::Points& pts, const vec2& po, const vec& p1, const vec& pr, const vec2& pb, const vec2& pc) { auto& st = *o.st; return mode == 0 ? gridpp::optimal_interpolation_ensi_multi_ebe(o.bpoints, br, bg, bc, pts, po, pr, pb, pc, st, o.maxp, o.extra) : mode == 1 ? gridpp::optimal_interpolation_ensi_multi_ebesc(o.bpoints, br, bg, pts, po, pr, pb, st, o.maxp, o.extra) : gridpp::optimal_interpolation_ensi_multi_utem(o.bpoints, br, bg, bc, pts, p1, pr, pb, pc, st, o.maxp, o.extra); };
    vec2 out = call(bg, bc, o.points, po, p1, pr, pb, pc); if(!c.ok((int) out.size() == N && (int) out[0].size() == E, K + ":shape")) return;
    { auto& st = *o.st; auto g = o.grid; auto G = to_grid(bg, Y, X), Gc = to_grid(bc, Y, X); auto R = to_grid(br, Y, X);
      vec3 og = mode == 0 ? gridpp::optimal_interpolation_ensi_multi_ebe(g, R, G, Gc, o.points, po, pr, pb, pc, st, o.maxp, o.extra) : mode == 1 ? gridpp::optimal_interpolation_ensi_multi_ebesc(g, R, G, o.points, po, pr, pb, st, o.maxp, o.extra) : gridpp::optimal_interpolation_ensi_multi_utem(g, R, G, Gc, o.points, p1, pr, pb, pc, st, o.maxp, o.extra);
      c.ok(same_bits(og, to_grid(out, Y, X)), K + ":grid-vs-points"); }
    ivec val; for(int e = 0; e < E; e++) { bool k = true; for(int i = 0; i < N; i++) if(!isv(bg[i][e]) || (mode != 1 && !isv(bc[i][e]))) k = false; for(int s = 0; s < S; s++) if(!isv(pb[s][e]) || (mode != 1 && !isv(pc[s][e]))) k = false; if(k) val.push_back(e); } int nv = val.size();
    std::vector<bool> usable(S); for(int s = 0; s < S; s++) { usable[s] = true; if(mode == 2) usable[s] = isv(p1[s]); else for(int e : val) if(!isv(po[s][e])) usable[s] = false; }
    std::vector<int> ps(S), pe(E); for(int s = 0; s < S; s++) ps[s] = s; for(int s = S; s > 1; s--) std::swap(ps[s - 1], ps[r.i(0, s - 1)]); for(int s = 0; s < E; s++) pe[s] = s; for(int s = E; s > 1; s--) std::swap(pe[s - 1], pe[r.i(0, s - 1)]);
    vec2 bg2 = bg, bc2 = bc, pb2 = pb, pc2 = pc, po2 = po; vec pr2 = pr, p12 = p1; for(int s = 0; s < S; s++) { pr2[s] = pr[ps[s]]; p12[s] = p1[ps[s]]; for(int e = 0; e < E; e++) { pb2[s][e] = pb[ps[s]][pe[e]]; pc2[s][e] = pc[ps[s]][pe[e]]; po2[s][e] = po[ps[s]][pe[e]]; } } for(int i = 0; i < N; i++) for(int e = 0; e < E; e++) { bg2[i][e] = bg[i][pe[e]]; bc2[i][e] = bc[i][pe[e]]; }
    vec2 outp = call(bg2, bc2, o.points.subset(ps), po2, p12, pr2, pb2, pc2);
    std::vector<dvec> Z(S); std::vector<bool> zok(S, true); if(mode != 1 && nv) for(int s = 0; s < S; s++) zok[s] = normal(pick(pc[s], val), Z[s]);
    for(int i = 0; i < N; i++) {
        std::string info; auto d = [&] { return o.g.desc + " " + o.name + strf(" location %d S=%d E=%d valid %d max=%d extrapolation=%d ", i, S, E, nv, o.maxp, o.extra) + info; };
        for(int e = 0; e < E; e++) if(std::find(val.begin(), val.end(), e) == val.end()) c.okf(out[i][e] == bg[i][e] || (std::isnan(out[i][e]) && std::isnan(bg[i][e])), K + ":excluded-member", d);
        if(nv == 0) continue; Sel sel = select_obs(*o.st, o.bp[i], o.sp, usable, o.maxp); if(sel.edge) continue; int n = sel.idx.size();
        if(n == 0) { for(int e : val) c.okf(out[i][e] == bg[i][e], K + ":no-obs", d); continue; }
        dvec L; bool ok = true; if(mode != 1) { ok = normal(pick(bc[i], val), L); for(int s : sel.idx) if(!zok[s]) ok = false; } if(!ok) continue;
        dvec inc(nv), tol(nv); double roundoff = 2e-6 * (1 + std::fabs(base));
        if(mode < 2) {
            M A = corr_matrix(*o.st, o.sp, sel.idx); lvec b(n); for(int k = 0; k < n; k++) { b[k] = sel.rho[k]; if(mode == 0) { ld z = 0; for(int q = 0; q < nv; q++) z += (ld) L[q] * Z[sel.idx[k]][q]; b[k] *= z; } for(int m = 0; m < n; m++) if(mode == 0) { ld z = 0; for(int q = 0; q < nv; q++) z += (ld) Z[sel.idx[k]][q] * Z[sel.idx[m]][q]; A[k][m] *= z; } A[k][k] += pr[sel.idx[k]]; }
            ld cond; M inv = inverse(A, cond); if(!(cond < 3e4)) continue; info = strf("obs used %d cond %.3g", n, (double) cond);
            for(int q = 0; q < nv; q++) { ld t = 0, mag = 0; for(int k = 0; k < n; k++) { ld g = 0; for(int m = 0; m < n; m++) g += b[m] * inv[m][k]; ld v = g * ((ld) po[sel.idx[k]][val[q]] - pb[sel.idx[k]][val[q]]) * br[i]; t += v; mag += fabsl(v); } inc[q] = t; tol[q] = roundoff + 1e-5 * mag + (double) (cond * mag) * 5e-7 * (1 + 0.1 * std::fabs(base)); }
        }
        else {
            M A = zeros(nv, nv); for(int a = 0; a < nv; a++) { A[a][a] = 1; for(int b = 0; b < nv; b++) for(int k = 0; k < n; k++) A[a][b] += (ld) Z[sel.idx[k]][a] * sel.rho[k] / pr[sel.idx[k]] * Z[sel.idx[k]][b]; }
            lvec w; M v; jacobi(A, w, v); ld wmin = 1e30, wmax = 0; for(ld e : w) { wmin = std::min(wmin, e); wmax = std::max(wmax, e); } ld cond = wmax / wmin; lvec g(nv, 0), ww(nv, 0); info = strf("obs used %d cond %.3g", n, (double) cond);
            for(int a = 0; a < nv; a++) for(int k = 0; k < n; k++) { int s = sel.idx[k]; ld yb = 0; for(int e : val) yb += pb[s][e]; yb /= nv; g[a] += (ld) Z[s][a] * sel.rho[k] / pr[s] * (p1[s] - yb); }
            M W = zeros(nv, nv); for(int a = 0; a < nv; a++) for(int b = 0; b < nv; b++) for(int k = 0; k < nv; k++) { W[a][b] += v[a][k] * v[b][k] * sqrtl((nv - 1) / w[k]); ww[a] += v[a][k] * v[b][k] / w[k] * g[b]; }
            double xm, xs; stat(pick(bg[i], val), xm, xs); double ms = xs, m0, s0; stat(pick(bc[i], val), m0, s0); ms = std::min(ms, s0); for(int s : sel.idx) { stat(pick(pc[s], val), m0, s0); if(s0 > 0.0013) ms = std::min(ms, s0); } double sr = 1e-6 * (1 + std::fabs(base)) / std::max(ms, 0.0013);
            for(int q = 0; q < nv; q++) { ld t = 0, mag = 0; for(int k = 0; k < nv; k++) { ld u = L[k] * (xs * W[k][q] + br[i] * ww[k]); t += u; mag += fabsl(u) + fabsl(br[i] * ww[k]); } inc[q] = xm + t - bg[i][val[q]]; tol[q] = roundoff * (1 + 0.2 * std::sqrt((double) cond)) + (1e-5 + 2e-6 * std::sqrt((double) cond)) * mag * (1 + 0.02 * std::fabs(base)) + 1e-5 * xs + sr * mag * (1 + std::sqrt((double) cond)); }
        }
        for(int q = 0; q < nv; q++) {
            int e = val[q]; double got = (double) out[i][e] - bg[i][e]; tol[q] += 1e-6 * std::fabs(inc[q]);
            if(o.extra) c.near(got, inc[q], tol[q], K + ":value", d);
            else { double lo = 1e30, hi = -1e30; for(int s : sel.idx) { double iv = (double) (mode == 2 ? p1[s] : po[s][e]) - pb[s][e]; lo = std::min(lo, iv); hi = std::max(hi, iv); } c.okf(limited_ok(got, inc[q], lo, hi, tol[q]), K + ":limited", [&] { return strf("member %d increment %.9g unlimited %.9g innovations [%.9g,%.9g] ", e, got, inc[q], lo, hi) + d(); }); }
            int qe = std::find(pe.begin(), pe.end(), e) - pe.begin(); c.near(outp[i][qe], out[i][e], 2 * tol[q], K + ":order", d);
        }
    }
}
CASEW(ebe, 3) { run(c, 0); }
CASEW(ebesc, 3) { run(c, 1); }
CASEW(utem, 3) { run(c, 2); }
CASE(none) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 3); int E = r.i(1, 5); vec2 bg = gen_field(r, o.N, E, pick_missing(r)); c.h(bg); vec e; vec2 e2; gridpp::Points p(e, e, e, e, o.g.type); vec br(o.N, 1); auto& st = *o.st; vec3 G = to_grid(bg, o.g.Y, o.g.X); vec2 R = to_grid(br, o.g.Y, o.g.X);
    c.ok(same_bits(gridpp::optimal_interpolation_ensi_multi_ebe(o.bpoints, br, bg, bg, p, e2, e, e2, e2, st, 0), bg) && same_bits(gridpp::optimal_interpolation_ensi_multi_ebesc(o.bpoints, br, bg, p, e2, e, e2, st, 0), bg) && same_bits(gridpp::optimal_interpolation_ensi_multi_utem(o.bpoints, br, bg, bg, p, e, e, e2, e2, st, 0), bg), "none:points");
    c.ok(same_bits(gridpp::optimal_interpolation_ensi_multi_ebe(o.grid, R, G, G, p, e2, e, e2, e2, st, 0), G) && same_bits(gridpp::optimal_interpolation_ensi_multi_ebesc(o.grid, R, G, p, e2, e, e2, st, 0), G) && same_bits(gridpp::optimal_interpolation_ensi_multi_utem(o.grid, R, G, G, p, e, e, e2, e2, st, 0), G), "none:grid");
}
CASE(errors) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 5); int N = o.N, S = o.S, E = r.i(1, 4), Y = o.g.Y, X = o.g.X; vec2 bg = init2(N, E, 1), bc = bg, pb = init2(S, E, 1), pc = pb, po = pb; vec br(N, 1), pr(S, 1), p1(S, 1); int k = r.i(0, 9), mp = o.maxp; gridpp::Points p = o.points; bool grow = r.p(0.5); if(k == 9 && o.g.type == gridpp::Cartesian) k = 0; c.h(k); c.h(N); c.h(S);
    vec3 G = to_grid(bg, Y, X), Gc = G; vec2 R = to_grid(br, Y, X); auto chg = [&](vec& v) { if(grow) v.push_back(1); else v.pop_back(); }; auto chg2 = [&](vec2& v) { if(r.p(0.5)) { if(grow) v.push_back(vec(E, 1)); else v.pop_back(); } else for(auto& q : v) q.resize(grow ? E + 1 : E - 1); };
    auto badg = [&] { return r.p(0.3) ? vec3() : r.p(0.5) ? init3(Y + 1, X, E) : init3(Y, X + 1, E); };
    switch(k) { case 0: mp = -1; break; case 1: bg.push_back(vec(E, 1)); G = badg(); break; case 2: bc.push_back(vec(E, 1)); Gc = r.p(0.3) ? init3(Y, X, E + 1) : badg(); break; case 3: br.push_back(1); R = r.p(0.3) ? vec2() : init2(Y + 1, X); break; case 4: chg(pr); break; case 5: chg2(pb); break; case 6: chg2(pc); break; case 7: chg2(po); break; case 8: chg(p1); break; case 9: p = gridpp::Points(o.op.lats, o.op.lons, o.op.elevs, o.op.lafs, gridpp::Cartesian); }
    auto& st = *o.st; std::string t = strf("invalid argument %d accepted", k);
    if(k != 8) { c.ok(!runs([&] { gridpp::optimal_interpolation_ensi_multi_ebe(o.bpoints, br, bg, bc, p, po, pr, pb, pc, st, mp); }), "errors:ebe", t); c.ok(!runs([&] { gridpp::optimal_interpolation_ensi_multi_ebe(o.grid, R, G, Gc, p, po, pr, pb, pc, st, mp); }), "errors:ebe-grid", t); }
    if(k != 8 && k != 2 && k != 6) { c.ok(!runs([&] { gridpp::optimal_interpolation_ensi_multi_ebesc(o.bpoints, br, bg, p, po, pr, pb, st, mp); }), "errors:ebesc", t); c.ok(!runs([&] { gridpp::optimal_interpolation_ensi_multi_ebesc(o.grid, R, G, p, po, pr, pb, st, mp); }), "errors:ebesc-grid", t); }
    if(k != 7) { c.ok(!runs([&] { gridpp::optimal_interpolation_ensi_multi_utem(o.bpoints, br, bg, bc, p, p1, pr, pb, pc, st, mp); }), "errors:utem", t); c.ok(!runs([&] { gridpp::optimal_interpolation_ensi_multi_utem(o.grid, R, G, Gc, p, p1, pr, pb, pc, st, mp); }), "errors:utem-grid", t); }
}
