// C11: calibration curves.
#include "nbh.h"
#include <memory>
static double ref_interp(double v, const vec& X, const vec& Y) {
    size_t n = X.size();
    if(v > X[n - 1]) return Y[n - 1]; if(v < X[0]) return Y[0];
    size_t a = n, b = n; for(size_t i = 0; i < n; i++) if(X[i] == v) { if(a == n) a = i; b = i; }
    if(a < n) { if(a == b) return Y[a]; bool s = a == 0, e = b == n - 1; if(s && !e) return Y[b]; if(e && !s) return Y[a]; return ((double) Y[a] + Y[b]) / 2; }
    size_t i = 0; while(X[i + 1] < v) i++;
    return Y[i] + ((double) Y[i + 1] - Y[i]) * (v - X[i]) / ((double) X[i + 1] - X[i]);
}
static const gridpp::Extrapolation POL[] = {gridpp::OneToOne, gridpp::MeanSlope, gridpp::NearestSlope, gridpp::Zero, gridpp::Unchanged};
// want and tolerance; defined=false where the slope is undefined
static double ref_apply(double v, const vec& R, const vec& F, gridpp::Extrapolation lo, gridpp::Extrapolation hi, double& tol, bool& defined) {
    size_t C = F.size(); defined = true; tol = 1e-5 * (1 + 60);
    if(std::isnan(v)) return NaNd;
    if(v >= F[0] && v <= F[C - 1]) { double m = 60, sl = 0; for(size_t i = 0; i < C; i++) m = std::max(m, (double) std::fabs(R[i])); for(size_t i = 0; i + 1 < C; i++) if(v >= F[i] && v <= F[i + 1] && F[i + 1] > F[i]) sl = std::max(sl, std::fabs(((double) R[i + 1] - R[i]) / ((double) F[i + 1] - F[i]))); tol = 1e-4 + 1e-6 * m + 2e-7 * sl * std::fabs(v); return ref_interp(v, F, R); }
    bool below = v < F[0]; auto p = below ? lo : hi;
    if(p == gridpp::Unchanged) { tol = 0; return v; }
    double slope = 1, dx = 1;
    if(p == gridpp::Zero) slope = 0;
    else if(p == gridpp::OneToOne || C <= 1) slope = 1;
    else { size_t i = p == gridpp::MeanSlope ? 0 : below ? 0 : C - 2, j = p == gridpp::MeanSlope ? C - 1 : below ? 1 : C - 1; dx = (double) F[j] - F[i]; if(dx == 0) { defined = false; return 0; } slope = ((double) R[j] - R[i]) / dx; }
    double d = v - (below ? F[0] : F[C - 1]), m = 60; for(size_t i = 0; i < C; i++) m = std::max(m, (double) std::max(std::fabs(R[i]), std::fabs(F[i])));
    tol = 1e-5 * (1 + std::fabs(slope * d)) + 6e-7 * std::fabs(d) * (std::fabs(slope) + 1) * m / dx + 1e-5 + 1e-6 * m;
    return (below ? R[0] : R[C - 1]) + slope * d;
}
static void gen_curve(Rng& r, int n, vec& R, vec& F) {
    R.clear(); F.clear(); double scale = r.pick({1.0, 1.0, 1.0, 0.01, 0.1, 100.0}); float cur = r.u(-10, 10), rr = r.u(-10, 10); bool mono = r.p(0.6), mixed = r.p(0.3);
    for(int i = 0; i < n; i++) { double f = mixed ? r.pick({0.003, 0.03, 1.0, 30.0}) : scale; if(i && !r.p(0.15)) cur += f * r.u(0.1, 3); if(mixed && r.p(0.5)) f = r.pick({0.003, 0.03, 1.0, 30.0}); if(mono) rr += r.p(0.15) ? 0 : f * r.u(0, 3); else rr = r.u(-20, 20) * f; F.push_back(cur); R.push_back(rr); }
}
static float gen_in(Rng& r, const vec& F) { if(r.p(0.05)) return NaNf; if(r.p(0.25)) return F[r.i(0, F.size() - 1)]; double w = F.back() - F[0] + 1; return r.u(F[0] - w, F.back() + w); }
CASEW(apply, 4) {
    Rng& r = c.rng; int n = r.p(0.1) ? 1 : r.i(2, 12); vec R, F; gen_curve(r, n, R, F); c.h(R); c.h(F); auto lo = POL[r.i(0, 4)], hi = POL[r.i(0, 4)];
    int Y = r.i(1, 4), X = r.i(1, 4); vec2 f = init2(Y, X); for(auto& a : f) for(auto& v : a) v = gen_in(r, F); c.h(f); vec2 keep = f;
    c.sample("ref " + str(R) + " fcst " + str(F) + strf(" policies %d/%d input ", (int) lo, (int) hi) + str(f));
    vec2 o = gridpp::apply_curve(f, R, F, lo, hi);
    if(!c.ok(o.size() == (size_t) Y && o[0].size() == (size_t) X, "apply:shape")) return;
    for(int y = 0; y < Y; y++) {
        vec o1 = gridpp::apply_curve(f[y], R, F, lo, hi); c.ok(same_bits(o1, o[y]) , "apply:1d-differs");
        for(int x = 0; x < X; x++) {
            auto d = [&] { return strf("at %.9g policies %d/%d ref ", f[y][x], (int) lo, (int) hi) + str(R) + " fcst " + str(F); };
            float s = gridpp::apply_curve(f[y][x], R, F, lo, hi); c.okf(s == o[y][x] || (std::isnan(s) && std::isnan(o[y][x])), "apply:scalar-differs", d);
            double tol; bool def; double w = ref_apply(f[y][x], R, F, lo, hi, tol, def);
            if(def) c.near(o[y][x], w, tol, isv(f[y][x]) ? (f[y][x] < F[0] ? "apply:below" : f[y][x] > F.back() ? "apply:above" : "apply:inside") : "apply:missing", d);
        }
    }
    // non-decreasing curves give non-decreasing output inside and with slope-keeping policies
    if(std::is_sorted(R.begin(), R.end())) {
        float a = gen_in(r, F), b = gen_in(r, F); if(a > b) std::swap(a, b);
        if(isv(a) && isv(b) && a < b && lo != gridpp::Unchanged && hi != gridpp::Unchanged && (n == 1 || (F[1] > F[0] && F[n - 1] > F[n - 2]))) { float fa = gridpp::apply_curve(a, R, F, lo, hi), fb = gridpp::apply_curve(b, R, F, lo, hi); c.ok(fb >= fa - 1e-4 * (1 + std::fabs(fa) + 0.01 * R.back()), "apply:monotone", strf("%g->%g %g->%g", a, fa, b, fb)); }
    }
    c.ok(same_bits(f, keep), "apply:input-modified");
}
CASEW(apply3, 2) {
    Rng& r = c.rng; int Y = r.i(1, 5), X = r.i(1, 5), C = r.i(1, 6); vec3 R(Y, vec2(X)), F(Y, vec2(X)); vec2 f = init2(Y, X); auto lo = POL[r.i(0, 4)], hi = POL[r.i(0, 4)];
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { gen_curve(r, C, R[y][x], F[y][x]); f[y][x] = gen_in(r, F[y][x]); }
    c.h(R); c.h(F); c.h(f); vec2 o = gridpp::apply_curve(f, R, F, lo, hi);
    if(!c.ok(o.size() == (size_t) Y && o[0].size() == (size_t) X, "apply3:shape")) return;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { double tol; bool def; double w = ref_apply(f[y][x], R[y][x], F[y][x], lo, hi, tol, def); if(def) c.near(o[y][x], w, tol, "apply3:value", [&] { return strf("(%d,%d) at %.9g policies %d/%d ", y, x, f[y][x], (int) lo, (int) hi) + str(R[y][x]) + str(F[y][x]); }); }
    vec3 bad = gen_field3(r, Y, X, C + 1, 0); c.ok(!runs([&] { gridpp::apply_curve(f, R, bad, lo, hi); }), "apply3:size"); vec2 bf = init2(Y + 1, X); c.ok(!runs([&] { gridpp::apply_curve(bf, R, F, lo, hi); }), "apply3:size-field");
    c.ok(!runs([&] { gridpp::apply_curve(f, init3(Y, X, 0), init3(Y, X, 0), lo, hi); }), "apply3:empty-curve"); c.ok(!runs([&] { gridpp::apply_curve(f, R, F, (gridpp::Extrapolation) -1, hi); }), "apply3:policy");
    c.ok(gridpp::apply_curve(vec2(), vec3(), vec3(), lo, hi).empty(), "apply3:empty");
}
CASE(errors) {
    Rng& r = c.rng; vec R, F; gen_curve(r, r.i(1, 5), R, F); c.h(R); vec bad = F; bad.push_back(F.back() + 1); auto p = gridpp::OneToOne; vec in = {1, 2}; vec2 in2 = {{1, 2}, {3, 4}};
    c.ok(!runs([&] { gridpp::apply_curve(1.0f, R, bad, p, p); }) && !runs([&] { gridpp::apply_curve(in, R, bad, p, p); }) && !runs([&] { gridpp::apply_curve(in2, R, bad, p, p); }), "errors:size");
    c.ok(!runs([&] { gridpp::apply_curve(1.0f, vec(), vec(), p, p); }) && !runs([&] { gridpp::apply_curve(in, vec(), vec(), p, p); }) && !runs([&] { gridpp::apply_curve(in2, vec(), vec(), p, p); }), "errors:empty");
    float out = F.back() + 5; if(R.size() > 1) c.ok(!runs([&] { gridpp::apply_curve(out, R, F, p, (gridpp::Extrapolation) 7); }), "errors:policy"); vec o2 = {out}; c.ok(!runs([&] { gridpp::apply_curve(o2, R, F, p, (gridpp::Extrapolation) 7); }), "errors:policy-vec");
    vec of; c.ok(!runs([&] { gridpp::monotonize_curve(R, bad, of); }) && !runs([&] { gridpp::monotonize_curve(vec(), vec(), of); }), "errors:monotonize");
    c.ok(!runs([&] { gridpp::quantile_mapping_curve(R, bad, of); }), "errors:mapping-size"); vec q = {0.5, r.p(0.5) ? 1.5f : -0.1f}; c.ok(!runs([&] { gridpp::quantile_mapping_curve(R, F, of, q); }), "errors:mapping-quantile"); q[1] = NaNf; c.ok(!runs([&] { gridpp::quantile_mapping_curve(R, F, of, q); }), "errors:mapping-quantile-nan");
}
CASEW(mapping, 2) {
    Rng& r = c.rng; int n = r.p(0.1) ? r.i(0, 1) : r.i(2, 30); double miss = n > 1 ? pick_missing(r) : 0; vec ref = gen_vec(r, n, miss), fc = gen_vec(r, n, miss); c.h(ref); c.h(fc);
    vec q; if(r.p(0.6)) for(int k = r.i(1, 8); k > 0; k--) q.push_back(r.p(0.2) ? r.i(0, 1) : r.u()); if(r.p(0.7)) std::sort(q.begin(), q.end()); c.h(q);
    vec of = {99, 98}, o = gridpp::quantile_mapping_curve(ref, fc, of, q); c.sample("ref " + str(ref) + " fcst " + str(fc) + " levels " + str(q));
    vec sr, sf; for(int i = 0; i < n; i++) if(isv(ref[i]) && isv(fc[i])) { sr.push_back(ref[i]); sf.push_back(fc[i]); } std::sort(sr.begin(), sr.end()); std::sort(sf.begin(), sf.end()); int S = sr.size();
    auto d = [&] { return "ref " + str(ref) + " fcst " + str(fc) + " levels " + str(q) + " -> " + str(o) + " / " + str(of); };
    if(n <= 1 || q.empty()) { c.okf(same_bits(o, sr) && same_bits(of, sf), "mapping:all", d); }
    else if(S == 0) c.okf(o.empty() && of.empty(), "mapping:none", d);
    else if(c.okf(o.size() == q.size() && of.size() == q.size(), "mapping:size", d)) for(size_t k = 0; k < q.size(); k++) { int i = std::floor((double) q[k] * (S - 1) + 1e-5), i2 = std::floor((double) q[k] * (S - 1) - 1e-5); i2 = std::max(i2, 0);
        c.okf((o[k] == sr[i] && of[k] == sf[i]) || (o[k] == sr[i2] && of[k] == sf[i2]), "mapping:quantile", d); }
    // independent of the order of the training data
    if(n > 1) { vec a = ref, b = fc; for(int i = n; i > 1; i--) { int j = r.i(0, i - 1); std::swap(a[i - 1], a[j]); std::swap(b[i - 1], b[j]); } vec of2, o2 = gridpp::quantile_mapping_curve(a, b, of2, q); { auto same = [](const vec& x, const vec& y) { if(x.size() != y.size()) return false; for(size_t i = 0; i < x.size(); i++) if(!(x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])))) return false; return true; }; c.okf(n == 1 || (same(o, o2) && same(of, of2)), "mapping:order", d); }; }
}
CASEW(monotonize, 2) {
    Rng& r = c.rng; int n = r.i(1, 25); vec F(n), R(n); float cur = 0; int mode = r.i(0, 2);
    for(int i = 0; i < n; i++) { cur += mode == 0 ? r.u(0.11, 3) : mode == 1 ? r.u(-1, 2.5) : r.i(-2, 4); F[i] = cur; R[i] = r.u(-20, 20); if(r.p(0.05)) F[i] = NaNf; if(r.p(0.05)) R[i] = NaNf; }
    c.h(F); c.h(R); vec kf = F, kr = R, of = {3, 4, 5}, o = gridpp::monotonize_curve(R, F, of);
    auto d = [&] { return "fcst " + str(F) + " -> " + str(of); }; c.sample(d());
    if(!c.okf(o.size() == of.size(), "monotonize:size", d)) return;
    vec vF, vR; for(int i = 0; i < n; i++) if(isv(F[i]) && isv(R[i])) { vF.push_back(F[i]); vR.push_back(R[i]); }
    // sub-sequence of the valid points, increasing
    size_t j = 0; for(size_t i = 0; i < o.size(); i++) { while(j < vF.size() && !(vF[j] == of[i] && vR[j] == o[i])) j++; if(!c.okf(j < vF.size(), "monotonize:not-own-points", d)) return; j++; if(i) c.okf(of[i] > of[i - 1], "monotonize:not-increasing", d); }
    bool inc = true, edge = false; for(size_t i = 1; i < vF.size(); i++) { if(vF[i] <= vF[i - 1] + 0.1001) inc = false; }
    if(inc) c.okf(o.size() == vF.size(), "monotonize:removed-from-increasing", d);
    // a point above everything before it and below everything after it (by more than the tolerance) is kept
    for(size_t i = 0; i < vF.size(); i++) { bool clean = true; for(size_t k = 0; k < vF.size(); k++) if((k < i && vF[k] > vF[i] - 0.21) || (k > i && vF[k] < vF[i] + 0.21)) clean = false; if(clean) { bool found = false; for(size_t k = 0; k < o.size(); k++) if(of[k] == vF[i] && o[k] == vR[i]) found = true; c.okf(found, "monotonize:lost-clean-point", d); } }
    // a point that lies above a later point is not kept together with anything inside that fold
    for(size_t i = 0; i < of.size(); i++) for(size_t k = 0; k < vF.size(); k++) if(vF[k] == of[i] && vR[k] == o[i]) for(size_t m = k + 1; m < vF.size(); m++) c.okf(vF[m] >= of[i] - 1e-6, "monotonize:kept-point-inside-fold", d);
    c.ok(same_bits(F, kf) && same_bits(R, kr), "monotonize:input-modified");
}
// metric optimizer curve: each point is the optimal threshold of its threshold
CASE(optimizer) {
    Rng& r = c.rng; int n = r.i(5, 40); vec ref(n), fc(n); for(int i = 0; i < n; i++) { ref[i] = r.u(0, 10); fc[i] = ref[i] * r.u(0.7, 1.4) + 0.5 * r.n(); if(r.p(0.05)) fc[i] = NaNf; if(r.p(0.05)) ref[i] = NaNf; }
    vec thr; for(int k = r.i(0, 6); k > 0; k--) thr.push_back(r.u(-1, 11)); auto m = r.pick({gridpp::Ets, gridpp::Ts, gridpp::Kss, gridpp::Pc, gridpp::Bias, gridpp::Hss}); c.h(ref); c.h(fc); c.h(thr);
    vec of = {1, 2}, o = gridpp::metric_optimizer_curve(ref, fc, thr, m, of); vec wo, wf;
    for(float t : thr) { float v = gridpp::get_optimal_threshold(ref, fc, t, m); if(isv(v)) { wo.push_back(v); wf.push_back(t); } }
    c.ok(same_bits(o, wo) && same_bits(of, wf), "optimizer:curve", str(thr) + str(o) + str(wo));
    vec bad(n + 1); c.ok(!runs([&] { gridpp::metric_optimizer_curve(bad, fc, thr, m, of); }), "optimizer:size");
}
CASEW(local, 3) {
    // full reference of the local distribution correction
    Rng& r = c.rng; GridOpt go; go.maxY = 5; go.maxX = 5; go.metaMissing = 0; go.minSp = 0.005; go.maxSp = 0.05; GridSpec g = gen_grid(r, go); int P = r.i(0, 12), T = r.i(1, 3); PointsSpec ps = gen_points_in(r, g, P, 1.0, 0); bool multi = T > 1 || r.p(0.3);
    double size = g.type == gridpp::Cartesian ? g.dlat : g.dlat * 111000; float h = size * r.u(0.5, 3); std::unique_ptr<gridpp::BarnesStructure> st; if(r.p(0.5)) st.reset(new gridpp::BarnesStructure(h, 0, 0)); else st.reset(new gridpp::BarnesStructure(h, r.p(0.5) ? 300 : 0, r.p(0.5) ? 0.7 : 0, h * r.u(1, 4)));
    vec2 bg = gen_field(r, g.Y, g.X, 0.1, 0, 12); for(auto& a : bg) for(auto& v : a) if(r.p(0.25)) v = r.p(0.5) ? 0 : r.u(0, 0.15);
    vec2 ob(T, vec(P)), pb(T, vec(P)); bool dry = r.p(0.15); for(int t = 0; t < T; t++) for(int p = 0; p < P; p++) { ob[t][p] = dry ? 0 : r.u(0, 10); pb[t][p] = r.u(0, 10); if(r.p(0.08)) ob[t][p] = r.p(0.5) ? NaNf : -1; if(r.p(0.08)) pb[t][p] = r.p(0.5) ? NaNf : -r.u(0.1, 2); }
    float q0 = r.p(0.4) ? 0 : r.u(0, 0.3), q1 = r.p(0.4) ? 1 : r.u(0.6, 1); int minp = r.i(0, 6); c.h(bg); c.h(ob); c.h(pb); c.h(q0); c.h(h);
    auto grid = g.grid(); auto pts = ps.points();
    vec2 o = multi ? gridpp::local_distribution_correction(grid, bg, pts, ob, pb, *st, q0, q1, minp) : gridpp::local_distribution_correction(grid, bg, pts, ob[0], pb[0], *st, q0, q1, minp);
    if(!c.ok(o.size() == (size_t) g.Y && o[0].size() == (size_t) g.X, "local:shape")) return;
    c.sample(g.desc + strf(" P=%d T=%d h=%g q=[%g,%g] min=%d", P, T, h, q0, q1, minp));
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
        float b = bg[y][x]; auto d = [&] { return g.desc + strf(" (%d,%d) bg %.9g q=[%g,%g] min=%d P=%d T=%d", y, x, b, q0, q1, minp, P, T); };
        if(!isv(b)) { c.ok(std::isnan(o[y][x]), "local:missing"); continue; }
        gridpp::Point p1 = grid.get_point(y, x); float loc = st->localization_distance(p1); std::vector<std::pair<float, double>> A, B; double sum = 0; bool edge = false;
        for(int p = 0; p < P; p++) {
            double dist = ref_straight(g.lats[y][x], g.lons[y][x], ps.lats[p], ps.lons[p], g.type); double tl = pos_tol(g.type); if(std::fabs(dist - loc) < tl) edge = true; if(dist > loc) continue;
            double rho = st->corr_background(p1, pts.get_point(p)); if(rho < 1e-3) edge = true;
            for(int t = 0; t < T; t++) if(isv(ob[t][p]) && isv(pb[t][p]) && ob[t][p] >= 0 && pb[t][p] >= 0) { A.push_back({ob[t][p], rho}); B.push_back({pb[t][p], rho}); sum += rho; }
        }
        if(edge) continue; int n = A.size();
        if(n < minp) { c.okf(o[y][x] == b, "local:too-few", d); continue; }
        bool ties = dry && n > 1; std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end()); int d0 = (int) ((float) n * q0), d1 = (int) ((float) n * q1);
        A = std::vector<std::pair<float, double>>(A.begin() + d0, A.begin() + d1); B = std::vector<std::pair<float, double>>(B.begin() + d0, B.begin() + d1);
        float lastA = A.empty() ? 0 : A.back().first, lastB = B.empty() ? 0 : B.back().first;
        if(b < 0.01) { c.okf(o[y][x] == 0, "local:tiny", d); continue; }
        if(lastA <= 0) { float w = (b < 3 * lastB || b < 0.1) ? 0 : b; if(std::fabs(b - 3 * lastB) > 1e-5) c.okf(o[y][x] == w, "local:no-obs-rain", d); continue; }
        if(b >= lastB) { c.near(o[y][x], (double) b + lastA - lastB, 1e-5, "local:above", d); continue; }
        if(ties) continue;
        dvec fv = {0}, fq = {0}, rv = {0}, rq = {0}; for(auto& e : A) { rv.push_back(e.first); rq.push_back(rq.back() + e.second); } for(auto& e : B) { fv.push_back(e.first); fq.push_back(fq.back() + e.second); }
        double sa = rq.back(), sb = fq.back(); for(size_t i = 1; i < rq.size(); i++) { rq[i] = q0 + rq[i] / sa * (q1 - q0); fq[i] = q0 + fq[i] / sb * (q1 - q0); }
        auto lin = [](double v, const dvec& X, const dvec& Y) { if(v <= X[0]) return Y[0]; if(v >= X.back()) return Y.back(); size_t i = 0; while(X[i + 1] < v) i++; return Y[i] + (Y[i + 1] - Y[i]) * (v - X[i]) / (X[i + 1] - X[i]); };
        double q = lin(b, fv, fq), lo = lin(q - 2e-6, rq, rv), hi = lin(q + 2e-6, rq, rv), w0 = 1 - std::exp(-0.01 * sum);
        c.okf(o[y][x] >= w0 * lo + (1 - w0) * b - 2e-4 && o[y][x] <= w0 * hi + (1 - w0) * b + 2e-4, "local:inside", [&] { return strf("got %.9g want [%.9g,%.9g] ", o[y][x], w0 * lo + (1 - w0) * b, w0 * hi + (1 - w0) * b) + d(); });
    }
    float bq = r.p(0.5) ? -r.u(0.01, 1) : NaNf; c.ok(!runs([&] { gridpp::local_distribution_correction(grid, bg, pts, ob, pb, *st, bq, q1, minp); }), "local:invalid-quantile"); c.ok(!runs([&] { gridpp::local_distribution_correction(grid, bg, pts, ob, pb, *st, q0, 1.2f, minp); }), "local:invalid-quantile2");
    vec2 bad(T + 1, vec(P)); c.ok(!runs([&] { gridpp::local_distribution_correction(grid, bg, pts, bad, pb, *st, q0, q1, minp); }), "local:size");
}
