// C19: contingency scores, optimal thresholds, metric-optimizer curves and neighbourhood scores.
#include "nbh.h"
#include "nnref.h"
#include <boost/math/tools/minima.hpp>
using gridpp::Metric;
static const std::vector<Metric>& metrics() { static std::vector<Metric> m = {gridpp::Ets, gridpp::Ts, gridpp::Kss, gridpp::Pc, gridpp::Bias, gridpp::Hss}; return m; }
static const char* mname(Metric m) { switch(m) { case gridpp::Ets: return "ets"; case gridpp::Ts: return "ts"; case gridpp::Kss: return "kss"; case gridpp::Pc: return "pc"; case gridpp::Bias: return "bias"; case gridpp::Hss: return "hss"; default: return "?"; } }
// definition on counts (or fractions) in double; tol = rounding of a single-precision evaluation
static double ref_score(double a, double b, double c, double d, Metric m, double& tol) {
    double N = a + b + c + d, num = 0, den = 1, mag = 0; tol = 0;
    switch(m) {
        case gridpp::Ets: { if(N == 0) return NaNd; double ar = (a + b) * (a + c) / N; num = a - ar; den = a + b + c - ar; mag = a + ar; break; }
        case gridpp::Ts: num = a; den = a + b + c; mag = a; break;
        case gridpp::Pc: num = a + d; den = N; mag = num; break;
        case gridpp::Kss: num = a * d - b * c; den = (a + c) * (b + d); mag = a * d + b * c; break;
        case gridpp::Bias: if(b + c == 0) return 1; num = b + c - std::fabs(b - c); den = b + c; mag = 2 * den; break;
        case gridpp::Hss: num = 2 * (a * d - b * c); den = (a + c) * (c + d) + (a + b) * (b + d); mag = 2 * (a * d + b * c); break;
        default: return NaNd;
    }
    if(den == 0) return NaNd;
    tol = 1e-6 * (mag / std::fabs(den) + std::fabs(num / den)) + 2e-6 * std::fabs(num / den) * N / std::max(1e-30, std::fabs(m == gridpp::Ets ? den : N)) + 1e-7;
    return num / den;
}
struct Cnt { float a = 0, b = 0, c = 0, d = 0; };
static Cnt counts(const vec& ref, const vec& fc, float t, float ft) { Cnt n; for(size_t i = 0; i < ref.size(); i++) { if(std::isnan(ref[i]) || std::isnan(fc[i]) || std::isnan(t) || std::isnan(ft)) continue; bool o = ref[i] > t, f = fc[i] > ft; if(o && f) n.a++; else if(f) n.b++; else if(o) n.c++; else n.d++; } return n; }
static void gen_samples(Rng& r, vec& ref, vec& fc) {
    int n = r.p(0.05) ? 0 : r.p(0.1) ? r.i(1, 3) : r.i(4, 80); ref = gen_vec(r, n, 0, 0, 10); fc = ref; bool ints = r.p(0.4); double miss = pick_missing(r), sd = r.p(0.2) ? 0 : r.u(0, 6), sc = r.u(0.3, 2), of = r.u(-3, 3);
    for(int i = 0; i < n; i++) { fc[i] = sc * ref[i] + of + sd * r.n(); if(ints) fc[i] = std::round(fc[i]); if(r.p(miss / 2)) fc[i] = NaNf; if(r.p(miss / 2)) ref[i] = NaNf; }
    if(n && r.p(0.1)) for(auto& v : fc) v = 2;
}
CASEW(table, 2) {
    Rng& r = c.rng; double a, b, cc, d; bool frac = r.p(0.3); auto g = [&] { return frac ? (r.p(0.2) ? 0.0 : (double) (float) r.u()) : r.p(0.25) ? 0.0 : (double) r.i(0, r.p(0.2) ? 5000 : 12); };
    a = g(); b = g(); cc = g(); d = g(); c.h(a); c.h(b); c.h(cc); c.h(d); c.sample(strf("hits %g false alarms %g misses %g rejections %g", a, b, cc, d));
    for(Metric m : metrics()) { double tol, w = ref_score(a, b, cc, d, m, tol); double got = gridpp::calc_score((float) a, (float) b, (float) cc, (float) d, m);
        if(frac && std::fabs(w) > 1e3) continue;
        c.near(got, w, tol, std::string("table:") + mname(m), [&] { return strf("a=%.9g b=%.9g c=%.9g d=%.9g", a, b, cc, d); }); }
    c.ok(!runs([&] { gridpp::calc_score((float) a, (float) b, (float) cc, (float) d, (Metric) 99); }), "table:unknown-metric-accepted");
    c.ok(gridpp::get_statistic("mean") == gridpp::Mean, "table:sanity");
}
CASEW(samples, 3) {
    Rng& r = c.rng; vec ref, fc; gen_samples(r, ref, fc); float t = r.p(0.3) && ref.size() ? ref[r.i(0, ref.size() - 1)] : r.u(-1, 11), ft = r.p(0.3) && fc.size() ? fc[r.i(0, fc.size() - 1)] : r.u(-1, 11); c.h(ref); c.h(fc); c.h(t); c.h(ft); c.sample(strf("n=%d threshold %g forecast threshold %g", (int) ref.size(), t, ft));
    ivec p(ref.size()); for(size_t i = 0; i < p.size(); i++) p[i] = i; for(size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.i(0, i - 1)]); vec ref2 = ref, fc2 = fc; for(size_t i = 0; i < p.size(); i++) { ref2[i] = ref[p[i]]; fc2[i] = fc[p[i]]; }
    for(Metric m : metrics()) {
        auto d = [&] { return strf("threshold %.9g/%.9g ref ", t, ft) + str(ref) + " fcst " + str(fc); };
        Cnt n = counts(ref, fc, t, ft), n1 = counts(ref, fc, t, t); double tol, w = ref_score(n.a, n.b, n.c, n.d, m, tol); c.near(gridpp::calc_score(ref, fc, t, ft, m), w, tol, std::string("samples:two-thresholds:") + mname(m), d); c.near(gridpp::calc_score(ref2, fc2, t, ft, m), w, tol, std::string("samples:order:") + mname(m), d);
        w = ref_score(n1.a, n1.b, n1.c, n1.d, m, tol); c.near(gridpp::calc_score(ref, fc, t, m), w, tol, std::string("samples:one-threshold:") + mname(m), d);
    }
    vec longer = fc; longer.push_back(1); Metric m = metrics()[r.i(0, 5)]; vec of;
    c.ok(!runs([&] { gridpp::calc_score(ref, longer, t, ft, m); }) && !runs([&] { gridpp::calc_score(longer, fc, t, m); }) && !runs([&] { gridpp::get_optimal_threshold(ref, longer, t, m); }) && !runs([&] { gridpp::metric_optimizer_curve(longer, fc, {t}, m, of); }), "samples:size-mismatch-accepted");
}
// bounded search around the best of ten evenly spaced thresholds
// (variants differ only in how the evenly spaced thresholds are rounded)
static float ref_optimal(const vec& ref, const vec& fc, float t, Metric m, int variant) {
    float lo = NaNf, hi = NaNf; for(float f : fc) if(isv(f)) { if(!isv(lo) || f < lo) lo = f; if(!isv(hi) || f > hi) hi = f; }
    if(!isv(lo)) return NaNf;
    auto f = [&](double x) -> float { Cnt n = counts(ref, fc, t, (float) x); return -gridpp::calc_score(n.a, n.b, n.c, n.d, m); };
    double bins[10]; int best = 0; float bv = f(lo); bins[0] = lo;
    for(int b = 1; b < 10; b++) { switch(variant) { case 0: bins[b] = (float) (lo + (hi - lo) / 9 * b); break; case 1: bins[b] = (float) (lo + ((double) hi - lo) / 9 * b); break; case 2: bins[b] = lo + ((double) hi - lo) / 9 * b; break; case 3: bins[b] = b == 9 ? hi : (float) (lo + ((double) hi - lo) * b / 9); break; case 4: bins[b] = (float) (lo + (hi - lo) * b / 9); break; default: bins[b] = (float) (lo + (hi - lo) * (b / 9.0f)); } float v = f(bins[b]); if(v < bv) { best = b; bv = v; } }
    auto q = boost::math::tools::brent_find_minima<decltype(f), double>(f, bins[std::max(0, best - 1)], bins[std::min(9, best + 1)], 32);
    float s = -q.second; if(!isv(s) || s <= 0.0001) return NaNf;
    if(std::fabs(q.second - -f(lo)) < 0.001 || std::fabs(q.second - -f(hi)) < 0.001) return NaNf;
    return q.first;
}
CASEW(optimal, 2) {
    Rng& r = c.rng; vec ref, fc; gen_samples(r, ref, fc); Metric m = metrics()[r.i(0, 5)]; vec ts; for(int k = r.i(0, 5); k > 0; k--) ts.push_back(r.p(0.2) && ref.size() ? ref[r.i(0, ref.size() - 1)] : r.u(-1, 11)); c.h(ref); c.h(fc); c.h(ts); c.sample(std::string(mname(m)) + strf(" n=%d", (int) ref.size()));
    vec wx, wy; float lo = 1e30, hi = -1e30; for(float f : fc) if(isv(f)) { lo = std::min(lo, f); hi = std::max(hi, f); }
    for(float t : ts) {
        auto d = [&] { return std::string(mname(m)) + strf(" threshold %.9g ref ", t) + str(ref) + " fcst " + str(fc); }; float g = gridpp::get_optimal_threshold(ref, fc, t, m);
        // the score has plateaus, so accept a threshold that is as good as the worst of the reference searches
        float w0 = NaNf; bool match = false, allValid = true; double worst = 1e30; for(int k = 0; k < 6 && !match; k++) { float w = ref_optimal(ref, fc, t, m, k); if(!k) w0 = w; match = isv(w) ? isv(g) && std::fabs(g - w) <= 1e-5 * (std::fabs(w) + hi - lo) : !isv(g); if(!isv(w)) allValid = false; else worst = std::min(worst, (double) gridpp::calc_score(ref, fc, t, w, m)); }
        c.okf(match || (isv(g) && allValid && gridpp::calc_score(ref, fc, t, g, m) >= worst - 1e-5), "optimal:threshold", [&] { return strf("got %.9g want %.9g; ", g, w0) + d(); });
        if(isv(g)) { c.okf(g >= lo - 1e-5 * (hi - lo) - 1e-6 * std::fabs(lo) && g <= hi + 1e-5 * (hi - lo) + 1e-6 * std::fabs(hi), "optimal:outside-forecast-range", d); float s = gridpp::calc_score(ref, fc, t, g, m), s0 = gridpp::calc_score(ref, fc, t, lo, m), s1 = gridpp::calc_score(ref, fc, t, hi, m); c.okf(s > 0.00009 && std::isfinite(s), "optimal:useless", d); (void) s0; (void) s1; }
        if(isv(g)) { wx.push_back(g); wy.push_back(t); }
    }
    vec y = {5, 5}, x = gridpp::metric_optimizer_curve(ref, fc, ts, m, y); c.ok(same_bits(x, wx) && same_bits(y, wy), "curve:made-of-optimal-thresholds", str(x) + str(y) + " want " + str(wx) + str(wy));
}
CASEW(neighbourhood, 3) {
    Rng& r = c.rng; GridOpt o; o.maxLat = 70; o.minSp = 0.01; GridSpec g = gen_grid(r, o); PointsSpec p = gen_points_in(r, g, r.i(0, 40), 0.6); vec ref = gen_vec(r, p.lats.size(), pick_missing(r), 0, 10); vec2 fc = gen_field(r, g.Y, g.X, pick_missing(r), 0, 10); float t = r.p(0.2) ? std::round(r.u(0, 10)) : r.u(0, 10); int hw = r.p(0.1) ? r.i(5, 2000000000) : r.i(1, 4); Metric m = metrics()[r.i(0, 5)];
    c.h(g.lats); c.h(fc); c.h(ref); c.sample(g.desc + strf(" %s obs=%d halfwidth=%d threshold=%g", mname(m), (int) ref.size(), hw, t)); auto grid = g.grid(); auto pts = p.points();
    Src s = src_of(g); std::vector<vec> in(g.Y * g.X); std::vector<char> amb(g.Y * g.X, 0); for(size_t i = 0; i < ref.size(); i++) { ivec k = nn_candidates(s, p.lats[i], p.lons[i]); if(k.size() > 1) for(int q : k) amb[q] = 1; else in[k[0]].push_back(ref[i]); }
    vec2 out = gridpp::neighbourhood_score(grid, pts, fc, ref, hw, m, t); if(!c.ok((int) out.size() == g.Y && (int) out[0].size() == g.X, "neighbourhood:size")) return;
    std::vector<int> cat(g.Y * g.X, -1); for(int k = 0; k < g.Y * g.X; k++) { double sum = 0; int n = 0; for(float v : in[k]) if(isv(v)) { sum += v; n++; } float f = fc[k / g.X][k % g.X]; if(!n || !isv(f)) continue; double mean = sum / n; if(n > 1 && std::fabs(mean - t) < 1e-5) amb[k] = 1; bool ob = (float) mean > t; cat[k] = f > t ? (ob ? 0 : 1) : (ob ? 2 : 3); }
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
        double n[4] = {0, 0, 0, 0}; bool skip = false; int cells = 0; for(long yy = std::max(0L, (long) y - hw); yy <= std::min((long) g.Y - 1, (long) y + hw); yy++) for(long xx = std::max(0L, (long) x - hw); xx <= std::min((long) g.X - 1, (long) x + hw); xx++) { int k = yy * g.X + xx; cells++; if(amb[k]) skip = true; if(cat[k] >= 0) n[cat[k]]++; } if(skip) continue;
        double tol, w = ref_score(n[0], n[1], n[2], n[3], m, tol); c.near(out[y][x], w, 5 * tol, std::string("neighbourhood:") + mname(m), [&] { return g.desc + strf(" halfwidth %d cell %d,%d counts %g %g %g %g", hw, y, x, n[0], n[1], n[2], n[3]); });
    }
    c.ok(!runs([&] { gridpp::neighbourhood_score(grid, pts, init2(g.Y + 1, g.X), ref, hw, m, t); }) && !runs([&] { gridpp::neighbourhood_score(grid, pts, init2(g.Y, g.X + 1), ref, hw, m, t); }) && !runs([&] { vec b = ref; b.push_back(1); gridpp::neighbourhood_score(grid, pts, fc, b, hw, m, t); }) && !runs([&] { gridpp::neighbourhood_score(grid, pts, fc, ref, -r.i(0, 3), m, t); }) && !runs([&] { gridpp::neighbourhood_score(grid, pts, fc, ref, hw, (Metric) 77, t); }), "neighbourhood:invalid-accepted");
}
