// C06: neighbourhood quantiles (exact and threshold based) and threshold selection.
#include "nbh.h"
static int gen_hw(Rng& r, int Y, int X) { int m = std::max(Y, X); switch(r.i(0, 5)) { case 0: return 0; case 1: return m + r.i(0, 5); default: return r.i(0, std::max(1, m / 2)); } }
static float gen_q(Rng& r) { switch(r.i(0, 6)) { case 0: return 0; case 1: return 1; case 2: return 0.5; case 3: return r.i(0, 20) / 20.0; default: return r.u(); } }
template <class F> static void exact(Ctx& c, const F& f, int Y, int X, int hw, const char* tag) {
    Rng& r = c.rng;
    std::vector<float> qs; for(int k = r.i(1, 3); k > 0; k--) qs.push_back(gen_q(r)); std::sort(qs.begin(), qs.end());
    vec2 prev;
    for(float q : qs) {
        vec2 a = gridpp::neighbourhood_quantile(f, q, hw);
        if(!c.ok(a.size() == (size_t) Y && a[0].size() == (size_t) X, std::string(tag) + ":shape")) return;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            WinVals w = window_of(f, y, x, hw);
            if(w.v.empty()) { c.ok(std::isnan(a[y][x]), std::string(tag) + ":empty-window"); continue; }
            double lo, hi; ref_quantile(w.v, q, lo, hi);
            c.okf(a[y][x] >= lo && a[y][x] <= hi, std::string(tag) + ":value", [&] { return strf("q=%.9g hw=%d at (%d,%d) got %.9g want [%.9g,%.9g] n=%zu", q, hw, y, x, a[y][x], lo, hi, w.v.size()); });
            c.ok(a[y][x] >= (float) w.lo && a[y][x] <= (float) w.hi, std::string(tag) + ":range");
            if(!prev.empty()) c.ok(a[y][x] >= prev[y][x] - 4e-7 * std::fabs(prev[y][x]), std::string(tag) + ":monotone");
        }
        prev = a;
    }
}
CASEW(exact2, 1) { Rng& r = c.rng; int Y = r.i(1, 9), X = r.i(1, 9); float lo, hi; vary(r, lo, hi); vec2 f = gen_field(r, Y, X, pick_missing(r), lo, hi); sprinkle(r, f); vec2 k = f; int hw = gen_hw(r, Y, X); c.h(f); c.h(hw); c.sample(strf("%dx%d hw %d ", Y, X, hw) + str(f)); exact(c, f, Y, X, hw, "quantile"); c.ok(same_bits(f, k), "quantile:input-modified"); }
CASEW(exact3, 1) { Rng& r = c.rng; int Y = r.i(1, 6), X = r.i(1, 6), E = r.i(1, 5); float lo, hi; vary(r, lo, hi); vec3 f = gen_field3(r, Y, X, E, pick_missing(r), lo, hi); vec3 k = f; int hw = gen_hw(r, Y, X); c.h(f); c.h(hw); c.sample(strf("%dx%dx%d hw %d ", Y, X, E, hw) + str(f[0])); exact(c, f, Y, X, hw, "quantile-ens"); c.ok(same_bits(f, k), "quantile-ens:input-modified"); }

// piecewise-linear inverse of the distribution (y_t at threshold_t); the set of answers for levels in [q-e,q+e]
static void inverse(const dvec& y, const vec& thr, double q, double e, double& lo, double& hi) {
    lo = INFINITY; hi = -INFINITY; size_t n = y.size();
    double a = q - e, b = q + e;
    auto add = [&](double v) { lo = std::min(lo, v); hi = std::max(hi, v); };
    if(a < y[0]) add(thr[0]);
    if(b > y[n - 1]) add(thr[n - 1]);
    if(n == 1) { add(thr[0]); return; }
    for(size_t i = 0; i < n; i++) if(y[i] >= a && y[i] <= b) add(thr[i]);
    for(size_t i = 0; i + 1 < n; i++) {
        double y0 = y[i], y1 = y[i + 1]; if(y1 <= y0) continue;
        double c0 = std::max(a, y0), c1 = std::min(b, y1);
        if(c0 <= c1) { add(thr[i] + (thr[i + 1] - thr[i]) * (c0 - y0) / (y1 - y0)); add(thr[i] + (thr[i + 1] - thr[i]) * (c1 - y0) / (y1 - y0)); }
    }
}
template <class F> static double cellfrac(const F& f, int y, int x, float t, bool& valid);
template <> double cellfrac<vec2>(const vec2& f, int y, int x, float t, bool& valid) { valid = isv(f[y][x]); return valid && f[y][x] <= t; }
template <> double cellfrac<vec3>(const vec3& f, int y, int x, float t, bool& valid) { int n = 0, k = 0; for(float v : f[y][x]) if(isv(v)) { n++; k += v <= t; } valid = n > 0; return n ? (double) k / n : 0; }
template <class F> static void fast(Ctx& c, const F& f, int Y, int X, int hw, const char* tg, float lo, float hi) {
    Rng& r = c.rng; std::string tag = tg;
    vec thr;
    if(r.p(0.5)) { int n = r.i(1, 12); for(int i = 0; i < n; i++) thr.push_back(r.u(lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo))); std::sort(thr.begin(), thr.end()); thr.erase(std::unique(thr.begin(), thr.end()), thr.end()); }
    else thr = gridpp::get_neighbourhood_thresholds(f, r.i(1, 12));
    bool fixed = r.p(0.4); vec2 q2; float q = gen_q(r);
    if(!fixed) { q2 = init2(Y, X); for(auto& row : q2) for(auto& v : row) v = r.p(0.05) ? NaNf : gen_q(r); }
    bool oneByOne = fixed && r.p(0.3); if(oneByOne) q2 = vec2(1, vec(1, q));
    vec2 a = fixed && !oneByOne ? gridpp::neighbourhood_quantile_fast(f, q, hw, thr) : gridpp::neighbourhood_quantile_fast(f, q2, hw, thr);
    if(!c.ok(a.size() == (size_t) Y && a[0].size() == (size_t) X, tag + ":shape")) return;
    if(thr.empty()) { for(auto& row : a) for(float v : row) c.ok(std::isnan(v), tag + ":no-thresholds"); return; }
    c.h(thr); c.h(q);
    c.sample("thresholds " + str(thr) + strf(" fixed=%d q=%g", fixed, q));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        float lq = fixed ? q : q2[y][x];
        dvec yy(thr.size()); bool any = false;
        for(size_t t = 0; t < thr.size(); t++) {
            double s = 0; int n = 0;
            for(int iy = std::max(0, y - hw); iy <= std::min(Y - 1, y + hw); iy++) for(int ix = std::max(0, x - hw); ix <= std::min(X - 1, x + hw); ix++) { bool v; double fr = cellfrac(f, iy, ix, thr[t], v); if(v) { s += fr; n++; } }
            if(n) { any = true; yy[t] = s / n; }
        }
        if(!any || std::isnan(lq)) { c.ok(std::isnan(a[y][x]), tag + ":missing"); continue; }
        double l, h; inverse(yy, thr, lq, 1e-5, l, h);
        double e = 1e-5 * (thr.back() - thr[0]) + 1e-6 * std::max(std::fabs(l), std::fabs(h));
        c.okf(a[y][x] >= l - e && a[y][x] <= h + e, tag + ":value", [&] { return strf("q=%.9g hw=%d at (%d,%d) got %.9g want [%.9g,%.9g] thr=", lq, hw, y, x, a[y][x], l, h) + str(thr) + " cdf=" + str(yy); });
    }
}
CASEW(fast2, 2) { Rng& r = c.rng; int Y = r.i(1, 9), X = r.i(1, 9); float lo, hi; vary(r, lo, hi); vec2 f = gen_field(r, Y, X, pick_missing(r), lo, hi); sprinkle(r, f); vec2 k = f; int hw = gen_hw(r, Y, X); c.h(f); c.h(hw); fast(c, f, Y, X, hw, "fast", lo, hi); c.ok(same_bits(f, k), "fast:input-modified"); }
CASEW(fast3, 2) { Rng& r = c.rng; int Y = r.i(1, 6), X = r.i(1, 6), E = r.i(1, 5); float lo, hi; vary(r, lo, hi); vec3 f = gen_field3(r, Y, X, E, pick_missing(r), lo, hi); vec3 k = f; int hw = gen_hw(r, Y, X); c.h(f); c.h(hw); fast(c, f, Y, X, hw, "fast-ens", lo, hi); c.ok(same_bits(f, k), "fast-ens:input-modified"); }
// thresholds from the data; with every value a threshold the fast version brackets the exact one
CASE(thresholds) {
    Rng& r = c.rng; int Y = r.i(1, 8), X = r.i(1, 8), E = r.i(1, 4); bool three = r.p(0.5);
    vec3 f = gen_field3(r, Y, X, E, pick_missing(r));
    int mode = r.i(0, 3); for(auto& a : f) for(auto& b : a) for(auto& v : b) if(isv(v)) { if(mode == 1) v = v < 10 ? 0 : std::round(v); if(mode == 2) v = r.i(0, 3); if(mode == 3 && r.p(0.3)) v = -20; }
    vec2 f2 = init2(Y, X); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) f2[y][x] = f[y][x][0];
    std::set<float> vals; size_t nv = 0; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { if(three) { for(float v : f[y][x]) if(isv(v)) { vals.insert(v); nv++; } } else if(isv(f2[y][x])) { vals.insert(f2[y][x]); nv++; } }
    int num = r.p(0.2) ? r.i(1, 60) : r.i(1, 12); c.h(f); c.h(num);
    vec t = three ? gridpp::get_neighbourhood_thresholds(f, num) : gridpp::get_neighbourhood_thresholds(f2, num);
    c.sample(strf("num %d from %zu values (%zu unique): ", num, nv, vals.size()) + str(t));
    c.ok((int) t.size() <= num, "thresholds:too-many"); c.ok(t.empty() == vals.empty(), "thresholds:empty");
    for(size_t i = 0; i < t.size(); i++) { c.ok(vals.count(t[i]) > 0, "thresholds:not-from-data"); if(i) c.ok(t[i] > t[i - 1], "thresholds:not-increasing", str(t)); }
    if(!t.empty()) { c.ok(t[0] == *vals.begin(), "thresholds:lowest"); if(num >= 2) c.ok(t.back() == *vals.rbegin(), "thresholds:highest", str(t) + strf(" num %d max %g", num, *vals.rbegin())); if(num >= (int) nv) c.ok(t.size() == vals.size(), "thresholds:all-unique"); }
    int bad = -r.i(0, 5); c.ok(!runs([&] { gridpp::get_neighbourhood_thresholds(f, bad); }), "thresholds:invalid-num"); c.ok(!runs([&] { gridpp::get_neighbourhood_thresholds(f2, bad); }), "thresholds:invalid-num");
}
CASE(errors) {
    Rng& r = c.rng; int Y = r.i(1, 5), X = r.i(1, 5); vec2 f = gen_field(r, Y, X); vec3 g = gen_field3(r, Y, X, r.i(1, 3)); vec thr = {0, 5, 10}; c.h(f);
    int neg = -r.i(1, 9), hw = r.i(0, 3); float bad = r.p(0.5) ? -r.u(0.001, 2) : 1 + r.u(0.001, 2);
    c.ok(!runs([&] { gridpp::neighbourhood_quantile(f, 0.5, neg); }), "errors:negative"); c.ok(!runs([&] { gridpp::neighbourhood_quantile(g, 0.5, neg); }), "errors:negative-ens");
    c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(f, 0.5, neg, thr); }), "errors:negative-fast"); c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(g, 0.5, neg, thr); }), "errors:negative-fast-ens");
    c.ok(!runs([&] { gridpp::neighbourhood_quantile(f, bad, hw); }), "errors:quantile"); c.ok(!runs([&] { gridpp::neighbourhood_quantile(g, bad, hw); }), "errors:quantile-ens");
    c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(f, bad, hw, thr); }), "errors:quantile-fast"); c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(g, bad, hw, thr); }), "errors:quantile-fast-ens");
    vec2 q = init2(Y, X, 0.5); q[r.i(0, Y - 1)][r.i(0, X - 1)] = bad;
    c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(f, q, hw, thr); }), "errors:quantile-field"); c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(g, q, hw, thr); }), "errors:quantile-field-ens");
    int wy = Y, wx = X; switch(r.i(0, 3)) { case 0: wy = Y + r.i(1, 2); wx = X + r.i(-1, 2); break; case 1: wx = X + r.i(1, 2); break; case 2: wy = 1; break; default: wx = 1; if(r.p(0.3)) wy = Y + 1; }
    wx = std::max(wx, 1); if((wy == 1 && wx == 1) || (wy == Y && wx == X)) return;
    vec2 wrong = init2(wy, wx, 0.5);
    c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(f, wrong, hw, thr); }), "errors:size"); c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(g, wrong, hw, thr); }), "errors:size-ens");
    c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(f, vec2(), hw, thr); }), "errors:size-empty"); c.ok(!runs([&] { gridpp::neighbourhood_quantile_fast(g, vec2(), hw, thr); }), "errors:size-empty-ens");
    c.ok(gridpp::neighbourhood_quantile(vec2(), 0.5, hw).empty() && gridpp::neighbourhood_quantile(vec3(), 0.5, hw).empty() && gridpp::neighbourhood_quantile_fast(vec2(), 0.5, hw, thr).empty() && gridpp::neighbourhood_quantile_fast(vec3(), 0.5, hw, thr).empty(), "errors:empty");
}
static bool agree(const vec2& a, const vec2& b) {
    if(a.size() != b.size()) return false;
    for(size_t i = 0; i < a.size(); i++) { if(a[i].size() != b[i].size()) return false; for(size_t j = 0; j < a[i].size(); j++) if(std::isnan(a[i][j]) != std::isnan(b[i][j]) || std::fabs(a[i][j] - b[i][j]) > 1e-5 * (1 + std::fabs(b[i][j]))) return false; }
    return true;
}
// the deprecated names are the same functions
CASE(deprecated) {
    Rng& r = c.rng; int Y = r.i(1, 6), X = r.i(1, 6), E = r.i(1, 5), hw = gen_hw(r, Y, X); float q = gen_q(r); vec3 f = gen_field3(r, Y, X, E, pick_missing(r)); c.h(f); c.h(q); c.h(hw);
    vec thr; for(int i = r.i(1, 6); i > 0; i--) thr.push_back(r.u(-30, 30)); std::sort(thr.begin(), thr.end()); c.sample(strf("%dx%dx%d hw %d q %g", Y, X, E, hw, q));
    c.ok(agree(gridpp::neighbourhood_quantile_ens(f, q, hw), gridpp::neighbourhood_quantile(f, q, hw)), "deprecated:exact");
    c.ok(agree(gridpp::neighbourhood_quantile_ens_fast(f, q, hw, thr), gridpp::neighbourhood_quantile_fast(f, q, hw, thr)), "deprecated:fast");
}
