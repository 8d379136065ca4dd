// C12: statistics, quantiles, interpolation tables and small helpers against their definitions.
#include "nbh.h"
static vec gen_values(Rng& r, int n) {
    float lo, hi; vary(r, lo, hi); if(r.p(0.05)) { lo = -1e12; hi = 1e12; }
    vec v = gen_vec(r, n, pick_missing(r), lo, hi);
    if(r.p(0.1)) for(auto& f : v) if(isv(f)) f = lo;
    if(r.p(0.15)) for(auto& f : v) if(r.p(0.15)) f = r.p(0.5) ? INFINITY : -INFINITY;
    if(r.p(0.1)) for(auto& f : v) if(isv(f)) f = std::round(r.u(0, 3));
    if(r.p(0.1)) for(auto& f : v) f = NaNf;
    return v;
}
static int gen_n(Rng& r) { return r.p(0.03) ? r.i(200, 3000) : r.p(0.1) ? 0 : r.i(1, 30); }
static WinVals of(const vec& v) { WinVals w; for(float f : v) w.add(f); return w; }
static vec shuffled(Rng& r, vec v) { for(size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.i(0, i - 1)]); return v; }

CASEW(statistic, 3) {
    Rng& r = c.rng; vec v = gen_values(r, gen_n(r)), keep = v; WinVals w = of(v); c.h(v); c.sample(str(v));
    vec sh = shuffled(r, v);
    for(auto s : all_stats()) {
        auto d = [&] { return std::string(sname(s)) + " " + str(v); };
        check_stat(c, gridpp::calc_statistic(v, s), w, s, 0, 0, strf("statistic:%s", sname(s)), d);
        check_stat(c, gridpp::calc_statistic(sh, s), w, s, 0, 0, strf("statistic-permuted:%s", sname(s)), d);
        vec2 two = {v, sh, vec(), {v.empty() ? 1.f : v[0]}}; vec o = gridpp::calc_statistic(two, s);
        if(!c.ok(o.size() == 4, "statistic:rows")) continue;
        for(int k = 0; k < 4; k++) check_stat(c, o[k], of(two[k]), s, 0, 0, strf("statistic-rows:%s", sname(s)), d);
    }
    for(auto s : {gridpp::Min, gridpp::Max, gridpp::Median, gridpp::Count}) { float a = gridpp::calc_statistic(v, s), b = gridpp::calc_statistic(sh, s); c.ok(a == b || (std::isnan(a) && std::isnan(b)), strf("statistic:order:%s", sname(s)), str(v)); }
    c.ok(same_bits(v, keep), "statistic:input-modified");
    c.ok(!runs([&] { gridpp::calc_statistic(v, gridpp::Unknown); }), "statistic:unknown-accepted");
}
// rounding errors must not accumulate over long arrays
CASE(longarray) {
    Rng& r = c.rng; int n = r.p(0.02) ? (int) std::pow(10, r.u(4.5, 5.9)) : r.i(500, 3000); double off = r.pick({0.0, 1.0, 280.0, 1e5, -300.0}), sp = r.pick({0.01, 1.0, 10.0}) * std::max(1.0, std::fabs(off) / 300), m = r.p(0.3) ? 0.1 : 0; bool first = r.p(0.3);
    vec v(n); for(auto& f : v) f = r.p(m) ? NaNf : off + sp * r.u(-1, 1); if(first) v[0] = off + 40 * sp;
    double s = 0, q = 0; float lo = INFINITY, hi = -INFINITY; int k = 0; for(float f : v) if(isv(f)) { s += f; k++; lo = std::min(lo, f); hi = std::max(hi, f); } double mean = s / k; for(float f : v) if(isv(f)) q += (f - mean) * (f - mean); double var = q / k, big = std::max(std::fabs(lo), std::fabs(hi));
    c.h(mean); c.h(n); auto d = [&] { return strf("%d values (%d valid) around %g +- %g, first %.9g", n, k, off, sp, v[0]); }; c.sample(d());
    c.near(gridpp::calc_statistic(v, gridpp::Mean), mean, 1e-6 * big, "longarray:mean", d); c.near(gridpp::calc_statistic(v, gridpp::Sum), s, 1e-6 * big * k, "longarray:sum", d); c.near(gridpp::calc_statistic(v, gridpp::Std), std::sqrt(var), 2e-4 * std::sqrt(var), "longarray:std", d); c.near(gridpp::calc_statistic(v, gridpp::Variance), var, 4e-4 * var, "longarray:variance", d);
    c.okf(gridpp::calc_statistic(v, gridpp::Min) == lo && gridpp::calc_statistic(v, gridpp::Max) == hi && gridpp::calc_statistic(v, gridpp::Count) == k, "longarray:min-max-count", d);
}
// every valid element must be able to be chosen
CASE(randomchoice) {
    Rng& r = c.rng; int n = r.i(1, 6); vec v(n); for(int i = 0; i < n; i++) v[i] = r.p(0.3) ? NaNf : i + 1; c.h(v); srand(c.id);
    std::set<float> valid, seen; for(float f : v) if(isv(f)) valid.insert(f);
    for(int k = 0; k < 400; k++) { float o = gridpp::calc_statistic(v, gridpp::RandomChoice); if(isv(o)) seen.insert(o); }
    c.ok(seen == valid, "randomchoice:support", str(v) + strf(" saw %zu of %zu", seen.size(), valid.size()));
}
static float gen_q(Rng& r) { switch(r.i(0, 6)) { case 0: return 0; case 1: return 1; case 2: return 0.5; case 3: return r.i(0, 20) / 20.0; default: return r.u(); } }
CASEW(quantile, 3) {
    Rng& r = c.rng; vec v = gen_values(r, gen_n(r)), keep = v; WinVals w = of(v); c.h(v);
    vec sh = shuffled(r, v); float pq = -1, pv = NaNf;
    vec qs; for(int k = 0; k < 5; k++) qs.push_back(gen_q(r)); std::sort(qs.begin(), qs.end());
    if(!w.v.empty() && w.v.size() > 1) qs.push_back((float) r.i(0, w.v.size() - 1) / (w.v.size() - 1));
    c.sample(str(v) + " levels " + str(qs)); c.h(qs);
    for(size_t k = 0; k < qs.size(); k++) {
        float q = qs[k], g = gridpp::calc_quantile(v, q);
        if(w.v.empty()) { c.ok(std::isnan(g), "quantile:empty"); continue; }
        double lo, hi; ref_quantile(w.v, q, lo, hi);
        c.okf(g >= lo && g <= hi, "quantile:value", [&] { return strf("q=%.9g got %.9g want [%.9g,%.9g] ", q, g, lo, hi) + str(v); });
        c.ok(g >= (float) w.lo && g <= (float) w.hi, "quantile:range");
        if(pq >= 0 && q >= pq) c.ok(g >= pv - 4e-7 * std::fabs(pv), "quantile:monotone", str(v));
        if(k + 1 < qs.size() || true) { pq = q; pv = g; }
        c.ok(gridpp::calc_quantile(sh, q) == g, "quantile:order");
        if(q == 0) c.ok(g == (float) w.lo, "quantile:min"); if(q == 1) c.ok(g == (float) w.hi, "quantile:max");
        vec2 two = {sh, {}, v}; vec o = gridpp::calc_quantile(two, q);
        c.ok(o.size() == 3 && o[0] == g && std::isnan(o[1]) && o[2] == g, "quantile:rows");
    }
    c.ok(std::isnan(gridpp::calc_quantile(v, NaNf)), "quantile:missing-level");
    float bad = r.p(0.5) ? -r.u(1e-3, 3) : 1 + r.u(1e-3, 3); c.ok(!runs([&] { gridpp::calc_quantile(v, bad); }), "quantile:invalid-level");
    c.ok(same_bits(v, keep), "quantile:input-modified");
}
CASE(quantile3) {
    Rng& r = c.rng; int Y = r.i(0, 4), X = r.i(0, 4), T = r.i(0, 6); vec3 f = gen_field3(r, Y, X, T, pick_missing(r)); vec2 q = init2(Y, X); for(auto& row : q) for(auto& v : row) v = r.p(0.1) ? NaNf : gen_q(r);
    c.h(f); c.h(q); vec2 o = gridpp::calc_quantile(f, q);
    if(Y == 0 || X == 0) { c.ok(o.empty(), "quantile3:empty"); return; }
    if(!c.ok(o.size() == (size_t) Y && o[0].size() == (size_t) X, "quantile3:shape")) return;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        WinVals w = of(f[y][x]); if(w.v.empty() || std::isnan(q[y][x])) { c.ok(std::isnan(o[y][x]), "quantile3:missing"); continue; }
        double lo, hi; ref_quantile(w.v, q[y][x], lo, hi); c.ok(o[y][x] >= lo && o[y][x] <= hi, "quantile3:value", strf("q %g got %g want [%g,%g]", q[y][x], o[y][x], lo, hi));
    }
    vec2 wrong = init2(Y + r.i(1, 2), X, 0.5); c.ok(!runs([&] { gridpp::calc_quantile(f, wrong); }), "quantile3:size");
}
// sorted table with ties
static void gen_table(Rng& r, int n, vec& x, vec& y, bool unique) {
    x.clear(); y.clear(); float cur = r.u(-10, 10); double sc = r.pick({1.0, 1.0, 1e-3, 1e3});
    for(int i = 0; i < n; i++) { if(i && (unique || !r.p(0.3))) cur += sc * r.u(0.1, 3); x.push_back(cur); y.push_back(r.u(-20, 20)); }
}
static double ref_interp(double v, const vec& X, const vec& Y) {
    size_t n = X.size(); if(n == 0 || std::isnan(v)) return NaNd;
    if(v > X[n - 1]) return Y[n - 1]; if(v < X[0]) return Y[0];
    size_t a = n, b = n; for(size_t i = 0; i < n; i++) if(X[i] == v) { if(a == n) a = i; b = i; }
    if(a < n) { if(a == b) return Y[a]; bool s = a == 0, e = b == n - 1; if(s && !e) return Y[b]; if(e && !s) return Y[a]; return ((double) Y[a] + Y[b]) / 2; }
    size_t i = 0; while(X[i + 1] < v) i++;   // X[i] < v < X[i+1]; last tied left node, first tied right node
    return Y[i] + ((double) Y[i + 1] - Y[i]) * (v - X[i]) / ((double) X[i + 1] - X[i]);
}
CASEW(interpolate, 3) {
    Rng& r = c.rng; int n = r.p(0.05) ? 0 : r.i(1, 14); vec X, Y; gen_table(r, n, X, Y, r.p(0.4)); c.h(X); c.h(Y);
    vec q; for(int k = 0; k < 12; k++) { if(n && r.p(0.3)) q.push_back(X[r.i(0, n - 1)]); else if(r.p(0.05)) q.push_back(NaNf); else q.push_back(n ? r.u(X[0] - 2 * (X[n - 1] - X[0] + 1) * r.i(0, 1), X[n - 1] + 2 * r.i(0, 1)) : r.u()); }
    vec k1 = X, k2 = Y, o = gridpp::interpolate(q, X, Y); c.h(q); c.sample("x " + str(X) + " y " + str(Y) + " at " + str(q));
    if(!c.ok(o.size() == q.size(), "interpolate:size")) return;
    for(size_t k = 0; k < q.size(); k++) {
        auto d = [&] { return strf("at %.9g x=", q[k]) + str(X) + " y=" + str(Y); };
        double w = ref_interp(q[k], X, Y);
        c.near(o[k], w, 1e-5 * 40, "interpolate:value", d);
        float s = gridpp::interpolate(q[k], X, Y); c.okf(s == o[k] || (std::isnan(s) && std::isnan(o[k])), "interpolate:vector-differs", d);
        bool node = false; for(float f : X) if(f == q[k]) node = true;
        if(node) c.near(o[k], w, 4e-6, "interpolate:node", d);
    }
    c.ok(same_bits(X, k1) && same_bits(Y, k2), "interpolate:input-modified");
    vec wrong(n + r.i(1, 3)); c.ok(!runs([&] { gridpp::interpolate(q, X, wrong); }), "interpolate:size-mismatch"); c.ok(!runs([&] { gridpp::interpolate(1, X, wrong); }), "interpolate:size-mismatch-scalar");
}
CASE(index) {
    Rng& r = c.rng; int n = r.i(1, 14); vec X, Y; gen_table(r, n, X, Y, r.p(0.4)); c.h(X);
    if(r.p(0.3)) for(auto& f : X) if(r.p(0.2)) f = NaNf;
    for(int k = 0; k < 8; k++) {
        float v = r.p(0.4) ? X[r.i(0, n - 1)] : r.u(-15, 40); if(std::isnan(v)) continue; c.h(v);
        int lo = -1, hi = -1; for(int i = 0; i < n; i++) if(isv(X[i])) { if(X[i] < v) lo = i; if(X[i] == v) { lo = i; break; } }
        for(int i = n - 1; i >= 0; i--) if(isv(X[i])) { if(X[i] > v) hi = i; if(X[i] == v) { hi = i; break; } }
        int gl = gridpp::get_lower_index(v, X), gh = gridpp::get_upper_index(v, X);
        if(lo >= 0) c.ok(gl == lo, "index:lower", strf("%g got %d want %d ", v, gl, lo) + str(X)); else c.ok(gl < 0, "index:lower-none");
        if(hi >= 0) c.ok(gh == hi, "index:upper", strf("%g got %d want %d ", v, gh, hi) + str(X)); else c.ok(gh < 0, "index:upper-none");
    }
}
CASE(helpers) {
    Rng& r = c.rng; int Y = r.i(0, 5), X = r.i(0, 5), T = r.i(0, 4); vec2 f = gen_field(r, Y, X, 0.3); if(r.p(0.3)) sprinkle(r, f); c.h(f); c.h(Y * 100 + X * 10 + T); c.h(c.id);
    int want = 0; for(auto& row : f) for(float v : row) want += !isv(v); c.ok(gridpp::num_missing_values(f) == want, "helpers:num_missing");
    float k = r.u(-5, 5); int ki = r.i(-5, 5);
    vec2 a = gridpp::init_vec2(Y, X, k); vec3 b = gridpp::init_vec3(Y, X, T, k); ivec2 d = gridpp::init_ivec2(Y, X, ki); ivec3 e = gridpp::init_ivec3(Y, X, T, ki);
    c.ok(a == vec2(Y, vec(X, k)) && b == vec3(Y, vec2(X, vec(T, k))) && d == ivec2(Y, ivec(X, ki)) && e == ivec3(Y, ivec2(X, ivec(T, ki))), "helpers:init");
    vec2 m = gridpp::init_vec2(Y, X); for(auto& row : m) for(float v : row) c.ok(std::isnan(v), "helpers:init-missing");
    const char* nm[] = {"mean", "min", "max", "median", "quantile", "std", "variance", "sum", "count", "randomchoice"}; gridpp::Statistic st[] = {gridpp::Mean, gridpp::Min, gridpp::Max, gridpp::Median, gridpp::Quantile, gridpp::Std, gridpp::Variance, gridpp::Sum, gridpp::Count, gridpp::RandomChoice};
    for(int i = 0; i < 10; i++) c.ok(gridpp::get_statistic(nm[i]) == st[i], "helpers:get_statistic", nm[i]);
    c.ok(gridpp::get_statistic("x" + std::string(nm[r.i(0, 9)])) == gridpp::Unknown && gridpp::get_statistic("") == gridpp::Unknown, "helpers:get_statistic-unknown");
    c.ok(gridpp::is_valid(k) && !gridpp::is_valid(NaNf) && !gridpp::is_valid(INFINITY) && !gridpp::is_valid(-INFINITY) && !gridpp::is_valid(gridpp::MV) && gridpp::is_valid(0) && gridpp::is_valid(3e38f), "helpers:is_valid");
    vec2 g = gen_field(r, r.i(0, 5), r.i(0, 5)); vec3 h = gen_field3(r, r.i(0, 4), r.i(0, 4), T), h2 = gen_field3(r, r.i(0, 4), r.i(0, 4), r.i(0, 4));
    auto dim = [](const vec2& v) { return std::make_pair(v.size(), v.empty() ? 0 : v[0].size()); };
    c.ok(gridpp::compatible_size(f, g) == (dim(f) == dim(g)), "helpers:compatible22");
    bool w23 = f.size() == h.size() && (f.empty() || f[0].size() == h[0].size()); c.ok(gridpp::compatible_size(f, h) == w23, "helpers:compatible23");
    auto dim3 = [](const vec3& v) { size_t q = v.empty() ? 0 : v[0].size(); return std::make_tuple(v.size(), q, q ? v[0][0].size() : 0); };
    c.ok(gridpp::compatible_size(h, h2) == (dim3(h) == dim3(h2)), "helpers:compatible33");
    c.ok(gridpp::compatible_size(h, h), "helpers:compatible-self");
}
CASE(even_quantiles) {
    Rng& r = c.rng; vec v = gen_vec(r, r.i(0, 60), 0, -5, 30); int m = r.i(0, 3); for(auto& f : v) { if(m == 1) f = f < 12 ? 0 : std::round(f); if(m == 2) f = r.i(0, 4); } int num = r.i(0, 25); c.h(v); c.h(num);
    vec k = v, t = gridpp::calc_even_quantiles(v, num); std::set<float> vals(v.begin(), v.end());
    c.sample(strf("%d of ", num) + str(v) + " -> " + str(t));
    if(num == 0 || v.empty()) { c.ok(t.empty(), "even:empty"); return; }
    c.ok(!t.empty() && (int) t.size() <= num, "even:count", strf("%zu for %d", t.size(), num));
    for(size_t i = 0; i < t.size(); i++) { c.ok(vals.count(t[i]) > 0, "even:not-from-data"); if(i) c.ok(t[i] > t[i - 1], "even:not-increasing", str(t)); }
    if(!t.empty()) { c.ok(t[0] == *vals.begin(), "even:lowest"); if(num >= 2) c.ok(t.back() == *vals.rbegin(), "even:highest", str(t)); }
    // the first value after a long run of the lowest is included
    size_t low = std::count(v.begin(), v.end(), *vals.begin()); if(num >= 3 && num < (int) v.size() && vals.size() > 1 && low > v.size() / num) c.ok(t.size() > 1 && t[1] == *std::next(vals.begin()), "even:first-after-run", str(t));
    c.ok((int) t.size() >= std::min(num, (int) vals.size()), "even:too-few", strf("%zu for num %d, %zu unique", t.size(), num, vals.size()));
    c.ok(same_bits(k, v), "even:input-modified");
}
CASE(rectangle) {
    // point_in_rectangle for axis-aligned and rotated rectangles, away from the edges
    Rng& r = c.rng; double cx = r.u(-50, 50), cy = r.u(-50, 50), w = r.u(0.5, 5), h = r.u(0.5, 5), a = r.p(0.4) ? 0 : r.u(0, 6.28); bool ccw = r.p(0.5);
    auto P = [&](double u, double v) { return gridpp::Point(cy + std::sin(a) * u + std::cos(a) * v, cx + std::cos(a) * u - std::sin(a) * v); };
    gridpp::Point A = P(-w, -h), B = P(w, -h), C = P(w, h), D = P(-w, h); if(ccw) std::swap(B, D);
    for(int k = 0; k < 10; k++) {
        double u = r.u(-1.6, 1.6), v = r.u(-1.6, 1.6); if(std::fabs(std::fabs(u) - 1) < 0.01 || std::fabs(std::fabs(v) - 1) < 0.01) continue;
        bool in = std::fabs(u) < 1 && std::fabs(v) < 1; c.h(u); c.h(v);
        c.ok(gridpp::point_in_rectangle(A, B, C, D, P(u * w, v * h)) == in, strf("rectangle:%s", in ? "inside" : "outside"), strf("u=%g v=%g w=%g h=%g a=%g ccw=%d", u, v, w, h, a, ccw));
    }
}
