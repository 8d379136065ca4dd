// C05: neighbourhood statistics; every output cell against a scan of its window.
#include "nbh.h"
static int gen_hw(Rng& r, int Y, int X) { int m = std::max(Y, X); switch(r.i(0, 6)) { case 0: return 0; case 1: return m; case 2: return m + r.i(1, 50); case 3: return r.p(0.3) ? 2147483647 : m - 1; default: return r.i(0, std::max(1, m / 2)); } }
static void globals(const vec2& f, double& a, double& s) { a = 0; double lo = INFINITY, hi = -INFINITY; for(auto& r : f) for(float v : r) if(isv(v)) { a += std::fabs(v); lo = std::min(lo, (double) v); hi = std::max(hi, (double) v); } s = lo <= hi ? (hi - lo) * std::sqrt((double) f.size() * f[0].size()) : 0; }

CASEW(field, 3) {
    Rng& r = c.rng; int Y = r.i(1, 12), X = r.i(1, 12); if(r.p(0.1)) Y = 1; if(r.p(0.1)) X = 1;
    if(c.id % 50 == 7) { Y = r.i(20, 45); X = r.i(20, 45); }
    float lo, hi; vary(r, lo, hi);
    vec2 f = gen_field(r, Y, X, pick_missing(r), lo, hi); sprinkle(r, f);
    vec2 keep = f; int hw = gen_hw(r, Y, X);
    double ga, gs; globals(f, ga, gs); c.h(f); c.h(hw);
    c.sample(strf("%dx%d halfwidth %d range [%g,%g] field ", Y, X, hw, lo, hi) + str(f));
    for(auto s : all_stats()) {
        if(Y > 14 && r.p(0.5)) continue;
        vec2 a = gridpp::neighbourhood(f, hw, s), b = gridpp::neighbourhood_brute_force(f, hw, s);
        if(!c.ok(a.size() == (size_t) Y && a[0].size() == (size_t) X && b.size() == (size_t) Y && b[0].size() == (size_t) X, "field:shape", sname(s))) return;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            WinVals w = window_of(f, y, x, hw);
            auto d = [&] { return strf("%s hw=%d %dx%d at (%d,%d) ", sname(s), hw, Y, X, y, x) + str(f, 12); };
            check_stat(c, a[y][x], w, s, ga, gs, strf("neighbourhood:%s", sname(s)), d);
            check_stat(c, b[y][x], w, s, 0, 0, strf("brute_force:%s", sname(s)), d);
        }
    }
    c.ok(same_bits(f, keep), "field:input-modified");
    // half-width zero and beyond the domain
    auto s = r.pick(std::vector<gridpp::Statistic>{gridpp::Mean, gridpp::Min, gridpp::Max, gridpp::Sum, gridpp::Median, gridpp::Variance});
    vec2 z = gridpp::neighbourhood(f, std::max(Y, X), s), z2 = gridpp::neighbourhood(f, std::max(Y, X) + r.i(1, 1000), s);
    c.ok(same_bits(z, z2), "field:beyond-domain", sname(s));
    for(auto& row : z) for(float v : row) c.ok(std::isnan(v) == std::isnan(z[0][0]) && (std::isnan(v) || std::fabs(v - z[0][0]) <= 1e-6 * (std::fabs(v) + gs)), "field:not-uniform", sname(s));
}
CASEW(ens, 2) {
    Rng& r = c.rng; int Y = r.i(1, 8), X = r.i(1, 8), E = r.i(1, 6);
    float lo, hi; vary(r, lo, hi);
    vec3 f = gen_field3(r, Y, X, E, pick_missing(r), lo, hi); for(auto& p : f) if(r.p(0.3)) sprinkle(r, p);
    if(r.p(0.3)) { int e = r.i(0, E - 1); for(auto& a : f) for(auto& b : a) b[e] = NaNf; }
    vec3 keep = f; int hw = gen_hw(r, Y, X); c.h(f); c.h(hw);
    double ga = 0, mn = INFINITY, mx = -INFINITY; for(auto& a : f) for(auto& b : a) for(float v : b) if(isv(v)) { ga += std::fabs(v); mn = std::min(mn, (double) v); mx = std::max(mx, (double) v); }
    double gs = mn <= mx ? (mx - mn) * std::sqrt((double) Y * X * E) : 0;
    c.sample(strf("%dx%dx%d halfwidth %d cell0 ", Y, X, E, hw) + str(f[0][0]));
    for(auto s : all_stats()) {
        vec2 a = gridpp::neighbourhood(f, hw, s), b = gridpp::neighbourhood_brute_force(f, hw, s);
        if(!c.ok(a.size() == (size_t) Y && a[0].size() == (size_t) X && b.size() == (size_t) Y && b[0].size() == (size_t) X, "ens:shape", sname(s))) return;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            WinVals w = window_of(f, y, x, hw);
            auto d = [&] { return strf("%s hw=%d %dx%dx%d at (%d,%d)", sname(s), hw, Y, X, E, y, x); };
            check_stat(c, a[y][x], w, s, ga, gs, strf("ens-neighbourhood:%s", sname(s)), d);
            check_stat(c, b[y][x], w, s, 0, 0, strf("ens-brute_force:%s", sname(s)), d);
        }
    }
    c.ok(same_bits(f, keep), "ens:input-modified");
    if(c.id % 10 == 0) { // deprecated alias
        auto s = gridpp::Mean; c.ok(same_bits(gridpp::neighbourhood_ens(f, hw, s), gridpp::neighbourhood(f, hw, s)), "ens:alias");
    }
}
CASE(errors) {
    Rng& r = c.rng; vec2 f = gen_field(r, r.i(1, 5), r.i(1, 5)); vec3 g = gen_field3(r, r.i(1, 4), r.i(1, 4), r.i(1, 3));
    c.h(f); c.h(g);
    auto s = r.pick(all_stats()); int neg = -r.i(1, 1000);
    c.ok(!runs([&] { gridpp::neighbourhood(f, neg, s); }), "errors:negative", sname(s));
    c.ok(!runs([&] { gridpp::neighbourhood_brute_force(f, neg, s); }), "errors:negative-brute", sname(s));
    c.ok(!runs([&] { gridpp::neighbourhood(g, neg, s); }), "errors:negative-ens", sname(s));
    c.ok(!runs([&] { gridpp::neighbourhood_brute_force(g, neg, s); }), "errors:negative-ens-brute", sname(s));
    int hw = r.i(0, 3);
    c.ok(!runs([&] { gridpp::neighbourhood(f, hw, gridpp::Quantile); }), "errors:quantile");
    c.ok(!runs([&] { gridpp::neighbourhood(g, hw, gridpp::Quantile); }), "errors:quantile-ens");
    c.ok(!runs([&] { gridpp::neighbourhood(f, hw, gridpp::Unknown); }), "errors:unknown");
    c.ok(!runs([&] { gridpp::neighbourhood(g, hw, gridpp::Unknown); }), "errors:unknown-ens");
    c.ok(gridpp::neighbourhood(vec2(), hw, s).size() == 0, "errors:empty"); c.ok(gridpp::neighbourhood(vec2(3), hw, s).size() == 0, "errors:empty-rows");
    c.ok(gridpp::neighbourhood(vec3(), hw, s).size() == 0, "errors:empty-ens"); c.ok(gridpp::neighbourhood_brute_force(vec3(), hw, s).size() == 0, "errors:empty-ens-brute");
}
