// C29: arguments that do not fit together are refused, arguments that do are not.
#include "common.h"
using namespace gridpp;
// Builds the arguments of one call. Every size, coordinate system and restricted value that must fit is a slot; slot number `target` is made wrong.
struct M {
    Rng r; int target, k = 0; std::string what; bool off = false;
    M(Rng r_, int t) : r(r_), target(t) {}
    bool slot() { return k++ == target; }
    int d(int n) { if(!slot()) return n; int w = n + (n > 1 && r.p(0.5) ? -1 : r.i(1, 3)); what = strf("size %d instead of %d", w, n); return w; }
    CoordinateType type = Geodetic; CoordinateType t() { if(!slot()) return type; what = "other coordinate system"; return type == Geodetic ? Cartesian : Geodetic; }
    float x() { return r.p(0.1) ? NaNf : r.u(0.1, 5); }
    vec raw(int n) { vec o(n); for(auto& f : o) f = x(); return o; }
    vec v(int n) { return raw(d(n)); }
    vec2 raw(int a, int b) { vec2 o(a); for(auto& q : o) q = raw(b); return o; } vec2 v(int a, int b) { a = d(a); b = d(b); return raw(a, b); }
    vec3 raw(int a, int b, int e) { vec3 o(a); for(auto& q : o) q = raw(b, e); return o; } vec3 v(int a, int b, int e) { a = d(a); b = d(b); e = d(e); return raw(a, b, e); }
    vec2 z(int a, int b) { return r.p(0.3) ? vec2() : v(a, b); }           // may be left out
    vec3 z(int a, int b, int e) { return r.p(0.3) ? vec3() : v(a, b, e); }
    void fewer(vec& a) { if(slot()) { a.pop_back(); what = "too few values"; } }
    ivec iv(int n) { n = d(n); ivec o(n); for(auto& f : o) f = r.i(0, 2); return o; }
    ivec2 iv(int a, int b) { a = d(a); b = d(b); ivec2 o(a, ivec(b)); for(auto& q : o) for(auto& f : q) f = r.i(0, 1); return o; }
    vec pos(int n) { vec o = v(n); for(auto& f : o) f = r.u(0.1, 5); return o; } vec2 pos(int a, int b) { vec2 o = v(a, b); for(auto& q : o) for(auto& f : q) f = r.u(0.1, 5); return o; }
    vec up(int n) { vec o = pos(n); std::sort(o.begin(), o.end()); return o; }
    template <class T> T s(T good, std::vector<T> bad) { for(T b : bad) if(slot()) { what = strf("value %g", (double) b); good = b; } return good; }
    vec2 la(int Y, int X) { double s = type == Cartesian ? 1000 : 0.01; vec2 o = init2(Y, X); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) o[y][x] = 10 + s * y; return o; }
    vec2 lo(int Y, int X) { double s = type == Cartesian ? 1000 : 0.01; vec2 o = init2(Y, X); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) o[y][x] = 10 + s * x; return o; }
    Grid g(int Y, int X, bool first = false) { return Grid(la(Y, X), lo(Y, X), raw(Y, X), raw(Y, X), first ? type : t()); }
    Points p(int N, bool first = false) { double s = type == Cartesian ? 1000 : 0.01; vec a(N), b(N); for(int i = 0; i < N; i++) { a[i] = 10 + s * r.u(0, 3); b[i] = 10 + s * r.u(0, 3); } return Points(a, b, raw(N), raw(N), first ? type : t()); }
    Downscaler dn() { return r.p(0.5) ? gridpp::Nearest : gridpp::Bilinear; }
    BarnesStructure str() { return BarnesStructure(type == Cartesian ? 3000 : 3000, 0, 0); }
    Statistic st() { return r.pick({Mean, Min, Max, Median, Sum, Count, Std, Variance}); } Metric me() { return r.pick({Ets, Ts, Kss, Pc, Bias, Hss}); } Extrapolation ex() { return r.pick({OneToOne, MeanSlope, NearestSlope, Zero, Unchanged}); } ComparisonOperator op() { return r.pick({Lt, Leq, Gt, Geq}); }
};
struct All {
    Ctx& c; int want, n = 0;
    template <class F> void operator()(const char* name, F f) {
        if(n++ != want) return; Rng r0 = c.rng; CoordinateType ty = r0.p(0.4) ? Cartesian : Geodetic; int slots;
        c.sample(name); { M m(r0, -1); m.type = ty; std::string e; bool ok = runs([&] { f(m); }, &e); slots = m.k; c.okf(ok, std::string(name) + ":fitting-arguments-refused", [&] { return e; }); }
        for(int i = 0; i < slots; i++) { M m(r0, i); m.type = ty; int kind = 0; std::string e; try { f(m); } catch(const std::bad_alloc& x) { kind = 2; e = x.what(); } catch(const std::exception&) { kind = 1; } auto d = [&] { return strf("argument slot %d of %d, ", i, slots) + m.what + " " + e; };
            c.okf(kind != 0, strf("%s:accepted", name), d); c.okf(kind != 2, strf("%s:wrong-exception", name), d); c.h((uint64_t) (want * 64 + i)); }
    }
};
static int everything(Ctx& c, int want) {
    All S{c, want}; Rng q = c.rng; int Y = q.i(2, 5), X = q.i(2, 5), y = q.i(1, 5), x = q.i(1, 5), N = q.i(1, 5), P = q.i(1, 5), T = q.i(1, 3), E = q.i(1, 4), K = q.i(2, 5); float nan = NaNf, inf = INFINITY; std::vector<int> neg = {-1, -3, INT_MIN};
    if(want >= 0) c.h((uint64_t) want * 1000003 + Y + 7 * X + 49 * N + 343 * P + 2401 * E + 16807 * K);
    // interpolation between sets of locations
    S("nearest:grid-grid", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); nearest(a, b, m.v(Y, X)); });
    S("nearest:grid-grid-3d", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec3 v; int u = m.d(Y), w = m.d(X); nearest(a, b, m.raw(T, u, w)); });
    S("nearest:grid-points", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); nearest(a, b, m.v(Y, X)); });
    S("nearest:grid-points-3d", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); int u = m.d(Y), w = m.d(X); nearest(a, b, m.raw(T, u, w)); });
    S("nearest:points-points", [&](M& m) { Points a = m.p(N, true), b = m.p(P); nearest(a, b, m.v(N)); });
    S("nearest:points-points-2d", [&](M& m) { Points a = m.p(N, true), b = m.p(P); int u = m.d(N); nearest(a, b, m.raw(T, u)); });
    S("nearest:points-grid", [&](M& m) { Points a = m.p(N, true); Grid b = m.g(y, x); nearest(a, b, m.v(N)); });
    S("nearest:points-grid-2d", [&](M& m) { Points a = m.p(N, true); Grid b = m.g(y, x); int u = m.d(N); nearest(a, b, m.raw(T, u)); });
    S("bilinear:grid-grid", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); bilinear(a, b, m.v(Y, X)); });
    S("bilinear:grid-grid-3d", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); int u = m.d(Y), w = m.d(X); bilinear(a, b, m.raw(T, u, w)); });
    S("bilinear:grid-points", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); bilinear(a, b, m.v(Y, X)); });
    S("bilinear:grid-points-3d", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); int u = m.d(Y), w = m.d(X); bilinear(a, b, m.raw(T, u, w)); });
    S("downscaling:grid-grid", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec2 v = m.v(Y, X); downscaling(a, b, v, m.slot() ? (m.what = "unknown method", (Downscaler) 77) : m.dn()); });
    S("downscaling:grid-grid-3d", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); int u = m.d(Y), w = m.d(X); vec3 v = m.raw(T, u, w); downscaling(a, b, v, m.slot() ? (m.what = "unknown method", (Downscaler) 77) : m.dn()); });
    S("downscaling:grid-points", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec2 v = m.v(Y, X); downscaling(a, b, v, m.slot() ? (m.what = "unknown method", (Downscaler) 77) : m.dn()); });
    S("downscaling:grid-points-3d", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); int u = m.d(Y), w = m.d(X); vec3 v = m.raw(T, u, w); downscaling(a, b, v, m.slot() ? (m.what = "unknown method", (Downscaler) 77) : m.dn()); });
    S("simple_gradient:grid-grid", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); simple_gradient(a, b, m.v(Y, X), 0.1, m.dn()); });
    S("simple_gradient:grid-grid-3d", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); int u = m.d(Y), w = m.d(X); simple_gradient(a, b, m.raw(T, u, w), 0.1, m.dn()); });
    S("simple_gradient:grid-points", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); simple_gradient(a, b, m.v(Y, X), 0.1, m.dn()); });
    S("simple_gradient:grid-points-3d", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); int u = m.d(Y), w = m.d(X); simple_gradient(a, b, m.raw(T, u, w), 0.1, m.dn()); });
    S("full_gradient:grid-grid", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec2 v = m.v(Y, X), e = m.z(Y, X), l = m.z(Y, X); full_gradient(a, b, v, e, l, m.dn()); });
    S("full_gradient:grid-grid-3d", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec3 v = m.v(T, Y, X), e = m.v(T, Y, X), l = m.z(T, Y, X); full_gradient(a, b, v, e, l, m.dn()); });
    S("full_gradient:grid-points", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec2 v = m.v(Y, X), e = m.z(Y, X), l = m.z(Y, X); full_gradient(a, b, v, e, l, m.dn()); });
    S("full_gradient:grid-points-3d", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec3 v = m.v(T, Y, X), e = m.v(T, Y, X), l = m.z(T, Y, X); full_gradient(a, b, v, e, l, m.dn()); });
    S("full_gradient_debug", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec2 v = m.v(Y, X), e = m.z(Y, X), l = m.z(Y, X); full_gradient_debug(a, b, v, e, l, m.dn()); });
    S("smart", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec2 v = m.v(Y, X); smart(a, b, v, 2, m.str()); });
    S("downscale_probability", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); int u = m.d(Y), w = m.d(X); vec3 v = m.raw(u, w, E); downscale_probability(a, b, v, m.v(y, x), m.op()); });
    S("mask_threshold_downscale_consensus", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec3 v = m.v(Y, X, E), w = m.v(Y, X, E), t = m.v(Y, X, E); mask_threshold_downscale_consensus(a, b, v, w, t, m.v(y, x), m.op(), m.st()); });
    S("mask_threshold_downscale_quantile", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); vec3 v = m.v(Y, X, E), w = m.v(Y, X, E), t = m.v(Y, X, E); vec2 th = m.v(y, x); mask_threshold_downscale_quantile(a, b, v, w, t, th, m.op(), m.s(0.5f, {-0.1f, 1.1f})); });
    // counting and distances
    S("count:grid-points", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); count(a, b, 1000); });
    S("count:grid-grid", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); count(a, b, 1000); });
    S("count:points-grid", [&](M& m) { Points a = m.p(N, true); Grid b = m.g(y, x); count(a, b, 1000); });
    S("count:points-points", [&](M& m) { Points a = m.p(N, true), b = m.p(P); count(a, b, 1000); });
    S("distance:grid-points", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); distance(a, b, 1); });
    S("distance:grid-grid", [&](M& m) { Grid a = m.g(Y, X, true), b = m.g(y, x); distance(a, b, 1); });
    S("distance:points-grid", [&](M& m) { Points a = m.p(N, true); Grid b = m.g(y, x); distance(a, b, 1); });
    S("distance:points-points", [&](M& m) { Points a = m.p(N, true), b = m.p(P); distance(a, b, 1); });
    S("gridding:grid", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec v = m.v(N); float R = m.s(1000.0f, {-1.0f}); gridding(a, b, v, R, m.s(0, neg), m.st()); });
    S("gridding:points", [&](M& m) { Points a = m.p(P, true), b = m.p(N); vec v = m.v(N); float R = m.s(1000.0f, {-1.0f}); gridding(a, b, v, R, m.s(0, neg), m.st()); });
    S("gridding_nearest:grid", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec v = m.v(N); gridding_nearest(a, b, v, m.s(0, neg), m.st()); });
    S("gridding_nearest:points", [&](M& m) { Points a = m.p(P, true), b = m.p(N); vec v = m.v(N); gridding_nearest(a, b, v, m.s(0, neg), m.st()); });
    S("fill", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec2 v = m.v(Y, X); vec R = m.pos(N); if(m.slot()) { R[m.r.i(0, N - 1)] = -1; m.what = "negative radius"; } fill(a, v, b, R, 1, m.r.p(0.5)); });
    S("doping_square", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec2 v = m.v(Y, X); vec o = m.v(N); ivec h = m.iv(N); if(m.slot()) { h[m.r.i(0, N - 1)] = -1; m.what = "negative halfwidth"; } doping_square(a, v, b, o, h, m.s(m.r.pick({nan, 100.0f}), {-1.0f})); });
    S("doping_circle", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec2 v = m.v(Y, X); vec o = m.v(N), h = m.pos(N); if(m.slot()) { h[m.r.i(0, N - 1)] = -1; m.what = "negative radius"; } doping_circle(a, v, b, o, h, m.s(m.r.pick({nan, 100.0f}), {-1.0f})); });
    S("neighbourhood_score", [&](M& m) { Grid a = m.g(Y, X, true); Points b = m.p(N); vec2 v = m.v(Y, X); vec o = m.v(N); neighbourhood_score(a, b, v, o, m.s(1, neg), m.me(), 1); });
    // analyses
    S("optimal_interpolation:grid", [&](M& m) { Grid a = m.g(Y, X, true); vec2 b = m.v(Y, X); Points p = m.p(N); vec o = m.v(N), v = m.pos(N), e = m.v(N); optimal_interpolation(a, b, p, o, v, e, m.str(), m.s(3, neg)); });
    S("optimal_interpolation:points", [&](M& m) { Points a = m.p(P, true); vec b = m.v(P); Points p = m.p(N); vec o = m.v(N), v = m.pos(N), e = m.v(N); optimal_interpolation(a, b, p, o, v, e, m.str(), m.s(3, neg)); });
    S("optimal_interpolation_full:grid", [&](M& m) { Grid a = m.g(Y, X, true); vec2 b = m.v(Y, X), bv = m.pos(Y, X), av; Points p = m.p(N); vec o = m.v(N), v = m.pos(N), e = m.v(N), ev = m.pos(N); optimal_interpolation_full(a, b, bv, p, o, v, e, ev, m.str(), m.s(3, neg), av); });
    S("optimal_interpolation_full:points", [&](M& m) { Points a = m.p(P, true); vec b = m.v(P), bv = m.pos(P), av; Points p = m.p(N); vec o = m.v(N), v = m.pos(N), e = m.v(N), ev = m.pos(N); optimal_interpolation_full(a, b, bv, p, o, v, e, ev, m.str(), m.s(3, neg), av); });
    S("ensi:grid", [&](M& m) { Grid a = m.g(Y, X, true); int u = m.d(Y), w = m.d(X); vec3 b = m.raw(u, w, E); Points p = m.p(N); vec o = m.v(N), v = m.pos(N); vec2 e = m.v(N, E); optimal_interpolation_ensi(a, b, p, o, v, e, m.str(), m.s(3, neg)); });
    S("ensi:points", [&](M& m) { Points a = m.p(P, true); int u = m.d(P); vec2 b = m.raw(u, E); Points p = m.p(N); vec o = m.v(N), v = m.pos(N); vec2 e = m.v(N, E); optimal_interpolation_ensi(a, b, p, o, v, e, m.str(), m.s(3, neg)); });
    S("ebe:grid", [&](M& m) { Grid a = m.g(Y, X, true); vec2 br = m.pos(Y, X); vec3 b = m.v(Y, X, E), bc = m.v(Y, X, E); Points p = m.p(N); vec2 o = m.v(N, E); vec v = m.pos(N); vec2 e = m.v(N, E), ec = m.v(N, E); optimal_interpolation_ensi_multi_ebe(a, br, b, bc, p, o, v, e, ec, m.str(), m.s(3, neg)); });
    S("ebe:points", [&](M& m) { Points a = m.p(P, true); vec br = m.pos(P); vec2 b = m.v(P, E), bc = m.v(P, E); Points p = m.p(N); vec2 o = m.v(N, E); vec v = m.pos(N); vec2 e = m.v(N, E), ec = m.v(N, E); optimal_interpolation_ensi_multi_ebe(a, br, b, bc, p, o, v, e, ec, m.str(), m.s(3, neg)); });
    S("ebesc:grid", [&](M& m) { Grid a = m.g(Y, X, true); vec2 br = m.pos(Y, X); vec3 b = m.v(Y, X, E); Points p = m.p(N); vec2 o = m.v(N, E); vec v = m.pos(N); vec2 e = m.v(N, E); optimal_interpolation_ensi_multi_ebesc(a, br, b, p, o, v, e, m.str(), m.s(3, neg)); });
    S("ebesc:points", [&](M& m) { Points a = m.p(P, true); vec br = m.pos(P); vec2 b = m.v(P, E); Points p = m.p(N); vec2 o = m.v(N, E); vec v = m.pos(N); vec2 e = m.v(N, E); optimal_interpolation_ensi_multi_ebesc(a, br, b, p, o, v, e, m.str(), m.s(3, neg)); });
    S("utem:grid", [&](M& m) { Grid a = m.g(Y, X, true); vec2 br = m.pos(Y, X); vec3 b = m.v(Y, X, E), bc = m.v(Y, X, E); Points p = m.p(N); vec o = m.v(N); vec v = m.pos(N); vec2 e = m.v(N, E), ec = m.v(N, E); optimal_interpolation_ensi_multi_utem(a, br, b, bc, p, o, v, e, ec, m.str(), m.s(3, neg)); });
    S("utem:points", [&](M& m) { Points a = m.p(P, true); vec br = m.pos(P); vec2 b = m.v(P, E), bc = m.v(P, E); Points p = m.p(N); vec o = m.v(N); vec v = m.pos(N); vec2 e = m.v(N, E), ec = m.v(N, E); optimal_interpolation_ensi_multi_utem(a, br, b, bc, p, o, v, e, ec, m.str(), m.s(3, neg)); });
    S("staticcorr_points", [&](M& m) { Points a = m.p(P, true), b = m.p(N); staticcorr_points(a, b, m.str(), m.s(3, neg)); });
    S("local_distribution_correction", [&](M& m) { Grid a = m.g(Y, X, true); vec2 b = m.v(Y, X); Points p = m.p(N); vec o = m.raw(N), e = m.raw(N); m.fewer(o); m.fewer(e); float q0 = m.s(0.2f, {-0.1f, 0.95f, nan}), q1 = m.s(0.9f, {1.1f, 0.1f, nan}); local_distribution_correction(a, b, p, o, e, m.str(), q0, q1, 0); });
    S("local_distribution_correction:times", [&](M& m) { Grid a = m.g(Y, X, true); vec2 b = m.v(Y, X); Points p = m.p(N); vec2 o = m.raw(T, N), e = m.raw(T, N); m.fewer(o[0]); m.fewer(e[T - 1]); if(m.slot()) { m.what = "times"; e.push_back(e[0]); } float q0 = m.s(0.2f, {-0.1f, 0.95f, nan}), q1 = m.s(0.9f, {1.1f, 0.1f, nan}); local_distribution_correction(a, b, p, o, e, m.str(), q0, q1, 0); });
    // neighbourhoods
    S("neighbourhood:2d", [&](M& m) { neighbourhood(m.raw(Y, X), m.s(1, neg), m.slot() ? (m.what = "quantile", Quantile) : m.st()); });
    S("neighbourhood:3d", [&](M& m) { neighbourhood(m.raw(Y, X, E), m.s(1, neg), m.slot() ? (m.what = "quantile", Quantile) : m.st()); });
    S("neighbourhood_quantile:2d", [&](M& m) { float l = m.s(0.5f, {-0.1f, 1.1f}); neighbourhood_quantile(m.raw(Y, X), l, m.s(1, neg)); });
    S("neighbourhood_quantile:3d", [&](M& m) { float l = m.s(0.5f, {-0.1f, 1.1f}); neighbourhood_quantile(m.raw(Y, X, E), l, m.s(1, neg)); });
    S("neighbourhood_quantile_fast:2d", [&](M& m) { float l = m.s(0.5f, {-0.1f, 1.1f}); vec th = {1, 2, 3}; neighbourhood_quantile_fast(m.raw(Y, X), l, m.s(1, neg), th); });
    S("neighbourhood_quantile_fast:3d", [&](M& m) { float l = m.s(0.5f, {-0.1f, 1.1f}); vec th = {1, 2, 3}; neighbourhood_quantile_fast(m.raw(Y, X, E), l, m.s(1, neg), th); });
    S("neighbourhood_quantile_fast:2d-field", [&](M& m) { vec2 l = m.v(Y, X); for(auto& q : l) for(auto& f : q) f = 0.5; if(m.slot()) { l[0][0] = 1.5; m.what = "level 1.5"; } vec th = {1, 2, 3}; neighbourhood_quantile_fast(m.raw(Y, X), l, m.s(1, neg), th); });
    S("neighbourhood_quantile_fast:3d-field", [&](M& m) { vec2 l = m.v(Y, X); for(auto& q : l) for(auto& f : q) f = 0.5; if(m.slot()) { l[0][0] = -0.5; m.what = "level -0.5"; } vec th = {1, 2, 3}; neighbourhood_quantile_fast(m.raw(Y, X, E), l, m.s(1, neg), th); });
    S("neighbourhood_ens", [&](M& m) { neighbourhood_ens(m.raw(Y, X, E), m.s(1, neg), m.slot() ? (m.what = "quantile", Quantile) : m.st()); });
    S("neighbourhood_quantile_ens", [&](M& m) { float l = m.s(0.5f, {-0.1f, 1.1f}); neighbourhood_quantile_ens(m.raw(Y, X, E), l, m.s(1, neg)); });
    S("neighbourhood_quantile_ens_fast", [&](M& m) { float l = m.s(0.5f, {-0.1f, 1.1f}); vec th = {1, 2, 3}; neighbourhood_quantile_ens_fast(m.raw(Y, X, E), l, m.s(1, neg), th); });
    S("neighbourhood_brute_force:2d", [&](M& m) { neighbourhood_brute_force(m.raw(Y, X), m.s(1, neg), m.st()); });
    S("neighbourhood_brute_force:3d", [&](M& m) { neighbourhood_brute_force(m.raw(Y, X, E), m.s(1, neg), m.st()); });
    S("calc_gradient", [&](M& m) { vec2 a = m.raw(Y, X), b = m.v(Y, X); int h = m.s(1, {0, -1, INT_MIN}), n = m.s(2, neg); calc_gradient(a, b, m.r.p(0.5) ? MinMax : LinearRegression, h, n, m.s(m.r.pick({nan, 0.0f, 1.0f}), {-0.5f}), 0); });
    S("neighbourhood_search", [&](M& m) { vec2 a = m.raw(Y, X), b = m.v(Y, X); int h = m.s(1, neg); float t0 = m.s(0.2f, {0.8f}); ivec2 ap = m.r.p(0.3) ? ivec2() : m.iv(Y, X); neighbourhood_search(a, b, h, t0, 0.7, 0.1, ap); });
    S("get_neighbourhood_thresholds:2d", [&](M& m) { get_neighbourhood_thresholds(m.raw(Y, X), m.s(3, {0, -1, INT_MIN})); });
    S("get_neighbourhood_thresholds:3d", [&](M& m) { get_neighbourhood_thresholds(m.raw(Y, X, E), m.s(3, {0, -1, INT_MIN})); });
    S("window", [&](M& m) { window(m.raw(T + 2, X), m.s(3, {0, -1, INT_MIN}), m.st(), m.r.p(0.5), m.r.p(0.5), m.r.p(0.5)); });
    // curves, scores, statistics
    S("apply_curve:scalar", [&](M& m) { vec a = m.up(K), b = m.up(K); apply_curve(1.0f, a, b, m.ex(), m.ex()); });
    S("apply_curve:vec", [&](M& m) { vec a = m.up(K), b = m.up(K); apply_curve(m.raw(N), a, b, m.ex(), m.ex()); });
    S("apply_curve:vec2", [&](M& m) { vec a = m.up(K), b = m.up(K); apply_curve(m.raw(Y, X), a, b, m.ex(), m.ex()); });
    S("apply_curve:fields", [&](M& m) { vec3 a = m.v(Y, X, K), b = m.v(Y, X, K); apply_curve(m.raw(Y, X), a, b, m.ex(), m.ex()); });
    S("quantile_mapping_curve", [&](M& m) { vec a = m.raw(K), b = m.v(K), o; vec l = {0.1, 0.9}; if(m.slot()) { l[1] = 1.2; m.what = "level 1.2"; } quantile_mapping_curve(a, b, o, m.target >= 1 || m.r.p(0.5) ? l : vec()); });
    S("metric_optimizer_curve", [&](M& m) { vec a = m.raw(K), b = m.v(K), o; metric_optimizer_curve(a, b, {1, 2}, m.me(), o); });
    S("monotonize_curve", [&](M& m) { vec a = m.raw(K), b = m.v(K), o; monotonize_curve(a, b, o); });
    S("get_optimal_threshold", [&](M& m) { vec a = m.raw(K), b = m.v(K); get_optimal_threshold(a, b, 1, m.me()); });
    S("calc_score", [&](M& m) { vec a = m.raw(K), b = m.v(K); calc_score(a, b, 1, m.me()); });
    S("calc_score:two-thresholds", [&](M& m) { vec a = m.raw(K), b = m.v(K); calc_score(a, b, 1, 2, m.me()); });
    S("calc_quantile:vec", [&](M& m) { calc_quantile(m.raw(K), m.s(0.5f, {-0.1f, 1.1f})); });
    S("calc_quantile:vec2", [&](M& m) { calc_quantile(m.raw(Y, X), m.s(0.5f, {-0.1f, 1.1f})); });
    S("calc_quantile:fields", [&](M& m) { vec2 l = m.v(Y, X); for(auto& q : l) for(auto& f : q) f = 0.5; if(m.slot()) { l[0][0] = 1.5; m.what = "level 1.5"; } calc_quantile(m.raw(Y, X, E), l); });
    S("interpolate:vec", [&](M& m) { vec a = m.up(K), b = m.v(K); interpolate(m.raw(N), a, b); });
    S("interpolate:scalar", [&](M& m) { vec a = m.up(K), b = m.v(K); interpolate(1.0f, a, b); });
    S("calc_even_quantiles", [&](M& m) { calc_even_quantiles(m.raw(K), m.s(2, neg)); });
    S("gamma_inv", [&](M& m) { vec l(m.d(K), 0.5); vec s = m.pos(K), q = m.pos(K); if(m.slot()) { l[0] = 1.5; m.what = "level 1.5"; } if(m.slot()) { s[0] = -1; m.what = "shape -1"; } if(m.slot()) { q[0] = -1; m.what = "scale -1"; } gamma_inv(l, s, q); });
    // diagnostics
    S("dewpoint", [&](M& m) { vec a = m.raw(K), b = m.v(K); dewpoint(a, b); }); S("relative_humidity", [&](M& m) { vec a = m.raw(K), b = m.v(K); relative_humidity(a, b); }); S("qnh", [&](M& m) { vec a = m.raw(K), b = m.v(K); qnh(a, b); });
    S("wetbulb", [&](M& m) { vec a = m.v(K), b = m.v(K), d = m.v(K); wetbulb(a, b, d); }); S("pressure", [&](M& m) { vec a = m.v(K), b = m.v(K), d = m.v(K), e = m.v(K); pressure(a, b, d, e); });
    S("sea_level_pressure", [&](M& m) { vec a = m.pos(K), b = m.pos(K), d = m.pos(K), e = m.v(K), f = m.v(K); for(auto& z : a) z *= 20000; for(auto& z : d) z = 280; for(auto& z : e) z = 0.5; for(auto& z : f) z = 270; sea_level_pressure(a, b, d, e, f); });
    S("wind_speed", [&](M& m) { vec a = m.raw(K), b = m.v(K); wind_speed(a, b); }); S("wind_direction", [&](M& m) { vec a = m.raw(K), b = m.v(K); wind_direction(a, b); });
    // objects
    S("Grid", [&](M& m) { vec2 a = m.la(m.d(Y), m.d(X)), b = m.lo(m.d(Y), m.d(X)), e = m.raw(Y, X), l = m.raw(Y, X); Grid(a, b, e, l, m.type); });
    S("Points", [&](M& m) { vec a = m.v(N), b = m.v(N); for(auto& f : a) f = 1; for(auto& f : b) f = 1; vec e = m.r.p(0.3) ? vec() : m.v(N), l = m.r.p(0.3) ? vec() : m.v(N); Points(a, b, e, l, m.type); });
    S("Points:tree", [&](M& m) { vec a(N, 1); KDTree t(a, a, m.type); vec e = m.v(N), l = m.v(N); Points(t, e, l); });
    S("Points:get_in_domain", [&](M& m) { Grid g = m.g(Y, X, true); Points p = m.p(N); p.get_in_domain(g); p.get_in_domain_indices(g); });
    S("Points:get_point", [&](M& m) { Points p = m.p(N, true); p.get_point(m.s(0, {-1, N, INT_MAX, INT_MIN})); p.subset({m.s(0, {-1, N, INT_MAX, INT_MIN})}); });
    S("Grid:get_point", [&](M& m) { Grid g = m.g(Y, X, true); int a = m.s(0, {-1, Y, INT_MAX, INT_MIN}); g.get_point(a, m.s(0, {-1, X, INT_MAX, INT_MIN})); });
    S("KDTree", [&](M& m) { vec a(m.d(N), 1), b(m.d(N), 1); KDTree(a, b, m.type); });
    S("KDTree:convert", [&](M& m) { vec a(m.d(N), 1), b(m.d(N), 1), p, q, s; convert_coordinates(a, b, m.type, p, q, s); });
    S("KDTree:calc_distance", [&](M& m) { Point a(1, 1, 0, 0, m.type), b(2, 2, 0, 0, m.t()); KDTree::calc_distance(a, b); });
    S("KDTree:queries", [&](M& m) { Points p = m.p(N, true); float la = m.s(10.0f, {nan}), lo = m.s(10.0f, {nan}); p.get_nearest_neighbour(la, lo); });
    S("BarnesStructure", [&](M& m) { float h = m.s(1000.0f, {-1.0f, nan}), v = m.s(0.0f, {-1.0f, nan}), w = m.s(0.0f, {-1.0f, nan}); BarnesStructure(h, v, w, m.s(m.r.pick({nan, 100.0f}), {-1.0f})); });
    S("SoarStructure", [&](M& m) { float h = m.s(1000.0f, {-1.0f, nan}), v = m.s(0.0f, {-1.0f, nan}), w = m.s(0.0f, {-1.0f, nan}); SoarStructure(h, v, w, m.s(m.r.pick({nan, 100.0f}), {-1.0f})); });
    S("ToarStructure", [&](M& m) { float h = m.s(1000.0f, {-1.0f, nan}), v = m.s(0.0f, {-1.0f, nan}), w = m.s(0.0f, {-1.0f, nan}); ToarStructure(h, v, w, m.s(m.r.pick({nan, 100.0f}), {-1.0f})); });
    S("PowerlawStructure", [&](M& m) { float h = m.s(1000.0f, {-1.0f, nan}), v = m.s(0.0f, {-1.0f, nan}), w = m.s(0.0f, {-1.0f, nan}); PowerlawStructure(h, v, w, m.s(m.r.pick({nan, 100.0f}), {-1.0f})); });
    S("LinearStructure", [&](M& m) { float h = m.s(0.5f, {-1.0f, nan}), v = m.s(0.5f, {-1.0f, nan}), w = m.s(0.5f, {-1.0f, nan}); LinearStructure(h, v, w, m.s(m.r.pick({nan, 100.0f}), {-1.0f})); });
    S("CressmanStructure", [&](M& m) { float h = m.s(1000.0f, {-1.0f, nan}), v = m.s(0.0f, {-1.0f, nan}), w = m.s(0.0f, {-1.0f, nan}); CressmanStructure(h, v, w); });
    S("BarnesStructure:grid", [&](M& m) { Grid g = m.g(Y, X, true); vec2 h = m.pos(Y, X), v = m.pos(Y, X), w = m.pos(Y, X); BarnesStructure(g, h, v, w); });
    S("SoarStructure:grid", [&](M& m) { Grid g = m.g(Y, X, true); vec2 h = m.pos(Y, X), v = m.pos(Y, X), w = m.pos(Y, X); SoarStructure(g, h, v, w); });
    S("ToarStructure:grid", [&](M& m) { Grid g = m.g(Y, X, true); vec2 h = m.pos(Y, X), v = m.pos(Y, X), w = m.pos(Y, X); ToarStructure(g, h, v, w); });
    S("PowerlawStructure:grid", [&](M& m) { Grid g = m.g(Y, X, true); vec2 h = m.pos(Y, X), v = m.pos(Y, X), w = m.pos(Y, X); PowerlawStructure(g, h, v, w); });
    S("LinearStructure:grid", [&](M& m) { Grid g = m.g(Y, X, true); vec2 h = m.pos(Y, X), v = m.pos(Y, X), w = m.pos(Y, X); for(auto* q : {&h, &v, &w}) for(auto& a : *q) for(auto& f : a) f /= 10; LinearStructure(g, h, v, w); });
    S("CrossValidation", [&](M& m) { BarnesStructure b(1000); CrossValidation(b, m.s(100.0f, {-1.0f, nan})); });
    S("StartedBoxCox", [&](M& m) { float a = m.s(0.5f, {0.0f, -1.0f, nan}); StartedBoxCox(a, m.s(1.0f, {0.0f, -1.0f, nan})); });
    S("Gamma", [&](M& m) { float a = m.s(1.0f, {0.0f, -1.0f, nan}), b = m.s(1.0f, {0.0f, -1.0f, nan}); Gamma(a, b, m.s(0.01f, {-0.1f, nan})); });
    return S.n;
}
CASE(contract) { static int n = everything(c, -1); everything(c, c.rng.i(0, n - 1)); }

// Locations that are not there: without locations to take values from every location asked for is answered, with missing values, none counted or the
// background; without locations to give values to, the answer is empty (one empty answer for each time).
static std::string shp(float) { return ""; } static std::string shp(int) { return ""; } template <class V> static std::string shp(const std::vector<V>& a) { std::string o = strf("%zu[", a.size()); for(auto& q : a) o += shp(q) + " "; return o + "]"; }
static bool eqv(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; } static bool eqv(int a, int b) { return a == b; } template <class V> static bool eqv(const std::vector<V>& a, const std::vector<V>& b) { for(size_t i = 0; i < a.size(); i++) if(!eqv(a[i], b[i])) return false; return true; }
CASE(empty) {
    Rng q = c.rng; int y = q.i(1, 4), x = q.i(1, 4), N = q.i(1, 5), T = q.i(1, 3), E = q.i(1, 3), want = q.i(0, 59), n = 0; CoordinateType ty = q.p(0.5) ? Cartesian : Geodetic; M m(q, -1); m.type = ty;
    Points p0 = Points(vec(), vec(), vec(), vec(), ty), p = m.p(N, true); Grid g0, g = m.g(y, x, true); g0 = Grid(vec2(), vec2(), vec2(), vec2(), ty);
    const vec v0, pm(N, NaNf), p00(N, 0), pv = m.raw(N), pw = m.pos(N); const vec2 V0, gm(y, vec(x, NaNf)), g00(y, vec(x, 0)), gv = m.raw(y, x), pe = m.raw(N, E); const vec3 W0, gt = m.raw(T, y, x), ge = m.raw(y, x, E); const vec2 pt = m.raw(T, N), none(T); const ivec i0; const ivec2 I0; BarnesStructure s(1000); Downscaler dn = m.dn(); ComparisonOperator op = m.op(); Statistic st = q.pick({Mean, Median, Std, Min, Max, Variance, Sum}); float l = q.pick({0.0f, 0.5f, 1.0f}); float R = q.u(0, 5000);
    auto S = [&](const char* name, auto f, auto expect) { if(n++ != want) return; c.sample(strf("empty %s", name)); c.h((uint64_t) (9000 + want)); std::string e; decltype(expect) got; bool ok = runs([&] { got = f(); }, &e);
        c.okf(ok, std::string(name) + ":empty-refused", [&] { return e; }); if(!ok) return; bool sh = shp(got) == shp(expect); c.okf(sh, std::string(name) + ":empty-shape", [&] { return shp(got) + " instead of " + shp(expect); }); if(sh) c.okf(eqv(got, expect), std::string(name) + ":empty-values", [&] { return "of " + shp(expect); }); };
    S("nearest:grid-grid", [&] { return nearest(g0, g, V0); }, gm); S("nearest:grid-points", [&] { return nearest(g0, p, V0); }, pm); S("nearest:points-grid", [&] { return nearest(p0, g, v0); }, gm); S("nearest:points-points", [&] { return nearest(p0, p, v0); }, pm);
    S("nearest:to-none", [&] { return nearest(g, g0, gv); }, V0); S("nearest:to-none", [&] { return nearest(g, p0, gv); }, v0); S("nearest:to-none", [&] { return nearest(p, g0, pv); }, V0); S("nearest:to-none", [&] { return nearest(p, p0, pv); }, v0); S("nearest:to-none-times", [&] { return nearest(g, p0, gt); }, none); S("nearest:to-none-times", [&] { return nearest(p, p0, pt); }, none);
    S("bilinear:grid-grid", [&] { return bilinear(g0, g, V0); }, gm); S("bilinear:grid-points", [&] { return bilinear(g0, p, V0); }, pm); S("bilinear:to-none", [&] { return bilinear(g, g0, gv); }, V0); S("bilinear:to-none", [&] { return bilinear(g, p0, gv); }, v0); S("bilinear:to-none-times", [&] { return bilinear(g, p0, gt); }, none);
    S("downscaling:grid-grid", [&] { return downscaling(g0, g, V0, dn); }, gm); S("downscaling:grid-points", [&] { return downscaling(g0, p, V0, dn); }, pm);
    S("simple_gradient:grid-grid", [&] { return simple_gradient(g0, g, V0, 0.1, dn); }, gm); S("simple_gradient:grid-points", [&] { return simple_gradient(g0, p, V0, 0.1, dn); }, pm); S("simple_gradient:to-none", [&] { return simple_gradient(g, g0, gv, 0.1, dn); }, V0); S("simple_gradient:to-none", [&] { return simple_gradient(g, p0, gv, 0.1, dn); }, v0);
    S("full_gradient:grid-grid", [&] { return full_gradient(g0, g, V0, V0, V0, dn); }, gm); S("full_gradient:grid-points", [&] { return full_gradient(g0, p, V0, V0, V0, dn); }, pm); S("full_gradient:to-none", [&] { return full_gradient(g, g0, gv, gv, V0, dn); }, V0); S("full_gradient:to-none", [&] { return full_gradient(g, p0, gv, gv, V0, dn); }, v0);
    S("smart", [&] { return smart(g0, g, V0, 3, s); }, gm); S("smart:to-none", [&] { return smart(g, g0, gv, 3, s); }, V0);
    S("downscale_probability", [&] { return downscale_probability(g0, g, W0, gv, op); }, gm); S("mask_threshold_downscale_consensus", [&] { return mask_threshold_downscale_consensus(g0, g, W0, W0, W0, gv, op, st); }, gm); S("mask_threshold_downscale_quantile", [&] { return mask_threshold_downscale_quantile(g0, g, W0, W0, W0, gv, op, l); }, gm);
    S("count:grid-grid", [&] { return count(g0, g, R); }, g00); S("count:grid-points", [&] { return count(g0, p, R); }, p00); S("count:points-grid", [&] { return count(p0, g, R); }, g00); S("count:points-points", [&] { return count(p0, p, R); }, p00);
    S("gridding:grid", [&] { return gridding(g, p0, v0, R, 0, st); }, gm); S("gridding:points", [&] { return gridding(p, p0, v0, R, 0, st); }, pm); S("gridding:to-none", [&] { return gridding(g0, p, pv, R, 0, st); }, V0); S("gridding:to-none", [&] { return gridding(p0, p, pv, R, 0, st); }, v0); S("gridding:count", [&] { return gridding(g, p0, v0, R, 0, Count); }, g00);
    S("gridding_nearest:grid", [&] { return gridding_nearest(g, p0, v0, 0, st); }, gm); S("gridding_nearest:points", [&] { return gridding_nearest(p, p0, v0, 0, st); }, pm); S("gridding_nearest:to-none", [&] { return gridding_nearest(g0, p, pv, 0, st); }, V0); S("gridding_nearest:to-none", [&] { return gridding_nearest(p0, p, pv, 0, st); }, v0);
    S("fill:inside", [&] { return fill(g, gv, p0, v0, 9, false); }, gv); S("fill:outside", [&] { return fill(g, gv, p0, v0, 0, true); }, g00); S("doping_square", [&] { return doping_square(g, gv, p0, v0, i0, NaNf); }, gv); S("doping_circle", [&] { return doping_circle(g, gv, p0, v0, v0, NaNf); }, gv);
    S("optimal_interpolation:grid", [&] { return optimal_interpolation(g, gv, p0, v0, v0, v0, s, 5); }, gv); S("optimal_interpolation:points", [&] { return optimal_interpolation(p, pv, p0, v0, v0, v0, s, 5); }, pv); S("optimal_interpolation:to-none", [&] { return optimal_interpolation(p0, v0, p, pv, pw, pv, s, 5); }, v0); S("optimal_interpolation:to-none", [&] { return optimal_interpolation(g0, V0, p, pv, pw, pv, s, 5); }, V0); S("coordinate-type", [&] { return ivec{(int) g0.get_coordinate_type(), (int) p0.get_coordinate_type()}; }, ivec{(int) ty, (int) ty});
    S("ensi:grid", [&] { return optimal_interpolation_ensi(g, ge, p0, v0, v0, V0, s, 5); }, ge); S("ensi:points", [&] { return optimal_interpolation_ensi(p, pe, p0, v0, v0, V0, s, 5); }, pe); S("local_distribution_correction", [&] { return local_distribution_correction(g, gv, p0, v0, v0, s, 0.1, 0.9, 0); }, gv);
    S("get_nearest_neighbour:points", [&] { return p0.get_nearest_neighbour(1, 1); }, -1); S("get_nearest_neighbour:grid", [&] { return g0.get_nearest_neighbour(1, 1); }, i0); S("get_neighbours", [&] { return p0.get_neighbours(1, 1, R); }, i0); S("get_closest_neighbours", [&] { return g0.get_closest_neighbours(1, 1, 3); }, I0); S("get_in_domain", [&] { return p.get_in_domain_indices(g0); }, i0);
}
