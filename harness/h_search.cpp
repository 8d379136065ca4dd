// C15: local gradients and neighbourhood search.
#include "nbh.h"
using gridpp::GradientType;
CASEW(gradient, 3) {
    Rng& r = c.rng; int Y = r.i(1, 9), X = r.i(1, 9); float lo, hi; vary(r, lo, hi); vec2 b = gen_field(r, Y, X, pick_missing(r), lo, hi), v = gen_field(r, Y, X, pick_missing(r)); sprinkle(r, b); if(r.p(0.5)) { double k = r.u(-0.02, 0.02), n = r.p(0.5) ? 0 : 1; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) if(isv(v[y][x]) && isv(b[y][x])) v[y][x] = 280 + k * b[y][x] + n * r.n(); }
    if(r.p(0.2)) { float k = b[0][0]; for(int y = 0; y < Y; y++) for(int x = 0; x < X / 2 + 1; x++) if(isv(b[y][x])) b[y][x] = k; }   // flat part
    int hw = r.p(0.05) ? r.i(1000, 2147483647) : r.i(1, 4), num = r.p(0.3) ? 0 : r.i(0, 8); float range = r.p(0.4) ? NaNf : r.p(0.3) ? 0 : r.u(0, 0.5 * ((double) hi - lo)), def = r.p(0.2) ? NaNf : r.u(-12, 3); c.h(b); c.h(v); c.h(hw); c.h(num); c.sample(strf("%dx%d halfwidth %d min_num %d min_range %g default %g", Y, X, hw, num, range, def)); vec2 b0 = b, v0 = v;
    vec2 lin = gridpp::calc_gradient(b, v, gridpp::LinearRegression, hw, num, range, def), mm = gridpp::calc_gradient(b, v, gridpp::MinMax, hw, num, range, def);
    if(!c.ok((int) lin.size() == Y && (int) lin[0].size() == X && (int) mm.size() == Y && (int) mm[0].size() == X, "gradient:size")) return;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        std::vector<double> B, V; for(long yy = std::max(0L, (long) y - hw); yy <= std::min((long) Y - 1, (long) y + hw); yy++) for(long xx = std::max(0L, (long) x - hw); xx <= std::min((long) X - 1, (long) x + hw); xx++) if(isv(b[yy][xx]) && isv(v[yy][xx])) { B.push_back(b[yy][xx]); V.push_back(v[yy][xx]); }
        int n = B.size(); auto d = [&] { return strf("cell %d,%d of %dx%d halfwidth %d min_num %d min_range %.9g default %.9g base ", y, x, Y, X, hw, num, range, def) + str(dvec(B)) + " values " + str(dvec(V)); };
        double mx = 0, my = 0; for(int k = 0; k < n; k++) { mx += B[k]; my += V[k]; } if(n) { mx /= n; my /= n; } double sxx = 0, sxy = 0, ay = 0; for(int k = 0; k < n; k++) { sxx += (B[k] - mx) * (B[k] - mx); sxy += (B[k] - mx) * (V[k] - my); ay += std::fabs((B[k] - mx) * (V[k] - my)); }
        double bmin = 1e300, bmax = -1e300; for(double q : B) { bmin = std::min(bmin, q); bmax = std::max(bmax, q); }
        // regression
        if(n == 0 || n < num || bmax == bmin) c.near(lin[y][x], def, 0, "gradient:linear:default", d);
        else { double sd = std::sqrt(sxx / n); bool edge = isv(range) && std::fabs(sd - range) <= 1e-4 * sd; if(!edge) { if(isv(range) && sd < range) c.near(lin[y][x], def, 0, "gradient:linear:small-range", d); else c.near(lin[y][x], sxy / sxx, 1e-6 * ay / sxx + 1e-9 * std::fabs(sxy / sxx), "gradient:linear", d); } }
        // min / max (any of the tied extremes)
        if(n == 0 || n < num || bmax == bmin) c.near(mm[y][x], def, 0, "gradient:minmax:default", d);
        else { double rg = bmax - bmin; bool edge = isv(range) && range > 0 && std::fabs(rg - range) <= 1e-6 * (rg + std::fabs(bmax)); if(!edge) { if(isv(range) && rg <= range) c.near(mm[y][x], def, 0, "gradient:minmax:small-range", d); else { double eps = 2e-7 * (std::fabs(bmax) + std::fabs(bmin)) / rg; bool any = false; double w0 = 0; for(int i = 0; i < n; i++) if(B[i] == bmax) for(int j = 0; j < n; j++) if(B[j] == bmin) { double w = (V[i] - V[j]) / rg; w0 = w; if(std::fabs(mm[y][x] - w) <= std::fabs(w) * (2e-6 + eps) + 2e-7 * (std::fabs(V[i]) + std::fabs(V[j])) / rg) any = true; } c.okf(any, "gradient:minmax", [&] { return strf("got %.9g want e.g. %.9g ", mm[y][x], w0) + d(); }); } } }
    }
    c.ok(same_bits(b, b0) && same_bits(v, v0), "gradient:input-modified");
    auto t = r.p(0.5) ? gridpp::LinearRegression : gridpp::MinMax; c.ok(!runs([&] { gridpp::calc_gradient(b, v, t, -r.i(0, 3), num, range, def); }) && !runs([&] { gridpp::calc_gradient(b, v, t, hw, -1, range, def); }) && !runs([&] { gridpp::calc_gradient(b, v, t, hw, num, -0.5, def); }) && !runs([&] { gridpp::calc_gradient(b, init2(Y, X + 1), t, hw, num, range, def); }) && !runs([&] { gridpp::calc_gradient(b, init2(Y + 1, X), t, hw, num, range, def); }) && !runs([&] { gridpp::calc_gradient(vec2(), vec2(), t, hw, num, range, def); }), "gradient:invalid-accepted");
}
CASEW(search, 3) {
    Rng& r = c.rng; bool large = r.p(0.01); int Y = large ? r.i(20, 45) : r.i(1, 9), X = large ? r.i(20, 45) : r.i(1, 9); double off = large || r.p(0.2) ? r.pick({280.0, 101325.0}) : 0; vec2 a = gen_field(r, Y, X, pick_missing(r)), s = gen_field(r, Y, X, pick_missing(r), 0, 1); for(auto& w : a) for(auto& q : w) q += off; if(r.p(0.3)) for(auto& w : s) for(auto& q : w) if(isv(q)) q = std::round(q * 4) / 4; if(r.p(0.3)) sprinkle(r, s);
    float t0 = r.u(-0.2, 1.1), t1 = r.p(0.2) ? t0 : t0 + r.u(0, 0.5), delta = r.p(0.2) ? 0 : r.u(0, 0.6); if(r.p(0.2)) { t0 = std::round(t0 * 4) / 4; t1 = std::round(t1 * 4) / 4; } int hw = large ? r.i(5, 25) : r.p(0.05) ? r.i(1000, 2147483647) : r.i(0, 3); ivec2 ap; if(r.p(0.5)) { ap.assign(Y, ivec(X)); for(auto& w : ap) for(auto& q : w) q = r.p(0.6); }
    c.h(a); c.h(s); c.h(t0); c.h(hw); c.sample(strf("%dx%d halfwidth %d target [%g,%g] delta %g apply=%d", Y, X, hw, t0, t1, delta, (int) !ap.empty())); vec2 a0 = a, s0 = s;
    vec2 o = gridpp::neighbourhood_search(a, s, hw, t0, t1, delta, ap); if(!c.ok((int) o.size() == Y && (int) o[0].size() == X, "search:size")) return; auto same = [](float p, float q) { return p == q || (std::isnan(p) && std::isnan(q)); };
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        auto d = [&] { return strf("cell %d,%d of %dx%d halfwidth %d target [%.9g,%.9g] delta %.9g centre criterion %.9g value %.9g got %.9g", y, x, Y, X, hw, t0, t1, delta, s[y][x], a[y][x], o[y][x]); };
        if(!isv(s[y][x]) || (!ap.empty() && !ap[y][x])) { c.okf(same(o[y][x], a[y][x]), "search:changed-where-not-applied", d); continue; }
        double sum = 0, abs = 0; int n = 0; struct N { float v, dist; double out; bool far; }; std::vector<N> out;
        for(long yy = std::max(0L, (long) y - hw); yy <= std::min((long) Y - 1, (long) y + hw); yy++) for(long xx = std::max(0L, (long) x - hw); xx <= std::min((long) X - 1, (long) x + hw); xx++) { float q = s[yy][xx], v = a[yy][xx]; if(!isv(q) || !isv(v)) continue; if(q >= t0 && q <= t1) { sum += v; abs += std::fabs(v); n++; } else out.push_back({v, std::min(std::fabs(q - t0), std::fabs(q - t1)), q < t0 ? (double) t0 - q : (double) q - t1, std::fabs(q - s[y][x]) >= delta}); }
        if(n) { c.near(o[y][x], sum / n, 1.5e-7 * std::fabs(sum / n) + 1e-12 * abs / n, "search:mean-of-matching", d); continue; }
        // no cell in range: closest to the range. Documented: if within delta of the range.
        float bd = 1e30; bool edge = false; for(auto& k : out) { bd = std::min(bd, k.dist); } for(auto& k : out) if(std::fabs(k.out - delta) < 1e-6) edge = true;
        bool docUse = !out.empty() && bd <= delta, good = edge; if(!docUse) good = good || same(o[y][x], a[y][x]); else for(auto& k : out) if(k.dist <= bd + 1e-7 && same(o[y][x], k.v)) good = true;
        if(good) { c.checks++; c.live++; continue; }
        // what the code does instead: closest to the range among those that differ from the centre by at least delta
        float fb = 1e30; bool any = false; for(auto& k : out) if(k.far) { fb = std::min(fb, k.dist); any = true; } bool asis = !any && same(o[y][x], a[y][x]); for(auto& k : out) if(k.far && k.dist <= fb && same(o[y][x], k.v)) asis = true;
        c.okf(false, asis ? "search:delta-compared-to-centre" : "search:closest-outside", d);
    }
    c.ok(same_bits(a, a0) && same_bits(s, s0), "search:input-modified");
    c.ok(!runs([&] { gridpp::neighbourhood_search(a, s, -1, t0, t1, delta, ap); }) && !runs([&] { gridpp::neighbourhood_search(a, s, hw, t1 + 1, t0, delta, ap); }) && !runs([&] { gridpp::neighbourhood_search(a, init2(Y + 1, X), hw, t0, t1, delta, ap); }) && !runs([&] { gridpp::neighbourhood_search(a, init2(Y, X + 1), hw, t0, t1, delta, ap); }) && !runs([&] { gridpp::neighbourhood_search(a, s, hw, t0, t1, delta, ivec2(Y + 1, ivec(X))); }) && !runs([&] { gridpp::neighbourhood_search(a, s, hw, t0, t1, delta, ivec2(Y, ivec(X + 1))); }), "search:invalid-accepted");
}
