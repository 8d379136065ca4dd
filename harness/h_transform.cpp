// C17: transforms and the gamma quantile function.
#include "common.h"
#include <memory>
// regularised incomplete gamma functions (lower, upper), independent of the library
static void ref_gamma(double a, double x, double& lower, double& upper) {
    if(x <= 0) { lower = 0; upper = 1; return; }
    if(std::isinf(x)) { lower = 1; upper = 0; return; }
    double pre = a * std::log(x) - x - std::lgamma(a);
    if(x < a + 1) { long double s = 1.0L / a, t = s; for(int n = 1; n < 100000; n++) { t *= x / (a + n); s += t; if(t < s * 1e-18L) break; } lower = std::exp(pre + (double) std::log(s)); upper = 1 - lower; }
    else { long double tiny = 1e-300L, b = x + 1 - a, cc = 1 / tiny, d = 1 / b, h = d; for(int i = 1; i < 100000; i++) { long double an = -i * ((long double) i - a); b += 2; d = an * d + b; if(std::fabs((double) d) < 1e-300) d = tiny; cc = b + an / cc; if(std::fabs((double) cc) < 1e-300) cc = tiny; d = 1 / d; long double del = d * cc; h *= del; if(std::fabs((double) (del - 1)) < 1e-17) break; } upper = std::exp(pre + (double) std::log(h)); lower = 1 - upper; }
}
static double phi_lo(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static double phi_up(double z) { return 0.5 * std::erfc(z / std::sqrt(2.0)); }
static void arrays(Ctx& c, const gridpp::Transform& t, const vec& x, const char* nm) {
    vec f(x.size()), b(x.size()); std::vector<bool> fe(x.size()), be(x.size()); bool fthrow = false, bthrow = false;
    for(size_t i = 0; i < x.size(); i++) { bool r1 = runs([&] { f[i] = t.forward(x[i]); }), r2 = runs([&] { b[i] = t.backward(x[i]); }); fthrow |= !r1; bthrow |= !r2; if(!isv(x[i])) { c.ok(r1 && r2 && (std::string(nm) == "identity" ? (std::isnan(f[i]) || std::isinf(x[i])) : std::isnan(f[i]) && std::isnan(b[i])), strf("%s:missing", nm)); } }
    Rng& r = c.rng; int n = x.size(), Y = r.i(1, 3), X = r.i(1, 4); vec2 x2(Y); vec3 x3(Y); std::vector<ivec> at(Y); std::vector<std::vector<ivec>> at3(Y);
    for(int y = 0; y < Y; y++) { int k = r.p(0.5) ? X : r.i(0, 4); for(int i = 0; i < k; i++) { int j = r.i(0, n - 1); x2[y].push_back(x[j]); at[y].push_back(j); } for(int i = 0; i < X; i++) { vec v; ivec a; int m = r.i(0, 3); for(int e = 0; e < m; e++) { int j = r.i(0, n - 1); v.push_back(x[j]); a.push_back(j); } x3[y].push_back(v); at3[y].push_back(a); } }
    for(int dir = 0; dir < 2; dir++) {
        if(dir ? bthrow : fthrow) { c.ok(!runs([&] { dir ? t.backward(x) : t.forward(x); }), strf("%s:array-error", nm)); continue; }
        const vec& w = dir ? b : f; vec v = dir ? t.backward(x) : t.forward(x); vec2 v2 = dir ? t.backward(x2) : t.forward(x2); vec3 v3 = dir ? t.backward(x3) : t.forward(x3);
        c.ok(same_bits(v, w), strf("%s:array1", nm), str(v) + str(w)); vec2 w2(Y); vec3 w3(Y); for(int y = 0; y < Y; y++) { for(int j : at[y]) w2[y].push_back(w[j]); for(auto& a : at3[y]) { vec q; for(int j : a) q.push_back(w[j]); w3[y].push_back(q); } }
        c.ok(same_bits(v2, w2), strf("%s:array2", nm), str(x2) + str(v2)); c.ok(same_bits(v3, w3), strf("%s:array3", nm));
    }
}
static vec sorted(vec v) { std::sort(v.begin(), v.end()); return v; }
static vec with_missing(Rng& r, vec v) { for(auto& f : v) if(r.p(0.1)) f = NaNf; return v; }
CASE(log) {
    Rng& r = c.rng; gridpp::Log t; vec x; int n = r.i(2, 12); for(int i = 0; i < n; i++) x.push_back(r.p(0.5) ? std::exp(r.u(-60, 60)) : r.u(0, 100)); x = sorted(x); c.h(x); c.sample(str(x)); double pf = -INFINITY, pb = -INFINITY;
    for(float v : x) { auto d = [&] { return strf("value %.9g", v); }; float f = t.forward(v); c.near(f, v > 0 ? std::log((double) v) : -INFINITY, 1e-5, "log:forward", d); if(v > 0) c.near(t.backward(f), v, v * (1e-6 + 3e-7 * std::fabs(f)), "log:round-trip", d); c.okf(f >= pf, "log:monotone", d); pf = f; float y = v > 80 ? 80 : v; float b = t.backward(y); c.near(b, std::exp((double) y), 1e-5 * std::exp((double) y), "log:backward", d); c.okf(b >= pb, "log:monotone", d); pb = b; }
    arrays(c, t, with_missing(r, x), "log");
}
CASE(identity) { Rng& r = c.rng; gridpp::Identity t; vec x = gen_vec(r, r.i(1, 10)); c.h(x); for(float v : x) { c.near(t.forward(v), v, 0, "identity:forward"); c.near(t.backward(v), v, 0, "identity:backward"); } arrays(c, t, x, "identity"); }
CASE(boxcox) {
    Rng& r = c.rng; float th = r.p(0.15) ? 0 : r.p(0.25) ? -r.u(0.05, 2) : r.p(0.2) ? r.i(1, 3) : r.p(0.25) ? (r.p(0.3) ? -1 : 1) * std::exp(r.u(std::log(1e-4), std::log(0.02))) : r.u(0.02, 2); gridpp::BoxCox t(th); vec x; int n = r.i(2, 12); for(int i = 0; i < n; i++) x.push_back(r.p(0.1) ? 0 : r.p(0.1) ? -r.u(0, 5) : r.p(0.5) ? std::exp(r.u(-12, 10)) : r.u(0, 60)); x = sorted(x); c.h(x); c.h(th); c.sample(strf("threshold %.6g ", th) + str(x)); double pf = -INFINITY, pb = -INFINITY, ptf = 0, ptb = 0;
    for(float v : x) {
        double p = std::max(0.0, (double) v), T = th; double want = T == 0 ? std::log(p) : (std::pow(p, T) - 1) / T; double tolf = T == 0 ? 1e-5 : 1e-6 * (1 + std::pow(p, T)) / std::fabs(T) * (1 + 0.1 * std::fabs(T * std::log(std::max(p, 1e-30)))); auto d = [&] { return strf("threshold %.9g value %.9g", th, v); };
        float f = t.forward(v); c.near(f, want, std::isinf(tolf) ? 0 : tolf, "boxcox:forward", d); double slack = std::isfinite(tolf + ptf) ? tolf + ptf : 0; c.okf(f >= pf - slack, "boxcox:monotone", d); pf = f; ptf = tolf;
        if(v > 0 && isv(f)) { double base = std::pow(p, T), rt = T == 0 ? 2e-5 : 2e-6 / std::fabs(T) * (1 + 1 / base) + 2e-6; if(rt < 0.3) c.near(t.backward(f), v, rt * v, "boxcox:round-trip", d); }
        float y = r.p(0.5) ? v : r.u(-30, 30); y = std::max(-50.0f, std::min(50.0f, y)); double base = 1 + T * y; double wb = T == 0 ? std::exp((double) y) : std::pow(std::max(0.0, base), 1 / T); float b = t.backward(y);
        auto d2 = [&] { return strf("threshold %.9g value %.9g", th, y); };
        if(T != 0 && std::fabs(base) < 1e-5 * (1 + std::fabs(T * y))) continue;
        double rb = T == 0 ? 1e-5 : std::fabs(1 / T) * 1e-6 * (1 + std::fabs(T * y)) / std::max(std::fabs(base), 1e-9) + 1e-5; if(T != 0 && base < 0) { c.near(b, wb, 0, "boxcox:backward-limit", d2); } else if(rb < 0.3 && wb < 1e37 && wb > 1e-36) c.near(b, wb, rb * wb, "boxcox:backward", d2);
        c.okf(b >= 0, "boxcox:negative", d2);
    }
    vec ys; for(int i = 0; i < 8; i++) ys.push_back(r.u(-20, 20)); ys = sorted(ys); for(float y : ys) { float b = t.backward(y); if(!std::isinf(b)) { double base = th == 0 ? 1 : std::max(1e-9, 1.0 + (double) th * y); double rb = th == 0 ? 1e-5 : std::fabs(1 / (double) th) * 1e-6 * (1 + std::fabs((double) th * y)) / base + 1e-5; c.ok(std::isinf(pb) || b >= pb * (1 - std::min(1.0, rb + ptb)), "boxcox:backward-monotone", strf("threshold %.9g value %.9g: %.9g after %.9g", th, y, b, pb)); ptb = rb; } pb = b; }
    arrays(c, t, with_missing(r, x), "boxcox");
}
CASE(startedboxcox) {
    Rng& r = c.rng; float th = r.p(0.2) ? r.i(1, 3) : r.p(0.2) ? std::exp(r.u(std::log(1e-4), std::log(0.02))) : r.u(0.02, 2), sc = r.p(0.3) ? r.i(1, 10) : std::exp(r.u(-4, 4)); gridpp::StartedBoxCox t(th, sc); vec x; int n = r.i(2, 12); for(int i = 0; i < n; i++) x.push_back(r.p(0.1) ? 0 : r.p(0.1) ? -r.u(0, 5) : r.p(0.15) ? sc : r.p(0.5) ? sc * std::exp(r.u(-4, 6)) : r.u(0, 60)); x = sorted(x); c.h(x); c.h(th); c.h(sc); c.sample(strf("threshold %.6g scale %.6g ", th, sc) + str(x)); double pf = -1, pb = -1, ptf = 0, ptb = 0;
    for(float v : x) {
        double p = std::max(0.0, (double) v), T = th, S = sc; double q = p / S, g = std::pow(q, T); double want = p <= S ? p : S * (1 + (g - 1) / T); double tolf = p <= S ? 0 : 1e-6 * S * (1 + (1 + g) / T) * (1 + 0.1 * std::fabs(T * std::log(q))); auto d = [&] { return strf("threshold %.9g scale %.9g value %.9g", th, sc, v); };
        float f = t.forward(v); c.near(f, want, tolf, "started:forward", d); c.okf(f >= pf - tolf - ptf, "started:monotone", d); pf = f; ptf = tolf;
        double rt = p <= S ? 0 : 2e-6 / T * (1 + 1 / g) * (1 + T) + 2e-6; if(rt < 0.3) c.near(t.backward(f), p, rt * p, "started:round-trip", d);
        double base = 1 + T / S * ((double) v - S); double wb = v <= S ? std::max(0.0, (double) v) : S * std::pow(base, 1 / T); float b = t.backward(v); double rb = v <= S ? 0 : 1e-6 / T * (1 + T * std::fabs(v / S) + T) / base + 1e-5; if(rb < 0.3 && wb < 1e37 && wb / S < 1e37) { c.near(b, wb, rb * wb, "started:backward", d); c.okf(b >= pb * (1 - rb - ptb), "started:backward-monotone", d); pb = b; ptb = rb; }
    }
    arrays(c, t, with_missing(r, x), "started"); float bad = r.pick({0.0f, -1.0f, NaNf, -INFINITY}); c.ok(!runs([&] { gridpp::StartedBoxCox q(bad, sc); }) && !runs([&] { gridpp::StartedBoxCox q(th, bad); }), "started:invalid-accepted");
}
// probability of the normal and gamma distributions agree (in the tail that is the smallest)
static void gamma_agree(Ctx& c, double k, double s, double a, double da, double z, double dz, const std::string& key, std::string d) {
    double l1, u1, l2, u2; ref_gamma(k, std::max(0.0, a - da) / s, l1, u1); ref_gamma(k, (a + da) / s, l2, u2); double zl1 = phi_lo(z - dz), zl2 = phi_lo(z + dz), zu1 = phi_up(z + dz), zu2 = phi_up(z - dz); d += strf(" cdf %.9g..%.9g normal %.9g..%.9g, complement %.9g..%.9g normal %.9g..%.9g", l1, l2, zl1, zl2, u2, u1, zu1, zu2);
    if(a < 1e-30) return;
    double f = 1e-7; if(z < 0) { if(zl2 < 1e-300) return; c.ok(l1 <= zl2 * (1 + f) && zl1 <= l2 * (1 + f), key, d); } else { if(zu2 < 1e-300) return; if(u2 < 1e-13 && a / s < k + 1) return; c.ok(u2 <= zu2 * (1 + f) && zu1 <= u1 * (1 + f), key, d); }
}
CASE(gamma) {
    Rng& r = c.rng; float k = r.p(0.3) ? r.i(1, 5) : std::exp(r.u(-2.5, 3.5)), s = std::exp(r.u(-3, 3)), tol = r.p(0.2) ? 0 : r.p(0.5) ? 0.01 : r.u(0, 1); gridpp::Gamma t(k, s, tol); vec x; int n = r.i(2, 12); for(int i = 0; i < n; i++) x.push_back(r.p(0.1) ? 0 : r.p(0.5) ? k * s * std::exp(r.u(-6, 3)) : std::fabs((float) (k * s + r.u(0, 5) * s * std::sqrt(k) * r.n()))); x = sorted(x); c.h(x); c.h(k); c.h(s); c.h(tol); c.sample(strf("shape %.6g scale %.6g tolerance %.6g ", k, s, tol) + str(x)); double pf = -INFINITY;
    for(float v : x) {
        std::string d = strf("shape %.9g scale %.9g tolerance %.9g value %.9g", k, s, tol, v); float f; if(!c.ok(runs([&] { f = t.forward(v); }), "gamma:forward-error", d)) continue; double a = (double) v + tol, da = 2e-7 * (a + tol); d += strf(" forward %.9g", f);
        if(!c.ok(isv(f), "gamma:not-finite", d)) continue; if(a > 0) gamma_agree(c, k, s, a, da, f, 1e-6 * std::fabs(f) + 1e-7, "gamma:forward", d); c.ok(f >= pf - 2e-6 * std::fabs(f) - 1e-7, "gamma:monotone", d); pf = f;
        float b; if(!c.ok(runs([&] { b = t.backward(f); }), "gamma:backward-error", d)) continue; if(std::fabs(f) < 37) { double bb = (double) b + tol; d += strf(" backward %.9g", b); gamma_agree(c, k, s, bb, 2e-7 * (std::fabs(b) + tol + bb), f, 1e-6 * std::fabs(f) + 1e-7, "gamma:round-trip", d); }
    }
    vec z; for(int i = 0; i < n; i++) z.push_back(r.p(0.2) ? r.u(-40, 40) : r.p(0.1) ? 0 : 3 * r.n()); z = sorted(z); double pb = -INFINITY;
    for(float v : z) { std::string d = strf("shape %.9g scale %.9g tolerance %.9g backward of %.9g", k, s, tol, v); float b; if(!c.ok(runs([&] { b = t.backward(v); }), "gamma:backward-error", d)) continue; double bb = (double) b + tol; d += strf(" = %.9g", b); if(std::fabs(v) < 37) gamma_agree(c, k, s, bb, 2e-7 * (std::fabs(b) + tol + std::fabs(bb)), v, 1e-6 * std::fabs(v) + 1e-7, "gamma:backward", d); c.ok(b >= pb - 1e-6 * (std::fabs(b) + tol), "gamma:backward-monotone", d); pb = b; }
    arrays(c, t, with_missing(r, r.p(0.5) ? x : z), "gamma"); float bad = r.pick({0.0f, -1.0f, NaNf, INFINITY}); c.ok(!runs([&] { gridpp::Gamma q(bad, s, tol); }) && !runs([&] { gridpp::Gamma q(k, bad, tol); }) && !runs([&] { gridpp::Gamma q(k, s, bad == 0 ? -1 : bad); }), "gamma:invalid-accepted");
}
CASE(gamma_inv) {
    Rng& r = c.rng; int n = r.i(0, 8); vec p(n), k(n), s(n); for(int i = 0; i < n; i++) { p[i] = r.p(0.1) ? 0 : r.p(0.1) ? 1 : r.p(0.2) ? std::exp(r.u(-30, 0)) : r.u(); k[i] = std::exp(r.u(-2, 4)); s[i] = std::exp(r.u(-4, 4)); } c.h(p); c.h(k); c.h(s); c.sample(str(p) + str(k) + str(s)); vec o = gridpp::gamma_inv(p, k, s); if(!c.ok((int) o.size() == n, "gamma_inv:size")) return;
    for(int i = 0; i < n; i++) { std::string d = strf("level %.9g shape %.9g scale %.9g got %.9g", p[i], k[i], s[i], o[i]); if(p[i] == 0) { c.ok(o[i] == 0, "gamma_inv:zero", d); continue; } if(p[i] == 1) { c.ok(std::isinf(o[i]) && o[i] > 0, "gamma_inv:one", d); continue; } if(!c.ok(isv(o[i]) && o[i] >= 0, "gamma_inv:finite", d) || (o[i] < 1e-30)) continue;
        double l1, l2, u1, u2; ref_gamma(k[i], o[i] * (1 - 2e-7) / (double) s[i], l1, u1); ref_gamma(k[i], o[i] * (1 + 2e-7) / (double) s[i], l2, u2); double q = 1 - (double) p[i]; c.ok(p[i] < 0.5 ? l1 <= p[i] * (1 + 1e-9) && p[i] <= l2 * (1 + 1e-9) : u2 <= q * (1 + 1e-9) && q <= u1 * (1 + 1e-9), "gamma_inv:value", d + strf(" cdf %.12g..%.12g", l1, l2)); }
    if(n) { int i = r.i(0, n - 1); auto bad = [&](int which, float v) { vec q[3] = {p, k, s}; q[which][i] = v; return !runs([&] { gridpp::gamma_inv(q[0], q[1], q[2]); }); }; c.ok(bad(0, r.pick({-0.1f, 1.1f, NaNf})) && bad(1, r.pick({0.0f, -1.0f, NaNf, INFINITY})) && bad(2, r.pick({0.0f, -1.0f, NaNf, INFINITY})), "gamma_inv:invalid-accepted"); int w = r.i(0, 2); vec q[3] = {p, k, s}; if(r.p(0.5)) q[w].pop_back(); else q[w].push_back(0.5); c.ok(!runs([&] { gridpp::gamma_inv(q[0], q[1], q[2]); }), "gamma_inv:size-mismatch-accepted"); }
}
