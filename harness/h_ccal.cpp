// C24: the client's calibrators against direct evaluations of their documented methods.
#include "client.h"
#include "Calibrator/Calibrator.h"
#include "ParameterFile/ParameterFile.h"
#include <boost/math/distributions/gamma.hpp>
#include <boost/math/distributions/normal.hpp>
#include <boost/math/distributions/students_t.hpp>
#include <omp.h>
static const double RE = 6.378137e6, D2R = M_PI / 180;
static double gc(double la1, double lo1, double la2, double lo2) {
    double a = std::sin((la2 - la1) * D2R / 2), b = std::sin((lo2 - lo1) * D2R / 2);
    double h = a * a + std::cos(la1 * D2R) * std::cos(la2 * D2R) * b * b;
    return 2 * RE * std::asin(std::sqrt(std::min(1.0, h)));
}
static double dtol(double d) { return 4 + 2e-7 * d; }
typedef std::vector<vec3> vec4;
static bool eq(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)) || (!cv(a) && !cv(b)); }
static CGrid make(Rng& r, int maxN, int minN = 1) {
    CGrid g; g.Y = r.i(minN, maxN); g.X = r.i(minN, maxN); g.lats = init2(g.Y, g.X); g.lons = g.elevs = g.lafs = g.lats;
    double la0 = r.u(-70, 68), lo0 = r.u(-170, 165), s = std::exp(r.u(std::log(0.01), std::log(maxN > 20 ? 0.15 : 0.5))), ang = r.p(0.5) ? 0 : r.u(-0.3, 0.3), dx = s / std::cos(la0 * D2R); if(r.p(0.3)) dx = -dx; double dy = r.p(0.3) ? -s : s;
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { g.lats[y][x] = la0 + dy * (std::cos(ang) * y + std::sin(ang) * x); g.lons[y][x] = lo0 + dx * (-std::sin(ang) * y + std::cos(ang) * x); g.elevs[y][x] = r.u(0, 600); g.lafs[y][x] = r.u(); }
    g.desc = strf("%dx%d lat0=%.5g lon0=%.5g spacing=%.3g", g.Y, g.X, la0, lo0, s); return g;
}
struct S { CGrid g; int E, T; std::unique_ptr<FileFake> f; std::string d;
    Ctx& c; std::set<std::string> names, outs;
    S(Ctx& c_, int maxN = 5, int maxE = 5, int maxT = 5, int minN = 1) : g(make(c_.rng, maxN, minN)), c(c_) { Rng& r = c.rng; E = r.i(1, maxE); T = r.i(1, maxT); f.reset(fake(g, E, T)); d = g.desc + strf(" E=%d T=%d", E, T); omp_set_num_threads(r.p(0.1) ? 3 : 1); if(r.p(0.5)) put("bystander", [&] { return r.p(0.1) ? MV : r.u(-5, 5); }); }
    template <class F> void each(F fn) { for(int t = 0; t < T; t++) for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) for(int e = 0; e < E; e++) fn(t, y, x, e); }
    vec4 get(const std::string& v) { vec4 o(T, vec3(g.Y, vec2(g.X, vec(E)))); for(int t = 0; t < T; t++) { Field& p = *f->getField(Variable(v), t); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) for(int e = 0; e < E; e++) o[t][y][x][e] = p(y, x, e); } return o; }
    template <class F> void put(const std::string& v, F fn) { names.insert(v); for(int t = 0; t < T; t++) { FieldPtr p = f->getEmptyField(); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) for(int e = 0; e < E; e++) (*p)(y, x, e) = fn(); f->addField(p, Variable(v), t); } }
    // runs a calibrator on v; variables that are not its output, and the locations, must not change
    bool run(const std::string& name, const std::string& opts, const ParameterFile* p = NULL) {
        std::map<std::string, vec4> before; for(auto& n : names) if(n != "v" && !outs.count(n)) before[n] = get(n); vec2 la = f->getLats(), lo = f->getLons(), el = f->getElevs(), lf = f->getLandFractions();
        std::unique_ptr<Calibrator> k(Calibrator::getScheme(name, Variable("v"), Options(opts))); bool ok = k->calibrate(*f, p); auto same2 = [](const vec2& a, const vec2& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) { if(a[i].size() != b[i].size()) return false; for(size_t q = 0; q < a[i].size(); q++) if(!eq(a[i][q], b[i][q])) return false; } return true; };
        for(auto& q : before) { vec4 now = get(q.first); each([&](int t, int y, int x, int e) { c.okf(eq(now[t][y][x][e], q.second[t][y][x][e]), name + ":other-variable-changed", [&] { return at(t, y, x, e) + " " + q.first + " " + opts; }); }); }
        c.okf(same2(la, f->getLats()) && same2(lo, f->getLons()) && same2(lf, f->getLandFractions()) && (name == "altitude" || same2(el, f->getElevs())), name + ":locations-changed", [&] { return d + opts; }); return ok;
    }
    std::string at(int t, int y, int x, int e) { return d + strf(" at t=%d y=%d x=%d e=%d", t, y, x, e); }
};
static float maybe(Rng& r, double miss, float v) { return r.p(miss) ? (r.p(0.7) ? MV : NaNf) : v; }
static const double nomiss[3] = {0, 0.1, 0.4};

// ---------------------------------------------------------------- parameters
struct Tab { std::vector<Location> locs; std::vector<std::vector<vec>> val; int nT = 1; bool cycle = false, local = false; std::unique_ptr<ParameterFileText> pf;
    int tt(int t) const { return nT > 1 ? (cycle ? t % nT : t) : 0; }
    // parameters for a location; null when it cannot be decided within rounding
    const vec* find(int t, float la, float lo) const {
        t = tt(t); if(!local) return &val[0][t]; int b = -1; double bd = 1e30; bool amb = false;
        for(size_t k = 0; k < locs.size(); k++) { if(val[k][t].empty()) continue; double d = gc(locs[k].lat(), locs[k].lon(), la, lo); if(d < bd) { bd = d; b = k; } }
        for(size_t k = 0; k < locs.size(); k++) { if(val[k][t].empty() || (int) k == b) continue; if(gc(locs[k].lat(), locs[k].lon(), la, lo) <= bd + dtol(bd)) amb = true; }
        return amb || b < 0 ? nullptr : &val[b][t];
    }
    void build() { pf.reset(new ParameterFileText(Options(strf("file=/nonexistent/par.txt cycle=%d", cycle)), true)); for(size_t k = 0; k < locs.size(); k++) for(size_t t = 0; t < val[k].size(); t++) if(!val[k][t].empty()) { if(local) pf->setParameters(Parameters(val[k][t]), t, locs[k]); else pf->setParameters(Parameters(val[k][t]), t); } pf->recomputeTree(); }
};
// gen: makes one parameter set. gaps: some locations lack parameters for some times
template <class F> static Tab table(Rng& r, const S& s, F gen, int how = -1, bool gaps = false, int maxL = 5) {
    Tab q; if(how < 0) how = r.i(0, 1); q.local = how; q.nT = r.p(0.5) ? 1 : s.T; if(s.T > 2 && r.p(0.3)) { q.cycle = true; q.nT = r.i(2, s.T - 1); } int L = q.local ? r.i(1, maxL) : 1;
    for(int k = 0; k < L; k++) {
        Location loc(MV, MV, MV); if(q.local) { int y = r.i(0, s.g.Y - 1), x = r.i(0, s.g.X - 1); double sp = s.g.Y > 1 ? std::fabs(s.g.lats[1][0] - s.g.lats[0][0]) + 1e-3 : 0.05; loc = Location(s.g.lats[y][x] + (r.p(0.3) ? 0 : r.u(-sp, sp)), s.g.lons[y][x] + (r.p(0.3) ? 0 : r.u(-sp, sp)), r.u(0, 600)); }
        bool dup = false; for(auto& o : q.locs) if(o.lat() == loc.lat() && o.lon() == loc.lon()) dup = true; if(dup) continue;
        q.locs.push_back(loc); std::vector<vec> v; for(int t = 0; t < q.nT; t++) v.push_back(gaps && k > 0 && t > 0 && r.p(0.2) ? vec() : gen()); if(v.size() > 1 && r.p(0.3)) std::swap(v[0], v[1]); q.val.push_back(v);
    }
    q.build(); return q;
}
static bool allv(const vec& v) { for(float q : v) if(!cv(q)) return false; return true; }
static std::string sv(const vec* p) { return p ? " par=" + str(*p) : std::string(); }

// ---------------------------------------------------------------- one value at a time
CASE(qc) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)]; s.put("v", [&] { return maybe(r, m, r.u(-10, 10)); }); vec4 a = s.get("v"); bool lo = r.p(0.7), hi = r.p(0.7); float mn = r.i(-8, 2), mx = mn + r.i(0, 9); std::string o; if(lo) o += strf("min=%g ", mn); if(hi) o += strf("max=%g", mx); c.sample(s.d + " " + o);
    s.run("qc", o); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { float v = a[t][y][x][e], w = v; if(cv(v)) { if(lo && w < mn) w = mn; if(hi && w > mx) w = mx; } c.okf(eq(b[t][y][x][e], w), "qc:value", [&] { return s.at(t, y, x, e) + " " + o + strf(" %g became %g", v, b[t][y][x][e]); }); c.h(w); }); }
CASE(threshold) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)]; s.put("v", [&] { return maybe(r, m, r.p(0.5) ? r.i(-5, 5) : r.u(-5, 5)); }); vec4 a = s.get("v"); int n = r.i(1, 4); std::set<int> q; while((int) q.size() < n) q.insert(r.i(-5, 5)); std::vector<int> th(q.begin(), q.end()); vec vals; ivec eqs; std::string o = "thresholds=";
    for(int i = 0; i < n; i++) o += strf("%s%d", i ? "," : "", th[i]); o += " values="; for(int i = 0; i <= n; i++) { vals.push_back(r.i(-100, 100)); o += strf("%s%g", i ? "," : "", vals[i]); } bool he = r.p(0.6); eqs.assign(n, 0); if(he) { o += " equals="; for(int i = 0; i < n; i++) { eqs[i] = r.i(0, 1); o += strf("%s%d", i ? "," : "", eqs[i]); } } c.sample(o);
    s.run("threshold", o); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { float v = a[t][y][x][e], w = v; if(cv(v)) { int k = 0; while(k < n && !(v < th[k] || (v == th[k] && eqs[k]))) k++; w = vals[k]; } c.okf(eq(b[t][y][x][e], w), "threshold:value", [&] { return s.at(t, y, x, e) + " " + o + strf(" %g became %g want %g", v, b[t][y][x][e], w); }); c.h(w); }); }
CASE(cloud) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)]; s.put("v", [&] { return maybe(r, m, r.u()); }); s.put("p", [&] { return maybe(r, m, r.p(0.5) ? 0 : r.u(-0.1, 3)); }); vec4 a = s.get("v"), p = s.get("p"); bool hv = r.p(0.5); float val = hv ? (float) std::round(r.u() * 100) / 100 : 1.0f; std::string o = "precipVariable=p"; if(hv) o += strf(" value=%.2f", val); c.sample(o);
    s.run("cloud", o); vec4 b = s.get("v"), p2 = s.get("p"); s.each([&](int t, int y, int x, int e) { float v = a[t][y][x][e], w = v, q = p[t][y][x][e]; if(cv(v) && cv(q) && q > 0 && v < val) w = val; c.okf(eq(b[t][y][x][e], w) || (cv(w) && std::fabs(b[t][y][x][e] - w) < 1e-6), "cloud:value", [&] { return s.at(t, y, x, e) + " " + o + strf(" cloud %g precip %g became %g", v, q, b[t][y][x][e]); }); c.okf(eq(p2[t][y][x][e], q), "cloud:precipitation-changed", [&] { return s.at(t, y, x, e); }); c.h(w); }); }
CASE(phase) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)]; s.put("v", [&] { return MV; }); s.put("T", [&] { return maybe(r, m, r.u(270, 278)); }); s.put("p", [&] { return maybe(r, m, r.p(0.3) ? 0 : r.u(0, 2)); }); vec4 T = s.get("T"), p = s.get("p"); float sn = 273.15, ra = 274.15, mp = 0.2; std::string o = "temperature=T precipitation=p"; if(r.p(0.5)) { sn = r.i(270, 274); o += strf(" snowThreshold=%g", sn); if(ra < sn || r.p(0.5)) { ra = sn + r.i(0, 3); o += strf(" rainThreshold=%g", ra); } } if(r.p(0.5)) { mp = r.pick({0.0f, 0.5f, 1.0f}); o += strf(" minPrecip=%g", mp); } c.sample(o);
    s.run("phase", o); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { float tt = T[t][y][x][e], pp = p[t][y][x][e], w = MV; if(cv(tt) && cv(pp)) { if(pp == mp && mp != 0) return; if(tt == sn || tt == ra) return; w = pp <= mp ? 0 : tt < sn ? 3 : tt < ra ? 2 : 1; } c.okf(eq(b[t][y][x][e], w), "phase:value", [&] { return s.at(t, y, x, e) + " " + o + strf(" T %g precip %g gives %g want %g", tt, pp, b[t][y][x][e], w); }); c.h(w); }); }
CASE(sort) { Rng& r = c.rng; S s(c, 5, 8); double m = nomiss[r.i(0, 2)]; bool in = r.p(0.5); s.put("v", [&] { return maybe(r, m, in ? (float) r.i(-3, 3) : (float) r.u(-5, 5)); }); vec4 a = s.get("v"); s.run("sort", ""); vec4 b = s.get("v"); c.sample(s.d);
    for(int t = 0; t < s.T; t++) for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { vec w; for(float v : a[t][y][x]) if(cv(v)) w.push_back(v); std::sort(w.begin(), w.end()); w.resize(s.E, MV); bool good = true; for(int e = 0; e < s.E; e++) if(!eq(b[t][y][x][e], w[e])) good = false; c.okf(good, "sort:value", [&] { return s.at(t, y, x, 0) + " " + str(a[t][y][x]) + " became " + str(b[t][y][x]); }); c.h(w); } }
CASE(accumulate) { Rng& r = c.rng; S s(c, 4, 3, 10); double m = nomiss[r.i(0, 2)] * 0.3; s.put("v", [&] { return maybe(r, m, r.u(0, 5)); }); vec4 a = s.get("v"); bool de = r.p(0.5); int win = 1; std::string o; if(de && r.p(0.6)) { win = r.i(1, 12); o = strf("window=%d", win); } c.sample(s.d + (de ? " deaccumulate " : " accumulate ") + o);
    s.run(de ? "deaccumulate" : "accumulate", o); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { double w = 0; bool ok = true; if(de) { ok = t >= win && cv(a[t][y][x][e]) && cv(a[t - win][y][x][e]); if(ok) w = (double) a[t][y][x][e] - a[t - win][y][x][e]; } else for(int k = 1; k <= t; k++) { ok = ok && cv(a[k][y][x][e]); w += a[k][y][x][e]; }
        float g = b[t][y][x][e]; c.okf(ok ? cv(g) && std::fabs(g - w) <= 1e-5 * (1 + std::fabs(w)) : !cv(g), de ? "deaccumulate:value" : "accumulate:value", [&] { return s.at(t, y, x, e) + " " + o + strf(" got %g want %g", g, ok ? w : NaNd); }); if(ok) c.h(g); }); 
    if(!de) { s.run("deaccumulate", ""); b = s.get("v"); s.each([&](int t, int y, int x, int e) { bool ok = t > 0; for(int k = 1; k <= t; k++) ok = ok && cv(a[k][y][x][e]); if(ok) c.near(b[t][y][x][e], a[t][y][x][e], 1e-4, "accumulate:not-undone-by-deaccumulate", [&] { return s.at(t, y, x, e); }); }); } }
static double stat(std::vector<double> v, const std::string& st, double q, double& tol) {
    if(v.empty()) return NaNd; double big = 0, sum = 0; for(double a : v) { big = std::max(big, std::fabs(a)); sum += a; } tol = 2e-6 * big * (1 + v.size() * 0.2) + 1e-9; int n = v.size();
    if(st == "sum") { tol *= n; return sum; } if(st == "mean") return sum / n;
    if(st == "std") { double mn = sum / n, q2 = 0, sp = 0; for(double a : v) { q2 += (a - mn) * (a - mn); sp = std::max(sp, std::fabs(a - v[0])); } double var = q2 / n, sd = std::sqrt(var); tol = sd > 0 ? std::min(1e-3 * sp, 1e-6 * sp * sp * n / sd) + 1e-6 * sp : 1e-3 * sp; tol += 1e-5 * sp + 3e-7 * big; return sd; }
    std::sort(v.begin(), v.end()); if(st == "min") q = 0; if(st == "max") q = 1; if(st == "median") q = 0.5; double p = q * (n - 1); int i = std::floor(p); double f = p - i; tol = 1e-6 * big + 1e-5 * n * (v[n - 1] - v[0]) * (f > 0 && q != 0.5 ? 1 : 1e-2);
    return i + 1 < n ? v[i] + f * (v[i + 1] - v[i]) : v[n - 1];
}
static std::string pickstat(Rng& r, double& q, std::string& o) { std::string st = r.pick({std::string("mean"), std::string("min"), std::string("max"), std::string("median"), std::string("std"), std::string("sum"), std::string("quantile")}); o += " stat=" + st; q = 0; if(st == "quantile") { q = r.pick({0.0, 0.25, 0.5, 0.75, 0.9, 1.0}); o += strf(" quantile=%g", q); } return st; }
CASE(window) { Rng& r = c.rng; S s(c, 3, 2, 14); double m = nomiss[r.i(0, 2)]; double off = r.pick({0.0, 0.0, 280.0, 1e5}); s.put("v", [&] { return maybe(r, m, off + r.u(-10, 10)); }); vec4 a = s.get("v"); std::string o; int len = 7; if(r.p(0.9)) { len = r.i(1, 18); o += strf("length=%d", len); } bool bef = r.p(0.4), keep = r.p(0.4), edge = r.p(0.4); if(bef) o += " before=1"; if(keep) o += " keepMissing=1"; if(edge) o += " edgePolicy=missing"; double q; std::string st = pickstat(r, q, o); c.sample(s.d + o);
    s.run("window", o); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { int lo = bef ? t - len + 1 : t - (len - 1) / 2, hi = bef ? t : lo + len - 1; bool full = lo >= 0 && hi < s.T; std::vector<double> v; bool miss = false; for(int k = std::max(0, lo); k <= std::min(s.T - 1, hi); k++) { if(cv(a[k][y][x][e])) v.push_back(a[k][y][x][e]); else miss = true; } double tol = 0, w = (edge && !full) || (keep && miss) ? NaNd : stat(v, st, q, tol); float g = b[t][y][x][e];
        c.okf(std::isnan(w) ? !cv(g) : cv(g) && std::fabs(g - w) <= tol + 1e-6 * std::fabs(w), "window:" + st, [&] { return s.at(t, y, x, e) + " " + o + strf(" got %.9g want %.9g", g, w); }); if(!std::isnan(w)) c.h(g); }); }
CASEW(neighbourhood, 2) { Rng& r = c.rng; bool large = r.p(0.02); S s(c, large ? 70 : 9, large ? 1 : 2, large ? 1 : 3, large ? 30 : 1); double m = r.p(0.5) ? 0 : nomiss[r.i(0, 2)]; double off = r.pick({0.0, 0.0, 280.0, 1e5}); bool in = r.p(0.3); s.put("v", [&] { return maybe(r, m, off + (in ? (double) r.i(-2, 2) : r.u(-10, 10))); }); vec4 a = s.get("v"); std::string o; int rad = 3; bool par = r.p(0.3); if(!par && r.p(0.9)) { rad = r.pick({0, 1, 1, 2, 2, 3, 4, 8, 12}); o += strf("radius=%d", rad); } if(r.p(0.4)) o += " fast=0"; bool ap = r.p(0.2); if(ap) o += " approx=1"; double q; std::string st = pickstat(r, q, o);
    Tab tb; if(par) tb = table(r, s, [&] { return vec(1, r.i(0, 5)); }, 0); c.sample(s.d + o); s.run("neighbourhood", o, par ? tb.pf.get() : NULL); vec4 b = s.get("v");
    double tot = 0; for(int t = 0; t < s.T; t++) for(int e = 0; e < s.E; e++) { double q2 = 0; for(auto& row : a[t]) for(auto& cell : row) if(cv(cell[e])) q2 += std::fabs(cell[e]); tot = std::max(tot, q2); }
    s.each([&](int t, int y, int x, int e) { if(par) rad = (*tb.find(t, 0, 0))[0]; std::vector<double> v; for(int i = std::max(0, y - rad); i <= std::min(s.g.Y - 1, y + rad); i++) for(int j = std::max(0, x - rad); j <= std::min(s.g.X - 1, x + rad); j++) if(cv(a[t][i][j][e])) v.push_back(a[t][i][j][e]); double tol = 0, w = stat(v, st, q, tol); if(st == "mean" || st == "sum") tol += 1e-11 * tot; float g = b[t][y][x][e];
        if(ap && (st == "median" || st == "quantile")) { if(v.empty()) { c.okf(!cv(g), "neighbourhood:approx-missing", [&] { return s.at(t, y, x, e) + o; }); return; } double lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end()), eps = 1e-6 * (std::fabs(lo) + std::fabs(hi)); c.okf(cv(g) && g >= lo - eps && g <= hi + eps, "neighbourhood:approx-outside", [&] { return s.at(t, y, x, e) + " " + o + strf(" got %g outside [%g,%g]", g, lo, hi); }); return; }
        c.okf(std::isnan(w) ? !cv(g) : cv(g) && std::fabs(g - w) <= tol + 1e-6 * std::fabs(w), "neighbourhood:" + st, [&] { return s.at(t, y, x, e) + " " + o + strf(" radius %d got %.9g want %.9g", rad, g, w); }); if(!std::isnan(w)) c.h(g); }); }
CASE(qnh) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)]; s.put("v", [&] { return MV; }); s.put("p", [&] { return maybe(r, m, r.u(50000, 105000)); }); vec2 el = s.g.elevs; for(auto& row : el) for(auto& v : row) { v = r.p(0.2) ? 0 : r.u(-100, 3000); if(r.p(0.1)) v = MV; } s.f->setElevs(el); vec4 p = s.get("p"); c.sample(s.d);
    s.run("qnh", "pressureVariable=p"); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { float g = b[t][y][x][e], pp = p[t][y][x][e]; double h = el[y][x]; if(!cv(pp) || !cv(h)) { c.okf(!cv(g), "qnh:missing", [&] { return s.at(t, y, x, e); }); return; } double k = 287.053 * 0.0065 / 9.80665, w = 101325 * std::pow(std::pow(pp / 101325.0, k) + h * 0.0065 / 288.15, 1 / k); c.near(g, w, 2e-5 * w, "qnh:value", [&] { return s.at(t, y, x, e) + strf(" p=%g elev=%g", pp, h); }); c.h(g); }); }
CASE(diagnosewind) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)]; for(const char* n : {"x", "y"}) s.put(n, [&] { return maybe(r, m, r.p(0.1) ? 0 : r.u(-20, 20)); }); s.put("spd", [&] { return maybe(r, m, r.p(0.1) ? 0 : r.u(0, 30)); }); s.put("dir", [&] { return maybe(r, m, r.p(0.1) ? r.i(0, 4) * 90 : r.u(0, 360)); }); s.put("v", [&] { return MV; }); vec4 X = s.get("x"), Y = s.get("y"), V = s.get("spd"), D = s.get("dir"); std::string w = r.pick({std::string("x"), std::string("y"), std::string("speed"), std::string("direction")}); c.sample(s.d + " " + w);
    s.run("diagnoseWind", "x=x y=y speed=spd direction=dir compute=" + w); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { float g = b[t][y][x][e]; double p = X[t][y][x][e], q = Y[t][y][x][e], v = V[t][y][x][e], d = D[t][y][x][e]; bool ok = w == "x" || w == "y" ? cv(v) && cv(d) : cv(p) && cv(q); if(!ok) { c.okf(!cv(g), "wind:missing", [&] { return s.at(t, y, x, e); }); return; }
        if(w == "direction") { if(p == 0 && q == 0) return; double dd = std::fmod(std::atan2(-p, -q) / D2R + 720, 360), df = std::fabs(g - dd); c.okf(g >= 0 && g <= 360 && std::min(df, 360 - df) < 1e-3, "wind:direction", [&] { return s.at(t, y, x, e) + strf(" x=%g y=%g got %g want %g", p, q, g, dd); }); }
        else { double wv = w == "x" ? -v * std::sin(d * D2R) : w == "y" ? -v * std::cos(d * D2R) : std::sqrt(p * p + q * q); c.near(g, wv, 1e-4, "wind:" + w, [&] { return s.at(t, y, x, e) + strf(" speed=%g dir=%g x=%g y=%g", v, d, p, q); }); } c.h(g); }); }
CASE(humidity) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)]; s.put("T", [&] { return maybe(r, m, r.u(230, 315)); }); s.put("rh", [&] { return maybe(r, m, r.p(0.1) ? r.i(0, 1) : r.u(0.01, 1)); }); s.put("p", [&] { return maybe(r, m, r.u(60000, 104000)); }); s.put("td", [&] { return maybe(r, m, r.u(225, 315)); }); s.put("v", [&] { return MV; }); vec4 T = s.get("T"), RH = s.get("rh"), P = s.get("p"), TD = s.get("td"); std::string w = r.pick({std::string("dewpoint"), std::string("rh"), std::string("wetbulb")}); bool hp = r.p(0.6); std::string o = "temperature=T rh=rh dewpoint=td compute=" + w + (hp ? " pressure=p" : ""); c.sample(s.d + " " + o);
    s.run("diagnoseHumidity", o); vec4 b = s.get("v"); s.each([&](int t, int y, int x, int e) { float g = b[t][y][x][e]; double tk = T[t][y][x][e], rh = RH[t][y][x][e], p = P[t][y][x][e], td = TD[t][y][x][e]; bool in = cv(tk) && (w == "rh" ? cv(td) : cv(rh)) && (w != "wetbulb" || !hp || cv(p)); auto dd = [&] { return s.at(t, y, x, e) + strf(" T=%g rh=%g p=%g td=%g: ", tk, rh, p, td) + w; };
        if(!in) { c.okf(!cv(g), "humidity:missing", dd); return; } if(w != "rh" && rh <= 0) { c.okf(!cv(g), "humidity:dry", dd); return; }
        auto es = [](double tc) { return 0.611 * std::exp(17.63 * tc / (tc + 243.04)); }; auto inv = [](double v) { return (116.9 + 243.04 * std::log(v)) / (16.78 - std::log(v)); };
        if(w == "dewpoint") { double want = std::min(tk, inv(rh * es(tk - 273.15)) + 273.15); c.near(g, want, 0.01, "humidity:dewpoint", dd); }
        else if(w == "rh") { if(td >= tk) c.okf(g == 1, "humidity:saturated", dd); else { auto ice = [&](double k) { return es(k - 273.15); }; double want = ice(td) / ice(tk); c.okf(cv(g) && g >= 0 && g <= 1 && std::fabs(g - want) < 0.03 + 0.05 * want, "humidity:rh", [&] { return dd() + strf(" got %g want about %g", g, want); }); } }
        else { double h = s.g.elevs[y][x], pp = hp ? p : 101325 * std::exp(-1.21e-4 * h), ev = rh * es(tk - 273.15), Td = inv(ev), gam = 0.00066 * pp / 1000, del = 4098 * ev / std::pow(Td + 243.04, 2), want = (gam * (tk - 273.15) + del * Td) / (gam + del) + 273.15; c.near(g, want, 0.02, "humidity:wetbulb", dd); }
        c.h(g); }); }

// ---------------------------------------------------------------- parameter files
CASE(regression) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)], pm = r.pick({0.0, 0.0, 0.1}); int n = r.i(1, 4); bool multi = r.p(0.5); for(const char* v : {"v", "a", "b"}) s.put(v, [&] { return maybe(r, m, r.u(-10, 10)); }); std::string o; std::vector<std::string> vars; if(multi) { o = "variables="; for(int i = 0; i < n; i++) { vars.push_back(r.pick({std::string("1"), std::string("v"), std::string("a"), std::string("b")})); o += (i ? "," : "") + vars[i]; } } else if(r.p(0.3)) o = strf("order=%d", n - 1);
    std::map<std::string, vec4> in; for(const char* v : {"v", "a", "b"}) in[v] = s.get(v); Tab tb = table(r, s, [&] { vec p; for(int i = 0; i < n; i++) p.push_back(maybe(r, pm, r.p(0.1) ? 0 : r.u(-2, 2))); return p; }); c.sample(s.d + " " + o); s.run("regression", o, tb.pf.get()); vec4 b = s.get("v");
    s.each([&](int t, int y, int x, int e) { const vec* p = tb.find(t, s.g.lats[y][x], s.g.lons[y][x]); if(!p) return; float v = in["v"][t][y][x][e], g = b[t][y][x][e]; double w = 0, mag = 0; bool ok = cv(v) && allv(*p); for(int i = 0; ok && i < n; i++) { double q; if(multi) { float z = vars[i] == "1" ? 1 : in[vars[i]][t][y][x][e]; if(!cv(z)) { ok = false; break; } q = z; } else q = std::pow((double) v, i); w += (*p)[i] * q; mag += std::fabs((*p)[i] * q); }
        c.okf(ok ? cv(g) && std::fabs(g - w) <= 1e-5 * mag + 1e-6 : !cv(g), multi ? "regression:multivariate" : "regression:polynomial", [&] { return s.at(t, y, x, e) + " " + o + sv(p) + strf(" got %g want %g", g, ok ? w : NaNd); }); if(ok) c.h(g); }); 
    if(multi) for(const char* q : {"a", "b"}) { vec4 z = s.get(q); bool same = true; s.each([&](int t, int y, int x, int e) { same = same && eq(z[t][y][x][e], in[q][t][y][x][e]); }); c.ok(same, "regression:predictor-changed", s.d); } }
CASE(winddirection) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)], pm = r.pick({0.0, 0.0, 0.05}); s.put("v", [&] { return maybe(r, m, r.u(0, 30)); }); s.put("dir", [&] { return maybe(r, m, r.p(0.2) ? r.i(0, 8) * 45 : r.u(0, 360)); }); vec4 a = s.get("v"), D = s.get("dir"); Tab tb = table(r, s, [&] { vec p; for(int i = 0; i < 9; i++) p.push_back(maybe(r, pm, i ? r.u(-0.5, 0.5) : r.u(0, 2))); return p; }); c.sample(s.d); s.run("windDirection", "directionVariable=dir", tb.pf.get()); vec4 b = s.get("v");
    s.each([&](int t, int y, int x, int e) { const vec* p = tb.find(t, s.g.lats[y][x], s.g.lons[y][x]); if(!p) return; float v = a[t][y][x][e], d = D[t][y][x][e], g = b[t][y][x][e]; auto dd = [&] { return s.at(t, y, x, e) + strf(" wind %g dir %g got %g", v, d, g) + sv(p); }; if(!cv(v)) { c.okf(!cv(g), "winddirection:missing-wind", dd); return; } if(!cv(d)) { c.okf(eq(g, v), "winddirection:missing-direction", dd); return; } if(!allv(*p)) { c.okf(!cv(g), "winddirection:missing-parameters", dd); return; }
        double f = (*p)[0]; for(int k = 1; k <= 4; k++) f += (*p)[2 * k - 1] * std::sin(k * d * D2R) + (*p)[2 * k] * std::cos(k * d * D2R); if(f < 0) f = 0; c.near(g, f * v, 1e-4 * v + 1e-6, "winddirection:value", dd); c.h(g); }); }
CASE(qq) { Rng& r = c.rng; S s(c); double m = nomiss[r.i(0, 2)], pm = r.pick({0.0, 0.0, 0.05}); s.put("v", [&] { return maybe(r, m, r.p(0.2) ? r.i(-12, 12) : r.u(-15, 15)); }); vec4 a = s.get("v"); int n = r.i(2, 6); std::string pol = r.pick({std::string("1to1"), std::string("meanSlope"), std::string("nearestSlope"), std::string("zero"), std::string("")}), o = pol.empty() ? "" : "extrapolation=" + pol; if(pol.empty()) pol = "1to1";
    Tab tb = table(r, s, [&] { std::set<int> f; while((int) f.size() < n) f.insert(r.i(-12, 12)); vec ob; for(int i = 0; i < n; i++) ob.push_back(r.u(-12, 12)); std::sort(ob.begin(), ob.end()); vec p; int i = 0; for(int q : f) { p.push_back(ob[i++]); p.push_back(q); } if(r.p(pm * 4)) p[r.i(0, 2 * n - 1)] = MV; return p; }); c.sample(s.d + " " + o); s.run("qq", o, tb.pf.get()); vec4 b = s.get("v");
    s.each([&](int t, int y, int x, int e) { const vec* p = tb.find(t, s.g.lats[y][x], s.g.lons[y][x]); if(!p) return; float v = a[t][y][x][e], g = b[t][y][x][e]; auto dd = [&] { return s.at(t, y, x, e) + " " + o + strf(" raw %g got %g", v, g) + sv(p); }; if(!allv(*p)) { c.okf(eq(g, v), "qq:missing-parameters", dd); return; } if(!cv(v)) { c.okf(!cv(g), "qq:missing", dd); return; }
        auto ob = [&](int i) { return (double) (*p)[2 * i]; }; auto fc = [&](int i) { return (double) (*p)[2 * i + 1]; }; double w; if(v > fc(0) && v < fc(n - 1)) { int i = 0; while(v >= fc(i + 1)) i++; w = ob(i) + (v - fc(i)) / (fc(i + 1) - fc(i)) * (ob(i + 1) - ob(i)); } else { bool low = v <= fc(0); double sl = pol == "zero" ? 0 : pol == "1to1" ? 1 : pol == "meanSlope" ? (ob(n - 1) - ob(0)) / (fc(n - 1) - fc(0)) : low ? (ob(1) - ob(0)) / (fc(1) - fc(0)) : (ob(n - 1) - ob(n - 2)) / (fc(n - 1) - fc(n - 2)); w = low ? ob(0) + sl * (v - fc(0)) : ob(n - 1) + sl * (v - fc(n - 1)); }
        c.near(g, w, 2e-4 + 1e-5 * std::fabs(w), "qq:value", dd); c.h(g); }); }
CASE(mask) { Rng& r = c.rng; S s(c, 7, 2, 3); double sp = s.g.Y > 1 ? gc(s.g.lats[0][0], s.g.lons[0][0], s.g.lats[1][0], s.g.lons[1][0]) : 5000; s.put("v", [&] { return maybe(r, 0.1, r.u(0, 5)); }); vec4 a = s.get("v"); Tab tb = table(r, s, [&] { return vec(1, sp * r.u(0, 3)); }, 1); int keep = r.i(0, 2); std::string o = keep == 2 ? "" : strf("keep=%d", keep); c.sample(s.d + " " + o); s.run("mask", o, tb.pf.get()); vec4 b = s.get("v");
    for(int t = 0; t < s.T; t++) for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { bool in = false, amb = false; int q = tb.tt(t); for(size_t k = 0; k < tb.locs.size(); k++) { double d = gc(tb.locs[k].lat(), tb.locs[k].lon(), s.g.lats[y][x], s.g.lons[y][x]), R = tb.val[k][q][0]; if(std::fabs(d - R) < dtol(d)) amb = true; if(d < R) in = true; } if(amb) continue; bool rem = keep == 0 ? in : !in;
        for(int e = 0; e < s.E; e++) c.okf(rem ? !cv(b[t][y][x][e]) : eq(b[t][y][x][e], a[t][y][x][e]), rem ? "mask:not-removed" : "mask:removed", [&] { return s.at(t, y, x, e) + " " + o; }); c.h(rem); } }
CASE(override) { Rng& r = c.rng; S s(c, 7, 2, 3, 3); s.put("v", [&] { return maybe(r, 0.1, r.u(0, 5)); }); vec4 a = s.get("v"); vec2 el = s.g.elevs; for(auto& row : el) for(auto& v : row) if(r.p(0.1)) v = MV; s.f->setElevs(el); int rad = 0; std::string o; float md = MV; if(r.p(0.7)) { rad = r.i(0, 3); o += strf("radius=%d", rad); } if(r.p(0.5)) { md = r.pick({0.3f, 0.7f, 50.0f, 300.0f}); o += strf(" maxElevDiff=%g", md); }
    Tab tb = table(r, s, [&] { return vec(1, maybe(r, 0.1, r.u(100, 200))); }, 1); if(cv(md) && md < 1) { for(size_t k = 0; k < tb.locs.size(); k++) tb.locs[k].elev(300 + r.u(-0.2, 0.2)); for(auto& row : el) for(auto& v : row) if(cv(v)) v = r.u(298, 302); s.f->setElevs(el); tb.build(); } c.sample(s.d + " " + o); s.run("override", o, tb.pf.get()); vec4 b = s.get("v");
    for(int t = 0; t < s.T; t++) { std::vector<std::vector<vec>> could(s.g.Y, std::vector<vec>(s.g.X)); std::vector<ivec> open(s.g.Y, ivec(s.g.X, 0)); int q = tb.tt(t); for(size_t k = 0; k < tb.locs.size(); k++) { if(!cv(tb.val[k][q][0])) continue; double bd = 1e30; int by = 0, bx = 0, cnt = 0; auto D = [&](int y, int x) { return gc(tb.locs[k].lat(), tb.locs[k].lon(), s.g.lats[y][x], s.g.lons[y][x]); }; for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) if(D(y, x) < bd) { bd = D(y, x); by = y; bx = x; } for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) if(D(y, x) <= bd + dtol(bd)) cnt++;
            bool amb = cnt > 1; for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { if(amb) { open[y][x] = 1; continue; } if(by == 0 || bx == 0 || by == s.g.Y - 1 || bx == s.g.X - 1) continue; if(std::abs(y - by) > rad || std::abs(x - bx) > rad) continue; if(cv(md)) { if(!cv(el[y][x])) continue; double ed = std::fabs((double) el[y][x] - tb.locs[k].elev()); if(std::fabs(ed - md) < 1e-3) { open[y][x] = 1; continue; } if(ed > md) continue; } could[y][x].push_back(tb.val[k][q][0]); } }
        for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { if(open[y][x]) continue; for(int e = 0; e < s.E; e++) { float g = b[t][y][x][e]; bool good = could[y][x].empty() && eq(g, a[t][y][x][e]); for(float v : could[y][x]) if(g == v) good = true; c.okf(good, could[y][x].empty() ? "override:changed" : "override:not-changed", [&] { return s.at(t, y, x, e) + " " + o + strf(" got %g was %g elev %g", g, a[t][y][x][e], el[y][x]); }); } c.h(could[y][x].size()); } } }
CASE(altitude) { Rng& r = c.rng; S s(c, 6, 1, 1); Tab tb = table(r, s, [&] { return vec(1, r.u()); }, 1, false, 8); s.put("v", [&] { return r.u(); }); vec4 a = s.get("v"); s.run("altitude", "", tb.pf.get()); vec2 el = s.f->getElevs(); c.sample(s.d);
    for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { double bd = 1e30; for(auto& l : tb.locs) bd = std::min(bd, gc(l.lat(), l.lon(), s.g.lats[y][x], s.g.lons[y][x])); bool good = false; for(auto& l : tb.locs) if(gc(l.lat(), l.lon(), s.g.lats[y][x], s.g.lons[y][x]) <= bd + dtol(bd) && l.elev() == el[y][x]) good = true; c.okf(good, "altitude:value", [&] { return s.at(0, y, x, 0) + strf(" got %g", el[y][x]); }); c.h(el[y][x]); } }
CASE(coastal) { Rng& r = c.rng; S s(c, 7, 2, 3); double m = r.pick({0.0, 0.0, 0.1}); s.put("v", [&] { return maybe(r, m, r.u(-10, 10)); }); vec2 laf = s.g.lafs; if(r.p(0.3)) for(auto& row : laf) for(auto& v : row) v = 0.5 + 0.05 * v; s.f->setLandFractions(laf); vec4 a = s.get("v"); int rad = 3; float md = 0.1f; bool nn = r.p(0.4); std::string o; if(r.p(0.7)) { rad = r.i(0, 4); o += strf("searchRadius=%d", rad); } if(r.p(0.4)) { md = r.pick({0.0f, 0.3f, 0.6f}); o += strf(" minLafDiff=%g", md); } if(nn) o += " useNN=1";
    Tab tb = table(r, s, [&] { return vec{(float) r.u(-2, 2), (float) r.u(-2, 2), (float) r.u(-2, 2)}; }, 1); c.sample(s.d + " " + o); s.run("coastal", o, tb.pf.get()); vec4 b = s.get("v");
    s.each([&](int t, int y, int x, int e) { const vec* p = tb.find(t, s.g.lats[y][x], s.g.lons[y][x]); if(!p) return; float lo = 2, hi = -1, lv = MV, hv = MV; int nlo = 0, nhi = 0; for(int k = 0; k < 2; k++) for(int i = std::max(0, y - rad); i <= std::min(s.g.Y - 1, y + rad); i++) for(int j = std::max(0, x - rad); j <= std::min(s.g.X - 1, x + rad); j++) { float l = laf[i][j]; if(k) { nlo += l == lo; nhi += l == hi; continue; } if(l < lo) { lo = l; lv = a[t][i][j][e]; } if(l > hi) { hi = l; hv = a[t][i][j][e]; } } if(nlo > 1 || nhi > 1) return; if(std::fabs((hi - lo) - md) < 1e-5) { if(hi != lo) return; }
        double gr = cv(lv) && cv(hv) && hi - lo > md ? ((double) hv - lv) / ((double) hi - lo) : 0; float base = nn ? a[t][y][x][e] : lv, g = b[t][y][x][e]; auto dd = [&] { return s.at(t, y, x, e) + " " + o + sv(p) + strf(" base %g gradient %g got %g", base, gr, g); }; if(!cv(base)) { c.okf(!cv(g), "coastal:missing", dd); return; } double w = (*p)[0] + (*p)[1] * base + (*p)[2] * gr; double mag = std::fabs((*p)[0]) + std::fabs((*p)[1] * base) + std::fabs((*p)[2] * gr); c.near(g, w, 1e-5 * (1 + mag) + 1e-6 * std::fabs((*p)[2]) * 40 / std::max(1e-3, (double) hi - lo), "coastal:value", dd); c.h(g); }); }

// ---------------------------------------------------------------- ensembles
// got must hold the expected values (tolerance per value) in the rank order of raw
static void ranked(Ctx& c, const char* nm, const vec& raw, const vec& got, const std::vector<double>& want, const std::vector<double>& tol, const std::function<std::string()>& dd) {
    std::vector<double> g(got.begin(), got.end()); std::sort(g.begin(), g.end()); for(size_t e = 0; e < g.size(); e++) if(!c.okf(cv(g[e]) && std::fabs(g[e] - want[e]) <= tol[e], std::string(nm) + ":value", [&] { return dd() + strf(" rank %d got %.8g want %.8g", (int) e, g[e], want[e]) + " raw " + str(raw) + " got " + str(got); })) return;
    for(size_t i = 0; i < raw.size(); i++) for(size_t j = 0; j < raw.size(); j++) if(raw[i] < raw[j] && got[i] > got[j]) { c.okf(false, std::string(nm) + ":order", [&] { return dd() + " raw " + str(raw) + " got " + str(got); }); return; }
}
static bool same(const vec& a, const vec& b) { for(size_t i = 0; i < a.size(); i++) if(!eq(a[i], b[i])) return false; return true; }
CASE(gaussian) { Rng& r = c.rng; S s(c, 4, 8, 3); double m = r.pick({0.0, 0.0, 0.1}); double base = r.pick({5.0, 5.0, 20.0, -3.0, 0.5, 280.0}); bool eqs = r.p(0.15); float cst = base; s.put("v", [&] { return maybe(r, m, eqs ? cst : base + r.u(-4, 4)); }); vec4 a = s.get("v"); int nb = 0; std::string o; if(r.p(0.4)) { nb = r.i(0, 2); o = strf("neighbourhoodSize=%d", nb); } double pm = r.pick({0.0, 0.1}); Tab tb = table(r, s, [&] { return vec{maybe(r, pm, r.u(-2, 1)), (float) r.u(-0.5, 0.8)}; }, -1, true); c.sample(s.d + " " + o); s.run("gaussian", o, tb.pf.get()); vec4 b = s.get("v");
    for(int t = 0; t < s.T; t++) for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { const vec* p = tb.find(t, s.g.lats[y][x], s.g.lons[y][x]); if(!p) continue; const vec &raw = a[t][y][x], &got = b[t][y][x]; std::vector<double> v; for(int i = std::max(0, y - nb); i <= std::min(s.g.Y - 1, y + nb); i++) for(int j = std::max(0, x - nb); j <= std::min(s.g.X - 1, x + nb); j++) for(float q : a[t][i][j]) if(cv(q)) v.push_back(q);
        auto dd = [&] { return s.at(t, y, x, 0) + " " + o + sv(p); }; if(!allv(raw)) { c.okf(same(raw, got), "gaussian:missing-members", [&] { return dd() + " raw " + str(raw) + " got " + str(got); }); continue; } double mn = 0, q2 = 0, big = 0; for(double q : v) { mn += q; big = std::max(big, std::fabs(q)); } mn /= v.size(); for(double q : v) q2 += (q - mn) * (q - mn); double sd = std::sqrt(q2 / v.size());
        if(std::fabs(mn) < 1e-5) continue; if(!allv(*p) || mn < 0) { c.okf(same(raw, got), "gaussian:not-applicable", [&] { return dd() + " raw " + str(raw) + " got " + str(got); }); continue; }
        double sg = std::exp((*p)[0] + (*p)[1] * sd), esd = std::min(std::sqrt(4e-14) * big, 4e-14 * big * big / std::max(1e-9, sd)) * 0.5 + 1e-4 * sd; std::vector<double> w, tol; for(int e = 0; e < s.E; e++) { double z = boost::math::quantile(boost::math::normal(0, 1), (e + 0.5) / s.E); w.push_back(mn + sg * z); tol.push_back(1e-5 * (std::fabs(mn) + sg * 4) + std::fabs(z) * sg * (std::exp(std::fabs((*p)[1]) * esd) - 1) + 1e-5); } ranked(c, "gaussian", raw, got, w, tol, dd); c.h(w[0]); } }
CASE(bct) { Rng& r = c.rng; S s(c, 4, 8, 3); double m = r.pick({0.0, 0.0, 0.1}); double base = r.pick({6.0, 6.0, 20.0, 150.0}); bool eqs = r.p(0.1); float cst = base; s.put("v", [&] { return maybe(r, m, eqs ? cst : std::max(0.0, base + r.u(-5, 5))); }); vec4 a = s.get("v"); float mx = 100; std::string o; if(r.p(0.4)) { mx = r.i(3, 200); o = strf("maxEnsMean=%g", mx); } double pm = r.pick({0.0, 0.0, 0.03}); bool z0 = r.p(0.2); Tab tb = table(r, s, [&] { vec p{(float) r.u(0, 1), (float) r.u(0.6, 1.2), (float) r.u(-2.5, -0.7), (float) r.u(-0.1, 0.4), (float) r.u(-1, 1.2), (float) r.u(-0.02, 0.02), (float) r.u(1, 12)}; if(z0) p[4] = p[5] = 0; for(auto& q : p) q = maybe(r, pm, q); return p; }, -1, true); c.sample(s.d + " " + o); s.run("bct", o, tb.pf.get()); vec4 b = s.get("v");
    for(int t = 0; t < s.T; t++) for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { const vec* pp = tb.find(t, s.g.lats[y][x], s.g.lons[y][x]); if(!pp) continue; const vec &raw = a[t][y][x], &got = b[t][y][x], &p = *pp; auto dd = [&] { return s.at(t, y, x, 0) + " " + o + sv(pp); }; if(!allv(raw) || !allv(p)) { c.okf(same(raw, got), "bct:missing", [&] { return dd() + " raw " + str(raw) + " got " + str(got); }); continue; }
        double mn = 0, q2 = 0; for(float q : raw) mn += q; mn /= s.E; for(float q : raw) q2 += (q - mn) * (q - mn); double sd = std::sqrt(q2 / s.E); if(s.E == 1 || eqs) sd = 0; double me = std::min(mn, (double) mx); if(sd > 0 && sd < 1e-2) continue;
        double mu = p[0] + p[1] * me, sg = std::exp(p[2] + p[3] * std::pow(sd, 1.0 / 3)), nu = p[4] + p[5] * me, ta = std::exp(std::min(p[6], 10.0f)); if(nu != 0 && std::fabs(nu) < 0.05) continue; if(eqs && sg > 0) { } boost::math::students_t_distribution<> dist(ta); std::vector<double> w, tol; bool bad = false, amb = false; double F = nu == 0 ? 1 : boost::math::cdf(dist, 1.0 / (sg * std::fabs(nu)));
        for(int e = 0; e < s.E; e++) { double q = (e + 0.5) / s.E, qz = nu <= 0 ? q * F : 1 - (1 - q) * F, z = boost::math::quantile(dist, qz), bs = 1 + sg * nu * z, v = nu == 0 ? mu * std::exp(sg * z) : bs > 0 ? mu * std::pow(bs, 1 / nu) : NaNd; if(nu != 0 && bs < 0.05) amb = true; if(!(std::fabs(v) < 1e6)) bad = true; w.push_back(v); tol.push_back(1e-3 * std::fabs(v) * (1 + 0.05 / std::max(0.05, std::fabs(nu ? nu : 1))) + 1e-4 + (eqs ? 1e-2 * std::fabs(v) : 0)); }
        if(amb || bad) continue; ranked(c, "bct", raw, got, w, tol, dd); c.h(w[0]); } }
CASEW(zaga, 2) { Rng& r = c.rng; S s(c, 4, 6, 9); double m = r.pick({0.0, 0.0, 0.03}); double dry = r.pick({0.1, 0.5, 0.9, 1.0}), amt = r.pick({2.0, 2.0, 10.0, 200.0}); s.put("v", [&] { return maybe(r, m, r.p(dry) ? 0 : amt * r.u()); }); vec4 a = s.get("v"); std::string o; float ft = 0.5, pt = 0.5, mx = 100; int nb = 0; bool pop = r.p(0.5), six = r.p(0.3); if(r.p(0.3)) { ft = r.pick({0.1f, 1.0f, 5.0f}); o += strf("fracThreshold=%g ", ft); } if(r.p(0.3)) { nb = r.i(0, 2); o += strf("neighbourhoodSize=%d ", nb); } if(r.p(0.3)) { mx = r.pick({1.0f, 5.0f, 300.0f}); o += strf("maxEnsMean=%g ", mx); } if(six) o += "6h=1 ";
    float qs[3] = {MV, MV, MV}; const char* qn[3] = {"precipLowQuantile", "precipMiddleQuantile", "precipHighQuantile"}; const char* vn[3] = {"lowVariable", "middleVariable", "highVariable"}; const char* on[3] = {"ql", "qm", "qh"}; if(pop) { o += "popVariable=pop "; for(const char* q : {"pop", "ql", "qm", "qh"}) s.outs.insert(q); s.put("pop", [&] { return MV; }); if(r.p(0.4)) { pt = r.pick({0.0f, 0.1f, 1.0f, 5.0f}); o += strf("popThreshold=%g ", pt); } for(int k = 0; k < 3; k++) if(r.p(0.4)) { qs[k] = r.pick({0.1f, 0.5f, 0.9f, 0.95f}); o += strf("%s=%g %s=%s ", qn[k], qs[k], vn[k], on[k]); s.put(on[k], [&] { return MV; }); } }
    Tab tb = table(r, s, [&] { vec p{(float) r.u(-0.5, 1), (float) r.u(0, 1), (float) r.u(-1, 0.3), (float) r.u(-0.02, 0.01), (float) r.u(-3, 3), (float) r.u(-0.3, 0.1), (float) r.u(-1, 2), (float) r.u(-1, 1)}; if(r.p(0.03)) p[r.i(0, 7)] = MV; return p; }, -1, true); c.sample(s.d + " " + o); s.run("zaga", o, tb.pf.get()); vec4 b = s.get("v"), P, Q[3]; if(pop) { P = s.get("pop"); for(int k = 0; k < 3; k++) if(cv(qs[k])) Q[k] = s.get(on[k]); }
    for(int t = 0; t < s.T; t++) for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { const vec* pp = tb.find(t, s.g.lats[y][x], s.g.lons[y][x]); if(!pp) continue; const vec &raw = a[t][y][x], &got = b[t][y][x], &p = *pp; auto dd = [&] { return s.at(t, y, x, 0) + " " + o + sv(pp) + " raw " + str(raw) + " got " + str(got); };
        int win = six && pop ? 6 : 1; if(pop) c.okf(same(raw, got), "zaga:precipitation-changed-by-pop", dd); if(t - win + 1 < 0) { for(int e = 0; e < s.E; e++) c.okf(!cv(P[t][y][x][e]), "zaga:pop-before-window", dd); continue; }
        double mn = 0, fr = 0; int n = 0; bool miss = false; for(int e = 0; e < s.E; e++) for(int i = std::max(0, y - nb); i <= std::min(s.g.Y - 1, y + nb); i++) for(int j = std::max(0, x - nb); j <= std::min(s.g.X - 1, x + nb); j++) { double q = 0; for(int k = t - win + 1; k <= t; k++) { if(!cv(a[k][i][j][e])) miss = true; q += a[k][i][j][e]; } mn += q; if(q <= ft) fr++; n++; } if(miss) { if(!pop) c.okf(same(raw, got), "zaga:missing-members", dd); continue; }
        mn = std::min(mn / n, (double) mx); fr /= n; if(!allv(p)) { if(pop) c.okf(!cv(P[t][y][x][0]), "zaga:missing-parameters", dd); else c.okf(same(raw, got), "zaga:missing-parameters", dd); continue; }
        double c3 = std::cbrt(mn), P0 = 1 / (1 + std::exp(-(p[4] + p[5] * mn + p[6] * fr + p[7] * c3))), mu = std::exp(p[0] + p[1] * c3), sg = std::exp(p[2] + p[3] * mn), sh = 1 / (sg * sg), sc = sg * sg * mu; if(sh > 1e5 || sh < 1e-3) continue; boost::math::gamma_distribution<> dist(sh, sc);
        auto inv = [&](double q, double& tol, bool& amb) { if(std::fabs(q - P0) < 1e-3 * (1 - P0) + 1e-6) amb = true; if(q < P0) { tol = 1e-6; return 0.0; } double u = (q - P0) / (1 - P0), v = boost::math::quantile(dist, u), eps = 1e-6 + 1e-6 / (1 - P0); double hi = boost::math::quantile(dist, std::min(1 - 1e-9, u + eps)), lo = boost::math::quantile(dist, std::max(1e-12, u - eps)); tol = 1e-3 * v + (hi - lo) + 1e-5; return v; };
        if(pop) { double F = pt < 0 ? 0 : pt == 0 ? P0 : P0 + (1 - P0) * boost::math::cdf(dist, pt); for(int e = 0; e < s.E; e++) c.near(P[t][y][x][e], 1 - F, 2e-4, "zaga:pop", dd); for(int k = 0; k < 3; k++) if(cv(qs[k])) { double tol; bool amb = false; double v = inv(qs[k], tol, amb); if(!amb) for(int e = 0; e < s.E; e++) c.near(Q[k][t][y][x][e], v, tol, strf("zaga:%s", on[k]), dd); } c.h(F); }
        else { std::vector<double> w, tol; bool amb = false; for(int e = 0; e < s.E; e++) { double q; w.push_back(inv((e + 0.5) / s.E, q, amb)); tol.push_back(q); } if(!amb) ranked(c, "zaga", raw, got, w, tol, dd); c.h(w.back()); } } }
CASE(shuffle) { Rng& r = c.rng; int n = r.i(0, 12); bool in = r.p(0.5); auto g = [&] { return in ? (float) r.i(-3, 3) : (float) r.u(-5, 5); }; vec a, b; double m = r.pick({0.0, 0.0, 0.1}); for(int i = 0; i < n; i++) a.push_back(maybe(r, m, g())); int n2 = r.p(0.1) ? r.i(0, 12) : n; for(int i = 0; i < n2; i++) b.push_back(maybe(r, m, g())); vec b0 = b; Calibrator::shuffle(a, b); auto dd = [&] { return "before " + str(a) + " after " + str(b0) + " became " + str(b); }; c.sample(dd());
    if((int) b.size() != n2) { c.okf(false, "shuffle:size", dd); return; } if(n2 != n || !allv(a) || !allv(b0)) { c.okf(same(b, b0), "shuffle:unchanged", dd); return; } vec x = b, y = b0; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); c.okf(x == y, "shuffle:values", dd); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(a[i] < a[j]) c.okf(b[i] <= b[j], "shuffle:order", dd); c.h(b); }

// ---------------------------------------------------------------- spreading point values
static bool solve(std::vector<std::vector<double>> A, std::vector<std::vector<double>>& inv, double& cond) { int n = A.size(); inv.assign(n, std::vector<double>(n, 0)); for(int i = 0; i < n; i++) inv[i][i] = 1; double mxp = 0, mnp = 1e30; for(int i = 0; i < n; i++) { int p = i; for(int k = i; k < n; k++) if(std::fabs(A[k][i]) > std::fabs(A[p][i])) p = k; if(A[p][i] == 0) return false; std::swap(A[p], A[i]); std::swap(inv[p], inv[i]); mxp = std::max(mxp, std::fabs(A[i][i])); mnp = std::min(mnp, std::fabs(A[i][i])); for(int k = 0; k < n; k++) if(k != i) { double f = A[k][i] / A[i][i]; for(int j = 0; j < n; j++) { A[k][j] -= f * A[i][j]; inv[k][j] -= f * inv[i][j]; } } } for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) inv[i][j] /= A[i][i]; cond = mxp / mnp; return cond < 50; }
static double approx(double la1, double lo1, double la2, double lo2) { double dx = std::cos((la1 + la2) / 2 * D2R) * (lo1 - lo2) * D2R, dy = (la1 - la2) * D2R; return RE * std::sqrt(dx * dx + dy * dy); }
CASEW(kriging, 2) { Rng& r = c.rng; S s(c, 5, 3, 4); double sp = s.g.Y > 1 ? gc(s.g.lats[0][0], s.g.lons[0][0], s.g.lats[1][0], s.g.lons[1][0]) : 5000; double m = r.pick({0.0, 0.1}); s.put("v", [&] { return maybe(r, m, r.u(1, 10)); }); s.put("aux", [&] { return maybe(r, m, r.u(0, 1)); }); vec4 a = s.get("v"), X = s.get("aux"); std::string op = r.pick({std::string("add"), std::string("subtract"), std::string("multiply"), std::string("divide"), std::string("")}), ty = r.pick({std::string("cressman"), std::string("barnes"), std::string("")}); std::string o; if(!op.empty()) o += "operator=" + op; else op = "add"; if(!ty.empty()) o += " type=" + ty; else ty = "cressman";
    float rad = std::round(sp * r.u(0.5, 6)), ef = std::round(sp * r.u(0.5, 4)); o += strf(" radius=%.0f efoldDist=%.0f", rad, ef); float me = MV; if(r.p(0.5)) { me = r.i(50, 500); o += strf(" maxElevDiff=%g", me); } bool cross = r.p(0.3), aux = r.p(0.4), ad = true; if(cross) o += " crossValidate=1"; if(r.p(0.3)) { ad = r.p(0.5); o += strf(" approxDist=%d", ad); } float lo = 0.2f, hi = 0.7f; int win = 0; if(aux) { o += " auxVariable=aux range=0.2,0.7"; if(r.p(0.5)) { win = r.i(0, 2); o += strf(" window=%d", win); } }
    bool mult = op == "multiply" || op == "divide"; Tab tb = table(r, s, [&] { return vec(1, mult ? r.u(0.6, 1.6) : r.u(-3, 3)); }, 1, true, 5); c.sample(s.d + " " + o); if(!s.run("kriging", o, tb.pf.get())) { c.ok(false, "kriging:refused", s.d + o); return; } vec4 b = s.get("v");
    double ce = 1.3 / ef * (1 + 1e-6 * rad) + 1e-6; int N = tb.locs.size(); bool amb = false; auto dist = [&](float la1, float lo1, float la2, float lo2) { return ad ? approx(la1, lo1, la2, lo2) : gc(la1, lo1, la2, lo2); };
    auto cov = [&](float la1, float lo1, float e1, float la2, float lo2, float e2, bool& edge) { double h = dist(la1, lo1, la2, lo2), v = std::fabs((double) e1 - e2), t = dtol(h) * 1e-0; if(std::fabs(h - rad) < t || (ty == "cressman" && std::fabs(h - ef) < t) || (cv(me) && std::fabs(v - me) < 1e-3)) edge = true; if(h >= rad || (cv(me) && v >= me)) return 0.0; double w = 1; if(ty == "cressman") { if(h > ef) return 0.0; w = ((double) ef * ef - h * h) / ((double) ef * ef + h * h); if(cv(me)) w *= ((double) me * me - v * v) / ((double) me * me + v * v); } else { w = std::exp(-h * h / (2.0 * ef * ef)); if(cv(me)) w *= std::exp(-v * v / (2.0 * me * me)); } return w; };
    std::vector<std::vector<double>> M(N, std::vector<double>(N, 0)), I; for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) M[i][j] = i == j ? 1 : 0.828 * cov(tb.locs[i].lat(), tb.locs[i].lon(), tb.locs[i].elev(), tb.locs[j].lat(), tb.locs[j].lon(), tb.locs[j].elev(), amb); if(amb) return; double cond; if(!solve(M, I, cond)) return;
    for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { bool edge = false; std::vector<double> sv_(N); for(int k = 0; k < N; k++) sv_[k] = cov(tb.locs[k].lat(), tb.locs[k].lon(), tb.locs[k].elev(), s.g.lats[y][x], s.g.lons[y][x], s.g.elevs[y][x], edge); if(edge) continue; std::vector<std::vector<double>> J = I; int near = -1; bool any = false; for(int k = 0; k < N; k++) if(sv_[k] > 0) any = true;
        if(cross && any) { double best = 0; int cnt = 0; for(int k = 0; k < N; k++) if(sv_[k] > best) { best = sv_[k]; near = k; } for(int k = 0; k < N; k++) if(best - sv_[k] < 1e-4 + 3 * ce) cnt++; if(cnt > 1) continue; std::vector<std::vector<double>> C = M; for(int k = 0; k < N; k++) C[near][k] = C[k][near] = 0; C[near][near] = 1; double cd; if(!solve(C, J, cd)) continue; sv_[near] = 0; }
        for(int t = 0; t < s.T; t++) { int q = tb.tt(t); double fb = 0, mag = 0, ferr = 0; std::vector<double> W(N, 0); double sw = 0; for(int i = 0; i < N; i++) { for(int j = 0; j < N; j++) W[i] += J[i][j] * sv_[j]; sw += std::fabs(W[i]); } for(int i = 0; i < N; i++) { double w = 0, wm = 0, we = 0; for(int j = 0; j < N; j++) { w += J[i][j] * sv_[j]; wm += std::fabs(J[i][j] * sv_[j]); we += std::fabs(J[i][j]) * ce * (1 + sw); } if(i == near) w = wm = 0; double bias = tb.val[i][q].empty() ? 0 : tb.val[i][q][0] - (mult ? 1 : 0); fb += bias * w; mag += std::fabs(bias) * wm; if(i != near) ferr += std::fabs(bias) * we; } if(mult) fb += 1;
            for(int e = 0; e < s.E; e++) { float v = a[t][y][x][e], g = b[t][y][x][e]; auto dd = [&] { return s.at(t, y, x, e) + o + strf(" raw %g bias %g", v, fb) + strf(" locations %d", N); }; if(!cv(v)) { c.okf(!cv(g), "kriging:missing", dd); continue; } if(!any) { c.okf(g == v, "kriging:out-of-reach", dd); continue; }
                double w = 1; if(aux) { double tot = 0; int n = 0; for(int k = std::max(0, t - win); k <= std::min(s.T - 1, t + win); k++) { float z = X[k][y][x][e]; if(cv(z)) { n++; if(z >= lo && z <= hi) tot++; } } w = n ? tot / n : 1; } if(mult && fb < 0.05) continue; double f = mult ? std::pow(fb, w) : fb * w; double want = op == "add" ? v + f : op == "subtract" ? v - f : op == "multiply" ? v * f : v / f; c.near(g, want, 2e-5 * std::fabs(v) + (mult ? std::fabs(want) / std::max(0.05, f) : 1) * (2e-5 * (mag + 0.05) * cond + 2 * ferr), "kriging:" + op + (cross ? "-crossvalidate" : "") + (aux ? "-aux" : ""), dd); c.h(g); } } } }

// ---------------------------------------------------------------- optimal interpolation
static void jacobi(std::vector<std::vector<double>> a, std::vector<double>& w, std::vector<std::vector<double>>& v) {
    int n = a.size(); v.assign(n, std::vector<double>(n, 0)); for(int i = 0; i < n; i++) v[i][i] = 1;
    for(int sweep = 0; sweep < 60; sweep++) { double off = 0, dg = 0; for(int i = 0; i < n; i++) for(int j = 0; j <= i; j++) (i == j ? dg : off) += a[i][j] * a[i][j]; if(off <= 1e-28 * dg) break;
        for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) { if(a[p][q] == 0) continue; double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), cc = 1 / std::sqrt(t * t + 1), s = t * cc;
            for(int k = 0; k < n; k++) { double x = a[k][p], y = a[k][q]; a[k][p] = cc * x - s * y; a[k][q] = s * x + cc * y; } for(int k = 0; k < n; k++) { double x = a[p][k], y = a[q][k]; a[p][k] = cc * x - s * y; a[q][k] = s * x + cc * y; } for(int k = 0; k < n; k++) { double x = v[k][p], y = v[k][q]; v[k][p] = cc * x - s * y; v[k][q] = s * x + cc * y; } } }
    w.resize(n); for(int i = 0; i < n; i++) w[i] = a[i][i];
}
typedef std::vector<std::vector<double>> MM;
// ensemble-transform analysis: members x, observation-space perturbations Y (n x N), innovations d, inverse observation covariance R
static std::vector<double> etkf(const std::vector<double>& x, const MM& Y, const std::vector<double>& d, const MM& R, double delta) {
    int N = x.size(), n = Y.size(); MM A(N, std::vector<double>(N, 0)), C(N, std::vector<double>(n, 0)), v; std::vector<double> w; for(int a = 0; a < N; a++) for(int j = 0; j < n; j++) for(int i = 0; i < n; i++) C[a][j] += Y[i][a] * R[i][j];
    for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) { for(int i = 0; i < n; i++) A[a][b] += C[a][i] * Y[i][b]; if(a == b) A[a][b] += (N - 1) / delta; } for(int a = 0; a < N; a++) for(int b = 0; b < a; b++) A[a][b] = A[b][a] = (A[a][b] + A[b][a]) / 2; jacobi(A, w, v);
    std::vector<double> g(N, 0), ww(N, 0), o; for(int a = 0; a < N; a++) for(int i = 0; i < n; i++) g[a] += C[a][i] * d[i]; for(int a = 0; a < N; a++) for(int b = 0; b < N; b++) for(int k = 0; k < N; k++) ww[a] += v[a][k] * v[b][k] / w[k] * g[b];
    double xm = 0; for(double q : x) xm += q / N; for(int e = 0; e < N; e++) { double t = xm; for(int a = 0; a < N; a++) { double W = ww[a]; for(int k = 0; k < N; k++) W += v[a][k] * v[e][k] * std::sqrt((N - 1) / w[k]); t += (x[a] - xm) * W; } o.push_back(t); } return o;
}
CASEW(oi, 3) {
    Rng& r = c.rng; S s(c, 8, 8, 2, 3); double sp = gc(s.g.lats[0][0], s.g.lons[0][0], s.g.lats[1][0], s.g.lons[1][0]); bool box = r.p(0.25), tens = r.p(0.5); std::string o; float d = 30000, h = 100, w = 0.2, wmin = MV, eps = 0.5, sig = 1, sigC = 1, del = 1, eg = MV, med = 200, dc = 10000, minRho = 0.0013, lam = 0.5; int ml = 20, me = 5; bool soar = false, cross = false, land = false, ens = true, extra = false;
    vec2 laf = s.g.lafs, el = s.g.elevs; bool sea = r.p(0.5); for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) { laf[y][x] = sea ? (r.p(0.4) ? 0.0 : r.u()) : r.u(0.8, 1); el[y][x] = r.u(0, 150); } s.f->setLandFractions(laf); s.f->setElevs(el);
    if(r.p(0.9)) { d = std::round(std::max(4000.0, sp * std::exp(r.u(-0.5, 2)))); o += strf("d=%.0f ", d); } if(r.p(0.5)) { h = r.p(0.4) ? -999 : r.i(50, 500); o += strf("h=%g ", h); } if(r.p(0.5)) { w = r.p(0.4) ? -999.0f : r.pick({0.5f, 1.0f}); o += strf("w=%g ", w); } if(r.p(0.3)) { wmin = r.pick({0.5f, 0.8f}); o += strf("wmin=%g ", wmin); } if(r.p(0.4)) { eps = r.pick({0.3f, 0.7f, 1.0f}); o += strf("epsilon=%g ", eps); } if(r.p(0.3)) { ml = r.i(1, 6); o += strf("maxLocations=%d ", ml); } if(r.p(0.2)) { minRho = r.pick({0.1f, 0.3f, 0.0001f}); o += strf("minRho=%g ", minRho); }
    if(r.p(0.3)) { soar = r.p(0.5); o += soar ? "rhoType=soar " : "rhoType=gaussian "; } if(r.p(0.2)) { cross = true; o += "crossValidate=1 "; } if(r.p(0.2)) { land = true; o += "landOnly=1 "; } if(r.p(0.3)) { med = r.p(0.4) ? -999 : r.i(20, 400); o += strf("maxElevDiff=%g ", med); } if(!box && r.p(0.3)) { eg = -0.0065; o += "elevGradient=-0.0065 "; } if(r.p(0.3)) { sig = r.pick({0.5f, 2.0f}); o += strf("sigma=%g ", sig); sigC = sig; } if(r.p(0.2)) { sigC = r.pick({0.7f, 1.5f}); o += strf("sigmaC=%g ", sigC); } if(r.p(0.2)) { del = r.pick({0.5f, 2.0f}); o += strf("delta=%g ", del); } if(r.p(0.2)) { dc = std::round(sp * 2); o += strf("dc=%.0f ", dc); }
    if(r.p(0.4)) { me = r.i(2, 9); o += strf("minEns=%d ", me); } if(!tens) { ens = !r.p(0.5); if(!ens) o += "useEns=0 "; } if(r.p(0.4)) { extra = true; o += "extrapolate=1 "; } int bad = s.E > 1 && r.p(0.2) ? r.i(0, s.E - 1) : -1; if(box) { o += "transform=boxcox boxCoxThreshold=0 "; if(r.p(0.4)) { lam = r.pick({0.2f, 0.8f}); o += strf("lambda=%g ", lam); } }
    int nv = s.E - (bad >= 0); bool single = !ens || nv < me; if(box && single && r.p(0.9)) { box = false; o.erase(o.find("transform=boxcox")); }
    int cnt = 0; s.put("v", [&] { int e = cnt++ % s.E; return e == bad ? MV : box ? (float) std::max(0.0, r.u(-1, 6)) : (float) (r.u(-3, 3) + 280 + e); }); vec4 a = s.get("v"); int np = single ? r.i(1, 2) : r.i(2, 3);
    Tab tb; tb.local = true; int L = r.i(1, 10); ivec Y, X; for(int k = 0; k < L; k++) { int y = r.i(0, s.g.Y - 1), x = r.i(0, s.g.X - 1); double b = 0.4; float la = s.g.lats[y][x], lo = s.g.lons[y][x]; if(r.p(0.8)) { int y2 = y > 0 ? y - 1 : y + 1, x2 = x > 0 ? x - 1 : x + 1; double fy = r.u(-b, b), fx = r.u(-b, b); la += fy * (s.g.lats[y2][x] - la) + fx * (s.g.lats[y][x2] - la); lo += fy * (s.g.lons[y2][x] - s.g.lons[y][x]) + fx * (s.g.lons[y][x2] - s.g.lons[y][x]); }
        double bd = 1e30; int by = 0, bx = 0, n = 0; for(int i = 0; i < s.g.Y; i++) for(int j = 0; j < s.g.X; j++) { double q = gc(la, lo, s.g.lats[i][j], s.g.lons[i][j]); if(q < bd) { bd = q; by = i; bx = j; } } for(int i = 0; i < s.g.Y; i++) for(int j = 0; j < s.g.X; j++) if(gc(la, lo, s.g.lats[i][j], s.g.lons[i][j]) <= bd + dtol(bd)) n++; if(n > 1) continue; bool dup = false; for(auto& q : tb.locs) if(q.lat() == la && q.lon() == lo) dup = true; if(dup) continue;
        float oe = el[by][bx] + r.u(-50, 50); if(r.p(0.1)) oe += 300; if(cv(med) && std::fabs(std::fabs(oe - el[by][bx]) - med) < 1e-2) continue; vec p(1, maybe(r, 0.1, box ? (float) std::max(0.0, r.u(-1, 6)) : (float) (280 + r.u(-8, 10)))); if(np > 1) p.push_back(r.u(0.5, 2)); if(np > 2) p.push_back(r.p(0.5) ? 1 : 0); tb.locs.push_back(Location(la, lo, oe)); tb.val.push_back(std::vector<vec>(1, p)); Y.push_back(by); X.push_back(bx); }
    if(tb.locs.empty()) return; tb.build(); L = tb.locs.size(); c.sample(s.d + " " + o); if(!s.run("oi", o, tb.pf.get())) { c.ok(false, "oi:refused", s.d + o); return; } vec4 b = s.get("v");
    int gr = std::sqrt(-2 * std::log((double) minRho)) * d / sp - 1e-4; std::vector<bool> use(L); auto tr = [&](double v) { return box ? (std::pow(std::max(0.0, v), (double) lam) - 1) / lam : v; }; auto inv = [&](double v) { return box ? std::max(0.0, std::pow(std::max(0.0, 1 + lam * v), 1.0 / lam)) : v; };
    for(int k = 0; k < L; k++) use[k] = cv(tb.val[k][0][0]) && Y[k] > 0 && X[k] > 0 && Y[k] < s.g.Y - 1 && X[k] < s.g.X - 1 && (!cv(med) || std::fabs(tb.locs[k].elev() - el[Y[k]][X[k]]) < med) && !(land && laf[Y[k]][X[k]] == 0);
    auto rho = [&](double la1, double lo1, double e1, double f1, double la2, double lo2, double e2, double f2) { double q = approx(la1, lo1, la2, lo2) / d, v = soar ? (1 + q) * std::exp(-q) : std::exp(-q * q / 2), l = f1 - f2; if(cv(h)) v *= std::exp(-(e1 - e2) * (e1 - e2) / (2.0 * h * h)); if(cv(wmin)) v *= 1 - (1 - (double) wmin) * std::fabs(l); if(cv(w)) v *= std::exp(-l * l / (2.0 * w * w)); return v; };
    double er = 1.0 / d + 1e-6; ivec vm; for(int e = 0; e < s.E; e++) if(e != bad) vm.push_back(e);
    for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) {
        std::vector<std::pair<double, int>> sel; bool amb = false; for(int k = 0; k < L; k++) { if(!use[k]) continue; double p = rho(tb.locs[k].lat(), tb.locs[k].lon(), tb.locs[k].elev(), laf[Y[k]][X[k]], s.g.lats[y][x], s.g.lons[y][x], el[y][x], laf[y][x]); if(std::fabs(p - minRho) < er) { amb = true; break; } if(p < minRho) continue; if(std::abs(y - Y[k]) >= gr || std::abs(x - X[k]) >= gr) { amb = true; break; } sel.push_back({-p, k}); } if(amb) continue; std::sort(sel.begin(), sel.end());
        if(cross && !sel.empty()) { if(sel.size() > 1 && sel[1].first - sel[0].first < 2 * er) continue; sel.erase(sel.begin()); } if((int) sel.size() > ml) { if(sel[ml].first - sel[ml - 1].first < 2 * er) continue; sel.resize(ml); } int n = sel.size();
        for(int t = 0; t < s.T; t++) { auto dd = [&] { return s.at(t, y, x, 0) + " " + o + strf("locations %d used %d parameters %d bad member %d", L, n, np, bad) + " raw " + str(a[t][y][x]) + " got " + str(b[t][y][x]); }; const vec &raw = a[t][y][x], &got = b[t][y][x];
            if(box && single) { for(int e : vm) c.okf(cv(got[e]) && got[e] >= 0, "oi:boxcox-single-bounds", dd); continue; }
            if(bad >= 0) c.okf(!cv(got[bad]), "oi:missing-member", dd); if(n == 0) { for(int e : vm) c.near(got[e], raw[e], 1e-5 * std::fabs(raw[e]) + (box ? 1e-5 : 0), "oi:no-observations", dd); continue; }
            MM F(n, std::vector<double>(s.E, 0)); std::vector<double> ob(n); for(int i = 0; i < n; i++) { int k = sel[i].second; ob[i] = tr(tb.val[k][0][0]); for(int e : vm) F[i][e] = tr(a[t][Y[k]][X[k]][e]) + (cv(eg) ? (double) eg * ((double) tb.locs[k].elev() - el[Y[k]][X[k]]) : 0); }
            if(single) { MM M(n, std::vector<double>(n)), I; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { int p = sel[i].second, q = sel[j].second; M[i][j] = rho(tb.locs[p].lat(), tb.locs[p].lon(), tb.locs[p].elev(), laf[Y[p]][X[p]], tb.locs[q].lat(), tb.locs[q].lon(), tb.locs[q].elev(), laf[Y[q]][X[q]]); if(i == j) M[i][j] += (double) eps * eps * (np == 2 ? tb.val[p][0][1] : 1); } double cond; if(!solve(M, I, cond)) continue;
                for(int e : vm) { double inc = 0, zs = 0, ws = 0; for(int i = 0; i < n; i++) { double z = 0, ww = 0; for(int j = 0; j < n; j++) { z += I[i][j] * (ob[j] - F[j][e]); ww -= I[i][j] * sel[j].first; } inc -= sel[i].first * z; zs += std::fabs(z); ws += std::fabs(ww); } c.near(got[e], raw[e] + inc, 2e-6 * std::fabs(raw[e]) * (1 + ws) + er * zs * (1 + ws) + 1e-5 * std::fabs(inc), "oi:single-member", dd); c.h(got[e]); } continue; }
            auto analysis = [&](double pert, bool alt) { MM R(n, std::vector<double>(n, 0)); ivec rad; for(int i = 0; i < n; i++) { int k = sel[i].second; double pe = alt && i % 2 ? -pert : pert; R[i][i] = (-sel[i].first + pe) / ((double) sig * sig * (np == 2 ? tb.val[k][0][1] : 1)); if(np == 3 && tb.val[k][0][2] > 0) rad.push_back(i); }
                if(!rad.empty()) { int m = rad.size(); MM Q(m, std::vector<double>(m)), QI; for(int i = 0; i < m; i++) for(int j = 0; j < m; j++) { auto &p = tb.locs[sel[rad[i]].second], &q = tb.locs[sel[rad[j]].second]; double z = approx(p.lat(), p.lon(), q.lat(), q.lon()) / dc; Q[i][j] = i == j ? 1 : (1 + z) * std::exp(-z) - (alt && (i + j) % 2 ? -pert : pert) * d / dc * 0.5; } double cond; if(!solve(Q, QI, cond)) return std::vector<double>(); for(int i = 0; i < m; i++) for(int j = 0; j < m; j++) R[rad[i]][rad[j]] = std::sqrt((-sel[rad[i]].first + pert) * (-sel[rad[j]].first + pert)) / ((double) sigC * sigC) * QI[i][j]; }
                MM Yp(n, std::vector<double>(nv)); std::vector<double> dv(n), xx; for(int i = 0; i < n; i++) { double m = 0; for(int e : vm) m += F[i][e] / nv; for(int q = 0; q < nv; q++) Yp[i][q] = F[i][vm[q]] - m; dv[i] = ob[i] - m; } for(int e : vm) xx.push_back(tr(raw[e])); return etkf(xx, Yp, dv, R, del); };
            std::vector<double> A = analysis(0, false), B = analysis(er, false), B2 = analysis(er, true); if(A.empty() || B.empty() || B2.empty()) continue; double mag = 0; for(int q = 0; q < nv; q++) mag = std::max(mag, std::fabs(A[q] - tr(raw[vm[q]])) + (box ? 2 : 8));
            for(int q = 0; q < nv; q++) { int e = vm[q]; double base = tr(raw[e]), inc = A[q] - base, tol = 25 * (std::fabs(A[q] - B[q]) + std::fabs(A[q] - B2[q])) + 6e-5 * mag + (box ? 1e-5 : 2e-4), lo = 1e30, hi = -1e30; for(int i = 0; i < n; i++) { lo = std::min(lo, ob[i] - F[i][e]); hi = std::max(hi, ob[i] - F[i][e]); } if(!extra) { inc = hi > 0 ? std::min(inc, hi) : std::min(inc, 0.0); inc = lo < 0 ? std::max(inc, lo) : std::max(inc, 0.0); if(std::fabs(hi) < tol || std::fabs(lo) < tol) continue; }
                if(box) { double z1 = inv(base + inc - tol), z2 = inv(base + inc + tol); c.okf(got[e] >= z1 - 1e-5 && got[e] <= z2 + 1e-5 + 1e-5 * z2, "oi:ensemble-boxcox", [&] { return strf("member %d want %g..%g ", e, z1, z2) + dd(); }); } else c.near(got[e], base + inc, tol, extra ? "oi:ensemble" : "oi:ensemble-limited", [&] { return strf("member %d innovations %g..%g ", e, lo, hi) + dd(); }); c.h(got[e]); } } }
}

// ---------------------------------------------------------------- training
CASEW(train, 1) {
    Rng& r = c.rng; Variable v("v"); bool many = r.p(0.02); double off = r.p(0.3) || many ? r.pick({270.0, 990.0}) : 0; int n = many ? r.i(3000, 30000) : r.i(2, 25), E = r.i(1, 5); std::vector<ObsEns> data; std::vector<double> ob, fc; bool one = r.p(0.2); double m = r.pick({0.0, 0.1, 0.3}), b0 = r.u(-3, 8), b1 = r.u(0.3, 2);
    for(int i = 0; i < n; i++) { vec e; double base = off + r.u(1, 10), s = 0; int k = 0; for(int q = 0; q < E; q++) { float z = maybe(r, m, base + (one ? 0 : r.u(-1, 1))); e.push_back(z); if(cv(z)) { s += z; k++; } } float o = maybe(r, m, b0 + b1 * base + r.u(-1, 1)); data.push_back(ObsEns(o, e)); if(cv(o) && k) { ob.push_back(o); fc.push_back(s / k); } }
    int how = r.p(0.1) ? 3 : r.i(0, 2); int N = ob.size(); auto dd = [&] { std::string s = strf("kind %d, %d of %d pairs valid, %d members:", how, N, n, E); for(int i = 0; i < std::min((int) ob.size(), 40); i++) s += strf(" (%.7g %.7g)", ob[i], fc[i]); return s; }; double so = 0, sf = 0, sff = 0, sof = 0, soo = 0, ao = 0, af = 0; for(int i = 0; i < N; i++) { ao += std::fabs(ob[i]); af += std::fabs(fc[i]); soo += ob[i] * ob[i]; so += ob[i]; sf += fc[i]; sff += fc[i] * fc[i]; sof += ob[i] * fc[i]; }
    if(how < 3 && N == 0) return; Parameters p;
    auto train = [&](const char* nm, const std::string& o, const std::vector<ObsEns>& d) { std::unique_ptr<Calibrator> cal(Calibrator::getScheme(nm, v, Options(o))); Parameters q; bool ok = client_runs([&] { q = cal->train(d); }); c.okf(ok, std::string("train:") + nm + "-refused", dd); return q; };
    if(how == 0) { std::string op = r.pick({std::string("add"), std::string("subtract"), std::string("multiply"), std::string("divide")}); p = train("kriging", "radius=1000 efoldDist=1000 operator=" + op, data); double w = op == "add" ? (so - sf) / N : op == "subtract" ? (sf - so) / N : op == "multiply" ? so / sf : sf / so; if(std::fabs(so) < 1 || std::fabs(sf) < 1) return; c.okf(p.size() == 1, "train:kriging-size", dd); if(p.size() == 1) c.near(p[0], w, op == "add" || op == "subtract" ? 1e-6 * std::fabs(w) + 3e-7 * (ao + af) / N : 1e-6 * std::fabs(w) * (1 + ao / std::fabs(so) + af / std::fabs(sf)), "train:kriging-" + op, dd); }
    else if(how == 1) { int order = r.i(0, 1); bool ic = r.p(0.6); double var = sff / N - sf / N * sf / N; if(order && ic && (N < 3 || var < 0.5)) return; p = train("regression", strf("order=%d intercept=%d", order, ic), data); vec g = p.getValues(); double s = sof - so * sf / N, t = sff - sf * sf / N, sl = ic ? s / t : sof / sff, ice = ic ? so / N - sl * sf / N : 0; if(!c.okf((int) g.size() == order + 1, "train:regression-size", dd)) return; double F = af / N, em = (N + 4) * 6e-8, ts = 1e-6 * std::fabs(sl) + (ic ? em * (std::sqrt(soo / N * sff / N) + 2 * std::fabs(sl) * sff / N) / var : 2 * em * std::sqrt(soo / sff)), ti = ic ? 1e-6 * std::fabs(ice) + ts * F + em * (ao / N + std::fabs(sl) * F) : 0;
        if(off) { double fs = (ic ? 3e-7 * F * (std::sqrt(std::max(0.0, soo / N - so / N * so / N)) + 2 * std::fabs(sl) * std::sqrt(var)) / var : 5e-7 * std::sqrt(soo / sff)) + 1e-6 * std::fabs(sl); bool good = order == 0 ? std::fabs(g[0] - so / N) <= 1e-6 * ao / N : std::fabs(g[1] - sl) <= fs && std::fabs(g[0] - ice) <= (ic ? 1e-6 * std::fabs(ice) + fs * F + 3e-7 * (ao / N + std::fabs(sl) * F) : 0); c.okf(good, "train:regression-precision", [&] { return strf("got %.9g %.9g want %.9g %.9g; ", g[0], order ? g[1] : 0, order ? ice : so / N, order ? sl : 0) + dd(); }); } // values far from zero, or many
        else if(order == 0) c.near(g[0], so / N, em * ao / N, "train:regression-mean", dd); else { c.near(g[0], ice, ti, "train:regression-intercept", dd); c.near(g[1], sl, ts, "train:regression-slope", dd); } }
    else if(how == 2) {
        vec qs, xo, xf; std::string op; if(r.p(0.3)) { int k = r.i(1, 5); for(int i = 0; i < k; i++) { qs.push_back(r.p(0.2) ? r.i(0, 1) : std::round(r.u() * 64) / 64); op += (i ? "," : "quantiles=") + strf("%.9g", qs.back()); } op += " "; }
        if(r.p(0.4)) { int k = r.i(1, 4); std::string a, b; for(int i = 0; i < k; i++) { xo.push_back(r.i(-30, 60) / 2.0); xf.push_back(r.i(-30, 60) / 2.0); a += (i ? "," : "extraObs=") + strf("%g", xo.back()); b += (i ? "," : " extraFcst=") + strf("%g", xf.back()); } op += a + b; }
        p = train("qq", op, data); vec g = p.getValues(); std::sort(ob.begin(), ob.end()); std::sort(fc.begin(), fc.end()); auto at = [&](const std::vector<double>& v, double q) { double z = q * (N - 1); int k = std::min((int) z, N - 1); return k + 1 < N ? v[k] + (z - k) * (v[k + 1] - v[k]) : v[k]; };
        if(qs.size()) { std::vector<double> a, b; for(float q : qs) { a.push_back(at(ob, q)); b.push_back(at(fc, q)); } ob = a; fc = b; } if(xo.size()) { ob.insert(ob.end(), xo.begin(), xo.end()); fc.insert(fc.end(), xf.begin(), xf.end()); std::sort(ob.begin(), ob.end()); std::sort(fc.begin(), fc.end()); }
        auto d2 = [&] { return op + " gives " + str(g) + "; " + dd(); }; if(!c.okf(g.size() == 2 * ob.size(), "train:qq-size", d2)) return; double e = qs.size() ? 2e-4 : 1e-5; for(size_t i = 0; i < ob.size(); i++) { c.near(g[2 * i], ob[i], e * (1 + 0.01 * off + (qs.size() ? 0.2 : 1) * std::fabs(ob[i])), "train:qq-observed", d2); c.near(g[2 * i + 1], fc[i], e * (1 + 0.01 * off + (qs.size() ? 0.2 : 1) * std::fabs(fc[i])), "train:qq-forecast", d2); } }
    else { // the fraction of dry members is a predictor of its own: same means, other fractions
        std::vector<ObsEns> A, B; for(int i = 0; i < 16; i++) { int k = r.pick({0, 2, 5, 6, 8}); float mean = r.i(1, 6) * 0.5f; auto ens = [&](int dry) { vec e; for(int q = 0; q < 10; q++) e.push_back(q < dry ? 0 : mean * 10 / (10 - dry)); return e; }; float o = k >= 6 ? 0 : k == 5 && r.p(0.5) ? 0 : mean * (float) r.u(0.5, 1.5); A.push_back(ObsEns(o, ens(k))); B.push_back(ObsEns(o, ens(2))); }
        int ks = 0; for(auto& q : A) if(q.second[2] == 0 || q.second[0] != 0) ks++; if(ks == 0) return; vec a = train("zaga", "", A).getValues(), b = train("zaga", "", B).getValues(); c.okf(a.size() == 8 && b.size() == 8, "train:zaga-size", dd); c.okf(a != b, "train:zaga-fraction-unused", [&] { return str(a) + str(b); }); for(float q : a) c.okf(std::isfinite(q), "train:zaga-finite", [&] { return str(a); }); for(float q : a) c.h(q); }
    for(int i = 0; i < p.size(); i++) c.h(p[i]);
}
