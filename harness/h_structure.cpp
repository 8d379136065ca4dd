// C10: structure functions against their formulas in double precision.
#include "oiref.h"
enum T { BARNES, SOAR, TOAR, POWER, CRESS, LINEAR };
static const char* tname[] = {"barnes", "soar", "toar", "powerlaw", "cressman", "linear"};
static double rho(int t, double d, double L) {
    d = std::fabs(d);
    if(t == LINEAR) return 1 - (1 - L) * std::min(1.0, d);
    if(L == 0) return 1; double v = d / L;
    switch(t) {
        case BARNES: return std::exp(-0.5 * v * v);
        case SOAR: return (1 + v) * std::exp(-v);
        case TOAR: return (1 + v + v * v / 3) * std::exp(-v);
        case POWER: return 1 / (1 + 0.5 * v * v);
        default: return v >= 1 ? 0 : (1 - v * v) / (1 + v * v);
    }
}
// scaled distance at which rho drops to r
static double inv(int t, double r) {
    double lo = 0, hi = 1; if(t == LINEAR) return 0; while(rho(t, hi, 1) > r) hi *= 2;
    for(int i = 0; i < 200; i++) { double m = (lo + hi) / 2; (rho(t, m, 1) > r ? lo : hi) = m; } return hi;
}
static SP make(int t, float h, float v, float w, float hmax) {
    switch(t) {
        case BARNES: return SP(new gridpp::BarnesStructure(h, v, w, hmax)); case SOAR: return SP(new gridpp::SoarStructure(h, v, w, hmax));
        case TOAR: return SP(new gridpp::ToarStructure(h, v, w, hmax)); case POWER: return SP(new gridpp::PowerlawStructure(h, v, w, hmax));
        case CRESS: return SP(new gridpp::CressmanStructure(h, v, w)); default: return SP(new gridpp::LinearStructure(h, v, w, hmax));
    }
}
static SP make(int t, gridpp::Grid g, vec2 h, vec2 v, vec2 w, float m) {
    switch(t) {
        case BARNES: return SP(new gridpp::BarnesStructure(g, h, v, w, m)); case SOAR: return SP(new gridpp::SoarStructure(g, h, v, w, m));
        case TOAR: return SP(new gridpp::ToarStructure(g, h, v, w, m)); case POWER: return SP(new gridpp::PowerlawStructure(g, h, v, w, m));
        default: return SP(new gridpp::LinearStructure(g, h, v, w, m));
    }
}
struct Par { int t; float h, v, w, hmax; double loc, locTol; bool trunc; };   // loc: localization distance
static void set_loc(Par& p, double minrho) {
    p.trunc = p.t != CRESS; p.locTol = 1e-5;
    if(p.t == CRESS) p.loc = p.h;
    else if(p.t == LINEAR) p.loc = 0;
    else if(isv(p.hmax)) { p.loc = p.hmax; double x = p.hmax / p.h; // the library stores the float correlation at hmax
        p.locTol = 1e-5 + (x > 0 ? 3e-7 / (x * x) : 0) + (p.t == POWER ? 1e-6 * x * x : 0) + (x > 12 ? 1e-4 : 0); }
    else p.loc = inv(p.t, minrho) * p.h;
}
static Par gen_par(Rng& r, double scale, bool linear = true) {
    Par p; p.t = r.i(0, linear ? LINEAR : CRESS); p.h = scale * std::exp(r.u(-1.5, 1.5)); p.v = r.p(0.3) ? 0 : std::exp(r.u(2, 7)); p.w = r.p(0.3) ? 0 : r.u(0.05, 1.5); p.hmax = r.p(0.5) ? NaNf : r.p(0.1) ? 0 : p.h * std::exp(r.u(-2.5, 1.8));
    if(p.t == LINEAR) { p.h = r.u(); p.v = r.u(); p.w = r.u(); }
    if(p.t == CRESS) p.hmax = NaNf;
    set_loc(p, gridpp::StructureFunction::default_min_rho); return p;
}
static std::string ps(const Par& p) { return strf("%s(h=%.9g v=%.9g w=%.9g hmax=%.9g)", tname[p.t], p.h, p.v, p.w, p.hmax); }
static gridpp::Point gen_point(Rng& r, gridpp::CoordinateType t, double la0, double lo0, double scale, double spread) {
    double f = t == gridpp::Cartesian ? 1 : 1.0 / 111000, c = t == gridpp::Cartesian ? 1 : std::max(0.05, std::cos(la0 * M_PI / 180));
    double la = la0 + scale * spread * f * r.n(), lo = lo0 + scale * spread * f / c * r.n(); if(t == gridpp::Geodetic) la = std::max(-90.0, std::min(90.0, la));
    return gridpp::Point(la, lo, r.p(0.1) ? NaNf : r.u(-100, 2000), r.p(0.1) ? NaNf : r.p(0.3) ? r.i(0, 1) : r.u(), t);
}
static std::string pstr(const gridpp::Point& p) { return strf("(%.9g,%.9g,%.9g,%.9g,t%d)", p.lat, p.lon, p.elev, p.laf, (int) p.type); }
// expected correlation; edge=true when truncation is undecidable because of rounding
static double want(const Par& p, const gridpp::Point& a, const gridpp::Point& b, bool& edge, double& hd) {
    hd = gridpp::KDTree::calc_straight_distance(a, b); edge = false;
    if(p.trunc && hd > 0) { if(std::fabs(hd - p.loc) <= p.locTol * (p.loc + 1e-6) + 1e-30) edge = true; if(hd > p.loc) return 0; }
    double o = rho(p.t, hd, p.h); if(isv(a.elev) && isv(b.elev)) o *= rho(p.t, (double) a.elev - b.elev, p.v); if(isv(a.laf) && isv(b.laf)) o *= rho(p.t, (double) a.laf - b.laf, p.w);
    return o;
}
static void pair_checks(Ctx& c, const gridpp::StructureFunction& s, const Par& p, const gridpp::Point& a, const gridpp::Point& b, const std::string& key, bool symmetric) {
    bool edge; double hd, w = want(p, a, b, edge, hd); auto d = [&] { return ps(p) + " " + pstr(a) + pstr(b) + strf(" dist %.9g loc %.9g", hd, p.loc); };
    double ref = ref_straight(a.lat, a.lon, b.lat, b.lon, a.type); c.near(hd, ref, pos_tol(a.type, std::max(std::fabs(a.lat), std::fabs(a.lon)) + std::max(std::fabs(b.lat), std::fabs(b.lon))) + 1e-6 * ref, key + ":distance", d);
    float g = s.corr(a, b), gb = s.corr_background(a, b); c.okf(g >= 0 && g <= 1, key + ":range", d); c.okf(g == gb, key + ":background", d);
    if(!edge) c.near(g, w, 3e-6, key + ":formula", d);
    c.near(s.corr(a, a), 1, 0, key + ":self", d); c.near(s.corr_background(a, a), 1, 0, key + ":self-background", d);
    if(symmetric && !edge) c.near(s.corr(b, a), g, 1e-6, key + ":symmetric", d);
}
CASEW(pairs, 4) {
    Rng& r = c.rng; auto t = r.p(0.35) ? gridpp::Cartesian : gridpp::Geodetic; double scale = std::exp(r.u(std::log(100.0), std::log(300000.0))), la = t == gridpp::Cartesian ? r.u(-1e5, 1e5) : r.u(-89, 89), lo = t == gridpp::Cartesian ? r.u(-1e5, 1e5) : r.u(-180, 180);
    Par p = gen_par(r, scale); SP s = make(p.t, p.h, p.v, p.w, p.hmax), s2 = s->clone(), s3 = s2->clone(); c.h(p.t); c.h(p.h); c.h(p.v); c.h(p.hmax); c.sample(ps(p));
    gridpp::Point a = gen_point(r, t, la, lo, p.t == LINEAR ? scale : p.h, 1); int n = r.i(1, 12); std::vector<gridpp::Point> b; for(int i = 0; i < n; i++) { b.push_back(r.p(0.15) ? a : gen_point(r, t, la, lo, p.t == LINEAR ? scale : p.h, r.pick({0.1, 1.0, 4.0}))); if(r.p(0.1)) b[i] = gridpp::Point(a.lat, a.lon, r.u(0, 2000), r.u(), t); }
    c.near(s->localization_distance(a), p.loc, p.locTol * (p.loc + 1e-6) + 1e-30, "pairs:localization", [&] { return ps(p); }); c.ok(s2->localization_distance(a) == s->localization_distance(a) && s3->localization_distance(a) == s->localization_distance(a), "pairs:clone-localization");
    vec v = s->corr(a, b), vb = s->corr_background(a, b), v2 = s2->corr(a, b); c.ok((int) v.size() == n && (int) vb.size() == n, "pairs:size"); c.ok(same_bits(v, vb), "pairs:vec-background"); c.ok(same_bits(v, v2) && same_bits(v, s3->corr(a, b)), "pairs:clone");
    for(int i = 0; i < n; i++) { pair_checks(c, *s, p, a, b[i], "pairs", true); c.near(v[i], s->corr(a, b[i]), 1e-7, "pairs:vec", [&] { return ps(p) + pstr(a) + pstr(b[i]); }); c.h(v[i]); }
    c.ok(s->corr(a, std::vector<gridpp::Point>()).empty(), "pairs:empty");
}
CASEW(spatial, 4) {
    Rng& r = c.rng; GridOpt go; go.maxY = 5; go.maxX = 5; GridSpec g = gen_grid(r, go); int t = r.i(0, POWER); if(r.p(0.1)) t = LINEAR; bool single = r.p(0.1); int Y = single ? 1 : g.Y, X = single ? 1 : g.X;
    double scale = g.type == gridpp::Cartesian ? g.dlat : g.dlat * 111000; vec2 h = init2(Y, X), v = h, w = h; bool nov = r.p(0.3), now = r.p(0.3);
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { h[y][x] = r.p(0.03) ? 0 : scale * std::exp(r.u(-1, 1.5)); v[y][x] = nov ? 0 : std::exp(r.u(2, 7)); w[y][x] = now ? 0 : r.u(0.05, 1.5); if(t == LINEAR) { h[y][x] = r.u(); v[y][x] = r.u(); w[y][x] = r.u(); } }
    float minrho = r.p(0.5) ? (float) gridpp::StructureFunction::default_min_rho : (float) std::exp(r.u(-8, -0.05)); c.h(h); c.h(t); c.h(minrho); c.sample(g.desc + " " + tname[t]);
    SP s0 = make(t, g.grid(), h, v, w, minrho), s = r.p(0.5) ? s0->clone() : s0; Src src = src_of(g);
    for(int k = 0; k < 4; k++) {
        float la, lo; gen_loc(r, g, 1.0, la, lo); gridpp::Point a(la, lo, r.p(0.1) ? NaNf : r.u(0, 1500), r.p(0.1) ? NaNf : r.u(), g.type); std::vector<gridpp::Point> b;
        for(int i = r.i(1, 6); i > 0; i--) { if(r.p(0.15)) b.push_back(a); else { float a2, o2; gen_loc(r, g, 2.0, a2, o2); b.push_back(gridpp::Point(a2, o2, r.p(0.1) ? NaNf : r.u(0, 1500), r.p(0.1) ? NaNf : r.u(), g.type)); } }
        ivec cand = single ? ivec{0} : nn_candidates(src, la, lo); if(cand.size() != 1) continue; int y = single ? 0 : cand[0] / g.X, x = single ? 0 : cand[0] % g.X;
        Par p; p.t = t; p.h = h[y][x]; p.v = v[y][x]; p.w = w[y][x]; p.hmax = NaNf; set_loc(p, minrho); p.locTol += 3e-7 / std::max(1e-3, std::pow(inv(t, minrho), 2.0));
        c.near(s->localization_distance(a), p.loc, p.locTol * (p.loc + 1e-6) + 1e-30, "spatial:localization", [&] { return g.desc + ps(p) + pstr(a) + strf(" cell (%d,%d) minrho %g", y, x, minrho); });
        vec vv = s->corr(a, b), vb = s->corr_background(a, b); c.ok(vv.size() == b.size() && same_bits(vv, vb), "spatial:vec-background");
        for(size_t i = 0; i < b.size(); i++) { pair_checks(c, *s, p, a, b[i], "spatial", false); bool edge; double hd, wv = want(p, a, b[i], edge, hd); if(!edge) c.near(vv[i], wv, 3e-6, "spatial:vec", [&] { return g.desc + ps(p) + pstr(a) + pstr(b[i]) + strf(" dist %.9g loc %.9g", hd, p.loc); }); }
    }
}
CASEW(composed, 3) {
    Rng& r = c.rng; auto t = r.p(0.35) ? gridpp::Cartesian : gridpp::Geodetic; double scale = std::exp(r.u(std::log(100.0), std::log(100000.0))), la = t == gridpp::Cartesian ? r.u(-1e5, 1e5) : r.u(-80, 80), lo = t == gridpp::Cartesian ? r.u(-1e5, 1e5) : r.u(-180, 180);
    Par ph = gen_par(r, scale, false), pv = gen_par(r, scale), pw = gen_par(r, scale); SP h = make(ph.t, ph.h, ph.v, ph.w, ph.hmax), v = make(pv.t, pv.h, pv.v, pv.w, pv.hmax), w = make(pw.t, pw.h, pw.v, pw.w, pw.hmax);
    SP s(new gridpp::MultipleStructure(*h, *v, *w)); h.reset(); v.reset(); w.reset(); if(r.p(0.5)) s = s->clone();
    gridpp::Point a = gen_point(r, t, la, lo, ph.h, 1); int n = r.i(1, 8); std::vector<gridpp::Point> b; for(int i = 0; i < n; i++) b.push_back(r.p(0.15) ? a : gen_point(r, t, la, lo, ph.h, r.pick({0.1, 1.0, 4.0}))); c.h(ph.h); c.h(pv.v); c.h(pw.w); c.sample(ps(ph) + ps(pv) + ps(pw));
    vec o = s->corr(a, b), ob = s->corr_background(a, b); c.ok(same_bits(o, ob) && (int) o.size() == n, "composed:background"); c.near(s->localization_distance(a), ph.loc, ph.locTol * (ph.loc + 1e-6) + 1e-30, "composed:localization");
    auto val = [](const Par& p, int dim, const gridpp::Point& a, const gridpp::Point& b, bool& e) {
        if(dim == 0) { double hd = gridpp::KDTree::calc_straight_distance(a, b); if(p.trunc && hd > 0) { if(std::fabs(hd - p.loc) <= p.locTol * (p.loc + 1e-6)) e = true; if(hd > p.loc) return 0.0; } return rho(p.t, hd, p.h); }
        float x = dim == 1 ? a.elev : a.laf, y = dim == 1 ? b.elev : b.laf; if(!isv(x) || !isv(y)) return 1.0; return rho(p.t, (double) x - y, dim == 1 ? p.v : p.w); };
    gridpp::CrossValidation cv0(*s, 0); float dist = r.p(0.2) ? 0 : ph.h * r.u(0, 2); SP cv(new gridpp::CrossValidation(*s, dist)); if(r.p(0.5)) cv = cv->clone();
    vec oc = cv->corr(a, b), ocb = cv->corr_background(a, b); c.ok(cv->localization_distance(a) == s->localization_distance(a), "crossval:localization");
    for(int i = 0; i < n; i++) {
        bool e = false; double wv = val(ph, 0, a, b[i], e) * val(pv, 1, a, b[i], e) * val(pw, 2, a, b[i], e); auto d = [&] { return ps(ph) + ps(pv) + ps(pw) + pstr(a) + pstr(b[i]); };
        if(!e) { c.near(o[i], wv, 5e-6, "composed:vec", d); c.near(s->corr(a, b[i]), wv, 5e-6, "composed:scalar", d); }
        c.okf(o[i] >= 0 && o[i] <= 1, "composed:range", d);
        double hd = gridpp::KDTree::calc_straight_distance(a, b[i]); double we = hd <= dist ? 0 : o[i];
        c.near(oc[i], o[i], 1e-7, "crossval:corr", d); c.near(cv->corr(a, b[i]), o[i], 1e-6, "crossval:corr-scalar", d); c.near(ocb[i], we, 1e-7, "crossval:background-vec", d); c.near(cv->corr_background(a, b[i]), we, 1e-6, "crossval:background", d);
        if(hd == 0) c.ok(cv0.corr_background(a, b[i]) == 0, "crossval:zero-distance");
    }
}
// the table of static correlations: the best max_points knots inside the localization distance, 0 for the others
CASE(table) {
    Rng& r = c.rng; OiCase o = gen_oi(r, 12, 4); c.h(o.op.lats); c.h(o.maxp); c.sample(o.g.desc + o.name); vec2 t = gridpp::staticcorr_points(o.bpoints, o.points, *o.st, o.maxp); if(!c.ok((int) t.size() == o.N, "table:shape")) return; std::vector<bool> all(o.S, true);
    for(int i = 0; i < o.N; i++) { Sel s = select_obs(*o.st, o.bp[i], o.sp, all, o.maxp); if(s.edge) continue; vec w(o.S, 0); for(size_t k = 0; k < s.idx.size(); k++) w[s.idx[k]] = s.rho[k]; c.okf((int) t[i].size() == o.S, "table:shape", [] { return ""; }); for(int k = 0; k < o.S; k++) c.near(t[i][k], w[k], 1e-6, "table:value", [&] { return o.g.desc + o.name + strf(" location %d knot %d max=%d", i, k, o.maxp); }); }
    c.ok(!runs([&] { gridpp::staticcorr_points(o.bpoints, o.points, *o.st, -1); }), "table:max_points"); vec z{1}, ze{0}; c.ok(!runs([&] { gridpp::staticcorr_points(o.bpoints, gridpp::Points(z, z, z, ze, o.g.type == gridpp::Cartesian ? gridpp::Geodetic : gridpp::Cartesian), *o.st, 0); }), "table:type");
}
CASE(errors) {
    Rng& r = c.rng; float bad = r.p(0.5) ? NaNf : -r.u(0.1, 100); int t = r.i(0, LINEAR); float g = r.u(1, 1000); int k = r.i(0, 3); c.h(bad); c.h(t); c.h(k); float a[4] = {g, g, g, NaNf}; if(k == 3) { if(t == CRESS) return; bad = -r.u(0.1, 100); } a[k] = bad;
    c.ok(!runs([&] { make(t, a[0], a[1], a[2], a[3]); }), "errors:parameter", strf("%s argument %d = %g accepted", tname[t], k, bad));
    SP s = make(BARNES, g, 0, 0, NaNf); c.ok(!runs([&] { gridpp::CrossValidation(*s, r.p(0.5) ? NaNf : -r.u(0.1, 3)); }), "errors:crossval");
    GridOpt go; go.minY = 2; go.minX = 2; go.maxX = 5; go.maxY = 5; GridSpec gs = gen_grid(r, go); vec2 f = init2(gs.Y, gs.X, g), f2 = r.p(0.5) ? init2(gs.Y + 1, gs.X, g) : init2(gs.Y, gs.X - 1, g); int m = r.i(0, 2); if(t == CRESS) t = BARNES;
    c.ok(!runs([&] { make(t, gs.grid(), m == 0 ? f2 : f, m == 1 ? f2 : f, m == 2 ? f2 : f, 0.01f); }), "errors:size", strf("%s field %d", tname[t], m));
}
