// C13: gridding, counting, distance, filling and doping.
#include "nbh.h"
#include "nnref.h"
static double great(double la1, double lo1, double la2, double lo2, gridpp::CoordinateType t) {
    double s = ref_straight(la1, lo1, la2, lo2, t); if(t == gridpp::Cartesian) return s;
    double R = 6.378137e6; return 2 * R * std::asin(std::min(1.0, s / 2 / R));
}
struct Loc { vec la, lo; };
static Loc flat(const GridSpec& g) { Src s = src_of(g); return {s.lats, s.lons}; }
static double tolr(gridpp::CoordinateType t, double mag, double R) { return t == gridpp::Cartesian ? 3e-6 * (mag + R) : 4.0 + 2e-6 * R; }
struct Setup { GridSpec g, og; PointsSpec p, q; float R; double mag; gridpp::CoordinateType t; };
static Setup gen(Rng& r) {
    Setup s; GridOpt o; o.maxLat = 85; s.g = gen_grid(r, o); s.t = s.g.type; s.og = cover_grid(r, s.g, o, 0.8);
    s.p = gen_points_in(r, s.g, r.p(0.1) ? 0 : r.i(1, 40)); s.q = gen_points_in(r, s.g, r.i(0, 20)); double km = s.t == gridpp::Cartesian ? s.g.dlat : s.g.dlat * 111000; s.R = r.p(0.05) ? 0 : r.p(0.05) ? km * 100 : km * r.u(0.1, 4); s.mag = 0; for(auto& a : {flat(s.g).la, flat(s.g).lo, s.p.lats, s.p.lons}) for(float f : a) s.mag = std::max(s.mag, (double) std::fabs(f)); return s;
}
// 1 inside, 0 outside, -1 too close to call
static int within(const Setup& s, float la, float lo, float la2, float lo2, double R) { double d = ref_straight(la, lo, la2, lo2, s.t), t = tolr(s.t, s.mag, R); if(la == la2 && lo == lo2 && R > t) return 1; return d < R - t ? 1 : d > R + t ? 0 : -1; }
CASEW(gridding, 3) {
    Rng& r = c.rng; Setup s = gen(r); vec v = gen_vec(r, s.p.lats.size(), pick_missing(r)); int num = r.p(0.3) ? 0 : r.i(0, 4); auto st = all_stats()[r.i(0, 8)]; c.h(s.g.lats); c.h(v); c.h(s.R); c.h(num); c.sample(s.g.desc + strf(" points=%d radius=%g min_num=%d %s", (int) v.size(), s.R, num, sname(st))); auto g = s.g.grid(); auto ip = s.p.points(), op = s.q.points(); int X = s.g.X; Loc fl = flat(s.g);
    auto check = [&](const Loc& l, const vec& o, const char* k) { if(!c.ok(o.size() == l.la.size(), std::string(k) + ":size")) return; for(size_t i = 0; i < o.size(); i++) { WinVals w; int n = 0; bool skip = false; for(size_t j = 0; j < v.size(); j++) { int in = within(s, l.la[i], l.lo[i], s.p.lats[j], s.p.lons[j], s.R); if(in < 0) skip = true; if(in == 1) { w.add(v[j]); n++; } } if(skip) continue; auto d = [&] { return s.g.desc + strf(" output %d radius %g min_num %d within %d valid %d", (int) i, s.R, num, n, (int) w.v.size()); }; if(n < num) c.near(o[i], NaNd, 0, std::string(k) + ":too-few", d); else check_stat(c, o[i], w, st, 0, 0, std::string(k) + ":" + sname(st), d); } };
    auto fl2 = [&](const vec2& o) { vec f; for(auto& a : o) f.insert(f.end(), a.begin(), a.end()); return f; };
    check(fl, fl2(gridpp::gridding(g, ip, v, s.R, num, st)), "gridding"); check({s.q.lats, s.q.lons}, gridpp::gridding(op, ip, v, s.R, num, st), "gridding-points");
    // nearest
    auto checkn = [&](const Src& src, const vec& o, const char* k) { if(!c.ok(o.size() == src.lats.size(), std::string(k) + ":size")) return; if(o.empty()) return; std::vector<WinVals> w(o.size()); ivec n(o.size(), 0); std::vector<char> amb(o.size(), 0); for(size_t j = 0; j < v.size(); j++) { ivec cd = nn_candidates(src, s.p.lats[j], s.p.lons[j]); if(cd.size() > 1) for(int q : cd) amb[q] = 1; else { w[cd[0]].add(v[j]); n[cd[0]]++; } }
        for(size_t i = 0; i < o.size(); i++) { if(amb[i]) continue; auto d = [&] { return s.g.desc + strf(" output %d min_num %d assigned %d valid %d", (int) i, num, n[i], (int) w[i].v.size()); }; if(n[i] == 0 || n[i] < num) c.near(o[i], NaNd, 0, std::string(k) + ":too-few", d); else check_stat(c, o[i], w[i], st, 0, 0, std::string(k) + ":" + sname(st), d); } };
    checkn(src_of(s.g), fl2(gridpp::gridding_nearest(g, ip, v, num, st)), "gridding_nearest"); checkn(src_of(s.q), gridpp::gridding_nearest(op, ip, v, num, st), "gridding_nearest-points"); (void) X;
    vec bad = v; bad.push_back(1); float nr = r.p(0.5) ? NaNf : -0.5f;
    c.ok(!runs([&] { gridpp::gridding(g, ip, bad, s.R, num, st); }) && !runs([&] { gridpp::gridding(op, ip, bad, s.R, num, st); }) && !runs([&] { gridpp::gridding_nearest(g, ip, bad, num, st); }) && !runs([&] { gridpp::gridding_nearest(op, ip, bad, num, st); }) && !runs([&] { gridpp::gridding(g, ip, v, nr, num, st); }) && !runs([&] { gridpp::gridding(op, ip, v, nr, num, st); }) && !runs([&] { gridpp::gridding(g, ip, v, s.R, -1, st); }) && !runs([&] { gridpp::gridding(op, ip, v, s.R, -1, st); }) && !runs([&] { gridpp::gridding_nearest(g, ip, v, -1, st); }) && !runs([&] { gridpp::gridding_nearest(op, ip, v, -1, st); }) && !runs([&] { gridpp::gridding(g, ip, v, s.R, num, gridpp::Unknown); }) && !runs([&] { gridpp::gridding(op, ip, v, s.R, num, gridpp::Quantile); }) && !runs([&] { gridpp::gridding_nearest(g, ip, v, num, gridpp::Quantile); }) && !runs([&] { gridpp::gridding_nearest(op, ip, v, num, gridpp::Unknown); }), "gridding:invalid-accepted");
}
CASEW(count, 2) {
    Rng& r = c.rng; Setup s = gen(r); auto g = s.g.grid(), og = s.og.grid(); auto ip = s.p.points(), op = s.q.points(); int k = r.i(1, 5); c.h(s.g.lats); c.h(s.og.lats); c.h(s.p.lats); c.h(k); c.sample(s.g.desc + strf(" points=%d radius=%g k=%d", (int) s.p.lats.size(), s.R, k)); Loc lg = flat(s.g), lo = flat(s.og), lp = {s.p.lats, s.p.lons}, lq = {s.q.lats, s.q.lons};
    auto fl2 = [&](const vec2& o) { vec f; for(auto& a : o) f.insert(f.end(), a.begin(), a.end()); return f; };
    auto chk = [&](const Loc& in, const Loc& out, const vec& o, const char* nm) { if(!c.ok(o.size() == out.la.size(), std::string("count:") + nm + ":size")) return; for(size_t i = 0; i < o.size(); i++) { int a = 0, b = 0; for(size_t j = 0; j < in.la.size(); j++) { int w = within(s, out.la[i], out.lo[i], in.la[j], in.lo[j], s.R); a += w == 1; b += w != 0; } c.okf(o[i] >= a && o[i] <= b, std::string("count:") + nm, [&] { return s.g.desc + strf(" output %d radius %g got %g want %d..%d", (int) i, s.R, o[i], a, b); }); } };
    chk(lg, lp, gridpp::count(g, ip, s.R), "grid-points"); chk(lg, lo, fl2(gridpp::count(g, og, s.R)), "grid-grid"); chk(lp, lg, fl2(gridpp::count(ip, g, s.R)), "points-grid"); chk(lp, lq, gridpp::count(ip, op, s.R), "points-points");
    auto dst = [&](const Loc& in, const Loc& out, const vec& o, const char* nm) { if(!c.ok(o.size() == out.la.size(), std::string("distance:") + nm + ":size")) return; if(in.la.empty()) return; for(size_t i = 0; i < o.size(); i++) { dvec d; for(size_t j = 0; j < in.la.size(); j++) d.push_back(great(out.la[i], out.lo[i], in.la[j], in.lo[j], s.t)); std::sort(d.begin(), d.end()); double w = d[std::min(k, (int) d.size()) - 1]; c.near(o[i], w, tolr(s.t, s.mag, w), std::string("distance:") + nm, [&] { return s.g.desc + strf(" output %d num %d", (int) i, k); }); } };
    dst(lg, lp, gridpp::distance(g, ip, k), "grid-points"); dst(lg, lo, fl2(gridpp::distance(g, og, k)), "grid-grid"); dst(lp, lg, fl2(gridpp::distance(ip, g, k)), "points-grid"); dst(lp, lq, gridpp::distance(ip, op, k), "points-points");
    { vec e; gridpp::CoordinateType ot = s.t == gridpp::Cartesian ? gridpp::Geodetic : gridpp::Cartesian; vec z = {10}; gridpp::Points other(z, z, e, e, ot); gridpp::Grid og2({{10}}, {{10}}, {{0}}, {{0}}, ot); c.ok(!runs([&] { gridpp::distance(g, other, 1); }) && !runs([&] { gridpp::distance(g, og2, 1); }) && !runs([&] { gridpp::distance(other, g, 1); }) && !runs([&] { gridpp::distance(ip, other, 1); }), "distance:mixed-coordinates-accepted"); }
}
CASEW(fill, 2) {
    Rng& r = c.rng; Setup s = gen(r); int n = std::min((int) s.p.lats.size(), 6); for(vec* v : {&s.p.lats, &s.p.lons, &s.p.elevs, &s.p.lafs}) v->resize(n); vec rad(n), obs = gen_vec(r, n, pick_missing(r)); ivec hw(n); for(int i = 0; i < n; i++) { rad[i] = r.p(0.1) ? 0 : s.R * r.u(0.2, 1.5); hw[i] = r.p(0.05) ? r.i(100, 2147483647) : r.i(0, 3); }
    vec2 bg = gen_field(r, s.g.Y, s.g.X, pick_missing(r)); float val = r.p(0.1) ? NaNf : r.u(-5, 5); bool outside = r.p(0.5); float me = r.p(0.4) ? NaNf : r.p(0.1) ? 0 : r.u(0, 600); auto g = s.g.grid(); auto p = s.p.points(); c.h(s.g.lats); c.h(bg); c.h(rad); c.sample(s.g.desc + strf(" points=%d outside=%d max_elev_diff=%g", n, outside, me)); vec2 b0 = bg;
    vec2 f = gridpp::fill(g, bg, p, rad, val, outside), dc = gridpp::doping_circle(g, bg, p, obs, rad, me), ds = gridpp::doping_square(g, bg, p, obs, hw, me); auto sh = [&](const vec2& o) { return (int) o.size() == s.g.Y && (int) o[0].size() == s.g.X; }; if(!c.ok(sh(f) && sh(dc) && sh(ds), "fill:size")) return; auto same = [](float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); };
    Src src = src_of(s.g); std::vector<ivec> nn; for(int i = 0; i < n; i++) nn.push_back(nn_candidates(src, s.p.lats[i], s.p.lons[i]));
    for(int y = 0; y < s.g.Y; y++) for(int x = 0; x < s.g.X; x++) {
        int in = 0; bool amb = false; float w = bg[y][x], ws = bg[y][x]; bool ambs = false;
        for(int i = 0; i < n; i++) {
            int k = within(s, s.g.lats[y][x], s.g.lons[y][x], s.p.lats[i], s.p.lons[i], rad[i]); if(k < 0) amb = true; if(k == 1) in = 1;
            bool elev = true, eamb = false; if(isv(me)) { double df = std::fabs((double) s.p.elevs[i] - s.g.elevs[y][x]); if(std::fabs(df - me) < 1e-3) eamb = true; if(df > me) elev = false; }
            if(k == 1 && eamb) amb = true; if(k == 1 && elev) w = obs[i];
            int hit = 0; for(int q : nn[i]) if(std::abs(q / s.g.X - y) <= (long) hw[i] && std::abs(q % s.g.X - x) <= (long) hw[i]) hit++; if(hit && hit < (int) nn[i].size()) ambs = true; if(hit && eamb) ambs = true; if(hit && elev) ws = obs[i];
        }
        auto d = [&] { return s.g.desc + strf(" cell %d,%d outside=%d max_elev_diff %g", y, x, outside, me); };
        if(!amb) { c.okf(same(f[y][x], (in != 0) != outside ? val : bg[y][x]), "fill:cell", d); c.okf(same(dc[y][x], w), "doping_circle:cell", d); }
        if(!ambs) c.okf(same(ds[y][x], ws), "doping_square:cell", d);
    }
    c.ok(same_bits(bg, b0), "fill:input-modified"); vec lr = rad, lo = obs; lr.push_back(1); lo.push_back(1); ivec lh = hw; lh.push_back(1); vec2 bb = r.p(0.5) ? init2(s.g.Y + 1, s.g.X) : init2(s.g.Y, s.g.X + 1);
    c.ok(!runs([&] { gridpp::fill(g, bb, p, rad, val, outside); }) && !runs([&] { gridpp::fill(g, bg, p, lr, val, outside); }) && !runs([&] { gridpp::doping_circle(g, bb, p, obs, rad, me); }) && !runs([&] { gridpp::doping_circle(g, bg, p, lo, rad, me); }) && !runs([&] { gridpp::doping_circle(g, bg, p, obs, lr, me); }) && !runs([&] { gridpp::doping_circle(g, bg, p, obs, rad, -1); }) && !runs([&] { gridpp::doping_square(g, bb, p, obs, hw, me); }) && !runs([&] { gridpp::doping_square(g, bg, p, lo, hw, me); }) && !runs([&] { gridpp::doping_square(g, bg, p, obs, lh, me); }) && !runs([&] { gridpp::doping_square(g, bg, p, obs, hw, -1); }), "fill:invalid-accepted");
    if(n) { rad[r.i(0, n - 1)] = -1; hw[r.i(0, n - 1)] = -1; c.ok(!runs([&] { gridpp::fill(g, bg, p, rad, val, outside); }) && !runs([&] { gridpp::doping_circle(g, bg, p, obs, rad, me); }) && !runs([&] { gridpp::doping_square(g, bg, p, obs, hw, me); }), "fill:negative-accepted"); }
}
CASEW(fill_missing, 2) {
    Rng& r = c.rng; int Y = r.i(1, 10), X = r.i(1, 10); float lo, hi; vary(r, lo, hi); vec2 f = gen_field(r, Y, X, r.pick({0.05, 0.2, 0.5, 0.8, 1.0}), lo, hi); if(r.p(0.1)) f[r.i(0, Y - 1)][r.i(0, X - 1)] = INFINITY; c.h(f); c.sample(strf("%dx%d", Y, X)); vec2 o = gridpp::fill_missing(f); if(!c.ok((int) o.size() == Y && (int) o[0].size() == X, "fill_missing:size")) return;
    auto along = [&](int y, int x, int dy, int dx, double& v, double& mag) { int a = 1, b = 1; while(y - a * dy >= 0 && x - a * dx >= 0 && !isv(f[y - a * dy][x - a * dx])) a++; while(y + b * dy < Y && x + b * dx < X && !isv(f[y + b * dy][x + b * dx])) b++; if(y - a * dy < 0 || x - a * dx < 0 || y + b * dy >= Y || x + b * dx >= X) return false; double l = f[y - a * dy][x - a * dx], n = f[y + b * dy][x + b * dx]; v = l + (n - l) * a / (a + b); mag = std::fabs(l) + std::fabs(n); return true; };
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        auto d = [&] { return strf("%dx%d cell %d,%d ", Y, X, y, x) + str(f, 10); }; if(isv(f[y][x])) { c.okf(o[y][x] == f[y][x], "fill_missing:valid-changed", d); continue; }
        double v, m, s = 0, mg = 0; int n = 0; if(along(y, x, 0, 1, v, m)) { s += v; mg += m; n++; } if(along(y, x, 1, 0, v, m)) { s += v; mg += m; n++; } c.near(o[y][x], n ? s / n : NaNd, 1e-6 * mg, "fill_missing:interpolated", d);
    }
    c.ok(gridpp::fill_missing(vec2()).empty(), "fill_missing:empty");
}
