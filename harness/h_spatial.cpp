// C01: spatial search and coordinate objects against a brute-force scan in double precision.
#include "common.h"
using namespace gridpp;

static void gen_cloud(Rng& r, int n, CoordinateType t, vec& lats, vec& lons) {
    int mode = r.i(0, 4); // 0 global, 1 regional, 2 pole, 3 date line, 4 lattice with ties
    double la0 = r.u(-70, 70), lo0 = r.u(-170, 170), sp = std::exp(r.u(std::log(1e-4), std::log(5)));
    for(int i = 0; i < n; i++) {
        double la, lo;
        if(t == Cartesian) { double s = mode == 0 ? 1e6 : (mode == 1 ? 1e4 : 100); la = r.u(-s, s); lo = r.u(-s, s); if(mode == 4) { la = std::round(la / 10) * 10; lo = std::round(lo / 10) * 10; } }
        else if(mode == 0) { la = std::asin(r.u(-1, 1)) * 180 / M_PI; lo = r.u(-360, 360); }
        else if(mode == 1) { la = la0 + sp * r.u(-1, 1); lo = lo0 + sp * r.u(-1, 1); }
        else if(mode == 2) { la = (la0 > 0 ? 1 : -1) * (90 - std::fabs(r.u(0, std::min(sp, 3.0)))); lo = r.u(-180, 180); if(r.p(0.05)) la = la0 > 0 ? 90 : -90; }
        else if(mode == 3) { la = la0 + sp * r.u(-1, 1); lo = r.p(0.5) ? 180 - r.u(0, sp) : -180 + r.u(0, sp); }
        else { la = std::round(la0) + r.i(-3, 3); lo = std::round(lo0) + r.i(-3, 3); }
        if(t == Geodetic) la = std::max(-90.0, std::min(90.0, la));
        if(i > 0 && r.p(0.08)) { int k = r.i(0, i - 1); la = lats[k]; lo = lons[k]; }
        lats.push_back(la); lons.push_back(lo);
    }
}
static double mag(const vec& a, const vec& b, double la, double lo) { double m = std::max(std::fabs(la), std::fabs(lo)); for(float f : a) m = std::max(m, (double) std::fabs(f)); for(float f : b) m = std::max(m, (double) std::fabs(f)); return m; }

struct Q { std::vector<double> d; double tol; };
static Q dists(const vec& lats, const vec& lons, float la, float lo, CoordinateType t) {
    Q q; q.tol = t == Cartesian ? 4e-7 * mag(lats, lons, la, lo) + 1e-6 : 3.0;
    for(size_t i = 0; i < lats.size(); i++) q.d.push_back(ref_straight(lats[i], lons[i], la, lo, t));
    return q;
}
// identical: same position exactly; near: within rounding
static void check_radius(Ctx& c, const std::string& api, const ivec& got, const vec& lats, const vec& lons, const Q& q, float la, float lo, double radius, bool match, const std::string& d) {
    std::set<int> s(got.begin(), got.end());
    c.okf(s.size() == got.size(), api + ":duplicate-index", [&] { return d + str(got); });
    for(int i : got) {
        if(!c.okf(i >= 0 && i < (int) lats.size(), api + ":bad-index", [&] { return d + str(got); })) return;
        c.okf(q.d[i] <= radius + q.tol, api + ":too-far", [&] { return d + strf("index %d dist %.9g", i, q.d[i]); });
        if(!match) c.okf(!(lats[i] == la && lons[i] == lo), api + ":match-not-excluded", [&] { return d + strf("index %d", i); });
    }
    for(size_t i = 0; i < lats.size(); i++) {
        if(q.d[i] < radius - q.tol && (match || q.d[i] > q.tol))
            c.okf(s.count(i), api + ":missed-neighbour", [&] { return d + strf("index %d dist %.9g got ", (int) i, q.d[i]) + str(got); });
    }
}
static void check_closest(Ctx& c, const std::string& api, const ivec& got, int num, const vec& lats, const vec& lons, const Q& q, float la, float lo, bool match, const std::string& d) {
    std::set<int> s(got.begin(), got.end());
    c.okf(s.size() == got.size(), api + ":duplicate-index", [&] { return d + str(got); });
    int sure = 0, maybe = 0;  // candidates certainly / possibly available
    for(size_t i = 0; i < lats.size(); i++) { if(match || q.d[i] > q.tol) sure++; if(match || !(lats[i] == la && lons[i] == lo)) maybe++; }
    c.okf((int) got.size() >= std::min(num, sure) && (int) got.size() <= std::min(num, maybe), api + ":wrong-count", [&] { return d + strf("got %d of %d candidates", (int) got.size(), sure) + str(got); });
    double worst = -1;
    for(int i : got) { if(!c.okf(i >= 0 && i < (int) lats.size(), api + ":bad-index", [&] { return d; })) return; worst = std::max(worst, q.d[i]); if(!match) c.okf(!(lats[i] == la && lons[i] == lo), api + ":match-not-excluded", [&] { return d + strf("index %d", i); }); }
    if(num > 0 && !got.empty()) for(size_t i = 0; i < lats.size(); i++) if(!s.count(i) && (match || q.d[i] > q.tol))
        c.okf(q.d[i] >= worst - 2 * q.tol, api + ":not-closest", [&] { return d + strf("index %d dist %.9g closer than returned %.9g ", (int) i, q.d[i], worst) + str(got); });
}
static void lookup(Rng& r, const vec& lats, const vec& lons, CoordinateType t, float& la, float& lo) {
    int k = lats.empty() ? -1 : r.i(0, (int) lats.size() - 1);
    if(k >= 0 && r.p(0.35)) { la = lats[k]; lo = lons[k]; }
    else if(k >= 0) { double s = t == Cartesian ? 100 : 0.5; la = lats[k] + s * r.n() * r.u(); lo = lons[k] + s * r.n() * r.u(); }
    else { la = t == Cartesian ? r.u(-1000, 1000) : r.u(-90, 90); lo = r.u(-180, 180); }
    if(t == Geodetic) la = std::max(-90.0f, std::min(90.0f, la));
    if(t == Geodetic && r.p(0.1)) lo += lo > 0 ? -360 : 360;
}
static double pick_radius(Rng& r, const Q& q) {
    if(q.d.empty() || r.p(0.2)) return std::exp(r.u(std::log(1.0), std::log(2e6)));
    double base = q.d[r.i(0, (int) q.d.size() - 1)];
    return std::max(0.5, base * r.u(0.5, 1.5));
}

CASEW(cloud, 4) {
    Rng& r = c.rng;
    CoordinateType t = r.p(0.3) ? Cartesian : Geodetic;
    int n = r.p(0.1) ? r.i(150, 400) : r.i(1, 60);
    vec lats, lons; gen_cloud(r, n, t, lats, lons);
    c.h(lats); c.h(lons);
    KDTree tree(lats, lons, t);
    Points pts(lats, lons, vec(), vec(), t);
    c.ok(tree.size() == n, "kdtree:size"); c.ok(pts.size() == n, "points:size");
    c.ok(tree.get_coordinate_type() == t && pts.get_coordinate_type() == t, "kdtree:type");
    KDTree tree2(tree); KDTree tree3; tree3 = tree; Points pts2(pts); Points pts3; pts3 = pts2;
    for(int rep = 0; rep < 3; rep++) {
        float la, lo; lookup(r, lats, lons, t, la, lo);
        Q q = dists(lats, lons, la, lo, t);
        bool match = r.p(0.6);
        double radius = (float) pick_radius(r, q);
        const KDTree& T = rep == 0 ? tree : (rep == 1 ? tree2 : tree3);
        const Points& Pn = rep == 0 ? pts : (rep == 1 ? pts2 : pts3);
        std::string d = strf("n=%d type=%d lookup=(%.9g,%.9g) radius=%.9g match=%d ", n, t, la, lo, radius, match);
        if(rep == 0) c.sample(d + "lats=" + str(lats, 6));
        ivec a = T.get_neighbours(la, lo, radius, match), b = Pn.get_neighbours(la, lo, radius, match);
        check_radius(c, "kdtree.get_neighbours", a, lats, lons, q, la, lo, radius, match, d);
        check_radius(c, "points.get_neighbours", b, lats, lons, q, la, lo, radius, match, d);
        c.ok(T.get_num_neighbours(la, lo, radius, match) == (int) a.size(), "kdtree.get_num_neighbours", d);
        c.ok(Pn.get_num_neighbours(la, lo, radius, match) == (int) b.size(), "points.get_num_neighbours", d);
        for(int w = 0; w < 2; w++) {
            vec dd; ivec e = w ? Pn.get_neighbours_with_distance(la, lo, radius, dd, match) : T.get_neighbours_with_distance(la, lo, radius, dd, match);
            std::string nm = w ? "points.get_neighbours_with_distance" : "kdtree.get_neighbours_with_distance";
            check_radius(c, nm, e, lats, lons, q, la, lo, radius, match, d);
            if(c.ok(dd.size() == e.size(), nm + ":size", d)) for(size_t i = 0; i < e.size(); i++) c.near(dd[i], q.d[e[i]], q.tol + 1e-5 * q.d[e[i]], nm + ":distance", [&] { return d; });
        }
        int num = r.p(0.5) ? 1 : r.i(1, n + 3);
        check_closest(c, "kdtree.get_closest_neighbours", T.get_closest_neighbours(la, lo, num, match), num, lats, lons, q, la, lo, match, d + strf("num=%d ", num));
        check_closest(c, "points.get_closest_neighbours", Pn.get_closest_neighbours(la, lo, num, match), num, lats, lons, q, la, lo, match, d + strf("num=%d ", num));
        int pn = Pn.get_nearest_neighbour(la, lo, match);
        check_closest(c, "points.get_nearest_neighbour", pn < 0 ? ivec() : ivec(1, pn), 1, lats, lons, q, la, lo, match, d);
        if(pn >= 0) check_closest(c, "kdtree.get_nearest_neighbour", ivec(1, T.get_nearest_neighbour(la, lo, match)), 1, lats, lons, q, la, lo, match, d);
    }
    // stored coordinates
    int k = r.i(0, n - 1);
    XYZ x = ref_xyz(lats[k], lons[k], t); double tol = t == Cartesian ? 1e-6 * (1 + std::fabs(lats[k]) + std::fabs(lons[k])) : 1.5;
    c.near(tree.get_x()[k], x.x, tol, "kdtree.x"); c.near(tree.get_y()[k], x.y, tol, "kdtree.y"); c.near(tree.get_z()[k], x.z, tol, "kdtree.z");
    c.ok(same_bits(tree.get_lats(), lats) && same_bits(tree.get_lons(), lons), "kdtree.latlon");
}

CASEW(points_object, 2) {
    Rng& r = c.rng; CoordinateType t = r.p(0.4) ? Cartesian : Geodetic;
    int n = r.i(1, 25); vec lats, lons; gen_cloud(r, n, t, lats, lons);
    vec elevs = gen_vec(r, n, 0.1, 0, 1000), lafs = gen_vec(r, n, 0.1, 0, 1);
    c.h(lats); c.h(elevs);
    int meta = r.i(0, 3);
    vec e = meta & 1 ? elevs : vec(), l = meta & 2 ? lafs : vec();
    std::string d = strf("n=%d type=%d meta=%d ", n, t, meta);
    c.sample(d);
    Points p = r.p(0.5) ? Points(lats, lons, e, l, t) : Points(KDTree(lats, lons, t), e, l);
    Points q(p); Points s; s = p;
    if(!(meta & 1)) elevs = vec(n, NaNf);
    if(!(meta & 2)) lafs = vec(n, NaNf);
    auto same = [&](const Points& g, const vec& la, const vec& lo, const vec& el, const vec& lf, const char* key) {
        vec a = g.get_lats(), b = g.get_lons(), ee = g.get_elevs(), ff = g.get_lafs();
        c.ok(g.size() == (int) la.size(), std::string(key) + ":size", d);
        c.ok(g.get_coordinate_type() == t || la.empty(), std::string(key) + ":type", d);
        if(!c.ok(a.size() == la.size() && b.size() == la.size() && ee.size() == la.size() && ff.size() == la.size(), std::string(key) + ":attribute-size", d)) return;
        for(size_t i = 0; i < la.size(); i++) {
            c.near(a[i], la[i], 0, std::string(key) + ":lat"); c.near(b[i], lo[i], 0, std::string(key) + ":lon"); c.near(ee[i], el[i], 0, std::string(key) + ":elev"); c.near(ff[i], lf[i], 0, std::string(key) + ":laf");
            Point pt = g.get_point(i); XYZ x = ref_xyz(la[i], lo[i], t); double tol = t == Cartesian ? 1e-6 * (1 + std::fabs(la[i]) + std::fabs(lo[i])) : 1.5;
            c.near(pt.lat, la[i], 0, std::string(key) + ":get_point.lat"); c.near(pt.lon, lo[i], 0, std::string(key) + ":get_point.lon"); c.near(pt.elev, el[i], 0, std::string(key) + ":get_point.elev"); c.near(pt.laf, lf[i], 0, std::string(key) + ":get_point.laf");
            c.near(pt.x, x.x, tol, std::string(key) + ":get_point.x"); c.near(pt.y, x.y, tol, std::string(key) + ":get_point.y"); c.near(pt.z, x.z, tol, std::string(key) + ":get_point.z");
            c.ok(pt.type == t, std::string(key) + ":get_point.type");
            Point own(la[i], lo[i], el[i], lf[i], t);
            c.near(own.x, x.x, tol, "point.ctor.x", [&] { return d; }); c.near(own.y, x.y, tol, "point.ctor.y", [&] { return d; }); c.near(own.z, x.z, tol, "point.ctor.z", [&] { return d; });
        }
    };
    same(p, lats, lons, elevs, lafs, "points"); same(q, lats, lons, elevs, lafs, "points.copy"); same(s, lats, lons, elevs, lafs, "points.assign");
    ivec idx; int m = r.i(0, n + 2); for(int i = 0; i < m; i++) idx.push_back(r.i(0, n - 1));
    vec la, lo, el, lf; for(int i : idx) { la.push_back(lats[i]); lo.push_back(lons[i]); el.push_back(elevs[i]); lf.push_back(lafs[i]); }
    same(p.subset(idx), la, lo, el, lf, "points.subset");
    // the subset must search like the original
    if(m > 0) {
        Points sub = p.subset(idx); float qa, qo; lookup(r, la, lo, t, qa, qo); Q qq = dists(la, lo, qa, qo, t); double rad = (float) pick_radius(r, qq);
        check_radius(c, "points.subset.get_neighbours", sub.get_neighbours(qa, qo, rad), la, lo, qq, qa, qo, rad, true, d);
    }
    for(int bad : {n, n + r.i(1, 1000), -1, -r.i(2, 1000)}) { ivec bi = idx; bi.push_back(bad); bool ret = runs([&] { p.subset(bi); }); c.ok(!ret, "points.subset:accepts-bad-index", d + strf("index %d", bad)); }
    // size mismatches are refused
    vec shorter(n + r.pick({-1, 1, 2}));
    if((int) shorter.size() != n) {
        c.ok(!runs([&] { Points b(lats, shorter, vec(), vec(), t); }), "points.ctor:accepts-lon-mismatch", d);
        if(shorter.size() > 0) { c.ok(!runs([&] { Points b(lats, lons, shorter, vec(), t); }), "points.ctor:accepts-elev-mismatch", d); c.ok(!runs([&] { Points b(lats, lons, vec(), shorter, t); }), "points.ctor:accepts-laf-mismatch", d); }
    }
}

CASEW(grid_object, 3) {
    Rng& r = c.rng; GridOpt o; o.maxLat = 80; o.meta = r.p(0.7); GridSpec g = gen_grid(r, o);
    Grid grid = g.grid(); c.h(g.lats); c.h(g.lons);
    std::string d = g.desc + " "; c.sample(d);
    ivec sz = grid.size();
    if(!c.ok(sz.size() == 2 && sz[0] == g.Y && sz[1] == g.X, "grid.size", d)) return;
    c.ok(grid.get_coordinate_type() == g.type, "grid.type", d);
    c.ok(same_bits(grid.get_lats(), g.lats) && same_bits(grid.get_lons(), g.lons), "grid.latlon", d);
    vec2 E = grid.get_elevs(), L = grid.get_lafs();
    vec fl, fo; Points tp = grid.to_points();
    vec ta = tp.get_lats(), to = tp.get_lons(), te = tp.get_elevs(), tl = tp.get_lafs();
    c.ok(tp.size() == g.Y * g.X && (int) te.size() == g.Y * g.X && (int) tl.size() == g.Y * g.X, "grid.to_points.size", d);
    c.ok(tp.get_coordinate_type() == g.type, "grid.to_points.type", d);
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
        int k = y * g.X + x; fl.push_back(g.lats[y][x]); fo.push_back(g.lons[y][x]);
        float we = o.meta ? g.elevs[y][x] : NaNf, wl = o.meta ? g.lafs[y][x] : NaNf;
        c.near(E[y][x], we, 0, "grid.elev"); c.near(L[y][x], wl, 0, "grid.laf");
        c.near(ta[k], g.lats[y][x], 0, "grid.to_points.lat"); c.near(to[k], g.lons[y][x], 0, "grid.to_points.lon"); c.near(te[k], we, 0, "grid.to_points.elev"); c.near(tl[k], wl, 0, "grid.to_points.laf");
        Point p = grid.get_point(y, x); XYZ w = ref_xyz(g.lats[y][x], g.lons[y][x], g.type); double tol = g.type == Cartesian ? 1e-6 * (1 + std::fabs(w.x) + std::fabs(w.y)) : 1.5;
        c.near(p.x, w.x, tol, "grid.get_point.x"); c.near(p.y, w.y, tol, "grid.get_point.y"); c.near(p.z, w.z, tol, "grid.get_point.z"); c.near(p.lat, g.lats[y][x], 0, "grid.get_point.lat"); c.near(p.lon, g.lons[y][x], 0, "grid.get_point.lon"); c.near(p.elev, we, 0, "grid.get_point.elev"); c.near(p.laf, wl, 0, "grid.get_point.laf");
        c.ok(p.type == g.type, "grid.get_point.type", d);
    }
    for(int rep = 0; rep < 3; rep++) {
        float la, lo; gen_loc(r, g, 2, la, lo); if(r.p(0.3)) { int k = r.i(0, (int) fl.size() - 1); la = fl[k]; lo = fo[k]; }
        Q q = dists(fl, fo, la, lo, g.type); double radius = (float) pick_radius(r, q); bool match = r.p(0.6);
        std::string dd = d + strf("lookup=(%.9g,%.9g) radius=%.9g match=%d ", la, lo, radius, match);
        bool bad = false;
        auto flat = [&](const ivec2& I) { ivec f; for(auto& v : I) { if(v.size() != 2 || v[0] < 0 || v[1] < 0 || v[0] >= g.Y || v[1] >= g.X) { bad = true; continue; } f.push_back(v[0] * g.X + v[1]); } return f; };
        ivec a = flat(grid.get_neighbours(la, lo, radius, match));
        check_radius(c, "grid.get_neighbours", a, fl, fo, q, la, lo, radius, match, dd);
        c.ok(grid.get_num_neighbours(la, lo, radius, match) == (int) a.size(), "grid.get_num_neighbours", dd);
        vec dist; ivec e = flat(grid.get_neighbours_with_distance(la, lo, radius, dist, match));
        check_radius(c, "grid.get_neighbours_with_distance", e, fl, fo, q, la, lo, radius, match, dd);
        if(c.ok(dist.size() == e.size(), "grid.get_neighbours_with_distance:size", dd)) for(size_t i = 0; i < e.size(); i++) c.near(dist[i], q.d[e[i]], q.tol + 1e-5 * q.d[e[i]], "grid.get_neighbours_with_distance:distance", [&] { return dd; });
        int num = r.i(1, g.Y * g.X + 2);
        check_closest(c, "grid.get_closest_neighbours", flat(grid.get_closest_neighbours(la, lo, num, match)), num, fl, fo, q, la, lo, match, dd);
        ivec nn = grid.get_nearest_neighbour(la, lo, match);
        check_closest(c, "grid.get_nearest_neighbour", nn.empty() ? ivec() : flat(ivec2(1, nn)), 1, fl, fo, q, la, lo, match, dd);
        c.ok(!bad, "grid:index-out-of-grid", dd);
    }
}

CASEW(box, 3) {
    Rng& r = c.rng; GridOpt o; o.maxLat = 60; o.maxSp = 0.3; o.isotropic = true; o.shear = 0.2; o.rotate = 0.4; GridSpec g = gen_grid(r, o); Grid grid = g.grid(); c.h(g.lats); c.h(g.lons);
    c.sample(g.desc);
    // a box test on the lat/lon plane; margin in cells absorbs float rounding
    double eps = 1e-3 + (g.type == Geodetic ? 4e-5 / std::min(g.dlat, g.dlon) : 1e-6 * (std::fabs(g.lat0) + std::fabs(g.lon0) + 10 * g.dlat) / std::min(g.dlat, g.dlon));
    vec pl, po; std::vector<int> state;
    for(int rep = 0; rep < 8; rep++) {
        float la, lo; gen_loc(r, g, 1.2, la, lo);
        double Yr = (la - g.lat0) / g.dlat, Xr = (lo - g.lon0) / g.dlon;
        double y = std::cos(g.ang) * Yr - std::sin(g.ang) * Xr, xx = std::sin(g.ang) * Yr + std::cos(g.ang) * Xr, x = xx - g.shear * y;
        int Y1 = -5, X1 = -5, Y2 = -5, X2 = -5;
        bool got = grid.get_box(la, lo, Y1, X1, Y2, X2);
        double in = std::min(std::min(y, g.Y - 1 - y), std::min(x, g.X - 1 - x));
        std::string d = g.desc + strf(" lookup=(%.9g,%.9g) cell coords y=%.6f x=%.6f -> %d [%d,%d]x[%d,%d]", la, lo, y, x, got, Y1, Y2, X1, X2);
        bool has = g.Y > 1 && g.X > 1;
        pl.push_back(la); po.push_back(lo); state.push_back(has && in > eps ? 1 : (!has || in < -eps ? 0 : -1));
        if(has && in > eps) c.ok(got, "get_box:inside-not-found", d);
        if(!has || in < -eps) c.ok(!got, "get_box:outside-found", d);
        if(got) {
            c.ok(Y2 == Y1 + 1 && X2 == X1 + 1 && Y1 >= 0 && X1 >= 0 && Y2 < g.Y && X2 < g.X, "get_box:not-a-cell", d);
            c.ok(y >= Y1 - eps && y <= Y2 + eps && x >= X1 - eps && x <= X2 + eps, "get_box:wrong-cell", d);
        }
    }
    PointsSpec ps; ps.type = g.type; ps.lats = pl; ps.lons = po; ps.elevs = gen_vec(r, pl.size(), 0); ps.lafs = gen_vec(r, pl.size(), 0); Points pts = ps.points();
    ivec I = pts.get_in_domain_indices(grid); std::set<int> S(I.begin(), I.end());
    c.ok(std::is_sorted(I.begin(), I.end()) && S.size() == I.size(), "in_domain:order", str(I));
    for(size_t i = 0; i < pl.size(); i++) { if(state[i] == 1) c.ok(S.count(i), "in_domain:inside-missing", g.desc); if(state[i] == 0) c.ok(!S.count(i), "in_domain:outside-kept", g.desc); }
    Points sub = pts.get_in_domain(grid);
    c.ok(sub.get_coordinate_type() == g.type, "in_domain:type", g.desc);
    if(c.ok(sub.size() == (int) I.size(), "in_domain:size", g.desc)) for(size_t k = 0; k < I.size(); k++) { c.near(sub.get_lats()[k], pl[I[k]], 0, "in_domain:lat"); c.near(sub.get_lons()[k], po[I[k]], 0, "in_domain:lon"); c.near(sub.get_elevs()[k], ps.elevs[I[k]], 0, "in_domain:elev"); c.near(sub.get_lafs()[k], ps.lafs[I[k]], 0, "in_domain:laf"); }
}

CASEW(rectangle, 1) {
    Rng& r = c.rng; CoordinateType t = r.p(0.5) ? Cartesian : Geodetic; double S = t == Cartesian ? 1000 : 1;
    double la0 = r.u(-50, 50) * S, lo0 = r.u(-50, 50) * S, a = r.u(0, 2 * M_PI), h = std::exp(r.u(-4, 3)) * S, w = h * r.u(0.3, 3), sh = r.u(-0.5, 0.5);
    bool cw = r.p(0.5);
    auto P = [&](double u, double v) { double y = v * h, x = u * w + sh * v * h; if(cw) x = -x; return std::make_pair((float) (la0 + y * std::cos(a) - x * std::sin(a)), (float) (lo0 + y * std::sin(a) + x * std::cos(a))); };
    auto A = P(0, 0), B = P(0, 1), C = P(1, 1), D = P(1, 0);
    if(t == Geodetic && std::fabs(la0) + 2.2 * (h + w) > 89) return;
    double tol = 1e-3 + 2e-7 * (std::fabs(la0) + std::fabs(lo0)) / std::min(h, w) * 10;
    if(tol > 0.05) tol = 0.05;
    if(2e-6 * (std::fabs(la0) + std::fabs(lo0)) > 0.02 * std::min(h, w)) return;
    Point pa(A.first, A.second, 0, 0, t), pb(B.first, B.second, 0, 0, t), pc(C.first, C.second, 0, 0, t), pd(D.first, D.second, 0, 0, t);
    for(int k = 0; k < 6; k++) {
        double u = r.u(-0.7, 1.7), v = r.u(-0.7, 1.7); auto M = P(u, v); Point m(M.first, M.second, 0, 0, t);
        double in = std::min(std::min(u, 1 - u), std::min(v, 1 - v));
        if(std::fabs(in) < 10 * tol) continue;
        c.h(u); c.h(v);
        bool got = point_in_rectangle(pa, pb, pc, pd, m);
        c.okf(got == (in > 0), "point_in_rectangle", [&] { return strf("A(%.7g,%.7g) B(%.7g,%.7g) C(%.7g,%.7g) D(%.7g,%.7g) m(%.7g,%.7g) u=%.4f v=%.4f got %d", pa.lat, pa.lon, pb.lat, pb.lon, pc.lat, pc.lon, pd.lat, pd.lon, m.lat, m.lon, u, v, got); });
    }
}

CASEW(distance_functions, 2) {
    Rng& r = c.rng; CoordinateType t = r.p(0.25) ? Cartesian : Geodetic;
    vec la, lo; gen_cloud(r, 2, t, la, lo);
    if(r.p(0.35)) { double s = std::pow(10, r.u(-8, -1)); la[1] = la[0] + s * r.n(); lo[1] = lo[0] + s * r.n(); if(r.p(0.3)) la[1] = std::nextafter(la[0], 1e9f); if(r.p(0.3)) lo[1] = std::nextafter(lo[0], 1e9f); if(t == Geodetic) la[1] = std::max(-90.f, std::min(90.f, la[1])); }
    c.h(la); c.h(lo);
    std::string d = strf("type=%d (%.9g,%.9g)-(%.9g,%.9g)", t, la[0], lo[0], la[1], lo[1]);
    c.sample(d);
    float g1 = KDTree::calc_distance(la[0], lo[0], la[1], lo[1], t), g2 = KDTree::calc_distance(la[1], lo[1], la[0], lo[0], t);
    Point p(la[0], lo[0], 0, 0, t), q(la[1], lo[1], 0, 0, t);
    double straight = ref_straight(la[0], lo[0], la[1], lo[1], t), R = 6.378137e6;
    double want = t == Cartesian ? straight : 2 * R * std::asin(std::min(1.0, straight / 2 / R));
    double tol = t == Cartesian ? 1e-5 * want + 4e-7 * (std::fabs(la[0]) + std::fabs(lo[0]) + std::fabs(la[1]) + std::fabs(lo[1])) : 6 + 1e-5 * want;
    if(t == Geodetic && straight > 1.99 * R) tol = 0.01 * want;
    tol += 1e-12;
    c.near(g1, want, tol, "calc_distance", [&] { return d; });
    c.near(g2, want, tol, "calc_distance:reverse", [&] { return d; });
    c.near(KDTree::calc_distance(p, q), want, tol, "calc_distance:points", [&] { return d; });
    double st = t == Cartesian ? tol : 3 + 1e-6 * straight;
    c.near(KDTree::calc_straight_distance(p, q), straight, st, "calc_straight_distance:points", [&] { return d; });
    float x0, y0, z0, x1, y1, z1; convert_coordinates(la[0], lo[0], t, x0, y0, z0); convert_coordinates(la[1], lo[1], t, x1, y1, z1);
    c.near(KDTree::calc_straight_distance(x0, y0, z0, x1, y1, z1), straight, st, "calc_straight_distance:xyz", [&] { return d; });
    float f1 = KDTree::calc_distance_fast(la[0], lo[0], la[1], lo[1], t), f2 = KDTree::calc_distance_fast(la[1], lo[1], la[0], lo[0], t);
    c.near(f1, f2, 1e-4 * (1 + std::fabs(f1)) + 2, "calc_distance_fast:asymmetric", [&] { return d; });
    double dlat = std::fabs(la[0] - la[1]);
    if(t == Cartesian) c.near(f1, want, tol, "calc_distance_fast:cartesian", [&] { return d; });
    else if(dlat < 1 && want < 2e5 && std::fabs(la[0]) < 70 && std::fabs(la[1]) < 70) c.near(f1, want, 0.06 * want + 6, "calc_distance_fast", [&] { return d; });
    if(la[0] == la[1] && lo[0] == lo[1]) { c.ok(g1 == 0, "calc_distance:zero", d); c.ok(f1 == 0, "calc_distance_fast:zero", d); }
    if(t == Geodetic) { Point z(la[0], lo[0], 0, 0, Cartesian); c.ok(!runs([&] { KDTree::calc_distance(z, q); }), "calc_distance:mixed-types-accepted", d); }
    float dg = r.u(-400, 400); c.near(KDTree::deg2rad(dg), dg * M_PI / 180, 1e-6 * (1 + std::fabs(dg)), "deg2rad"); c.near(KDTree::rad2deg(dg), dg * 180 / M_PI, 1e-4 * (1 + std::fabs(dg)), "rad2deg");
    // coordinate conversion: radius and validity
    if(t == Geodetic) c.near(std::sqrt((double) x0 * x0 + (double) y0 * y0 + (double) z0 * z0), R, 3, "convert_coordinates:radius", [&] { return d; });
    float bad = r.pick({NaNf, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity()});
    c.ok(!runs([&] { convert_coordinates(bad, lo[0], t, x0, y0, z0); }) && !runs([&] { convert_coordinates(la[0], bad, t, x0, y0, z0); }), "convert_coordinates:accepts-invalid", d);
    if(t == Geodetic) c.ok(!runs([&] { convert_coordinates(r.pick({90.5, -90.5, 91.0, -1000.0}), lo[0], t, x0, y0, z0); }), "convert_coordinates:accepts-lat", d);
}
