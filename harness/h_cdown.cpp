// C25: the client's downscalers and neighbour search against exhaustive references.
#include "client.h"
static const double R = 6.378137e6, D2R = M_PI / 180;
static double gc(double la1, double lo1, double la2, double lo2) {
    double a = std::sin((la2 - la1) * D2R / 2), b = std::sin((lo2 - lo1) * D2R / 2);
    double h = a * a + std::cos(la1 * D2R) * std::cos(la2 * D2R) * b * b;
    return 2 * R * std::asin(std::sqrt(std::min(1.0, h)));
}
static float norm_lon(float l) { return l; }
// mode: 0 regular, 1 rotated/sheared, 2 scattered, 3 mildly rotated with converging meridians
static CGrid make_grid(Rng& r, int mode, bool wide, int minN = 1, int maxN = 8) {
    CGrid g; g.Y = r.i(minN, maxN); g.X = r.i(minN, maxN); g.lats = init2(g.Y, g.X); g.lons = g.lats; g.elevs = g.lats; g.lafs = g.lats;
    double sp = wide ? r.u(0.5, 12) : std::exp(r.u(std::log(0.002), std::log(0.5)));
    double la0 = wide ? r.u(-80, 60) : r.u(-75, 70), lo0 = wide ? r.u(-180, 150) : (r.p(0.1) ? r.u(178.5, 180) : r.u(-175, 170));
    double dx = sp * r.u(0.6, 1.6) / std::max(0.25, std::cos(la0 * D2R)), dy = sp; bool fy = r.p(0.4), fx = r.p(0.3); if(mode == 3) fx = fy; if(fy) dy = -dy; if(fx) dx = -dx; // (bilinear refuses mirrored grids that are not parallelograms)
    double ang = mode == 1 ? r.u(-0.4, 0.4) : mode == 3 ? r.pick({0.0, 1e-6, 1e-4, (double) r.u(-0.15, 0.15), (double) r.u(-0.15, 0.15)}) : 0, sh = mode == 1 && r.p(0.5) ? r.u(-0.2, 0.2) : 0;
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
        double yy = y, xx = x + sh * y; if(mode == 2) { yy = r.u(0, g.Y); xx = r.u(0, g.X); if(r.p(0.1)) yy = std::round(yy); if(r.p(0.1)) xx = std::round(xx); }
        double la = la0 + (std::cos(ang) * yy + std::sin(ang) * xx) * dy, lo = lo0 + (-std::sin(ang) * yy + std::cos(ang) * xx) * dx * (mode == 3 ? std::cos(la0 * D2R) / std::max(0.05, std::cos(std::max(-89.0, std::min(89.0, la)) * D2R)) : 1);
        la = std::max(-89.0, std::min(89.0, la)); lo = std::fmod(lo + 540, 360) - 180; if(lo < -180) lo += 360;
        g.lats[y][x] = la; g.lons[y][x] = lo; g.elevs[y][x] = r.p(0.05) ? MV : r.u(0, 600); g.lafs[y][x] = r.p(0.05) ? MV : (r.p(0.3) ? r.i(0, 1) : r.u());
    }
    if(r.p(0.1) && g.Y * g.X > 1) { int y = r.i(0, g.Y - 1), x = r.i(0, g.X - 1), y2 = r.i(0, g.Y - 1), x2 = r.i(0, g.X - 1); if(mode == 2) { g.lats[y][x] = g.lats[y2][x2]; g.lons[y][x] = g.lons[y2][x2]; } }
    g.desc = strf("%dx%d mode=%d lat0=%.5g lon0=%.5g dy=%.4g dx=%.4g ang=%.3g shear=%.3g", g.Y, g.X, mode, la0, lo0, dy, dx, ang, sh);
    return g;
}
// locations in and around the grid
static CGrid make_out(Rng& r, const CGrid& in, double margin, int maxN = 6) {
    CGrid g = in; int how = r.i(0, 9);
    if(how == 0) { g.desc = "same grid"; for(auto& row : g.elevs) for(auto& v : row) if(r.p(0.3)) v = r.u(0, 900); return g; }
    g.Y = r.i(1, maxN); g.X = r.i(1, maxN); if(how == 1) { g.Y = in.Y; g.X = in.X; }
    g.lats = init2(g.Y, g.X); g.lons = g.lats; g.elevs = g.lats; g.lafs = g.lats;
    auto at = [&](const vec2& a, double y, double x) { int y0 = std::max(0, std::min(in.Y - 2, (int) std::floor(y))), x0 = std::max(0, std::min(in.X - 2, (int) std::floor(x))); int y1 = std::min(in.Y - 1, y0 + 1), x1 = std::min(in.X - 1, x0 + 1); double fy = y1 > y0 ? y - y0 : 0, fx = x1 > x0 ? x - x0 : 0;
        double b = a[y0][x0]; auto d = [&](double v) { double q = v - b; if(q > 180) q -= 360; if(q < -180) q += 360; return q; };
        return b + (1 - fy) * fx * d(a[y0][x1]) + fy * (1 - fx) * d(a[y1][x0]) + fy * fx * d(a[y1][x1]); };
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
        double yy = r.u(-margin, in.Y - 1 + margin), xx = r.u(-margin, in.X - 1 + margin); if(r.p(0.15)) yy = std::round(yy); if(r.p(0.15)) xx = std::round(xx);
        double la = at(in.lats, yy, xx), lo = at(in.lons, yy, xx);
        if(r.p(0.1)) { int a = r.i(0, in.Y - 1), b = r.i(0, in.X - 1); la = in.lats[a][b]; lo = in.lons[a][b]; if(r.p(0.3)) la += r.u(-1e-5, 1e-5); }
        la = std::max(-89.5, std::min(89.5, la)); while(lo > 180) lo -= 360; while(lo < -180) lo += 360;
        g.lats[y][x] = la; g.lons[y][x] = lo; g.elevs[y][x] = r.p(0.08) ? MV : r.u(0, 900); g.lafs[y][x] = r.p(0.08) ? MV : (r.p(0.3) ? r.i(0, 1) : r.u());
    }
    g.desc = "out"; return g;
}
static void fill(Rng& r, File& f, const Variable& v, double miss, double lo, double hi, bool ints = false) {
    for(int t = 0; t < f.getNumTime(); t++) { FieldPtr p = f.getEmptyField(); for(int y = 0; y < f.getNumY(); y++) for(int x = 0; x < f.getNumX(); x++) for(int e = 0; e < f.getNumEns(); e++) { float q = r.u(lo, hi); if(ints) q = std::round(q); if(r.p(miss)) q = r.p(0.8) ? MV : NaNf; (*p)(y, x, e) = q; } f.addField(p, v, t); }
}
struct Near { int y, x; double d; };
// exhaustive search; amb = other nodes within rounding of the best
static Near exhaustive(const vec2& lats, const vec2& lons, double la, double lo, double tol, std::vector<std::pair<int, int>>* amb = nullptr) {
    Near n{-1, -1, 1e30};
    for(size_t y = 0; y < lats.size(); y++) for(size_t x = 0; x < lats[y].size(); x++) { if(!cv(lats[y][x]) || !cv(lons[y][x])) continue; double d = gc(lats[y][x], lons[y][x], la, lo); if(d < n.d) n = {(int) y, (int) x, d}; }
    if(amb) for(size_t y = 0; y < lats.size(); y++) for(size_t x = 0; x < lats[y].size(); x++) { if(!cv(lats[y][x]) || !cv(lons[y][x])) continue; if(gc(lats[y][x], lons[y][x], la, lo) <= n.d + tol) amb->push_back({(int) y, (int) x}); }
    return n;
}
static double dist_tol(double d) { return 6 + 2e-7 * d; }
static bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static void check_index(Ctx& c, const char* what, const vec2& il, const vec2& io, float la, float lo, int I, int J, const std::string& d) {
    if(!cv(la) || !cv(lo)) { c.okf(I == (int) MV && J == (int) MV, std::string(what) + ":missing-location", [&] { return d + strf(" got (%d,%d)", I, J); }); return; }
    if(!c.okf(I >= 0 && I < (int) il.size() && J >= 0 && J < (int) il[0].size() && cv(il[I][J]) && cv(io[I][J]), std::string(what) + ":index", [&] { return d + strf(" got (%d,%d)", I, J); })) return;
    Near n = exhaustive(il, io, la, lo, 0);
    double got = gc(il[I][J], io[I][J], la, lo);
    c.okf(got <= n.d + dist_tol(n.d), std::string(what) + ":not-nearest", [&] { return d + strf(" lookup (%.9g,%.9g) got (%d,%d)=(%.9g,%.9g) at %.3f m, nearest (%d,%d)=(%.9g,%.9g) at %.3f m", la, lo, I, J, il[I][J], io[I][J], got, n.y, n.x, il[n.y][n.x], io[n.y][n.x], n.d); });
}

CASEW(nearest, 4) {
    Rng& r = c.rng; Downscaler::clearCache();
    bool wide = r.p(0.25); CGrid in = make_grid(r, r.i(0, 2), wide), out = make_out(r, in, 2.5);
    if(wide) for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) if(r.p(0.3)) { out.lats[y][x] = r.u(-89, 89); out.lons[y][x] = r.u(-180, 180); }
    if(r.p(0.15)) for(auto& row : out.lats) for(auto& v : row) if(r.p(0.2)) v = NaNf;
    if(r.p(0.1) && in.Y * in.X > 2) for(auto& row : in.lons) for(auto& v : row) if(r.p(0.15) && &v != &in.lons[0][0]) v = NaNf;
    if(!cv(in.lats[0][0]) || !cv(in.lons[0][0])) return;
    int E = r.i(1, 3), T = r.i(1, 3); std::string d = in.desc;
    // longitudes from 0 to 360 in one or both of the grids
    if(r.p(0.15)) { for(auto& row : in.lons) for(auto& q : row) if(q < 0) q += 360; d += " in 0..360"; } if(r.p(0.15)) { for(auto& row : out.lons) for(auto& q : row) if(q < 0) q += 360; d += " out 0..360"; }
    std::unique_ptr<FileFake> fi(fake(in, E, T)), fo(fake(out, E, T));
    Variable v("var"); fill(r, *fi, v, r.pick({0.0, 0.1, 0.5}), -20, 40);
    if(r.p(0.3)) fill(r, *fo, v, 0, 100, 200);
    vec2 il = fi->getLats(), io = fi->getLons(), ol = fo->getLats(), oo = fo->getLons();
    for(int round = 0; round < 2; round++) {
        vec2Int I, J; 
        int which = r.i(0, 3);
        if(which == 0) { Downscaler::getNearestNeighbourBruteForce(*fi, *fo, I, J); }
        else if(which == 1) { KDTree t(il, io); KDTree t2; if(r.p(0.5)) t2 = t; else { KDTree t3(t); t2 = t3; } t2.getNearestNeighbour(*fo, I, J); }
        else Downscaler::getNearestNeighbour(*fi, *fo, I, J);
        const char* nm = which == 0 ? "bruteforce" : which == 1 ? "tree" : "search";
        if(c.ok((int) I.size() == out.Y && (int) J.size() == out.Y && (int) I[0].size() == out.X && (int) J[0].size() == out.X, "search:shape"))
            for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) check_index(c, nm, il, io, ol[y][x], oo[y][x], I[y][x], J[y][x], d);
        Downscaler::clearCache();
        std::unique_ptr<Downscaler> ds(Downscaler::getScheme("nearestNeighbour", v, v, Options()));
        if(!c.ok(ds->downscale(*fi, *fo), "nearest:refused", d)) return;
        for(int t = 0; t < T; t++) { Field& a = *fi->getField(v, t); Field& b = *fo->getField(v, t); for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) {
            if(!cv(ol[y][x]) || !cv(oo[y][x])) { for(int e = 0; e < E; e++) c.okf(b(y, x, e) == MV, "nearest:missing-location", [&] { return d; }); continue; }
            std::vector<std::pair<int, int>> amb; Near n = exhaustive(il, io, ol[y][x], oo[y][x], 0); exhaustive(il, io, ol[y][x], oo[y][x], dist_tol(n.d), &amb);
            bool good = false; for(auto& q : amb) { bool all = true; for(int e = 0; e < E; e++) if(!same(a(q.first, q.second, e), b(y, x, e))) all = false; good |= all; }
            c.okf(good, "nearest:value", [&] { return d + strf(" t=%d (%d,%d)=(%.8g,%.8g) got %.8g want %.8g of (%d,%d)", t, y, x, ol[y][x], oo[y][x], b(y, x, 0), a(n.y, n.x, 0), n.y, n.x); });
        } c.h(b(0, 0, 0)); }
        // the grids change: the search must follow
        if(round == 0) {
            if(r.p(0.5)) { for(auto& row : il) for(auto& q : row) q = std::max(-89.f, std::min(89.f, q + (float) r.u(-1, 1))); fi->setLats(il); } else { for(auto& row : oo) for(auto& q : row) q = q > 180 ? std::min(359.f, q + (float) r.u(-2, 2)) : std::max(-179.f, std::min(179.f, q + (float) r.u(-2, 2))); fo->setLons(oo); oo = fo->getLons(); }
            for(int t = 0; t < T; t++) for(int e = 0; e < E; e++) (*fi->getField(v, t))(0, 0, e) = r.u(300, 400);
        }
    }
    // single points
    KDTree tree(il, io);
    for(int k = 0; k < 4; k++) { float la = r.u(-89, 89), lo = r.u(-180, 180); if(r.p(0.7)) { la = ol[r.i(0, out.Y - 1)][r.i(0, out.X - 1)]; lo = oo[r.i(0, out.Y - 1)][r.i(0, out.X - 1)]; } if(!cv(la) || !cv(lo)) continue;
        int I = -1, J = -1; tree.getNearestNeighbour(la, lo, I, J); check_index(c, "tree-point", il, io, la, lo, I, J, d);
        Downscaler::getNearestNeighbourBruteForce(*fi, lo, la, I, J); check_index(c, "bruteforce-point", il, io, la, lo, I, J, d); }
    c.sample(d);
}

CASEW(cache, 1) {
    // results remembered between calls belong to the pair of grids they were computed for
    Rng& r = c.rng; Downscaler::clearCache(); std::vector<std::unique_ptr<FileFake>> fs; std::vector<CGrid> gs; CGrid base = make_grid(r, r.i(0, 2), false, 2);
    for(int k = 0; k < 4; k++) { CGrid g = k == 0 ? base : make_out(r, base, 1.5); gs.push_back(g); fs.emplace_back(fake(g, 1, 1)); }
    for(int k = 0; k < 10; k++) { int a = r.i(0, 3), b = r.i(0, 3); vec2Int I, J; if(r.p(0.7)) Downscaler::getNearestNeighbour(*fs[a], *fs[b], I, J); else Downscaler::getNearestNeighbourBruteForce(*fs[a], *fs[b], I, J);
        vec2 il = fs[a]->getLats(), io = fs[a]->getLons(), ol = fs[b]->getLats(), oo = fs[b]->getLons();
        if(!c.ok(I.size() == ol.size() && I[0].size() == ol[0].size(), "cache:shape")) return;
        for(size_t y = 0; y < ol.size(); y++) for(size_t x = 0; x < ol[y].size(); x++) check_index(c, "cache", il, io, ol[y][x], oo[y][x], I[y][x], J[y][x], base.desc);
        if(r.p(0.3)) { vec2 l = fs[b]->getLats(); l[0][0] = std::max(-89.f, std::min(89.f, l[0][0] + 0.5f)); if(r.p(0.5)) fs[b]->setLats(l); else { vec2 m = fs[b]->getLons(); std::reverse(m.begin(), m.end()); fs[b]->setLons(m); } } c.h((double) I[0][0]); c.h((double) J[0][0]); }
    c.sample(base.desc);
}

// inverse bilinear map, corners 00 01 10 11 = (I,J) (I,J+1) (I+1,J) (I+1,J+1); u along J, v along I
static bool inverse(const double px[4], const double py[4], double x, double y, double& u, double& v) {
    u = v = 0.5;
    for(int it = 0; it < 60; it++) {
        double fx = px[0] * (1 - u) * (1 - v) + px[1] * u * (1 - v) + px[2] * (1 - u) * v + px[3] * u * v - x;
        double fy = py[0] * (1 - u) * (1 - v) + py[1] * u * (1 - v) + py[2] * (1 - u) * v + py[3] * u * v - y;
        double ax = (px[1] - px[0]) * (1 - v) + (px[3] - px[2]) * v, bx = (px[2] - px[0]) * (1 - u) + (px[3] - px[1]) * u;
        double ay = (py[1] - py[0]) * (1 - v) + (py[3] - py[2]) * v, by = (py[2] - py[0]) * (1 - u) + (py[3] - py[1]) * u;
        double det = ax * by - bx * ay; if(det == 0) return false;
        double du = (fx * by - bx * fy) / det, dv = (ax * fy - fx * ay) / det; u -= du; v -= dv; if(std::fabs(du) + std::fabs(dv) < 1e-13) break;
        if(std::fabs(u) > 50 || std::fabs(v) > 50) return false;
    }
    return true;
}
CASEW(bilinear, 4) {
    Rng& r = c.rng; Downscaler::clearCache(); bool regular = r.p(0.6); CGrid in = make_grid(r, regular ? 0 : 3, false, regular && r.p(0.1) ? 1 : 2);
    // away from the date line and poles
    for(auto& row : in.lons) for(auto v : row) if(std::fabs(v - in.lons[0][0]) > 90) return;
    for(auto& row : in.lats) for(auto v : row) if(std::fabs(v) > 80) return;
    CGrid out = make_out(r, in, 1.0);
    for(auto& row : out.lons) for(auto v : row) if(std::fabs(v - in.lons[0][0]) > 90) return;
    int E = r.i(1, 3), T = r.i(1, 2); std::string d = in.desc;
    std::unique_ptr<FileFake> fi(fake(in, E, T)), fo(fake(out, E, T)); Variable v("var"), w(r.p(0.5) ? "var" : "other"); fill(r, *fi, v, r.pick({0.0, 0.0, 0.1, 0.4}), -20, 40);
    std::unique_ptr<Downscaler> ds(Downscaler::getScheme("bilinear", v, w, Options())); bool ran = false;
    bool okrun = client_runs([&] { ran = ds->downscale(*fi, *fo); });
    if(!okrun) { c.okf(!regular, "bilinear:error", [&] { return d; }); return; }
    if(!c.ok(ran, "bilinear:refused", d)) return;
    vec2 il = fi->getLats(), io = fi->getLons(), ol = fo->getLats(), oo = fo->getLons();
    double latmin = 1e9, latmax = -1e9, lonmin = 1e9, lonmax = -1e9; for(int y = 0; y < in.Y; y++) for(int x = 0; x < in.X; x++) { latmin = std::min<double>(latmin, il[y][x]); latmax = std::max<double>(latmax, il[y][x]); lonmin = std::min<double>(lonmin, io[y][x]); lonmax = std::max<double>(lonmax, io[y][x]); }
    double cell = in.Y > 1 ? std::fabs(il[1][0] - il[0][0]) : 1, rnd = 3e-5 / cell * 0.3 + 1e-4;   // coordinate rounding in cell units
    for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) {
        double la = ol[y][x], lo = oo[y][x]; std::vector<std::pair<int, int>> amb; Near n = exhaustive(il, io, la, lo, 0); exhaustive(il, io, la, lo, dist_tol(n.d), &amb);
        struct Cell { int I, J; double u, v; }; std::vector<Cell> cells; bool strictly = false; // strictly inside one cell
        for(int I = 0; I + 1 < in.Y; I++) for(int J = 0; J + 1 < in.X; J++) {
            double px[4] = {io[I][J], io[I][J + 1], io[I + 1][J], io[I + 1][J + 1]}, py[4] = {il[I][J], il[I][J + 1], il[I + 1][J], il[I + 1][J + 1]}, u, w2; if(!inverse(px, py, lo, la, u, w2)) continue;
            double lim = regular ? rnd : 0.0501 + rnd; if(u < -lim || u > 1 + lim || w2 < -lim || w2 > 1 + lim) continue;
            bool touches = false; for(auto& q : amb) if(q.first >= I && q.first <= I + 1 && q.second >= J && q.second <= J + 1) touches = true; if(!touches && !regular) continue;
            if(u > rnd && u < 1 - rnd && w2 > rnd && w2 < 1 - rnd) strictly = true;
            cells.push_back({I, J, std::max(0.0, std::min(1.0, u)), std::max(0.0, std::min(1.0, w2))});
        }
        bool edge = false; for(auto& q : amb) if(q.first == 0 || q.first == in.Y - 1 || q.second == 0 || q.second == in.X - 1) edge = true;
        bool nearestOk = regular ? !strictly : edge;
        for(int t = 0; t < T; t++) { Field& a = *fi->getField(v, t); Field& b = *fo->getField(w, t); for(int e = 0; e < E; e++) {
            float got = b(y, x, e); bool good = false; std::string want;
            for(auto& q : cells) { double v00 = a(q.I, q.J, e), v01 = a(q.I, q.J + 1, e), v10 = a(q.I + 1, q.J, e), v11 = a(q.I + 1, q.J + 1, e);
                if(!cv(v00) || !cv(v01) || !cv(v10) || !cv(v11)) { want += " missing"; if(got == MV) good = true; }
                else { double val = (v00 * (1 - q.u) + v01 * q.u) * (1 - q.v) + (v10 * (1 - q.u) + v11 * q.u) * q.v; double rg = std::max({v00, v01, v10, v11}) - std::min({v00, v01, v10, v11}); want += strf(" %.7g", val); if(std::fabs(got - val) <= 1e-4 + rg * rnd * 3) good = true; } }
            if(nearestOk) for(auto& q : amb) { float nv = a(q.first, q.second, e); want += strf(" nearest:%.7g", nv); if(same(nv, got)) good = true; }
            c.checks++; c.live++; if(!good) { std::string g; for(auto& q : cells) g += strf(" cell(%d,%d) u=%.6g v=%.6g lats=%.9g,%.9g,%.9g,%.9g lons=%.9g,%.9g,%.9g,%.9g values [%.9g %.9g %.9g %.9g]", q.I, q.J, q.u, q.v, il[q.I][q.J], il[q.I][q.J + 1], il[q.I + 1][q.J], il[q.I + 1][q.J + 1], io[q.I][q.J], io[q.I][q.J + 1], io[q.I + 1][q.J], io[q.I + 1][q.J + 1], a(q.I, q.J, e), a(q.I, q.J + 1, e), a(q.I + 1, q.J, e), a(q.I + 1, q.J + 1, e));
                c.viol("bilinear:value", d + strf(" t=%d e=%d (%.9g,%.9g) got %.9g want one of%s; nearest (%d,%d)", t, e, la, lo, got, want.c_str(), n.y, n.x) + g); return; } c.h(got); } }
    }
    c.sample(d);
}

CASEW(gradient, 4) {
    Rng& r = c.rng; Downscaler::clearCache(); bool bil = r.p(0.2); CGrid in = make_grid(r, bil ? 0 : r.i(0, 1), false, 2);
    for(auto& row : in.lons) for(auto v : row) if(std::fabs(v - in.lons[0][0]) > 90) return;
    for(auto& row : in.lats) for(auto v : row) if(std::fabs(v) > 80) return;
    CGrid out = make_out(r, in, bil ? 0.5 : 1.5); int E = r.i(1, 2), T = r.i(1, 2);
    bool steep = r.p(0.3); if(steep) for(auto& row : in.elevs) for(auto& v : row) if(cv(v)) v = std::round(v / 100) * 40; if(r.p(0.25)) { float h = r.pick({100.3, 700.0, 2300.0}); bool flat = r.p(0.3); for(auto& row : in.elevs) for(auto& v : row) if(cv(v)) v = h + (flat ? 0 : v / 8); for(auto& row : out.elevs) for(auto& v : row) if(cv(v)) v = h + v / 8; }
    int elevRadius = r.i(0, 3), minNum = r.i(1, 5); float minElevDiff = r.pick({0.0, 30.0, 150.0, 300.0}), defGrad = r.p(0.5) ? 0 : r.u(-0.01, 0.01), minLaf = r.p(0.5) ? 0 : r.u(0, 1); bool logt = r.p(0.2);
    bool cons = r.p(0.2), limit = r.p(0.3), hasMin = r.p(0.3), hasMax = r.p(0.3), gvar = r.p(0.2); float consG = r.u(-0.02, 0.02), minG = r.u(-0.02, 0), maxG = r.u(0, 0.02);
    std::vector<int> radii; if(r.p(0.4)) { int k = r.i(1, 3), q = r.i(0, 2); for(int i = 0; i < k; i++) radii.push_back(q += r.i(i ? 1 : 0, 1)); } std::vector<float> wts; bool hasW = !radii.empty() && r.p(0.5); for(size_t i = 0; i < radii.size(); i++) wts.push_back(hasW ? std::round(r.u(0.1, 2) * 100) / 100 : 1.0 / radii.size());
    float minLafDiff = r.pick({0.1, 0.3, 0.7}), minFrac = r.p(0.6) ? 0 : r.u(0, 0.8); int lafRadius = r.p(0.6) ? 0 : r.i(1, 2); bool hasMinLG = r.p(0.25), hasMaxLG = r.p(0.25); float minLG = r.u(-15, 0), maxLG = r.u(0, 15);
    std::string save = r.p(0.8) ? "" : r.p(0.5) ? "elev" : "laf"; float omin = MV, omax = MV; if(r.p(0.3)) omin = r.u(0, 10); if(r.p(0.3)) omax = r.u(15, 30);
    std::stringstream o; o.precision(9); o << "elevRadius=" << elevRadius << " minNumPoints=" << minNum << " minElevDiff=" << minElevDiff << " defaultElevGradient=" << defGrad << " minLafForElevGradient=" << minLaf << " minLafDiff=" << minLafDiff << " minFracSeaPoints=" << minFrac;
    if(logt) o << " logTransform=1"; if(cons) o << " constantElevGradient=" << consG; if(limit) o << " limit=1"; if(hasMin) o << " minElevGradient=" << minG; if(hasMax) o << " maxElevGradient=" << maxG; if(gvar) o << " elevGradientVariable=g"; if(bil) o << " downscaler=bilinear";
    if(lafRadius) o << " lafRadius=" << lafRadius; if(hasMinLG) o << " minLafGradient=" << minLG; if(hasMaxLG) o << " maxLafGradient=" << maxLG; if(!save.empty()) o << " saveGradient=" << save;
    if(!radii.empty()) { o << " lafSearchRadii="; for(size_t i = 0; i < radii.size(); i++) o << (i ? "," : "") << radii[i]; if(hasW) { o << " lafWeights="; for(size_t i = 0; i < radii.size(); i++) o << (i ? "," : "") << wts[i]; } }
    std::string d = in.desc + " | " + o.str() + strf(" min=%g max=%g", omin, omax);
    std::unique_ptr<FileFake> fi(fake(in, E, T)), fo(fake(out, E, T)), fb(fake(out, E, T)); Variable v("var"), w("var", omin, omax, "", ""), g("g"); double miss = r.pick({0.0, 0.05, 0.3});
    double warm = r.p(0.3) ? 270 : 0; fill(r, *fi, v, miss, warm + (logt ? 1 : 0), warm + 30, r.p(0.2)); if(gvar) fill(r, *fi, g, miss, logt ? 1 : 0, 30);
    vec2 il = fi->getLats(), io = fi->getLons(), ol = fo->getLats(), oo = fo->getLons(), ie = fi->getElevs(), oe = fo->getElevs(), ilf = fi->getLandFractions(), olf = fo->getLandFractions();
    std::unique_ptr<Downscaler> ds(Downscaler::getScheme("gradient", v, w, Options(o.str()))); bool ran = false;
    // base values and base heights come from the inner downscaler (checked on its own above)
    if(bil) { bool good = client_runs([&] { std::unique_ptr<Downscaler> b(Downscaler::getScheme("bilinear", v, v, Options())); b->downscale(*fi, *fb); }); if(!good) return; }
    vec2Int NI, NJ; Downscaler::getNearestNeighbour(*fi, *fo, NI, NJ);
    vec2 be, bl; if(bil) { be = DownscalerBilinear::downscaleVec(ie, il, io, ol, oo, NI, NJ); bl = DownscalerBilinear::downscaleVec(ilf, il, io, ol, oo, NI, NJ); }
    if(!client_runs([&] { ran = ds->downscale(*fi, *fo); })) { c.viol("gradient:error", d); return; }
    if(!c.ok(ran, "gradient:refused", d)) return;
    for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) {
        int I = NI[y][x], J = NJ[y][x]; check_index(c, "gradient-nearest", il, io, ol[y][x], oo[y][x], I, J, d); if(c.nviol) return;
        for(int t = 0; t < T; t++) { Field& a = *fi->getField(v, t); Field& gf = gvar ? *fi->getField(g, t) : a; Field& b = *fo->getField(w, t); for(int e = 0; e < E; e++) {
            float got = b(y, x, e), base = bil ? (*fb->getField(v, t))(y, x, e) : a(I, J, e);
            if(!cv(base)) { c.okf(!cv(got), "gradient:missing", [&] { return d + strf(" got %g", got); }); continue; }
            // height gradient
            double grad = MV, gtol = 0; bool fuzzy = false; std::vector<double> xs, ys; float mn = MV, mx = MV;
            if(cons) grad = consG;
            else {
                for(int ii = std::max(0, I - elevRadius); ii <= std::min(in.Y - 1, I + elevRadius); ii++) for(int jj = std::max(0, J - elevRadius); jj <= std::min(in.X - 1, J + elevRadius); jj++) {
                    float q = gf(ii, jj, e); if(logt) { if(!cv(q)) continue; q = std::log(q); } if(!cv(ie[ii][jj]) || !cv(q) || (cv(ilf[ii][jj]) && ilf[ii][jj] < minLaf)) continue;
                    xs.push_back(ie[ii][jj]); ys.push_back(q); if(mn == MV || ie[ii][jj] < mn) mn = ie[ii][jj]; if(mx == MV || ie[ii][jj] > mx) mx = ie[ii][jj]; }
                int N = xs.size(); bool use = N >= minNum && N > 0 && mx - mn >= minElevDiff;
                if(use) { double sx = 0, sy = 0, sxy = 0, sxx = 0, syy = 0, ay = 0; for(int k = 0; k < N; k++) { syy += ys[k] * ys[k] / N; sx += xs[k]; sy += ys[k]; ay = std::max(ay, std::fabs(ys[k])); sxy += xs[k] * ys[k]; sxx += xs[k] * xs[k]; } sx /= N; sy /= N; sxy /= N; sxx /= N; double var = sxx - sx * sx;
                    double eps = 1e-15 * (N + 4); if(mx == mn) {} else if(var < 1e4 * eps * sxx) fuzzy = true; else { grad = (sxy - sx * sy) / var; gtol = (std::fabs(grad) * eps * 3 * sxx + eps * 3 * (std::fabs(sx) * ay + 1e-9) + (logt ? 1.5e-7 * (ay + 1e-30) * (mx - mn) : 0)) / var + 2e-4 * std::sqrt(std::max(0.0, syy - sy * sy) / var); } }
            }
            // values below zero make the logarithm undefined
            if(grad == MV) { grad = defGrad; gtol = 0; }
            if(hasMin && grad < minG) grad = minG; if(hasMax && grad > maxG) grad = maxG;
            if(fuzzy) { c.checks++; continue; }
            // land fraction gradient
            double lg = MV, lgtol = 0; if(!radii.empty()) {
                float mnl = MV, mxl = MV, mnE = MV, mxE = MV, mnT = MV, mxT = MV; double val = 0, tw = 0; int cnt = 0;
                for(size_t k = 0; k < radii.size(); k++) { int sea = 0, np = 0;
                    for(int ii = std::max(0, I - radii[k]); ii <= std::min(in.Y - 1, I + radii[k]); ii++) for(int jj = std::max(0, J - radii[k]); jj <= std::min(in.X - 1, J + radii[k]); jj++) { float L = ilf[ii][jj], q = a(ii, jj, e); if(cv(q)) { sea += L < 0.5; np++; } if(cv(q) && cv(L)) { if(mnl == MV || L < mnl) { mnl = L; mnE = ie[ii][jj]; mnT = q; } if(mxl == MV || L > mxl) { mxl = L; mxE = ie[ii][jj]; mxT = q; } } }
                    if(mnl != MV && (mxl - mnl) >= minLafDiff && np > 0 && (float) sea / np >= minFrac && cv(mxE) && cv(mnE)) { double q = (mxT - grad * ((double) mxE - mnE) - mnT) / ((double) mxl - mnl); val += q * wts[k]; tw += wts[k]; cnt++; lgtol = std::max(lgtol, (gtol * std::fabs(mxE - mnE) + 1e-5 * (std::fabs(mxT) + std::fabs(mnT) + 1)) / (mxl - mnl)); } }
                if(cnt) { lg = val / tw; lgtol *= 2; if(hasMinLG && lg < minLG) lg = minLG; if(hasMaxLG && lg > maxLG) lg = maxLG; } }
            if(save == "elev") { c.near(got, grad, gtol * 2 + 1e-6 * (1e-3 + std::fabs(grad)), "gradient:saved-height-gradient", [&] { return d; }); continue; }
            if(save == "laf") { c.near(got, lg, lgtol * 2 + 1e-5 * (1 + std::fabs(lg)), "gradient:saved-land-gradient", [&] { return d; }); continue; }
            float bE = bil ? be[y][x] : ie[I][J], bL = bil ? bl[y][x] : ilf[I][J]; double val = base, tol = 1e-5 * (1 + std::fabs(base));
            if(cv(oe[y][x]) && cv(bE)) { double dE = (double) oe[y][x] - bE; if(logt) { val *= std::exp(dE * grad); tol += val * (std::fabs(dE) * gtol * 2 + 1e-5); } else { val += dE * grad; tol += std::fabs(dE) * (gtol * 2 + 2e-7 * std::fabs(grad)); } }
            float cl = MV; if(lafRadius == 0) cl = olf[y][x]; else { double s = 0; int k = 0; for(int ii = std::max(0, y - lafRadius); ii <= std::min(out.Y - 1, y + lafRadius); ii++) for(int jj = std::max(0, x - lafRadius); jj <= std::min(out.X - 1, x + lafRadius); jj++) if(cv(olf[ii][jj])) { s += olf[ii][jj]; k++; } if(k) cl = s / k; }
            if(cv(cl) && cv(bL) && lg != MV) { val += ((double) cl - bL) * lg; tol += std::fabs(cl - bL) * lgtol * 2 + 1e-5 * std::fabs(lg); }
            bool alt = (omin != MV && std::fabs(val - omin) <= tol) || (omax != MV && std::fabs(val - omax) <= tol); if(alt) { c.checks++; continue; }
            if((omin != MV && val < omin) || (omax != MV && val > omax)) val = base;
            if(limit) { double lo = 1e30, hi = -1e30; for(int ii = std::max(0, I - elevRadius); ii <= std::min(in.Y - 1, I + elevRadius); ii++) for(int jj = std::max(0, J - elevRadius); jj <= std::min(in.X - 1, J + elevRadius); jj++) { float q = a(ii, jj, e); if(cv(q)) { lo = std::min<double>(lo, q); hi = std::max<double>(hi, q); } } if(lo <= hi) { val = std::max(lo, std::min(hi, val)); } }
            if(tol > 5) { c.checks++; continue; }
            c.near(got, val, tol, limit ? "gradient:limited-value" : "gradient:value", [&] { return d + strf(" t=%d e=%d (%d,%d) nearest (%d,%d) base=%.7g grad=%.6g lafgrad=%.6g", t, e, y, x, I, J, base, grad, lg); }); c.h(got); if(c.nviol) return;
        } }
    }
    c.sample(d);
}

CASEW(smart, 3) {
    Rng& r = c.rng; Downscaler::clearCache(); CGrid in = make_grid(r, r.i(0, 2), false), out = make_out(r, in, 1.5); int E = r.i(1, 3), T = r.i(1, 2), rad = r.i(0, 4), num = r.i(1, 9); bool hasMin = r.p(0.4); float minDiff = std::round(r.u(0, 300)); bool ints = r.p(0.3);
    if(ints) { for(auto& row : in.elevs) for(auto& v : row) if(cv(v)) v = std::round(v / 50) * 50; for(auto& row : out.elevs) for(auto& v : row) if(cv(v)) v = std::round(v / 50) * 50; }
    std::string o = strf("radius=%d num=%d", rad, num); if(hasMin) o += strf(" minElevDiff=%g", minDiff); std::string d = in.desc + " | " + o;
    std::unique_ptr<FileFake> fi(fake(in, E, T)), fo(fake(out, E, T)); Variable v("var"); fill(r, *fi, v, r.pick({0.0, 0.1, 0.5}), -20, 40);
    std::unique_ptr<Downscaler> ds(Downscaler::getScheme("smart", v, v, Options(o))); bool ran = false; if(!client_runs([&] { ran = ds->downscale(*fi, *fo); })) { c.viol("smart:error", d); return; } if(!c.ok(ran, "smart:refused", d)) return;
    vec2 il = fi->getLats(), io = fi->getLons(), ol = fo->getLats(), oo = fo->getLons(), ie = fi->getElevs(), oe = fo->getElevs();
    for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) {
        std::vector<std::pair<int, int>> amb; Near n0 = exhaustive(il, io, ol[y][x], oo[y][x], 0); exhaustive(il, io, ol[y][x], oo[y][x], dist_tol(n0.d), &amb);
        for(int t = 0; t < T; t++) { Field& a = *fi->getField(v, t); Field& b = *fo->getField(v, t); for(int e = 0; e < E; e++) { float got = b(y, x, e); bool good = false; std::string want;
            for(auto& q : amb) { int I = q.first, J = q.second; float nn = ie[I][J], el = oe[y][x];
                std::vector<std::pair<double, float>> st; bool near1 = !cv(el) || (hasMin && cv(nn) && std::fabs(el - nn) <= minDiff);
                if(near1) st.push_back({0, a(I, J, e)});
                else { for(int ii = std::max(0, I - rad); ii <= std::min(in.Y - 1, I + rad); ii++) for(int jj = std::max(0, J - rad); jj <= std::min(in.X - 1, J + rad); jj++) st.push_back({cv(ie[ii][jj]) ? (double) std::fabs(ie[ii][jj] - el) : 1e10, a(ii, jj, e)}); }
                std::stable_sort(st.begin(), st.end(), [](const std::pair<double, float>& p, const std::pair<double, float>& q) { return p.first < q.first; });
                int N = near1 ? 1 : std::min((int) st.size(), num); double cut = st[N - 1].first; bool tie = N < (int) st.size() && st[N].first == cut;
                // sure members, and how many are free among the ties at the cut
                double s = 0; int k = 0, freeN = 0; std::vector<double> tv; int tmiss = 0;
                for(size_t m = 0; m < st.size(); m++) { if(tie && st[m].first == cut) { if((int) m < N) freeN++; if(cv(st[m].second)) tv.push_back(st[m].second); else tmiss++; } else if((int) m < N && cv(st[m].second)) { s += st[m].second; k++; } }
                if(!tie) { double val = k ? s / k : MV; want += strf(" %.7g", val); if(k ? std::fabs(got - val) <= 1e-4 : got == MV) good = true; }
                else { std::sort(tv.begin(), tv.end()); bool any = false; for(int use = std::max(0, freeN - tmiss); use <= std::min<int>(freeN, tv.size()); use++) { if(k + use == 0) { if(got == MV) good = true; continue; } double lo = s, hi = s; for(int m = 0; m < use; m++) { lo += tv[m]; hi += tv[tv.size() - 1 - m]; } lo /= k + use; hi /= k + use; if(got >= lo - 1e-4 && got <= hi + 1e-4) good = true; any = true; want += strf(" [%.7g,%.7g]", lo, hi); } } }
            c.checks++; c.live++; if(!good) { c.viol("smart:value", d + strf(" t=%d e=%d (%d,%d) elev=%g got %.7g want%s", t, e, y, x, oe[y][x], got, want.c_str())); return; } c.h(got); } }
    }
    c.sample(d);
}

CASEW(pressure, 1) {
    Rng& r = c.rng; Downscaler::clearCache(); CGrid in = make_grid(r, r.i(0, 2), false), out = make_out(r, in, 1.5); int E = r.i(1, 3), T = r.i(1, 2);
    std::unique_ptr<FileFake> fi(fake(in, E, T)), fo(fake(out, E, T)); Variable v("p"); fill(r, *fi, v, r.pick({0.0, 0.2}), 80000, 105000); std::unique_ptr<Downscaler> ds(Downscaler::getScheme("pressure", v, v, Options())); if(!c.ok(ds->downscale(*fi, *fo), "pressure:refused")) return;
    vec2 il = fi->getLats(), io = fi->getLons(), ol = fo->getLats(), oo = fo->getLons(), ie = fi->getElevs(), oe = fo->getElevs();
    for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) { std::vector<std::pair<int, int>> amb; Near n0 = exhaustive(il, io, ol[y][x], oo[y][x], 0); exhaustive(il, io, ol[y][x], oo[y][x], dist_tol(n0.d), &amb);
        for(int t = 0; t < T; t++) for(int e = 0; e < E; e++) { float got = (*fo->getField(v, t))(y, x, e); bool good = false; double w0 = 0; for(auto& q : amb) { float p = (*fi->getField(v, t))(q.first, q.second, e), e0 = ie[q.first][q.second], e1 = oe[y][x]; if(!cv(p)) { if(!cv(got)) good = true; continue; } double w = p; if(cv(e0) && cv(e1)) w = p * std::exp(-1.21e-4 * ((double) e1 - e0)); w0 = w; if(std::fabs(got - w) <= 1e-5 * w) good = true; }
            c.okf(good, "pressure:value", [&] { return in.desc + strf(" got %.8g want %.8g", got, w0); }); c.h(got); } }
    float a = r.u(0, 3000), p = r.u(5e4, 1e5), b = r.u(0, 3000); c.near(DownscalerPressure::calcPressure(a, p, b), p * std::exp(-1.21e-4 * ((double) b - a)), p * 1e-5, "pressure:formula"); c.ok(DownscalerPressure::calcPressure(MV, p, b) == MV && DownscalerPressure::calcPressure(a, MV, b) == MV && DownscalerPressure::calcPressure(a, p, MV) == MV, "pressure:missing"); c.sample(in.desc);
}

double ref_stat(std::vector<float> v, const std::string& stat, double q) {
    v.erase(std::remove_if(v.begin(), v.end(), [](float f) { return !cv(f); }), v.end()); int n = v.size(); if(!n) return MV; double s = 0; for(float f : v) s += f;
    if(stat == "sum") return s; if(stat == "mean") return s / n; if(stat == "std") { double m = s / n, t = 0; for(float f : v) t += (f - m) * (f - m); return std::sqrt(t / n); }
    if(stat == "min") q = 0; if(stat == "max") q = 1; if(stat == "median") q = 0.5; std::sort(v.begin(), v.end()); double p = q * (n - 1); int k = std::min(n - 1, (int) std::floor(p + 1e-9)), k2 = std::min(n - 1, k + 1); return v[k] + (v[k2] - v[k]) * std::max(0.0, p - k);
}
CASEW(upscale, 2) {
    Rng& r = c.rng; Downscaler::clearCache(); CGrid in = make_grid(r, r.i(0, 2), r.p(0.2)), out = make_out(r, in, 0.5, 4); int E = r.i(1, 3), T = r.i(1, 2); std::string stat = r.pick({std::string("mean"), std::string("min"), std::string("max"), std::string("median"), std::string("std"), std::string("sum"), std::string("quantile")}); float q = r.pick({0.0, 1.0, 0.5, 0.25, (double) r.u()});
    std::string o = "stat=" + stat; if(stat == "quantile") o += strf(" quantile=%.9g", q); std::unique_ptr<FileFake> fi(fake(in, E, T)), fo(fake(out, E, T)); Variable v("var"); fill(r, *fi, v, r.pick({0.0, 0.2}), -20, 40); std::unique_ptr<Downscaler> ds(Downscaler::getScheme("upscale", v, v, Options(o))); if(!c.ok(ds->downscale(*fi, *fo), "upscale:refused")) return;
    vec2 il = fi->getLats(), io = fi->getLons(), ol = fo->getLats(), oo = fo->getLons(); std::string d = in.desc + " | " + o;
    std::vector<std::vector<std::vector<std::pair<int, int>>>> members(out.Y, std::vector<std::vector<std::pair<int, int>>>(out.X)); std::set<std::pair<int, int>> unsure;
    for(int y = 0; y < in.Y; y++) for(int x = 0; x < in.X; x++) { std::vector<std::pair<int, int>> amb; Near n = exhaustive(ol, oo, il[y][x], io[y][x], 0); exhaustive(ol, oo, il[y][x], io[y][x], dist_tol(n.d), &amb); members[n.y][n.x].push_back({y, x}); if(amb.size() > 1) for(auto& a : amb) unsure.insert(a); }
    for(int y = 0; y < out.Y; y++) for(int x = 0; x < out.X; x++) { if(unsure.count({y, x})) continue; for(int t = 0; t < T; t++) for(int e = 0; e < E; e++) { vec vals; for(auto& m : members[y][x]) vals.push_back((*fi->getField(v, t))(m.first, m.second, e)); double want = ref_stat(vals, stat, q); float got = (*fo->getField(v, t))(y, x, e); c.near(got, want, stat == "std" ? 2e-2 : 1e-3 + 1e-5 * std::fabs(want), "upscale:" + stat, [&] { return d + " values " + str(vals); }); c.h(got); } }
    c.sample(d);
}

CASEW(bypass, 1) {
    Rng& r = c.rng; Downscaler::clearCache(); CGrid in = make_grid(r, 0, false), out = make_out(r, in, 1); int E = r.i(1, 2), T = r.i(1, 3); std::unique_ptr<FileFake> fi(fake(in, E, T)), fo(fake(out, E, T)); Variable v("var"), w("other"); fill(r, *fi, v, 0.1, 0, 10); fill(r, *fo, w, 0.1, 50, 60); if(r.p(0.6)) fill(r, *fo, v, 0.1, 20, 30);
    std::vector<vec> before; auto snap = [&](File& f, const Variable& q) { vec o; for(int t = 0; t < T; t++) { FieldPtr p = f.getField(q, t); for(int y = 0; y < f.getNumY(); y++) for(int x = 0; x < f.getNumX(); x++) for(int e = 0; e < E; e++) o.push_back((*p)(y, x, e)); } return o; };
    vec b0 = snap(*fo, w), i0 = snap(*fi, v); vec o0 = snap(*fo, v); std::unique_ptr<Downscaler> ds(Downscaler::getScheme("bypass", v, v, Options())); c.ok(ds->downscale(*fi, *fo), "bypass:refused"); c.ok(same_bits(b0, snap(*fo, w)) && same_bits(i0, snap(*fi, v)) && same_bits(o0, snap(*fo, v)), "bypass:changed");
    // other downscalers leave the input and other variables alone, and different numbers of times are refused without any effect
    std::string nm = r.pick({std::string("nearestNeighbour"), std::string("smart"), std::string("pressure"), std::string("upscale"), std::string("gradient")}); std::unique_ptr<Downscaler> d2(Downscaler::getScheme(nm, v, v, Options()));
    { std::unique_ptr<FileFake> f3(fake(out, E, T + 1)); fill(r, *f3, v, 0, 5, 6); vec a; for(int t = 0; t <= T; t++) a.push_back((*f3->getField(v, t))(0, 0, 0)); c.ok(!d2->downscale(*fi, *f3), nm + ":accepts-other-times"); for(int t = 0; t <= T; t++) c.ok(a[t] == (*f3->getField(v, t))(0, 0, 0), nm + ":changed-on-refusal"); }
    c.ok(d2->downscale(*fi, *fo), nm + ":refused"); c.ok(same_bits(b0, snap(*fo, w)) && same_bits(i0, snap(*fi, v)), nm + ":changed-others"); c.h(b0[0]); c.sample(nm);
}
