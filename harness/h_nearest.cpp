// C02: nearest-neighbour downscaling, all overloads, and the downscaling() dispatcher.
#include "common.h"
#include "nnref.h"
using namespace gridpp;

// values are unique per source index and time so that the used index can be recovered
static float val(int t, int k) { return 1000.f * (t + 1) + k * 0.5f; }

static void check(Ctx& c, const char* key, const Src& src, int T, const std::vector<std::vector<char>>& miss, const vec& ola, const vec& olo, std::function<float(int, int)> get, const std::string& d) {
    for(size_t i = 0; i < ola.size(); i++) {
        ivec cand = nn_candidates(src, ola[i], olo[i]);
        // every time must be explained by one common source index
        bool any = false;
        for(int k : cand) {
            bool good = true;
            for(int t = 0; t < T && good; t++) { float g = get(t, i), w = miss[t][k] ? NaNf : val(t, k); good = std::isnan(w) ? std::isnan(g) : g == w; }
            if(good) { any = true; break; }
        }
        c.okf(any || T == 0, std::string(key) + ":not-nearest", [&] { std::string s = d + strf("output %d at (%.9g,%.9g): got", (int) i, ola[i], olo[i]); for(int t = 0; t < T; t++) s += strf(" %.9g", get(t, i)); s += " candidates " + str(cand); return s; });
    }
}

CASE(overloads) {
    Rng& r = c.rng; GridOpt o; o.maxLat = 85; GridSpec ig = gen_grid(r, o);
    GridSpec og = cover_grid(r, ig, o);
    PointsSpec ip = gen_points_in(r, ig, r.i(1, 30)), op = gen_points_in(r, ig, r.i(0, 12), 3);
    int T = r.i(0, 4); bool single = r.p(0.4); if(single) T = 1;
    Grid G = ig.grid(), OG = og.grid(); Points P = ip.points(), OP = op.points();
    Src sg = src_of(ig), sp = src_of(ip);
    int N = sg.lats.size(), M = sp.lats.size(); double ms = pick_missing(r);
    std::vector<std::vector<char>> mg(T, std::vector<char>(N)), mp(T, std::vector<char>(M));
    vec3 gv = init3(T, ig.Y, ig.X); vec2 pv = init2(T, M);
    for(int t = 0; t < T; t++) { for(int k = 0; k < N; k++) { mg[t][k] = r.p(ms); gv[t][k / ig.X][k % ig.X] = mg[t][k] ? NaNf : val(t, k); } for(int k = 0; k < M; k++) { mp[t][k] = r.p(ms); pv[t][k] = mp[t][k] ? NaNf : val(t, k); } }
    vec gla, glo; for(int y = 0; y < og.Y; y++) for(int x = 0; x < og.X; x++) { gla.push_back(og.lats[y][x]); glo.push_back(og.lons[y][x]); }
    int OX = og.X; std::string d = ig.desc + strf(" T=%d -> ", T); c.h(ig.lats); c.h(gla); c.h(op.lats); c.sample(d + strf("%d outputs, %d points", (int) gla.size(), M));
    auto sz3 = [&](const vec3& v, const char* k) { bool g = (int) v.size() == T; for(auto& a : v) g = g && (int) a.size() == og.Y && (int) a[0].size() == OX; return c.ok(g, std::string(k) + ":size", d); };
    auto sz2g = [&](const vec2& v, const char* k) { return c.ok((int) v.size() == og.Y && (int) v[0].size() == OX, std::string(k) + ":size", d); };
    auto sz2p = [&](const vec2& v, const char* k) { bool g = (int) v.size() == T; for(auto& a : v) g = g && a.size() == op.lats.size(); return c.ok(g, std::string(k) + ":size", d); };
    vec3 gv0 = gv; vec2 pv0 = pv;
    if(T > 0) {
        { vec3 v = nearest(G, OG, gv); if(sz3(v, "nearest(grid,grid,vec3)")) check(c, "nearest(grid,grid,vec3)", sg, T, mg, gla, glo, [&](int t, int i) { return v[t][i / OX][i % OX]; }, d); }
        { vec2 v = nearest(G, OP, gv); if(sz2p(v, "nearest(grid,points,vec3)")) check(c, "nearest(grid,points,vec3)", sg, T, mg, op.lats, op.lons, [&](int t, int i) { return v[t][i]; }, d); }
        { vec3 v = nearest(P, OG, pv); if(sz3(v, "nearest(points,grid,vec2)")) check(c, "nearest(points,grid,vec2)", sp, T, mp, gla, glo, [&](int t, int i) { return v[t][i / OX][i % OX]; }, d); }
        { vec2 v = nearest(P, OP, pv); if(sz2p(v, "nearest(points,points,vec2)")) check(c, "nearest(points,points,vec2)", sp, T, mp, op.lats, op.lons, [&](int t, int i) { return v[t][i]; }, d); }
        { vec3 v = downscaling(G, OG, gv, Nearest); if(sz3(v, "downscaling(grid,grid,vec3)")) check(c, "downscaling(grid,grid,vec3)", sg, T, mg, gla, glo, [&](int t, int i) { return v[t][i / OX][i % OX]; }, d); }
        { vec2 v = downscaling(G, OP, gv, Nearest); if(sz2p(v, "downscaling(grid,points,vec3)")) check(c, "downscaling(grid,points,vec3)", sg, T, mg, op.lats, op.lons, [&](int t, int i) { return v[t][i]; }, d); }
        int t0 = r.i(0, T - 1); std::vector<std::vector<char>> mg0(T, mg[t0]), mp0(T, mp[t0]);
        auto one = [&](int, int) {}; (void) one;
        auto chk1 = [&](const char* key, const Src& s, const std::vector<char>& m, const vec& la, const vec& lo, std::function<float(int)> get) {
            for(size_t i = 0; i < la.size(); i++) { bool any = false; ivec cand = nn_candidates(s, la[i], lo[i]); for(int k : cand) { float g = get(i), w = m[k] ? NaNf : val(t0, k); if(std::isnan(w) ? std::isnan(g) : g == w) any = true; } c.okf(any, std::string(key) + ":not-nearest", [&] { return d + strf("output %d at (%.9g,%.9g): got %.9g candidates ", (int) i, la[i], lo[i], get(i)) + str(cand); }); } };
        { vec2 v = nearest(G, OG, gv[t0]); if(sz2g(v, "nearest(grid,grid,vec2)")) chk1("nearest(grid,grid,vec2)", sg, mg[t0], gla, glo, [&](int i) { return v[i / OX][i % OX]; }); }
        { vec v = nearest(G, OP, gv[t0]); if(c.ok(v.size() == op.lats.size(), "nearest(grid,points,vec2):size", d)) chk1("nearest(grid,points,vec2)", sg, mg[t0], op.lats, op.lons, [&](int i) { return v[i]; }); }
        { vec2 v = nearest(P, OG, pv[t0]); if(sz2g(v, "nearest(points,grid,vec)")) chk1("nearest(points,grid,vec)", sp, mp[t0], gla, glo, [&](int i) { return v[i / OX][i % OX]; }); }
        { vec v = nearest(P, OP, pv[t0]); if(c.ok(v.size() == op.lats.size(), "nearest(points,points,vec):size", d)) chk1("nearest(points,points,vec)", sp, mp[t0], op.lats, op.lons, [&](int i) { return v[i]; }); }
        { vec2 v = downscaling(G, OG, gv[t0], Nearest); if(sz2g(v, "downscaling(grid,grid,vec2)")) chk1("downscaling(grid,grid,vec2)", sg, mg[t0], gla, glo, [&](int i) { return v[i / OX][i % OX]; }); }
        { vec v = downscaling(G, OP, gv[t0], Nearest); if(c.ok(v.size() == op.lats.size(), "downscaling(grid,points,vec2):size", d)) chk1("downscaling(grid,points,vec2)", sg, mg[t0], op.lats, op.lons, [&](int i) { return v[i]; }); }
        // the dispatcher selects bilinear when asked
        { vec2 a = downscaling(G, OG, gv[t0], Bilinear), b = bilinear(G, OG, gv[t0]); c.ok(same_bits(a, b), "downscaling:bilinear-dispatch", d); vec e = downscaling(G, OP, gv[t0], Bilinear), f2 = bilinear(G, OP, gv[t0]); c.ok(same_bits(e, f2), "downscaling:bilinear-dispatch", d);
          vec3 a3 = downscaling(G, OG, gv, Bilinear), b3 = bilinear(G, OG, gv); c.ok(same_bits(a3, b3), "downscaling:bilinear-dispatch", d); vec2 e2 = downscaling(G, OP, gv, Bilinear), g2 = bilinear(G, OP, gv); c.ok(same_bits(e2, g2), "downscaling:bilinear-dispatch", d); }
        c.ok(!runs([&] { downscaling(G, OG, gv[t0], (gridpp::Downscaler) 7); }), "downscaling:accepts-unknown", d);
    }
    c.ok(same_bits(gv, gv0) && same_bits(pv, pv0), "nearest:input-modified", d);
    // mismatching value arrays are refused
    vec2 bad = init2(ig.Y + 1, ig.X); vec2 bad2 = init2(ig.Y, ig.X + 1); vec bad1(M + 1, 0.f); vec2 badp = init2(2, M + 1);
    c.ok(!runs([&] { nearest(G, OG, bad); }) && !runs([&] { nearest(G, OP, bad); }) && !runs([&] { nearest(G, OG, bad2); }) && !runs([&] { nearest(G, OP, bad2); }), "nearest:accepts-size-mismatch", d);
    c.ok(!runs([&] { nearest(P, OG, bad1); }) && !runs([&] { nearest(P, OP, bad1); }) && !runs([&] { nearest(P, OG, badp); }) && !runs([&] { nearest(P, OP, badp); }), "nearest:accepts-size-mismatch", d);
    c.ok(!runs([&] { downscaling(G, OG, bad, Nearest); }) && !runs([&] { downscaling(G, OP, vec3(1, bad2), Bilinear); }), "downscaling:accepts-size-mismatch", d);
    c.ok(!runs([&] { nearest(G, OG, vec3(1, bad)); }) && !runs([&] { nearest(G, OP, vec3(1, bad2)); }), "nearest:accepts-size-mismatch", d);
}
// nearest onto the same locations is the identity
CASE(identity) {
    Rng& r = c.rng; GridOpt o; o.maxLat = 80; GridSpec g = gen_grid(r, o); vec2 v = gen_field(r, g.Y, g.X, pick_missing(r)); c.h(g.lats); c.h(v);
    Grid G = g.grid(); vec2 a = nearest(G, G, v); vec b = nearest(G, G.to_points(), v); std::string d = g.desc; c.sample(d);
    for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { c.near(a[y][x], v[y][x], 0, "nearest:identity-grid", [&] { return d; }); c.near(b[y * g.X + x], v[y][x], 0, "nearest:identity-points", [&] { return d; }); }
}
