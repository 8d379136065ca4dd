// C26: parameter files. A map from (location, time) to parameters is the model; files are generated in every layout, read, queried, written and read again.
#include "client.h"
#include "ParameterFile/ParameterFile.h"
#include <netcdf.h>
#include <fstream>
#include <iomanip>
#include <array>
#include <memory>
static const double R = 6.378137e6, D2R = M_PI / 180;
static double gc(double la1, double lo1, double la2, double lo2) { double a = std::sin((la2 - la1) * D2R / 2), b = std::sin((lo2 - lo1) * D2R / 2), h = a * a + std::cos(la1 * D2R) * std::cos(la2 * D2R) * b * b; return 2 * R * std::asin(std::sqrt(std::min(1.0, h))); }
static double dtol(double d) { return 4 + 2e-7 * d; }
static std::string dir() { static std::string d = "."; return d; /* the runner gives every run a scratch folder */ }
struct Tmp { std::string n; Tmp(const char* ext) { static int k = 0; n = strf("%s/p%d_%d.%s", dir().c_str(), (int) getpid(), k++, ext); } ~Tmp() { unlink(n.c_str()); } };
typedef std::pair<float, float> LL;
struct Entry { float elev; std::map<int, vec> at; };
struct Model {
    std::map<LL, Entry> m; int maxT = 0, n = 1; bool cycle = false; std::string desc;
    bool spatial() const { return m.size() > 1 || (m.size() == 1 && cv(m.begin()->first.first)); }
    void set(float la, float lo, float el, int t, const vec& p) { auto it = m.find({la, lo}); if(it == m.end()) it = m.insert({{la, lo}, Entry{el, {}}}).first; it->second.at[t] = p; maxT = std::max(maxT, t); }
    std::set<int> times() const { std::set<int> s; for(auto& e : m) for(auto& q : e.second.at) s.insert(q.first); return s; }
    // false: an error is expected
    bool slot(int t, int& o) const { if(t < 0) return false; if(maxT == 0) t = 0; if(maxT > 0 && cycle) t %= maxT + 1; o = t; return t <= maxT; }
    bool has(const Entry& e, int t) const { auto i = e.at.find(t); return i != e.at.end() && !i->second.empty(); }
    // candidates that count as nearest at slot t
    std::vector<LL> nearest(float la, float lo, int t) const { std::vector<LL> o; double best = 1e30; if(m.size() == 1) { o.push_back(m.begin()->first); return o; } auto ex = m.find({la, lo}); if(ex != m.end() && has(ex->second, t)) { o.push_back(ex->first); return o; } for(auto& e : m) if(has(e.second, t)) best = std::min(best, gc(la, lo, e.first.first, e.first.second)); for(auto& e : m) if(has(e.second, t) && gc(la, lo, e.first.first, e.first.second) <= best + dtol(best)) o.push_back(e.first); return o; }
};
static vec get(const Parameters& p) { return p.getValues(); }
static bool eqv(const vec& a, const vec& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!(a[i] == b[i] || (!cv(a[i]) && !cv(b[i])))) return false; return true; }
static vec at(const Model& m, LL l, int t) { auto& e = m.m.at(l); auto i = e.at.find(t); return i == e.at.end() ? vec() : i->second; }
// every stored set, plus lookups in and around the stored locations
static void queries(Ctx& c, const Model& m, const ParameterFile& p, const std::string& d, int n) {
    Rng& r = c.rng; std::vector<LL> ls; for(auto& e : m.m) ls.push_back(e.first);
    c.ok(p.isLocationDependent() == m.spatial(), "location-dependent", d); c.ok(p.isTimeDependent() == (m.maxT > 0), "time-dependent", d);
    if(m.spatial()) { std::vector<Location> got = p.getLocations(); std::vector<std::array<float, 3>> a, b; for(auto& g : got) a.push_back({{g.lat(), g.lon(), g.elev()}}); for(auto& e : m.m) b.push_back({{e.first.first, e.first.second, e.second.elev}}); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); bool same = a.size() == b.size(); for(size_t i = 0; same && i < a.size(); i++) same = a[i][0] == b[i][0] && a[i][1] == b[i][1] && (a[i][2] == b[i][2] || (!cv(a[i][2]) && !cv(b[i][2]))); c.okf(same, "locations", [&] { std::string s = d + strf("; %zu locations, expected %zu", a.size(), b.size()); for(auto& q : a) s += strf(" (%.9g %.9g %.9g)", q[0], q[1], q[2]); return s; }); }
    for(int k = 0; k < n; k++) {
        int t = r.p(0.05) ? -1 : r.i(0, m.maxT + 3), s = 0; bool good = m.slot(t, s); LL l = r.pick(ls); float la = l.first, lo = l.second, el = r.u(0, 900); bool exact = r.p(0.35);
        if(!m.spatial()) { la = r.u(-80, 80); lo = r.u(-180, 180); } else if(!exact) { if(r.p(0.3)) { la = r.u(-85, 85); lo = r.u(-180, 180); } else { LL l2 = r.pick(ls); double q = r.u(-0.3, 1.3), dl = l2.second - l.second; if(dl > 180) dl -= 360; if(dl < -180) dl += 360; la = l.first + q * (l2.first - l.first); lo = l.second + r.u(-0.3, 1.3) * dl; } la = std::max(-89.0f, std::min(89.0f, la)); while(lo > 180) lo -= 360; while(lo < -180) lo += 360; if(r.p(0.1) && lo < 0) lo += 360; }
        auto dd = [&](const vec& g) { return d + strf("; time %d (slot %d) location %.9g %.9g got ", t, s, la, lo) + str(g); };
        vec g; bool ok = client_runs([&] { g = get(p.getParameters(t, Location(la, lo, el))); }); c.okf(ok == good, "lookup-error", [&] { return dd(g); }); if(!ok || !good) continue;
        std::vector<LL> cand = m.nearest(la, lo, s); bool match = cand.empty() && g.empty(); for(auto& q : cand) if(eqv(g, at(m, q, s))) match = true; c.okf(match, "lookup", [&] { return dd(g) + (cand.empty() ? std::string(" want none") : strf(" want those at %.9g %.9g: ", cand[0].first, cand[0].second) + str(at(m, cand[0], s))); }); c.h(g);
        if(m.spatial()) { Location out(MV, MV, MV); bool found = false; if(client_runs([&] { found = p.getNearestLocation(s, Location(la, lo, el), out); })) { bool in = !found && cand.empty(); for(auto& q : cand) if(found && q.first == out.lat() && q.second == out.lon() && (out.elev() == m.m.at(q).elev || !cv(out.elev()))) in = true; c.okf(in, "nearest-location", [&] { return dd(g) + strf(" nearest location %d %.9g %.9g %.9g", found, out.lat(), out.lon(), out.elev()); }); } else c.ok(false, "nearest-location-error", dd(g)); }
        else { vec g2; if(client_runs([&] { g2 = get(p.getParameters(t)); })) c.okf(eqv(g, g2), "global", [&] { return dd(g2); }); else c.ok(false, "global-error", dd(g)); }
    }
    for(auto& l : ls) for(int t = 0; t <= m.maxT; t++) if(r.p(0.3)) { vec g, w = at(m, l, t); if(client_runs([&] { g = get(p.getParameters(t, Location(l.first, l.second, 0), false)); })) c.okf(eqv(g, w), "stored", [&] { return d + strf("; time %d location %.9g %.9g got ", t, l.first, l.second) + str(g) + " want " + str(w); }); else c.ok(false, "stored-error", d); }
    if(m.spatial()) { bool ok = client_runs([&] { p.getParameters(0); }); c.ok(!ok, "global-of-spatial", d); }
}
static Model model(Rng& r, bool spatial, int maxL, int maxTimes, double miss) {
    Model m; m.n = r.i(1, 5); int L = spatial ? r.i(1, maxL) : 1, T = r.i(1, maxTimes); m.cycle = r.p(0.25); bool wide = r.p(0.4), box = r.p(0.2); double la0 = r.u(-75, 70), lo0 = r.p(0.2) ? r.u(178, 180) : r.u(-175, 175), sp = wide ? 60 : r.u(0.001, 3); bool pos = r.p(0.15);
    std::vector<int> ts; for(int t = 0; t < T; t++) ts.push_back(t); if(T > 1 && r.p(0.3)) for(auto& t : ts) t *= r.i(1, 3);
    for(int k = 0; k < L; k++) { float la = MV, lo = MV, el = MV; if(spatial) { la = std::max(-88.0, std::min(88.0, la0 + sp * r.u(-1, 1))); double q = lo0 + sp * 2 * r.u(-1, 1); while(q > 180) q -= 360; while(q < -180) q += 360; if(pos && q < 0) q += 360; lo = q; if(box) { la = std::round(la); lo = std::round(lo); } el = r.i(0, 900) / 2.0; } if(spatial && m.m.count({la, lo})) continue;
        bool any = false; for(size_t q = 0; q < ts.size(); q++) { if(q + 1 < ts.size() ? r.p(miss) : any && r.p(miss)) continue; any = true; vec p; for(int i = 0; i < m.n; i++) p.push_back(r.p(0.08) ? MV : r.p(0.2) ? (float) r.i(-5, 5) : (float) (r.n() * std::pow(10, r.i(-3, 4)))); m.set(la, lo, el, ts[q], p); } }
    if(m.times().size() == 1 && m.maxT > 0) { int t = *m.times().begin(); Model n = m; n.m.clear(); n.maxT = 0; for(auto& e : m.m) n.set(e.first.first, e.first.second, e.second.elev, 0, e.second.at[t]); m = n; }
    m.desc = strf("%zu locations, %zu times up to %d, %d parameters, cycle %d", m.m.size(), m.times().size(), m.maxT, m.n, m.cycle); return m;
}
static std::string num(float f, Rng& r) { return r.p(0.7) ? strf("%.9g", f) : strf("%.9e", f); }
// a text file in a random column order; returns lines
static std::vector<std::string> text_lines(Rng& r, const Model& m, bool time, std::vector<std::string>& cols) {
    bool sp = m.spatial(); cols.clear(); if(time) cols.push_back("time"); if(sp) { cols.push_back("lat"); cols.push_back("lon"); cols.push_back("elev"); } for(int i = 0; i < m.n; i++) cols.push_back(strf("p%d", i)); if(r.p(0.4)) { for(size_t i = cols.size(); i > 1; i--) std::swap(cols[i - 1], cols[r.i(0, i - 1)]); }
    std::vector<std::pair<LL, int>> rows; for(auto& e : m.m) for(auto& q : e.second.at) rows.push_back({e.first, q.first}); for(size_t i = rows.size(); i > 1; i--) std::swap(rows[i - 1], rows[r.i(0, i - 1)]);
    std::vector<std::string> out; std::string h; for(auto& c : cols) h += (h.empty() ? "" : " ") + c; out.push_back(h); const char* sep = r.p(0.2) ? "  " : r.p(0.2) ? "\t" : " ";
    std::vector<int> order; { for(auto& c : cols) order.push_back(c == "time" ? -1 : c == "lat" ? -2 : c == "lon" ? -3 : c == "elev" ? -4 : 0); int k = 0; for(auto& o : order) if(o == 0) o = ++k; } // parameters are numbered by position
    for(auto& w : rows) { const Entry& e = m.m.at(w.first); const vec& p = e.at.at(w.second); std::string l; for(size_t k = 0; k < order.size(); k++) { int o = order[k]; std::string v = o == -1 ? strf("%d", w.second) : o == -2 ? num(w.first.first, r) : o == -3 ? num(w.first.second, r) : o == -4 ? num(e.elev, r) : num(p[o - 1], r); l += (k ? sep : "") + v; } out.push_back(l); }
    return out;
}
static void save(const std::string& f, const std::vector<std::string>& lines, Rng& r, bool comments, bool last_newline) { std::ofstream o(f.c_str()); for(size_t i = 0; i < lines.size(); i++) { if(comments && r.p(0.2)) o << "# a comment\n"; o << lines[i]; if(i + 1 < lines.size() || last_newline) o << "\n"; } }

CASEW(text, 4) {
    Rng& r = c.rng; bool sp = r.p(0.7), time = r.p(0.85); Model m = model(r, sp, 12, time ? 6 : 1, r.pick({0.0, 0.3})); if(!sp && !time && m.m.begin()->second.at.size() != 1) return; std::vector<std::string> cols; bool wide = r.p(0.02);
    if(wide) { int n = r.i(900, 1500); m.n = n; for(auto& e : m.m) for(auto& q : e.second.at) while((int) q.second.size() < n) q.second.push_back(r.u(-100, 100)); m.desc += strf(" (%d parameters)", n); }
    auto lines = text_lines(r, m, time, cols); if(sp && r.p(0.15)) { /* the same entry twice: the last one counts */ size_t k = r.i(1, lines.size() - 1); std::string keep = lines[k]; std::vector<std::string> l2 = lines; l2.insert(l2.begin() + k, keep); size_t j = k; std::string& dup = l2[j]; std::istringstream is(keep); std::string w, o; int pos = 0; while(is >> w) { bool par = cols[pos][0] == 'p'; o += (pos ? " " : "") + (par ? std::string("123.5") : w); pos++; } dup = o; lines = l2; }
    Tmp f("txt"); bool nl = !r.p(0.25); save(f.n, lines, r, r.p(0.2), nl); std::string d = m.desc + strf(", %zu lines, final newline %d, header '", lines.size(), nl) + (wide ? std::string("...") : lines[0]) + "'"; c.sample(d);
    Options o("file=" + f.n + (m.cycle ? " cycle=1" : "")); ParameterFileText* p = nullptr; if(!client_runs([&] { p = new ParameterFileText(o); })) { c.ok(false, "text:refused", d); return; } std::unique_ptr<ParameterFileText> own(p);
    c.ok(p->isReadable(), "text:readable", d); std::vector<int> ts = p->getTimes(); std::set<int> want = m.times(); c.okf(ts == ivec(want.begin(), want.end()), "text:times", [&] { return d + " got " + str(ts); }); queries(c, m, *p, d, 12);
    // written and read back
    Tmp g("txt"); if(!client_runs([&] { p->write(g.n); })) { c.ok(false, "text:write", d); return; } Options o2("file=" + g.n + (m.cycle ? " cycle=1" : "")); ParameterFileText* q = nullptr; if(!client_runs([&] { q = new ParameterFileText(o2); })) { c.ok(false, "text:written-file-refused", d); return; } std::unique_ptr<ParameterFileText> own2(q); ts = q->getTimes(); c.okf(ts == ivec(want.begin(), want.end()), "text:times-after-writing", [&] { return d + " got " + str(ts); }); queries(c, m, *q, "written and read again: " + d, 6);
}
CASEW(built, 2) {
    Rng& r = c.rng; Model want = model(r, r.p(0.85), 10, 5, 0.2), m; m.n = want.n; m.cycle = want.cycle; bool nc = r.p(0.5) && want.spatial(); Tmp f(nc ? "nc" : "txt"); std::string extra; std::string d = want.desc; if(nc && r.p(0.4)) extra += " dimName=cc"; if(nc && r.p(0.3)) extra += " varName=vv"; if(nc && r.p(0.3)) extra += " xDim=xx yDim=yy"; d += extra + (nc ? " netcdf" : " text"); c.sample(d);
    Options o("file=" + f.n + extra + (m.cycle ? " cycle=1" : "")); { std::unique_ptr<ParameterFile> p; if(!client_runs([&] { p.reset(ParameterFile::getScheme(nc ? "netcdf" : "text", o, true)); })) { c.ok(false, "built:new", d); return; }
        std::vector<std::pair<LL, int>> rows; for(auto& e : want.m) for(auto& q : e.second.at) rows.push_back({e.first, q.first}); for(size_t i = rows.size(); i > 1; i--) std::swap(rows[i - 1], rows[r.i(0, i - 1)]);
        for(size_t i = 0; i < rows.size(); i++) { const Entry& e = want.m.at(rows[i].first); vec v = e.at.at(rows[i].second); if(r.p(0.1)) p->setParameters(Parameters(vec(m.n, 7)), rows[i].second, Location(rows[i].first.first, rows[i].first.second, e.elev)); p->setParameters(Parameters(v), rows[i].second, Location(rows[i].first.first, rows[i].first.second, e.elev)); m.set(rows[i].first.first, rows[i].first.second, e.elev, rows[i].second, v); if(r.p(0.15) || i + 1 == rows.size()) { p->recomputeTree(); queries(c, m, *p, strf("after %zu sets: ", i + 1) + d, 3); } }
        if(!client_runs([&] { p->write(); })) { c.ok(false, "built:write", d); return; } }
    std::unique_ptr<ParameterFile> q; if(!client_runs([&] { q.reset(ParameterFile::getScheme(nc ? "netcdf" : "text", o)); })) { c.ok(false, "built:read", d); return; }
    Model b = m; if(nc) for(auto& e : b.m) for(int t = 0; t <= b.maxT; t++) if(!e.second.at.count(t)) e.second.at[t] = vec(m.n, MV); queries(c, b, *q, "read back: " + d, 8);
}
CASEW(simple, 1) { Rng& r = c.rng; vec v; int n = r.i(0, 5); for(int i = 0; i < n; i++) v.push_back(r.u(-5, 5)); ParameterFileSimple p((Parameters(v))); for(int k = 0; k < 5; k++) { int t = r.i(0, 9); vec g = get(p.getParameters(t)), h = get(p.getParameters(t, Location(r.u(-80, 80), r.u(-180, 180), 0))); c.okf(eqv(g, v) && eqv(h, v), "simple", [&] { return str(v) + " got " + str(g) + str(h); }); } c.ok(!p.isLocationDependent() && !p.isTimeDependent(), "simple:dependent"); c.ok(p.getNumParameters() == n, "simple:number"); }

// ---------------------------------------------------------------- NetCDF layouts
CASEW(netcdf, 4) {
    Rng& r = c.rng; int Y = r.i(1, 5), X = r.i(1, 5), T = r.i(1, 4), N = r.i(1, 4); bool hasT = r.p(0.7); if(!hasT) T = 1; bool oneD = r.p(0.35), alt = r.p(0.7), cycle = r.p(0.3), fillv = r.p(0.4), coefT = hasT && !r.p(0.1); int extra = r.p(0.15) ? r.i(1, 3) : 0;
    std::string yn = r.pick({std::string("lat"), std::string("latitude"), std::string("y"), std::string("rows")}), xn = r.pick({std::string("lon"), std::string("longitude"), std::string("x"), std::string("cols")}), cn = r.pick({std::string("coeff"), std::string("coefficient"), std::string("k")}), vn = r.pick({std::string("coefficient"), std::string("coefficients"), std::string("beta")}), opt; if(yn == "rows") opt += " yDim=rows"; if(xn == "cols") opt += " xDim=cols"; if(cn != "coeff") opt += " dimName=" + cn; if(vn != "coefficient") opt += " varName=" + vn; if(cycle) opt += " cycle=1";
    std::string lan = r.p(0.5) ? "lat" : "latitude", lon = r.p(0.5) ? "lon" : "longitude"; double la0 = r.u(-70, 60), lo0 = r.p(0.2) ? r.u(170, 179) : r.u(-170, 150), sp = std::exp(r.u(-5, 1)); vec2 la = init2(Y, X), lo = la, el = la; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { la[y][x] = la0 + y * sp + (oneD ? 0 : 0.1 * x * sp); double q = lo0 + x * sp + (oneD ? 0 : -0.13 * y * sp); if(q > 180) q -= 360; lo[y][x] = q; el[y][x] = alt ? r.i(0, 900) : MV; }
    float fill = r.pick({-99999.0f, 1e20f, -999.0f}); Model m; m.cycle = cycle; m.n = N; std::string d = strf("%dx%d T=%d coefficients=%d time dimension %d (of coefficients %d) one-dimensional coordinates %d altitude %d extra dimension %d ", Y, X, T, N, hasT, coefT, oneD, alt, extra) + yn + " " + xn + " " + lan + " " + lon + opt;
    std::vector<std::vector<std::vector<vec>>> val(T, std::vector<std::vector<vec>>(Y, std::vector<vec>(X, vec(N)))); for(int t = 0; t < T; t++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) for(int k = 0; k < N; k++) val[t][y][x][k] = !coefT && t ? val[0][y][x][k] : r.p(0.08) ? MV : (float) (r.n() * std::pow(10, r.i(-2, 3)));
    Tmp f("nc"); int id, dy, dx, dt = -1, dc, de = -1, st = 0; auto ck = [&](int s) { if(s) st = s; }; ck(nc_create(f.n.c_str(), r.p(0.5) ? NC_NETCDF4 : NC_CLOBBER, &id)); std::vector<int> mk = {0, 1, 2, 3, 4}; for(int i = 4; i > 0; i--) std::swap(mk[i], mk[r.i(0, i)]); for(int q : mk) { if(q == 0) ck(nc_def_dim(id, yn.c_str(), Y, &dy)); if(q == 1) ck(nc_def_dim(id, xn.c_str(), X, &dx)); if(q == 2 && hasT) ck(nc_def_dim(id, "time", T, &dt)); if(q == 3) ck(nc_def_dim(id, cn.c_str(), N, &dc)); if(q == 4 && extra) ck(nc_def_dim(id, "height", extra, &de)); }
    int vla, vlo, vel = -1, vt = -1, vc; bool ty = r.p(0.3), coordX = extra && !oneD && r.p(0.5); std::vector<int> cd = oneD ? std::vector<int>{dy} : ty ? std::vector<int>{dx, dy} : std::vector<int>{dy, dx}, cd2 = oneD ? std::vector<int>{dx} : cd, cd3 = ty ? std::vector<int>{dx, dy} : std::vector<int>{dy, dx}; if(coordX) { if(r.p(0.5)) cd.insert(cd.begin(), de); else cd.push_back(de); } bool dbl = r.p(0.2);
    ck(nc_def_var(id, lan.c_str(), dbl ? NC_DOUBLE : NC_FLOAT, cd.size(), cd.data(), &vla)); ck(nc_def_var(id, lon.c_str(), dbl ? NC_DOUBLE : NC_FLOAT, cd2.size(), cd2.data(), &vlo)); if(alt) ck(nc_def_var(id, "altitude", NC_FLOAT, 2, cd3.data(), &vel)); if(hasT) ck(nc_def_var(id, "time", NC_DOUBLE, 1, &dt, &vt));
    std::vector<int> dims = {dy, dx, dc}; if(coefT) dims.push_back(dt); if(extra) dims.push_back(de); for(size_t i = dims.size(); i > 1; i--) std::swap(dims[i - 1], dims[r.i(0, i - 1)]); ck(nc_def_var(id, vn.c_str(), dbl ? NC_DOUBLE : NC_FLOAT, dims.size(), dims.data(), &vc)); if(fillv) { double fd = fill; if(dbl) ck(nc_put_att_double(id, vc, "_FillValue", NC_DOUBLE, 1, &fd)); else ck(nc_put_att_float(id, vc, "_FillValue", NC_FLOAT, 1, &fill)); } ck(nc_enddef(id));
    auto grid = [&](int v, const vec2& g, bool tr, const std::vector<int>& dd) { vec o; int e1 = 1, e2 = 1; if(coordX && v == vla) { if(dd[0] == de) e1 = extra; else e2 = extra; } for(int q = 0; q < e1; q++) for(int a = 0; a < (tr ? X : Y); a++) for(int b = 0; b < (tr ? Y : X); b++) for(int z = 0; z < e2; z++) o.push_back(q + z == 0 ? (tr ? g[b][a] : g[a][b]) : 77.0f); ck(nc_put_var_float(id, v, o.data())); };
    if(oneD) { vec a, b; for(int y = 0; y < Y; y++) a.push_back(la[y][0]); for(int x = 0; x < X; x++) b.push_back(lo[0][x]); ck(nc_put_var_float(id, vla, a.data())); ck(nc_put_var_float(id, vlo, b.data())); } else { grid(vla, la, ty, cd); grid(vlo, lo, ty, cd2); } if(alt) grid(vel, el, ty, cd3);
    if(hasT) { std::vector<double> tv; for(int t = 0; t < T; t++) tv.push_back(1e9 + 3600.0 * t * 3); ck(nc_put_var_double(id, vt, tv.data())); }
    { std::vector<int> sz, ix(dims.size(), 0); long tot = 1; for(int q : dims) { int s = q == dy ? Y : q == dx ? X : q == dc ? N : q == dt ? T : extra; sz.push_back(s); tot *= s; } vec o(tot); for(long k = 0; k < tot; k++) { long rem = k; for(int q = (int) dims.size() - 1; q >= 0; q--) { ix[q] = rem % sz[q]; rem /= sz[q]; } int y = 0, x = 0, t = 0, k2 = 0, e = 0; for(size_t q = 0; q < dims.size(); q++) (dims[q] == dy ? y : dims[q] == dx ? x : dims[q] == dc ? k2 : dims[q] == dt ? t : e) = ix[q]; float v = e ? 55.5f : val[t][y][x][k2]; o[k] = v == MV ? (fillv ? fill : NC_FILL_FLOAT) : v; } ck(nc_put_var_float(id, vc, o.data())); }
    ck(nc_close(id)); if(st) { c.viol("harness:netcdf", d + nc_strerror(st)); return; } c.sample(d);
    for(int t = 0; t < T; t++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) m.set(la[y][x], lo[y][x], el[y][x], t, val[t][y][x]); if((int) m.m.size() != Y * X) return;
    std::unique_ptr<ParameterFileNetcdf> p; if(!client_runs([&] { p.reset(new ParameterFileNetcdf(Options("file=" + f.n + opt))); })) { c.ok(false, "netcdf:refused", d); return; } c.ok(p->isReadable(), "netcdf:readable", d); c.ok((int) p->getTimes().size() == T, "netcdf:times", d); c.ok(p->getNumParameters() == N, "netcdf:number", d); queries(c, m, *p, d, 12);
}
// ---------------------------------------------------------------- malformed files
CASEW(malformed, 3) {
    Rng& r = c.rng; bool sp = r.p(0.6); Model m = model(r, sp, 6, 4, 0.0); std::vector<std::string> cols; auto lines = text_lines(r, m, true, cols); int how = r.i(0, 7); size_t row = r.i(1, lines.size() - 1); auto words = [&](const std::string& l) { std::istringstream is(l); std::vector<std::string> w; std::string x; while(is >> x) w.push_back(x); return w; }; auto join = [&](const std::vector<std::string>& w) { std::string o; for(auto& x : w) o += (o.empty() ? "" : " ") + x; return o; }; auto w = words(lines[row]); std::string d; size_t tp = std::find(cols.begin(), cols.end(), "time") - cols.begin();
    if(how == 0) { w[r.i(0, w.size() - 1)] = r.pick({std::string("abc"), std::string("x1"), std::string("--3"), std::string("n/a")}); d = "a value that is not a number"; }
    else if(how == 1) { w[tp] = strf("%d", -r.i(1, 3)); d = "a negative time"; }
    else if(how == 2) { if(lines.size() < 3) return; w.push_back("4"); d = "one column too many"; }
    else if(how == 3) { if(lines.size() < 3) return; if(w.size() < 2) return; w.pop_back(); d = "one column too few"; }
    else if(how == 4) { w = words(lines[0]); row = 0; if(!sp) return; std::string del = r.pick({std::string("lat"), std::string("lon"), std::string("elev")}); for(auto& x : w) if(x == del) x = "q"; d = "partial location columns"; }
    else if(how == 5) { w = words(lines[0]); row = 0; if(sp || lines.size() < 3) return; for(auto& x : w) if(x == "time") x = "q"; d = "several rows without time or location columns"; }
    else if(how == 6) { lines.resize(1); w = words(lines[0]); row = 0; d = "header only"; }
    else { lines.resize(1); w.clear(); row = 0; d = "empty file"; }
    lines[row] = join(w); Tmp f("txt"); save(f.n, lines, r, false, true); if(how == 7) { std::ofstream o(f.n.c_str()); } c.sample(d + ": " + lines[row]); bool ok = client_runs([&] { ParameterFileText p(Options("file=" + f.n)); }); c.okf(!ok, "malformed:accepted", [&] { std::string s = d + " in row " + strf("%zu", row) + ": '"; for(auto& l : lines) s += l + " | "; return s; });
}
CASEW(badnetcdf, 1) {
    Rng& r = c.rng; Tmp f("nc"); int how = r.i(0, 6), id, dy, dx, dc, v; std::string d = strf("kind %d", how); c.sample(d);
    if(how == 0) { std::ofstream o(f.n.c_str()); for(int i = 0; i < r.i(0, 200); i++) o << (char) r.i(0, 255); }
    else if(how == 1) {}
    else { nc_create(f.n.c_str(), NC_CLOBBER, &id); nc_def_dim(id, how == 2 ? "q" : "lat", 2, &dy); nc_def_dim(id, "lon", 3, &dx); nc_def_dim(id, how == 3 ? "q" : "coeff", 2, &dc); int g[3] = {dy, dx, dc}, b[2] = {dy, dx}; if(how != 4) nc_def_var(id, "latitude", NC_FLOAT, 2, g, &v); nc_def_var(id, "longitude", NC_FLOAT, 2, g, &v); nc_def_var(id, how == 5 ? "other" : "coefficient", NC_FLOAT, how == 6 ? 2 : 3, how == 6 ? b : g, &v); nc_enddef(id); nc_close(id); }
    bool ok = client_runs([&] { ParameterFileNetcdf p(Options("file=" + f.n)); }); c.ok(!ok, "badnetcdf:accepted", d); if(how < 2) c.ok(!ParameterFileNetcdf::isValid(f.n), "badnetcdf:valid", d);
}
