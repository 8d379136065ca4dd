// C23: data files. Files of every layout are generated with the netcdf library (or as text), read through the client and compared to the generated content; what the client writes is read back with the netcdf library and through the client.
#include "client.h"
#include <netcdf.h>
#include <fstream>
#include <iomanip>
#include <memory>
static std::string tmpname(const char* ext) { static int k = 0; return strf("f%d_%d.%s", (int) getpid(), k++, ext); }
struct Tmp { std::string n; Tmp(const char* ext) : n(tmpname(ext)) {} ~Tmp() { unlink(n.c_str()); } };
static void close_all() { for(int k = 1; k <= 40; k++) nc_close(k << 16); } // files left open by a refused operation
static void slurp(const std::string& f, std::string& s) { std::ifstream i(f.c_str()); std::stringstream ss; ss << i.rdbuf(); s = ss.str(); }
static void spew(const std::string& f, const std::string& s) { std::ofstream o(f.c_str()); o << s; }
struct Err { std::streambuf *o, *e; std::ostringstream so; Err() { o = std::cout.rdbuf(so.rdbuf()); e = std::cerr.rdbuf(so.rdbuf()); } ~Err() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

// ---------------------------------------------------------------- generated files
struct V {
    std::string name, dims, units, sname, note; nc_type type = NC_FLOAT; int fillKind = 0; /* 0 default, 1 attribute, 2 -999, 3 NaN */ double fill = 0, scale = 1, off = 0; bool packed = false; std::vector<double> raw;
    bool isInt() const { return type == NC_SHORT || type == NC_INT || type == NC_BYTE; }
    double lo() const { return type == NC_BYTE ? -120 : type == NC_SHORT ? -32000 : -1e6; } double hi() const { return type == NC_BYTE ? 120 : type == NC_SHORT ? 32000 : 1e6; }
    double deffill() const { return type == NC_BYTE ? NC_FILL_BYTE : type == NC_SHORT ? NC_FILL_SHORT : type == NC_INT ? NC_FILL_INT : NC_FILL_DOUBLE; }
    double efffill() const { return fillKind ? fill : deffill(); }
    bool missing(double r) const { return std::isnan(r) || r == efffill() || (!isInt() && (float) r == (float) efffill()) || (!isInt() && !packed && r == -999); }
    double dec(double r) const { return missing(r) ? MV : r * scale + off; }
    double tol(double v) const { return 3e-6 * (std::fabs(v - off) + std::fabs(off) + 1); }
    double wtol(double v) const { return tol(v) + (isInt() ? 0.5001 * std::fabs(scale) : 0); }
};
struct F {
    std::map<char, int> n; std::map<char, std::string> nm; bool unlim = true; std::vector<V> vars; std::vector<double> times; double ref = MV; bool scalarTime = false; std::string conv, history, opts; vec2 lats, lons, elevs, lafs; bool hasElev = false; std::map<std::string, std::string> gatt; std::string latN, lonN, timeN, elevN, lafN; int fmt = 0; double offLon = 0; std::string drop;
    bool has(char d) const { return n.count(d); } int size(char d) const { auto i = n.find(d); return i == n.end() ? 1 : i->second; }
    int T() const { return times.size(); } int E() const { return size('e'); } int Y() const { return size('y'); } int X() const { return size('x'); }
    V* var(const std::string& s) { for(auto& v : vars) if(v.name == s) return &v; return nullptr; }
    size_t index(const V& v, int t, int e, int y, int x, int l) const { size_t k = 0; for(char d : v.dims) k = k * n.at(d) + (d == 't' ? t : d == 'e' ? e : d == 'y' ? y : d == 'x' ? x : l); return k; }
    size_t count(const V& v) const { size_t k = 1; for(char d : v.dims) k *= n.at(d); return k; }
};
static double rawval(Rng& r, const V& v, double miss, const vec& pool) { if(r.p(miss)) return v.efffill(); if(v.isInt()) return r.p(0.1) ? (double) r.i((int) v.lo(), (int) v.hi()) : (double) r.i(-100, 100); if(!pool.empty() && r.p(0.3)) return r.pick(pool); return r.p(0.3) ? (float) r.i(-40, 40) : (float) r.u(-1000, 1000); }
static void kind(Rng& r, V& v, bool plainOnly) {
    v.type = plainOnly ? r.pick({NC_FLOAT, NC_FLOAT, NC_DOUBLE}) : r.pick({NC_FLOAT, NC_FLOAT, NC_FLOAT, NC_DOUBLE, NC_SHORT, NC_SHORT, NC_INT, NC_BYTE}); v.packed = r.p(v.isInt() ? 0.75 : 0.15); if(v.packed) { v.scale = r.pick({0.01, 0.1, 0.5, 2.0, 1e-3, -0.25}); v.off = r.p(0.3) ? 0 : r.pick({273.15, 100.0, -50.0, 1000.0, 0.125}); }
    v.fillKind = r.p(0.5) ? 0 : r.i(1, 3); if(v.isInt() && v.fillKind == 3) v.fillKind = 1; if(v.type == NC_BYTE && v.fillKind == 2) v.fillKind = 1; v.fill = v.fillKind == 1 ? (v.type == NC_BYTE ? -128 : v.isInt() ? r.pick({-32768.0, -32001.0, 32767.0}) : r.pick({1e30, -32767.0, -1e9})) : v.fillKind == 2 ? -999 : NAN; if(!v.isInt() && v.fillKind == 1) v.fill = (float) v.fill;
}
static std::string text(Rng& r) { static const std::string a = "abc defg-_/()%m s-1 0123456789"; std::string s; for(int k = r.i(1, 12); k > 0; k--) s += a[r.i(0, a.size() - 1)]; while(!s.empty() && s.back() == ' ') s.pop_back(); return s.empty() ? "x" : s; }
static std::string shuffled(Rng& r, std::string s) { for(size_t i = s.size(); i > 1; i--) std::swap(s[i - 1], s[r.i(0, i - 1)]); return s; }
// a coordinate-like variable (latitude, longitude, altitude, land fraction) holding grid g
static V coord(Rng& r, F& f, const std::string& name, const vec2& g, bool packable, const std::string& dims, double unit = 1) {
    V v; v.name = name; v.dims = dims; v.type = r.pick({NC_FLOAT, NC_FLOAT, NC_DOUBLE}); if(packable && r.p(0.25)) { v.type = NC_SHORT; v.packed = true; v.scale = 0.25; v.off = r.p(0.5) ? 0 : 100; } v.fillKind = packable && r.p(0.4) ? r.i(1, 3) : 0; if(v.isInt() && v.fillKind == 3) v.fillKind = 0; v.fill = v.fillKind == 1 ? -32001 : v.fillKind == 2 ? -999 : NAN;
    v.raw.assign(f.count(v), 0); for(size_t k = 0; k < v.raw.size(); k++) v.raw[k] = v.isInt() ? r.i(-99, 99) : r.i(-80, 80);
    for(int y = 0; y < f.Y(); y++) for(int x = 0; x < f.X(); x++) { double q = g[y][x]; v.raw[f.index(v, 0, 0, y, x, 0)] = !cv(q) ? v.efffill() : v.isInt() ? std::round((q * unit - v.off) / v.scale) : (double) (float) (q * unit); } return v;
}
static F generate(Rng& r, bool forWrite) {
    F f; f.fmt = r.pick({NC_NETCDF4, NC_NETCDF4, NC_64BIT_OFFSET, 0, NC_NETCDF4 | NC_CLASSIC_MODEL}); int layout = r.i(0, 11); bool hy = layout != 0, hx = layout != 1; bool std_ = r.p(0.7); bool ht = r.p(0.85);
    if(ht) f.n['t'] = r.i(1, 4); if(r.p(0.6)) f.n['e'] = r.i(1, 4); if(hy) f.n['y'] = r.i(1, 4); if(hx) f.n['x'] = r.i(1, 5); if(r.p(0.4)) f.n['l'] = r.i(1, 3); f.unlim = r.p(0.6);
    int dn = r.i(0, 2); f.nm = {{'t', "time"}, {'e', "ensemble_member"}, {'y', dn == 0 ? "y" : dn == 1 ? "latitude" : "lat"}, {'x', dn == 0 ? "x" : dn == 1 ? "longitude" : "lon"}, {'l', "height0"}};
    f.latN = r.p(0.5) ? "latitude" : "lat"; f.lonN = r.p(0.5) ? "longitude" : "lon"; f.timeN = "time"; f.elevN = "altitude"; f.lafN = "land_area_fraction"; std::string o; auto opt = [&](const char* k, const std::string& v) { o += (o.empty() ? "" : " ") + std::string(k) + "=" + v; };
    if(!std_) { if(hy && r.p(0.5)) { f.nm['y'] = "rlat"; opt("yDim", "rlat"); } if(hx && r.p(0.5)) { f.nm['x'] = "stn"; opt("xDim", "stn"); } if(f.has('e') && r.p(0.5)) { f.nm['e'] = "member"; opt("ensDim", "member"); } if(f.has('t') && r.p(0.5)) { f.nm['t'] = "step"; opt("timeDim", "step"); } if(r.p(0.4)) { f.latN = "glat"; opt("latVar", "glat"); } if(r.p(0.4)) { f.lonN = "glon"; opt("lonVar", "glon"); } if(r.p(0.4)) { f.timeN = "validtime"; opt("timeVar", "validtime"); } if(r.p(0.4)) { f.lafN = "lsm"; opt("lafVar", "lsm"); } }
    int Y = f.Y(), X = f.X(); f.lats = f.lons = f.elevs = f.lafs = init2(Y, X); bool oneD = hy && hx && r.p(0.4); double la = r.u(-80, 70), lo = r.u(-180, 340); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { f.lats[y][x] = (float) (oneD ? la + 2 * y : la + y + 0.25 * x); f.lons[y][x] = (float) (oneD ? lo + 3 * x : lo + 3 * x + 0.5 * y); f.elevs[y][x] = r.p(0.15) ? MV : (float) (r.i(-80, 3200) * 0.25); f.lafs[y][x] = r.p(0.1) ? MV : (float) (r.i(0, 20) * 0.05); }
    std::string yx = std::string(hy ? "y" : "") + (hx ? "x" : ""); auto hdims = [&](bool extra) { std::string d = shuffled(r, yx); if(extra && r.p(0.25)) { char c = f.has('t') && r.p(0.5) ? 't' : f.has('l') ? 'l' : 0; if(c) d = r.p(0.7) ? c + d : d + c; } return d; }; bool two = yx.size() == 2; std::string ld = oneD ? "" : hdims(two);
    f.vars.push_back(coord(r, f, f.latN, f.lats, false, oneD ? "y" : ld)); f.vars.push_back(coord(r, f, f.lonN, f.lons, false, oneD ? "x" : ld));
    // packed latitudes and longitudes
    if(r.p(0.1)) for(int k = 0; k < 2; k++) { V& v = f.vars[k]; v.packed = true; v.scale = 0.01; v.off = r.p(0.5) ? 0 : 10; v.type = NC_INT; v.fillKind = 0; for(auto& q : v.raw) q = std::round((q - v.off) / v.scale); vec2& g = k ? f.lons : f.lats; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) g[y][x] = v.dec(v.raw[f.index(v, 0, 0, y, x, 0)]); }
    int ek = r.i(0, 5); if(ek == 1 && !std_) { f.elevN = "topo"; opt("elevVar", "topo"); } if(ek <= 2) { f.hasElev = true; f.vars.push_back(coord(r, f, f.elevN, f.elevs, true, hdims(two && !forWrite))); } else if(ek == 3) { f.hasElev = true; f.elevN = "surface_geopotential"; V v = coord(r, f, f.elevN, f.elevs, false, hdims(two), 9.81); f.vars.push_back(v); } else { f.elevs = init2(Y, X, MV); f.elevN = ""; }
    if(two && ek <= 2 && f.hasElev && r.p(0.1)) { V& v = *f.var(f.elevN); if(!forWrite) { for(auto& q : f.elevs) q = f.elevs[0]; v = coord(r, f, f.elevN, f.elevs, true, "x"); } }
    if(r.p(0.4)) f.vars.push_back(coord(r, f, f.lafN, f.lafs, true, hdims(two))); else { f.lafs = init2(Y, X, MV); f.lafN = ""; }
    for(auto* N : {&f.elevN, &f.lafN}) if(V* v = N->empty() ? nullptr : f.var(*N)) { vec2& g = N == &f.elevN ? f.elevs : f.lafs; double u = *N == "surface_geopotential" ? 1 / 9.81 : 1; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { double q = v->dec(v->raw[f.index(*v, 0, 0, y, x, 0)]); g[y][x] = cv(q) ? q * u : MV; } }
    // times
    double t0 = 1.3e9 + 3600.0 * r.i(0, 50000); bool tv = ht || r.p(0.6); if(r.p(0.6) || !tv) f.ref = r.p(0.1) && tv ? MV : t0; std::vector<double> ts; for(int t = 0; t < (ht ? f.size('t') : 1); t++) ts.push_back(t0 + 3600.0 * t); if(tv) { V v; v.name = f.timeN; v.dims = ht ? "t" : ""; v.type = r.pick({NC_DOUBLE, NC_DOUBLE, NC_INT}); v.raw = ts; f.vars.push_back(v); f.scalarTime = !ht; f.times = ts; } else { f.times = {f.ref}; if(!std_ && f.timeN != "time") { f.drop = f.timeN; f.timeN = ""; } else f.timeN = ""; }
    if(!f.drop.empty()) { std::string w, z; std::stringstream ss(o); while(ss >> w) if(w.compare(0, 8, "timeVar=")) z += (z.empty() ? "" : " ") + w; o = z; }
    f.opts = o; // the data
    vec pool; for(int k = 0; k < 4; k++) pool.push_back((float) r.u(-50, 50)); int nv = r.i(1, 4); for(int k = 0; k < nv; k++) { V v; v.name = strf("v%d", k); std::string d = yx; if(ht && !(k && r.p(0.15))) d += 't'; if(f.has('e') && !(k && r.p(0.2))) d += 'e'; if(f.has('l') && r.p(0.6)) d += 'l'; v.dims = r.p(0.5) ? shuffled(r, d) : [&] { std::string q; for(char c : std::string("tleyx")) if(d.find(c) != std::string::npos) q += c; return q; }(); kind(r, v, false); double miss = r.pick({0.0, 0.1, 0.4}); v.raw.resize(f.count(v)); for(auto& q : v.raw) { q = rawval(r, v, miss, pool); if(q != v.efffill() && v.missing(q) && !std::isnan(v.efffill())) q = 1; } if(r.p(0.7)) v.units = text(r); if(r.p(0.5)) v.sname = text(r); if(r.p(0.5)) v.note = text(r); f.vars.push_back(v); }
    if(f.fmt != NC_NETCDF4) for(auto& v : f.vars) if(v.dims.find('t') != std::string::npos && v.dims[0] != 't') f.unlim = false; // classic files only have the first dimension unlimited
    for(size_t i = f.vars.size(); i > 1; i--) std::swap(f.vars[i - 1], f.vars[r.i(0, i - 1)]);
    if(r.p(0.5)) f.conv = r.pick({"CF-1.6", "CF-1.0", "ACDD-1.3"}); if(r.p(0.5)) f.history = text(r) + (r.p(0.5) ? "\n" + text(r) : ""); if(r.p(0.5)) f.gatt["title"] = text(r); if(r.p(0.3)) f.gatt["source"] = text(r); return f;
}
static bool create(const F& f, const std::string& name, Rng& r) {
    int id, st = 0; auto ck = [&](int s) { if(s && !st) st = s; }; ck(nc_create(name.c_str(), NC_CLOBBER | f.fmt, &id)); std::map<char, int> di; std::string order; for(auto& q : f.n) order += q.first; order = shuffled(r, order); for(char d : order) { int q; ck(nc_def_dim(id, f.nm.at(d).c_str(), d == 't' && f.unlim ? NC_UNLIMITED : f.n.at(d), &q)); di[d] = q; }
    std::vector<int> ids; for(auto& v : f.vars) { std::vector<int> d; for(char c : v.dims) d.push_back(di[c]); int q; ck(nc_def_var(id, v.name.c_str(), v.type, d.size(), d.data(), &q)); ids.push_back(q); if(v.fillKind) { if(v.type == NC_BYTE) { signed char b = v.fill; ck(nc_put_att_schar(id, q, "_FillValue", NC_BYTE, 1, &b)); } else ck(nc_put_att_double(id, q, "_FillValue", v.type, 1, &v.fill)); } if(v.packed) { nc_type at = r.p(0.5) ? NC_DOUBLE : NC_FLOAT; ck(nc_put_att_double(id, q, "scale_factor", at, 1, &v.scale)); ck(nc_put_att_double(id, q, "add_offset", at, 1, &v.off)); } auto at = [&](const char* n, const std::string& s) { if(!s.empty()) ck(nc_put_att_text(id, q, n, s.size(), s.c_str())); }; at("units", v.units); at("standard_name", v.sname); at("note", v.note); }
    int vr = -1; if(f.ref != MV) ck(nc_def_var(id, "forecast_reference_time", NC_DOUBLE, 0, 0, &vr)); auto g = [&](const std::string& n, const std::string& s) { ck(nc_put_att_text(id, NC_GLOBAL, n.c_str(), s.size(), s.c_str())); }; if(!f.conv.empty()) g("Conventions", f.conv); if(!f.history.empty()) g("history", f.history); for(auto& q : f.gatt) g(q.first, q.second); ck(nc_enddef(id)); if(vr >= 0) ck(nc_put_var_double(id, vr, &f.ref));
    for(size_t k = 0; k < f.vars.size(); k++) { const V& v = f.vars[k]; std::vector<size_t> s(v.dims.size() + 1, 0), n; for(char c : v.dims) n.push_back(f.n.at(c)); n.push_back(1); ck(nc_put_vara_double(id, ids[k], s.data(), n.data(), v.raw.data())); } ck(nc_close(id)); if(st) fprintf(stderr, "netcdf: %s\n", nc_strerror(st)); return st == 0;
}
static std::string describe(const F& f) { std::string s = "[" + f.opts + "]"; for(auto& q : f.n) s += strf(" %s=%d%s", f.nm.at(q.first).c_str(), q.second, q.first == 't' && f.unlim ? "(unlimited)" : ""); for(auto& v : f.vars) { s += "; " + v.name + "(" + v.dims + ")" + strf(" type %d", (int) v.type); if(v.packed) s += strf(" scale %g offset %g", v.scale, v.off); if(v.fillKind) s += strf(" fill %g", v.fill); } return s; }
static double wrap(double l) { while(l > 180) l -= 360; while(l < -180) l += 360; return l; }
static bool lonok(double g, double w) { double d = std::fabs(wrap(g - w)); return g >= -180.001 && g <= 180.001 && (d < 2e-4 || std::fabs(d - 360) < 2e-4); }
static bool gridok(const vec2& g, const vec2& w, double rel, std::string& why) { if(g.size() != w.size()) { why = strf("%zu rows, expected %zu", g.size(), w.size()); return false; } for(size_t y = 0; y < g.size(); y++) { if(g[y].size() != w[y].size()) { why = "columns"; return false; } for(size_t x = 0; x < g[y].size(); x++) { float a = g[y][x], b = w[y][x]; if(cv(a) != cv(b) || (cv(b) && !(std::fabs(a - b) <= rel * (1 + std::fabs(b))))) { why = strf("%g at (%zu,%zu), expected %g", a, y, x, b); return false; } } } return true; }
static double expect(const F& f, const V& v, int t, int e, int y, int x, int l) { bool hl = v.dims.find('l') != std::string::npos, he = v.dims.find('e') != std::string::npos; if(!he && e > 0) return MV; int L = f.size('l'); return v.dec(v.raw[f.index(v, t, e, y, x, hl && L > 1 ? l : 0)]); }
static bool fieldok(const F& f, const V& v, const Field& g, int t, int l, std::string& why) { if(g.getNumY() != f.Y() || g.getNumX() != f.X()) { why = "field size"; return false; } for(int e = 0; e < g.getNumEns(); e++) for(int y = 0; y < f.Y(); y++) for(int x = 0; x < f.X(); x++) { double w = expect(f, v, t, e, y, x, l); float q = g(y, x, e); if(cv(q) != cv(w) || (cv(w) && !(std::fabs(q - w) <= v.tol(w)))) { why = v.name + strf(" level %d is %g at (t%d,e%d,y%d,x%d), expected %g", l, q, t, e, y, x, w); return false; } } return true; }
static bool isData(const V& v) { return v.name[0] == 'v' && v.name.size() == 2; }
static void compare_file(Ctx& c, F& f, FileNetcdf& n, const std::string& d, const char* tag) {
    std::string k = tag, why; c.okf(n.getNumY() == f.Y() && n.getNumX() == f.X() && n.getNumEns() == f.E() && n.getNumTime() == f.T(), (k + ":dimensions").c_str(), [&] { return d + "; read as " + n.getDimenionString(); }); if(n.getNumY() != f.Y() || n.getNumX() != f.X() || n.getNumTime() != f.T() || n.getNumEns() != f.E()) return;
    c.okf(gridok(n.getLats(), f.lats, 1e-5, why), (k + ":latitudes").c_str(), [&] { return d + "; " + why; }); bool lk = true; vec2 lo = n.getLons(); for(int y = 0; y < f.Y(); y++) for(int x = 0; x < f.X(); x++) lk = lk && lonok(lo[y][x], f.lons[y][x]); c.ok(lk, (k + ":longitudes").c_str(), d);
    c.okf(gridok(n.getElevs(), f.elevs, 1e-5, why), (k + ":altitudes").c_str(), [&] { return d + "; " + why; }); c.okf(gridok(n.getLandFractions(), f.lafs, 1e-5, why), (k + ":land-fractions").c_str(), [&] { return d + "; " + why; }); c.okf(n.getTimes() == f.times, (k + ":times").c_str(), [&] { return d + strf("; first time %.0f, expected %.0f", n.getTimes().size() ? n.getTimes()[0] : -1, f.times.size() ? f.times[0] : -1); });
}
// ---------------------------------------------------------------- reading
CASEW(read, 4) {
    Rng& r = c.rng; F f = generate(r, false); Tmp tmp("nc"); if(!create(f, tmp.n, r)) { c.ok(false, "harness:create", describe(f)); return; } std::string d = describe(f), why; c.sample(d); std::unique_ptr<FileNetcdf> n; Err err; c.ok(FileNetcdf::isValid(tmp.n, Options(f.opts)), "read:not-valid", d);
    if(!client_runs([&] { n.reset(new FileNetcdf(tmp.n, Options(f.opts), r.p(0.5))); })) { close_all(); c.ok(false, "read:refused", d + " -- " + err.so.str()); return; } compare_file(c, f, *n, d, "read");
    double wr = f.ref != MV ? f.ref : f.has('t') && !f.scalarTime ? f.times[0] : MV; if(!(f.ref == MV && f.scalarTime)) c.okf(n->getReferenceTime() == wr, "read:reference-time", [&] { return d + strf("; %.0f, expected %.0f", n->getReferenceTime(), wr); });
    for(auto& v : f.vars) { Variable q; if(c.ok(n->getVariable(v.name, q), "read:variable-list", d + " lacks " + v.name)) c.ok(q.units() == v.units && q.standardName() == v.sname, "read:attributes", d + "; " + v.name + ": " + q.units() + ", " + q.standardName()); } if(n->getNumTime() != f.T() || n->getNumEns() != f.E() || n->getNumY() != f.Y() || n->getNumX() != f.X()) { n.reset(); close_all(); return; }
    // any order of requests, by name, alias and level, with changed fields kept until clear
    std::map<std::pair<std::string, int>, std::map<int, std::vector<float>>> own; std::vector<std::string> names; for(auto& v : f.vars) if(isData(v)) names.push_back(v.name); std::map<std::string, std::pair<std::string, int>> alias; for(int k = r.i(0, 3); k > 0; k--) { std::string a = strf("a%d", k), nm = r.pick(names); int l = r.p(0.7) ? r.i(0, f.size('l') - 1) : (int) MV; n->addVariableAlias(a, Variable(nm, "", "", l)); alias[a] = {nm, l}; } std::string log;
    for(int k = r.i(4, 20); k > 0; k--) {
        int t = r.i(0, f.T() - 1), w = r.i(0, 9); std::string nm = r.pick(names); int l = (int) MV; FieldPtr p; bool ok;
        if(w < 4) { l = r.p(0.5) ? r.i(0, f.size('l') - 1) : (int) MV; log += strf(" get(%s,l%d,t%d)", nm.c_str(), l, t); ok = client_runs([&] { p = n->getField(Variable(nm, "", "", l), t); }); } else if(w < 6) { log += " get('" + nm + strf("',t%d)", t); ok = client_runs([&] { p = n->getField(nm, t); }); } else if(w < 8) { if(alias.empty()) continue; auto it = alias.begin(); std::advance(it, r.i(0, alias.size() - 1)); nm = it->second.first; l = it->second.second; log += " get('" + it->first + strf("'=%s level %d,t%d)", nm.c_str(), l, t); ok = client_runs([&] { p = n->getField(it->first, t); }); }
        else if(w == 8) { if(!r.p(0.3)) { std::string un = strf("w%d", r.i(0, 2)); log += " get('" + un + "')"; ok = client_runs([&] { p = n->getField(un, t); }); bool allmv = ok; if(ok) for(int e = 0; e < f.E(); e++) for(int y = 0; y < f.Y(); y++) for(int x = 0; x < f.X(); x++) allmv = allmv && !cv((*p)(y, x, e)); c.ok(allmv, "read:absent-variable", d + log); } else { log += " clear"; n->clear(); own.clear(); } continue; }
        else { FieldPtr q = n->getEmptyField(); std::vector<float> vals; for(int e = 0; e < f.E(); e++) for(int y = 0; y < f.Y(); y++) for(int x = 0; x < f.X(); x++) vals.push_back((*q)(y, x, e) = (float) r.i(5000, 9000)); n->addField(q, Variable(nm), t); own[{nm, (int) MV}][t] = vals; log += " add(" + nm + strf(",t%d)", t); continue; }
        if(!c.ok(ok, "read:get-refused", d + log + " -- " + err.so.str())) continue; c.okf(p->getNumY() == f.Y() && p->getNumX() == f.X() && p->getNumEns() == f.E(), "read:field-size", [&] { return d + log; }); auto o = own.find({nm, l}); if(o != own.end() && o->second.count(t)) { auto& vals = o->second[t]; size_t z = 0; bool same = true; for(int e = 0; e < f.E(); e++) for(int y = 0; y < f.Y(); y++) for(int x = 0; x < f.X(); x++) same = same && (*p)(y, x, e) == vals[z++]; c.ok(same, "read:changed-field", d + log); }
        else { V& v = *f.var(nm); c.okf(fieldok(f, v, *p, std::min(t, f.size('t') - 1), l == (int) MV ? 0 : l, why), "read:values", [&] { return d + log + "; " + why; }); c.h(t); c.h(l); for(char q : v.dims) c.h(q); }
    }
    bool beyond = client_runs([&] { n->getField(names[0], f.T()); }); c.ok(!beyond, "read:time-out-of-range", d); n.reset(); close_all();
}
// ---------------------------------------------------------------- writing
struct Raw { std::vector<double> v; std::vector<size_t> len; std::string units, sname, note, coords; bool there = false; };
static std::string att(int id, int v, const char* n) { size_t l = 0; nc_type t; if(nc_inq_att(id, v, n, &t, &l) || t != NC_CHAR) return ""; std::string s(l, 0); nc_get_att_text(id, v, n, &s[0]); return s; }
// one by one where the time dimension has grown, because netcdf misplaces the values of a variable that is shorter than its dimension when read at once
static Raw raw(int id, const std::string& name, bool single) { Raw o; int v; if(nc_inq_varid(id, name.c_str(), &v)) return o; o.there = true; int nd; nc_inq_varndims(id, v, &nd); int ds[16]; nc_inq_vardimid(id, v, ds); size_t k = 1; for(int i = 0; i < nd; i++) { size_t l; nc_inq_dimlen(id, ds[i], &l); o.len.push_back(l); k *= l; } o.v.resize(k); if(k && !single) nc_get_var_double(id, v, o.v.data()); if(single) { std::vector<size_t> ix(nd + 1, 0); for(size_t q = 0; q < k; q++) { size_t z = q; for(int i = nd - 1; i >= 0; i--) { ix[i] = z % o.len[i]; z /= o.len[i]; } nc_get_var1_double(id, v, ix.data(), &o.v[q]); } } o.units = att(id, v, "units"); o.sname = att(id, v, "standard_name"); o.note = att(id, v, "note"); o.coords = att(id, v, "coordinates"); return o; }
static bool sameraw(const std::vector<double>& a, const std::vector<double>& b) { if(a.size() != b.size()) return false; for(size_t k = 0; k < a.size(); k++) if(!(a[k] == b[k] || (std::isnan(a[k]) && std::isnan(b[k])))) return false; return true; }
CASEW(write, 5) {
    Rng& r = c.rng; F f = generate(r, true); Tmp tmp("nc"); if(!create(f, tmp.n, r)) { c.ok(false, "harness:create", describe(f)); return; } std::string d = describe(f), why, log; c.sample(d); Err err; std::unique_ptr<FileNetcdf> n; if(!client_runs([&] { n.reset(new FileNetcdf(tmp.n, Options(f.opts))); })) { close_all(); c.ok(false, "write:refused-to-open", d + " -- " + err.so.str()); return; }
    if(n->getNumTime() != f.T() || n->getNumEns() != f.E() || n->getNumY() != f.Y() || n->getNumX() != f.X()) { n.reset(); close_all(); c.ok(false, "write:dimensions", d); return; }
    int T = f.T(), E = f.E(), Y = f.Y(), X = f.X(), T2 = T, E2 = E; bool newT = r.p(0.4); std::vector<double> times = f.times; if(newT) { if(f.has('t') && f.unlim) T2 = T + r.i(0, 2); times.clear(); double b = 1.4e9 + 3600.0 * r.i(0, 9999); for(int t = 0; t < T2; t++) times.push_back(b + 1800.0 * t); n->setTimes(times); log += strf(" setTimes(%d)", T2); } if(r.p(0.3)) { E2 = r.i(1, E + (f.has('e') ? 0 : 2)); n->setNumEns(E2); log += strf(" setNumEns(%d)", E2); }
    if(f.scalarTime && r.p(0.2)) { n->setTimes({1.4e9, 1.5e9}); c.ok(!client_runs([&] { n->write(std::vector<Variable>(1, Variable("new1")), "m"); }), "write:times-lost", d); n.reset(); close_all(); return; }
    bool newR = r.p(0.3); double ref = n->getReferenceTime(); if(newR) { ref = r.p(0.2) ? MV : 1.5e9; n->setReferenceTime(ref); log += strf(" setReferenceTime(%.0f)", ref); } bool newEl = r.p(0.25); vec2 el = f.elevs; if(newEl) { for(auto& q : el) for(auto& z : q) z = r.p(0.1) ? MV : (float) (r.i(-80, 3200) * 0.25); if(r.p(0.2)) el = init2(Y, X, MV); c.ok(n->setElevs(el), "write:set-altitudes", d); log += " setElevs"; } bool anyEl = false; for(auto& q : el) for(float z : q) anyEl = anyEl || cv(z);
    // what is written: existing and new variables, some fields replaced, the others as they are in the file
    struct W { std::string name, units, sname; V* v; std::vector<std::vector<float>> val; std::vector<bool> set; }; std::vector<W> ws; std::vector<Variable> list;
    auto rnd = [&](V* v) -> float { if(r.p(0.1)) return r.p(0.2) ? NAN : MV; if(v && v->isInt()) { double q = r.i(v->type == NC_BYTE ? -100 : -3000, v->type == NC_BYTE ? 100 : 3000); if(v->missing(q) || q == -999 || std::fabs(q * v->scale + v->off + 999) < 2 * std::fabs(v->scale)) q = 7; return (q + (r.p(0.5) ? 0 : r.u(-0.45, 0.45))) * v->scale + v->off; } return r.p(0.3) ? (float) r.i(-20, 20) : (float) r.u(-500, 500); };
    for(auto& v : f.vars) { if(!isData(v) || r.p(0.4)) continue; bool ht = v.dims.find('t') != std::string::npos, he = v.dims.find('e') != std::string::npos; if((!ht && T2 > 1) || (!he && E2 > 1)) continue; W w; w.name = v.name; w.v = &v; if(r.p(0.3)) w.units = text(r); if(r.p(0.3)) w.sname = text(r); ws.push_back(w); }
    for(int k = r.i(ws.empty() ? 1 : 0, 2); k > 0; k--) { W w; w.name = strf("new%d", k); w.v = nullptr; if(r.p(0.6)) w.units = text(r); if(r.p(0.4)) w.sname = text(r); ws.push_back(w); }
    for(auto& w : ws) { Variable var(w.name, w.units, w.sname); list.push_back(var); w.set.assign(T2, false); w.val.resize(T2); log += " " + w.name; bool init = !w.v || r.p(0.3); if(init) client_runs([&] { n->initNewVariable(var); }); for(int t = 0; t < T2; t++) { bool s = !w.v || r.p(0.6); if(!s) continue; FieldPtr p = n->getEmptyField(); std::vector<float> vals; for(int e = 0; e < E2; e++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { float q = rnd(w.v); if(!cv(q) || (w.v && !w.v->isInt() && w.v->missing(q))) q = cv(q) ? 3 : q; vals.push_back((*p)(y, x, e) = q); } n->addField(p, var, t); w.val[t] = vals; w.set[t] = true; log += strf("[%d]", t); } }
    if(!list.empty() && r.p(0.3)) client_runs([&] { n->getField(list[0], 0); }); std::string msg = "cmd " + text(r); bool ok = client_runs([&] { n->write(list, msg); }); if(!ok) { n.reset(); close_all(); c.ok(false, "write:refused", d + ";" + log + " -- " + err.so.str()); return; } n.reset(); d += ";" + log;
    int id; if(!c.ok(nc_open(tmp.n.c_str(), NC_NOWRITE, &id) == NC_NOERR, "write:unreadable", d)) return; auto written = [&](const std::string& s) -> W* { for(auto& w : ws) if(w.name == s) return &w; return nullptr; };
    std::string altN = "altitude"; // variables that are not written stay as they were
    for(auto& v : f.vars) { Raw g = raw(id, v.name, T2 != T); if(!c.ok(g.there, "write:variable-lost", d + "; " + v.name)) continue; W* w = written(v.name); c.ok(g.note == v.note, "write:attribute-changed", d + "; " + v.name + " note '" + g.note + "'"); if(w) continue; if(v.name == f.timeN || (v.name == altN && anyEl)) continue; c.ok(g.units == v.units && g.sname == v.sname, "write:attribute-changed", d + "; " + v.name); bool ht = v.dims.find('t') != std::string::npos; if(T2 == f.size('t') || !ht) c.ok(sameraw(g.v, v.raw), "write:other-variable-changed", d + "; " + v.name); else { bool same = true; std::map<char, int> n2 = f.n; n2['t'] = T2; F h = f; h.n = n2; for(int t = 0; t < T; t++) for(int e = 0; e < (v.dims.find('e') != std::string::npos ? E : 1); e++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) for(int l = 0; l < (v.dims.find('l') != std::string::npos ? f.size('l') : 1); l++) { double a = v.raw[f.index(v, t, e, y, x, l)], b = g.v[h.index(v, t, e, y, x, l)]; same = same && (a == b || (std::isnan(a) && std::isnan(b))); } c.ok(same, "write:other-variable-changed", d + "; " + v.name); } }
    // the written variables
    F h = f; if(f.has('t')) h.n['t'] = T2; for(auto& w : ws) {
        Raw g = raw(id, w.name, T2 != T); if(!c.ok(g.there, "write:not-written", d + "; " + w.name)) continue; V nv; nv.name = w.name; V* v = w.v; std::string wu = w.units, wsn = w.sname; if(v) { if(wu.empty()) wu = v->units; if(wsn.empty()) wsn = v->sname; } c.ok(g.units == wu && g.sname == wsn, "write:attributes", d + "; " + w.name + ": " + g.units + ", " + g.sname); c.ok(g.coords == f.lonN + " " + f.latN, "write:coordinates", d + "; " + w.name + ": " + g.coords);
        if(v) { if(!c.ok(g.v.size() == h.count(*v), "write:size", d + "; " + w.name)) continue; bool he = v->dims.find('e') != std::string::npos, hl = v->dims.find('l') != std::string::npos; int EE = he ? E : 1, LL = hl ? f.size('l') : 1; bool good = true, kept = true, exact = true; std::string bad; for(int t = 0; t < T2; t++) for(int e = 0; e < EE; e++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) for(int l = 0; l < LL; l++) { double q = g.v[h.index(*v, t, e, y, x, l)]; bool old = t < f.size('t'); double o = old ? v->raw[f.index(*v, t, e, y, x, l)] : v->efffill(); if(l > 0) { if(old) kept = kept && (q == o || (std::isnan(q) && std::isnan(o))); continue; } double want = e >= E2 ? MV : w.set[t] ? (double) w.val[t][((size_t) e * Y + y) * X + x] : v->dec(o); bool mq = v->missing(q); if(e < E2 && !w.set[t] && old && v->isInt()) exact = exact && q == o; if(mq != !cv(want) || (!mq && !(std::fabs(v->dec(q) - want) <= v->wtol(want)))) { if(good) bad = strf("%s is %g (raw %g) at (t%d,e%d,y%d,x%d), expected %g", w.name.c_str(), v->dec(q), q, t, e, y, x, want); good = false; } } c.ok(good, "write:values", d + "; " + bad); c.ok(exact, "write:packed-value-drifts", d + "; " + w.name); c.ok(kept, "write:other-level-changed", d + "; " + w.name); }
        else { // time, member, y, x
            std::vector<size_t> want; bool te = f.has('t') || f.timeN.empty(); if(te) want.push_back(T2); bool ee = f.has('e') || E2 > 1; if(ee) want.push_back(f.has('e') ? E : E2); if(f.has('y')) want.push_back(Y); if(f.has('x')) want.push_back(X); if(!c.okf(g.len == want, "write:new-dimensions", [&] { std::string s = d + "; " + w.name + " ["; for(auto q : g.len) s += strf("%zu ", q); return s + "]"; })) continue; int EE = ee ? (f.has('e') ? E : E2) : 1; bool good = true; std::string bad; for(int t = 0; t < T2; t++) for(int e = 0; e < EE; e++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { double q = g.v[((size_t) (t * EE + e) * Y + y) * X + x], wv = e < E2 ? w.val[t][((size_t) e * Y + y) * X + x] : MV; if(nv.missing(q) != !cv(wv) || (cv(wv) && !((float) q == (float) wv))) { good = false; bad = strf("%g at (t%d,e%d,y%d,x%d), expected %g", q, t, e, y, x, wv); } } c.ok(good, "write:new-values", d + "; " + w.name + ": " + bad); }
        c.h(w.v ? 1 : 2); c.h(T2); c.h(E2);
    }
    std::string hist = att(id, NC_GLOBAL, "history"), cn = att(id, NC_GLOBAL, "Conventions"), tail = ": gridpp " + msg + (f.history.empty() ? "" : "\n" + f.history); c.ok(hist.size() > tail.size() && hist.compare(hist.size() - tail.size(), std::string::npos, tail) == 0, "write:history", d + "; " + hist); c.ok(f.conv.empty() || cn == f.conv, "write:conventions", d + "; " + cn); for(auto& q : f.gatt) c.ok(att(id, NC_GLOBAL, q.first.c_str()) == q.second, "write:global-attribute", d + "; " + q.first); nc_close(id);
    // and through the client again
    std::unique_ptr<FileNetcdf> b; std::string o2 = f.opts; if(!client_runs([&] { b.reset(new FileNetcdf(tmp.n, Options(o2), true)); })) { close_all(); c.ok(false, "reread:refused", d + " -- " + err.so.str()); return; }
    bool tsame = b->getTimes() == times; c.okf(tsame, "reread:times", [&] { return d + strf("; %zu times, first %.0f, expected %zu, %.0f", b->getTimes().size(), b->getTimes().size() ? b->getTimes()[0] : -1, times.size(), times[0]); }); if(cv(ref)) c.okf(b->getReferenceTime() == ref, "reread:reference-time", [&] { return d + strf("; %.0f, expected %.0f", b->getReferenceTime(), ref); }); else c.okf(!cv(b->getReferenceTime()) || b->getReferenceTime() == times[0], "reread:missing-reference-time", [&] { return d + strf("; %g", b->getReferenceTime()); });
    bool ownElev = f.elevN == "topo" ; c.okf(gridok(b->getElevs(), ownElev ? f.elevs : anyEl ? el : f.elevs, 2e-4, why) || (!anyEl && newEl), "reread:altitudes", [&] { return d + "; " + why; }); vec2 lo = b->getLons(); bool lk = (int) lo.size() == Y; for(int y = 0; lk && y < Y; y++) for(int x = 0; x < X; x++) lk = lk && lonok(lo[y][x], f.lons[y][x]); c.ok(lk && gridok(b->getLats(), f.lats, 1e-5, why), "reread:locations", d);
    if(tsame && b->getNumEns() >= 1) for(auto& w : ws) for(int t = 0; t < T2; t++) { if(!w.set[t]) continue; FieldPtr p; if(!c.ok(client_runs([&] { p = b->getField(w.name, t); }), "reread:get", d)) break; bool good = true; std::string bad; for(int e = 0; e < std::min(E2, p->getNumEns()); e++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { float q = (*p)(y, x, e), wv = w.val[t][((size_t) e * Y + y) * X + x]; double tol = w.v ? w.v->wtol(wv) : 0; if(cv(q) != cv(wv) || (cv(wv) && !(std::fabs(q - wv) <= tol))) { good = false; bad = strf("%s is %g at (t%d,e%d,y%d,x%d), wrote %g", w.name.c_str(), q, t, e, y, x, wv); } } c.ok(good, "reread:values", d + "; " + bad); }
    b.reset(); close_all();
}
// ---------------------------------------------------------------- text files
typedef std::tuple<float, float, float> LLE;
static std::string num(double v, int prec = 6) { std::ostringstream s; s << std::setprecision(prec) << v; return s.str(); }
CASEW(text, 3) {
    Rng& r = c.rng; int nt = r.i(1, 5), nl = r.i(1, 5), E = r.p(0.04) ? r.i(1500, 2500) : r.i(1, 5); std::vector<int> ts; int tb = r.p(0.5) ? 0 : 1300000000 + 3600 * r.i(0, 9999); while((int) ts.size() < nt) { int t = tb + r.i(0, 30) * 3600; if(std::find(ts.begin(), ts.end(), t) == ts.end()) ts.push_back(t); } std::vector<LLE> ls; while((int) ls.size() < nl) { LLE q((float) atof(num(r.p(0.3) && !ls.empty() ? std::get<0>(ls[0]) : (float) r.u(-89, 89)).c_str()), (float) atof(num(r.p(0.3) && !ls.empty() ? std::get<1>(ls[0]) : (float) r.u(-179, 179)).c_str()), r.p(0.1) ? MV : (float) r.i(-20, 900)); if(std::find(ls.begin(), ls.end(), q) == ls.end()) ls.push_back(q); }
    std::map<int, std::map<LLE, vec>> m; std::vector<std::pair<int, int>> rows; for(int t = 0; t < nt; t++) for(int l = 0; l < nl; l++) if(r.p(0.85)) rows.push_back({t, l}); if(rows.empty()) rows.push_back({0, 0}); if(r.p(0.5)) for(size_t i = rows.size(); i > 1; i--) std::swap(rows[i - 1], rows[r.i(0, i - 1)]);
    std::string s; auto comment = [&] { if(r.p(0.2)) s += "# " + text(r) + "\n"; }; for(size_t k = 0; k < rows.size(); k++) { comment(); int t = ts[rows[k].first]; LLE l = ls[rows[k].second]; std::string sep = r.p(0.2) ? "  " : r.p(0.1) ? "\t" : " "; s += num(t, 12) + sep + num(std::get<0>(l)) + sep + num(std::get<1>(l)) + sep + num(std::get<2>(l)); vec v; for(int e = 0; e < E; e++) { std::string q = r.p(0.1) ? "-999" : num(r.p(0.3) ? r.i(-20, 20) : r.u(-400, 400)); s += sep + q; v.push_back((float) atof(q.c_str())); } m[t][l] = v; if(k + 1 < rows.size() || r.p(0.7)) s += "\n"; } if(s.back() == '\n') comment();
    std::set<LLE> used; for(auto& t : m) for(auto& l : t.second) used.insert(l.first); std::vector<LLE> loc(used.begin(), used.end()); std::vector<double> times; for(auto& t : m) times.push_back(t.first);
    Tmp tmp("txt"); spew(tmp.n, s); Err err; std::string d = s.size() < 600 ? s : s.substr(0, 200) + strf("... (%d members)", E), why; c.sample(d); std::unique_ptr<FileText> f; if(!c.ok(client_runs([&] { f.reset(new FileText(tmp.n, Options())); }), "text:refused", d + " -- " + err.so.str())) return;
    auto check = [&](FileText& g, double tol, const char* tag) { std::string k = tag; if(!c.okf(g.getNumEns() == E && g.getNumY() == (int) loc.size() && g.getNumTime() == (int) times.size() && (loc.empty() || g.getNumX() == 1), (k + ":dimensions").c_str(), [&] { return d + "; read as " + g.getDimenionString(); })) return; c.ok(g.getTimes() == times, (k + ":times").c_str(), d); vec2 la = g.getLats(), lo = g.getLons(), el = g.getElevs(); bool lk = true; for(size_t i = 0; i < loc.size(); i++) { float q = std::get<2>(loc[i]); lk = lk && std::fabs(la[i][0] - std::get<0>(loc[i])) < 1e-4 && std::fabs(lo[i][0] - std::get<1>(loc[i])) < 2e-4 && (cv(q) ? std::fabs(el[i][0] - q) < 0.01 : !cv(el[i][0])); } if(!c.ok(lk, (k + ":locations").c_str(), d)) return;
        for(int z = 0; z < 2; z++) for(size_t t = 0; t < times.size(); t++) { FieldPtr p; if(!c.ok(client_runs([&] { p = g.getField(z ? "a" : "b", t); }), (k + ":get").c_str(), d)) return; for(size_t i = 0; i < loc.size(); i++) { auto it = m[(int) times[t]].find(loc[i]); for(int e = 0; e < E; e++) { float w = it == m[(int) times[t]].end() ? MV : it->second[e], q = (*p)(i, 0, e); if(cv(q) != cv(w) || (cv(w) && !(std::fabs(q - w) <= tol + 1e-5 * std::fabs(w)))) { c.viol((k + ":values").c_str(), d + strf("; %g at time %.0f, row %zu, member %d, expected %g", q, times[t], i, e, w)); return; } } } c.h(t); } c.ok(true, (k + ":values").c_str(), d); }; check(*f, 1e-5, "text"); if(f->getNumTime() != (int) times.size() || f->getNumY() != (int) loc.size() || f->getNumEns() != E) return;
    // written with other values, possibly for other times and members
    if(E > 50) return; if(r.p(0.4)) { std::vector<double> t2; int n2 = r.i(1, 6); for(int t = 0; t < n2; t++) t2.push_back(1400000000.0 + 3600 * t); f->setTimes(t2); times = t2; } if(r.p(0.3)) { E = r.i(1, 6); f->setNumEns(E); } Variable var("a"); f->clear(); m.clear(); std::vector<FieldPtr> first; for(size_t t = 0; t < times.size(); t++) { FieldPtr p; if(!c.ok(client_runs([&] { p = f->getField(var, t); }), "text:get-other-times", d)) return; if(!c.ok(p->getNumEns() == E && p->getNumY() == (int) loc.size(), "text:field-size", d)) return; for(size_t i = 0; i < loc.size(); i++) { vec v; for(int e = 0; e < E; e++) { float q = r.p(0.1) ? (r.p(0.2) ? NAN : MV) : (float) r.u(-400, 400); (*p)(i, 0, e) = q; v.push_back(q); } m[(int) times[t]][loc[i]] = v; } }
    { // another variable read from the same file is not changed by that
        FieldPtr p; client_runs([&] { p = f->getField(Variable("zz"), 0); }); bool same = E > 0; for(size_t i = 0; i < loc.size(); i++) for(int e = 0; e < E; e++) { float a = (*p)(i, 0, e), b = m[(int) times[0]][loc[i]][e]; same = same && cv(b) && a == b; } c.ok(!same, "text:fields-shared", d); }
    std::vector<Variable> vl(1, var); if(!c.ok(client_runs([&] { f->write(vl); }), "text:write-refused", d)) return; f.reset(); if(!c.ok(client_runs([&] { f.reset(new FileText(tmp.n, Options())); }), "text:reread-refused", d + " -- " + err.so.str())) return; std::string w; slurp(tmp.n, w); d += " wrote " + w.substr(0, 400); check(*f, 0.0051, "text-reread");
}
CASEW(point, 2) {
    Rng& r = c.rng; Tmp tmp("txt"); Err err; int nt = r.i(1, 6), E = r.p(0.04) ? 2000 : r.i(1, 5); bool idx = r.p(0.3); std::vector<double> times; for(int t = 0; t < nt; t++) times.push_back(idx ? t : 1300000000.0 + 3600.0 * (10 * t + r.i(0, 9))); if(r.p(0.2)) for(int i = nt; i > 1; i--) std::swap(times[i - 1], times[r.i(0, i - 1)]); std::vector<vec> val; std::string s; for(int t = 0; t < nt; t++) { if(r.p(0.15)) s += "# " + text(r) + "\n"; s += num(times[t], 12); vec v; for(int e = 0; e < E; e++) { std::string q = r.p(0.1) ? "-999" : num(r.u(-400, 400)); s += " " + q; v.push_back((float) atof(q.c_str())); } val.push_back(v); if(t + 1 < nt || r.p(0.7)) s += "\n"; } if(s.back() == '\n' && r.p(0.1)) s += "\n";
    double la = r.i(-90, 90), lo = r.i(-180, 359), el = r.i(0, 900); std::string o = strf("lat=%g lon=%g elev=%g", la, lo, el); bool existing = r.p(0.75); std::string d = o + " " + (s.size() < 500 ? s : s.substr(0, 200) + "..."); c.sample(d); std::unique_ptr<FilePoint> f; auto loc = [&](FilePoint& g, const char* k) { c.ok(g.getNumX() == 1 && g.getNumY() == 1 && g.getLats()[0][0] == la && lonok(g.getLons()[0][0], lo) && g.getElevs()[0][0] == el, k, d); };
    auto check = [&](FilePoint& g, double tol, const char* tag) { std::string k = tag; if(!c.okf(g.getNumEns() == E && g.getNumTime() == (int) times.size(), (k + ":dimensions").c_str(), [&] { return d + "; read as " + g.getDimenionString(); })) return; c.ok(g.getTimes() == times, (k + ":times").c_str(), d); for(size_t t = 0; t < times.size(); t++) { FieldPtr p; if(!c.ok(client_runs([&] { p = g.getField("a", t); }), (k + ":get").c_str(), d + " -- " + err.so.str())) return; for(int e = 0; e < E; e++) { float w = val[t][e], q = (*p)(0, 0, e); if(cv(q) != cv(w) || (cv(w) && !(std::fabs(q - w) <= tol + 1e-5 * std::fabs(w)))) { c.viol((k + ":values").c_str(), d + strf("; %g at time %zu member %d, expected %g", q, t, e, w)); return; } } c.h(t); } c.ok(true, (k + ":values").c_str(), d); };
    if(existing) { spew(tmp.n, s); if(!c.ok(client_runs([&] { f.reset(new FilePoint(tmp.n, Options(o + (r.p(0.3) ? strf(" ens=%d", E) : std::string())))); }), "point:refused", d + " -- " + err.so.str())) return; loc(*f, "point:location"); check(*f, 1e-5, "point"); if(f->getNumEns() != E || E > 50) return; }
    else { bool nt0 = r.p(0.15), ne0 = r.p(0.15); std::string q = o + (nt0 ? "" : strf(" time=%d", nt)) + (ne0 ? "" : strf(" ens=%d", E)); bool ok = client_runs([&] { f.reset(new FilePoint(tmp.n, Options(q))); }); if(nt0 || ne0) { c.ok(!ok, "point:size-of-new-file-unknown", q); return; } if(!c.ok(ok, "point:new-refused", q + " -- " + err.so.str())) return; loc(*f, "point:location"); c.ok(f->getNumTime() == nt && f->getNumEns() == E, "point:new-dimensions", q); times.clear(); for(int t = 0; t < nt; t++) times.push_back(t); }
    if(r.p(0.5)) { int n2 = r.i(1, 6); times.clear(); for(int t = 0; t < n2; t++) times.push_back(1400000000.0 + 3600 * t); f->setTimes(times); } Variable var("a"); f->clear(); val.assign(times.size(), vec()); for(size_t t = 0; t < times.size(); t++) { FieldPtr p = f->getEmptyField(); for(int e = 0; e < E; e++) { float q = r.p(0.1) ? (r.p(0.2) ? NAN : MV) : (float) r.u(-400, 400); (*p)(0, 0, e) = q; val[t].push_back(q); } f->addField(p, var, t); } std::vector<Variable> vl(1, var); if(!c.ok(client_runs([&] { f->write(vl); }), "point:write-refused", d)) return; f.reset(); if(!c.ok(client_runs([&] { f.reset(new FilePoint(tmp.n, Options(o))); }), "point:reread-refused", d + " -- " + err.so.str())) return; std::string w; slurp(tmp.n, w); d += " wrote " + w.substr(0, 300); check(*f, 0.0051, "point-reread");
}
CASEW(norcom, 1) {
    Rng& r = c.rng; Tmp tmp("txt"); Err err; int n = r.i(1, 4), T = r.i(1, 6), s0 = r.i(0, T - 1), s1 = r.i(s0, T - 1); bool bad = r.p(0.15); if(bad) { int w = r.i(0, 2); if(w == 0) s1 = T + r.i(0, 3); else if(w == 1) s0 = -r.i(1, 3); else { s1 = s0 - 1; } } std::string la, lo, el, nm; std::vector<std::string> names; for(int i = 0; i < n; i++) { std::string c1 = i ? "," : ""; la += c1 + strf("%d", r.i(-90, 90)); lo += c1 + strf("%d", r.i(-180, 180)); el += c1 + strf("%d", r.i(0, 500)); std::string q; for(int k = r.i(1, 9); k > 0; k--) q += 'A' + r.i(0, 25); names.push_back(q); nm += c1 + q; } std::string o = "lats=" + la + " lons=" + lo + " elevs=" + el + " names=" + nm + strf(" numTimes=%d startTime=%d endTime=%d", T, s0, s1); c.sample(o); std::unique_ptr<FileNorcomQnh> f; bool ok = client_runs([&] { f.reset(new FileNorcomQnh(tmp.n, Options(o))); }); if(!ok) { c.ok(bad, "norcom:refused", o + " -- " + err.so.str()); return; }
    std::vector<double> times; for(int t = 0; t < T; t++) times.push_back(1.4e9 + 3600.0 * t + 60 * r.i(0, 59)); f->setTimes(times); Variable var("q"); std::vector<vec> v(T, vec(n)); for(int t = 0; t < T; t++) { FieldPtr p = f->getEmptyField(); for(int i = 0; i < n; i++) (*p)(0, i, 0) = v[t][i] = r.p(0.15) ? (r.p(0.3) ? NAN : MV) : (float) r.u(92000, 108000); f->addField(p, var, t); } std::vector<Variable> vl(1, var); ok = client_runs([&] { f->write(vl); }); bool allm = false; if(!bad) for(int i = 0; i < n; i++) { bool a = true; for(int t = s0; t <= s1; t++) a = a && !cv(v[t][i]); allm = allm || a; } if(bad || allm) { c.ok(!ok, bad ? "norcom:times-out-of-range" : "norcom:missing", o); return; } if(!c.ok(ok, "norcom:write-refused", o + " -- " + err.so.str())) return; f.reset();
    std::string s, line; slurp(tmp.n, s); std::vector<std::string> lines; std::stringstream ss(s); while(std::getline(ss, line)) { while(!line.empty() && line.back() == '\r') line.pop_back(); lines.push_back(line); } auto stamp = [](double t) { time_t q = (time_t) t; struct tm g; gmtime_r(&q, &g); return strf("%02d%02d%02d", g.tm_mday, g.tm_hour, g.tm_min); }; if(!c.ok((int) lines.size() == n + 2, "norcom:lines", o + s)) return; c.ok(lines[1] == "VALID " + stamp(times[s0]) + " - " + stamp(times[s1]) + " UTC.", "norcom:period", o + s); size_t w = 0; for(auto& q : names) w = std::max(w, q.size());
    for(int i = 0; i < n; i++) { double mn = 1e30; for(int t = s0; t <= s1; t++) if(cv(v[t][i])) mn = std::min(mn, (double) v[t][i]); std::string q = names[i]; q.resize(w, ' '); c.ok(lines[2 + i] == "EST MIN QNH " + q + strf(": %04d HPA", (int) (mn / 100)), "norcom:value", o + strf(" minimum %g in ", mn) + lines[2 + i]); c.h(i); }
}
// ---------------------------------------------------------------- unusual files: an error or the right content, never a crash
CASEW(hostile, 2) {
    Rng& r = c.rng; Tmp tmp("nc"); Err err; int w = r.i(0, 13); c.sample(strf("kind %d", w)); std::string d = strf("unusual file %d ", w);
    if(w == 11) { spew(tmp.n, r.p(0.5) ? "" : "# nothing\n"); client_runs([&] { FileText f(tmp.n, Options()); f.getNumX(); f.getDimenionString(); f.getElevs(); f.getLandFractions(); for(int t = 0; t < f.getNumTime(); t++) f.getField("a", t); }); c.ok(true, "hostile:text", d); return; }
    if(w == 12) { client_runs([&] { FileText f(tmp.n, Options()); f.getNumX(); f.getDimenionString(); f.getElevs(); f.getLandFractions(); for(int t = 0; t < f.getNumTime() && t < 3; t++) f.getField("a", t); }); c.ok(true, "hostile:no-file", d); return; }
    int id, st = 0, T = r.i(1, 3), Y = r.i(1, 3), X = r.i(1, 4), E = r.i(1, 3); auto ck = [&](int s) { if(s && !st) st = s; }; if(w == 9) { int z = r.i(0, 3); (z == 0 ? T : z == 1 ? Y : z == 2 ? X : E) = 0; } int dt, dy, dx, de, dl, vla, vlo, vt, va; ck(nc_create(tmp.n.c_str(), NC_CLOBBER | NC_NETCDF4, &id)); bool td = w != 4; bool lim = w != 9; auto dim = [&](const char* n, int k, int* q) { ck(nc_def_dim(id, n, lim && k ? k : k ? k : NC_UNLIMITED, q)); }; if(td) dim("time", T, &dt); dim("ensemble_member", E, &de); dim("y", Y, &dy); dim("x", X, &dx); dim("other", 300, &dl);
    int h[2] = {dy, dx}; int a[4] = {td ? dt : dl, de, dy, dx}; if(w == 10) { ck(nc_def_var(id, "latitude", NC_FLOAT, 0, 0, &vla)); ck(nc_def_var(id, "longitude", NC_FLOAT, 0, 0, &vlo)); } else { ck(nc_def_var(id, "latitude", NC_FLOAT, 2, h, &vla)); ck(nc_def_var(id, "longitude", NC_FLOAT, 2, h, &vlo)); } int t2[2] = {td ? dt : dl, dl}; ck(nc_def_var(id, "time", NC_DOUBLE, w == 5 ? 2 : 1, w == 3 || w == 4 ? &dl : t2, &vt)); ck(nc_def_var(id, "va", w == 6 ? NC_CHAR : NC_FLOAT, 4, a, &va)); std::string big;
    const char* us = "K s"; double nums[300]; for(int k = 0; k < 300; k++) nums[k] = k + 2; if(w == 0) ck(nc_put_att_double(id, va, r.p(0.5) ? "units" : "standard_name", NC_DOUBLE, r.p(0.5) ? 1 : 300, nums)); if(w == 1) ck(nc_put_att_string(id, va, "units", 1, &us)); if(w == 2) { if(r.p(0.5)) ck(nc_put_att_string(id, NC_GLOBAL, "history", 1, &us)); else ck(nc_put_att_double(id, NC_GLOBAL, r.p(0.5) ? "history" : "Conventions", NC_DOUBLE, 2, nums)); } if(w == 7) ck(nc_put_att_double(id, va, r.p(0.5) ? "scale_factor" : "add_offset", NC_DOUBLE, 300, nums)); if(w == 8) { big = r.p(0.05) ? std::string(9000000, 'h') : std::string(30000, 'h'); ck(nc_put_att_text(id, NC_GLOBAL, "history", big.size(), big.c_str())); } ck(nc_enddef(id));
    vec ll(std::max(1, Y * X)); for(size_t k = 0; k < ll.size(); k++) ll[k] = 10 + 0.5 * k; size_t s0[4] = {0, 0, 0, 0}, hn[2] = {(size_t) Y, (size_t) X}; if(w == 10) { ck(nc_put_var_float(id, vla, ll.data())); ck(nc_put_var_float(id, vlo, ll.data())); } else if(Y * X) { ck(nc_put_vara_float(id, vla, s0, hn, ll.data())); ck(nc_put_vara_float(id, vlo, s0, hn, ll.data())); } std::vector<double> tt(90000, 1.3e9); if(T) { size_t tn[2] = {(size_t) (w == 3 || w == 4 ? 300 : T), 300}; ck(nc_put_vara_double(id, vt, s0, tn, tt.data())); } ck(nc_close(id)); if(st) { c.ok(false, "harness:hostile", nc_strerror(st)); return; }
    // expected to be readable: 0, 1, 2, 7?, 8
    std::unique_ptr<FileNetcdf> f; bool ok = client_runs([&] { f.reset(new FileNetcdf(tmp.n)); }); if(w <= 2 || w == 8) c.ok(ok, "hostile:refused", d + " -- " + err.so.str()); if(!ok) { close_all(); return; } client_runs([&] { f->getNumX(); f->getNumY(); f->getDimenionString(); f->getElevs(); f->getLandFractions(); f->getLats(); }); FieldPtr p; if(f->getNumTime() < 100) for(int t = 0; t < f->getNumTime(); t++) client_runs([&] { p = f->getField(w == 13 ? Variable("va", "", "", r.p(0.5) ? 4000 : -3) : Variable("va"), t); }); Variable q("va"); if(w == 1) { f->getVariable("va", q); c.ok(q.units() == us, "hostile:text-attribute", d + q.units()); } if(w == 6 && p) { bool any = false; for(int e = 0; e < E; e++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) any = any || cv((*p)(y, x, e)); c.ok(!any, "hostile:character-data-as-numbers", d); }
    ok = client_runs([&] { f->write(std::vector<Variable>(1, Variable("vb")), "m"); }); if(w <= 2 || w == 8) c.ok(ok, "hostile:write-refused", d + " -- " + err.so.str()); f.reset(); close_all(); if(ok && w == 8) { int q; if(c.ok(nc_open(tmp.n.c_str(), NC_NOWRITE, &q) == NC_NOERR, "hostile:unreadable", d)) { std::string z = att(q, NC_GLOBAL, "history"); c.ok(z.size() > big.size() && z.compare(z.size() - big.size(), std::string::npos, big) == 0, "hostile:history", d); nc_close(q); } } c.h(w);
}
