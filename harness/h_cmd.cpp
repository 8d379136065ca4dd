// C27: option strings and command lines. Options are compared to a model map; command lines are generated from a description of the chain and the parsed chain is compared to it; the driver itself is run on small files and what it writes is compared to the chain evaluated here.
#include "client.h"
#include "Setup.h"
#include "Calibrator/Calibrator.h"
#include "ParameterFile/ParameterFile.h"
#include <netcdf.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <array>
#define main gridpp_main
#include "Driver/Gridpp.cpp"
#undef main
struct Mute { std::streambuf *o, *e; std::ostringstream so, se; Mute() { o = std::cout.rdbuf(so.rdbuf()); e = std::cerr.rdbuf(se.rdbuf()); } ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
static void close_all() { for(int k = 1; k <= 40; k++) nc_close(k << 16); } // files left open by a command line that was refused
static void own_dir() { static bool done = false; if(done) return; done = true; std::string d = strf("d%d", (int) getpid()); mkdir(d.c_str(), 0755); if(chdir(d.c_str())) _exit(9); }
static void quiet() { Util::setShowError(false); Util::setShowWarning(false); Util::setShowStatus(false); Util::setShowInfo(false); }

// ---------------------------------------------------------------- options
typedef std::vector<std::pair<std::string, std::string>> KV;
static void kset(KV& m, const std::string& k, const std::string& v) { if(k.empty() || v.empty()) return; for(auto& q : m) if(q.first == k) { q.second = v; return; } m.push_back({k, v}); }
static std::string word(Rng& r, const char* extra = "") { static const std::string base = "abcdefgXYZ0123456789_./"; std::string a = base + extra, s; int n = r.i(1, 6); for(int i = 0; i < n; i++) s += a[r.i(0, a.size() - 1)]; return s; }
static void kadd(KV& m, const std::string& s) { std::stringstream ss(s); std::string w; while(std::getline(ss, w, ' ')) { if(w.empty()) continue; size_t p = w.find('='); if(p == std::string::npos) kset(m, w, "1"); else kset(m, w.substr(0, p), w.substr(p + 1)); } }
static std::string kstr(const KV& m) { std::string s; for(auto& q : m) s += (s.empty() ? "" : " ") + q.first + "=" + q.second; return s; }
// every key with its value as text, in any order
static bool same_options(const Options& o, const KV& m, std::string& why) {
    for(auto& q : m) { std::string v; if(!o.hasValue(q.first) || !o.getValue(q.first, v)) { why = "no value for " + q.first; return false; } if(v != q.second) { why = q.first + " is " + v + ", expected " + q.second; return false; } }
    KV back; kadd(back, o.toString()); if(back.size() != m.size()) { why = "printed as '" + o.toString() + "'"; return false; } return true;
}
CASEW(options, 3) {
    Rng& r = c.rng; KV m; Options o; std::vector<std::string> keys; for(int i = r.i(1, 6); i > 0; i--) keys.push_back(word(r)); std::string log, why; std::set<std::string> seen;
    for(int k = r.i(1, 12); k > 0; k--) {
        int w = r.i(0, 9); std::string key = r.pick(keys);
        if(w < 4) { std::string s; for(int q = r.i(0, 4); q > 0; q--) { std::string a = r.pick(keys); int z = r.i(0, 9); s += (s.empty() && !r.p(0.2) ? "" : r.p(0.1) ? "  " : " ") + (z == 0 ? a : z == 1 ? a + "=" : z == 2 ? "=" + word(r) : a + "=" + word(r, "=,-+")); } log += " addOptions('" + s + "')"; o.addOptions(s); kadd(m, s); }
        else if(w == 4) { std::string v = r.p(0.1) ? "" : word(r, ",="); log += " add(" + key + "," + v + ")"; o.addOption(key, v); kset(m, key, v); }
        else if(w == 5) { int v = r.i(-1000000, 1000000); log += strf(" add(%s,%d)", key.c_str(), v); o.addOption(key, v); kset(m, key, strf("%d", v)); int g = 0; c.ok(o.getValue(key, g) && g == v, "options:int", log); seen.insert(key); }
        else if(w == 6) { float v = r.p(0.3) ? (float) r.i(-50, 50) / 4 : (float) r.u(-1000, 1000); std::stringstream ss; ss << v; log += strf(" add(%s,%g)", key.c_str(), v); o.addOption(key, v); kset(m, key, ss.str()); float g = 0; c.ok(o.getValue(key, g) && std::fabs(g - v) <= 1e-5 * (1 + std::fabs(v)), "options:float", log); seen.insert(key); }
        else if(w == 7) { std::vector<int> v; std::string s; for(int q = r.i(1, 5); q > 0; q--) { v.push_back(r.i(-99, 99)); s += (s.empty() ? "" : ",") + strf("%d", v.back()); } o.addOptions(key + "=" + s); kset(m, key, s); log += " " + key + "=" + s; std::vector<int> g(3, 7); std::vector<float> gf; c.okf(o.getValues(key, g) && g == v, "options:list", [&] { return log + " got " + str(g); }); o.getValues(key, gf); c.ok(std::vector<int>(gf.begin(), gf.end()) == v, "options:float-list", log); std::vector<std::string> gs; client_runs([&] { o.getRequiredValues(key, gs); }); c.ok(gs.size() == v.size() && gs[0] == strf("%d", v[0]), "options:text-list", log); seen.insert(key); }
        else if(w == 8) { bool v = r.p(0.5), g = !v; o.addOptions(key + (v ? "=1" : "=0")); kset(m, key, v ? "1" : "0"); log += " " + key + (v ? "=1" : "=0"); c.ok(o.getValue(key, g) && g == v, "options:bool", log); seen.insert(key); }
        else if(r.p(0.3)) { o.clear(); m.clear(); seen.clear(); log += " clear"; }
        // what was never asked for
        bool unused = false; for(auto& q : m) unused = unused || !seen.count(q.first); c.okf(o.check() == !unused, "options:check", [&] { return log + " holds '" + kstr(m) + strf("' but check() is %d", unused); });
    }
    std::string absent = "no" + r.pick(keys) + "~"; int keep = 17; std::vector<int> kl(2, 3); c.ok(!o.hasValue(absent) && !o.getValue(absent, keep) && keep == 17 && !o.getValues(absent, kl) && kl.empty(), "options:absent", log); c.ok(!client_runs([&] { o.getRequiredValue(absent, keep); }) && !client_runs([&] { o.getRequiredValues(absent, kl); }), "options:required-missing", log);
    Options back(o.toString()), shuffled; KV m2 = m; for(size_t i = m2.size(); i > 1; i--) std::swap(m2[i - 1], m2[r.i(0, i - 1)]); for(auto& q : m2) shuffled.addOption(q.first, q.second);
    c.ok(back == o && o == back && !(back != o) && shuffled == o && o == shuffled, "options:equal", log); if(!m2.empty()) { Options other = shuffled; int k = r.i(0, m2.size() - 1); if(r.p(0.5)) other.addOption(m2[k].first, m2[k].second + "x"); else other.addOption(absent, "1"); c.ok(other != o && o != other && !(other == o) && !(o == other), "options:unequal", log); }
    c.okf(same_options(o, m, why) && same_options(back, m, why), "options:content", [&] { return log + "; " + why + "; expected '" + kstr(m) + "'"; }); c.sample(kstr(m)); c.h(m.size()); for(auto& q : m) for(char x : q.second) c.h(x);
}

// ---------------------------------------------------------------- files
typedef std::vector<vec3> vec4; // [time][member][y][x]
struct Data { int T, E, Y, X; vec2 lats, lons, elevs; std::vector<double> times; double ref; std::map<std::string, vec4> v; std::map<std::string, std::array<std::string, 2>> att; std::string history; bool ensdim = true; };
static vec4 blank(const Data& d, float f = MV) { return vec4(d.T, vec3(d.E, init2(d.Y, d.X, f))); }
static bool nc_write(const std::string& f, const Data& d) {
    int id, dt, de, dy, dx, st = 0; auto ck = [&](int s) { if(s) st = s; }; ck(nc_create(f.c_str(), NC_CLOBBER, &id)); ck(nc_def_dim(id, "time", NC_UNLIMITED, &dt)); if(d.ensdim) ck(nc_def_dim(id, "ensemble_member", d.E, &de)); ck(nc_def_dim(id, "y", d.Y, &dy)); ck(nc_def_dim(id, "x", d.X, &dx));
    int h[2] = {dy, dx}, vt, vr, vla, vlo, vel; std::vector<int> a = d.ensdim ? std::vector<int>{dt, de, dy, dx} : std::vector<int>{dt, dy, dx}; ck(nc_def_var(id, "time", NC_DOUBLE, 1, &dt, &vt)); ck(nc_def_var(id, "forecast_reference_time", NC_DOUBLE, 0, 0, &vr)); ck(nc_def_var(id, "latitude", NC_FLOAT, 2, h, &vla)); ck(nc_def_var(id, "longitude", NC_FLOAT, 2, h, &vlo)); ck(nc_def_var(id, "altitude", NC_FLOAT, 2, h, &vel));
    std::map<std::string, int> ids; for(auto& q : d.v) { int v; ck(nc_def_var(id, q.first.c_str(), NC_FLOAT, a.size(), a.data(), &v)); ids[q.first] = v; auto it = d.att.find(q.first); if(it != d.att.end()) { const std::string &u = it->second[0], &s = it->second[1]; if(!u.empty()) ck(nc_put_att_text(id, v, "units", u.size(), u.c_str())); if(!s.empty()) ck(nc_put_att_text(id, v, "standard_name", s.size(), s.c_str())); } }
    if(!d.history.empty()) ck(nc_put_att_text(id, NC_GLOBAL, "history", d.history.size(), d.history.c_str())); ck(nc_enddef(id)); size_t s0 = 0, n = d.T; ck(nc_put_vara_double(id, vt, &s0, &n, d.times.data())); ck(nc_put_var_double(id, vr, &d.ref));
    auto grid = [&](int v, const vec2& g) { vec o; for(auto& q : g) o.insert(o.end(), q.begin(), q.end()); ck(nc_put_var_float(id, v, o.data())); }; grid(vla, d.lats); grid(vlo, d.lons); grid(vel, d.elevs);
    for(auto& q : d.v) { vec o; for(auto& t : q.second) for(auto& e : t) for(auto& y : e) for(float x : y) o.push_back(cv(x) ? x : NC_FILL_FLOAT); size_t st4[4] = {0, 0, 0, 0}; std::vector<size_t> cn = d.ensdim ? std::vector<size_t>{(size_t) d.T, (size_t) d.E, (size_t) d.Y, (size_t) d.X} : std::vector<size_t>{(size_t) d.T, (size_t) d.Y, (size_t) d.X}; if(d.T) ck(nc_put_vara_float(id, ids[q.first], st4, cn.data(), o.data())); }
    ck(nc_close(id)); if(st) fprintf(stderr, "netcdf status %d writing %s\n", st, f.c_str()); return st == 0;
}
static bool nc_read(const std::string& f, const std::string& var, vec4& o, int T, int E, int Y, int X, std::string& units, std::string& sname) {
    int id, v; if(nc_open(f.c_str(), NC_NOWRITE, &id)) return false; bool ok = false; if(!nc_inq_varid(id, var.c_str(), &v)) { int nd; int dims[8]; nc_inq_varndims(id, v, &nd); nc_inq_vardimid(id, v, dims); size_t len[8], tot = 1; for(int k = 0; k < nd; k++) { nc_inq_dimlen(id, dims[k], &len[k]); tot *= len[k]; } if(((nd == 4 && (int) len[1] == E && (int) len[2] == Y && (int) len[3] == X) || (nd == 3 && E == 1 && (int) len[1] == Y && (int) len[2] == X)) && (int) len[0] >= T) { vec b(tot); ok = !nc_get_var_float(id, v, b.data()); size_t k = 0; o = vec4(T, vec3(E, init2(Y, X))); for(int t = 0; t < T; t++) for(int e = 0; e < E; e++) for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { float q = b[k++]; o[t][e][y][x] = q == NC_FILL_FLOAT || !cv(q) ? MV : q; } }
        auto att = [&](const char* n) { size_t l = 0; if(nc_inq_attlen(id, v, n, &l)) return std::string(); std::string s(l, 0); nc_get_att_text(id, v, n, &s[0]); return s; }; units = att("units"); sname = att("standard_name"); }
    nc_close(id); return ok;
}
static const std::vector<std::string> VARS = {"ta", "tb", "tc", "td", "te"};
static Data data(Rng& r, int nv, bool ens, double miss) { Data d; d.T = r.i(1, 4); d.E = ens ? r.i(1, 3) : 1; d.ensdim = ens; d.Y = r.i(1, 4); d.X = r.i(2, 4); d.ref = 1.4e9 + 3600 * r.i(0, 999); for(int t = 0; t < d.T; t++) d.times.push_back(d.ref + 3600 * t); double la = r.u(-60, 60), lo = r.u(-170, 160); d.lats = d.lons = d.elevs = init2(d.Y, d.X); for(int y = 0; y < d.Y; y++) for(int x = 0; x < d.X; x++) { d.lats[y][x] = la + y; d.lons[y][x] = lo + x; d.elevs[y][x] = r.i(0, 900); }
    for(int k = 0; k < nv; k++) { vec4 v = blank(d); for(auto& t : v) for(auto& e : t) for(auto& y : e) for(float& x : y) if(!r.p(miss)) x = r.p(0.3) ? (float) r.i(-5, 5) : (float) r.u(-50, 50); d.v[VARS[k]] = v; std::array<std::string, 2> a; if(r.p(0.7)) a[0] = "u" + word(r); if(r.p(0.5)) a[1] = "s" + word(r); d.att[VARS[k]] = a; } return d; }
static void put_lines(const std::string& f, const std::string& s) { std::ofstream o(f.c_str()); o << s; }
struct Fixed { // files shared by the parsing cases
    Data in, out; Fixed() { own_dir(); Rng r(77); in = data(r, 5, true, 0); out = in; out.v.erase("te"); out.v.erase("td"); nc_write("pi0.nc", in); nc_write("pi1.nc", in); nc_write("po0.nc", out); nc_write("po1.nc", out); put_lines("pf0.txt", "time a b\n0 1 2\n"); put_lines("pf1.txt", "time a\n0 3\n"); put_lines("pf2.txt", "time a b c\n0 1 2 3\n1 1 2 3\n"); }
};
static const Fixed& fixed_files() { static Fixed f; return f; }
// ---------------------------------------------------------------- command lines
struct Par { std::string file, type; KV o; bool on = false; };
struct Stage { std::string name; KV o; Par p; bool cal; };
struct Block { std::string v, vi; KV vo, vio; bool hasVi = false; std::vector<Stage> st; };
static KV rand_options(Rng& r, int max) { KV m; for(int k = r.i(0, max); k > 0; k--) kset(m, "o" + word(r), word(r, ",")); return m; }
static void emit(std::vector<std::string>& a, const KV& o, Rng& r) { size_t i = 0; while(i < o.size()) { if(r.p(0.1) && i + 1 < o.size()) { a.push_back(o[i].first + "=" + o[i].second + " " + o[i + 1].first + "=" + o[i + 1].second); i += 2; } else { a.push_back(o[i].first + "=" + o[i].second); i++; } } }
static std::string cmd(const std::vector<std::string>& a) { std::string s; for(auto& q : a) s += (s.empty() ? "" : " ") + q; return s; }
static const std::vector<std::string> DOWNS = {"nearestNeighbour", "gradient", "bilinear", "smart", "bypass", "upscale"}, CALS = {"zaga", "accumulate", "deaccumulate", "gaussian", "neighbourhood", "qc", "regression", "sort", "altitude", "window", "kriging"};
static void emit_block(std::vector<std::string>& a, const Block& b, Rng& r, bool prefix) {
    auto vi = [&] { if(b.hasVi) { a.push_back("-vi"); a.push_back(b.vi); emit(a, b.vio, r); } }; if(prefix) vi(); a.push_back("-v"); a.push_back(b.v); emit(a, b.vo, r); if(!prefix) vi();
    for(auto& s : b.st) { a.push_back(s.cal ? "-c" : "-d"); a.push_back(s.name); emit(a, s.o, r); if(s.p.on) { a.push_back("-p"); a.push_back(s.p.file); std::vector<std::string> q; KV po = s.p.o; po.push_back({"type", s.p.type}); emit(a, po, r); } }
}
CASEW(parse, 4) {
    Rng& r = c.rng; const Fixed& F = fixed_files(); quiet(); int nf = r.p(0.2) ? 2 : 1; bool same = r.p(0.25), noout = same && r.p(0.4); std::vector<std::string> a; KV io = rand_options(r, 2), oo = rand_options(r, 2); if(same) oo = io; std::string in = nf == 2 ? "pi0.nc,pi1.nc" : "pi0.nc", out = same ? in : nf == 2 ? "po0.nc,po1.nc" : "po0.nc";
    a.push_back(in); emit(a, io, r); if(!noout) { a.push_back(out); emit(a, oo, r); }
    // aliases
    struct Al { std::string n, name; int level; std::string units; }; std::vector<Al> al; if(r.p(0.3)) for(int k = r.i(1, 3); k > 0; k--) { Al q{strf("al%d", (int) al.size()), r.pick(VARS), r.p(0.5) ? r.i(0, 3) : -1, r.p(0.4) ? word(r) : std::string()}; a.push_back("-va"); a.push_back(q.n); a.push_back("name=" + q.name); if(q.level >= 0) a.push_back(strf("level=%d", q.level)); if(!q.units.empty()) a.push_back("units=" + q.units); al.push_back(q); }
    std::vector<Block> bs; std::set<std::string> used; bool open = false; std::vector<int> wantIdx;
    for(int k = r.i(1, 4); k > 0; k--) {
        Block b; bool again = !bs.empty() && r.p(0.07); b.v = again ? r.pick(bs).v : r.p(0.75) ? r.pick(VARS) : "new" + strf("%d", r.i(0, 9)); bool dup = used.count(b.v); used.insert(b.v); b.vo = rand_options(r, 2); if(r.p(0.2)) kset(b.vo, "units", "uu" + word(r)); if(r.p(0.2)) kset(b.vo, "standardName", "ss" + word(r)); if(r.p(0.15)) kset(b.vo, "min", strf("%d", r.i(-9, 0))); if(r.p(0.15)) kset(b.vo, "max", strf("%d", r.i(1, 9))); if(r.p(0.1)) kset(b.vo, "write", "0");
        bool isnew = !F.in.v.count(b.v); if(r.p(0.3)) { b.hasVi = true; b.vi = !al.empty() && r.p(0.4) ? r.pick(al).n : r.pick(VARS); b.vio = rand_options(r, 2); if(r.p(0.2)) kset(b.vio, "units", "iu" + word(r)); }
        for(int q = r.p(0.3) ? 0 : r.i(1, 4); q > 0; q--) { Stage s; s.cal = r.p(0.65); s.name = r.pick(s.cal ? CALS : DOWNS); s.o = rand_options(r, 2); if(s.cal && s.name == "window" ) kset(s.o, "length", "3"); if(r.p(0.3)) { s.p.on = true; s.p.file = strf("pf%d.txt", r.i(0, 2)); s.p.type = "text"; s.p.o = rand_options(r, 1); } b.st.push_back(s); }
        if(isnew && !b.hasVi) { bool by = false; for(auto& s : b.st) if(!s.cal) by = s.name == "bypass"; if(!by && !dup) { Stage s; s.cal = false; s.name = "bypass"; b.st.push_back(s); } }
        bool prefix = b.hasVi && !open && r.p(0.6); emit_block(a, b, r, prefix); open = b.st.empty() && !b.hasVi; if(!dup) wantIdx.push_back(bs.size()); bs.push_back(b);
    }
    std::string d = cmd(a); c.sample(d); Mute mute; std::unique_ptr<Setup> s; bool ok = client_runs([&] { s.reset(new Setup(a)); }); if(!ok) { close_all(); c.ok(false, "parse:refused", d + " -- " + mute.so.str() + mute.se.str()); return; }
    std::string why; c.okf(same_options(s->inputOptions, io, why), "parse:input-options", [&] { return d + "; " + why; }); c.okf(same_options(s->outputOptions, oo, why), "parse:output-options", [&] { return d + "; " + why; });
    c.ok((int) s->inputFiles.size() == nf && (int) s->outputFiles.size() == nf, "parse:number-of-files", d); for(int f = 0; f < nf && f < (int) s->inputFiles.size() && f < (int) s->outputFiles.size(); f++) c.ok(s->inputFiles[f]->getFilename() == strf("pi%d.nc", f) && s->outputFiles[f]->getFilename() == strf(same ? "pi%d.nc" : "po%d.nc", f) && (s->inputFiles[f] == s->outputFiles[f]) == same, "parse:files", d);
    c.ok(s->variableAliases.size() == al.size(), "parse:number-of-aliases", d); for(auto& q : al) { auto it = s->variableAliases.find(q.n); if(c.ok(it != s->variableAliases.end(), "parse:alias", d + " lacks " + q.n)) { const Variable& v = it->second; c.okf(v.name() == q.name && v.units() == q.units && (q.level < 0 ? !cv(v.level()) : v.level() == q.level), "parse:alias-content", [&] { return d + "; " + q.n + strf(" is %s level %g units '%s'", v.name().c_str(), v.level(), v.units().c_str()); }); } }
    if(!c.okf(s->variableConfigurations.size() == wantIdx.size(), "parse:number-of-variables", [&] { std::string z = d + strf("; %zu variables, expected %zu:", s->variableConfigurations.size(), wantIdx.size()); for(auto& q : s->variableConfigurations) z += " " + q.outputVariable.name(); return z; })) { s.reset(); close_all(); return; }
    for(size_t k = 0; k < wantIdx.size(); k++) {
        const Block& b = bs[wantIdx[k]]; const VariableConfiguration& v = s->variableConfigurations[k]; std::string w = d + "; variable " + b.v + ": ", inName = b.hasVi ? b.vi : b.v; for(auto& q : al) if(q.n == inName) inName = q.name;
        c.ok(v.outputVariable.name() == b.v, "parse:output-variable", w + v.outputVariable.name()); bool inKnown = F.in.v.count(inName); if(inKnown) c.ok(v.inputVariable.name() == inName, "parse:input-variable", w + v.inputVariable.name());
        c.okf(same_options(v.outputVariableOptions, b.vo, why), "parse:variable-options", [&] { return w + why; }); c.okf(same_options(v.inputVariableOptions, b.hasVi ? b.vio : b.vo, why), "parse:input-variable-options", [&] { return w + why; });
        // attributes: those given, otherwise those of the output file, otherwise those of the input file
        std::string u, sn, mn, mx; auto at = [&](const Data& D) { auto i = D.att.find(b.v); if(!D.v.count(b.v) || i == D.att.end()) return false; u = i->second[0]; sn = i->second[1]; return true; }; if(same || !at(F.out)) at(F.in); for(auto& q : b.vo) { if(q.first == "units") u = q.second; if(q.first == "standardName") sn = q.second; if(q.first == "min") mn = q.second; if(q.first == "max") mx = q.second; }
        c.okf(v.outputVariable.units() == u && v.outputVariable.standardName() == sn, "parse:attributes", [&] { return w + v.outputVariable.units() + " " + v.outputVariable.standardName() + ", expected " + u + " " + sn; }); auto lim = [&](float g, const std::string& x) { return x.empty() ? !cv(g) : g == (float) atof(x.c_str()); }; c.okf(lim(v.outputVariable.min(), mn) && lim(v.outputVariable.max(), mx), "parse:limits", [&] { return w + strf("min %g max %g, expected '%s' '%s'", v.outputVariable.min(), v.outputVariable.max(), mn.c_str(), mx.c_str()); });
        const Stage* dn = nullptr; std::vector<const Stage*> cs; for(auto& q : b.st) if(q.cal) cs.push_back(&q); else dn = &q; c.ok(v.downscaler && v.downscaler->name() == (dn ? dn->name : "nearestNeighbour"), "parse:downscaler", w);
        if(!dn) c.ok(v.parameterFileDownscaler == nullptr, "parse:downscaler-parameters", w); else if(dn->p.on) c.ok(v.parameterFileDownscaler && v.parameterFileDownscaler->getFilename() == dn->p.file, "parse:downscaler-parameters", w); else c.ok(v.parameterFileDownscaler == nullptr, "parse:downscaler-parameters", w);
        if(!c.okf(v.calibrators.size() == cs.size() && v.parameterFileCalibrators.size() == cs.size(), "parse:number-of-calibrators", [&] { return w + strf("%zu calibrators, expected %zu", v.calibrators.size(), cs.size()); })) continue;
        for(size_t q = 0; q < cs.size(); q++) { c.okf(v.calibrators[q]->name() == cs[q]->name, "parse:calibrator", [&] { return w + strf("calibrator %zu is ", q) + v.calibrators[q]->name() + ", expected " + cs[q]->name; }); c.okf(same_options(v.calibrators[q]->getOptions(), cs[q]->o, why), "parse:calibrator-options", [&] { return w + cs[q]->name + strf(" (%zu): ", q) + why; });
            ParameterFile* p = v.parameterFileCalibrators[q]; if(!cs[q]->p.on) c.ok(p == nullptr, "parse:calibrator-without-parameters", w + cs[q]->name); else if(c.ok(p != nullptr, "parse:calibrator-parameters", w + cs[q]->name)) { KV po = cs[q]->p.o; kset(po, "type", cs[q]->p.type); kset(po, "file", cs[q]->p.file); c.okf(p->getFilename() == cs[q]->p.file && p->name() == cs[q]->p.type && same_options(p->getOptions(), po, why), "parse:parameter-file", [&] { return w + cs[q]->name + ": " + p->getFilename() + " " + why; }); } }
        c.h(k); c.h(cs.size()); for(char x : b.v) c.h(x);
    }
    s.reset(); close_all();
}
CASEW(refuse, 1) {
    Rng& r = c.rng; fixed_files(); quiet(); std::vector<std::string> pre = {"pi0.nc", "po0.nc"}, a; int k = r.i(0, 18); auto add = [&](const std::string& s) { for(auto& q : Util::split(s)) a.push_back(q); }; std::string v = r.pick({std::string("ta"), std::string("tb")}), head = r.p(0.4) ? "-v tc units=K -d bilinear a=1 -c qc min=0 " : "";
    if(k != 0 && k != 1 && k != 2) { add("pi0.nc po0.nc"); if(k != 3) add(head); }
    if(k == 0) add("nosuch.nc po0.nc " + head + "-v " + v); else if(k == 1) add("pi0.nc nosuch.nc " + head + "-v " + v); else if(k == 2) add(r.p(0.5) ? "pi0.nc,pi1.nc po0.nc -v " + v : "pi0.nc po0.nc,po1.nc -v " + v); else if(k == 3) { if(r.p(0.5)) add(r.p(0.5) ? "-c qc" : "-d smart"); }
    else if(k == 4) add("-v"); else if(k == 5) add("-v -d smart"); else if(k == 6) add("-v " + v + " -d"); else if(k == 7) add("-v " + v + " -c"); else if(k == 8) add("-v " + v + (r.p(0.5) ? " units=K" : "") + " -p pf0.txt type=text"); else if(k == 9) add("-v " + v + " -c zaga" + (r.p(0.5) ? " o=1" : "") + " -p pf0.txt" + (r.p(0.3) ? " cycle=1" : "")); else if(k == 10) add("-v " + v + " -c zaga -p nosuch.txt type=text"); else if(k == 11) add("-v " + v + " -c zaga -p pf0.txt type=other"); else if(k == 12) add("-v " + v + " -d nosuch"); else if(k == 13) add("-v " + v + " -c nosuch"); else if(k == 14) add("-vi " + v + (r.p(0.5) ? " -d smart" : "")); else if(k == 15) add(std::string("-v absent") + (r.p(0.5) ? " -d smart" : "")); else if(k == 16) add("-v " + v + " -vi absent"); else if(k == 17) add("-v " + v + " -c zaga -p"); else add("-v " + v + " -vi");
    if((k == 4 || k == 6 || k == 7) && r.p(0.0)) add("-v ta"); std::string d = cmd(a); c.sample(d); Mute mute; std::unique_ptr<Setup> s; bool ok = client_runs([&] { s.reset(new Setup(a)); }); s.reset(); close_all(); c.ok(!ok, strf("refuse:%d", k), d); c.h(k);
}

// ---------------------------------------------------------------- running the chain
static void check_file(Ctx& c, const std::string& f, const Data& d, const std::map<std::string, vec4>& want, const std::set<std::string>& touched, const std::string& desc) {
    for(auto& q : want) { vec4 g; std::string u, sn; if(!nc_read(f, q.first, g, d.T, d.E, d.Y, d.X, u, sn)) { c.ok(false, touched.count(q.first) ? "run:not-written" : "run:lost", desc + "; " + q.first + " in " + f); continue; } bool bad = false; for(int t = 0; t < d.T && !bad; t++) for(int e = 0; e < d.E && !bad; e++) for(int y = 0; y < d.Y && !bad; y++) for(int x = 0; x < d.X && !bad; x++) { float w = q.second[t][e][y][x], z = g[t][e][y][x]; if(cv(w) != cv(z) || (cv(w) && std::fabs(w - z) > 1e-4 * (1 + std::fabs(w)))) { bad = true; c.ok(false, touched.count(q.first) ? "run:value" : "run:untouched-variable", desc + strf("; %s %s at time %d member %d cell %d %d is %g, expected %g", f.c_str(), q.first.c_str(), t, e, y, x, z, w)); } } c.ok(true, ""); c.h(q.first.size()); } }
CASEW(run, 3) {
    Rng& r = c.rng; own_dir(); int nf = r.p(0.2) ? 2 : 1; bool same = r.p(0.3); std::vector<Data> ins, outs; std::vector<ivec2> ny, nx; std::string in, out; double miss = r.pick({0.0, 0.15}); bool ens = r.p(0.8); Data proto = data(r, 5, ens, miss); std::vector<std::string> fin, fout;
    int Y2 = r.i(1, 3), X2 = r.i(2, 4); for(int f = 0; f < nf; f++) { Rng q(r.next()); Data d = proto; for(auto& v : d.v) for(auto& t : v.second) for(auto& e : t) for(auto& y : e) for(float& x : y) if(cv(x)) x += f * q.i(0, 3); d.history = r.p(0.5) ? "older" : ""; ins.push_back(d); Data o = d; if(!same) { o.Y = Y2; o.X = X2; o.lats = o.lons = o.elevs = init2(Y2, X2); ivec2 a(Y2, ivec(X2)), b = a; for(int y = 0; y < Y2; y++) for(int x = 0; x < X2; x++) { int iy = q.i(0, d.Y - 1), ix = q.i(0, d.X - 1); a[y][x] = iy; b[y][x] = ix; o.lats[y][x] = d.lats[iy][ix] + q.u(-0.1, 0.1); o.lons[y][x] = d.lons[iy][ix] + q.u(-0.1, 0.1); } o.v.clear(); int keep = r.i(0, 3); for(int k = 0; k < keep; k++) { vec4 v = blank(o); for(auto& t : v) for(auto& e : t) for(auto& y : e) for(float& x : y) if(!q.p(miss)) x = q.u(100, 200); o.v[VARS[q.i(0, 4)]] = v; } ny.push_back(a); nx.push_back(b); }
        if(nf == 2 && f == 1 && !same) { std::map<std::string, vec4> v2; for(auto& z : outs[0].v) { vec4 v = blank(o); for(auto& t : v) for(auto& e : t) for(auto& y : e) for(float& x : y) x = q.u(100, 200); v2[z.first] = v; } o.v = v2; } outs.push_back(o); fin.push_back(strf("ri%d.nc", f)); fout.push_back(same ? fin[f] : strf("ro%d.nc", f)); in += (f ? "," : "") + fin[f]; out += (f ? "," : "") + fout[f]; nc_write(fin[f], d); if(!same) nc_write(fout[f], o); }
    // the chain
    struct St { int k; float p, q; }; struct Bl { std::string v, vi; bool bypass, write; std::vector<St> st; }; std::vector<Bl> bl; std::set<std::string> used; std::vector<std::string> a = {in}; if(!same || r.p(0.5)) a.push_back(out); std::vector<std::string> tmp;
    for(int k = r.i(1, 3); k > 0; k--) { Bl b; b.v = r.p(0.6) ? r.pick(VARS) : strf("new%d", r.i(0, 5)); if(used.count(b.v)) continue; b.vi = b.v; bool isnew = !ins[0].v.count(b.v); b.bypass = isnew ? r.p(0.4) : r.p(0.1); bool vi = (isnew && !b.bypass) || r.p(0.2); if(vi) b.vi = r.pick(VARS); b.write = !r.p(0.15); used.insert(b.v);
        if(vi && r.p(0.5) && a.size() > 0 && (bl.empty() || true)) { // before or after the output name, when it cannot be taken for the previous variable's
            a.push_back("-v"); a.push_back(b.v); if(!b.write) a.push_back("write=0"); a.push_back("-vi"); a.push_back(b.vi); } else if(vi) { a.push_back("-v"); a.push_back(b.v); if(!b.write) a.push_back("write=0"); a.push_back("-vi"); a.push_back(b.vi); } else { a.push_back("-v"); a.push_back(b.v); if(!b.write) a.push_back("write=0"); }
        if(b.bypass) { a.push_back("-d"); a.push_back("bypass"); } else if(r.p(0.4)) { a.push_back("-d"); a.push_back("nearestNeighbour"); }
        for(int q = r.i(0, 3); q > 0; q--) { St s{r.i(0, 3), 0, 0}; if(s.k == 0) { s.p = r.i(-20, 0); s.q = r.i(1, 20); a.push_back("-c"); a.push_back("qc"); a.push_back(strf("min=%g", s.p)); a.push_back(strf("max=%g", s.q)); } else if(s.k == 1) { s.p = r.i(-8, 8) / 4.0; s.q = r.pick({0.5, 1.0, 2.0, -1.0}); std::string fn = strf("rp%zu.txt", tmp.size()); tmp.push_back(fn); put_lines(fn, strf("time a b\n0 %g %g\n", s.p, s.q)); a.push_back("-c"); a.push_back("regression"); a.push_back("-p"); a.push_back(fn); a.push_back("type=text"); } else if(s.k == 2) { a.push_back("-c"); a.push_back("accumulate"); } else { a.push_back("-c"); a.push_back("deaccumulate"); } b.st.push_back(s); }
        bl.push_back(b); }
    if(r.p(0.3)) { a.push_back("--debug"); a.push_back(r.pick({std::string("quiet"), std::string("error"), std::string("warn"), std::string("info")})); } std::string d = cmd(a) + strf(" [%d files, times %d members %d, %dx%d to %dx%d, ensemble dimension %d]", nf, proto.T, proto.E, proto.Y, proto.X, outs[0].Y, outs[0].X, ens); c.sample(d);
    std::vector<std::string> full = a; full.insert(full.begin(), "gridpp"); std::vector<const char*> av; for(auto& q : full) av.push_back(q.c_str()); int rc = -1; bool ok; std::string said; { Mute mute; ok = client_runs([&] { rc = gridpp_main(av.size(), av.data()); }); said = mute.so.str() + mute.se.str(); } quiet(); close_all(); Downscaler::clearCache();
    if(!c.ok(ok && rc == 0, "run:refused", d + " -- " + said.substr(said.size() > 300 ? said.size() - 300 : 0))) return;
    for(int f = 0; f < nf; f++) { Data &I = ins[f], &O = outs[f]; std::map<std::string, vec4> work = same ? I.v : O.v, disk = same ? I.v : O.v; std::set<std::string> touched;
        for(auto& b : bl) { if(!work.count(b.v)) work[b.v] = blank(O); if(!b.bypass) { const vec4 src = same ? work.at(b.vi) : I.v.at(b.vi); vec4& w = work[b.v]; for(int t = 0; t < O.T; t++) for(int e = 0; e < O.E; e++) for(int y = 0; y < O.Y; y++) for(int x = 0; x < O.X; x++) w[t][e][y][x] = same ? src[t][e][y][x] : src[t][e][ny[f][y][x]][nx[f][y][x]]; }
            vec4& w = work[b.v]; for(auto& s : b.st) { vec4 old = w; for(int t = 0; t < O.T; t++) for(int e = 0; e < O.E; e++) for(int y = 0; y < O.Y; y++) for(int x = 0; x < O.X; x++) { float v = old[t][e][y][x], &g = w[t][e][y][x]; if(s.k == 0) { if(cv(v)) g = v < s.p ? s.p : v > s.q ? s.q : v; } else if(s.k == 1) { g = cv(v) ? s.p + s.q * v : MV; } else if(s.k == 2) { g = t == 0 ? 0 : cv(v) && cv(w[t - 1][e][y][x]) ? w[t - 1][e][y][x] + v : MV; } else { g = t > 0 && cv(v) && cv(old[t - 1][e][y][x]) ? v - old[t - 1][e][y][x] : MV; } } }
            if(b.write) touched.insert(b.v); }
        for(auto& v : touched) disk[v] = work[v]; check_file(c, fout[f], O, disk, touched, d); if(!same) check_file(c, fin[f], I, I.v, {}, d + " (input file)");
        int id, v; if(!nc_open(fout[f].c_str(), NC_NOWRITE, &id)) { std::vector<double> t(proto.T + 5); size_t n = 0; int dt; if(!nc_inq_dimid(id, "time", &dt)) nc_inq_dimlen(id, dt, &n); c.ok((int) n == proto.T, "run:number-of-times", d); if((int) n == proto.T && !nc_inq_varid(id, "time", &v) && !nc_get_var_double(id, v, t.data())) { t.resize(proto.T); c.ok(t == proto.times, "run:times", d); } for(auto& b : bl) if(!b.write && !(same ? I.v : O.v).count(b.v)) c.ok(nc_inq_varid(id, b.v.c_str(), &v) != 0, "run:written-although-not-asked", d + "; " + b.v);
            size_t l = 0; if(c.ok(!nc_inq_attlen(id, NC_GLOBAL, "history", &l), "run:history-missing", d)) { std::string h(l, 0); nc_get_att_text(id, NC_GLOBAL, "history", &h[0]); c.ok(h.find("gridpp " + cmd(a)) != std::string::npos && (O.history.empty() || h.find("\n" + O.history) == h.size() - O.history.size() - 1), "run:history", d + "; " + h); } nc_close(id); } }
    for(auto& t : tmp) unlink(t.c_str());
}
