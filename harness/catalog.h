// Catalogue of every library function with generated arguments, valid (q = 0) or hostile (q > 0).
#pragma once
#include "common.h"
#include <climits>
#include <memory>
#include <tuple>
struct Digest {
    uint64_t h = 0x1234; long n = 0, valid = 0; bool empty = false;
    void raw(uint64_t v) { h = mix64(h ^ v); }
    void add(float f) { uint32_t b; memcpy(&b, &f, 4); if(std::isnan(f)) b = 0x7fc00000; raw(b); n++; if(isv(f)) valid++; }
    void add(double f) { if(std::isnan(f)) f = NAN; uint64_t b; memcpy(&b, &f, 8); raw(b); n++; if(!std::isnan(f)) valid++; }
    void add(int v) { raw((uint64_t) (int64_t) v + 77); n++; valid++; }
    void add(bool v) { add((int) v); }
    void add(const std::string& s) { for(char c : s) raw((unsigned char) c); n++; valid++; }
    template <class T> void add(const std::vector<T>& v) { if(v.empty()) empty = true; raw(v.size() + 999); for(auto& x : v) add(x); }
    void add(const gridpp::Point& p) { add(p.lat); add(p.lon); add(p.elev); add(p.laf); add((int) p.type); }
    void add(const gridpp::Grid& g) { add(g.get_lats()); add(g.get_lons()); add(g.get_elevs()); add(g.get_lafs()); add((int) g.get_coordinate_type()); }
    void add(const gridpp::Points& g) { add(g.get_lats()); add(g.get_lons()); add(g.get_elevs()); add(g.get_lafs()); add((int) g.get_coordinate_type()); }
    void add(const gridpp::KDTree& g) { add(g.get_lats()); add(g.get_lons()); add(g.get_x()); add(g.get_y()); add(g.get_z()); add((int) g.get_coordinate_type()); }
    template <class A, class B> void add(const std::pair<A, B>& p) { add(p.first); add(p.second); }
    template <class T> typename std::enable_if<std::is_enum<T>::value>::type add(T v) { add((int) v); }
    void add(const std::shared_ptr<gridpp::StructureFunction>&) {}
    void many() {}
    template <class A, class... R> void many(const A& a, const R&... r) { add(a); many(r...); }
};
inline void shape_of(const vec& v, ivec& s) { s = {(int) v.size()}; }
inline void shape_of(const vec2& v, ivec& s) { s = {(int) v.size(), v.size() ? (int) v[0].size() : 0}; for(auto& q : v) if((int) q.size() != s[1]) s[1] = -1; }
inline void shape_of(const vec3& v, ivec& s) { s = {(int) v.size(), v.size() ? (int) v[0].size() : 0}; for(auto& q : v) if((int) q.size() != s[1]) s[1] = -1; }
template <class T> void shape_of(const T&, ivec& s) { s.clear(); }
struct G;
struct Exec { Ctx& c; const char* name; bool emptyIn = false; virtual ~Exec() {} explicit Exec(Ctx& c_, const char* n) : c(c_), name(n) {}
    // calls once; fills digest, returns state: 0 ok, 1 threw, 2 threw something that is not a std::exception
    typedef std::function<void(Digest&, ivec&)> Call; virtual void go(const Call& call, const ivec& want, const std::function<uint64_t()>& inputs) = 0;
    static int once(const Call& f, Digest& d, ivec& s, std::string* what = nullptr) { try { f(d, s); return 0; } catch(const std::exception& e) { if(what) *what = e.what(); return 1; } catch(...) { return 2; } }
    template <class F, class... A> void run(const ivec& want, F f, const A&... a) { go([&](Digest& d, ivec& s) { auto out = f(); d.add(out); shape_of(out, s); }, want, [&] { Digest d; d.many(a...); emptyIn = d.empty; return d.h; }); }
};
struct G {
    Rng& r; double q; int big; G(Rng& r_, double q_, int b = 8) : r(r_), q(q_), big(b) {}
    bool bad() { return q > 0 && r.p(q); }
    float odd(float v) { switch(r.i(0, 9)) { case 0: return NaNf; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 0; case 4: return -0.0f; case 5: return 3e38f; case 6: return -3e38f; case 7: return 1e-42f; case 8: return -v; default: return v * 1e10f; } }
    float fl(double lo, double hi) { float v = r.u(lo, hi); return bad() ? odd(v) : v; }
    // small integers; hostile values include the extremes unless cap > 0, the largest size that is reasonable
    int in(int lo, int hi, int cap = 0) { int v = r.i(lo, hi); if(!bad()) return v; switch(r.i(0, 7)) { case 0: return 0; case 1: return -1; case 2: return cap ? cap : INT_MAX; case 3: return INT_MIN; case 4: return cap ? cap / 2 : INT_MAX / 2; case 5: return -r.i(2, 100); case 6: return cap ? cap : 70000; default: return v + r.i(0, 20); } }
    int dim(int n) { if(!bad()) return n; switch(r.i(0, 4)) { case 0: return 0; case 1: return n + 1; case 2: return std::max(0, n - 1); case 3: return n + r.i(2, 9); default: return 1; } }
    double lo = -20, hi = 30;
    float val(double miss, bool odds) { if(r.p(miss)) return NaNf; float v = r.u(lo, hi); if(odds && r.p(0.2)) v = odd(v); return v; }
    vec v(int n) { n = dim(n); double m = pick_missing(r); bool o = bad(); vec a(n); for(auto& f : a) f = val(m, o); return a; }
    vec2 v2(int y, int x) { y = dim(y); x = dim(x); double m = pick_missing(r); bool o = bad(); vec2 a(y, vec(x)); for(auto& b : a) for(auto& f : b) f = val(m, o); return a; }
    vec3 v3(int y, int x, int e) { y = dim(y); x = dim(x); e = dim(e); double m = pick_missing(r); bool o = bad(); vec3 a(y, vec2(x, vec(e))); for(auto& b : a) for(auto& d : b) for(auto& f : d) f = val(m, o); return a; }
    struct Range { G& g; double l, h; Range(G& g_, double a, double b) : g(g_), l(g_.lo), h(g_.hi) { g.lo = a; g.hi = b; } ~Range() { g.lo = l; g.hi = h; } };
    vec pos(int n, double a = 0.1, double b = 2) { Range R(*this, a, b); vec o = v(n); if(q == 0) for(auto& f : o) if(!isv(f)) f = r.u(a, b); return o; }
    vec2 pos2(int y, int x, double a = 0.1, double b = 2) { Range R(*this, a, b); vec2 o = v2(y, x); if(q == 0) for(auto& w : o) for(auto& f : w) if(!isv(f)) f = r.u(a, b); return o; }
    vec sorted(int n, double a = -20, double b = 30) { vec o = pos(n, a, b); if(!(bad())) std::sort(o.begin(), o.end(), [](float x, float y) { return std::isnan(x) ? false : std::isnan(y) ? true : x < y; }); return o; }
    GridSpec last; bool haveLast = false;
    gridpp::Grid grid(int type = -1) {
        GridOpt o; o.maxY = o.maxX = big; o.maxSp = 0.3; o.type = type < 0 ? (haveLast && !bad() ? (int) last.type : -1) : type; o.meta = !r.p(0.15); if(!r.p(q > 0 ? 0.3 : 0.1)) { o.minY = std::min(3, big); o.minX = std::min(3, big); }
        GridSpec g = gen_grid(r, o); if(haveLast && !bad() && g.type == last.type) { double sy = r.u(0.5, 1.5), sx = r.u(0.5, 1.5); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { g.lats[y][x] = last.lats[0][0] + (float) ((g.lats[y][x] - g.lat0) * last.dlat / g.dlat * sy); g.lons[y][x] = last.lons[0][0] + (float) ((g.lons[y][x] - g.lon0) * last.dlon / g.dlon * sx); if(g.type == gridpp::Geodetic) g.lats[y][x] = std::max(-89.9f, std::min(89.9f, g.lats[y][x])); } }
        if(!haveLast) { last = g; haveLast = true; }
        if(bad()) {
            switch(r.i(0, 9)) {
                case 0: return gridpp::Grid();
                case 1: return gridpp::Grid(vec2(), vec2());
                case 2: { int n = r.i(1, 3); return gridpp::Grid(vec2(n), vec2(n)); }
                case 3: for(auto& a : g.lats) for(auto& f : a) f = 50; for(auto& a : g.lons) for(auto& f : a) f = 5; break;
                case 4: for(auto& a : g.lats) for(auto& f : a) f = r.u(-90, 90); for(auto& a : g.lons) for(auto& f : a) f = r.u(-180, 180); break;
                case 5: if(g.type == gridpp::Cartesian) { float s = r.pick({1e10f, 1e20f, 3e38f}); for(auto& a : g.lats) for(auto& f : a) f = r.u(-1, 1) * s; } break;
                case 6: { int y = r.i(0, g.Y - 1), x = r.i(0, g.X - 1); (r.p(0.5) ? g.lats : g.lons)[y][x] = odd(1); break; }
                case 7: for(auto& a : g.elevs) for(auto& f : a) f = odd(f); for(auto& a : g.lafs) for(auto& f : a) f = odd(f); break;
                case 8: for(auto& a : g.lats) for(auto& f : a) f = 90; break;
                default: { for(auto& a : g.elevs) for(auto& f : a) f = NaNf; for(auto& a : g.lafs) for(auto& f : a) f = NaNf; }
            }
            try { return g.grid(); } catch(const std::exception&) { return gridpp::Grid(vec2{{1, 1}, {2, 2}}, vec2{{1, 2}, {1, 2}}); }
        }
        return g.grid();
    }
    gridpp::Points points(int n) {
        init_last();
        PointsSpec p = gen_points_in(r, last, n, 1, 0.05, 0.15);
        if(r.p(0.1)) { p.elevs.clear(); p.lafs.clear(); }
        if(bad()) {
            switch(r.i(0, 6)) {
                case 0: return gridpp::Points();
                case 1: return gridpp::Points(vec(), vec(), vec(), vec(), p.type);
                case 2: for(auto& f : p.lats) f = p.lats[0]; for(auto& f : p.lons) f = p.lons[0]; break;
                case 3: for(auto& f : p.lats) f = r.u(-90, 90); for(auto& f : p.lons) f = r.u(-360, 360); p.type = r.p(0.5) ? gridpp::Geodetic : gridpp::Cartesian; break;
                case 4: if(p.type == gridpp::Cartesian) for(auto& f : p.lats) f = r.u(-1, 1) * 3e38f; break;
                case 5: for(auto& f : p.elevs) f = odd(f); for(auto& f : p.lafs) f = odd(f); break;
                default: if(n) (r.p(0.5) ? p.lats : p.lons)[r.i(0, n - 1)] = odd(1);
            }
            try { return p.points(); } catch(const std::exception&) { return gridpp::Points({1, 2}, {1, 2}); }
        }
        return p.points();
    }
    void init_last() { if(!haveLast) { GridOpt o; o.maxSp = 0.3; last = gen_grid(r, o); haveLast = true; } }
    double scale() { init_last(); return last.type == gridpp::Cartesian ? last.dlat : last.dlat * 1.1e5; }
    float radius() { return bad() ? odd(r.u(0, 1e5)) : r.p(0.05) ? 0 : scale() * r.u(0.3, 5); }
    gridpp::Statistic stat(bool random = false) { static const std::vector<gridpp::Statistic> s = {gridpp::Mean, gridpp::Min, gridpp::Median, gridpp::Max, gridpp::Std, gridpp::Variance, gridpp::Sum, gridpp::Count}; if(bad()) return r.pick({gridpp::Quantile, gridpp::Unknown}); return r.pick(s); }
    gridpp::Metric metric() { return r.pick({gridpp::Ets, gridpp::Ts, gridpp::Kss, gridpp::Pc, gridpp::Bias, gridpp::Hss}); }
    gridpp::Extrapolation extra() { return r.pick({gridpp::OneToOne, gridpp::MeanSlope, gridpp::NearestSlope, gridpp::Zero, gridpp::Unchanged}); }
    gridpp::Downscaler down() { return r.pick({gridpp::Nearest, gridpp::Bilinear}); }
    gridpp::ComparisonOperator cmp() { return r.pick({gridpp::Lt, gridpp::Leq, gridpp::Gt, gridpp::Geq}); }
    std::shared_ptr<gridpp::StructureFunction> structure() {
        double s = scale(); float h = bad() ? odd(s) : s * r.u(0.3, 3), v = r.p(0.3) ? 0 : fl(10, 500), w = r.p(0.5) ? 0 : fl(0.1, 1), hm = r.p(0.6) ? NaNf : fl(0.5 * s, 6 * s);
        auto make = [&]() -> std::shared_ptr<gridpp::StructureFunction> {
            if(r.p(0.25)) { gridpp::Grid g = grid(); ivec n = g.size(); int Y = n.size() > 0 ? n[0] : 0, X = n.size() > 1 ? n[1] : 0; vec2 H = pos2(Y, X, 0.3 * s, 3 * s), V = pos2(Y, X, 10, 500), W = pos2(Y, X, 0.1, 1); float mr = r.p(0.5) ? 0.0013f : fl(0.0005, 0.3);
                switch(r.i(0, 4)) { case 0: return std::make_shared<gridpp::BarnesStructure>(g, H, V, W, mr); case 1: return std::make_shared<gridpp::SoarStructure>(g, H, V, W, mr); case 2: return std::make_shared<gridpp::ToarStructure>(g, H, V, W, mr); case 3: return std::make_shared<gridpp::PowerlawStructure>(g, H, V, W, mr); default: return std::make_shared<gridpp::LinearStructure>(g, H, V, W, mr); } }
            switch(r.i(0, 5)) { case 0: return std::make_shared<gridpp::BarnesStructure>(h, v, w, hm); case 1: return std::make_shared<gridpp::SoarStructure>(h, v, w, hm); case 2: return std::make_shared<gridpp::ToarStructure>(h, v, w, hm); case 3: return std::make_shared<gridpp::PowerlawStructure>(h, v, w, hm); case 4: return std::make_shared<gridpp::LinearStructure>(h, std::min(1.0f, std::fabs(v) / 1000), w, hm); default: return std::make_shared<gridpp::CressmanStructure>(h, v, w); }
        };
        try {
            if(r.p(0.15)) { auto a = make(); return std::make_shared<gridpp::CrossValidation>(*a, fl(0, s)); }
            if(r.p(0.15)) { auto a = make(), b = make(), d = make(); return std::make_shared<gridpp::MultipleStructure>(*a, *b, *d); }
            return make();
        } catch(const std::exception&) { return std::make_shared<gridpp::BarnesStructure>((float) s); }
    }
    int Y(const gridpp::Grid& g) { ivec n = g.size(); return n.size() > 0 ? n[0] : 0; }
    int X(const gridpp::Grid& g) { ivec n = g.size(); return n.size() > 1 ? n[1] : 0; }
};
typedef void (*EntryFn)(G&, Exec&);
struct Entry { const char* name; EntryFn fn; };
inline std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
struct EReg { EReg(const char* n, EntryFn f) { entries().push_back({n, f}); } };
#define ENTRY(nm) static void e_##nm(G& g, Exec& x); static EReg er_##nm(#nm, e_##nm); static void e_##nm(G& g, Exec& x)
#define R_ Rng& r = g.r; (void) r
using namespace gridpp;
// ---- optimal interpolation
ENTRY(oi_grid) { Grid b = g.grid(); int n = g.r.i(0, 12); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)); vec o = g.v(n), ra = g.pos(n), bp = g.v(n); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5); x.run({g.Y(b), g.X(b)}, [&] { return optimal_interpolation(b, f, p, o, ra, bp, *s, m, e); }, b, p, f, o, ra, bp); }
ENTRY(oi_points) { Points b = g.points(g.r.i(0, 12)); int n = g.r.i(0, 12); Points p = g.points(n); vec f = g.v(b.size()), o = g.v(n), ra = g.pos(n), bp = g.v(n); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5); x.run({b.size()}, [&] { return optimal_interpolation(b, f, p, o, ra, bp, *s, m, e); }, b, p, f, o, ra, bp); }
ENTRY(oi_full_grid) { Grid b = g.grid(); int n = g.r.i(0, 12); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)), bv = g.pos2(g.Y(b), g.X(b)); vec o = g.v(n), ov = g.pos(n), bp = g.v(n), bvp = g.pos(n); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5); x.run({}, [&] { vec2 av; vec2 a = optimal_interpolation_full(b, f, bv, p, o, ov, bp, bvp, *s, m, av, e); return std::make_pair(a, av); }, b, p, f, bv, o, ov, bp, bvp); }
ENTRY(oi_full_points) { Points b = g.points(g.r.i(0, 12)); int n = g.r.i(0, 12); Points p = g.points(n); vec f = g.v(b.size()), bv = g.pos(b.size()); vec o = g.v(n), ov = g.pos(n), bp = g.v(n), bvp = g.pos(n); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5); x.run({}, [&] { vec av; vec a = optimal_interpolation_full(b, f, bv, p, o, ov, bp, bvp, *s, m, av, e); return std::make_pair(a, av); }, b, p, f, bv, o, ov, bp, bvp); }
ENTRY(oi_ensi_grid) { Grid b = g.grid(); int n = g.r.i(0, 10), E = g.r.i(1, 6); Points p = g.points(n); vec3 f = g.v3(g.Y(b), g.X(b), E); vec o = g.v(n), sd = g.pos(n); vec2 bp = g.v2(n, E); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5); x.run({g.Y(b), g.X(b)}, [&] { return optimal_interpolation_ensi(b, f, p, o, sd, bp, *s, m, e); }, b, p, f, o, sd, bp); }
ENTRY(oi_ensi_points) { Points b = g.points(g.r.i(0, 10)); int n = g.r.i(0, 10), E = g.r.i(1, 6); Points p = g.points(n); vec2 f = g.v2(b.size(), E); vec o = g.v(n), sd = g.pos(n); vec2 bp = g.v2(n, E); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5); x.run({b.size()}, [&] { return optimal_interpolation_ensi(b, f, p, o, sd, bp, *s, m, e); }, b, p, f, o, sd, bp); }
#define MULTI_ARGS_P Points b = g.points(g.r.i(0, 8)); int n = g.r.i(0, 8), E = g.r.i(1, 6); Points p = g.points(n); vec br = g.pos(b.size()); vec2 f = g.v2(b.size(), E), fc = g.v2(b.size(), E), pb = g.v2(n, E), pc = g.v2(n, E), po = g.v2(n, E); vec po1 = g.v(n), pr = g.pos(n); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5);
#define MULTI_ARGS_G Grid b = g.grid(); int n = g.r.i(0, 8), E = g.r.i(1, 6); Points p = g.points(n); vec2 br = g.pos2(g.Y(b), g.X(b)); vec3 f = g.v3(g.Y(b), g.X(b), E), fc = g.v3(g.Y(b), g.X(b), E); vec2 pb = g.v2(n, E), pc = g.v2(n, E), po = g.v2(n, E); vec po1 = g.v(n), pr = g.pos(n); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); bool e = g.r.p(0.5);
ENTRY(ebe_points) { MULTI_ARGS_P x.run({b.size()}, [&] { return optimal_interpolation_ensi_multi_ebe(b, br, f, fc, p, po, pr, pb, pc, *s, m, e); }, b, br, f, fc, p, po, pr, pb, pc); }
ENTRY(ebesc_points) { MULTI_ARGS_P x.run({b.size()}, [&] { return optimal_interpolation_ensi_multi_ebesc(b, br, f, p, po, pr, pb, *s, m, e); }, b, br, f, p, po, pr, pb); }
ENTRY(utem_points) { MULTI_ARGS_P x.run({b.size()}, [&] { return optimal_interpolation_ensi_multi_utem(b, br, f, fc, p, po1, pr, pb, pc, *s, m, e); }, b, br, f, fc, p, po1, pr, pb, pc); }
ENTRY(ebe_grid) { MULTI_ARGS_G x.run({g.Y(b), g.X(b)}, [&] { return optimal_interpolation_ensi_multi_ebe(b, br, f, fc, p, po, pr, pb, pc, *s, m, e); }, b, br, f, fc, p, po, pr, pb, pc); }
ENTRY(ebesc_grid) { MULTI_ARGS_G x.run({g.Y(b), g.X(b)}, [&] { return optimal_interpolation_ensi_multi_ebesc(b, br, f, p, po, pr, pb, *s, m, e); }, b, br, f, p, po, pr, pb); }
ENTRY(utem_grid) { MULTI_ARGS_G x.run({g.Y(b), g.X(b)}, [&] { return optimal_interpolation_ensi_multi_utem(b, br, f, fc, p, po1, pr, pb, pc, *s, m, e); }, b, br, f, fc, p, po1, pr, pb, pc); }
ENTRY(staticcorr) { Points a = g.points(g.r.i(0, 12)), b = g.points(g.r.i(0, 12)); auto s = g.structure(); int m = g.r.p(0.4) ? 0 : g.in(1, 8); x.run({a.size()}, [&] { return staticcorr_points(a, b, *s, m); }, a, b); }
ENTRY(ldc1) { Grid b = g.grid(); int n = g.r.i(1, 12); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)); vec o = g.v(n), bp = g.v(n); auto s = g.structure(); float lo = g.fl(0, 0.4), hi = g.fl(0.5, 1); int m = g.in(0, 5); x.run({g.Y(b), g.X(b)}, [&] { return local_distribution_correction(b, f, p, o, bp, *s, lo, hi, m); }, b, p, f, o, bp); }
ENTRY(ldc2) { Grid b = g.grid(); int n = g.r.i(1, 8), T = g.r.i(1, 4); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)); vec2 o = g.v2(T, n), bp = g.v2(T, n); auto s = g.structure(); float lo = g.fl(0, 0.4), hi = g.fl(0.5, 1); int m = g.in(0, 5); x.run({g.Y(b), g.X(b)}, [&] { return local_distribution_correction(b, f, p, o, bp, *s, lo, hi, m); }, b, p, f, o, bp); }
// ---- observation driven
ENTRY(fill) { Grid b = g.grid(); int n = g.r.i(0, 10); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)); vec ra = g.pos(n, 0, 4 * g.scale()); float v = g.fl(-5, 5); bool out = g.r.p(0.5); x.run({g.Y(b), g.X(b)}, [&] { return fill(b, f, p, ra, v, out); }, b, f, p, ra); }
ENTRY(doping_square) { Grid b = g.grid(); int n = g.r.i(0, 10); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)); vec o = g.v(n); ivec hw(g.dim(n)); for(auto& i : hw) i = g.in(0, 4); float me = g.r.p(0.5) ? NaNf : g.fl(0, 500); x.run({g.Y(b), g.X(b)}, [&] { return doping_square(b, f, p, o, hw, me); }, b, f, p, o, hw); }
ENTRY(doping_circle) { Grid b = g.grid(); int n = g.r.i(0, 10); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)); vec o = g.v(n), ra = g.pos(n, 0, 4 * g.scale()); float me = g.r.p(0.5) ? NaNf : g.fl(0, 500); x.run({g.Y(b), g.X(b)}, [&] { return doping_circle(b, f, p, o, ra, me); }, b, f, p, o, ra); }
ENTRY(gamma_inv) { int n = g.r.i(0, 30); vec a = g.pos(n, 0, 1), b = g.pos(n), d = g.pos(n); x.run({(int) b.size()}, [&] { return gamma_inv(a, b, d); }, a, b, d); }
// ---- neighbourhood
#define F2 vec2 f = g.v2(g.r.i(1, g.big + 4), g.r.i(1, g.big + 4)); int Y = f.size(), X = Y ? f[0].size() : 0; (void) X;
#define F3 vec3 f = g.v3(g.r.i(1, g.big), g.r.i(1, g.big), g.r.i(1, 4)); int Y = f.size(), X = Y ? f[0].size() : 0; (void) X;
ENTRY(nbh2) { F2 int h = g.in(0, 5); auto s = g.stat(); x.run({Y, X}, [&] { return neighbourhood(f, h, s); }, f); }
ENTRY(nbh3) { F3 int h = g.in(0, 5); auto s = g.stat(); x.run({Y, X}, [&] { return neighbourhood(f, h, s); }, f); }
ENTRY(nbh_ens) { F3 int h = g.in(0, 5); auto s = g.stat(); x.run({Y, X}, [&] { return neighbourhood_ens(f, h, s); }, f); }
ENTRY(nbf2) { F2 int h = g.in(0, 5); auto s = g.stat(); x.run({Y, X}, [&] { return neighbourhood_brute_force(f, h, s); }, f); }
ENTRY(nbf3) { F3 int h = g.in(0, 5); auto s = g.stat(); x.run({Y, X}, [&] { return neighbourhood_brute_force(f, h, s); }, f); }
ENTRY(nbq2) { F2 int h = g.in(0, 5); float q = g.fl(0, 1); x.run({Y, X}, [&] { return neighbourhood_quantile(f, q, h); }, f); }
ENTRY(nbq3) { F3 int h = g.in(0, 5); float q = g.fl(0, 1); x.run({Y, X}, [&] { return neighbourhood_quantile(f, q, h); }, f); }
ENTRY(nbq_ens) { F3 int h = g.in(0, 5); float q = g.fl(0, 1); x.run({Y, X}, [&] { return neighbourhood_quantile_ens(f, q, h); }, f); }
ENTRY(nqf2) { F2 int h = g.in(0, 5); float q = g.fl(0, 1); vec t = g.sorted(g.r.i(1, 8)); x.run({Y, X}, [&] { return neighbourhood_quantile_fast(f, q, h, t); }, f, t); }
ENTRY(nqf3) { F3 int h = g.in(0, 5); float q = g.fl(0, 1); vec t = g.sorted(g.r.i(1, 8)); x.run({Y, X}, [&] { return neighbourhood_quantile_fast(f, q, h, t); }, f, t); }
ENTRY(nqf2v) { F2 int h = g.in(0, 5); vec2 q = g.r.p(0.2) ? g.pos2(1, 1, 0, 1) : g.pos2(Y, X, 0, 1); vec t = g.sorted(g.r.i(1, 8)); x.run({Y, X}, [&] { return neighbourhood_quantile_fast(f, q, h, t); }, f, t, q); }
ENTRY(nqf3v) { F3 int h = g.in(0, 5); vec2 q = g.r.p(0.2) ? g.pos2(1, 1, 0, 1) : g.pos2(Y, X, 0, 1); vec t = g.sorted(g.r.i(1, 8)); x.run({Y, X}, [&] { return neighbourhood_quantile_fast(f, q, h, t); }, f, t, q); }
ENTRY(nqf_ens) { F3 int h = g.in(0, 5); float q = g.fl(0, 1); vec t = g.sorted(g.r.i(1, 8)); x.run({Y, X}, [&] { return neighbourhood_quantile_ens_fast(f, q, h, t); }, f, t); }
ENTRY(nthr2) { F2 int n = g.in(1, 8, 1000); x.run({}, [&] { return get_neighbourhood_thresholds(f, n); }, f); }
ENTRY(nthr3) { F3 int n = g.in(1, 8, 1000); x.run({}, [&] { return get_neighbourhood_thresholds(f, n); }, f); }
ENTRY(calc_gradient) { F2 vec2 v = g.v2(Y, X); auto t = g.r.pick({MinMax, LinearRegression}); int h = g.in(0, 4), m = g.in(0, 6); float mr = g.r.p(0.4) ? NaNf : g.fl(0, 20), d = g.fl(-1, 1); x.run({Y, X}, [&] { return calc_gradient(f, v, t, h, m, mr, d); }, f, v); }
ENTRY(nsearch) { F2 vec2 s = g.v2(Y, X); int h = g.in(0, 4); float a = g.fl(-10, 10), b = g.r.p(0.8) ? a + g.fl(0, 10) : g.fl(-10, 10), d = g.fl(0, 10); ivec2 ap; if(g.r.p(0.5)) { int yy = g.dim(Y), xx = g.dim(X); ap = ivec2(yy, ivec(xx)); for(auto& w : ap) for(auto& i : w) i = g.in(0, 1); } x.run({Y, X}, [&] { return neighbourhood_search(f, s, h, a, b, d, ap); }, f, s, ap); }
ENTRY(window) { F2 int l = g.in(1, 9); if(!g.bad() && l % 2 == 0 && l < 100) l++; auto s = g.stat(); bool a = g.r.p(0.5), b = g.r.p(0.5), d = g.r.p(0.5); x.run({Y, X}, [&] { return window(f, l, s, a, b, d); }, f); }
ENTRY(fill_missing) { F2 x.run({Y, X}, [&] { return fill_missing(f); }, f); }
// ---- curves and scores
ENTRY(qmcurve) { int n = g.r.i(1, 20); vec a = g.v(n), b = g.v(n), q = g.r.p(0.5) ? vec() : g.pos(g.r.i(1, 5), 0, 1); x.run({}, [&] { vec o; vec c = quantile_mapping_curve(a, b, o, q); return std::make_pair(c, o); }, a, b, q); }
ENTRY(mocurve) { int n = g.r.i(1, 20); vec a = g.v(n), b = g.v(n), t = g.v(g.r.i(0, 4)); auto m = g.metric(); x.run({}, [&] { vec o; vec c = metric_optimizer_curve(a, b, t, m, o); return std::make_pair(c, o); }, a, b, t); }
ENTRY(curve0) { int n = g.r.i(1, 8); float v = g.fl(-20, 30); vec a = g.sorted(n), b = g.sorted(n); auto p = g.extra(), q = g.extra(); x.run({}, [&] { return apply_curve(v, a, b, p, q); }, a, b); }
ENTRY(curve1) { int n = g.r.i(1, 8); vec v = g.v(g.r.i(0, 30)), a = g.sorted(n), b = g.sorted(n); auto p = g.extra(), q = g.extra(); x.run({(int) v.size()}, [&] { return apply_curve(v, a, b, p, q); }, v, a, b); }
ENTRY(curve2) { F2 int n = g.r.i(1, 8); vec a = g.sorted(n), b = g.sorted(n); auto p = g.extra(), q = g.extra(); x.run({Y, X}, [&] { return apply_curve(f, a, b, p, q); }, f, a, b); }
ENTRY(curve3) { F2 int n = g.r.i(1, 8); vec3 a = g.v3(Y, X, n), b = g.v3(Y, X, n); if(!g.bad()) for(auto m : {&a, &b}) for(auto& w : *m) for(auto& c : w) { for(auto& q : c) if(std::isnan(q)) q = 1; std::sort(c.begin(), c.end()); } auto p = g.extra(), q = g.extra(); x.run({Y, X}, [&] { return apply_curve(f, a, b, p, q); }, f, a, b); }
ENTRY(monotonize) { int n = g.r.i(1, 12); vec a = g.v(n), b = g.v(n); x.run({}, [&] { vec o; vec c = monotonize_curve(a, b, o); return std::make_pair(c, o); }, a, b); }
ENTRY(optthr) { int n = g.r.i(1, 20); vec a = g.v(n), b = g.v(n); float t = g.fl(-20, 30); auto m = g.metric(); x.run({}, [&] { return get_optimal_threshold(a, b, t, m); }, a, b); }
ENTRY(score_table) { float a = g.fl(0, 10), b = g.fl(0, 10), d = g.fl(0, 10), e = g.fl(0, 10); auto m = g.metric(); x.run({}, [&] { return calc_score(a, b, d, e, m); }); }
ENTRY(score1) { int n = g.r.i(0, 20); vec a = g.v(n), b = g.v(n); float t = g.fl(-20, 30); auto m = g.metric(); x.run({}, [&] { return calc_score(a, b, t, m); }, a, b); }
ENTRY(score2) { int n = g.r.i(0, 20); vec a = g.v(n), b = g.v(n); float t = g.fl(-20, 30), u = g.fl(-20, 30); auto m = g.metric(); x.run({}, [&] { return calc_score(a, b, t, u, m); }, a, b); }
ENTRY(nbhscore) { Grid b = g.grid(); int n = g.r.i(0, 20); Points p = g.points(n); vec2 f = g.v2(g.Y(b), g.X(b)); vec o = g.v(n); int h = g.in(0, 4); auto m = g.metric(); float t = g.fl(-20, 30); x.run({g.Y(b), g.X(b)}, [&] { return neighbourhood_score(b, p, f, o, h, m, t); }, b, p, f, o); }
// ---- downscaling
#define GG Grid a = g.grid(), b = g.grid(); int Y = g.Y(a), X = g.X(a), YO = g.Y(b), XO = g.X(b), T = g.r.i(1, 3); (void) T; (void) XO;
#define GP Grid a = g.grid(); Points b = g.points(g.r.i(0, 30)); int Y = g.Y(a), X = g.X(a), T = g.r.i(1, 3); (void) T;
ENTRY(down_gg2) { GG vec2 f = g.v2(Y, X); auto d = g.down(); x.run({YO, XO}, [&] { return downscaling(a, b, f, d); }, a, b, f); }
ENTRY(down_gg3) { GG vec3 f = g.v3(T, Y, X); auto d = g.down(); x.run({}, [&] { return downscaling(a, b, f, d); }, a, b, f); }
ENTRY(down_gp2) { GP vec2 f = g.v2(Y, X); auto d = g.down(); x.run({b.size()}, [&] { return downscaling(a, b, f, d); }, a, b, f); }
ENTRY(down_gp3) { GP vec3 f = g.v3(T, Y, X); auto d = g.down(); x.run({}, [&] { return downscaling(a, b, f, d); }, a, b, f); }
ENTRY(near_gg2) { GG vec2 f = g.v2(Y, X); x.run({YO, XO}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(near_gg3) { GG vec3 f = g.v3(T, Y, X); x.run({}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(near_gp2) { GP vec2 f = g.v2(Y, X); x.run({b.size()}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(near_gp3) { GP vec3 f = g.v3(T, Y, X); x.run({}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(near_pp1) { Points a = g.points(g.r.i(0, 20)), b = g.points(g.r.i(0, 20)); vec f = g.v(a.size()); x.run({b.size()}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(near_pp2) { Points a = g.points(g.r.i(0, 20)), b = g.points(g.r.i(0, 20)); vec2 f = g.v2(g.r.i(1, 3), a.size()); x.run({}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(near_pg1) { Grid b = g.grid(); Points a = g.points(g.r.i(0, 20)); vec f = g.v(a.size()); x.run({g.Y(b), g.X(b)}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(near_pg2) { Grid b = g.grid(); Points a = g.points(g.r.i(0, 20)); vec2 f = g.v2(g.r.i(1, 3), a.size()); x.run({}, [&] { return nearest(a, b, f); }, a, b, f); }
ENTRY(bil_gg2) { GG vec2 f = g.v2(Y, X); x.run({YO, XO}, [&] { return bilinear(a, b, f); }, a, b, f); }
ENTRY(bil_gg3) { GG vec3 f = g.v3(T, Y, X); x.run({}, [&] { return bilinear(a, b, f); }, a, b, f); }
ENTRY(bil_gp2) { GP vec2 f = g.v2(Y, X); x.run({b.size()}, [&] { return bilinear(a, b, f); }, a, b, f); }
ENTRY(bil_gp3) { GP vec3 f = g.v3(T, Y, X); x.run({}, [&] { return bilinear(a, b, f); }, a, b, f); }
ENTRY(sg_gg2) { GG vec2 f = g.v2(Y, X); float e = g.fl(-0.01, 0.01); auto d = g.down(); x.run({YO, XO}, [&] { return simple_gradient(a, b, f, e, d); }, a, b, f); }
ENTRY(sg_gg3) { GG vec3 f = g.v3(T, Y, X); float e = g.fl(-0.01, 0.01); auto d = g.down(); x.run({}, [&] { return simple_gradient(a, b, f, e, d); }, a, b, f); }
ENTRY(sg_gp2) { GP vec2 f = g.v2(Y, X); float e = g.fl(-0.01, 0.01); auto d = g.down(); x.run({b.size()}, [&] { return simple_gradient(a, b, f, e, d); }, a, b, f); }
ENTRY(sg_gp3) { GP vec3 f = g.v3(T, Y, X); float e = g.fl(-0.01, 0.01); auto d = g.down(); x.run({}, [&] { return simple_gradient(a, b, f, e, d); }, a, b, f); }
ENTRY(fg_gg2) { GG vec2 f = g.v2(Y, X), e = g.r.p(0.2) ? vec2() : g.v2(Y, X), l = g.r.p(0.3) ? vec2() : g.v2(Y, X); auto d = g.down(); x.run({YO, XO}, [&] { return full_gradient(a, b, f, e, l, d); }, a, b, f, e, l); }
ENTRY(fg_gg3) { GG vec3 f = g.v3(T, Y, X), e = g.r.p(0.2) ? vec3() : g.v3(T, Y, X), l = g.r.p(0.3) ? vec3() : g.v3(T, Y, X); auto d = g.down(); x.run({}, [&] { return full_gradient(a, b, f, e, l, d); }, a, b, f, e, l); }
ENTRY(fg_gp2) { GP vec2 f = g.v2(Y, X), e = g.r.p(0.2) ? vec2() : g.v2(Y, X), l = g.r.p(0.3) ? vec2() : g.v2(Y, X); auto d = g.down(); x.run({b.size()}, [&] { return full_gradient(a, b, f, e, l, d); }, a, b, f, e, l); }
ENTRY(fg_gp3) { GP vec3 f = g.v3(T, Y, X), e = g.r.p(0.2) ? vec3() : g.v3(T, Y, X), l = g.r.p(0.3) ? vec3() : g.v3(T, Y, X); auto d = g.down(); x.run({}, [&] { return full_gradient(a, b, f, e, l, d); }, a, b, f, e, l); }
ENTRY(fg_debug) { GG vec2 f = g.v2(Y, X), e = g.r.p(0.2) ? vec2() : g.v2(Y, X), l = g.r.p(0.3) ? vec2() : g.v2(Y, X); auto d = g.down(); x.run({}, [&] { return full_gradient_debug(a, b, f, e, l, d); }, a, b, f, e, l); }
ENTRY(smart) { GG vec2 f = g.v2(Y, X); int n = g.in(1, 5); auto s = g.structure(); x.run({YO, XO}, [&] { return smart(a, b, f, n, *s); }, a, b, f); }
ENTRY(downprob) { GG vec3 f = g.v3(Y, X, T); vec2 t = g.v2(YO, XO); auto c = g.cmp(); x.run({YO, XO}, [&] { return downscale_probability(a, b, f, t, c); }, a, b, f, t); }
ENTRY(maskcons) { GG vec3 f = g.v3(Y, X, T), k = g.v3(Y, X, T), h = g.v3(Y, X, T); vec2 t = g.v2(YO, XO); auto c = g.cmp(); auto s = g.stat(); x.run({YO, XO}, [&] { return mask_threshold_downscale_consensus(a, b, f, k, h, t, c, s); }, a, b, f, k, h, t); }
ENTRY(maskquant) { GG vec3 f = g.v3(Y, X, T), k = g.v3(Y, X, T), h = g.v3(Y, X, T); vec2 t = g.v2(YO, XO); auto c = g.cmp(); float q = g.fl(0, 1); x.run({YO, XO}, [&] { return mask_threshold_downscale_quantile(a, b, f, k, h, t, c, q); }, a, b, f, k, h, t); }
ENTRY(count_gp) { GP float r = g.radius(); x.run({b.size()}, [&] { return count(a, b, r); }, a, b); }
ENTRY(count_gg) { GG float r = g.radius(); x.run({YO, XO}, [&] { return count(a, b, r); }, a, b); }
ENTRY(count_pg) { GP float r = g.radius(); x.run({Y, X}, [&] { return count(b, a, r); }, a, b); }
ENTRY(count_pp) { Points a = g.points(g.r.i(0, 20)), b = g.points(g.r.i(0, 20)); float r = g.radius(); x.run({b.size()}, [&] { return count(a, b, r); }, a, b); }
ENTRY(dist_gp) { GP int n = g.in(1, 4); x.run({b.size()}, [&] { return distance(a, b, n); }, a, b); }
ENTRY(dist_gg) { GG int n = g.in(1, 4); x.run({YO, XO}, [&] { return distance(a, b, n); }, a, b); }
ENTRY(dist_pg) { GP int n = g.in(1, 4); x.run({Y, X}, [&] { return distance(b, a, n); }, a, b); }
ENTRY(dist_pp) { Points a = g.points(g.r.i(0, 20)), b = g.points(g.r.i(0, 20)); int n = g.in(1, 4); x.run({b.size()}, [&] { return distance(a, b, n); }, a, b); }
ENTRY(gridding_g) { GP vec v = g.v(b.size()); float r = g.radius(); int m = g.in(0, 3); auto s = g.stat(); x.run({Y, X}, [&] { return gridding(a, b, v, r, m, s); }, a, b, v); }
ENTRY(gridding_p) { Points a = g.points(g.r.i(0, 20)), b = g.points(g.r.i(0, 20)); vec v = g.v(b.size()); float r = g.radius(); int m = g.in(0, 3); auto s = g.stat(); x.run({a.size()}, [&] { return gridding(a, b, v, r, m, s); }, a, b, v); }
ENTRY(griddingn_g) { GP vec v = g.v(b.size()); int m = g.in(0, 3); auto s = g.stat(); x.run({Y, X}, [&] { return gridding_nearest(a, b, v, m, s); }, a, b, v); }
ENTRY(griddingn_p) { Points a = g.points(g.r.i(0, 20)), b = g.points(g.r.i(0, 20)); vec v = g.v(b.size()); int m = g.in(0, 3); auto s = g.stat(); x.run({a.size()}, [&] { return gridding_nearest(a, b, v, m, s); }, a, b, v); }
// ---- diagnostics
#define V(n, a, b) g.pos(n, a, b)
ENTRY(diag) { int n = g.r.i(0, 30); vec T = V(n, 220, 320), H = V(n, 0.01, 1), P = V(n, 5e4, 1.1e5), A = V(n, 0, 3000), B = V(n, 0, 3000), D = V(n, 220, 300); switch(g.r.i(0, 7)) {
    case 0: x.run({(int) T.size()}, [&] { return dewpoint(T, H); }, T, H); break; case 1: x.run({(int) T.size()}, [&] { return relative_humidity(T, D); }, T, D); break; case 2: x.run({(int) T.size()}, [&] { return wetbulb(T, P, H); }, T, P, H); break; case 3: x.run({(int) A.size()}, [&] { return pressure(A, B, P, T); }, A, B, P, T); break;
    case 4: x.run({(int) P.size()}, [&] { return sea_level_pressure(P, A, T, H, D); }, P, A, T, H, D); break; case 5: x.run({(int) P.size()}, [&] { return qnh(P, A); }, P, A); break; case 6: x.run({(int) A.size()}, [&] { return wind_speed(A, B); }, A, B); break; default: x.run({(int) A.size()}, [&] { return wind_direction(A, B); }, A, B); } }
ENTRY(diag0) { float T = g.fl(200, 320), H = g.fl(0, 1), P = g.fl(5e4, 1e5), A = g.fl(0, 3000), B = g.fl(0, 3000); x.run({}, [&] { vec o = {dewpoint(T, H), relative_humidity(T, H), wetbulb(T, P, H), pressure(A, B, P, T), qnh(P, A), wind_speed(A, B), wind_direction(A, B)}; try { o.push_back(sea_level_pressure(P, A, T, H, B)); } catch(const std::exception&) { o.push_back(-1); } return o; }); }
// ---- util
ENTRY(stats) { vec a = g.v(g.r.i(0, 20)); vec2 b = g.v2(g.r.i(0, 5), g.r.i(0, 8)); auto s = g.stat(); x.run({}, [&] { return std::make_pair(calc_statistic(a, s), calc_statistic(b, s)); }, a, b); }
ENTRY(quants) { vec a = g.v(g.r.i(0, 20)); vec2 b = g.v2(g.r.i(0, 5), g.r.i(0, 8)); float q = g.fl(0, 1); x.run({}, [&] { return std::make_pair(calc_quantile(a, q), calc_quantile(b, q)); }, a, b); }
ENTRY(quants3) { int Y = g.r.i(0, 6), X = g.r.i(0, 6); vec3 f = g.v3(Y, X, g.r.i(1, 5)); vec2 q = g.pos2(Y, X, 0, 1); x.run({}, [&] { return calc_quantile(f, q); }, f, q); }
ENTRY(evenq) { vec a = g.v(g.r.i(0, 30)); int n = g.in(1, 8, 1000); x.run({}, [&] { return calc_even_quantiles(a, n); }, a); }
ENTRY(index) { vec a = g.sorted(g.r.i(0, 12)); float v = g.fl(-25, 35); x.run({}, [&] { return std::make_pair(get_lower_index(v, a), get_upper_index(v, a)); }, a); }
ENTRY(interp) { int n = g.r.i(1, 10); vec a = g.sorted(n), b = g.v(n), v = g.v(g.r.i(0, 10)); float s = g.fl(-25, 35); x.run({}, [&] { return std::make_pair(interpolate(s, a, b), interpolate(v, a, b)); }, a, b, v); }
ENTRY(convert) { int n = g.r.i(0, 10); vec a = g.pos(n, -90, 90), b = g.pos(n, -180, 180); auto t = g.r.pick({Geodetic, Cartesian}); x.run({}, [&] { vec p, q, s; convert_coordinates(a, b, t, p, q, s); return std::make_pair(p, std::make_pair(q, s)); }, a, b); }
ENTRY(missing) { F2 x.run({}, [&] { return num_missing_values(f); }, f); }
ENTRY(init) { int y = g.in(0, 5, 100), X = g.in(0, 5, 100), e = g.in(0, 3, 100), v = g.in(0, 5); x.run({}, [&] { return std::make_pair(init_ivec2(y, X, v), std::make_pair(init_vec2(y, X, v), std::make_pair(init_ivec3(y, X, e, v), init_vec3(y, X, e, v)))); }); }
ENTRY(rect) { auto p = [&] { float a = g.fl(-80, 80), b = g.fl(-170, 170); return Point(a, b); }; try { Point A = p(), B = p(), C = p(), D = p(), m = p(); x.run({}, [&] { return point_in_rectangle(A, B, C, D, m); }, A, B, C, D, m); } catch(const std::exception&) {} }
ENTRY(compat) { Grid a = g.grid(); Points p = g.points(g.r.i(0, 10)); int Y = g.Y(a), X = g.X(a); vec2 f = g.v2(Y, X), h = g.v2(Y, X); vec3 k = g.v3(2, Y, X), m = g.v3(Y, X, 2); vec v = g.v(p.size()); x.run({}, [&] { return ivec{compatible_size(a, f), compatible_size(a, k), compatible_size(p, v), compatible_size(p, f), compatible_size(f, h), compatible_size(f, m), compatible_size(m, k)}; }, a, p, f, h, k, m, v); }
ENTRY(statname) { static const std::vector<std::string> s = {"mean", "min", "max", "median", "quantile", "std", "variance", "sum", "count", "randomchoice", "", "foo", "MEAN", "mean "}; std::string n = g.r.pick(s); x.run({}, [&] { return (int) get_statistic(n); }, n); }
// ---- spatial objects
ENTRY(kdtree) { int n = g.r.i(0, 20); auto t = g.r.pick({Geodetic, Cartesian}); vec a = g.pos(n, -90, 90), b = g.pos(n, -180, 180); float la = g.fl(-90, 90), lo = g.fl(-180, 180), ra = g.r.p(0.3) ? g.fl(0, 1e7) : g.radius(); int num = g.in(1, 6); bool im = g.r.p(0.5);
    x.run({}, [&] { KDTree k(a, b, t); KDTree c = k; KDTree d; d = c; vec dist; ivec o = d.get_neighbours(la, lo, ra, im), p = d.get_neighbours_with_distance(la, lo, ra, dist, im), e = d.get_closest_neighbours(la, lo, num, im); std::sort(o.begin(), o.end()); std::sort(dist.begin(), dist.end()); return std::make_pair(o, std::make_pair(dist, ivec{(int) p.size(), (int) e.size(), d.get_num_neighbours(la, lo, ra, im), d.size()})); }, a, b); }
ENTRY(pts) { Points p = g.points(g.r.i(0, 15)); Grid b = g.grid(); float la = g.fl(-90, 90), lo = g.fl(-180, 180), ra = g.radius(); int num = g.in(1, 6), gi = g.in(0, 10); bool im = g.r.p(0.5); if(p.size() && g.r.p(0.8)) { int k = g.r.i(0, p.size() - 1); la = p.get_lats()[k]; lo = p.get_lons()[k]; } ivec idx; int m = g.r.i(0, 5); for(int i = 0; i < m; i++) idx.push_back(p.size() && !g.bad() ? g.r.i(0, p.size() - 1) : g.in(0, 20));
    switch(g.r.i(0, 6)) { case 0: x.run({}, [&] { vec d; auto o = p.get_neighbours_with_distance(la, lo, ra, d, im); std::sort(o.begin(), o.end()); return o; }, p); break; case 1: x.run({}, [&] { return ivec{p.get_nearest_neighbour(la, lo, im) >= -1, p.get_num_neighbours(la, lo, ra, im)}; }, p); break; case 2: x.run({}, [&] { return (int) p.get_closest_neighbours(la, lo, num, im).size(); }, p); break; case 3: x.run({}, [&] { return p.get_in_domain(b); }, p, b); break; case 4: x.run({}, [&] { return p.get_in_domain_indices(b); }, p, b); break; case 5: x.run({}, [&] { return p.subset(idx); }, p, idx); break; default: x.run({}, [&] { return p.get_point(gi); }, p); } }
ENTRY(grd) { Grid p = g.grid(); float la = g.fl(-90, 90), lo = g.fl(-180, 180), ra = g.radius(); int num = g.in(1, 6), gi = g.in(0, 6), gj = g.in(0, 6); bool im = g.r.p(0.5); if(g.r.p(0.8) && g.Y(p) && g.X(p)) gen_loc(g.r, g.last, 1, la, lo);
    switch(g.r.i(0, 6)) { case 0: x.run({}, [&] { vec d; return (int) p.get_neighbours_with_distance(la, lo, ra, d, im).size(); }, p); break; case 1: x.run({}, [&] { return p.get_num_neighbours(la, lo, ra, im); }, p); break; case 2: x.run({}, [&] { return (int) p.get_closest_neighbours(la, lo, num, im).size(); }, p); break; case 3: x.run({}, [&] { return p.to_points(); }, p); break; case 4: x.run({}, [&] { int a = 0, b = 0, d = 0, e = 0; bool o = p.get_box(la, lo, a, b, d, e); return o ? ivec{a, b, d, e} : ivec(); }, p); break; case 5: x.run({}, [&] { return (int) p.get_nearest_neighbour(la, lo, im).size(); }, p); break; default: x.run({}, [&] { return p.get_point(gi, gj); }, p); } }
ENTRY(gridctor) { int Y = g.r.i(0, 4), X = g.r.i(0, 4); vec2 a = g.pos2(Y, X, -80, 80), b = g.pos2(Y, X, -170, 170), e = g.r.p(0.3) ? vec2() : g.v2(Y, X), l = g.r.p(0.3) ? vec2() : g.v2(Y, X); auto t = g.r.pick({Geodetic, Cartesian}); x.run({}, [&] { Grid q(a, b, e, l, t); Grid c = q; return c; }, a, b, e, l); }
ENTRY(ptsctor) { int n = g.r.i(0, 8); vec a = g.pos(n, -80, 80), b = g.pos(n, -170, 170), e = g.r.p(0.3) ? vec() : g.v(n), l = g.r.p(0.3) ? vec() : g.v(n); auto t = g.r.pick({Geodetic, Cartesian}); x.run({}, [&] { Points q(a, b, e, l, t); Points c = q; Points d; d = c; KDTree k(a, b, t); Points m(k, e, l); return std::make_pair(d, m); }, a, b, e, l); }
ENTRY(corr) { g.init_last(); auto s = g.structure(); try { auto pt = [&] { float la, lo; gen_loc(g.r, g.last, 2, la, lo); return Point(la, lo, g.fl(0, 500), g.fl(0, 1), g.last.type); }; Point p = pt(); std::vector<Point> q; int n = g.r.i(0, 6); for(int i = 0; i < n; i++) q.push_back(pt()); x.run({}, [&] { auto c = s->clone(); vec a = c->corr(p, q), b = c->corr_background(p, q); for(auto& w : q) { a.push_back(s->corr(p, w)); b.push_back(s->corr_background(p, w)); } b.push_back(s->localization_distance(p)); return std::make_pair(a, b); }, p, q); } catch(const std::exception&) {} }
ENTRY(transform) { F3 vec2 h = g.v2(4, 4); vec v = g.v(8); float a = g.fl(0, 2), b = g.fl(0.1, 3), t = g.fl(0, 0.1); int k = g.r.i(0, 4); auto all = [&](const Transform& T) { vec o; auto put = [&](float q) { o.push_back(q); }; for(int d = 0; d < 2; d++) { for(float q : d ? T.backward(v) : T.forward(v)) put(q); for(auto& w : d ? T.backward(h) : T.forward(h)) for(float q : w) put(q); for(auto& m : d ? T.backward(f) : T.forward(f)) for(auto& w : m) for(float q : w) put(q); } return o; }; if(g.q == 0) { for(auto& q : v) q = std::fabs(q); for(auto& w : h) for(auto& q : w) q = std::fabs(q) / 10; for(auto& m : f) for(auto& w : m) for(auto& q : w) q = std::fabs(q) / 10; }
    x.run({}, [&] { switch(k) { case 0: return all(Identity()); case 1: return all(Log()); case 2: return all(BoxCox(a)); case 3: return all(StartedBoxCox(a, b)); default: return all(gridpp::Gamma(a, b, t)); } }, f, h, v); }
