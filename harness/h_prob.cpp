// C16: probability downscaling and masked consensus.
#include "nbh.h"
#include "nnref.h"
using gridpp::ComparisonOperator;
static bool cmp(float a, float b, ComparisonOperator o) { switch(o) { case gridpp::Leq: return a <= b; case gridpp::Lt: return a < b; case gridpp::Geq: return a >= b; default: return a > b; } }
static const ComparisonOperator ops[] = {gridpp::Leq, gridpp::Lt, gridpp::Geq, gridpp::Gt}; static const char* on[] = {"leq", "lt", "geq", "gt"};
struct S { GridSpec ig, og; vec3 v; vec2 t; int E; Src src; ivec2 cand(int y, int x) const; };
static S gen(Rng& r) {
    S s; GridOpt o; o.maxLat = 80; o.minY = 1; s.ig = gen_grid(r, o); s.og = cover_grid(r, s.ig, o, 0.8);
    s.E = r.p(0.05) ? 0 : r.i(1, 9); s.v = gen_field3(r, s.ig.Y, s.ig.X, s.E, pick_missing(r), 0, 10); s.t = gen_field(r, s.og.Y, s.og.X, 0, 0, 10); if(r.p(0.5)) { for(auto& a : s.v) for(auto& b : a) for(auto& q : b) if(isv(q)) q = std::round(q); for(auto& a : s.t) for(auto& q : a) q = std::round(q); } s.src = src_of(s.ig); return s;
}
CASE(probability) {
    Rng& r = c.rng; S s = gen(r); int k = r.i(0, 3); c.h(s.ig.lats); c.h(s.v); c.h(s.t); c.h(k); c.sample(s.ig.desc + strf(" E=%d %s", s.E, on[k])); auto g = s.ig.grid(), og = s.og.grid(); vec3 v0 = s.v; vec2 t0 = s.t;
    vec2 o = gridpp::downscale_probability(g, og, s.v, s.t, ops[k]); if(!c.ok((int) o.size() == s.og.Y && (int) o[0].size() == s.og.X, "probability:size")) return;
    for(int y = 0; y < s.og.Y; y++) for(int x = 0; x < s.og.X; x++) {
        bool any = false; double w0 = NaNd; for(int i : nn_candidates(s.src, s.og.lats[y][x], s.og.lons[y][x])) { const vec& m = s.v[i / s.ig.X][i % s.ig.X]; int n = 0, h = 0; for(float f : m) if(isv(f)) { n++; h += cmp(f, s.t[y][x], ops[k]); } double w = n ? (double) h / n : NaNd; w0 = w; if(n ? std::fabs(o[y][x] - w) < 1e-6 : std::isnan(o[y][x])) any = true; }
        c.okf(any, strf("probability:%s", on[k]), [&] { return s.ig.desc + strf(" cell %d,%d threshold %.9g got %.9g want e.g. %.9g", y, x, s.t[y][x], o[y][x], w0); });
    }
    c.ok(same_bits(s.v, v0) && same_bits(s.t, t0), "probability:input-modified");
    c.ok(!runs([&] { gridpp::downscale_probability(g, og, init3(s.ig.Y + 1, s.ig.X, s.E), s.t, ops[k]); }) && !runs([&] { gridpp::downscale_probability(g, og, init3(s.ig.Y, s.ig.X + 1, s.E), s.t, ops[k]); }) && !runs([&] { gridpp::downscale_probability(g, og, s.v, init2(s.og.Y + 1, s.og.X), ops[k]); }) && !runs([&] { gridpp::downscale_probability(g, og, s.v, init2(s.og.Y, s.og.X + 1), ops[k]); }), "probability:invalid-accepted");
}
CASE(mask) {
    Rng& r = c.rng; S s = gen(r); int k = r.i(0, 3); vec3 vt = gen_field3(r, s.ig.Y, s.ig.X, s.E, pick_missing(r)), vf = gen_field3(r, s.ig.Y, s.ig.X, s.E, pick_missing(r)); auto st = all_stats()[r.i(0, 8)]; float q = r.pick({0.0f, 1.0f, 0.5f, (float) r.u(), (float) r.u()}); bool quant = r.p(0.4);
    c.h(s.ig.lats); c.h(s.v); c.h(vt); c.h(k); c.sample(s.ig.desc + strf(" E=%d %s %s", s.E, on[k], quant ? "quantile" : sname(st))); auto g = s.ig.grid(), og = s.og.grid();
    vec2 o = quant ? gridpp::mask_threshold_downscale_quantile(g, og, vt, vf, s.v, s.t, ops[k], q) : gridpp::mask_threshold_downscale_consensus(g, og, vt, vf, s.v, s.t, ops[k], st); if(!c.ok((int) o.size() == s.og.Y && (int) o[0].size() == s.og.X, "mask:size")) return;
    for(int y = 0; y < s.og.Y; y++) for(int x = 0; x < s.og.X; x++) {
        bool any = false; std::string want; for(int i : nn_candidates(s.src, s.og.lats[y][x], s.og.lons[y][x])) { WinVals w; for(int e = 0; e < s.E; e++) { float m = s.v[i / s.ig.X][i % s.ig.X][e]; if(isv(m)) w.add((cmp(m, s.t[y][x], ops[k]) ? vt : vf)[i / s.ig.X][i % s.ig.X][e]); }
            if(quant) { if(w.v.empty()) { if(std::isnan(o[y][x])) any = true; want = "missing"; } else { double lo, hi; ref_quantile(w.v, q, lo, hi); want = strf("[%.9g,%.9g]", lo, hi); if(o[y][x] >= lo - 1e-5 && o[y][x] <= hi + 1e-5) any = true; } }
            else if(st == gridpp::RandomChoice) { if(w.v.empty()) any = any || std::isnan(o[y][x]); for(double f : w.v) if(f == o[y][x]) any = true; }
            else { double e, tol; ref_stat(w, st, 0, 0, e, tol); want = strf("%.9g", e); if(std::isnan(e) ? std::isnan(o[y][x]) : std::fabs(o[y][x] - e) <= tol) any = true; } }
        c.okf(any, strf("mask:%s:%s", on[k], quant ? "quantile" : sname(st)), [&] { return s.ig.desc + strf(" cell %d,%d threshold %.9g got %.9g want e.g. ", y, x, s.t[y][x], o[y][x]) + want; });
    }
    auto call = [&](const vec3& a, const vec3& b, const vec3& m, const vec2& t) { return runs([&] { gridpp::mask_threshold_downscale_quantile(g, og, a, b, m, t, ops[k], q); }) || runs([&] { gridpp::mask_threshold_downscale_consensus(g, og, a, b, m, t, ops[k], st); }); };
    vec3 b1 = init3(s.ig.Y + 1, s.ig.X, s.E), b2 = init3(s.ig.Y, s.ig.X + 1, s.E), b3 = init3(s.ig.Y, s.ig.X, s.E + 1); vec3 bad = r.pick(std::vector<vec3>{b1, b2, b3});
    c.ok(!call(b1, b1, b1, s.t) && !call(b2, b2, b2, s.t) && !call(vt, bad, s.v, s.t) && !call(vt, vf, bad, s.t) && !call(bad, vf, s.v, s.t) && !call(vt, vf, s.v, init2(s.og.Y + 1, s.og.X)) && !call(vt, vf, s.v, init2(s.og.Y, s.og.X + 1)), "mask:invalid-accepted");
    c.ok(!runs([&] { gridpp::mask_threshold_downscale_quantile(g, og, vt, vf, s.v, s.t, ops[k], 1.5); }) && !runs([&] { gridpp::mask_threshold_downscale_consensus(g, og, vt, vf, s.v, s.t, ops[k], gridpp::Unknown); }) && !runs([&] { gridpp::mask_threshold_downscale_consensus(g, og, vt, vf, s.v, s.t, ops[k], gridpp::Quantile); }), "mask:invalid-accepted");
}
