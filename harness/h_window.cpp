// C14: moving-window statistics along time.
#include "nbh.h"
CASE(window) {
    Rng& r = c.rng; int Y = r.i(1, 4), X = r.p(0.1) ? r.i(100, 1500) : r.p(0.1) ? 1 : r.i(2, 25); float lo, hi; vary(r, lo, hi); vec2 f = gen_field(r, Y, X, pick_missing(r), lo, hi); sprinkle(r, f); bool before = r.p(0.5), keep = r.p(0.4), edges = r.p(0.5); int len = r.p(0.05) ? r.i(1000, 2000000000) : r.i(1, std::min(X, 30) + 4); if(!before && len % 2 == 0) len += len > 5 ? -1 : 1;
    if(X > 200) len = std::min(len, 31);
    double ga = 0; for(auto& v : f) { double s = 0; for(float q : v) if(isv(q)) s += std::fabs(q); ga = std::max(ga, s); }
    c.h(f); c.h(len); c.h(before * 4 + keep * 2 + edges); c.sample(strf("%dx%d length %d before=%d keep_missing=%d missing_edges=%d", Y, X, len, before, keep, edges)); vec2 f0 = f;
    for(auto s : all_stats()) {
        vec2 o = gridpp::window(f, len, s, before, keep, edges); if(!c.ok((int) o.size() == Y && (int) o[0].size() == X, "window:size")) continue;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            long a = before ? (long) x - len + 1 : (long) x - len / 2, b = before ? x : (long) x + len / 2; bool outside = a < 0 || b > X - 1; a = std::max(0L, a); b = std::min((long) X - 1, b);
            WinVals w; bool miss = false; for(long i = a; i <= b; i++) { w.add(f[y][i]); if(!isv(f[y][i])) miss = true; }
            auto d = [&] { return strf("length %d before=%d keep_missing=%d missing_edges=%d lead time %d of %d ", len, before, keep, edges, x, X) + str(vec(f[y].begin() + a, f[y].begin() + b + 1)); };
            if(s != gridpp::Count && ((keep && miss) || (edges && outside))) c.near(o[y][x], NaNd, 0, strf("window:%s:left-out", sname(s)), d);
            else check_stat(c, o[y][x], w, s, ga, 0, strf("window:%s", sname(s)), d);
        }
    }
    c.ok(same_bits(f, f0), "window:input-modified");
    auto s = all_stats()[r.i(0, 8)]; c.ok(!runs([&] { gridpp::window(f, -r.i(0, 5), s, before, keep, edges); }) && !runs([&] { gridpp::window(f, 2 * r.i(1, 6), s, false, keep, edges); }) && !runs([&] { gridpp::window(f, len, gridpp::Quantile, before, keep, edges); }) && !runs([&] { gridpp::window(f, len, gridpp::Unknown, before, keep, edges); }), "window:invalid-accepted");
    if(s != gridpp::RandomChoice) { vec2 e = gridpp::window(f, len, s, before), e2 = gridpp::window(f, len, s, before, false, true); c.ok(same_bits(e, e2), "window:defaults"); }
    vec2 empty, rows(Y); c.ok(gridpp::window(empty, len, s, before).empty() && (int) gridpp::window(rows, len, s, before).size() == Y, "window:empty");
}
// splitting the rows into separate calls gives the same result
CASE(independent) {
    Rng& r = c.rng; int Y = r.i(2, 5), X = r.i(1, 20); vec2 f = gen_field(r, Y, X, pick_missing(r)); int len = 2 * r.i(0, 5) + 1; bool before = r.p(0.5), keep = r.p(0.5), edges = r.p(0.5); c.h(f); auto s = all_stats()[r.i(0, 7)]; if(s == gridpp::RandomChoice) s = gridpp::Max; vec2 o = gridpp::window(f, len, s, before, keep, edges); c.sample(sname(s));
    for(int y = 0; y < Y; y++) c.ok(same_bits(gridpp::window({f[y]}, len, s, before, keep, edges), vec2{o[y]}), "independent:rows");
}
