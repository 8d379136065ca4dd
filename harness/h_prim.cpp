// C28: the client's primitives (dates, distances, statistics, solvers, strings, files, containers) against definitions.
#include "client.h"
#include "Location.h"
#include "Grid.h"
#include "Parameters.h"
#include <fstream>
#include <sys/types.h>
static const double RE = 6.378137e6, D2R = M_PI / 180;
// ---------------------------------------------------------------- dates (proleptic Gregorian calendar, counted day by day)
static long days_from_civil(long y, int m, int d) { y -= m <= 2; long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static int mdays(int y, int m) { static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0) ? 29 : n[m - 1]; }
static void date_of(long day, int& y, int& m, int& d) { y = 1400 + (day - days_from_civil(1400, 1, 1)) / 366; while(days_from_civil(y + 1, 1, 1) <= day) y++; m = 1; while(m < 12 && days_from_civil(y, m + 1, 1) <= day) m++; d = day - days_from_civil(y, m, 1) + 1; }
CASEW(dates, 2) {
    Rng& r = c.rng; int y = r.p(0.5) ? r.i(1950, 2060) : r.i(1500, 9900), m = r.p(0.3) ? 2 : r.i(1, 12), d = r.p(0.4) ? r.pick({1, mdays(y, m), std::min(29, mdays(y, m))}) : r.i(1, mdays(y, m)), date = y * 10000 + m * 100 + d;
    int hh = r.i(0, 23), mi = r.i(0, 59), ss = r.p(0.3) ? r.pick({0, 59}) : r.i(0, 59), time = hh * 10000 + mi * 100 + ss; if(r.p(0.1)) time = 0; if(r.p(0.1)) { hh = 23; mi = 59; ss = 59; time = 235959; } if(time == 0) hh = mi = ss = 0;
    long day = days_from_civil(y, m, d), want = day * 86400 + hh * 3600 + mi * 60 + ss; std::string w = strf("date %d time %06d", date, time); c.sample(w);
    time_t u = Util::getUnixTime(date, time); c.okf((long) u == want, "dates:unixtime", [&] { return w + strf(" is %ld, expected %ld", (long) u, want); });
    c.okf(Util::getDate(want) == date, "dates:getDate", [&] { return w + strf(" gives %d", Util::getDate(want)); }); c.okf(Util::getTime(want) == time, "dates:getTime", [&] { return w + strf(" gives %d", Util::getTime(want)); });
    time_t neg = Util::getUnixTime(date, -time); c.okf((long) neg == day * 86400 - (hh * 3600 + mi * 60 + ss), "dates:negative-time", [&] { return w + strf(" gives %ld", (long) neg); });
    float add = r.p(0.5) ? r.i(-2000, 2000) : r.u(-500, 500); if(r.p(0.3)) add = 24 * r.i(-400, 400); int y2, m2, d2; date_of(day + (long) std::floor(add / 24), y2, m2, d2); int got = Util::calcDate(date, add); c.okf(got == y2 * 10000 + m2 * 100 + d2, "dates:calcDate", [&] { return w + strf(" plus %g hours gives %d, expected %04d%02d%02d", add, got, y2, m2, d2); });
    time_t now = ::time(NULL), t1 = Util::getUnixTime(Util::getCurrentDate(), Util::getCurrentTime()); c.ok(std::labs((long) (t1 - now)) <= 30 || std::labs((long) (t1 - now)) >= 86000, "dates:now", w); c.ok(std::labs((long) (Util::getCurrentUnixTime() - now)) <= 30 && std::fabs(Util::clock() - now) < 30, "dates:clock", w);
    std::string s = Util::getCurrentTimeStamp(); int a, b, e, f, g, h; c.ok(s.size() == 19 && sscanf(s.c_str(), "%4d-%2d-%2d %2d:%2d:%2d", &a, &b, &e, &f, &g, &h) == 6 && std::labs(days_from_civil(a, b, e) * 86400 + f * 3600 + g * 60 + h - (long) now) <= 30, "dates:timestamp", s); c.h(date); c.h(time);
}
// ---------------------------------------------------------------- distances
static double gc(double la1, double lo1, double la2, double lo2) { double a = std::sin((la2 - la1) * D2R / 2), b = std::sin((lo2 - lo1) * D2R / 2), h = a * a + std::cos(la1 * D2R) * std::cos(la2 * D2R) * b * b; return 2 * RE * std::asin(std::sqrt(std::min(1.0, h))); }
CASEW(distance, 1) {
    Rng& r = c.rng; float la1 = r.u(-90, 90), lo1 = r.u(-180, 180), la2 = r.u(-90, 90), lo2 = r.u(-180, 180); int k = r.i(0, 7); if(k < 3) { double s = std::pow(10, r.u(-4, 1)); la2 = std::max(-90.0, std::min(90.0, la1 + r.u(-s, s))); lo2 = std::max(-360.0, std::min(360.0, lo1 + r.u(-s, s))); } else if(k == 3) { la2 = -la1; lo2 = lo1 + 180 > 180 ? lo1 - 180 : lo1 + 180; } else if(k == 4) la1 = r.pick({90.0f, -90.0f}); else if(k == 5) lo2 = lo1 + 360 * (lo1 < 0 ? 1 : -1); else if(k == 6) { la2 = la1; lo2 = lo1; }
    std::string w = strf("%.9g,%.9g to %.9g,%.9g", la1, lo1, la2, lo2); c.sample(w); double want = gc(la1, lo1, la2, lo2); float d = Util::getDistance(la1, lo1, la2, lo2), d2 = Util::getDistance(la2, lo2, la1, lo1);
    // angles are rounded to single precision: 2.5e-7 of the largest angle
    double tol = 6 + 2e-7 * want; c.near(d, want, tol, "distance:exact", [&] { return w; }); c.near(d2, d, 1 + 1e-6 * d, "distance:symmetric", [&] { return w; }); c.ok(d >= 0, "distance:negative", w); if(la1 == la2 && lo1 == lo2) c.ok(d == 0, "distance:zero", w);
    Location A(la1, lo1, 3), B(la2, lo2); c.ok(A.getDistance(B) == d, "distance:location", w);
    double dx = std::cos((la1 + la2) / 2 * D2R) * (lo1 - lo2) * D2R, dy = (la1 - la2) * D2R, ap = RE * std::sqrt(dx * dx + dy * dy); c.near(Util::getDistance(la1, lo1, la2, lo2, true), ap, 6 + 4e-7 * ap + 1.3e-7 * RE * std::fabs(lo1 - lo2) * D2R, "distance:approximate", [&] { return w; });
    float bad = r.pick({MV, NaNf, INFINITY}); float q[4] = {la1, lo1, la2, lo2}; q[r.i(0, 3)] = bad; c.ok(Util::getDistance(q[0], q[1], q[2], q[3], r.p(0.5)) == MV, "distance:missing", w);
    float q2[4] = {la1, lo1, la2, lo2}; int z = r.i(0, 3); q2[z] = (z % 2 ? 361 : 91) * (r.p(0.5) ? 1 : -1) * r.u(1, 5); c.ok(!client_runs([&] { Util::getDistance(q2[0], q2[1], q2[2], q2[3]); }), "distance:outside-accepted", w); c.h(d);
}
// ---------------------------------------------------------------- statistics
static vec some(Rng& r, int n, double miss) { vec v(n); int k = r.i(0, 4); double o = r.pick({0.0, 0.0, 290.0, 1e5}), s = r.pick({1.0, 10.0, 0.01}); for(auto& f : v) { f = k == 0 ? r.i(-3, 3) : k == 1 ? o : o + s * r.n(); if(r.p(miss)) f = r.pick({MV, NaNf, INFINITY, -INFINITY}); } return v; }
CASEW(statistics, 4) {
    Rng& r = c.rng; int n = r.p(0.1) ? r.i(100, 600) : r.i(0, 12); vec v = some(r, n, r.pick({0.0, 0.1, 0.5, 1.0})); std::vector<double> u; for(float f : v) if(std::isfinite(f) && f != MV) u.push_back(f); std::string w = str(v); c.sample(w); std::sort(u.begin(), u.end()); int N = u.size(); double sum = 0, mx = 0; for(double q : u) { sum += q; mx = std::max(mx, std::fabs(q)); } double mean = N ? sum / N : NaNd, var = 0; for(double q : u) var += (q - mean) * (q - mean); double range = N ? u.back() - u[0] : 0, e = 6e-8 * (N + 2);
    vec sh = v; for(int i = n - 1; i > 0; i--) std::swap(sh[i], sh[r.i(0, i)]);
    static const char* names[] = {"mean", "min", "median", "max", "quantile", "std", "sum"}; Util::StatType T;
    for(int k = 0; k < 7; k++) { if(!c.ok(Util::getStatType(names[k], T), "statistics:name", names[k])) continue; float q = r.p(0.3) ? r.pick({0.0f, 0.5f, 1.0f, 0.25f, 0.1f}) : r.p(0.3) && N > 1 ? (float) r.i(0, N - 1) / (N - 1) : r.u(); float g = Util::calculateStat(v, T, k == 4 ? q : MV), g2 = Util::calculateStat(sh, T, k == 4 ? q : r.p(0.5) ? MV : 0.3f); std::string key = std::string("statistics:") + names[k]; auto d = [&] { return w + strf(" quantile %.9g", q); };
        if(N == 0) { c.ok(g == MV, key + "-of-nothing", w); continue; } double want, tol;
        if(k == 0) { want = mean; tol = e * mx; } else if(k == 6) { want = sum; tol = e * mx * N; } else if(k == 5) { want = std::sqrt(var / N); tol = 6e-8 * (N + 4) * range + 1e-7 * mx * 0; double vt = 4e-7 * (N + 4) * range * range; tol = want > 0 ? std::min(std::sqrt(vt), vt / want) + 1e-6 * want : std::sqrt(vt); } else { double l = k == 1 ? 0 : k == 2 ? 0.5 : k == 3 ? 1 : q, p = l * (N - 1); int i = std::min(N - 1, (int) std::floor(p)), j = std::min(N - 1, i + 1); want = u[i] + (u[j] - u[i]) * (p - i); // position rounds by 1e-7 N; a rank can shift across a step of neighbouring values
            double near = 0; int lo = std::max(0, i - 1), hi = std::min(N - 1, j + 1); near = u[hi] - u[lo]; tol = 3e-7 * (1 + N) * near + 3e-7 * mx * (k == 1 || k == 3 ? 0 : 1); c.ok(g >= u[0] && g <= u.back(), key + "-range", d()); }
        c.near(g, want, tol, key, d); c.near(g2, want, tol, key + "-order", d); c.h(g); }
    c.ok(!Util::getStatType(r.pick({"", "Mean", "average", "mea", "quantiles"}), T), "statistics:unknown-name", "");
}
// rounding errors must not accumulate over long arrays
CASEW(longarray, 1) {
    Rng& r = c.rng; int n = r.p(0.02) ? (int) std::pow(10, r.u(4.5, 5.9)) : r.i(500, 3000); double off = r.pick({0.0, 1.0, 280.0, 1e5, -300.0}), sp = r.pick({0.01, 1.0, 10.0}) * std::max(1.0, std::fabs(off) / 300), m = r.p(0.3) ? 0.1 : 0; bool first = r.p(0.3);
    vec v(n); for(auto& f : v) { f = r.p(m) ? MV : off + sp * r.u(-1, 1); } if(first) v[0] = off + 40 * sp;
    double s = 0, q = 0; int k = 0; double big = 0; for(float f : v) if(f != MV) { s += f; k++; big = std::max(big, (double) std::fabs(f)); } double mean = s / k; for(float f : v) if(f != MV) q += (f - mean) * (f - mean); double sd = std::sqrt(q / k);
    c.h(mean); c.h(n); auto d = [&] { return strf("%d values (%d valid) around %g +- %g, first %.9g", n, k, off, sp, v[0]); }; c.sample(d());
    c.near(Util::calculateStat(v, Util::StatTypeMean), mean, 1e-6 * big, "longarray:mean", d); c.near(Util::calculateStat(v, Util::StatTypeSum), s, 1e-6 * big * k, "longarray:sum", d); c.near(Util::calculateStat(v, Util::StatTypeStd), sd, 2e-4 * sd, "longarray:std", d);
}
// ---------------------------------------------------------------- tables
CASEW(table, 2) {
    Rng& r = c.rng; int n = r.i(1, 9); bool ties = r.p(0.4); vec x(n), y(n); double o = r.pick({0.0, 0.0, 280.0}), s = r.pick({1.0, 0.01, 100.0}); for(auto& f : x) f = ties ? o + s * r.i(0, 4) : o + s * r.n(); std::sort(x.begin(), x.end()); for(auto& f : y) f = r.p(0.2) ? r.i(-2, 2) : 50 * r.n(); float q = r.p(0.4) ? r.pick(x) : r.u(x[0] - s, x.back() + s); std::string w = str(x) + " " + str(y) + strf(" at %.9g", q); c.sample(w);
    int lo = -999, up = -999; for(int i = 0; i < n; i++) if(x[i] < q) lo = i; for(int i = 0; i < n; i++) if(x[i] == q) { lo = i; break; } for(int i = n - 1; i >= 0; i--) if(x[i] > q) up = i; for(int i = n - 1; i >= 0; i--) if(x[i] == q) { up = i; break; }
    // among several equal to x: the first for the lower index, the last for the upper; among tied others: the last below, the first above
    c.okf(Util::getLowerIndex(q, x) == lo, "table:lower-index", [&] { return w + strf(" gives %d, expected %d", Util::getLowerIndex(q, x), lo); }); c.okf(Util::getUpperIndex(q, x) == up, "table:upper-index", [&] { return w + strf(" gives %d, expected %d", Util::getUpperIndex(q, x), up); });
    float g = Util::interpolate(q, x, y); double want; if(q > x.back()) want = y.back(); else if(q < x[0]) want = y[0]; else if(x[lo] == x[up]) want = (y[lo] + (double) y[up]) / 2; else want = y[lo] + ((double) y[up] - y[lo]) * ((double) q - x[lo]) / ((double) x[up] - x[lo]); c.near(g, want, 3e-6 * (std::fabs(lo >= 0 ? y[lo] : 0) + std::fabs(up >= 0 ? y[up] : 0) + 1e-6), "table:interpolate", [&] { return w; }); c.h(g);
}
// ---------------------------------------------------------------- solvers
CASEW(inverse, 2) {
    Rng& r = c.rng; int n = r.p(0.05) ? 0 : r.i(1, 8), k = r.i(0, 5); vec2 a = init2(n, n); double s = std::pow(10, r.u(-3, 3)), len = std::pow(10, r.u(-1, 2)); std::vector<double> px(n), py(n); for(int i = 0; i < n; i++) { px[i] = r.u(); py[i] = r.u(); if(k == 2 && i && r.p(0.2)) { px[i] = px[i - 1] + 1e-4 * r.u(); py[i] = py[i - 1]; } }
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) a[i][j] = k <= 2 ? s * (std::exp(-std::hypot(px[i] - px[j], py[i] - py[j]) * len) + (k == 1 && i == j ? 0.1 : 0)) : k == 3 ? r.i(-3, 3) : s * r.n();
    int sing = 0; if(n && k >= 3 && r.p(0.25)) { sing = r.i(1, 3); int i = r.i(0, n - 1), j = r.i(0, n - 1); if(sing == 1) for(int q = 0; q < n; q++) a[i][q] = 0; else if(sing == 2) for(int q = 0; q < n; q++) a[q][j] = 0; else if(n > 1) { if(i == j) j = (i + 1) % n; for(int p = 0; p < n; p++) for(int q = 0; q < n; q++) a[p][q] = std::ldexp(1.0, r.i(0, 0)) * (p == q ? 1 : 0); a[j] = a[i]; } else sing = 0; }
    bool miss = n && r.p(0.1); if(miss) { int i = r.i(0, n - 1), j = r.i(0, n - 1); a[i][j] = r.pick({MV, NaNf, INFINITY}); } std::string w = str(a); c.sample(w); vec2 copy = a, b; bool ok = client_runs([&] { b = Util::inverse(a); }); if(!c.ok(ok, "inverse:refused", w)) return; c.okf((int) b.size() == n, "inverse:size", [&] { return w; }); if(n == 0) return; for(auto& q : b) if(!c.ok((int) q.size() == n, "inverse:size", w)) return;
    if(miss || sing) { for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) c.ok(b[i][j] == MV, miss ? "inverse:missing" : "inverse:singular", w); return; }
    bool all = true; for(auto& q : b) for(float f : q) if(f != MV) all = false; if(all) { // only a matrix without an inverse may be refused: its determinant, scaled by its rows, must be tiny
        std::vector<std::vector<long double>> m(n, std::vector<long double>(n)); long double det = 1; for(int i = 0; i < n; i++) { long double nn = 0; for(int j = 0; j < n; j++) { m[i][j] = a[i][j]; nn += m[i][j] * m[i][j]; } nn = std::sqrt(nn); if(nn > 0) for(auto& q : m[i]) q /= nn; } for(int p = 0; p < n; p++) { int z = p; for(int i = p; i < n; i++) if(std::fabs(m[i][p]) > std::fabs(m[z][p])) z = i; std::swap(m[p], m[z]); det *= m[p][p]; if(m[p][p] == 0) break; for(int i = p + 1; i < n; i++) for(int j = n - 1; j >= p; j--) m[i][j] -= m[i][p] / m[p][p] * m[p][j]; } c.okf(std::fabs((double) det) < 1e-2, "inverse:refused-regular", [&] { return w; }); return; }
    double na = 0, nb = 0; for(int i = 0; i < n; i++) { double p = 0, q = 0; for(int j = 0; j < n; j++) { p += std::fabs(a[i][j]); q += std::fabs(b[i][j]); } na = std::max(na, p); nb = std::max(nb, q); } if(!(na * nb < 1e5)) return; // ill-conditioned: no statement
    double tol = 6e-8 * 8 * n * n * na * nb; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { double q = 0; for(int m = 0; m < n; m++) q += (double) a[i][m] * b[m][j]; c.near(q, i == j, tol, "inverse:identity", [&] { return w + strf(" at %d %d", i, j); }); c.h(b[i][j]); } c.ok(same_bits(copy, a), "inverse:input", w);
}
CASEW(regression, 1) {
    Rng& r = c.rng; int T = r.i(2, 20); bool add = r.p(0.5); int P = r.i(1, std::min(3, T - add)); vec2 X(P, vec(T)); vec y(T); double o = r.pick({0.0, 5.0}); for(auto& p : X) for(auto& f : p) f = o + r.n(); for(auto& f : y) f = 3 * r.n(); bool exact = r.p(0.3); vec cf(P + add); for(auto& f : cf) f = r.u(-2, 2); if(exact) for(int t = 0; t < T; t++) { double q = add ? cf[0] : 0; for(int p = 0; p < P; p++) q += cf[p + add] * X[p][t]; y[t] = q; }
    std::string w = str(y) + " " + str(X) + (add ? " with constant" : ""); c.sample(w); int N = P + add;
    // the residual is orthogonal to every predictor
    std::vector<std::vector<double>> A(N, std::vector<double>(T, 1)); for(int p = 0; p < P; p++) for(int t = 0; t < T; t++) A[p + add][t] = X[p][t]; double cond = 0; { // smallest pivot of the normal matrix says whether it is usable
        std::vector<std::vector<double>> m(N, std::vector<double>(N)); double big = 0; for(int i = 0; i < N; i++) for(int j = 0; j < N; j++) { for(int t = 0; t < T; t++) m[i][j] += A[i][t] * A[j][t]; big = std::max(big, std::fabs(m[i][j])); } double small = big; for(int p = 0; p < N; p++) { int z = p; for(int i = p; i < N; i++) if(std::fabs(m[i][p]) > std::fabs(m[z][p])) z = i; std::swap(m[p], m[z]); small = std::min(small, std::fabs(m[p][p])); if(m[p][p] == 0) break; for(int i = p + 1; i < N; i++) for(int j = N - 1; j >= p; j--) m[i][j] -= m[i][p] / m[p][p] * m[p][j]; } cond = small / big; } if(cond < 1e-5) return; // (nearly) dependent predictors: no statement
    vec b; bool ok = client_runs([&] { b = Util::regression(y, X, add); }); if(!c.ok(ok, "regression:refused", w)) return; if(!c.ok((int) b.size() == N, "regression:size", w)) return;
    double bm = 0; for(float f : b) bm = std::max(bm, (double) std::fabs(f)); for(int i = 0; i < N; i++) { double s = 0, sc = 0; for(int t = 0; t < T; t++) { double res = y[t]; for(int n = 0; n < N; n++) res -= (double) b[n] * A[n][t]; s += res * A[i][t]; double z = std::fabs(y[t]); for(int n = 0; n < N; n++) z += std::fabs(b[n] * A[n][t]); sc += z * std::fabs(A[i][t]); } c.near(s, 0, 5e-7 * sc + 1e-9, "regression:normal-equations", [&] { return w + " coefficients " + str(b); }); c.h(b[i]); }
    vec2 bad = X; bad[r.i(0, P - 1)].resize(T + r.pick({-1, 1})); c.ok(!client_runs([&] { Util::regression(y, bad, add); }), "regression:wrong-size-accepted", w); c.ok(!client_runs([&] { Util::regression(vec(r.i(0, 1), 1.0f), vec2(1, vec(1, 1.0f)), add); }), "regression:one-point-accepted", w);
}
CASEW(logit, 1) {
    Rng& r = c.rng; float p = r.p(0.2) ? std::pow(10, r.u(-30, 0)) : r.p(0.2) ? 1 - std::pow(10, r.u(-7, 0)) : r.u(); if(p > 0 && p < 1) { float l = Util::logit(p); double want = std::log((double) p / (1 - (double) p)); c.near(l, want, 2e-6 * (1 + std::fabs(want)), "logit:value", [&] { return strf("%.9g", p); }); c.near(Util::invLogit(l), p, std::min(1.0, 3e-6 * (1 + std::fabs(want))) * p * (1 - p) + 2e-7 * p + 1e-38, "logit:back", [&] { return strf("%.9g", p); }); }
    for(float q : {0.0f, 1.0f, -0.1f, 1.1f, MV, NaNf, INFINITY}) c.ok(Util::logit(q) == MV, "logit:outside", strf("%g", q)); for(float q : {MV, NaNf, INFINITY}) c.ok(Util::invLogit(q) == MV, "logit:missing", strf("%g", q));
    float x = r.p(0.3) ? r.u(-1000, 1000) : r.p(0.3) ? r.u(-120, 120) : 10 * r.n(); if(x == MV) x = 0; float g = Util::invLogit(x), h = Util::invLogit(x + (float) r.u(0, 5)); double want = x > 0 ? 1 / (1 + std::exp(-(double) x)) : std::exp((double) x) / (1 + std::exp((double) x)); c.sample(strf("p=%g x=%g", p, x)); c.near(g, want, 2e-6 * want + 1e-38, "logit:inverse", [&] { return strf("%.9g", x); }); c.okf(g >= 0 && g <= 1 && h >= g - 4e-7 * g, "logit:bounds", [&] { return strf("%.9g gives %.9g %.9g", x, g, h); }); c.h(g);
    float a = r.u(-200, 200); c.near(Util::deg2rad(a), a * D2R, 4e-7 * std::fabs(a), "logit:deg2rad"); c.near(Util::rad2deg(Util::deg2rad(a)), a, 1e-6 * std::fabs(a) + 1e-9, "logit:rad2deg");
}
// ---------------------------------------------------------------- strings and files
CASEW(strings, 1) {
    Rng& r = c.rng; std::string s, del = r.pick({" ", ",", "=", " ,", ", ="}); std::vector<std::string> want; std::string cur; for(int n = r.i(0, 40); n > 0; n--) { char ch = r.p(0.3) ? r.pick(std::vector<char>(del.begin(), del.end())) : (char) r.i('a', 'z'); s += ch; if(del.find(ch) != std::string::npos) { if(cur.size()) want.push_back(cur); cur = ""; } else cur += ch; } if(cur.size()) want.push_back(cur); c.sample("'" + s + "' by '" + del + "'"); c.ok((del == " " ? Util::split(s) : Util::split(s, del)) == want, "strings:split", "'" + s + "' by '" + del + "'"); char ch = r.i('a', 'z'); bool has = false; for(char q : s) if(q == ch) has = true; c.ok(Util::hasChar(s, ch) == has, "strings:hasChar", s);
    ivec a(r.i(0, 6)), b(r.i(0, 6)); for(int& q : a) q = r.i(0, 9); for(int& q : b) q = r.i(0, 9); std::set<int> u(a.begin(), a.end()); u.insert(b.begin(), b.end()); c.ok(Util::combine(a, b) == ivec(u.begin(), u.end()), "strings:combine", str(a) + str(b));
    // descriptions keep every word, in order, and no line is longer than asked unless one word is
    std::string title = r.p(0.8) ? "-x name" : "", msg; std::vector<std::string> words; size_t longest = 0; for(int n = r.i(0, 30); n > 0; n--) { std::string q(r.i(1, 14), 'w'); q[0] = r.i('a', 'z'); words.push_back(q); longest = std::max(longest, q.size()); msg += (msg.size() ? std::string(r.i(1, 2), ' ') : "") + q; } int tl = r.i(0, 40), ml = r.i(30, 110), ti = r.i(0, 5); std::string f = Util::formatDescription(title, msg, tl, ml, ti); std::vector<std::string> got = Util::split(f, " \n"), exp = Util::split(title); 
    size_t pad = std::max((int) (ti + title.size()), tl); bool fits = (int) (ti + title.size()) < tl; if(fits || title.empty() || words.empty()) { exp.insert(exp.end(), words.begin(), words.end()); if(!(title.size() && !fits)) c.ok(got == exp, "strings:description-words", f); } if(tl < ml) { std::istringstream is(f); std::string l; while(std::getline(is, l)) c.okf(l.size() <= std::max((size_t) ml + 1, pad + longest + 1), "strings:description-width", [&] { return strf("%d %d: ", tl, ml) + l; }); } c.h(s.size()); c.h(want.size());
}
static void own() { static bool done = false; if(done) return; done = true; std::string d = strf("prim.%d", (int) getpid()); mkdir(d.c_str(), 0755); if(chdir(d.c_str())) perror("chdir"); }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
CASEW(files, 1) {
    Rng& r = c.rng; own(); std::string data; for(int n = r.p(0.2) ? 0 : r.p(0.2) ? r.i(5000, 20000) : r.i(1, 50); n > 0; n--) data += (char) r.i(0, 255); { std::ofstream o("a.bin", std::ios::binary); o << data; } c.sample(strf("%zu bytes", data.size())); c.ok(Util::exists("a.bin") && !Util::exists("none.bin"), "files:exists", ""); if(r.p(0.5)) { std::ofstream o("b.bin"); o << "old contents that are longer than the new ones perhaps"; } c.ok(Util::copy("a.bin", "b.bin") && slurp("b.bin") == data && slurp("a.bin") == data, "files:copy", strf("%zu", data.size())); c.ok(!Util::copy("none.bin", "c.bin"), "files:copy-of-nothing", ""); unlink("c.bin");
    { std::ofstream o("x1.txt"), p("x2.txt"), q("y1.txt"); } std::vector<std::string> parts, want; for(int n = r.i(1, 4); n > 0; n--) { int k = r.i(0, 5); if(k == 0) { parts.push_back("x*.txt"); want.push_back("x1.txt"); want.push_back("x2.txt"); } else if(k == 1) { parts.push_back("y1.txt"); want.push_back("y1.txt"); } else if(k == 2) { parts.push_back("new.txt"); want.push_back("new.txt"); } else if(k == 3) { parts.push_back("none*.txt"); } else if(k == 4) { parts.push_back("[xy]1.txt"); want.push_back("x1.txt"); want.push_back("y1.txt"); } else { parts.push_back("x?.txt"); want.push_back("x1.txt"); want.push_back("x2.txt"); } } std::string g; for(auto& p : parts) g += (g.size() ? "," : "") + p; c.ok(Util::glob(g) == want, "files:glob", g);
    c.ok(Util::remove("b.bin") && !Util::exists("b.bin") && !Util::remove("b.bin"), "files:remove", ""); for(auto f : {"a.bin", "x1.txt", "x2.txt", "y1.txt"}) unlink(f); c.h(data.size()); c.h(want.size());
}
// ---------------------------------------------------------------- containers
CASEW(containers, 2) {
    Rng& r = c.rng; int Y = r.i(0, 5), X = r.i(0, 5), E = r.i(1, 5); float fill = r.pick({MV, 0.0f, 3.5f}); Field f(Y, X, E, fill); std::map<ivec, float> m; std::string w = strf("%dx%dx%d", Y, X, E); c.sample(w); c.ok(f.getNumY() == Y && f.getNumX() == X && f.getNumEns() == E, "containers:field-size", w); if(Y * X) for(int n = r.i(0, 30); n > 0; n--) { ivec i = {r.i(0, Y - 1), r.i(0, X - 1), r.i(0, E - 1)}; float v = r.u(-5, 5); f(i[0], i[1], i[2]) = v; m[i] = v; }
    const Field& cf = f; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { vec e = cf(y, x); c.ok((int) e.size() == E, "containers:field-ensemble", w); for(int k = 0; k < E && k < (int) e.size(); k++) { auto it = m.find({y, x, k}); float want = it == m.end() ? fill : it->second; c.ok(cf(y, x, k) == want && e[k] == want, "containers:field-value", w); } } Field g = f; c.ok(g == f && !(g != f), "containers:field-equal", w); if(Y * X) { int y = r.i(0, Y - 1), x = r.i(0, X - 1), e = r.i(0, E - 1); g(y, x, e) += 1; c.ok(g != f && !(g == f), "containers:field-different", w); bool ok = client_runs([&] { Field h(r.p(0.5) ? -1 : -999, X, E); }); c.ok(!ok, "containers:negative-field", w); }
    // locations: a strict order consistent with equality
    auto loc = [&] { return Location(r.i(0, 2), r.i(0, 2), r.p(0.3) ? MV : r.i(0, 2)); }; Location a = loc(), b = loc(), d = loc(); auto s = [&](const Location& l) { return strf("(%g,%g,%g)", l.lat(), l.lon(), l.elev()); }; std::string ws = s(a) + s(b) + s(d); auto tup = [](const Location& l) { return vec{l.lat(), l.lon(), l.elev()}; }; c.ok((a < b) == (tup(a) < tup(b)) && (a == b) == (tup(a) == tup(b)), "containers:location-order", ws); Location::CmpIgnoreElevation cmp; auto two = [](const Location& l) { return vec{l.lat(), l.lon()}; }; c.ok(cmp(a, b) == (two(a) < two(b)), "containers:location-order2", ws); Location z(1, 2); z.lat(a.lat()); z.lon(a.lon()); z.elev(a.elev()); c.ok(z == a && Location(1, 2).elev() == MV, "containers:location-set", ws); std::map<Location, int> lm; std::set<vec> ls; for(int n = 0; n < 12; n++) { Location l = loc(); lm[l]++; ls.insert(tup(l)); } c.ok(lm.size() == ls.size(), "containers:location-map", ws);
    // variables: told apart by name and level
    auto var = [&] { return Variable(r.pick({std::string("a"), std::string("b"), std::string("T")}), r.p(0.5) ? "K" : "", "", r.p(0.5) ? -999 : r.i(0, 2)); }; Variable v1 = var(), v2 = var(); auto key = [](const Variable& v) { return std::make_pair(v.name(), v.level()); }; std::string wv = strf("%s/%g %s/%g", v1.name().c_str(), v1.level(), v2.name().c_str(), v2.level()); c.ok((v1 == v2) == (key(v1) == key(v2)) && (v1 < v2) == (key(v1) < key(v2)), "containers:variable-order", wv); Variable v4((Options("name=q min=0 max=1.5 units=m level=3 standardName=s"))); c.ok(v4.name() == "q" && v4.min() == 0 && v4.max() == 1.5f && v4.units() == "m" && v4.level() == 3 && v4.standardName() == "s", "containers:variable-options", wv); c.ok(!client_runs([&] { Variable q((Options("min=0"))); }), "containers:variable-without-name", wv); Variable v5("n", 1, 2, "u", "st", 7); v5.add(Options("units=w max=9")); c.ok(v5.name() == "n" && v5.min() == 1 && v5.max() == 9 && v5.units() == "w" && v5.standardName() == "st" && v5.level() == 7, "containers:variable-add", wv);
    // parameters
    vec pv(r.i(0, 5)); bool valid = true; for(auto& q : pv) { q = r.p(0.15) ? r.pick({MV, NaNf}) : r.u(); if(!cv(q)) valid = false; } Parameters p(pv); std::string wp = str(pv); c.ok(p.size() == (int) pv.size() && p.isValid() == valid && same_bits(p.getValues(), pv), "containers:parameters", wp); for(size_t i = 0; i < pv.size(); i++) { c.ok(same_bits(vec{p[i]}, vec{pv[i]}), "containers:parameters-value", wp); p[i] = i; c.ok(p[i] == i, "containers:parameters-set", wp); } c.ok(!client_runs([&] { p[pv.size() + r.pick({0, 1, 1000})] = 1; }), "containers:parameters-outside", wp); c.ok(!client_runs([&] { const Parameters& q = p; volatile float u = q[(unsigned) -1]; (void) u; }), "containers:parameters-outside", wp); Parameters one(2.5f); c.ok(one.size() == 1 && one[0] == 2.5f && Parameters().size() == 0, "containers:parameters-one", wp);
    Grid gr; vec2 q[4]; for(auto& k : q) { k = init2(r.i(1, 3), r.i(1, 3)); for(auto& row : k) for(auto& e : row) e = r.u(); } gr.lats(q[0]); gr.lons(q[1]); gr.elevs(q[2]); gr.landFractions(q[3]); c.ok(gr.lats() == q[0] && gr.lons() == q[1] && gr.elevs() == q[2] && gr.landFractions() == q[3], "containers:grid", ""); c.h(Y * 100 + X * 10 + E); c.h(tup(a)); c.h(pv);
}
