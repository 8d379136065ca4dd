// C18: meteorological diagnostics.
#include "common.h"
static float maybe(Rng& r, double v) { return r.p(0.03) ? NaNf : (float) v; }
template <class F, class V> static void arr(Ctx& c, int n, F scalar, V vector, const char* nm) {
    vec w(n), v; bool t = false; for(int i = 0; i < n; i++) if(!runs([&] { w[i] = scalar(i); })) t = true; bool ran = runs([&] { v = vector(); }); if(t) c.ok(!ran, strf("%s:array-error", nm)); else c.ok(ran && same_bits(v, w), strf("%s:array", nm), str(v) + str(w));
}
// sizes: dropping one element from one argument must be rejected
template <class F> static void sizes(Ctx& c, std::vector<vec> a, F f, const char* nm) { int k = c.rng.i(0, (int) a.size() - 1); if(a[k].size() && c.rng.p(0.5)) a[k].pop_back(); else a[k].push_back(1); c.ok(!runs([&] { f(a); }), strf("%s:size-mismatch-accepted", nm)); }
static double magnus(double t) { return 0.611 * std::exp(17.63 * t / (t + 243.04)); }
CASE(dewpoint) {
    Rng& r = c.rng; int n = r.i(0, 8); vec T(n), H(n); for(int i = 0; i < n; i++) { T[i] = maybe(r, r.u(190, 330)); H[i] = maybe(r, r.p(0.1) ? r.i(0, 1) : r.p(0.05) ? r.u(1, 1.3) : r.p(0.05) ? -r.u() : r.p(0.1) ? std::exp(r.u(-12, 0)) : r.u()); } c.h(T); c.h(H); c.sample(str(T) + str(H));
    for(int i = 0; i < n; i++) { double tc = (double) T[i] - 273.15, want = NaNd; if(isv(T[i]) && isv(H[i]) && H[i] > 0) { double e = H[i] * magnus(tc), td = (116.9 + 243.04 * std::log(e)) / (16.78 - std::log(e)) + 273.15; want = std::min(td, (double) T[i]); } auto d = [&] { return strf("temperature %.9g humidity %.9g", T[i], H[i]); }; float o = gridpp::dewpoint(T[i], H[i]); c.near(o, want, 1e-3, "dewpoint:value", d); if(isv(o)) { c.okf(o <= T[i], "dewpoint:above-temperature", d); float o2 = gridpp::dewpoint(T[i], H[i] * 0.9f); c.okf(o2 <= o + 1e-4, "dewpoint:monotone", d); if(H[i] >= 1) c.near(o, T[i], 0.4 + 0.05 * std::fabs(tc), "dewpoint:saturated", d); } }
    arr(c, n, [&](int i) { return gridpp::dewpoint(T[i], H[i]); }, [&] { return gridpp::dewpoint(T, H); }, "dewpoint"); sizes(c, {T, H}, [](std::vector<vec>& a) { gridpp::dewpoint(a[0], a[1]); }, "dewpoint");
}
// saturation vapour pressure every 5 K from 173.16 K
static const double svp[41] = {.000034,.000089,.000220,.000517,.001155,.002472,.005080,.01005,.01921,.03553,.06356,.1111,.1891,.3139,.5088,.8070,1.2540,1.9118,2.8627,4.2148,6.1078,8.7192,12.272,17.044,23.373,31.671,42.430,56.236,73.777,95.855,123.40,157.46,199.26,250.16,311.69,385.56,473.67,578.09,701.13,845.28,1013.25};
static double ref_svp(double T) { double x = std::max(0.0, std::min(39.0, (T - 173.16) * 0.2)); int l = (int) x; return svp[l] + (svp[l + 1] - svp[l]) * (x - l); }
CASE(humidity) {
    Rng& r = c.rng; int n = r.i(0, 8); vec T(n), D(n); for(int i = 0; i < n; i++) { T[i] = maybe(r, r.p(0.1) ? 173.16 + 5 * r.i(-3, 43) : r.p(0.1) ? r.u(100, 400) : r.u(230, 320)); D[i] = maybe(r, r.p(0.1) ? (double) T[i] : r.p(0.1) ? r.u(100, 400) : T[i] - r.u(-2, 30)); } c.h(T); c.h(D); c.sample(str(T) + str(D));
    for(int i = 0; i < n; i++) { double want = NaNd, tol = 0; auto d = [&] { return strf("temperature %.9g dewpoint %.9g", T[i], D[i]); }; if(isv(T[i]) && isv(D[i])) { if(T[i] <= D[i]) want = 1; else { want = std::max(0.0, std::min(1.0, ref_svp(D[i]) / ref_svp(T[i]))); tol = 3e-4 * want; } } float o = gridpp::relative_humidity(T[i], D[i]); c.near(o, want, tol, "humidity:value", d); if(!isv(o)) continue; c.okf(o >= 0 && o <= 1, "humidity:range", d); float o2 = gridpp::relative_humidity(T[i], D[i] + (float) r.u(0, 5)); c.okf(o2 >= o - 1e-5, "humidity:monotone", d); float o3 = gridpp::relative_humidity(T[i] + (float) r.u(0, 5), D[i]); c.okf(o3 <= o + 1e-5, "humidity:monotone", d);
        // dewpoint is (approximately) the inverse over water
        if(T[i] > 274 && T[i] < 320 && D[i] > 274 && D[i] < T[i]) c.near(gridpp::dewpoint(T[i], o), D[i], 1.5, "humidity:dewpoint-inverse", d); }
    arr(c, n, [&](int i) { return gridpp::relative_humidity(T[i], D[i]); }, [&] { return gridpp::relative_humidity(T, D); }, "humidity"); sizes(c, {T, D}, [](std::vector<vec>& a) { gridpp::relative_humidity(a[0], a[1]); }, "humidity");
}
CASE(wetbulb) {
    Rng& r = c.rng; int n = r.i(0, 8); vec T(n), P(n), H(n); for(int i = 0; i < n; i++) { T[i] = maybe(r, r.u(200, 330)); P[i] = maybe(r, r.u(20000, 110000)); H[i] = maybe(r, r.p(0.1) ? r.i(0, 1) : r.p(0.05) ? -r.u() : r.p(0.1) ? std::exp(r.u(-12, 0)) : r.u()); } c.h(T); c.h(P); c.h(H); c.sample(str(T) + str(P) + str(H));
    for(int i = 0; i < n; i++) { double want = NaNd, td = 0, tc = (double) T[i] - 273.15; auto d = [&] { return strf("temperature %.9g pressure %.9g humidity %.9g", T[i], P[i], H[i]); }; if(isv(T[i]) && isv(P[i]) && isv(H[i]) && H[i] > 0) { double e = H[i] * magnus(tc); td = (116.9 + 243.04 * std::log(e)) / (16.78 - std::log(e)); double ga = 0.00066 * P[i] / 1000, de = 4098 * e / ((td + 243.04) * (td + 243.04)); want = (ga * tc + de * td) / (ga + de) + 273.15; } float o = gridpp::wetbulb(T[i], P[i], H[i]); c.near(o, want, 2e-3, "wetbulb:value", d); if(isv(o)) { c.okf(o >= std::min(td + 273.15, (double) T[i]) - 0.01 && o <= std::max(td + 273.15, (double) T[i]) + 0.01, "wetbulb:between", d); } }
    arr(c, n, [&](int i) { return gridpp::wetbulb(T[i], P[i], H[i]); }, [&] { return gridpp::wetbulb(T, P, H); }, "wetbulb"); sizes(c, {T, P, H}, [](std::vector<vec>& a) { gridpp::wetbulb(a[0], a[1], a[2]); }, "wetbulb");
}
CASE(pressure) {
    Rng& r = c.rng; int n = r.i(0, 8); vec A(n), B(n), P(n), T(n); for(int i = 0; i < n; i++) { A[i] = maybe(r, r.u(-100, 4000)); B[i] = maybe(r, r.p(0.1) ? (double) A[i] : r.u(-100, 4000)); P[i] = maybe(r, r.u(20000, 110000)); T[i] = maybe(r, r.u(200, 330)); } c.h(A); c.h(B); c.h(P); c.h(T); c.sample(str(A) + str(B) + str(P) + str(T));
    for(int i = 0; i < n; i++) { double want = isv(A[i]) && isv(B[i]) && isv(P[i]) && isv(T[i]) ? P[i] * std::exp(-9.80665 * 0.0289644 * ((double) B[i] - A[i]) / (8.3144598 * T[i])) : NaNd; auto d = [&] { return strf("%.9g m to %.9g m pressure %.9g temperature %.9g", A[i], B[i], P[i], T[i]); }; float o = gridpp::pressure(A[i], B[i], P[i], T[i]); c.near(o, want, 2e-6 * want, "pressure:value", d); if(isv(o)) { c.near(gridpp::pressure(B[i], A[i], o, T[i]), P[i], 3e-6 * P[i], "pressure:round-trip", d); float m = r.u(-100, 4000); c.near(gridpp::pressure(m, B[i], gridpp::pressure(A[i], m, P[i], T[i]), T[i]), o, 3e-6 * o, "pressure:two-steps", d); c.okf(B[i] >= A[i] ? o <= P[i] : o >= P[i], "pressure:direction", d); } }
    arr(c, n, [&](int i) { return gridpp::pressure(A[i], B[i], P[i], T[i]); }, [&] { return gridpp::pressure(A, B, P, T); }, "pressure"); sizes(c, {A, B, P, T}, [](std::vector<vec>& a) { gridpp::pressure(a[0], a[1], a[2], a[3]); }, "pressure");
}
CASE(slp) {
    Rng& r = c.rng; int n = r.i(0, 8); vec P(n), A(n), T(n), H(n), D(n); bool bad = r.p(0.2); double wh = r.u(), wd = r.u();
    for(int i = 0; i < n; i++) { P[i] = maybe(r, r.u(40000, 108000)); A[i] = r.p(0.1) ? 50 : r.p(0.4) ? r.u(-400, 60) : r.u(0, 3000); T[i] = r.u(225, 325); H[i] = r.p(wh) ? (r.p(0.1) ? r.i(0, 1) : r.p(0.1) ? std::exp(r.u(-10, 0)) : r.u()) : NaNd; D[i] = r.p(wd) ? T[i] - r.u(0, 20) : NaNd; if(bad && r.p(0.3)) switch(r.i(0, 5)) { case 0: A[i] = NaNf; break; case 1: T[i] = NaNf; break; case 2: P[i] = -1; break; case 3: T[i] = -1; break; case 4: H[i] = r.p(0.5) ? -0.5 : 1.5; break; default: D[i] = -1; } }
    c.h(P); c.h(A); c.h(T); c.h(H); c.h(D); c.sample(str(P) + str(A) + str(T) + str(H) + str(D));
    for(int i = 0; i < n; i++) {
        auto d = [&] { return strf("pressure %.9g altitude %.9g temperature %.9g humidity %.9g dewpoint %.9g", P[i], A[i], T[i], H[i], D[i]); }; float o; bool ran = runs([&] { o = gridpp::sea_level_pressure(P[i], A[i], T[i], H[i], D[i]); });
        bool invalid = !isv(A[i]) || !isv(T[i]) || P[i] < 0 || T[i] < 0 || H[i] < 0 || H[i] > 1 || D[i] < 0; if(!c.okf(ran == !invalid, "slp:error", d) || invalid) continue;
        double want = NaNd; if(isv(P[i])) { double t = (double) T[i] - 273.15, ps = P[i] * 0.01, e = 0, td; double g = gridpp::gravit, R = gridpp::gas_constant_si; if(isv(H[i])) { e = H[i] * 6.11 * std::pow(10., 7.5 * t / (237.3 + t)); double q = std::log(e / 6.1094); td = 243.04 * q / (17.625 - q); } else if(isv(D[i])) { td = (double) D[i] - 273.15; e = 6.11 * std::pow(10., 7.5 * td / (237.3 + td)); } else td = t - 3; double slp; if(A[i] >= 50) slp = ps * std::exp(g * A[i] / R / (T[i] + 0.5 * 0.0065 * A[i] + e * 0.12)); else { double ed = H[i] == 0 ? 0 : 6.11 * std::pow(10., 7.5 * td / (237.7 + td)); double Tv = T[i] / (1 - 0.379 * ed / ps); slp = ps + ps * A[i] / (29.27 * Tv); } want = slp * 100; }
        c.near(o, want, 3e-6 * want, "slp:value", d); if(isv(o) && A[i] == 0) c.near(o, P[i], 1e-6 * P[i], "slp:sea-level", d); if(isv(o)) c.okf(A[i] >= 0 ? o >= P[i] * 0.999999 : o <= P[i] * 1.000001, "slp:direction", d);
    }
    arr(c, n, [&](int i) { return gridpp::sea_level_pressure(P[i], A[i], T[i], H[i], D[i]); }, [&] { return gridpp::sea_level_pressure(P, A, T, H, D); }, "slp"); sizes(c, {P, A, T, H, D}, [](std::vector<vec>& a) { gridpp::sea_level_pressure(a[0], a[1], a[2], a[3], a[4]); }, "slp");
}
CASE(qnh) {
    Rng& r = c.rng; int n = r.i(0, 8); vec P(n), A(n); for(int i = 0; i < n; i++) { P[i] = r.p(0.05) ? 0 : maybe(r, r.u(40000, 110000)); A[i] = maybe(r, r.p(0.1) ? 0 : r.u(-300, 4000)); } c.h(P); c.h(A); c.sample(str(P) + str(A));
    for(int i = 0; i < n; i++) { double want = P[i] == 0 ? 0 : isv(P[i]) && isv(A[i]) ? 101325 * std::pow(std::pow(P[i] / 101325.0, 287.053 * 0.0065 / 9.80665) + A[i] * 0.0065 / 288.15, 9.80665 / (287.053 * 0.0065)) : NaNd; auto d = [&] { return strf("pressure %.9g altitude %.9g", P[i], A[i]); }; float o = gridpp::qnh(P[i], A[i]); c.near(o, want, 1e-5 * want, "qnh:value", d); if(isv(o) && A[i] == 0) c.near(o, P[i], 1e-5 * P[i], "qnh:sea-level", d); if(isv(o) && P[i] > 0) { c.okf(gridpp::qnh(P[i], A[i] + 10) > o, "qnh:monotone", d); c.okf(gridpp::qnh(P[i] + 100, A[i]) > o, "qnh:monotone", d); } }
    arr(c, n, [&](int i) { return gridpp::qnh(P[i], A[i]); }, [&] { return gridpp::qnh(P, A); }, "qnh"); sizes(c, {P, A}, [](std::vector<vec>& a) { gridpp::qnh(a[0], a[1]); }, "qnh");
}
CASE(wind) {
    Rng& r = c.rng; int n = r.i(0, 8); vec U(n), V(n); double mag = r.p(0.2) ? std::exp(r.u(-20, 20)) : 20; for(int i = 0; i < n; i++) { U[i] = maybe(r, r.p(0.2) ? 0 : r.u(-mag, mag)); V[i] = maybe(r, r.p(0.2) ? 0 : r.p(0.05) ? (double) U[i] : r.u(-mag, mag)); } c.h(U); c.h(V); c.sample(str(U) + str(V));
    for(int i = 0; i < n; i++) { auto d = [&] { return strf("xwind %.9g ywind %.9g", U[i], V[i]); }; double sp = std::hypot((double) U[i], (double) V[i]); if(!isv(U[i]) || !isv(V[i])) sp = NaNd; float s = gridpp::wind_speed(U[i], V[i]), a = gridpp::wind_direction(U[i], V[i]); c.near(s, sp, 1e-6 * sp + 1e-20, "wind:speed", d); if(std::isnan(sp)) { c.near(a, NaNd, 0, "wind:missing", d); continue; } c.okf(a >= 0 && a <= 360, "wind:direction-range", d); if(sp > 0) { double ar = a * M_PI / 180; c.near(-std::sin(ar), U[i] / sp, 3e-6, "wind:direction", d); c.near(-std::cos(ar), V[i] / sp, 3e-6, "wind:direction", d); } }
    arr(c, n, [&](int i) { return gridpp::wind_speed(U[i], V[i]); }, [&] { return gridpp::wind_speed(U, V); }, "wind-speed"); arr(c, n, [&](int i) { return gridpp::wind_direction(U[i], V[i]); }, [&] { return gridpp::wind_direction(U, V); }, "wind-direction"); sizes(c, {U, V}, [](std::vector<vec>& a) { gridpp::wind_speed(a[0], a[1]); }, "wind-speed"); sizes(c, {U, V}, [](std::vector<vec>& a) { gridpp::wind_direction(a[0], a[1]); }, "wind-direction");
}
