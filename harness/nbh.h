// Reference window statistics in double precision.
#pragma once
#include "common.h"
struct WinVals { std::vector<double> v; double lo = INFINITY, hi = -INFINITY, abssum = 0; void add(float f) { if(isv(f)) { v.push_back(f); lo = std::min(lo, (double) f); hi = std::max(hi, (double) f); abssum += std::fabs(f); } } };
inline WinVals window_of(const vec2& f, int y, int x, int hw) {
    WinVals w; int Y = f.size(), X = f[0].size();
    for(long yy = std::max(0L, (long) y - hw); yy <= std::min((long) Y - 1, (long) y + hw); yy++) for(long xx = std::max(0L, (long) x - hw); xx <= std::min((long) X - 1, (long) x + hw); xx++) w.add(f[yy][xx]);
    return w;
}
inline WinVals window_of(const vec3& f, int y, int x, int hw) {
    WinVals w; int Y = f.size(), X = f[0].size();
    for(long yy = std::max(0L, (long) y - hw); yy <= std::min((long) Y - 1, (long) y + hw); yy++) for(long xx = std::max(0L, (long) x - hw); xx <= std::min((long) X - 1, (long) x + hw); xx++) for(float m : f[yy][xx]) w.add(m);
    return w;
}
// expected value and tolerance; glob = sum of |values| over everything (for integral images)
inline void ref_stat(const WinVals& w, gridpp::Statistic s, double globabs, double globspread, double& want, double& tol) {
    size_t n = w.v.size(); want = NaNd; tol = 0;
    double eps = 1.2e-7;
    if(s == gridpp::Count) { want = n; tol = 1e-6 * n; return; }
    if(n == 0) return;
    double sum = 0; for(double d : w.v) sum += d;
    double mean = sum / n;
    if(s == gridpp::Sum) { want = sum; tol = eps * (n + 2) * w.abssum + 1e-14 * globabs + 1e-37; return; }
    if(s == gridpp::Mean) { want = mean; tol = (eps * (n + 2) * w.abssum + 1e-14 * globabs) / n + 1e-37; return; }
    if(s == gridpp::Std || s == gridpp::Variance) {
        double var = 0; for(double d : w.v) var += (d - mean) * (d - mean); var /= n;
        double r = w.hi - w.lo;
        double tv = eps * (n + 4) * (r * r) + 1e-14 * globspread * globspread + 1e-37;
        if(s == gridpp::Variance) { want = var; tol = tv; } else { want = std::sqrt(var); tol = std::sqrt(var + tv) - std::sqrt(std::max(0.0, var - tv)) + 1e-7 * want; }
        return;
    }
    std::vector<double> q = w.v; std::sort(q.begin(), q.end());
    if(s == gridpp::Min) want = q[0];
    else if(s == gridpp::Max) want = q[n - 1];
    else if(s == gridpp::Median) { want = (q[(n - 1) / 2] + q[n / 2]) / 2; tol = (q[n / 2] - q[(n - 1) / 2]) * 1e-5 * n + 4e-7 * (std::fabs(q[n / 2]) + std::fabs(q[(n-1) / 2])); }
}
// interval of acceptable values of quantile q (linear between order statistics), q uncertain by dq
inline void ref_quantile(std::vector<double> v, double q, double& lo, double& hi) {
    std::sort(v.begin(), v.end()); size_t n = v.size();
    auto at = [&](double p) { p = std::max(0.0, std::min(1.0, p)); double h = p * (n - 1); size_t i = std::floor(h); if(i >= n - 1) return v[n - 1]; return v[i] + (v[i + 1] - v[i]) * (h - i); };
    double dq = 3e-7;
    lo = at(q - dq); hi = at(q + dq);
    double e = 3e-7 * (std::fabs(lo) + std::fabs(hi)) ; lo -= e; hi += e;
}
inline const char* sname(gridpp::Statistic s) { switch(s) { case gridpp::Mean: return "mean"; case gridpp::Min: return "min"; case gridpp::Max: return "max"; case gridpp::Median: return "median"; case gridpp::Sum: return "sum"; case gridpp::Std: return "std"; case gridpp::Variance: return "variance"; case gridpp::Count: return "count"; case gridpp::RandomChoice: return "randomchoice"; case gridpp::Quantile: return "quantile"; default: return "unknown"; } }
inline std::vector<gridpp::Statistic> all_stats() { return {gridpp::Mean, gridpp::Min, gridpp::Max, gridpp::Median, gridpp::Sum, gridpp::Std, gridpp::Variance, gridpp::Count, gridpp::RandomChoice}; }
// compares one output with its window
inline void check_stat(Ctx& c, float got, const WinVals& w, gridpp::Statistic s, double globabs, double globspread, const std::string& key, const std::function<std::string()>& d) {
    if(s == gridpp::RandomChoice) {
        if(w.v.empty()) { c.okf(std::isnan(got), key, d); return; }
        bool in = false; for(double x : w.v) if(x == got) in = true;
        c.okf(in, key, [&] { return strf("got %.9g not a valid member; ", got) + d(); });
        return;
    }
    double want, tol; ref_stat(w, s, globabs, globspread, want, tol);
    if(std::isfinite(want) && std::fabs(want) > 3e38) return;
    c.near(got, want, tol, key, d);
}
// field with various magnitudes and offsets
inline void vary(Rng& r, float& lo, float& hi) {
    switch(r.i(0, 7)) {
        case 0: lo = 101000; hi = 101400; break;
        case 1: lo = 0; hi = 1; break;
        case 2: lo = 250; hi = 250.5; break;
        case 3: lo = -1e6; hi = 1e6; break;
        case 4: lo = 1e-6; hi = 1e-5; break;
        default: lo = -20; hi = 30;
    }
}
inline void sprinkle(Rng& r, vec2& f) {  // ties, constants, infinities, outliers
    int Y = f.size(), X = Y ? f[0].size() : 0; if(!X) return;
    if(r.p(0.1)) { float k = f[0][0]; for(auto& row : f) for(auto& v : row) if(isv(v)) v = k; }
    if(r.p(0.15)) for(int k = r.i(1, 3); k > 0; k--) f[r.i(0, Y - 1)][r.i(0, X - 1)] = r.p(0.5) ? INFINITY : -INFINITY;
    if(r.p(0.1)) f[r.i(0, Y - 1)][r.i(0, X - 1)] = 1e6;
    if(r.p(0.15)) for(auto& row : f) for(auto& v : row) v = r.p(0.7) && isv(v) ? 0 : v;
}
