// Dense reference pieces for the optimal-interpolation checks (long double, no armadillo).
#pragma once
#include "nnref.h"
#include <memory>
typedef long double ld; typedef std::vector<ld> lvec; typedef std::vector<lvec> M;
inline M zeros(int n, int m) { return M(n, lvec(m, 0)); }
inline M mul(const M& a, const M& b) { int n = a.size(), k = b.size(), m = k ? b[0].size() : 0; M o = zeros(n, m); for(int i = 0; i < n; i++) for(int q = 0; q < k; q++) for(int j = 0; j < m; j++) o[i][j] += a[i][q] * b[q][j]; return o; }
inline ld norm1(const M& a) { ld best = 0; for(size_t j = 0; j < a.size(); j++) { ld s = 0; for(size_t i = 0; i < a.size(); i++) s += fabsl(a[i][j]); best = std::max(best, s); } return best; }
// inverse by Gauss-Jordan with partial pivoting; cond = 1-norm condition number (infinity if singular)
inline M inverse(const M& a0, ld& cond) {
    int n = a0.size(); M a = a0, b = zeros(n, n); for(int i = 0; i < n; i++) b[i][i] = 1;
    for(int c = 0; c < n; c++) {
        int p = c; for(int i = c + 1; i < n; i++) if(fabsl(a[i][c]) > fabsl(a[p][c])) p = i;
        if(!(fabsl(a[p][c]) > 1e-17L)) { cond = INFINITY; return b; }
        std::swap(a[p], a[c]); std::swap(b[p], b[c]); ld d = 1 / a[c][c]; for(int j = 0; j < n; j++) { a[c][j] *= d; b[c][j] *= d; }
        for(int i = 0; i < n; i++) if(i != c && a[i][c] != 0) { ld f = a[i][c]; for(int j = 0; j < n; j++) { a[i][j] -= f * a[c][j]; b[i][j] -= f * b[c][j]; } }
    }
    cond = norm1(a0) * norm1(b); return b;
}
// symmetric eigen decomposition by Jacobi rotations: a = v diag(w) v'
inline void jacobi(M a, lvec& w, M& v) {
    int n = a.size(); v = zeros(n, n); for(int i = 0; i < n; i++) v[i][i] = 1;
    for(int sweep = 0; sweep < 60; sweep++) {
        ld off = 0; for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) off += a[i][j] * a[i][j]; if(off < 1e-32L) break;
        for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) {
            if(fabsl(a[p][q]) < 1e-30L) continue;
            ld th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
            for(int k = 0; k < n; k++) { ld x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
            for(int k = 0; k < n; k++) { ld x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
            for(int k = 0; k < n; k++) { ld x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
        }
    }
    w.resize(n); for(int i = 0; i < n; i++) w[i] = a[i][i];
}
typedef std::shared_ptr<gridpp::StructureFunction> SP;
struct Sel { ivec idx; dvec rho; bool edge = false; };
// admissible observations of location p1: usable, positively correlated, inside the localization distance, the best max_points of them
inline Sel select_obs(const gridpp::StructureFunction& s, const gridpp::Point& p1, const std::vector<gridpp::Point>& pts, const std::vector<bool>& usable, int max_points) {
    Sel o; std::vector<std::pair<double, int>> c; float loc = s.localization_distance(p1);
    for(size_t i = 0; i < pts.size(); i++) {
        if(!usable[i]) continue; double d = gridpp::KDTree::calc_straight_distance(p1, pts[i]); double rho = s.corr_background(p1, std::vector<gridpp::Point>(1, pts[i]))[0];
        if(std::fabs(d - loc) <= 1e-5 * loc + (p1.type == gridpp::Cartesian ? 1e-6 * (std::fabs(p1.lat) + std::fabs(p1.lon)) : 2) && (rho > 1e-9 || d < loc) && d > 0) o.edge = true;
        if(d <= loc && rho > 0) c.push_back({rho, i});
    }
    std::sort(c.begin(), c.end(), [](const std::pair<double, int>& a, const std::pair<double, int>& b) { return a.first > b.first; });
    if(max_points > 0 && (int) c.size() > max_points) { if(c[max_points - 1].first == c[max_points].first) o.edge = true; c.resize(max_points); }
    for(auto& p : c) { o.idx.push_back(p.second); o.rho.push_back(p.first); }
    return o;
}
inline double grid_size(const GridSpec& g) { return g.type == gridpp::Cartesian ? g.dlat : g.dlat * 111000; }
// a random structure function with horizontal scale around h; spatial = may vary spatially on grid g
inline SP gen_structure(Rng& r, const GridSpec& g, double h, std::string& name) {
    float v = r.p(0.5) ? 0 : r.u(100, 1000), w = r.p(0.6) ? 0 : r.u(0.3, 2), hm = r.p(0.7) ? NaNf : h * r.u(0.7, 3); int t = r.i(0, 9); name = strf("structure %d h=%g v=%g w=%g hmax=%g", t, h, v, w, hm);
    switch(t) {
        case 0: case 1: return SP(new gridpp::BarnesStructure(h, v, w, hm)); case 2: return SP(new gridpp::CressmanStructure(h, v, w)); case 3: return SP(new gridpp::SoarStructure(h, v, w, hm));
        case 4: return SP(new gridpp::ToarStructure(h, v, w, hm)); case 5: return SP(new gridpp::PowerlawStructure(h, v, w, hm));
        case 6: { vec2 H = init2(g.Y, g.X), V = H, W = H; for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { H[y][x] = h * r.u(0.6, 1.6); V[y][x] = v; W[y][x] = w; } return SP(new gridpp::BarnesStructure(g.grid(), H, V, W)); }
        case 7: return SP(new gridpp::MultipleStructure(gridpp::BarnesStructure(h, 0, 0, hm), gridpp::ToarStructure(1, v, 0), gridpp::LinearStructure(0.5, 0.5, r.u())));
        case 8: { gridpp::BarnesStructure b(h, v, w, hm); return SP(new gridpp::CrossValidation(b, h * r.u(0, 0.7))); }
        default: return SP(new gridpp::BarnesStructure(h, v, w));
    }
}
struct OiCase { GridSpec g; PointsSpec op; SP st; std::string name; int S, maxp; bool extra; gridpp::Points bpoints; std::vector<gridpp::Point> bp, sp; gridpp::Grid grid; gridpp::Points points; int N; };
// background grid (also as points), observation points, structure function
inline OiCase gen_oi(Rng& r, int maxS, int maxYX = 5) {
    OiCase o; GridOpt go; go.maxY = maxYX; go.maxX = maxYX; go.metaMissing = 0.03; go.minSp = 0.003; go.maxSp = 0.1; o.g = gen_grid(r, go); o.S = r.p(0.1) ? 1 : r.p(0.1) ? r.i(1, maxS * 3) : r.i(1, maxS);
    double h = grid_size(o.g) * std::exp(r.u(-0.7, 1.6)); o.op = gen_points_in(r, o.g, o.S, 1.5, 0.03, 0.15); o.st = gen_structure(r, o.g, h, o.name); o.maxp = r.p(0.5) ? 0 : r.i(1, o.S + 1); o.extra = r.p(0.5);
    o.grid = o.g.grid(); o.points = o.op.points(); o.bpoints = o.grid.to_points(); o.N = o.g.Y * o.g.X; for(int i = 0; i < o.N; i++) o.bp.push_back(o.bpoints.get_point(i)); for(int i = 0; i < o.S; i++) o.sp.push_back(o.points.get_point(i)); return o;
}
inline vec2 to_grid(const vec& v, int Y, int X) { vec2 o = init2(Y, X); for(int i = 0; i < Y * X; i++) o[i / X][i % X] = v[i]; return o; }
inline vec3 to_grid(const vec2& v, int Y, int X) { vec3 o(Y, vec2(X)); for(int i = 0; i < Y * X; i++) o[i / X][i % X] = v[i]; return o; }
// the localisation correlations among the selected observations
inline M corr_matrix(const gridpp::StructureFunction& s, const std::vector<gridpp::Point>& sp, const ivec& idx) {
    int n = idx.size(); M o = zeros(n, n); std::vector<gridpp::Point> p2; for(int j : idx) p2.push_back(sp[j]);
    for(int i = 0; i < n; i++) { vec c = s.corr(sp[idx[i]], p2); for(int j = 0; j < n; j++) o[i][j] = c[j]; } return o;
}
// an unconstrained increment against the constrained one: kept when inside [min(0,lo), max(0,hi)], otherwise moved into that range
inline bool limited_ok(double got, double inc, double lo, double hi, double tol) {
    double a = std::min(0.0, lo), b = std::max(0.0, hi);
    if(inc >= a + tol && inc <= b - tol) return std::fabs(got - inc) <= tol;
    if(inc < a - tol || inc > b + tol) return got >= a - tol && got <= b + tol;
    return got >= a - 2 * tol && got <= b + 2 * tol;
}
