// C++ side of the Python-binding check: calls the library directly on raw buffers. Linked into the instrumented extension module; used through ctypes.
#include "gridpp.h"
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <tuple>
#include <utility>
using namespace gridpp;
struct Arg { int nd; int s[3]; const double* d; };
struct Out { int nd; int s[3]; bool isint; std::vector<double> d; };
static std::vector<Out> outs; static std::string msg;
struct Cur { const Arg* a; int n, k = 0; const Arg& next() { if(k >= n) throw std::logic_error("pyref: too few arguments"); return a[k++]; } };

template <class T> struct Dec;
template <class E> static std::vector<E> dv(const double* d, int n) { std::vector<E> r(n); for(int i = 0; i < n; i++) r[i] = (E) d[i]; return r; }
template <class E> static std::vector<std::vector<E>> dm(const double* d, int a, int b) { std::vector<std::vector<E>> r(a); for(int i = 0; i < a; i++) r[i] = dv<E>(d + (size_t) i * b, b); return r; }
static void nd(const Arg& a, int n) { if(a.nd != n) throw std::logic_error("pyref: wrong dimensions"); }
#define SCALAR(T) template <> struct Dec<T> { static T get(Cur& c) { const Arg& a = c.next(); nd(a, 0); return (T) a.d[0]; } };
SCALAR(int) SCALAR(float)
template <> struct Dec<bool> { static bool get(Cur& c) { return c.next().d[0] != 0; } };
#define ENUM(T) template <> struct Dec<T> { static T get(Cur& c) { return (T) (int) c.next().d[0]; } };
ENUM(Statistic) ENUM(Metric) ENUM(Extrapolation) ENUM(Downscaler) ENUM(ComparisonOperator) ENUM(CoordinateType) ENUM(GradientType)
template <> struct Dec<vec> { static vec get(Cur& c) { const Arg& a = c.next(); nd(a, 1); return dv<float>(a.d, a.s[0]); } };
template <> struct Dec<ivec> { static ivec get(Cur& c) { const Arg& a = c.next(); nd(a, 1); return dv<int>(a.d, a.s[0]); } };
template <> struct Dec<vec2> { static vec2 get(Cur& c) { const Arg& a = c.next(); nd(a, 2); return dm<float>(a.d, a.s[0], a.s[1]); } };
template <> struct Dec<ivec2> { static ivec2 get(Cur& c) { const Arg& a = c.next(); nd(a, 2); return dm<int>(a.d, a.s[0], a.s[1]); } };
template <> struct Dec<vec3> { static vec3 get(Cur& c) { const Arg& a = c.next(); nd(a, 3); vec3 r(a.s[0]); for(int i = 0; i < a.s[0]; i++) r[i] = dm<float>(a.d + (size_t) i * a.s[1] * a.s[2], a.s[1], a.s[2]); return r; } };
template <> struct Dec<Grid> { static Grid get(Cur& c) { vec2 a = Dec<vec2>::get(c), b = Dec<vec2>::get(c), e = Dec<vec2>::get(c), l = Dec<vec2>::get(c); CoordinateType t = Dec<CoordinateType>::get(c); return Grid(a, b, e, l, t); } };
template <> struct Dec<Points> { static Points get(Cur& c) { vec a = Dec<vec>::get(c), b = Dec<vec>::get(c), e = Dec<vec>::get(c), l = Dec<vec>::get(c); CoordinateType t = Dec<CoordinateType>::get(c); return Points(a, b, e, l, t); } };
template <> struct Dec<KDTree> { static KDTree get(Cur& c) { vec a = Dec<vec>::get(c), b = Dec<vec>::get(c); CoordinateType t = Dec<CoordinateType>::get(c); return KDTree(a, b, t); } };
template <> struct Dec<Point> { static Point get(Cur& c) { float a = Dec<float>::get(c), b = Dec<float>::get(c), e = Dec<float>::get(c), l = Dec<float>::get(c); CoordinateType t = Dec<CoordinateType>::get(c); return Point(a, b, e, l, t); } };
struct SF { StructureFunctionPtr p; };
static StructureFunctionPtr mkS(int k, float h, float v, float w, float m) {
    switch(k) {
        case 0: return std::make_shared<BarnesStructure>(h, v, w, m);
        case 1: return std::make_shared<CressmanStructure>(h, v, w);
        case 2: return std::make_shared<SoarStructure>(h, v, w, m);
        case 3: return std::make_shared<ToarStructure>(h, v, w, m);
        case 4: return std::make_shared<PowerlawStructure>(h, v, w, m);
        default: return std::make_shared<LinearStructure>(h, v, w, m);
    }
}
template <> struct Dec<SF> { static SF get(Cur& c) {
    int k = Dec<int>::get(c); float h = Dec<float>::get(c), v = Dec<float>::get(c), w = Dec<float>::get(c), m = Dec<float>::get(c), x = Dec<float>::get(c);
    if(k >= 20) { Grid g = Dec<Grid>::get(c); vec2 a = Dec<vec2>::get(c), b = Dec<vec2>::get(c), d = Dec<vec2>::get(c); return SF{std::make_shared<BarnesStructure>(g, a, b, d, m)}; }
    StructureFunctionPtr p = mkS(k % 10, h, v, w, m);
    if(k >= 10) return SF{std::make_shared<CrossValidation>(*p, x)};
    return SF{p}; } };
struct TF { std::shared_ptr<Transform> p; };
template <> struct Dec<TF> { static TF get(Cur& c) {
    int k = Dec<int>::get(c); float a = Dec<float>::get(c), b = Dec<float>::get(c);
    switch(k) {
        case 0: return TF{std::make_shared<Identity>()};
        case 1: return TF{std::make_shared<Log>()};
        case 2: return TF{std::make_shared<BoxCox>(a)};
        case 3: return TF{std::make_shared<StartedBoxCox>(a, b)};
        default: return TF{std::make_shared<Gamma>(a, b)};
    } } };

static void put(double v, bool i) { outs.push_back(Out{0, {0, 0, 0}, i, {v}}); }
static void enc(int v) { put(v, true); }
static void enc(bool v) { put(v, true); }
static void enc(float v) { put(v, false); }
static void enc(Statistic v) { put(v, true); }
static void enc(CoordinateType v) { put(v, true); }
static void enc(const Point& p) { for(float f : {p.lat, p.lon, p.elev, p.laf, p.x, p.y, p.z}) enc(f); enc((int) p.type); }
template <class E> static void enc(const std::vector<E>& v) { Out o{1, {(int) v.size(), 0, 0}, std::is_integral<E>::value, {}}; for(E e : v) o.d.push_back(e); outs.push_back(o); }
template <class E> static void enc(const std::vector<std::vector<E>>& v) {
    Out o{2, {(int) v.size(), v.size() ? (int) v[0].size() : 0, 0}, std::is_integral<E>::value, {}};
    for(auto& r : v) { if((int) r.size() != o.s[1]) throw std::logic_error("pyref: ragged"); for(E e : r) o.d.push_back(e); } outs.push_back(o); }
template <class E> static void enc(const std::vector<std::vector<std::vector<E>>>& v) {
    Out o{3, {(int) v.size(), v.size() ? (int) v[0].size() : 0, v.size() && v[0].size() ? (int) v[0][0].size() : 0}, std::is_integral<E>::value, {}};
    for(auto& r : v) { if((int) r.size() != o.s[1]) throw std::logic_error("pyref: ragged"); for(auto& q : r) { if((int) q.size() != o.s[2]) throw std::logic_error("pyref: ragged"); for(E e : q) o.d.push_back(e); } } outs.push_back(o); }
static void enc(const Points& p) { enc(p.get_lats()); enc(p.get_lons()); enc(p.get_elevs()); enc(p.get_lafs()); enc(p.get_coordinate_type()); }

// holders: T for inputs (decoded), output vectors are declared, passed and encoded
template <class P> struct H { typedef typename std::decay<P>::type T; T v; H(Cur& c) : v(Dec<T>::get(c)) {} T& ref() { return v; } void done() {} };
template <> struct H<vec&> { vec v; H(Cur&) {} vec& ref() { return v; } void done() { enc(v); } };
template <> struct H<vec2&> { vec2 v; H(Cur&) {} vec2& ref() { return v; } void done() { enc(v); } };
template <> struct H<float&> { float v = 0; H(Cur&) {} float& ref() { return v; } void done() { enc(v); } };
template <> struct H<int&> { int v = 0; H(Cur&) {} int& ref() { return v; } void done() { enc(v); } };
template <> struct H<const StructureFunction&> { SF v; H(Cur& c) : v(Dec<SF>::get(c)) {} StructureFunction& ref() { return *v.p; } void done() {} };
template <> struct H<StructureFunction&> { SF v; H(Cur& c) : v(Dec<SF>::get(c)) {} StructureFunction& ref() { return *v.p; } void done() {} };
typedef std::function<void(Cur&)> Fn;
static std::map<std::string, Fn>& reg() { static std::map<std::string, Fn> r; return r; }
template <class R, class... A, class F, size_t... I> static void callit(F f, Cur& c, std::index_sequence<I...>) {
    std::tuple<H<A>...> h{H<A>(c)...};   // braces: decoded left to right
    R r = f(std::get<I>(h).ref()...);
    enc(r);
    int dummy[] = {0, (std::get<I>(h).done(), 0)...}; (void) dummy;
}
template <class R, class... A> static void def(const char* n, R (*f)(A...)) { typedef typename std::decay<R>::type V; reg()[n] = [f](Cur& c) { callit<V, A...>(f, c, std::index_sequence_for<A...>()); }; }
template <class R, class K, class... A> static void defm(const char* n, R (K::*f)(A...) const) { typedef typename std::decay<R>::type V;
    reg()[n] = [f](Cur& c) { K k = Dec<K>::get(c); callit<V, A...>([&](auto&... a) -> R { return (k.*f)(a...); }, c, std::index_sequence_for<A...>()); }; }
template <class R, class... A> static void deft(const char* n, R (Transform::*f)(A...) const) {
    reg()[n] = [f](Cur& c) { TF k = Dec<TF>::get(c); callit<R, A...>([&](auto&... a) -> R { return ((*k.p).*f)(a...); }, c, std::index_sequence_for<A...>()); }; }
template <class R, class... A> static void defs(const char* n, R (StructureFunction::*f)(A...) const) {
    reg()[n] = [f](Cur& c) { SF k = Dec<SF>::get(c); callit<R, A...>([&](auto&... a) -> R { return ((*k.p).*f)(a...); }, c, std::index_sequence_for<A...>()); }; }
#define OV(R, n, A) def(#n #A, (R (*) A) &gridpp::n);
typedef const Grid& g; typedef const Points& p; typedef const vec& v; typedef const vec2& m; typedef const vec3& t; typedef const StructureFunction& s; typedef int i; typedef float f; typedef bool b;
typedef Statistic st; typedef Metric me; typedef Downscaler ds; typedef Extrapolation ex; typedef const ivec& iv; typedef const ivec2& im; typedef vec& ov; typedef vec2& om; typedef GradientType gt; typedef const ComparisonOperator& co; typedef const Statistic& cst; typedef CoordinateType ct;
static bool fillreg() {
#include "pyref.inc"
    def("deg2rad", &KDTree::deg2rad); def("rad2deg", &KDTree::rad2deg);
    def("calc_distance", (float (*)(float, float, float, float, CoordinateType)) &KDTree::calc_distance);
    def("calc_distance_fast", (float (*)(float, float, float, float, CoordinateType)) &KDTree::calc_distance_fast);
    def("calc_distance_point", (float (*)(const Point&, const Point&)) &KDTree::calc_distance);
    defm("KDTree.get_nearest_neighbour", &KDTree::get_nearest_neighbour); defm("KDTree.get_neighbours", &KDTree::get_neighbours); defm("KDTree.get_neighbours_with_distance", &KDTree::get_neighbours_with_distance);
    defm("KDTree.get_num_neighbours", &KDTree::get_num_neighbours); defm("KDTree.get_closest_neighbours", &KDTree::get_closest_neighbours); defm("KDTree.get_lats", &KDTree::get_lats); defm("KDTree.get_lons", &KDTree::get_lons);
    defm("KDTree.size", &KDTree::size); defm("KDTree.get_x", &KDTree::get_x); defm("KDTree.get_y", &KDTree::get_y); defm("KDTree.get_z", &KDTree::get_z); defm("KDTree.get_coordinate_type", &KDTree::get_coordinate_type);
    defm("Points.get_nearest_neighbour", &Points::get_nearest_neighbour); defm("Points.get_neighbours", &Points::get_neighbours); defm("Points.get_neighbours_with_distance", &Points::get_neighbours_with_distance);
    defm("Points.get_num_neighbours", &Points::get_num_neighbours); defm("Points.get_closest_neighbours", &Points::get_closest_neighbours); defm("Points.get_lats", &Points::get_lats); defm("Points.get_lons", &Points::get_lons);
    defm("Points.get_elevs", &Points::get_elevs); defm("Points.get_lafs", &Points::get_lafs); defm("Points.size", &Points::size); defm("Points.get_in_domain_indices", &Points::get_in_domain_indices); defm("Points.get_in_domain", &Points::get_in_domain);
    defm("Points.get_coordinate_type", &Points::get_coordinate_type); defm("Points.get_point", &Points::get_point); defm("Points.subset", &Points::subset);
    defm("Grid.get_nearest_neighbour", &Grid::get_nearest_neighbour); defm("Grid.get_neighbours", &Grid::get_neighbours); defm("Grid.get_neighbours_with_distance", &Grid::get_neighbours_with_distance);
    defm("Grid.get_num_neighbours", &Grid::get_num_neighbours); defm("Grid.get_closest_neighbours", &Grid::get_closest_neighbours); defm("Grid.get_box", &Grid::get_box); defm("Grid.to_points", &Grid::to_points);
    defm("Grid.get_lats", &Grid::get_lats); defm("Grid.get_lons", &Grid::get_lons); defm("Grid.get_elevs", &Grid::get_elevs); defm("Grid.get_lafs", &Grid::get_lafs); defm("Grid.size", &Grid::size);
    defm("Grid.get_coordinate_type", &Grid::get_coordinate_type); defm("Grid.get_point", &Grid::get_point);
    deft("Transform.forward(f)", (float (Transform::*)(float) const) &Transform::forward); deft("Transform.forward(v)", (vec (Transform::*)(const vec&) const) &Transform::forward);
    deft("Transform.forward(m)", (vec2 (Transform::*)(const vec2&) const) &Transform::forward); deft("Transform.forward(t)", (vec3 (Transform::*)(const vec3&) const) &Transform::forward);
    deft("Transform.backward(f)", (float (Transform::*)(float) const) &Transform::backward); deft("Transform.backward(v)", (vec (Transform::*)(const vec&) const) &Transform::backward);
    deft("Transform.backward(m)", (vec2 (Transform::*)(const vec2&) const) &Transform::backward); deft("Transform.backward(t)", (vec3 (Transform::*)(const vec3&) const) &Transform::backward);
    defs("Structure.corr", (float (StructureFunction::*)(const Point&, const Point&) const) &StructureFunction::corr); defs("Structure.corr_background", (float (StructureFunction::*)(const Point&, const Point&) const) &StructureFunction::corr_background);
    defs("Structure.localization_distance", &StructureFunction::localization_distance);
    return true;
}
extern "C" {
// 0: returned, 1: std::invalid_argument, 2: other std::exception, 3: anything else, -1: unknown function
int pyref_call(const char* name, const Arg* a, int n) {
    static bool filled = fillreg(); (void) filled;
    outs.clear(); msg.clear();
    auto it = reg().find(name);
    if(it == reg().end()) { msg = name; return -1; }
    Cur c{a, n};
    try { it->second(c); return 0; }
    catch(const std::invalid_argument& e) { outs.clear(); msg = e.what(); return 1; }
    catch(const std::exception& e) { outs.clear(); msg = e.what(); return 2; }
    catch(...) { outs.clear(); return 3; }
}
const char* pyref_msg() { return msg.c_str(); }
int pyref_nout() { return outs.size(); }
void pyref_outinfo(int k, int* r) { r[0] = outs[k].nd; for(int i = 0; i < 3; i++) r[1 + i] = outs[k].s[i]; r[4] = outs[k].isint; r[5] = (int) outs[k].d.size(); }
void pyref_outdata(int k, double* d) { if(outs[k].d.size()) memcpy(d, outs[k].d.data(), outs[k].d.size() * sizeof(double)); }
int pyref_names(char* buf, int n) { static bool filled = fillreg(); (void) filled; std::string s; for(auto& q : reg()) s += q.first + "\n"; strncpy(buf, s.c_str(), n - 1); return (int) s.size(); }
}
