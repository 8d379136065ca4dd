// Shared runtime for the C++ harnesses: deterministic case generator, event
// log, oracle comparison helpers. One process runs cases start, start+stride,
// ... < end.  Every case is a pure function of (seed, case number).
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <limits>
#include <exception>
#include <stdexcept>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>

typedef std::vector<float> vec;
typedef std::vector<vec> vec2;
typedef std::vector<vec2> vec3;
typedef std::vector<int> ivec;
typedef std::vector<ivec> ivec2;
typedef std::vector<ivec2> ivec3;
typedef std::vector<double> dvec;
typedef std::vector<dvec> dvec2;
typedef std::vector<dvec2> dvec3;
static const float NaNf = std::numeric_limits<float>::quiet_NaN();
static const double NaNd = std::numeric_limits<double>::quiet_NaN();

inline uint64_t mix64(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int) (next() % (uint64_t) (b - a + 1)); }  // inclusive
    bool p(double q) { return u() < q; }
    double n() { double a = u(), b = u(); if(a < 1e-300) a = 1e-300; return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + (next() % l.size())); }
    template <class T> const T& pick(const std::vector<T>& l) { return l[next() % l.size()]; }
};

inline std::string strf(const char* f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
inline std::string str(const vec& v, size_t max = 24) { std::string s = "["; for(size_t i = 0; i < v.size() && i < max; i++) s += strf("%s%.9g", i ? "," : "", v[i]); if(v.size() > max) s += ",..."; return s + "]"; }
inline std::string str(const dvec& v, size_t max = 24) { std::string s = "["; for(size_t i = 0; i < v.size() && i < max; i++) s += strf("%s%.9g", i ? "," : "", v[i]); if(v.size() > max) s += ",..."; return s + "]"; }
inline std::string str(const ivec& v, size_t max = 24) { std::string s = "["; for(size_t i = 0; i < v.size() && i < max; i++) s += strf("%s%d", i ? "," : "", v[i]); if(v.size() > max) s += ",..."; return s + "]"; }
inline std::string str(const vec2& v, size_t max = 8) { std::string s = "["; for(size_t i = 0; i < v.size() && i < max; i++) s += (i ? "," : "") + str(v[i], 8); if(v.size() > max) s += ",..."; return s + "]"; }

struct Ctx {
    Rng rng;
    uint64_t seed, id;
    int fd;
    std::string kind;
    long checks = 0;      // oracle comparisons made in this case
    long live = 0;        // ... of which on a non-missing, non-default value
    uint64_t hash = 0;    // fingerprint of what was generated/observed
    int nviol = 0;
    bool quietSample = false;
    std::string sampleText;
    void line(const std::string& s) { std::string t = s; for(auto& c : t) if(c == '\n') c = ' '; t += "\n"; size_t o = 0; while(o < t.size()) { ssize_t k = ::write(fd, t.data() + o, t.size() - o); if(k <= 0) abort(); o += k; } }
    void h(double v) { uint64_t b; memcpy(&b, &v, 8); hash = mix64(hash ^ b); }
    void h(const vec& v) { for(float f : v) h(f); }
    void h(const vec2& v) { for(auto& f : v) h(f); }
    void h(const vec3& v) { for(auto& f : v) h(f); }
    void h(const ivec& v) { for(int f : v) h((double) f); }
    void sample(const std::string& s) { if(sampleText.size() < 600) { if(!sampleText.empty()) sampleText += "; "; sampleText += s.substr(0, 600); } }
    void viol(const std::string& key, const std::string& detail) {
        nviol++;
        if(nviol <= 4) line(strf("V\t%" PRIu64 "\t%s\t", id, key.c_str()) + detail.substr(0, 3500));
    }
    // boolean oracle
    bool ok(bool cond, const std::string& key, const std::string& detail = "") { checks++; live++; if(!cond) viol(key, detail); return cond; }
    template <class F> bool okf(bool cond, const std::string& key, F detail) { checks++; live++; if(!cond) viol(key, detail()); return cond; }
    // numeric oracle: NaN must match NaN; |got-want| <= tol
    template <class F> bool near(double got, double want, double tol, const std::string& key, F detail) {
        checks++;
        bool gn = std::isnan(got), wn = std::isnan(want);
        bool good;
        if(gn || wn) good = gn && wn;
        else { live++; if(std::isinf(got) || std::isinf(want)) good = got == want; else good = std::fabs(got - want) <= tol; }
        if(!good) viol(key, strf("got %.9g want %.9g tol %.3g; ", got, want, tol) + detail());
        return good;
    }
    bool near(double got, double want, double tol, const std::string& key, const char* d = "") { return near(got, want, tol, key, [&] { return std::string(d); }); }
};

typedef std::function<void(Ctx&)> CaseFn;
struct Kind { std::string name; CaseFn fn; int weight; };
inline std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }
struct Reg { Reg(const char* n, CaseFn f, int w = 1) { kinds().push_back({n, f, w}); } };
#define CASE(name) static void case_##name(Ctx& c); static Reg reg_##name(#name, case_##name); static void case_##name(Ctx& c)
#define CASEW(name, w) static void case_##name(Ctx& c); static Reg reg_##name(#name, case_##name, w); static void case_##name(Ctx& c)

// Runs f; returns true if it returned normally, false if it threw a std::exception (message in err).
template <class F> bool runs(F f, std::string* err = nullptr) {
    try { f(); return true; }
    catch(const std::exception& e) { if(err) *err = e.what(); return false; }
}
inline double rel(double v, double f = 1e-4) { return f * (1 + std::fabs(v)); }
inline bool isv(float f) { return !std::isnan(f) && !std::isinf(f); }
inline bool same_bits(const vec& a, const vec& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(float)) == 0); }
inline bool same_bits(const vec2& a, const vec2& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!same_bits(a[i], b[i])) return false; return true; }
inline bool same_bits(const vec3& a, const vec3& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!same_bits(a[i], b[i])) return false; return true; }

// ---------------------------------------------------------------- main
int main(int argc, char** argv) {
    uint64_t start = 0, end = 10, stride = 1, seed = 1; std::string out, only; bool list = false;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if(a == "--start") start = std::stoull(nx()); else if(a == "--end") end = std::stoull(nx()); else if(a == "--stride") stride = std::stoull(nx());
        else if(a == "--seed") seed = std::stoull(nx()); else if(a == "--out") out = nx(); else if(a == "--kind") only = nx(); else if(a == "--list") list = true;
    }
    std::vector<int> wheel;
    auto& ks = kinds();
    std::sort(ks.begin(), ks.end(), [](const Kind& a, const Kind& b) { return a.name < b.name; });
    for(size_t k = 0; k < ks.size(); k++) for(int w = 0; w < ks[k].weight; w++) if(only.empty() || only == ks[k].name) wheel.push_back(k);
    if(list) { for(auto& k : ks) printf("%s %d\n", k.name.c_str(), k.weight); return 0; }
    int fd = out.empty() ? 1 : ::open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if(fd < 0) { perror("open"); return 3; }
    for(uint64_t id = start; id < end; id += stride) {
        Ctx c; c.id = id; c.seed = seed; c.fd = fd; c.rng = Rng(mix64(seed * 1000003ull + 17) ^ mix64(id * 7919ull + 3));
        // decorrelate kind from shard number
        const Kind& k = ks[wheel[mix64(id * 31 + 7) % wheel.size()]];
        c.kind = k.name;
        c.line(strf("B\t%" PRIu64 "\t%s", id, k.name.c_str()));
        try { k.fn(c); }
        catch(const std::exception& e) { c.viol(k.name + ":unexpected-exception", e.what()); }
        c.line(strf("D\t%" PRIu64 "\t%s\t%ld\t%ld\t%016" PRIx64 "\t%d\t", id, k.name.c_str(), c.checks, c.live, c.hash, c.nviol) + (id % 97 < 3 ? c.sampleText : std::string()));
    }
    { Ctx c; c.fd = fd; c.line("E"); }
    return 0;
}
