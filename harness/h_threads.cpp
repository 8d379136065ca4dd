// C20: every library function with one thread, several threads and several schedules; and called by several threads at once.
// Built twice: instrumented with ThreadSanitizer on gomp_shim.cpp, and with the real OpenMP runtime under AddressSanitizer.
#include "catalog.h"
#include <omp.h>
#include <pthread.h>
extern "C" { void vt_config(int, int, uint64_t) __attribute__((weak)); void vt_stats(long*, long*, long*) __attribute__((weak)); }
static void set(int k, int mode, uint64_t seed) { if(vt_config) vt_config(k, mode, seed); omp_set_num_threads(k); }
struct TExec : Exec { using Exec::Exec; void go(const Call& f, const ivec& want, const std::function<uint64_t()>& inputs) override {
    uint64_t in0 = inputs(); Digest a; ivec s; std::string w0; set(1, 0, 1); int ra = once(f, a, s, &w0); c.h((double) (a.h % 1000003)); c.h(ra); std::string modes; long r0 = 0, r1 = 0, c0 = 0, c1 = 0, z0 = 0, z1 = 0; if(vt_stats) vt_stats(&r0, &c0, &z0);
    int rounds = 3; for(int k = 0; k < rounds; k++) {
        int n = c.rng.i(2, 8), mode = c.rng.i(0, 2); Digest b; ivec t; std::string w; set(n, mode, c.rng.next()); int rb = once(f, b, t, &w); modes += strf(" %d/%d", n, mode);
        c.okf(rb != 2, strf("%s:not-an-exception", name), [&] { return modes; }); c.okf(ra == rb, strf("%s:outcome-depends-on-threads", name), [&] { return strf("1 thread: %d %s;", ra, w0.c_str()) + modes + strf(": %d %s", rb, w.c_str()); });
        if(!ra && !rb) c.okf(a.h == b.h, strf("%s:result-depends-on-threads", name), [&] { return "threads/schedule" + modes; });
    }
    set(1, 0, 1); if(vt_stats) vt_stats(&r1, &c1, &z1);
    c.ok(inputs() == in0, strf("%s:input-modified", name)); c.sample(std::string(name) + (ra ? " threw " + w0 : strf(" %ld values, %ld not missing", a.n, a.valid)) + " threads/schedule" + modes + (vt_stats ? strf(" regions %ld critical sections %ld serialised %ld", r1 - r0, c1 - c0, z1 - z0) : ""));
} };
static const Entry& entry(Ctx& c, uint64_t k) { auto& es = entries(); return es[k % es.size()]; }
static void one(Ctx& c, double q, int big) { const Entry& e = entry(c, c.id / 4); G g(c.rng, q, big); TExec x(c, e.name); c.line(strf("# %s", e.name)); e.fn(g, x); }
CASEW(valid, 2) { one(c, 0, c.rng.pick({8, 8, 16})); }
CASE(hostile) { one(c, c.rng.pick({0.03, 0.1, 0.3}), 8); }
// Two or three callers at the same time, each on arguments of its own: the results are those of a lone caller
struct Rec : Exec { Call keep; std::vector<Digest>* d; std::vector<int>* r; int pass; Rec(Ctx& c_, const char* n, std::vector<Digest>* a, std::vector<int>* b) : Exec(c_, n), d(a), r(b) {} void go(const Call& f, const ivec&, const std::function<uint64_t()>&) override { Digest x; ivec s; int k = once(f, x, s); d->push_back(x); r->push_back(k); } };
struct Caller { Ctx* c; const Entry* e; uint64_t seed; int id; double q; std::vector<Digest> d; std::vector<int> r; bool threw; };
static void call(Caller& k) { k.d.clear(); k.r.clear(); k.threw = false; Rng r(k.seed); Ctx own = *k.c; own.rng = r; own.id = k.seed; G g(own.rng, k.q, 6); Rec x(own, k.e->name, &k.d, &k.r); try { k.e->fn(g, x); } catch(...) { k.threw = true; } }
static void* callp(void* p) { omp_set_num_threads(1 + ((Caller*) p)->id % 2); call(*(Caller*) p); return 0; }
CASE(callers) {
    int n = c.rng.i(2, 3); std::vector<Caller> ks(n); bool sameEntry = c.rng.p(0.5); uint64_t k0 = c.id / 4; std::string names; for(int i = 0; i < n; i++) { ks[i].c = &c; ks[i].e = &entry(c, i == 0 || sameEntry ? k0 : c.rng.next()); ks[i].seed = c.rng.next(); ks[i].id = i; ks[i].q = c.rng.p(0.7) ? 0 : 0.1; names += std::string(" ") + ks[i].e->name; }
    c.line("#" + names); set(1, 0, 1); std::vector<Caller> ref = ks; for(auto& k : ref) call(k); c.sample("callers" + names);
    if(vt_config) vt_config(2, 1, c.rng.next()); std::vector<pthread_t> th(n); for(int i = 0; i < n; i++) if(pthread_create(&th[i], 0, callp, &ks[i])) abort(); for(int i = 0; i < n; i++) pthread_join(th[i], 0);
    for(int i = 0; i < n; i++) { bool same = ks[i].r == ref[i].r && ks[i].threw == ref[i].threw && ks[i].d.size() == ref[i].d.size(); for(size_t j = 0; same && j < ks[i].d.size(); j++) same = ks[i].d[j].h == ref[i].d[j].h; c.okf(same, strf("%s:result-depends-on-other-callers", ks[i].e->name), [&] { return "callers" + names; }); for(auto& d : ref[i].d) c.h((double) (d.h % 1000003)); }
}
