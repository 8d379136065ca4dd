// C21: hostile arguments to every library function, under AddressSanitizer and UndefinedBehaviourSanitizer.
#include "catalog.h"
#include <atomic>
#include <climits>
// number of heap blocks in use, counted by the sanitizer's allocation hooks
static std::atomic<long> blocks{0};
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static int hooked = __sanitizer_install_malloc_and_free_hooks([](const volatile void* p, size_t) { if(p) blocks++; }, [](const volatile void* p) { if(p) blocks--; });
#endif
static long live() { return blocks; }
// how many blocks stay allocated after every one of several identical calls
static long retained(const Exec::Call& f) {
    long least = LONG_MAX;
    for(int k = 0; k < 3 && least; k++) { long b = live(); { Digest d; ivec s; Exec::once(f, d, s); } long a = live(); least = std::min(least, std::max(0L, a - b)); }
    return least;
}
struct HExec : Exec { using Exec::Exec; void go(const Call& f, const ivec& want, const std::function<uint64_t()>& inputs) override {
    uint64_t in0 = inputs(); Digest a, b; ivec s, s2; std::string w1, w2; int ra = once(f, a, s, &w1); long l0 = live(); int rb = once(f, b, s2, &w2); long l1 = live(); c.h((double) (a.h % 1000003)); c.h(ra); c.sample(std::string(name) + (ra ? " threw " + w1 : strf(" returned %ld values, %ld not missing", a.n, a.valid)));
    c.ok(ra != 2 && rb != 2, strf("%s:not-an-exception", name)); c.ok(ra == rb && (ra || a.h == b.h), strf("%s:not-repeatable", name), w1 + " / " + w2); c.ok(inputs() == in0, strf("%s:input-modified", name));
    long kept = l1 > l0 ? retained(f) : 0; c.ok(kept == 0, strf("%s:memory-retained", name), strf("%ld blocks per call", kept));
    if(!ra && want.size() && s.size() && !emptyIn) { ivec q = want, t = s; bool zero = false; for(int d : q) zero = zero || d == 0; if(t.size() > q.size()) t.resize(q.size()); if(!zero) c.ok(t == q, strf("%s:shape", name), str(s) + " want " + str(want)); }
} };
static int nextEntry = -1;
static void one(Ctx& c, double q) { auto& es = entries(); const Entry& e = es[(c.id / 4 + c.rng.i(0, 3) * 0) % es.size()]; G g(c.rng, q); HExec x(c, e.name); c.sample(e.name); c.line(strf("# %s", e.name)); e.fn(g, x); }
CASE(mild) { one(c, 0.08); }
CASE(rare) { one(c, 0.03); }
CASE(wild) { one(c, 0.3); }
CASE(extreme) { one(c, 0.6); }
