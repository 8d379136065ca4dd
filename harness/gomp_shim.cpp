// A stand-in for libgomp made of plain pthreads, so that ThreadSanitizer sees every fork, join, lock and barrier (and nothing else) as
// synchronisation. Compiled without instrumentation. Adds schedule control: free running with injected delays, or one thread after the
// other in a permuted order (the turn variable is invisible to ThreadSanitizer, so serial order does not hide a race).
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <vector>
#include <algorithm>
static int cfg_threads = 4, cfg_mode = 0; static uint64_t cfg_seed = 1; static long n_regions = 0, n_criticals = 0, n_serial = 0;
static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Loop { long next, end, incr, chunk; bool set; pthread_mutex_t m; };
struct Team { int n; bool serial; std::vector<int> order; volatile int turn; pthread_mutex_t m; pthread_cond_t c; int arrived; int gen; std::map<int, Loop*> loops; std::map<int, int> singles; uint64_t seed; void (*fn)(void*); void* data; };
struct Self { Team* team; int id; int loopNo, singleNo; bool released; uint64_t rnd; Loop* cur; };
static __thread Self* self = 0; static __thread int icv_threads = 0;
static void delay(Self* s) { if(!s || cfg_mode == 0) return; s->rnd = mix(s->rnd); int k = s->rnd % 16; if(k < 3) usleep(s->rnd / 16 % 60); else if(k < 8) sched_yield(); }
static void take(Self* s) { Team* t = s->team; if(!t->serial) return; int pos = std::find(t->order.begin(), t->order.end(), s->id) - t->order.begin(); while(__atomic_load_n(&t->turn, __ATOMIC_ACQUIRE) != pos) sched_yield(); }
static void release(Self* s) { Team* t = s->team; if(!t->serial || s->released) return; s->released = true; __atomic_add_fetch(&t->turn, 1, __ATOMIC_ACQ_REL); }
struct Start { Team* team; int id; };
static void body(Team* t, int id) { Self me = {t, id, 0, 0, false, mix(t->seed + id), 0}; Self* old = self; self = &me; if(!t->serial) delay(&me); take(&me); t->fn(t->data); release(&me); self = old; }
static void* entry(void* p) { Start* s = (Start*) p; body(s->team, s->id); return 0; }
static pthread_mutex_t defaultLock = PTHREAD_MUTEX_INITIALIZER, atomicLock = PTHREAD_MUTEX_INITIALIZER, tableLock = PTHREAD_MUTEX_INITIALIZER;
static void run_team(void (*fn)(void*), void* data, unsigned nt, Loop* first) {
    int n = nt ? (int) nt : (icv_threads > 0 ? icv_threads : cfg_threads); if(self) n = 1; if(n < 1) n = 1;
    __atomic_add_fetch(&n_regions, 1, __ATOMIC_RELAXED); Team t; t.n = n; t.fn = fn; t.data = data; t.arrived = 0; t.gen = 0; t.turn = 0; t.seed = mix(cfg_seed + n_regions); t.serial = cfg_mode == 2 && n > 1; pthread_mutex_init(&t.m, 0); pthread_cond_init(&t.c, 0);
    for(int i = 0; i < n; i++) t.order.push_back(i);
    if(t.serial) { __atomic_add_fetch(&n_serial, 1, __ATOMIC_RELAXED); uint64_t r = t.seed; for(int i = n; i > 1; i--) { r = mix(r); std::swap(t.order[i - 1], t.order[r % i]); } }
    if(first) t.loops[0] = first;
    std::vector<pthread_t> th(n); std::vector<Start> st(n); std::vector<char> ok(n, 0);
    for(int i = 1; i < n; i++) { st[i] = {&t, i}; ok[i] = pthread_create(&th[i], 0, entry, &st[i]) == 0; if(!ok[i]) abort(); }
    body(&t, 0); for(int i = 1; i < n; i++) pthread_join(th[i], 0);
    for(auto& l : t.loops) { pthread_mutex_destroy(&l.second->m); delete l.second; } pthread_mutex_destroy(&t.m); pthread_cond_destroy(&t.c);
}
static Team soloTeam; static Self soloSelf; static Self* me() { if(self) return self; static __thread Self s; s.team = 0; s.id = 0; return &s; }
static void bar() { Self* s = self; if(!s || s->team->n == 1) return; Team* t = s->team; release(s); pthread_mutex_lock(&t->m); int g = t->gen; if(++t->arrived == t->n) { t->arrived = 0; t->gen++; pthread_cond_broadcast(&t->c); } else while(t->gen == g) pthread_cond_wait(&t->c, &t->m); pthread_mutex_unlock(&t->m); }
static Loop* mkloop(long a, long b, long inc, long chunk) { Loop* l = new Loop; l->next = a; l->end = b; l->incr = inc; l->chunk = chunk > 0 ? chunk : 1; l->set = true; pthread_mutex_init(&l->m, 0); return l; }
static __thread Loop* orphan = 0;
static bool nextc(Loop* l, long* s, long* e) { delay(self); pthread_mutex_lock(&l->m); bool has = l->incr > 0 ? l->next < l->end : l->next > l->end; if(has) { *s = l->next; long nx = l->next + l->chunk * l->incr; if(l->incr > 0 ? nx > l->end : nx < l->end) nx = l->end; *e = nx; l->next = nx; } pthread_mutex_unlock(&l->m); return has; }
static Loop* enter(long a, long b, long inc, long chunk) { Self* s = self; if(!s) { if(orphan) { pthread_mutex_destroy(&orphan->m); delete orphan; } orphan = mkloop(a, b, inc, chunk); return orphan; } Team* t = s->team; pthread_mutex_lock(&t->m); Loop*& l = t->loops[s->loopNo++ + 1]; if(!l) l = mkloop(a, b, inc, chunk); s->cur = l; pthread_mutex_unlock(&t->m); return l; }
static Loop* current() { Self* s = self; if(!s) return orphan; if(s->cur) return s->cur; Team* t = s->team; pthread_mutex_lock(&t->m); s->cur = t->loops[0]; pthread_mutex_unlock(&t->m); return s->cur; }
extern "C" {
void vt_config(int threads, int mode, uint64_t seed) { cfg_threads = threads; cfg_mode = mode; cfg_seed = seed; }
void vt_stats(long* a, long* b, long* c) { *a = n_regions; *b = n_criticals; *c = n_serial; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_team(fn, data, nt, 0); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) { run_team(fn, data, nt, 0); return nt; }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long a, long b, long inc, long chunk, unsigned) { run_team(fn, data, nt, mkloop(a, b, inc, chunk)); }
#define WLOOP(name) bool GOMP_loop_##name##_start(long a, long b, long inc, long chunk, long* s, long* e) { return nextc(enter(a, b, inc, chunk), s, e); } bool GOMP_loop_##name##_next(long* s, long* e) { return nextc(current(), s, e); }
#define ULOOP(name) bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long inc, unsigned long long chunk, unsigned long long* s, unsigned long long* e) { (void) up; return nextc(enter(a, b, inc, chunk), (long*) s, (long*) e); } bool GOMP_loop_ull_##name##_next(unsigned long long* s, unsigned long long* e) { return nextc(current(), (long*) s, (long*) e); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
WLOOP(dynamic) WLOOP(guided) WLOOP(static) WLOOP(nonmonotonic_dynamic) WLOOP(nonmonotonic_guided)
ULOOP(dynamic) ULOOP(guided) ULOOP(static) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
#define RLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned nt, long a, long b, long inc, unsigned) { run_team(fn, data, nt, mkloop(a, b, inc, 1)); } bool GOMP_loop_##name##_start(long a, long b, long inc, long* s, long* e) { return nextc(enter(a, b, inc, 1), s, e); } bool GOMP_loop_##name##_next(long* s, long* e) { return nextc(current(), s, e); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { bar(); if(self) self->cur = 0; } void GOMP_loop_end_nowait() { if(self) self->cur = 0; } 
void GOMP_barrier() { bar(); }
void GOMP_critical_start() { __atomic_add_fetch(&n_criticals, 1, __ATOMIC_RELAXED); delay(self); pthread_mutex_lock(&defaultLock); } void GOMP_critical_end() { pthread_mutex_unlock(&defaultLock); }
static std::map<void**, pthread_mutex_t*> named;
static pthread_mutex_t* namedLock(void** p) { pthread_mutex_lock(&tableLock); pthread_mutex_t*& m = named[p]; if(!m) { m = new pthread_mutex_t; pthread_mutex_init(m, 0); } pthread_mutex_t* r = m; pthread_mutex_unlock(&tableLock); return r; }
void GOMP_critical_name_start(void** p) { __atomic_add_fetch(&n_criticals, 1, __ATOMIC_RELAXED); delay(self); pthread_mutex_lock(namedLock(p)); } void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(namedLock(p)); }
void GOMP_atomic_start() { pthread_mutex_lock(&atomicLock); } void GOMP_atomic_end() { pthread_mutex_unlock(&atomicLock); }
bool GOMP_single_start() { Self* s = self; if(!s) return true; pthread_mutex_lock(&s->team->m); bool f = s->team->singles[s->singleNo++]++ == 0; pthread_mutex_unlock(&s->team->m); return f; }
static unsigned sections_next_() { long a, b; return nextc(current(), &a, &b) ? a : 0; }
unsigned GOMP_sections_start(unsigned n) { long a, b; return nextc(enter(1, (long) n + 1, 1, 1), &a, &b) ? a : 0; } unsigned GOMP_sections_next() { return sections_next_(); } void GOMP_sections_end() { bar(); if(self) self->cur = 0; } void GOMP_sections_end_nowait() { if(self) self->cur = 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned nt, unsigned n, unsigned) { run_team(fn, data, nt, mkloop(1, (long) n + 1, 1, 1)); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*) { if(cpy) { char* buf = (char*) malloc(size + align); char* p = (char*) (((uintptr_t) buf + align - 1) / align * align); cpy(p, data); fn(p); free(buf); } else fn(data); }
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_ordered_start() { pthread_mutex_lock(&atomicLock); } void GOMP_ordered_end() { pthread_mutex_unlock(&atomicLock); }
int omp_get_thread_num() { return self ? self->id : 0; } int omp_get_num_threads() { return self ? self->team->n : 1; } int omp_get_max_threads() { return icv_threads > 0 ? icv_threads : cfg_threads; }
void omp_set_num_threads(int n) { icv_threads = n; } int omp_get_num_procs() { return 8; } int omp_in_parallel() { return self && self->team->n > 1; } int omp_get_level() { return self ? 1 : 0; } int omp_get_active_level() { return omp_in_parallel(); }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; } int omp_get_thread_limit() { return 64; } void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; } void omp_set_schedule(int, int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick() { return 1e-9; }
struct omp_lk { pthread_mutex_t* m; };
void omp_init_lock(omp_lk* l) { l->m = new pthread_mutex_t; pthread_mutex_init(l->m, 0); } void omp_destroy_lock(omp_lk* l) { pthread_mutex_destroy(l->m); delete l->m; } void omp_set_lock(omp_lk* l) { pthread_mutex_lock(l->m); } void omp_unset_lock(omp_lk* l) { pthread_mutex_unlock(l->m); } int omp_test_lock(omp_lk* l) { return pthread_mutex_trylock(l->m) == 0; }
}
