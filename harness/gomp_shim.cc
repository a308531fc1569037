// A replacement for libgomp used by the schedule and race monitors: it implements the entry points gcc
// emits for OpenMP on top of plain pthreads, so that
//  * ThreadSanitizer sees every synchronisation there is, and none that there is not (work sharing uses
//    relaxed atomics only, which order nothing);
//  * every parallel region starts fresh threads (no state left over from an earlier region);
//  * the schedule is perturbed by a seeded stream of delays at iteration fetches and critical sections;
//  * the assignment of iterations to threads and the order of critical sections are recorded.
// Environment: SHIM_SEED, SHIM_MODE (0 none, 1 random delays, 2 heavy, 3 one slow thread), SHIM_LIMIT.
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <time.h>
#include <atomic>
#include <set>
#include <vector>
#define WS 16384
#define LOG 65536
typedef unsigned long long ull;
struct WorkShare { std::atomic<long> next; };
struct Team {
    int n; uint64_t serial;
    WorkShare *ws; pthread_barrier_t bar;
    std::atomic<unsigned> logn; std::atomic<uint16_t> *log;
    void *copy;
};
struct Me { Team *t; int id; long wsi; uint64_t rng; long cur_next, cur_end, cur_incr, cur_chunk; long nc; WorkShare *w; unsigned sections; int tasklevel; };
static thread_local Me me;
static thread_local bool inited = false;
static int g_threads = 0;
static uint64_t g_serial = 0; static long g_seed = -1; static int g_mode = -1;
static pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER, g_atomic = PTHREAD_MUTEX_INITIALIZER, g_named = PTHREAD_MUTEX_INITIALIZER;
// statistics, touched by the master between regions only
static uint64_t st_regions = 0, st_iters = 0, st_crit = 0, st_maxteam = 0, st_multi = 0; static std::set<uint64_t> *st_sigs;
static uint64_t mix(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static void config() { if(g_seed < 0) { const char *s = getenv("SHIM_SEED"), *m = getenv("SHIM_MODE"); g_seed = s ? atol(s) & 0x7fffffff : 1; g_mode = m ? atoi(m) : 1; } }
static uint64_t rnd() { me.rng = mix(me.rng); return me.rng; }
static void note(uint16_t x) { if(!me.t) return; unsigned k = me.t->logn.fetch_add(1, std::memory_order_relaxed); if(k < LOG) me.t->log[k].store(x, std::memory_order_relaxed); }
static void nap(long us) { struct timespec ts = { us / 1000000, (us % 1000000) * 1000 }; nanosleep(&ts, 0); }
static void delay(int where) {
    if(!me.t || me.t->n < 2 || g_mode == 0) return;
    uint64_t r = rnd();
    if(g_mode == 3) { if(me.id == (int)(me.t->serial % me.t->n)) nap(300 + r % 500); return; }
    if(g_mode == 2) { if(r % 3 == 0) nap(r / 16 % 400); else if(r % 3 == 1) sched_yield(); return; }
    if(r % 16 == 0) nap(r / 16 % 200); else if(r % 4 == 1) sched_yield(); else if(r % 4 == 2) for(volatile int i = 0; i < (int)(r / 64 % 3000); i = i + 1) ;
}
struct Arg { void (*fn)(void *); void *data; Team *t; int id; };
static void enter(Team *t, int id) { memset(&me, 0, sizeof me); me.t = t; me.id = id; me.rng = mix(mix(g_seed * 1000003 + t->serial) + id); }
static void *thread_main(void *p) { Arg a = *(Arg *)p; enter(a.t, a.id); delay(0); a.fn(a.data); return 0; }
extern "C" {
// as in libgomp, the value inside a region is still the number a new region would ask for
int omp_get_max_threads() { if(g_threads <= 0) { const char *s = getenv("OMP_NUM_THREADS"); g_threads = s ? atoi(s) : (int)sysconf(_SC_NPROCESSORS_ONLN); if(g_threads < 1) g_threads = 1; } return g_threads; }
void omp_set_num_threads(int n) { if(n > 0) g_threads = n; }
int omp_get_num_threads() { return me.t ? me.t->n : 1; }
int omp_get_thread_num() { return me.t ? me.id : 0; }
int omp_in_parallel() { return me.t && me.t->n > 1; }
int omp_get_num_procs() { return (int)sysconf(_SC_NPROCESSORS_ONLN); }
int omp_get_level() { return me.t ? 1 : 0; } int omp_get_active_level() { return omp_in_parallel(); } int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_thread_limit() { return 1024; } int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_nested() { return 0; } void omp_set_nested(int) {} int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {} void omp_set_schedule(int, int) {} void omp_get_schedule(int *a, int *b) { *a = 2; *b = 1; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick() { return 1e-9; }


void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
    config();
    if(me.t) { Me save = me; Team t; memset((void *)&t, 0, sizeof t); t.n = 1; t.serial = save.t->serial; t.ws = (WorkShare *)calloc(WS, sizeof(WorkShare)); t.log = 0; t.logn.store(LOG); pthread_barrier_init(&t.bar, 0, 1);
        enter(&t, 0); fn(data); pthread_barrier_destroy(&t.bar); free(t.ws); me = save; return; }
    Team t; t.n = nt ? (int)nt : omp_get_max_threads(); t.serial = ++g_serial; t.copy = 0;
    t.ws = (WorkShare *)calloc(WS, sizeof(WorkShare)); t.log = (std::atomic<uint16_t> *)calloc(LOG, sizeof(std::atomic<uint16_t>)); t.logn.store(0);
    pthread_barrier_init(&t.bar, 0, t.n);
    std::vector<pthread_t> th(t.n); std::vector<Arg> a(t.n);
    for(int i = 1; i < t.n; i++) { a[i] = { fn, data, &t, i }; if(pthread_create(&th[i], 0, thread_main, &a[i])) { fprintf(stderr, "SHIM: pthread_create failed\n"); _exit(96); } }
    enter(&t, 0); delay(0); fn(data);
    for(int i = 1; i < t.n; i++) pthread_join(th[i], 0);
    memset(&me, 0, sizeof me);
    unsigned k = t.logn.load(); if(k > LOG) k = LOG; uint64_t h = mix(t.n); std::set<int> who;
    for(unsigned i = 0; i < k; i++) { uint16_t x = t.log[i].load(); h = mix(h ^ x); if(x & 0x8000) st_crit++; else { st_iters++; who.insert(x >> 8 & 0x7f); } }
    if(!st_sigs) st_sigs = new std::set<uint64_t>; if(st_sigs->size() < 1000000) st_sigs->insert(h);
    st_regions++; if(who.size() > 1) st_multi++; if((uint64_t)t.n > st_maxteam) st_maxteam = t.n;
    pthread_barrier_destroy(&t.bar); free(t.ws); free((void *)t.log);
}
// report since the last call: regions, regions whose iterations ran on several threads, iterations, critical entries, largest team, distinct schedules
void shim_report(char *buf, size_t n) {
    snprintf(buf, n, "%llu %llu %llu %llu %llu %zu", (ull)st_regions, (ull)st_multi, (ull)st_iters, (ull)st_crit, (ull)st_maxteam, st_sigs ? st_sigs->size() : 0);
    st_regions = st_multi = st_iters = st_crit = st_maxteam = 0; if(st_sigs) st_sigs->clear();
}
static WorkShare *share() { if(!me.t) return 0; if(me.wsi >= WS) { fprintf(stderr, "SHIM: too many work sharing constructs\n"); _exit(96); } return &me.t->ws[me.wsi++]; }
static bool next_chunk(long *is, long *ie) {
    delay(1);
    if(!me.t) { if(me.cur_next >= me.nc) return false; long k = me.cur_next; me.cur_next = me.nc; *is = me.cur_end - me.nc * me.cur_incr; (void)k; *ie = me.cur_end; return true; }
    long k = me.w->next.fetch_add(me.cur_chunk, std::memory_order_relaxed);
    if(k >= me.nc) return false;
    long e = k + me.cur_chunk; if(e > me.nc) e = me.nc;
    *is = me.cur_end + k * me.cur_incr; *ie = me.cur_end + e * me.cur_incr;
    note((uint16_t)((me.id & 0x7f) << 8 | (k & 0xff)));
    return true;
}
static bool loop_start(long s, long e, long incr, long chunk, long *is, long *ie) {
    me.cur_incr = incr; me.cur_chunk = chunk > 0 ? chunk : 1; me.nc = incr > 0 ? (e > s ? (e - s + incr - 1) / incr : 0) : (e < s ? (s - e - incr - 1) / -incr : 0);
    if(!me.t) { if(me.nc <= 0) return false; me.nc = 0; *is = s; *ie = e; return true; }
    me.cur_end = s; me.w = share(); return next_chunk(is, ie);
}
static bool loop_next(long *is, long *ie) { if(!me.t) return false; return next_chunk(is, ie); }
#define LOOPS(K) bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *is, long *ie) { return loop_start(s, e, i, c, is, ie); } bool GOMP_loop_##K##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOPS(dynamic) LOOPS(nonmonotonic_dynamic) LOOPS(guided) LOOPS(nonmonotonic_guided) LOOPS(static)
#define LOOPR(K) bool GOMP_loop_##K##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, 1, is, ie); } bool GOMP_loop_##K##_next(long *is, long *ie) { return loop_next(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define LOOPU(K) bool GOMP_loop_ull_##K##_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) { (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, (long *)is, (long *)ie); } bool GOMP_loop_ull_##K##_next(ull *is, ull *ie) { return loop_next((long *)is, (long *)ie); }
LOOPU(dynamic) LOOPU(nonmonotonic_dynamic) LOOPU(guided) LOOPU(nonmonotonic_guided) LOOPU(static)
static void bar() { if(me.t && me.t->n > 1) { delay(2); pthread_barrier_wait(&me.t->bar); } }
void GOMP_loop_end() { bar(); } void GOMP_loop_end_nowait() {} bool GOMP_loop_end_cancel() { bar(); return false; }
void GOMP_barrier() { bar(); } bool GOMP_barrier_cancel() { bar(); return false; }
// combined parallel loops: the region's threads fetch with _next only
struct PL { void (*fn)(void *); void *data; long s, e, i, c; };
static void pl_body(void *p) { PL *q = (PL *)p; me.cur_incr = q->i; me.cur_chunk = q->c > 0 ? q->c : 1; me.cur_end = q->s; me.nc = q->i > 0 ? (q->e > q->s ? (q->e - q->s + q->i - 1) / q->i : 0) : (q->e < q->s ? (q->s - q->e - q->i - 1) / -q->i : 0); me.w = share(); q->fn(q->data); }
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, long c, unsigned fl) { PL q = { fn, data, s, e, i, c }; GOMP_parallel(pl_body, &q, nt, fl); }
PLOOP(dynamic) PLOOP(nonmonotonic_dynamic) PLOOP(guided) PLOOP(nonmonotonic_guided) PLOOP(static)
#define PLOOPR(K) void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned nt, long s, long e, long i, unsigned fl) { PL q = { fn, data, s, e, i, 1 }; GOMP_parallel(pl_body, &q, nt, fl); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
void GOMP_critical_start() { delay(3); pthread_mutex_lock(&g_crit); note((uint16_t)(0x8000 | (me.id & 0x7f))); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_crit); delay(4); }
void GOMP_critical_name_start(void **p) { delay(3); pthread_mutex_lock(&g_named); if(!*p) { pthread_mutex_t *m = new pthread_mutex_t; pthread_mutex_init(m, 0); *p = m; } pthread_mutex_t *m = (pthread_mutex_t *)*p; pthread_mutex_unlock(&g_named); pthread_mutex_lock(m); note((uint16_t)(0x8000 | (me.id & 0x7f))); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); delay(4); }
void GOMP_atomic_start() { pthread_mutex_lock(&g_atomic); } void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start() { if(!me.t) return true; delay(1); return share()->next.fetch_add(1, std::memory_order_relaxed) == 0; }
void *GOMP_single_copy_start() { if(GOMP_single_start()) return 0; bar(); void *r = me.t->copy; bar(); return r; }
void GOMP_single_copy_end(void *d) { if(!me.t) return; me.t->copy = d; bar(); bar(); }
static unsigned sec_next() { if(!me.t) { return me.nc < (long)me.sections ? (unsigned)++me.nc : 0; } delay(1); long k = me.w->next.fetch_add(1, std::memory_order_relaxed); return k < (long)me.sections ? (unsigned)k + 1 : 0; }
unsigned GOMP_sections_start(unsigned n) { me.sections = n; me.nc = 0; me.w = share(); return sec_next(); }
unsigned GOMP_sections_next() { return sec_next(); } void GOMP_sections_end() { bar(); } void GOMP_sections_end_nowait() {}
struct PS { void (*fn)(void *); void *data; unsigned n; };
static void ps_body(void *p) { PS *q = (PS *)p; me.sections = q->n; me.w = share(); q->fn(q->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned c, unsigned fl) { PS q = { fn, data, c }; GOMP_parallel(ps_body, &q, nt, fl); }
// tasks run at once in the encountering thread, which is a legal schedule
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if(cpy) { char *b = (char *)malloc(size + align); char *a = (char *)(((uintptr_t)b + align - 1) & ~(uintptr_t)(align - 1)); cpy(a, data); fn(a); free(b); } else fn(data); }
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
}
