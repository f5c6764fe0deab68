// An OpenMP runtime for race detection and schedule exploration: the few libgomp entry points the program uses, on pthreads.
// - every synchronisation it makes is one that OpenMP promises (fork, join, barrier, critical, atomic), so ThreadSanitizer sees exactly
//   the promised ordering; iterations are handed out without any shared state
// - which thread gets which iteration is a pure function of (PXR_SCHED, region, iteration); delays are injected before some of them
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include <unistd.h>
#define MAXT 64
typedef struct { void (*fn)(void *); void *data; int n; uint64_t id; int pre; long start, end, incr; int bcount; unsigned bgen; pthread_mutex_t bm; pthread_cond_t bc; } team_t;
static __thread team_t *T;
static __thread int tid;
static __thread unsigned nests;                      // nested regions opened by this thread in this region
static __thread unsigned loops;                      // work-sharing loops entered in this region
static __thread struct { long next, start, incr, count; uint64_t key; int on; } W;
static sem_t go[MAXT], fin[MAXT];
static pthread_t th[MAXT];
static team_t *assigned[MAXT];
static int started, nthr = -1, delays, nested;
static uint64_t seed, regions, inners, iters[MAXT];
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return x; }
static void report(void) {
    const char *d = getenv("PXR_OMP_REPORT");
    if (!d) return;
    char f[600]; snprintf(f, sizeof f, "%s/omp.%d", d, (int)getpid());
    FILE *o = fopen(f, "w"); if (!o) return;
    uint64_t s = 0, used = 0; for (int i = 0; i < MAXT; i++) { s += iters[i]; used += iters[i] > 0; }
    fprintf(o, "%llu %llu %llu %llu\n", (unsigned long long)regions, (unsigned long long)inners, (unsigned long long)s, (unsigned long long)used); fclose(o);
}
static void setup(void) {
    if (nthr >= 0) return;
    const char *e = getenv("OMP_NUM_THREADS"); nthr = e ? atoi(e) : 1; if (nthr < 1) nthr = 1; if (nthr > MAXT) nthr = MAXT;
    e = getenv("PXR_SCHED"); seed = e ? strtoull(e, 0, 10) : 1; e = getenv("PXR_DELAY"); delays = e ? atoi(e) : 0;
    atexit(report);
}
static void *worker(void *p) {
    int i = (int)(intptr_t)p;
    for (;;) {
        while (sem_wait(&go[i])) ;
        team_t *t = assigned[i];
        T = t; tid = i; loops = 0; nests = 0; W.on = 0;
        t->fn(t->data);
        T = 0;
        sem_post(&fin[i]);
    }
    return 0;
}
typedef struct { team_t *t; int i; } nest_t;
static void *nested_worker(void *p) {
    nest_t *a = p;
    T = a->t; tid = a->i; loops = 0; nests = 0; W.on = 0;
    T->fn(T->data);
    return 0;
}
static void region(void (*fn)(void *), void *data, unsigned n, int pre, long s, long e, long inc) {
    setup();
    team_t *old = T; int otid = tid; unsigned ol = loops; __typeof__(W) ow = W;
    int m = n ? (int)n : nthr, inner = old && old->n > 1;
    if (m > MAXT) m = MAXT;
    if (inner && (!nested || !n)) m = 1;              // nested regions run on the thread that meets them unless nesting is on
    team_t t; memset(&t, 0, sizeof t);
    t.fn = fn; t.data = data; t.n = m; t.pre = pre; t.start = s; t.end = e; t.incr = inc;
    t.id = old ? mix(mix(old->id + 77 + 1009 * (uint64_t)otid) + ++nests) : ++regions;
    pthread_mutex_init(&t.bm, 0); pthread_cond_init(&t.bc, 0);
    if (inner && m > 1) {                             // threads of their own
        pthread_t nt[MAXT]; nest_t na[MAXT];
        for (int i = 1; i < m; i++) { na[i].t = &t; na[i].i = i; if (pthread_create(&nt[i], 0, nested_worker, &na[i])) { perror("pthread_create"); _exit(99); } }
        __atomic_fetch_add(&inners, 1, __ATOMIC_RELAXED);
        T = &t; tid = 0; loops = 0; W.on = 0;
        fn(data);
        for (int i = 1; i < m; i++) pthread_join(nt[i], 0);
        T = old; tid = otid; loops = ol; W = ow;
        pthread_mutex_destroy(&t.bm); pthread_cond_destroy(&t.bc);
        return;
    }
    for (; !inner && started < m - 1; started++) {
        int i = started + 1; sem_init(&go[i], 0, 0); sem_init(&fin[i], 0, 0);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 64 << 20);
        if (pthread_create(&th[i], &a, worker, (void *)(intptr_t)i)) { perror("pthread_create"); _exit(99); }
    }
    for (int i = 1; i < m; i++) { assigned[i] = &t; sem_post(&go[i]); }
    T = &t; tid = 0; loops = 0; W.on = 0;
    fn(data);
    for (int i = 1; i < m; i++) while (sem_wait(&fin[i])) ;
    T = old; tid = otid; loops = ol; W = ow;
    pthread_mutex_destroy(&t.bm); pthread_cond_destroy(&t.bc);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { region(fn, data, n, 0, 0, 0, 0); }
void GOMP_barrier(void) {
    team_t *t = T; if (!t || t->n == 1) return;
    pthread_mutex_lock(&t->bm);
    unsigned g = t->bgen;
    if (++t->bcount == t->n) { t->bcount = 0; t->bgen++; pthread_cond_broadcast(&t->bc); }
    else while (g == t->bgen) pthread_cond_wait(&t->bc, &t->bm);
    pthread_mutex_unlock(&t->bm);
}
static int next(long *is, long *ie) {
    int n = T ? T->n : 1;
    for (; W.next < W.count; W.next++) {
        // seed 0: blocks as a static schedule makes them; otherwise any assignment, in ascending or descending order
        long k = (W.key & 1) && seed ? W.count - 1 - W.next : W.next;
        int who = seed == 0 ? (int)(k * n / W.count) : (int)(mix(W.key + 1000003ull * (uint64_t)k) % n);
        if (who != tid) continue;
        W.next++; __atomic_fetch_add(&iters[tid], 1, __ATOMIC_RELAXED);
        *is = W.start + k * W.incr; *ie = *is + W.incr;
        if (delays && n > 1) { uint64_t h = mix(W.key ^ (k * 7919 + tid)); if (h % 3 == 0) usleep(h >> 8 & 127); else if (h % 3 == 1) sched_yield(); }
        return 1;
    }
    return 0;
}
static int begin(long s, long e, long inc, long *is, long *ie) {
    W.on = 1; W.next = 0; W.start = s; W.incr = inc; W.count = inc > 0 ? (e > s ? (e - s + inc - 1) / inc : 0) : (s > e ? (s - e - inc - 1) / -inc : 0);
    W.key = mix(mix(seed * 911 + (T ? T->id : 0)) + ++loops);
    return next(is, ie);
}
static int resume(long *is, long *ie) {
    if (!W.on && T && T->pre) return begin(T->start, T->end, T->incr, is, ie);
    return next(is, ie);
}
#define ALIAS(kind) \
_Bool GOMP_loop_##kind##_start(long s, long e, long inc, long *is, long *ie) { return begin(s, e, inc, is, ie); } \
_Bool GOMP_loop_##kind##_next(long *is, long *ie) { return resume(is, ie); } \
void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned flags) { region(fn, data, n, 1, s, e, inc); }
ALIAS(maybe_nonmonotonic_runtime)
ALIAS(runtime)
ALIAS(nonmonotonic_runtime)
#define ALIASC(kind) \
_Bool GOMP_loop_##kind##_start(long s, long e, long inc, long c, long *is, long *ie) { return begin(s, e, inc, is, ie); } \
_Bool GOMP_loop_##kind##_next(long *is, long *ie) { return resume(is, ie); } \
void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long c, unsigned flags) { region(fn, data, n, 1, s, e, inc); }
ALIASC(dynamic)
ALIASC(nonmonotonic_dynamic)
ALIASC(guided)
ALIASC(nonmonotonic_guided)
void GOMP_loop_end_nowait(void) { W.on = 0; }
void GOMP_loop_end(void) { W.on = 0; GOMP_barrier(); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
static pthread_mutex_t *nm(void **p) {          // one mutex per name
    pthread_mutex_lock(&named);
    if (!*p) { *p = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*p, 0); }
    pthread_mutex_t *m = *p;
    pthread_mutex_unlock(&named);
    return m;
}
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(nm(p)); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t *)*p); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
_Bool GOMP_single_start(void) { return mix((T ? T->id : 0) + ++loops) % (T ? T->n : 1) == (uint64_t)tid; }
int omp_get_thread_num(void) { return T ? tid : 0; }
int omp_get_thread_num_(void) { return T ? tid : 0; }
int omp_get_num_threads(void) { return T ? T->n : 1; }
int omp_get_num_threads_(void) { return T ? T->n : 1; }
int omp_get_max_threads(void) { setup(); return nthr; }
int omp_get_max_threads_(void) { setup(); return nthr; }
void omp_set_num_threads(int n) { setup(); nthr = n < 1 ? 1 : n > MAXT ? MAXT : n; }
void omp_set_num_threads_(const int *n) { omp_set_num_threads(*n); }
int omp_in_parallel(void) { return T && T->n > 1; }
int omp_in_parallel_(void) { return omp_in_parallel(); }
void omp_set_nested(int n) { __atomic_store_n(&nested, n != 0, __ATOMIC_RELAXED); }
void omp_set_nested_(const int *n) { omp_set_nested(*n); }
void omp_set_dynamic(int n) {}
void omp_set_dynamic_(const int *n) {}
int omp_get_num_procs(void) { return 4; }
int omp_get_num_procs_(void) { return 4; }
