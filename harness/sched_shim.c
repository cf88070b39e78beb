/* Owns the schedule of worker threads.
 * seed < INTERLEAVE: pthread_create records the thread body and the bodies are run one at a time, each to
 * completion on a thread of its own, in a permutation derived from the seed, when the first pthread_join arrives.
 * seed >= INTERLEAVE: all bodies run on threads of their own, but only the one holding the baton executes; at
 * every call of nextToken, strcmp, malloc, realloc, free or a mutex lock the seeded generator
 * decides whether, and to whom, the baton goes.  Either way one seed is one schedule.
 * seed & REFUSE: some or all requests for a thread are refused (EAGAIN); seed & FREE_RUN: the threads themselves run free.
 * Off (or seed 0): the calls go straight to the real functions. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "lexing.h"
#include "sched_shim.h"
#define MAXT 4096
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_lock(pthread_mutex_t *);
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
static int on; static uint64_t rng; static int refuse, scheduled; static uint64_t rrng;
static struct { void *(*fn)(void *); void *arg; void *ret; int done, over; pthread_t t; pthread_cond_t cv; } P[MAXT];
static int np;
static volatile int active; static int baton, odds; static unsigned long switches;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t mcv = PTHREAD_COND_INITIALIZER;
static __thread int self = -1;
void sched_shim_on(unsigned seed) {
    static const int O[] = {2, 3, 6, 12, 40, 200};
    refuse = seed & REFUSE ? 1 + seed % 4 : 0; scheduled = !(seed & FREE_RUN); rrng = seed | 1; seed &= REFUSE - 1;
    on = seed >= INTERLEAVE ? 2 : 1; np = 0; rng = seed * 0x9E3779B97F4A7C15ull + 1; switches = 0; odds = O[seed % 6];
}
void sched_shim_off(void) { on = 0; np = 0; refuse = 0; }
unsigned long sched_shim_switches(void) { return switches; }
static uint64_t nxt(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull >> 20; }

static int choose(int except) {           /* a body that is not over yet, -1 if there is none */
    int n = 0;
    for (int i = 0; i < np; i++) if (!P[i].over && i != except) n++;
    if (!n) return -1;
    int k = nxt() % n;
    for (int i = 0; i < np; i++) if (!P[i].over && i != except && k-- == 0) return i;
    return -1;
}
static void hand(int to) { baton = to; pthread_cond_signal(to < 0 ? &mcv : &P[to].cv); }
static void give_up(int force) {
    if (!force && nxt() % odds) return;
    int to = choose(self);
    if (to < 0) return;
    __real_pthread_mutex_lock(&mx);
    switches++;
    hand(to);
    while (baton != self) pthread_cond_wait(&P[self].cv, &mx);
    pthread_mutex_unlock(&mx);
}
#define POINT() do { if (active && self >= 0) give_up(0); } while (0)
static void *body(void *a) {
    int k = (int)(intptr_t)a;
    __real_pthread_mutex_lock(&mx);
    while (baton != k) pthread_cond_wait(&P[k].cv, &mx);
    pthread_mutex_unlock(&mx);
    self = k;
    P[k].ret = P[k].fn(P[k].arg);
    self = -1;
    __real_pthread_mutex_lock(&mx);
    P[k].over = 1;
    hand(choose(-1));
    pthread_mutex_unlock(&mx);
    return NULL;
}
static void run_interleaved(void) {
    int first = -1;
    for (int i = 0; i < np; i++) if (!P[i].done) { P[i].over = 0; pthread_cond_init(&P[i].cv, 0); } else P[i].over = 1;
    baton = -2;
    for (int i = 0; i < np; i++) if (!P[i].done && __real_pthread_create(&P[i].t, 0, body, (void *)(intptr_t)i)) abort();
    __real_pthread_mutex_lock(&mx);
    active = 1; first = choose(-1); hand(first);
    while (baton != -1) pthread_cond_wait(&mcv, &mx);
    active = 0;
    pthread_mutex_unlock(&mx);
    for (int i = 0; i < np; i++) if (!P[i].done) { __real_pthread_join(P[i].t, 0); P[i].done = 1; pthread_cond_destroy(&P[i].cv); }
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (on && refuse && self < 0) {      /* the system has no thread left: of 4 requests 1, 2, 3 or all are refused */
        rrng = rrng * 6364136223846793005ull + 1442695040888963407ull;
        if ((int)(rrng >> 60) % 4 < refuse) return 11;      /* EAGAIN */
    }
    if (!on || !scheduled || self >= 0 || np >= MAXT) return __real_pthread_create(t, a, fn, arg);
    P[np].fn = fn; P[np].arg = arg; P[np].done = 0;
    *t = (pthread_t)(uintptr_t)(np + 1); np++;
    return 0;
}
static void run_all(void) {
    static int order[MAXT]; int n = 0;
    if (on == 2) { run_interleaved(); return; }
    for (int i = 0; i < np; i++) if (!P[i].done) order[n++] = i;
    for (int i = n - 1; i > 0; i--) { int j = nxt() % (i + 1); int x = order[i]; order[i] = order[j]; order[j] = x; }
    for (int i = 0; i < n; i++) {
        pthread_t t; int k = order[i];
        P[k].done = 1;
        if (__real_pthread_create(&t, 0, P[k].fn, P[k].arg)) abort();
        __real_pthread_join(t, &P[k].ret);
    }
}
int __wrap_pthread_join(pthread_t t, void **r) {
    uintptr_t k = (uintptr_t)t;
    if (!on || k == 0 || k > (uintptr_t)np) return __real_pthread_join(t, r);
    if (!P[k - 1].done) run_all();
    if (r) *r = P[k - 1].ret;
    return 0;
}
/* a worker that waits for a lock lets the others go on */
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active || self < 0) return __real_pthread_mutex_lock(m);
    give_up(0);
    while (pthread_mutex_trylock(m)) give_up(1);
    return 0;
}
/* preemption points */
Token __real_nextToken(Lexer *); 
Token __wrap_nextToken(Lexer *l) { POINT(); Token t = __real_nextToken(l); POINT(); return t; }
void *__wrap_malloc(size_t n) { POINT(); return __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { POINT(); return __real_realloc(p, n); }
int __real_strcmp(const char *, const char *);
int __wrap_strcmp(const char *a, const char *b) { POINT(); return __real_strcmp(a, b); }
void __wrap_free(void *p) { POINT(); __real_free(p); }
