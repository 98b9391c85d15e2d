/* A small OpenMP runtime (the GOMP_* entry points gcc emits) on pthreads.
 *
 * Two uses:
 *  - under ThreadSanitizer: libgomp synchronises with futexes TSan cannot see; here fork, join,
 *    barrier and critical are visible to TSan, and nothing else is: this file is compiled without
 *    instrumentation and its own bookkeeping (handing out chunks, passing turns) uses raw futexes,
 *    so that it orders nothing in TSan's eyes and hides no race of the program;
 *  - schedule perturbation: VP_SCHED=<seed> makes the assignment of loop chunks to threads,
 *    the start order of the team and delays between chunks a function of a seed.
 *    VP_SCHED_MODE: 0 free running, 1 delays, 2 serialised (one member at a time, chosen at
 *    random at every chunk boundary), 3 starve (one member gets nearly all chunks).
 * VP_SCHED_LOG=<file>: appends "T regions chunks switches hash" and one line "R <address> <teams>" per
 * parallel region that was entered with several members, when the process ends.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdbool.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <limits.h>

/* locks invisible to TSan */
typedef struct { int v; } ilock_t;
static void fwait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void fwake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, INT_MAX, 0, 0, 0); }
static void il_lock(ilock_t *l)
{
    int c = 0;
    if (__atomic_compare_exchange_n(&l->v, &c, 1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) return;
    while (__atomic_exchange_n(&l->v, 2, __ATOMIC_ACQUIRE) != 0) fwait(&l->v, 2);
}
static void il_unlock(ilock_t *l)
{
    if (__atomic_exchange_n(&l->v, 0, __ATOMIC_RELEASE) == 2) syscall(SYS_futex, &l->v, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));

typedef unsigned long long ull;

typedef struct loop_s {
    struct loop_s *nextl;
    long id;              /* ordinal of the work-sharing construct */
    bool isull;
    long next, end, incr, chunk;
    ull unext, uend, uincr, uchunk;
    bool up;
    int done;
} loop_t;

typedef struct team_s {
    int n;
    ilock_t m;
    pthread_barrier_t bar;
    loop_t *loops;
    long single_taken;
    /* serial mode */
    int seq;              /* futex word, changes with every event threads wait for */
    int turn;
    int *alive;
    int starved;
    uint64_t rng;
    struct team_s *parent;
} team_t;

static __thread team_t *cur_team;
static __thread int cur_id;
static __thread long cur_ws;
static __thread loop_t *cur_loop;
static __thread long cur_single;
static __thread int level;

static int set_threads = 0;
static int sched_on, sched_mode;
static uint64_t sched_seed;
static pthread_once_t once = PTHREAD_ONCE_INIT;
static uint64_t n_regions, n_chunks, n_switch, sched_hash = 1469598103934665603ULL;
static ilock_t gm;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER;

static uint64_t rnd(uint64_t *s)
{
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

extern const char __executable_start;
#define NREG 256
static struct { uintptr_t fn; unsigned long n; } reg[NREG];
static void note_region(uintptr_t fn)
{   /* gm held */
    for (int i = 0; i < NREG; ++i) {
        if (reg[i].fn == fn) { ++reg[i].n; return; }
        if (reg[i].fn == 0) { reg[i].fn = fn; reg[i].n = 1; return; }
    }
}

static void at_end(void)
{
    const char *f = getenv("VP_SCHED_LOG");
    if (f) {
        int fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
        if (fd >= 0) {
            char b[160];
            int k = snprintf(b, sizeof b, "T %llu %llu %llu %016llx\n", (ull)n_regions, (ull)n_chunks, (ull)n_switch, (ull)sched_hash);
            if (write(fd, b, k) < 0) {}
            for (int i = 0; i < NREG && reg[i].fn; ++i) {
                k = snprintf(b, sizeof b, "R %llx %lu\n", (ull)(reg[i].fn - (uintptr_t)&__executable_start), reg[i].n);
                if (write(fd, b, k) < 0) {}
            }
            close(fd);
        }
    }
}

static void init(void)
{
    const char *s = getenv("VP_SCHED");
    if (s) { sched_on = 1; sched_seed = strtoull(s, 0, 10); }
    s = getenv("VP_SCHED_MODE");
    if (s) sched_mode = atoi(s);
    if (getenv("VP_SCHED_LOG")) atexit(at_end);
}

static void note(uint64_t a)
{   /* under the team's or the global mutex */
    sched_hash = (sched_hash ^ a) * 1099511628211ULL;
}

static void delay(uint64_t r)
{
    switch (r & 7) {
    case 0: case 1: case 2: break;
    case 3: case 4: sched_yield(); break;
    case 5: { for (volatile int i = 0; i < (int)((r >> 8) & 4095); ++i); break; }
    default: { struct timespec ts = {0, (long)((r >> 8) % 60000)}; nanosleep(&ts, 0); }
    }
}

static void event(team_t *t) { __atomic_fetch_add(&t->seq, 1, __ATOMIC_RELEASE); fwake(&t->seq); }
static void await(team_t *t)
{   /* with t->m held; returns with it held */
    int v = __atomic_load_n(&t->seq, __ATOMIC_ACQUIRE);
    il_unlock(&t->m);
    fwait(&t->seq, v);
    il_lock(&t->m);
}

/* serial mode: called at chunk boundaries with t->m held */
static void yield_turn(team_t *t, int leaving)
{
    int cand[512], k = 0;
    if (leaving) t->alive[cur_id] = 0;
    for (int i = 0; i < t->n; ++i) if (t->alive[i] == 1) cand[k++] = i;
    if (k == 0) { t->turn = -1; event(t); return; }
    int nx = cand[rnd(&t->rng) % k];
    if (nx != t->turn) ++n_switch;
    t->turn = nx;
    event(t);
    if (!leaving) while (t->turn != cur_id) await(t);
}

struct arg { void (*fn)(void *); void *data; team_t *t; int id; int lvl; uint64_t r; };

static void run_member(struct arg *a)
{
    team_t *ot = cur_team; int oi = cur_id; long ow = cur_ws; loop_t *ol = cur_loop; long os = cur_single; int olv = level;
    cur_team = a->t; cur_id = a->id; cur_ws = 0; cur_loop = 0; cur_single = 0; level = a->lvl;
    if (sched_on && a->t->n > 1) {
        if (sched_mode == 2) {
            il_lock(&a->t->m);
            while (a->t->turn != a->id) await(a->t);
            il_unlock(&a->t->m);
        } else if (sched_mode) delay(a->r);
    }
    a->fn(a->data);
    if (sched_on && sched_mode == 2 && a->t->n > 1) {
        il_lock(&a->t->m);
        yield_turn(a->t, 1);
        il_unlock(&a->t->m);
    }
    cur_team = ot; cur_id = oi; cur_ws = ow; cur_loop = ol; cur_single = os; level = olv;
}

static void *member(void *p) { run_member(p); return 0; }

static int resolve(unsigned n)
{
    pthread_once(&once, init);
    if (level > 0) return 1;
    if (n == 0) n = set_threads ? set_threads : 1;
    if (n > 256) n = 256;
    return (int)n;
}

static void team_run(void (*fn)(void *), void *data, unsigned num, loop_t *preset)
{
    int n = resolve(num);
    team_t t;
    memset(&t, 0, sizeof t);
    t.n = n;
    pthread_barrier_init(&t.bar, 0, n);
    t.alive = malloc(n * sizeof(int));
    for (int i = 0; i < n; ++i) t.alive[i] = 1;
    il_lock(&gm);
    ++n_regions;
    if (n > 1) note_region((uintptr_t)fn);
    t.rng = sched_seed * 7919 + n_regions;
    il_unlock(&gm);
    t.turn = rnd(&t.rng) % n;
    t.starved = rnd(&t.rng) % n;
    if (preset) { preset->id = 1; preset->nextl = 0; t.loops = preset; }
    struct arg *a = malloc(n * sizeof *a);
    pthread_t *th = malloc(n * sizeof *th);
    int *ord = malloc(n * sizeof *ord);
    for (int i = 0; i < n; ++i) {
        a[i] = (struct arg){fn, data, &t, i, level + (n > 1), rnd(&t.rng)};
        ord[i] = i;
    }
    if (sched_on)
        for (int i = n - 1; i > 1; --i) { int j = 1 + rnd(&t.rng) % i; int x = ord[i]; ord[i] = ord[j]; ord[j] = x; }
    for (int k = 1; k < n; ++k)
        if (pthread_create(&th[ord[k]], 0, member, &a[ord[k]])) { perror("pthread_create"); abort(); }
    run_member(&a[0]);
    for (int k = 1; k < n; ++k) pthread_join(th[k], 0);
    for (loop_t *l = t.loops; l; ) { loop_t *x = l->nextl; if (l != preset) free(l); l = x; }
    free(a); free(th); free(ord); free(t.alive);
    pthread_barrier_destroy(&t.bar);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned flags)
{
    (void)flags;
    team_run(fn, data, num, 0);
}

void GOMP_barrier(void)
{
    team_t *t = cur_team;
    if (!t || t->n == 1) return;
    if (sched_on && sched_mode == 2) {
        /* leave the turn while waiting; resume when everybody arrived */
        if (__tsan_release) __tsan_release(&t->bar);
        il_lock(&t->m);
        t->alive[cur_id] = 2;
        int run = 0;
        for (int i = 0; i < t->n; ++i) if (t->alive[i] == 1) run = 1;
        if (!run) {
            for (int i = 0; i < t->n; ++i) if (t->alive[i] == 2) t->alive[i] = 1;
            yield_turn(t, 0);
        } else {
            int cand[512], k = 0;
            for (int i = 0; i < t->n; ++i) if (t->alive[i] == 1) cand[k++] = i;
            t->turn = cand[rnd(&t->rng) % k];
            ++n_switch;
            event(t);
            while (!(t->turn == cur_id && t->alive[cur_id] == 1)) await(t);
        }
        il_unlock(&t->m);
        if (__tsan_acquire) __tsan_acquire(&t->bar);
        return;
    }
    pthread_barrier_wait(&t->bar);
}

void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }

static team_t solo_team(void) { team_t t; memset(&t, 0, sizeof t); t.n = 1; return t; }
static __thread team_t *solo;
static team_t *team(void)
{
    if (cur_team) return cur_team;
    if (!solo) { solo = calloc(1, sizeof *solo); *solo = solo_team(); solo->alive = calloc(1, sizeof(int)); solo->alive[0] = 1; }
    return solo;
}

static loop_t *get_loop(team_t *t, const loop_t *proto)
{   /* t->m held */
    long id = ++cur_ws;
    for (loop_t *l = t->loops; l; l = l->nextl) if (l->id == id) return cur_loop = l;
    loop_t *l = malloc(sizeof *l);
    *l = *proto;
    l->id = id; l->nextl = t->loops; t->loops = l;
    return cur_loop = l;
}

static bool take(team_t *t, loop_t *l, long *s, long *e, ull *us, ull *ue)
{
    bool ok = true;
    uint64_t r = 0;
    il_lock(&t->m);
    if (sched_on && t->n > 1) {
        if (sched_mode == 2) yield_turn(t, 0);
        r = rnd(&t->rng);
    }
    if (l->isull) {
        if (l->up ? l->unext >= l->uend : l->unext <= l->uend) ok = false;
        else {
            ull step = l->uincr * l->uchunk, left = l->up ? l->uend - l->unext : l->unext - l->uend;
            ull mag = l->up ? step : (ull)0 - step;
            *us = l->unext;
            if (mag >= left) l->unext = l->uend; else l->unext += step;
            *ue = l->unext;
        }
    } else {
        if (l->incr > 0 ? l->next >= l->end : l->next <= l->end) ok = false;
        else {
            long step = l->incr * l->chunk, left = l->end - l->next;
            *s = l->next;
            if ((l->incr > 0 && step >= left) || (l->incr < 0 && step <= left)) l->next = l->end; else l->next += step;
            *e = l->next;
        }
    }
    if (ok) { __atomic_fetch_add(&n_chunks, 1, __ATOMIC_RELAXED); if (t->n > 1 && sched_on) note(((uint64_t)cur_id << 48) ^ (uint64_t)(l->isull ? *us : (ull)*s)); }
    il_unlock(&t->m);
    if (ok && sched_on && t->n > 1) {
        if (sched_mode == 1) delay(r);
        else if (sched_mode == 3 && cur_id == t->starved) { struct timespec ts = {0, 300000}; nanosleep(&ts, 0); }
    }
    return ok;
}

static bool lstart(long start, long end, long incr, long chunk, long *s, long *e)
{
    team_t *t = team();
    loop_t p; memset(&p, 0, sizeof p);
    p.next = start; p.end = end; p.incr = incr; p.chunk = chunk > 0 ? chunk : 1;
    if ((incr > 0 && start > end) || (incr < 0 && start < end)) p.end = start;
    il_lock(&t->m);
    loop_t *l = get_loop(t, &p);
    il_unlock(&t->m);
    return take(t, l, s, e, 0, 0);
}
static bool lnext(long *s, long *e) { return take(team(), cur_loop, s, e, 0, 0); }
static bool ustart(bool up, ull start, ull end, ull incr, ull chunk, ull *s, ull *e)
{
    team_t *t = team();
    loop_t p; memset(&p, 0, sizeof p);
    p.isull = true; p.up = up;
    p.unext = start; p.uend = end; p.uincr = incr; p.uchunk = chunk > 0 ? chunk : 1;
    if ((up && start > end) || (!up && start < end)) p.uend = start;
    il_lock(&t->m);
    loop_t *l = get_loop(t, &p);
    il_unlock(&t->m);
    return take(t, l, 0, 0, s, e);
}
static bool unext(ull *s, ull *e) { return take(team(), cur_loop, 0, 0, s, e); }

#define LOOP(name) \
bool GOMP_loop_##name##_start(long a, long b, long c, long d, long *s, long *e) { return lstart(a, b, c, d, s, e); } \
bool GOMP_loop_##name##_next(long *s, long *e) { return lnext(s, e); } \
bool GOMP_loop_ull_##name##_start(bool up, ull a, ull b, ull c, ull d, ull *s, ull *e) { return ustart(up, a, b, c, d, s, e); } \
bool GOMP_loop_ull_##name##_next(ull *s, ull *e) { return unext(s, e); } \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d, unsigned fl) \
{ loop_t p; memset(&p, 0, sizeof p); p.next = a; p.end = b; p.incr = c; p.chunk = d > 0 ? d : 1; \
  if ((c > 0 && a > b) || (c < 0 && a < b)) p.end = a; \
  team_run(fn, data, n, &p); }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)
LOOP(ordered_static)
LOOP(ordered_dynamic)
LOOP(ordered_guided)
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long a, long b, long c, long *s, long *e) { return lstart(a, b, c, 1, s, e); } \
bool GOMP_loop_##name##_next(long *s, long *e) { return lnext(s, e); } \
bool GOMP_loop_ull_##name##_start(bool up, ull a, ull b, ull c, ull *s, ull *e) { return ustart(up, a, b, c, 1, s, e); } \
bool GOMP_loop_ull_##name##_next(ull *s, ull *e) { return unext(s, e); } \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned fl) \
{ loop_t p; memset(&p, 0, sizeof p); p.next = a; p.end = b; p.incr = c; p.chunk = 1; \
  if ((c > 0 && a > b) || (c < 0 && a < b)) p.end = a; \
  team_run(fn, data, n, &p); }
LOOPR(runtime)
LOOPR(maybe_nonmonotonic_runtime)
LOOPR(nonmonotonic_runtime)

void GOMP_loop_end(void) { cur_loop = 0; GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { cur_loop = 0; }

bool GOMP_single_start(void)
{
    team_t *t = team();
    bool mine = false;
    long id = ++cur_single;
    il_lock(&t->m);
    if (t->single_taken < id) { t->single_taken = id; mine = true; }
    il_unlock(&t->m);
    return mine;
}

unsigned GOMP_sections_start(unsigned count)
{
    long s, e;
    return lstart(1, (long)count + 1, 1, 1, &s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_next(void) { long s, e; return lnext(&s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned fl)
{ loop_t p; memset(&p, 0, sizeof p); p.next = 1; p.end = (long)count + 1; p.incr = 1; p.chunk = 1; team_run(fn, data, n, &p); }

/* tasks are executed at once by the thread that creates them */
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, bool ifc, unsigned fl, void **dep, int pri, void *det)
{
    if (cpyfn) {
        char *b = malloc(sz + al);
        char *p = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1));
        cpyfn(p, data); fn(p); free(b);
    } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_num_threads(void) { return cur_team ? cur_team->n : 1; }
int omp_get_thread_num(void) { return cur_team ? cur_id : 0; }
int omp_get_max_threads(void) { return level > 0 ? 1 : (set_threads ? set_threads : 1); }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return cur_team && cur_team->n > 1; }
void omp_set_num_threads(int n) { set_threads = n > 0 ? n : 1; }
void omp_set_dynamic(int n) { (void)n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int n) { (void)n; }
int omp_get_thread_limit(void) { return 256; }
int omp_get_level(void) { return level; }
int omp_get_active_level(void) { return level; }
double omp_get_wtime(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }
typedef struct { pthread_mutex_t *m; } shim_lock_t;
void omp_init_lock(void **l) { pthread_mutex_t *m = malloc(sizeof *m); pthread_mutex_init(m, 0); *l = m; }
void omp_destroy_lock(void **l) { pthread_mutex_destroy(*l); free(*l); }
void omp_set_lock(void **l) { pthread_mutex_lock(*l); }
void omp_unset_lock(void **l) { pthread_mutex_unlock(*l); }
int omp_test_lock(void **l) { return pthread_mutex_trylock(*l) == 0; }
