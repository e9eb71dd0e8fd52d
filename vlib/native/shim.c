/* A small OpenMP runtime for libgomp's ABI with a controllable scheduler.
 *
 * Modes
 *   FREE    every thread of a region is a fresh pthread, no other ordering
 *           than creation and join (what ThreadSanitizer wants to see);
 *   DELAY   the same, with random pauses before each share and at each call;
 *   ORDER   one thread at a time, each runs until it blocks or ends, in a
 *           chosen permutation;
 *   SWITCH  one thread at a time, control moves at random at each call into
 *           the runtime.
 * Only what GCC emits for loops, regions, critical sections, atomics,
 * barriers and single blocks is here; the harness checks that the kernels
 * need nothing else before using it.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

enum { FREE, DELAY, ORDER, SWITCH };
enum { RUN, WAIT, DONE };

static int cfg_threads = 4, cfg_mode = FREE;
static unsigned cfg_seed = 1;
static long n_regions, n_threads, n_barriers, n_switches, n_multi;

void shim_config(int threads, int mode, unsigned seed)
{
    cfg_threads = threads < 1 ? 1 : threads > 64 ? 64 : threads;
    cfg_mode = mode;
    cfg_seed = seed;
}

void shim_stats(long *out)
{
    out[0] = n_regions; out[1] = n_threads; out[2] = n_barriers;
    out[3] = n_switches; out[4] = n_multi;
}

struct share {                  /* one work-sharing construct */
    bool set;
    long next, end, incr, chunk;
    bool guided;
    int left;
};

struct team {
    int n, mode;
    unsigned rng;
    pthread_mutex_t lock;
    pthread_cond_t cond;
    int arrived, epoch;         /* barrier */
    int current, state[64], order[64];
    struct share share[512];
    bool single[512];
    bool crit;
};

struct me { struct team *team; int id, loops, singles; };
static __thread struct me me;

/* relaxed: must not order the threads for ThreadSanitizer */
static long add(long *p, long k)
{
    return __atomic_fetch_add(p, k, __ATOMIC_RELAXED);
}

static unsigned rnd(unsigned *s)
{
    *s ^= *s << 13; *s ^= *s >> 17; *s ^= *s << 5;
    return *s;
}

static bool token(struct team *t) { return t->mode >= ORDER; }

/* lock held: give control to the next runnable thread */
static void pick(struct team *t, bool random)
{
    int c = -1;
    if (random) {
        int k = rnd(&t->rng) % t->n;
        for (int i = 0; i < t->n && c < 0; i++)
            if (t->state[(k + i) % t->n] == RUN) c = (k + i) % t->n;
    } else {
        for (int i = 0; i < t->n && c < 0; i++)
            if (t->state[t->order[i]] == RUN) c = t->order[i];
    }
    t->current = c;
    pthread_cond_broadcast(&t->cond);
}

static void await_turn(struct team *t, int id)
{
    while (t->current != id || t->state[id] != RUN)
        pthread_cond_wait(&t->cond, &t->lock);
}

static __thread unsigned local_rng;
static void point(void)
{
    struct team *t = me.team;
    if (!t || t->n == 1) return;
    if (t->mode == DELAY) {
        if (!local_rng) local_rng = cfg_seed * 2654435761u + me.id * 977 + 1;
        if (rnd(&local_rng) % 3 == 0) usleep(rnd(&local_rng) % 60);
    } else if (t->mode == SWITCH) {
        pthread_mutex_lock(&t->lock);
        add(&n_switches, 1);
        pick(t, true);
        await_turn(t, me.id);
        pthread_mutex_unlock(&t->lock);
    }
}

void GOMP_barrier(void)
{
    struct team *t = me.team;
    if (!t || t->n == 1) return;
    pthread_mutex_lock(&t->lock);
    int epoch = t->epoch;
    if (++t->arrived == t->n) {
        t->arrived = 0;
        t->epoch++;
        add(&n_barriers, 1);
        for (int i = 0; i < t->n; i++)
            if (t->state[i] == WAIT) t->state[i] = RUN;
        if (token(t)) pick(t, t->mode == SWITCH);
        pthread_cond_broadcast(&t->cond);
    } else {
        t->state[me.id] = WAIT;
        if (token(t)) pick(t, t->mode == SWITCH);
        while (t->epoch == epoch) pthread_cond_wait(&t->cond, &t->lock);
        t->state[me.id] = RUN;
    }
    if (token(t)) await_turn(t, me.id);
    pthread_mutex_unlock(&t->lock);
}

struct arg { struct team *t; int id; void (*fn)(void *); void *data; };

static void leave(struct team *t, int id)
{
    pthread_mutex_lock(&t->lock);
    t->state[id] = DONE;
    if (token(t)) pick(t, t->mode == SWITCH);
    pthread_mutex_unlock(&t->lock);
}

static void enter(struct team *t, int id)
{
    me.team = t; me.id = id; me.loops = me.singles = 0;
    if (token(t)) {
        pthread_mutex_lock(&t->lock);
        await_turn(t, id);
        pthread_mutex_unlock(&t->lock);
    } else if (t->mode == DELAY && t->n > 1) {
        unsigned s = t->rng * 31 + id * 7919 + 17;
        usleep(rnd(&s) % 150);
    }
}

static void *body(void *p)
{
    struct arg *a = p;
    local_rng = 0;
    enter(a->t, a->id);
    a->fn(a->data);
    if (token(a->t)) leave(a->t, a->id);
    return 0;
}

static void run(void (*fn)(void *), void *data, unsigned want,
                struct share *first)
{
    struct me keep = me;
    struct team *t = calloc(1, sizeof *t);
    struct arg args[64];
    pthread_t th[64];
    t->n = keep.team ? 1 : (want ? (want > 64 ? 64 : (int)want) : cfg_threads);
    t->mode = cfg_mode;
    t->rng = cfg_seed * 747796405u + 2891336453u +
             (unsigned)add(&n_regions, 1) * 40503u;
    if (!t->rng) t->rng = 1;
    add(&n_threads, t->n); add(&n_multi, t->n > 1);
    pthread_mutex_init(&t->lock, 0);
    pthread_cond_init(&t->cond, 0);
    for (int i = 0; i < t->n; i++) t->order[i] = i;
    if (cfg_seed % 4 == 1)
        for (int i = 0; i < t->n; i++) t->order[i] = t->n - 1 - i;
    else if (cfg_seed % 4 > 1)
        for (int i = t->n - 1; i > 0; i--) {
            int k = rnd(&t->rng) % (i + 1), x = t->order[i];
            t->order[i] = t->order[k]; t->order[k] = x;
        }
    t->current = t->order[0];
    if (first) { t->share[0] = *first; t->share[0].set = true; }
    for (int i = 1; i < t->n; i++) {
        args[i] = (struct arg){t, i, fn, data};
        if (pthread_create(&th[i], 0, body, &args[i])) abort();
    }
    enter(t, 0);
    fn(data);
    if (token(t)) leave(t, 0);
    for (int i = 1; i < t->n; i++) pthread_join(th[i], 0);
    pthread_mutex_destroy(&t->lock);
    pthread_cond_destroy(&t->cond);
    free(t);
    me = keep;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    run(fn, data, n, 0);
}

/* ---- shared loops ---------------------------------------------------- */
static bool take(struct share *s, struct team *t, long *a, long *b)
{
    bool more;
    point();
    pthread_mutex_lock(&t->lock);
    long left = s->incr > 0 ? (s->end - s->next + s->incr - 1) / s->incr
                            : (s->next - s->end - s->incr - 1) / -s->incr;
    more = left > 0;
    if (more) {
        long k = s->chunk > 0 ? s->chunk : 1;
        if (s->guided && left / t->n > k) k = left / t->n;
        if (k > left) k = left;
        *a = s->next;
        *b = s->next + k * s->incr;
        s->next = *b;
    }
    pthread_mutex_unlock(&t->lock);
    return more;
}



static bool loop_start(long start, long end, long incr, long chunk,
                       bool guided, long *a, long *b)
{
    struct team *t = me.team;
    if (!t) {
        if (incr > 0 ? start >= end : start <= end) return false;
        *a = start; *b = end;
        return true;
    }
    struct share *s = &t->share[++me.loops % 512];
    pthread_mutex_lock(&t->lock);
    if (!s->set) {
        s->set = true; s->next = start; s->end = end; s->incr = incr;
        s->chunk = chunk; s->guided = guided;
    }
    pthread_mutex_unlock(&t->lock);
    return take(s, t, a, b);
}

static bool loop_next(long *a, long *b)
{
    struct team *t = me.team;
    if (!t) return false;
    return take(&t->share[me.loops % 512], t, a, b);
}

#define LOOP(kind, guided) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *a, long *b) \
{ return loop_start(s, e, i, c, guided, a, b); } \
bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, \
                               long s, long e, long i, long c, unsigned f) \
{ struct share sh = {true, s, e, i, c, guided, 0}; run(fn, data, n, &sh); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long s, unsigned long e, \
        unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) \
{ return loop_start((long)s, (long)e, (long)i, (long)c, guided, (long *)a, \
                    (long *)b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long *a, unsigned long *b) \
{ return loop_next((long *)a, (long *)b); }
LOOP(static, false)
LOOP(dynamic, false)
LOOP(guided, true)
LOOP(nonmonotonic_dynamic, false)
LOOP(nonmonotonic_guided, true)
#define LOOPRT(kind) \
bool GOMP_loop_##kind##_start(long s, long e, long i, long *a, long *b) \
{ return loop_start(s, e, i, 1, false, a, b); } \
bool GOMP_loop_##kind##_next(long *a, long *b) { return loop_next(a, b); } \
void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, \
                               long s, long e, long i, unsigned f) \
{ struct share sh = {true, s, e, i, 1, false, 0}; run(fn, data, n, &sh); } \
bool GOMP_loop_ull_##kind##_start(bool up, unsigned long s, unsigned long e, \
        unsigned long i, unsigned long *a, unsigned long *b) \
{ return loop_start((long)s, (long)e, (long)i, 1, false, (long *)a, \
                    (long *)b); } \
bool GOMP_loop_ull_##kind##_next(unsigned long *a, unsigned long *b) \
{ return loop_next((long *)a, (long *)b); }
LOOPRT(runtime)
LOOPRT(maybe_nonmonotonic_runtime)
LOOPRT(nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}

bool GOMP_single_start(void)
{
    struct team *t = me.team;
    if (!t) return true;
    point();
    int k = ++me.singles % 512;
    pthread_mutex_lock(&t->lock);
    bool mine = !t->single[k];
    t->single[k] = true;
    pthread_mutex_unlock(&t->lock);
    return mine;
}

/* ---- exclusion ------------------------------------------------------- */
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static void grab(void)
{
    struct team *t = me.team;
    point();
    if (t && token(t)) {
        while (pthread_mutex_trylock(&big)) {
            pthread_mutex_lock(&t->lock);
            pick(t, true);
            await_turn(t, me.id);
            pthread_mutex_unlock(&t->lock);
        }
    } else
        pthread_mutex_lock(&big);
}
static void drop(void) { pthread_mutex_unlock(&big); point(); }
void GOMP_critical_start(void) { grab(); }
void GOMP_critical_end(void) { drop(); }
void GOMP_critical_name_start(void **p) { grab(); }
void GOMP_critical_name_end(void **p) { drop(); }
void GOMP_atomic_start(void) { grab(); }
void GOMP_atomic_end(void) { drop(); }

/* ---- queries --------------------------------------------------------- */
int omp_get_thread_num(void) { point(); return me.team ? me.id : 0; }
int omp_get_num_threads(void) { point(); return me.team ? me.team->n : 1; }
int omp_get_max_threads(void) { return cfg_threads; }
int omp_get_num_procs(void) { return cfg_threads; }
int omp_in_parallel(void) { return me.team && me.team->n > 1; }
int omp_get_level(void) { return me.team != 0; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
void omp_set_dynamic(int x) {}
void omp_set_nested(int x) {}
void omp_set_num_threads(int n) { shim_config(n, cfg_mode, cfg_seed); }
double omp_get_wtime(void)
{
    struct timespec s;
    clock_gettime(CLOCK_MONOTONIC, &s);
    return s.tv_sec + 1e-9 * s.tv_nsec;
}
