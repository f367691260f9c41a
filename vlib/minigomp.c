/* A small OpenMP runtime for race detection.
 *
 * ThreadSanitizer cannot see the synchronisation inside libgomp, so reports
 * from a kernel running on it are not trustworthy. This stand-in implements the
 * entry points gcc emits for parallel regions and work-shared loops with plain
 * pthreads, compiled with the same instrumentation as the kernel: every
 * happens-before edge of the OpenMP program is then visible, and so is every
 * missing one. Chunks of a dynamic loop are handed out one at a time with random
 * short delays (seeded by MINIGOMP_SEED), so threads interleave even for short loops,
 * and MINIGOMP_LOG (a file descriptor number) reports how many chunks each thread of
 * each region ran.
 */
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <sched.h>

typedef struct loop { long next, end, incr, chunk; int kind; bool up; } loop_t;
#define MAXLOOPS 64
typedef struct team {
    int n; void (*fn)(void *); void *data;
    pthread_mutex_t mu; pthread_cond_t cv; int waiting; unsigned long generation;
    loop_t loops[MAXLOOPS]; int loops_made; int singles;
    long chunks[1024];
} team_t;

static __thread team_t *team = NULL;
static __thread int tid = 0;
static __thread int my_loop = -1;
static __thread int my_single = 0;
static __thread unsigned long long rs = 0;
static __thread bool static_done = false;

static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atom = PTHREAD_MUTEX_INITIALIZER;

static unsigned rnd(void) {
    if (!rs) { const char *s = getenv("MINIGOMP_SEED"); rs = 88172645463325252ULL ^ ((s ? strtoull(s, 0, 10) : 1) * 2654435761ULL) ^ ((unsigned long long)(tid + 1) << 32); }
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return (unsigned)(rs >> 32);
}
static void jitter(void) {
    unsigned r = rnd() % 16;
    if (r < 6) sched_yield();
    else if (r < 9) usleep(rnd() % 300);
}

int omp_get_thread_num(void) { return team ? tid : 0; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { const char *s = getenv("OMP_NUM_THREADS"); int n = s ? atoi(s) : 4; return n > 0 ? n : 4; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return team != NULL; }
void omp_set_num_threads(int n) { (void)n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int n) { (void)n; }
int omp_get_thread_limit(void) { return 1024; }
double omp_get_wtime(void) { return 0.0; }

void GOMP_barrier(void) {
    team_t *t = team;
    if (!t) return;
    pthread_mutex_lock(&t->mu);
    unsigned long g = t->generation;
    if (++t->waiting == t->n) { t->waiting = 0; t->generation++; pthread_cond_broadcast(&t->cv); }
    else while (g == t->generation) pthread_cond_wait(&t->cv, &t->mu);
    pthread_mutex_unlock(&t->mu);
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }

typedef struct arg { team_t *t; int id; } arg_t;
static void *body(void *p) {
    arg_t *a = p;
    team = a->t; tid = a->id; my_loop = -1; my_single = 0;
    jitter();
    a->t->fn(a->t->data);
    team = NULL; tid = 0;
    return NULL;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    (void)flags;
    if (n == 0) n = (unsigned)omp_get_max_threads();
    if (n > 1024) n = 1024;
    team_t *outer = team; int otid = tid, oloop = my_loop, osingle = my_single;
    if (outer) n = 1;
    team_t *t = calloc(1, sizeof *t);
    arg_t *args = calloc(n, sizeof *args);
    pthread_t *th = calloc(n, sizeof *th);
    t->n = (int)n; t->fn = fn; t->data = data;
    pthread_mutex_init(&t->mu, NULL); pthread_cond_init(&t->cv, NULL);
    for (unsigned i = 0; i < n; i++) { args[i].t = t; args[i].id = (int)i; }
    for (unsigned i = 1; i < n; i++)
        if (pthread_create(&th[i], NULL, body, &args[i])) { perror("minigomp: pthread_create"); _exit(97); }
    body(&args[0]);
    for (unsigned i = 1; i < n; i++) pthread_join(th[i], NULL);
    const char *lg = getenv("MINIGOMP_LOG");
    if (lg) {
        int busy = 0; long total = 0, most = 0;
        for (unsigned i = 0; i < n; i++) { busy += t->chunks[i] > 0; total += t->chunks[i]; if (t->chunks[i] > most) most = t->chunks[i]; }
        char line[96];
        int len = snprintf(line, sizeof line, "region %u %d %ld %ld\n", n, busy, total, most);
        if (write(atoi(lg), line, len) < 0) {}
    }
    team = outer; tid = otid; my_loop = oloop; my_single = osingle;
    free(args); free(th); free(t);
}

/* work-shared loops */
static loop_t *enter(long start, long end, long incr, long chunk, int kind) {
    static team_t serial; /* orphaned loop outside of a region */
    team_t *t = team ? team : &serial;
    my_loop++;
    pthread_mutex_lock(&t->mu);
    if (my_loop >= t->loops_made) {
        loop_t *l = &t->loops[my_loop % MAXLOOPS];
        l->next = start; l->incr = incr; l->chunk = chunk > 0 ? chunk : 1; l->kind = kind; l->up = incr > 0;
        l->end = ((incr > 0) ? start > end : start < end) ? start : end;
        t->loops_made = my_loop + 1;
    }
    pthread_mutex_unlock(&t->mu);
    static_done = false;
    return &t->loops[my_loop % MAXLOOPS];
}
static bool next(long *is, long *ie) {
    static team_t serial;
    team_t *t = team ? team : &serial;
    loop_t *l = &t->loops[my_loop % MAXLOOPS];
    bool ok = false;
    jitter();
    pthread_mutex_lock(&t->mu);
    if (l->next != l->end) {
        long step = l->chunk * l->incr, left = l->end - l->next;
        if (l->up ? step > left : step < left) step = left;
        *is = l->next; *ie = l->next + step; l->next = *ie; ok = true;
        if (tid < 1024) t->chunks[tid]++;
    }
    pthread_mutex_unlock(&t->mu);
    return ok;
}
static bool static_next(long *is, long *ie) { return next(is, ie); }

#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *is, long *ie) { enter(s, e, i, c, 0); return next(is, ie); } \
bool GOMP_loop_##NAME##_next(long *is, long *ie) { return next(is, ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f);
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { enter(s, e, i, 1, 0); return next(is, ie); }
bool GOMP_loop_runtime_next(long *is, long *ie) { return next(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { enter(s, e, i, 1, 0); return next(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long *is, long *ie) { return next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { enter(s, e, i, 1, 0); return next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return next(is, ie); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }

/* combined parallel loops: every thread joins the loop before its body asks for chunks */
typedef struct comb { void (*fn)(void *); void *data; long s, e, i, c; } comb_t;
static void comb_body(void *p) { comb_t *c = p; enter(c->s, c->e, c->i, c->c, 0); c->fn(c->data); }
#define COMB(NAME) \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { \
    comb_t k = { fn, d, s, e, i, c }; GOMP_parallel(comb_body, &k, n, f); }
COMB(dynamic) COMB(nonmonotonic_dynamic) COMB(guided) COMB(nonmonotonic_guided) COMB(static)
#define COMBR(NAME) \
void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { \
    comb_t k = { fn, d, s, e, i, 1 }; GOMP_parallel(comb_body, &k, n, f); }
COMBR(runtime) COMBR(nonmonotonic_runtime) COMBR(maybe_nonmonotonic_runtime)

bool GOMP_single_start(void) {
    team_t *t = team; bool r = true;
    if (!t) return true;
    pthread_mutex_lock(&t->mu);
    r = t->singles <= my_single;
    if (r) t->singles = my_single + 1;
    my_single++;
    pthread_mutex_unlock(&t->mu);
    return r;
}
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
static pthread_mutex_t named = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_name_start(void **p) { (void)p; pthread_mutex_lock(&named); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&named); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
