/* A small OpenMP runtime over pthreads, so that ThreadSanitizer sees every synchronisation the
   library really makes (libgomp's futexes are invisible to it), and none that it does not make:
   bookkeeping here is done with uninstrumented atomics, so it adds no happens-before edges.
   As in libgomp by default, a parallel region within a parallel region has a team of one. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <sched.h>
#include <stdbool.h>
#include <unistd.h>
#include <time.h>
#define RAW __attribute__((no_sanitize_thread, noinline))
typedef struct { int n; pthread_barrier_t bar; pthread_mutex_t m; long next, end, incr, chunk; int loop_users, single_ct; } team_t;
typedef struct { int num, level; team_t *team; int singles; } me_t;
static __thread me_t me;
static int nthreads;
static unsigned jitter_state = 88172645u; int minigomp_jitter;
long minigomp_regions, minigomp_criticals, minigomp_threads, minigomp_contended;
static RAW void count(long *x){ __atomic_fetch_add(x, 1, __ATOMIC_RELAXED); }
static RAW void jitter(void){ if (!minigomp_jitter) return; unsigned x = __atomic_load_n(&jitter_state, __ATOMIC_RELAXED); x ^= x<<13; x ^= x>>17; x ^= x<<5; __atomic_store_n(&jitter_state, x, __ATOMIC_RELAXED); if (x%8==0) sched_yield(); else if (x%64==1) usleep(x%50); }
RAW void minigomp_seed(unsigned s){ jitter_state = s*2654435761u | 1; minigomp_jitter = 1; }
static int want(void){ if (!nthreads){ char *e = getenv("OMP_NUM_THREADS"); nthreads = e && atoi(e) > 0 ? atoi(e) : 4; } return nthreads; }
int omp_get_thread_num(void){ return me.num; }
int omp_get_num_threads(void){ return me.team ? me.team->n : 1; }
int omp_get_max_threads(void){ return want(); }
int omp_get_num_procs(void){ return 8; }
int omp_in_parallel(void){ return me.team && me.team->n > 1; }
int omp_get_level(void){ return me.level; }
void omp_set_num_threads(int n){ nthreads = n > 0 ? n : 1; }
void omp_set_dynamic(int n){} void omp_set_nested(int n){} int omp_get_nested(void){ return 0; } int omp_get_dynamic(void){ return 0; }
double omp_get_wtime(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
typedef struct { void (*fn)(void*); void *data; me_t me; } job_t;
static void *go(void *in){ job_t *j = in; me = j->me; jitter(); j->fn(j->data); return NULL; }
static void team_run(void (*fn)(void*), void *data, unsigned num, team_t *t){
    int n = me.level && me.team && me.team->n > 1 ? 1 : num ? (int)num : want();
    me_t saved = me; t->n = n; t->single_ct = 0; pthread_mutex_init(&t->m, NULL); pthread_barrier_init(&t->bar, NULL, n);
    count(&minigomp_regions);
    job_t jobs[n]; pthread_t th[n];
    for (int i=0; i<n; i++) jobs[i] = (job_t){fn, data, {i, saved.level+1, t, 0}};
    for (int i=1; i<n; i++) if (pthread_create(&th[i], NULL, go, &jobs[i])) abort(); else count(&minigomp_threads);
    go(&jobs[0]);
    for (int i=1; i<n; i++) pthread_join(th[i], NULL);
    pthread_barrier_destroy(&t->bar); pthread_mutex_destroy(&t->m); me = saved;
}
void GOMP_parallel(void (*fn)(void*), void *data, unsigned num, unsigned flags){ team_t t; team_run(fn, data, num, &t); }
void GOMP_barrier(void){ if (me.team && me.team->n > 1) pthread_barrier_wait(&me.team->bar); }
static pthread_mutex_t unnamed = PTHREAD_MUTEX_INITIALIZER, atomic_m = PTHREAD_MUTEX_INITIALIZER;
static void take(pthread_mutex_t *m){ jitter(); count(&minigomp_criticals); if (pthread_mutex_trylock(m)){ count(&minigomp_contended); pthread_mutex_lock(m); } }
/* every mutex is in a static table, as a fresh allocation would look like a write racing with its use */
#define LOCKS 200000
static pthread_mutex_t locks[LOCKS]; static int lock_ct;
static RAW int new_lock(void){ int i = __atomic_fetch_add(&lock_ct, 1, __ATOMIC_RELAXED); if (i >= LOCKS) abort(); return i; }
static RAW pthread_mutex_t *named(void **p){
    void *m = __atomic_load_n(p, __ATOMIC_RELAXED);
    if (!m){ void *mine = &locks[new_lock()], *old = NULL;
        m = __atomic_compare_exchange_n(p, &old, mine, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED) ? mine : old; }
    return m; }
void GOMP_critical_start(void){ take(&unnamed); } void GOMP_critical_end(void){ pthread_mutex_unlock(&unnamed); jitter(); }
void GOMP_atomic_start(void){ take(&atomic_m); } void GOMP_atomic_end(void){ pthread_mutex_unlock(&atomic_m); jitter(); }
void GOMP_critical_name_start(void **p){ take(named(p)); } void GOMP_critical_name_end(void **p){ pthread_mutex_unlock(named(p)); jitter(); }
/* an omp_lock_t is four bytes that may be moved about when unlocked: hold an index in it */
static RAW int lock_of(void *l){ int i; memcpy(&i, l, 4); return i-1; }
static RAW void lock_put(void *l, int i){ i++; memcpy(l, &i, 4); }
void omp_init_lock(void *l){ int i = new_lock(); lock_put(l, i); }
void omp_destroy_lock(void *l){} void omp_set_lock(void *l){ take(&locks[lock_of(l)]); } void omp_unset_lock(void *l){ pthread_mutex_unlock(&locks[lock_of(l)]); jitter(); }
int omp_test_lock(void *l){ return !pthread_mutex_trylock(&locks[lock_of(l)]); }
/* dynamic and guided loops, single, for edited code that uses them */
static bool loop_next(long *s, long *e){ team_t *t = me.team; bool ok = false; pthread_mutex_lock(&t->m); if (t->incr > 0 ? t->next < t->end : t->next > t->end){ *s = t->next; long x = t->next + t->chunk*t->incr; if (t->incr > 0 ? x > t->end : x < t->end) x = t->end; *e = t->next = x; ok = true; } pthread_mutex_unlock(&t->m); return ok; }
static void ploop(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, long c){ team_t t; t.next = s; t.end = e; t.incr = i; t.chunk = c > 0 ? c : 1; team_run(fn, d, n, &t); }
#define PL(name) void name(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, long c, unsigned f){ ploop(fn, d, n, s, e, i, c); }
PL(GOMP_parallel_loop_dynamic) PL(GOMP_parallel_loop_nonmonotonic_dynamic) PL(GOMP_parallel_loop_guided) PL(GOMP_parallel_loop_nonmonotonic_guided) PL(GOMP_parallel_loop_static)
#define LN(name) bool name(long *s, long *e){ return loop_next(s, e); }
LN(GOMP_loop_dynamic_next) LN(GOMP_loop_nonmonotonic_dynamic_next) LN(GOMP_loop_guided_next) LN(GOMP_loop_nonmonotonic_guided_next) LN(GOMP_loop_static_next)
void GOMP_loop_end_nowait(void){} void GOMP_loop_end(void){ GOMP_barrier(); }
bool GOMP_single_start(void){ if (!me.team) return true; me.singles++; bool mine = false; pthread_mutex_lock(&me.team->m); if (me.team->single_ct < me.singles){ me.team->single_ct++; mine = true; } pthread_mutex_unlock(&me.team->m); return mine; }
