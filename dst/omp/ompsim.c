/* A deterministic OpenMP runtime.
 *
 * The generated Fortran of PyBox is compiled with -fopenmp -fsanitize=thread, which turns every memory access into a
 * call (__tsan_read8 and so on) and every parallel region into a call of GOMP_parallel. This file provides both: the
 * members of a team are coroutines of the one real thread, and at every access to memory that is not a member's own
 * stack a seeded scheduler decides who goes on. One seed (or one recorded list of switches) is one execution.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ucontext.h>
#include <sys/mman.h>

#define MAXT 64
#define STACK (8u << 20)
#define NCONF 262144
#define POISON 262144
#define MAXSW 65536

enum { MODE_SERIAL = 0, MODE_RANDOM = 1, MODE_CONFLICT = 2, MODE_REPLAY = 3 };

typedef struct {
    ucontext_t ctx;
    char *stack;
    int done, id;
    int waiting;             /* barrier generation waited for + 1, or 0 */
    void *lockwait;
    unsigned long single_seq, loop_seq;
    void (*fn)(void *);
    void *data;
} Co;

static Co co[MAXT];
static int nco, cur = -1;
static ucontext_t main_ctx;
static int in_region;
static uint64_t rng;
static int cfg_mode, cfg_threads = 1;
static uint32_t cfg_p;                 /* probability of a switch, in 1/65536 */
static uint64_t max_switch = 200000;

/* statistics and trace */
static uint64_t n_access, n_switch, n_regions, sched_hash;
static uint64_t trace_at[MAXSW]; static int trace_to[MAXSW]; static int n_trace;
static uint64_t replay_at[MAXSW]; static int replay_to[MAXSW]; static int n_replay, replay_i;

/* addresses touched by different members in the same region, at least once written */
typedef struct { uintptr_t a; uint32_t n; short who; char wr, multi; } Slot;
static Slot slots[NCONF];
static int recording;

static unsigned long barrier_gen; static int barrier_count;
static unsigned long single_done;
static struct { unsigned long seq; int active; int left; long next, end, incr, chunk; int up; int kind; int ordered; } wl[MAXT * 4];
static void *copyprivate;

static uint64_t rnd(void) {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
    return rng * 0x2545F4914F6CDD1DULL;
}

static void fatal(const char *m) { fprintf(stderr, "ompsim: %s\n", m); abort(); }

/* ---- control interface (used through ctypes) ---- */
void sim_config(int mode, int threads, uint64_t seed, uint32_t p) {
    cfg_mode = mode; cfg_threads = threads < 1 ? 1 : threads > MAXT ? MAXT : threads; cfg_p = p;
    rng = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!rng) rng = 1;
    for (int i = 0; i < 8; i++) rnd();
    n_access = n_switch = n_regions = 0; sched_hash = 1469598103934665603ULL; n_trace = 0; replay_i = 0;
    barrier_gen = 0; barrier_count = 0; single_done = 0; in_region = 0; cur = -1;
    memset(wl, 0, sizeof wl);
}
void sim_record(int on) { if (on) { memset(slots, 0, sizeof slots); } recording = on; }
/* number of addresses and of accesses in conflict, seen since sim_record(1) */
void sim_conflicts(uint64_t *o) {
    o[0] = o[1] = 0;
    for (int i = 0; i < NCONF; i++) if (slots[i].a && slots[i].multi && slots[i].wr) { o[0]++; o[1] += slots[i].n; }
}
void sim_set_replay(int n, const uint64_t *at, const int *to) {
    if (n > MAXSW) n = MAXSW;
    for (int i = 0; i < n; i++) { replay_at[i] = at[i]; replay_to[i] = to[i]; }
    n_replay = n; replay_i = 0;
}
int sim_get_trace(int max, uint64_t *at, int *to) {
    int n = n_trace < max ? n_trace : max;
    for (int i = 0; i < n; i++) { at[i] = trace_at[i]; to[i] = trace_to[i]; }
    return n_trace;
}
void sim_stats(uint64_t *o) { o[0] = n_access; o[1] = n_switch; o[2] = n_regions; o[3] = sched_hash; }

/* ---- scheduler ---- */
static int runnable(Co *c) { return !c->done && !c->waiting && !c->lockwait; }

static void switch_to(int t) {
    int f = cur;
    if (t == f) return;
    n_switch++;
    sched_hash = (sched_hash ^ (n_access * 31 + (uint64_t)t)) * 1099511628211ULL;
    if (n_trace < MAXSW) { trace_at[n_trace] = n_access; trace_to[n_trace] = t; n_trace++; }
    cur = t;
    if (f >= 0) swapcontext(&co[f].ctx, &co[t].ctx);
    else swapcontext(&main_ctx, &co[t].ctx);
}

static int pick(int exclude) {
    int c[MAXT], n = 0;
    for (int i = 0; i < nco; i++) if (i != exclude && runnable(&co[i])) c[n++] = i;
    if (!n) return -1;
    if (cfg_mode == MODE_SERIAL) return c[0];
    if (cfg_mode == MODE_REPLAY) {
        while (replay_i < n_replay && replay_at[replay_i] < n_access) replay_i++;
        if (replay_i < n_replay && replay_at[replay_i] == n_access) {
            int w = replay_to[replay_i];
            for (int i = 0; i < n; i++) if (c[i] == w) { replay_i++; return w; }
        }
        return c[0];
    }
    return c[rnd() % n];
}

static void must_switch(void) {   /* the current member cannot go on */
    int t = pick(cur);
    if (t < 0) fatal("deadlock in a parallel region");
    switch_to(t);
}

static int is_conflict(uintptr_t a) {
    a &= ~7UL;
    uint32_t h = (uint32_t)((a >> 3) * 2654435761u) % NCONF;
    for (int k = 0; k < 64; k++) {
        Slot *s = &slots[(h + k) % NCONF];
        if (!s->a) return 0;
        if (s->a == a) return s->multi && s->wr;
    }
    return 0;
}

static int own_stack(uintptr_t a) {
    if (cur < 0) return 1;
    uintptr_t s = (uintptr_t)co[cur].stack;
    return a >= s && a < s + STACK;
}

static void note(uintptr_t a, int wr) {
    a &= ~7UL;
    uint32_t h = (uint32_t)((a >> 3) * 2654435761u) % NCONF;
    for (int k = 0; k < 64; k++) {
        Slot *s = &slots[(h + k) % NCONF];
        if (!s->a) { s->a = a; s->who = cur; s->wr = wr; s->n = 1; return; }
        if (s->a == a) { s->n++; if (s->who != cur) s->multi = 1; if (wr) s->wr = 1; return; }
    }
}

static void point(uintptr_t a, int wr) {
    if (!in_region || cur < 0 || nco < 2) return;
    if (own_stack(a)) return;
    n_access++;
    if (recording) note(a, wr);
    switch (cfg_mode) {
    case MODE_SERIAL: return;
    case MODE_REPLAY:
        while (replay_i < n_replay && replay_at[replay_i] < n_access) replay_i++;
        if (replay_i < n_replay && replay_at[replay_i] == n_access) {
            int t = replay_to[replay_i++];
            if (t >= 0 && t < nco && runnable(&co[t])) switch_to(t);
        }
        return;
    case MODE_CONFLICT:
        if (!is_conflict(a)) return;
        /* fallthrough */
    case MODE_RANDOM:
        if (n_switch > max_switch) return;
        if ((rnd() & 0xffff) < cfg_p) { int t = pick(cur); if (t >= 0) switch_to(t); }
    }
}

/* ---- teams ---- */
static void entry(void) {
    Co *c = &co[cur];
    c->fn(c->data);
    c = &co[cur];
    c->done = 1;
    int t = pick(cur);
    if (t >= 0) switch_to(t);
    else {
        for (int i = 0; i < nco; i++) if (!co[i].done) fatal("a member of a team never finished");
        int f = cur; cur = -1;
        swapcontext(&co[f].ctx, &main_ctx);
    }
    fatal("finished member resumed");
}

static void run_team(void (*fn)(void *), void *data, unsigned want) {
    int n = want ? (int)want : cfg_threads;
    if (n > MAXT) n = MAXT;
    if (in_region) {             /* nested regions: a team of one */
        fn(data);
        return;
    }
    n_regions++;
    in_region = 1; nco = n; barrier_count = 0;
    memset(wl, 0, sizeof wl); single_done = 0;
    for (int i = 0; i < n; i++) {
        if (!co[i].stack) {
            co[i].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (co[i].stack == MAP_FAILED) fatal("no memory for a stack");
        }
        char *s = co[i].stack;
        memset(s + STACK - POISON, 0xff, POISON);   /* what a member did not set is not a number */
        memset(&co[i], 0, sizeof co[i]);
        co[i].stack = s; co[i].id = i; co[i].fn = fn; co[i].data = data;
        getcontext(&co[i].ctx);
        co[i].ctx.uc_stack.ss_sp = s; co[i].ctx.uc_stack.ss_size = STACK; co[i].ctx.uc_link = 0;
        makecontext(&co[i].ctx, entry, 0);
    }
    cur = -1;
    int t = pick(-1);
    cur = -1;
    switch_to(t);
    in_region = 0; nco = 0; cur = -1;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; run_team(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    (void)flags; int k = n ? (int)n : cfg_threads; run_team(fn, data, k); return k;
}
int omp_get_num_threads(void) { return in_region ? nco : 1; }
int omp_get_num_threads_(void) { return omp_get_num_threads(); }
int omp_get_thread_num(void) { return in_region && cur >= 0 ? cur : 0; }
int omp_get_thread_num_(void) { return omp_get_thread_num(); }
int omp_get_max_threads(void) { return cfg_threads; }
int omp_get_max_threads_(void) { return cfg_threads; }
int omp_get_num_procs(void) { return cfg_threads; }
int omp_get_num_procs_(void) { return cfg_threads; }
int omp_in_parallel(void) { return in_region && nco > 1; }
int omp_in_parallel_(void) { return omp_in_parallel(); }
void omp_set_num_threads(int n) { if (n > 0) cfg_threads = n > MAXT ? MAXT : n; }
void omp_set_num_threads_(const int *n) { omp_set_num_threads(*n); }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_dynamic_(const int *n) { (void)n; }
int omp_get_level(void) { return in_region; }
double omp_get_wtime(void) { return (double)n_access * 1e-9; }
double omp_get_wtime_(void) { return omp_get_wtime(); }

void GOMP_barrier(void) {
    if (!in_region || nco < 2) return;
    if (++barrier_count == nco) {
        barrier_count = 0; barrier_gen++;
        for (int i = 0; i < nco; i++) co[i].waiting = 0;
        if (cfg_mode != MODE_SERIAL) { int t = pick(-1); if (t >= 0) switch_to(t); }
    } else {
        co[cur].waiting = 1;
        must_switch();
    }
}
_Bool GOMP_barrier_cancel(void) { GOMP_barrier(); return 0; }

/* locks: one holder each */
#define NLOCK 64
static struct { void *key; int held; int who; } locks[NLOCK];
static int dummy_crit, dummy_atomic;
static void lock_on(void *key) {
    if (!in_region || nco < 2) return;
    for (;;) {
        int k, fr = -1;
        for (k = 0; k < NLOCK; k++) { if (locks[k].held && locks[k].key == key) break; if (!locks[k].held && fr < 0) fr = k; }
        if (k == NLOCK) { locks[fr].held = 1; locks[fr].key = key; locks[fr].who = cur; return; }
        co[cur].lockwait = key;
        must_switch();
    }
}
static void lock_off(void *key) {
    if (!in_region || nco < 2) return;
    for (int k = 0; k < NLOCK; k++) if (locks[k].held && locks[k].key == key) locks[k].held = 0;
    for (int i = 0; i < nco; i++) if (co[i].lockwait == key) co[i].lockwait = 0;
}
void GOMP_critical_start(void) { lock_on(&dummy_crit); }
void GOMP_critical_end(void) { lock_off(&dummy_crit); }
void GOMP_critical_name_start(void **p) { lock_on(p); }
void GOMP_critical_name_end(void **p) { lock_off(p); }
void GOMP_atomic_start(void) { lock_on(&dummy_atomic); }
void GOMP_atomic_end(void) { lock_off(&dummy_atomic); }
void omp_init_lock(void *p) { (void)p; } void omp_destroy_lock(void *p) { (void)p; }
void omp_set_lock(void *p) { lock_on(p); } void omp_unset_lock(void *p) { lock_off(p); }
void omp_init_lock_(void *p) { (void)p; } void omp_destroy_lock_(void *p) { (void)p; }
void omp_set_lock_(void *p) { lock_on(p); } void omp_unset_lock_(void *p) { lock_off(p); }

_Bool GOMP_single_start(void) {
    if (!in_region || nco < 2) return 1;
    unsigned long s = ++co[cur].single_seq;
    if (single_done < s) { single_done = s; return 1; }
    return 0;
}
void *GOMP_single_copy_start(void) { if (GOMP_single_start()) return 0; GOMP_barrier(); return copyprivate; }
void GOMP_single_copy_end(void *d) { copyprivate = d; GOMP_barrier(); }
void GOMP_ordered_start(void) {} void GOMP_ordered_end(void) {}
void GOMP_taskwait(void) {} void GOMP_taskyield(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al, _Bool ifc, unsigned fl, void **dep, int pr, void *det) {
    (void)ifc; (void)fl; (void)dep; (void)pr; (void)det;
    if (cpyfn) { char *b = malloc(sz + al); char *p = (char *)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpyfn(p, data); fn(p); free(b); }
    else fn(data);
}

/* work sharing loops: every member meets them in the same order */
static int wl_find(void) {
    if (!in_region || nco < 2) return -1;
    return (int)(co[cur].loop_seq % (MAXT * 4));
}
static struct { long next, end, incr, chunk; } solo;
static _Bool loop_take(long *s, long *e) {
    long *next, end, incr, chunk;
    int k = wl_find();
    if (k >= 0) { next = &wl[k].next; end = wl[k].end; incr = wl[k].incr; chunk = wl[k].chunk; }
    else { next = &solo.next; end = solo.end; incr = solo.incr; chunk = solo.chunk; }
    if (k >= 0) point(1, 1);
    if (incr > 0 ? *next >= end : *next <= end) return 0;
    long st = *next, en = st + incr * chunk;
    if (incr > 0 ? en > end : en < end) en = end;
    *next = en; *s = st; *e = en;
    return 1;
}
static _Bool loop_begin(long start, long end, long incr, long chunk, long *s, long *e) {
    if (chunk < 1) chunk = 1;
    if (!in_region || nco < 2) { solo.next = start; solo.end = end; solo.incr = incr; solo.chunk = chunk; }
    else {
        int k = wl_find();
        if (!wl[k].active || wl[k].seq != co[cur].loop_seq) {
            wl[k].active = 1; wl[k].seq = co[cur].loop_seq; wl[k].next = start; wl[k].end = end; wl[k].incr = incr; wl[k].chunk = chunk;
        }
    }
    return loop_take(s, e);
}
static void loop_finish(void) { if (in_region && nco >= 2) co[cur].loop_seq++; }
#define LOOP(kind) \
_Bool GOMP_loop_##kind##_start(long a, long b, long c, long d, long *s, long *e) { return loop_begin(a, b, c, d, s, e); } \
_Bool GOMP_loop_##kind##_next(long *s, long *e) { return loop_take(s, e); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
static _Bool static_begin(long a, long b, long c, long d, long *s, long *e) {
    if (d < 1) { long n = c > 0 ? (b - a + c - 1) / c : (b - a + c + 1) / c; int t = in_region && nco ? nco : 1; d = (n + t - 1) / t; }
    return loop_begin(a, b, c, d, s, e);
}
_Bool GOMP_loop_static_start(long a, long b, long c, long d, long *s, long *e) { return static_begin(a, b, c, d, s, e); }
_Bool GOMP_loop_static_next(long *s, long *e) { return loop_take(s, e); }
_Bool GOMP_loop_runtime_start(long a, long b, long c, long *s, long *e) { return loop_begin(a, b, c, 1, s, e); }
_Bool GOMP_loop_runtime_next(long *s, long *e) { return loop_take(s, e); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long *s, long *e) { return loop_begin(a, b, c, 1, s, e); }
_Bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_take(s, e); }
_Bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long c, long *s, long *e) { return loop_begin(a, b, c, 1, s, e); }
_Bool GOMP_loop_nonmonotonic_runtime_next(long *s, long *e) { return loop_take(s, e); }
void GOMP_loop_end(void) { loop_finish(); GOMP_barrier(); }
_Bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return 0; }
void GOMP_loop_end_nowait(void) { loop_finish(); }

typedef struct { void (*fn)(void *); void *data; long a, b, c, d; } PL;
static PL pl;
static void pl_run(void *x) {
    (void)x;
    /* the body fetches its iterations with GOMP_loop_*_next, so the loop is set up before the team starts */
    pl.fn(pl.data);
}
static void par_loop(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d) {
    pl.fn = fn; pl.data = data;
    if (d < 1) d = 1;
    int t = n ? (int)n : cfg_threads;
    if (in_region || t < 2) { solo.next = a; solo.end = b; solo.incr = c; solo.chunk = d; fn(data); return; }
    n_regions++;
    /* as run_team, with loop 0 active from the start */
    int save = cfg_threads; (void)save;
    static int armed; (void)armed;
    extern void run_team_loop(void (*)(void *), void *, unsigned, long, long, long, long);
    run_team_loop(pl_run, 0, t, a, b, c, d);
}
void run_team_loop(void (*fn)(void *), void *data, unsigned want, long a, long b, long c, long d) {
    in_region = 1; nco = want > MAXT ? MAXT : (int)want; barrier_count = 0;
    memset(wl, 0, sizeof wl); single_done = 0;
    wl[0].active = 1; wl[0].seq = 0; wl[0].next = a; wl[0].end = b; wl[0].incr = c; wl[0].chunk = d;
    for (int i = 0; i < nco; i++) {
        if (!co[i].stack) {
            co[i].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (co[i].stack == MAP_FAILED) fatal("no memory for a stack");
        }
        char *s = co[i].stack;
        memset(s + STACK - POISON, 0xff, POISON);   /* what a member did not set is not a number */
        memset(&co[i], 0, sizeof co[i]);
        co[i].stack = s; co[i].id = i; co[i].fn = fn; co[i].data = data;
        getcontext(&co[i].ctx);
        co[i].ctx.uc_stack.ss_sp = s; co[i].ctx.uc_stack.ss_size = STACK; co[i].ctx.uc_link = 0;
        makecontext(&co[i].ctx, entry, 0);
    }
    cur = -1;
    int t = pick(-1);
    switch_to(t);
    in_region = 0; nco = 0; cur = -1;
}
#define PARLOOP(kind) \
void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d, unsigned f) { (void)f; par_loop(fn, data, n, a, b, c, d); }
PARLOOP(dynamic) PARLOOP(guided) PARLOOP(nonmonotonic_dynamic) PARLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_static(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, long d, unsigned f) {
    (void)f; int t = n ? (int)n : cfg_threads;
    if (d < 1) { long k = c > 0 ? (b - a + c - 1) / c : (b - a + c + 1) / c; d = (k + t - 1) / t; }
    par_loop(fn, data, n, a, b, c, d);
}
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned f) { (void)f; par_loop(fn, data, n, a, b, c, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned f) { (void)f; par_loop(fn, data, n, a, b, c, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *data, unsigned n, long a, long b, long c, unsigned f) { (void)f; par_loop(fn, data, n, a, b, c, 1); }

typedef unsigned long long ull;
static _Bool ull_begin(_Bool up, ull a, ull b, ull c, ull d, ull *s, ull *e) { (void)up; return loop_begin((long)a, (long)b, (long)c, (long)d, (long *)s, (long *)e); }
#define LOOPU(kind) \
_Bool GOMP_loop_ull_##kind##_start(_Bool up, ull a, ull b, ull c, ull d, ull *s, ull *e) { return ull_begin(up, a, b, c, d, s, e); } \
_Bool GOMP_loop_ull_##kind##_next(ull *s, ull *e) { return loop_take((long *)s, (long *)e); }
LOOPU(dynamic) LOOPU(guided) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided) LOOPU(static)

unsigned GOMP_sections_start(unsigned count) { long s, e; return loop_begin(1, (long)count + 1, 1, 1, &s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_next(void) { long s, e; return loop_take(&s, &e) ? (unsigned)s : 0; }
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { GOMP_loop_end_nowait(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned f) { (void)f; par_loop(fn, data, n, 1, (long)count + 1, 1, 1); }
_Bool GOMP_cancel(int a, _Bool b) { (void)a; (void)b; return 0; }
_Bool GOMP_cancellation_point(int a) { (void)a; return 0; }

/* ---- memory accesses ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void *a) { point((uintptr_t)a, 0); } \
void __tsan_write##n(void *a) { point((uintptr_t)a, 1); } \
void __tsan_unaligned_read##n(void *a) { point((uintptr_t)a, 0); } \
void __tsan_unaligned_write##n(void *a) { point((uintptr_t)a, 1); } \
void __tsan_volatile_read##n(void *a) { point((uintptr_t)a, 0); } \
void __tsan_volatile_write##n(void *a) { point((uintptr_t)a, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { (void)n; point((uintptr_t)a, 0); }
void __tsan_write_range(void *a, unsigned long n) { (void)n; point((uintptr_t)a, 1); }
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int m) { (void)m; point((uintptr_t)a, 0); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int m) { (void)m; point((uintptr_t)a, 1); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int m) { (void)m; point((uintptr_t)a, 1); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int m) { (void)m; point((uintptr_t)a, 1); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int m) { (void)m; point((uintptr_t)a, 1); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int m) { (void)m; point((uintptr_t)a, 1); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int m) { (void)m; point((uintptr_t)a, 1); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int m) { (void)m; point((uintptr_t)a, 1); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; point((uintptr_t)a, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { (void)m; (void)f; point((uintptr_t)a, 1); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { point((uintptr_t)s, 0); point((uintptr_t)d, 1); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { point((uintptr_t)d, 1); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { point((uintptr_t)s, 0); point((uintptr_t)d, 1); return memmove(d, s, n); }
