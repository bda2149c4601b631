/*
 * dsim runtime: a deterministic simulator for the C++ core of pyclustering.
 *
 * The core is compiled with -fsanitize=thread *instrumentation only*; libtsan is never linked. This file implements
 * the __tsan_* entry points, so every memory access and every atomic of the core is a point at which the simulator
 * may take the processor away, and (optionally) is fed to a happens-before race detector.  Threads, mutexes,
 * condition variables, futures (futex), once-flags, clocks, random_device, core count, heap and file writes are
 * replaced at link time (--wrap), so the simulator alone decides who runs, what time it is, which random bits are
 * delivered and which system call fails.  Real threads exist, but exactly one of them holds the baton.
 *
 * Nothing here is compiled with instrumentation and nothing here uses the C++ library containers (their template
 * instances would be shared with the instrumented code).
 */
#include <cerrno>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define API extern "C" __attribute__((visibility("default")))
#define NOINL __attribute__((noinline))
#define MAXT 64

typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real_sched_yield(void);
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_clock_gettime(clockid_t, struct timespec *);
time_t __real_time(time_t *);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_read(int, void *, size_t);
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
int __real_fclose(FILE *);
int __real_rand(void);
void __real_srand(unsigned);
unsigned __real__ZNSt6thread20hardware_concurrencyEv(void);
}

/* ------------------------------------------------------------------------------------------------ configuration */

struct Config {                 /* mirrored in Python (simlib/native.py) */
    u64 seed;                   /* scheduler stream */
    u64 entropy_seed;           /* random_device / clock / rand stream */
    u64 fault_seed;             /* fault stream */
    u64 max_ops;                /* progress budget */
    u32 strategy;               /* 0 random walk, 1 priority (PCT), 2 starvation, 3 round robin, 4 run-to-block, 5 forced */
    u32 mean_run;               /* mean number of accesses between preemptions */
    u32 sync_permille;          /* chance of rescheduling at a synchronisation operation */
    u32 race;                   /* happens-before detector on */
    u32 quarantine;             /* keep freed blocks, report accesses to them */
    u32 thread_fail_at;         /* 1-based index of thread creation to fail, 0 = never */
    u32 thread_fail_len;        /* how many consecutive creations fail */
    u32 spurious_permille;      /* chance that a condition wait wakes up spuriously */
    u64 alloc_fail_at;          /* 1-based index of allocation to fail, 0 = never */
    u64 alloc_fail_len;
    u64 clock_base;             /* ns */
    u64 clock_step;             /* max ns added at every read */
    u32 clock_jump_permille;    /* chance that a read finds the wall clock moved (either way) */
    u32 entropy_mode;           /* 0 uniform, 1 all zero, 2 all ones, 3 few values, 4 repeating */
    u64 write_fail_at;          /* 1-based index of file write to fault, 0 = never */
    u32 write_fault;            /* 1 ENOSPC once, 2 ENOSPC from then on, 3 short then ENOSPC, 4 EIO, 5 short writes, 6 EINTR */
    u32 n_forced;               /* number of forced switches */
    u64 read_fail_at;
    u32 read_fault;             /* 1 EIO, 2 short read, 3 EINTR */
    u32 pct_depth;
    u32 py_hot_permille;        /* chance of rescheduling at an interpreter line that talks to the core */
    u32 heap_fill;              /* what fresh and freed heap memory contains */
};

struct Switch { u32 from; u32 to; u64 ops; };      /* thread `from`, after executing `ops` accesses, gives way to `to` */

struct Stats {
    u64 ops, switches, preemptions, sync_ops, atomics, threads, allocs, live_allocs, live_bytes;
    u64 entropy_draws, clock_reads, clock_jumps, sleeps, sim_ns;
    u64 thread_faults, alloc_faults, spurious, write_faults, read_faults, starvations;
    u64 hash_inter, hash_all, races, blocked_at_end, unjoined, max_live_threads, quarantined;
};

/* ------------------------------------------------------------------------------------------------ state */

enum { FREE_SLOT = 0, RUNNABLE, BLOCKED, FINISHED };
enum { W_NONE = 0, W_MUTEX, W_COND, W_FUTEX, W_JOIN, W_ONCE, W_SLEEP, W_DRAIN, W_QUIESCE, W_EVENT };

struct Thr {
    int id, state, wait_kind;
    const void *wait_obj;
    u64 ops;
    volatile int go;
    volatile int attached;
    u32 vc[MAXT];
    pthread_t real; bool has_real;
    void *(*fn)(void *); void *arg; void *ret;
    bool detached, joined;
    u64 prio;
    i64 deadline; bool timed_out, signalled;
    int nofail;                 /* harness section: no faults, no preemption, not accounted */
    u64 since_switch;
    i64 py;                     /* interpreter lines until the next preemption */
    u64 stall_mark, stall_n;    /* yields in a row during which nobody changed anything */
};

static Thr T[MAXT];
static int NT;
static int cur = -1;
static volatile int active = 0;
static __thread int my_tid __attribute__((tls_model("initial-exec"))) = -1;
static __thread int tl_guard __attribute__((tls_model("initial-exec"))) = 0;

static Config C;
static Stats S;
static i64 budget;              /* accesses until the next forced scheduling point */
static u64 rs, re, rf, rg;      /* random streams: schedule, entropy, fault, other choices (who is signalled, spurious CAS) */
static u64 pct_next[16]; static u32 pct_n, pct_i; static u64 pct_low;
static int starved = -1;
static i64 sim_now;
static u64 thread_creations, alloc_count, write_count, read_count;
static u64 g_live_allocs, g_live_bytes;
static int fail_fd = 2;
static uintptr_t text_base;
static u64 progress;            /* changes of shared state so far */

static Switch *trace; static u64 trace_cap; static u64 *trace_n;    /* lives in a shared file: survives a crash */
static Switch forced[65536]; static u32 f_next[MAXT], f_end[MAXT];     /* sorted by (from, ops) */

static u64 mix(u64 &s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static inline u64 below(u64 &s, u64 n) { return n ? mix(s) % n : 0; }
static inline bool chance(u64 &s, u32 permille) { return permille && below(s, 1000) < permille; }
static inline void hash(u64 &h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0x100000001B3ull; }

/* ------------------------------------------------------------------------------------------------ failures */

static const char *EV_KIND = "";
static void fail(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
static void fail(const char *kind, const char *fmt, ...) {
    char msg[1400], out[2600];
    va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    size_t j = 0; char esc[2000];
    for (size_t i = 0; msg[i] && j + 3 < sizeof esc; ++i) { char c = msg[i]; if (c == '"' || c == '\\') esc[j++] = '\\'; esc[j++] = (c == '\n') ? ' ' : c; }
    esc[j] = 0;
    int n = snprintf(out, sizeof out, "{\"native_violation\": \"%s\", \"message\": \"%s\", \"ops\": %llu, \"switches\": %llu}\n", kind, esc,
                     (unsigned long long) S.ops, (unsigned long long) S.switches);
    ssize_t r = __real_write(fail_fd, out, n); (void) r;
    _exit(86);
}

static const char *wname(int k) {
    static const char *n[] = { "-", "mutex", "condition", "future", "join", "once", "sleep", "drain", "quiesce", "event" };
    return n[k];
}

static void describe(char *b, size_t cap) {
    size_t p = 0; b[0] = 0;
    for (int i = 0; i < NT && p + 64 < cap; ++i)
        if (T[i].state == RUNNABLE || T[i].state == BLOCKED)
            p += snprintf(b + p, cap - p, "[T%d %s %s after %llu accesses] ", i, T[i].state == RUNNABLE ? "runnable" : "blocked on",
                          T[i].state == BLOCKED ? wname(T[i].wait_kind) : "", (unsigned long long) T[i].ops);
}

/* ------------------------------------------------------------------------------------------------ baton */

static void fwait(volatile int *a, int v) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void park(int id) { fwait(&T[id].go, 0); __atomic_store_n(&T[id].go, 0, __ATOMIC_RELEASE); }
static void unpark(int id) { __atomic_store_n(&T[id].go, 1, __ATOMIC_RELEASE); fwake(&T[id].go); }

static void log_switch(int from, int to) {
    S.switches++;
    hash(S.hash_inter, ((u64) from << 56) ^ ((u64) to << 48) ^ T[from].ops);
    if (trace && *trace_n < trace_cap) { Switch &w = trace[(*trace_n)++]; w.from = from; w.to = to; w.ops = T[from].ops; }
}

static i64 draw_budget() {
    if (C.strategy == 4 || C.strategy == 5) return 1000000;
    if (C.strategy == 1) return 100000;
    if (C.mean_run <= 1) return 1;
    /* geometric-like: mostly short, sometimes long */
    u64 m = C.mean_run, r = mix(rs);
    u64 k = 1 + (r >> 8) % (2 * m);
    if ((r & 15) == 0) k = 1 + k / 16;
    if ((r & 31) == 1) k *= 8;
    return (i64) k;
}

static int wake_timers() {
    int best = -1;
    for (int i = 0; i < NT; ++i)
        if (T[i].state == BLOCKED && T[i].deadline >= 0 && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
    if (best < 0) return 0;
    if (T[best].deadline > sim_now) { S.sim_ns += T[best].deadline - sim_now; sim_now = T[best].deadline; }
    T[best].timed_out = true; T[best].state = RUNNABLE;
    return 1;
}

static inline bool forced_due(int id) {
    while (f_next[id] < f_end[id] && forced[f_next[id]].ops < T[id].ops) f_next[id]++;
    return f_next[id] < f_end[id] && forced[f_next[id]].ops == T[id].ops;
}

static int choose(bool cur_ok) {
    int r[MAXT], n = 0;
    for (int i = 0; i < NT; ++i) if (T[i].state == RUNNABLE && (cur_ok || i != cur)) r[n++] = i;
    if (n == 0) return -1;
    if (n == 1) return r[0];
    switch (C.strategy) {
    case 5: {
        if (forced_due(cur)) {
            u32 to = forced[f_next[cur]++].to;
            if (to < (u32) NT && T[to].state == RUNNABLE) return (int) to;
        }
        if (cur_ok && T[cur].state == RUNNABLE) return cur;
        return r[0];
    }
    case 4:
        if (cur_ok && T[cur].state == RUNNABLE) return cur;
        return r[below(rs, n)];
    case 1: {
        int b = r[0];
        for (int i = 1; i < n; ++i) if (T[r[i]].prio > T[b].prio) b = r[i];
        return b;
    }
    case 2: {
        if (starved < 0 || T[starved].state != RUNNABLE || chance(rs, 5)) { starved = r[below(rs, n)]; S.starvations++; }
        int q[MAXT], m = 0;
        for (int i = 0; i < n; ++i) if (r[i] != starved) q[m++] = r[i];
        return m ? q[below(rs, m)] : r[0];
    }
    case 3:
        for (int i = 0; i < n; ++i) if (r[i] > cur) return r[i];
        return r[0];
    default:
        return r[below(rs, n)];
    }
}

static void deadlock() {
    char b[900]; describe(b, sizeof b);
    fail("deadlock", "no thread can make progress: %s", b);
}

/* Hands the baton over. Returns when this thread holds it again (never, when `leaving`). */
static NOINL void resched(bool cur_ok, bool leaving = false) {
    int me = cur, n;
    for (;;) {
        n = choose(cur_ok);
        if (n >= 0) break;
        if (cur_ok == false && T[me].state == RUNNABLE && !leaving) { n = me; break; }
        if (wake_timers()) continue;
        int q = -1;
        for (int i = 0; i < NT; ++i) if (T[i].state == BLOCKED && T[i].wait_kind == W_QUIESCE) { q = i; break; }
        if (q >= 0) { T[q].state = RUNNABLE; continue; }
        for (int i = 0; i < NT; ++i) if (T[i].state == BLOCKED && T[i].wait_kind == W_DRAIN) { q = i; break; }
        if (q >= 0) { T[q].state = RUNNABLE; continue; }
        deadlock();
    }
    budget = draw_budget();
    if (n == me && !leaving) { T[me].since_switch = 0; return; }
    T[me].since_switch = 0;
    log_switch(me, n);
    cur = n;
    unpark(n);
    if (!leaving) park(me);
}

static void lower_priority(Thr &t) { t.prio = --pct_low; }

static NOINL void slow_point() {
    Thr &t = T[cur];
    if (S.ops > C.max_ops) { char b[900]; describe(b, sizeof b); fail("no_progress", "run did not finish within %llu accesses: %s", (unsigned long long) C.max_ops, b); }
    if (t.nofail) { budget = 1000; return; }
    if (C.strategy == 1) {
        if (++t.since_switch > 3) { lower_priority(t); t.since_switch = 0; }
    }
    if (C.strategy == 4 || C.strategy == 5) {       /* spinning thread: give way */
        /* not before the next switch of the recorded schedule, which may be far away */
        u64 most = C.strategy == 4 ? 1 : f_next[t.id] < f_end[t.id] ? 1000 : 50;
        if (++t.since_switch > most) { t.since_switch = 0; S.preemptions++; resched(false); return; }
        budget = draw_budget(); return;
    }
    S.preemptions++;
    resched(true);
}

#ifdef DSIM_DEBUG           /* every event of a run, for comparing two executions */
static u64 dbg[1u << 20]; static u64 dbg_n;
static void note_event(u64 tag, u64 pc) { if (dbg_n < (1u << 20)) dbg[dbg_n++] = ((u64) cur << 56) | (tag << 40) | (pc & 0xffffffffffull); }
API u64 sim_debug(u64 *out, u64 cap) { u64 n = dbg_n < cap ? dbg_n : cap; memcpy(out, dbg, n * 8); return n; }
API void sim_debug_reset() { dbg_n = 0; }
#else
#define note_event(a, b) ((void) 0)
#endif

static inline void after_op(Thr &t) {
    t.ops++; S.ops++;
    if (__builtin_expect(C.strategy == 1 && pct_i < pct_n && S.ops >= pct_next[pct_i], 0)) {
        pct_i++; lower_priority(t);
        if (!t.nofail) { S.preemptions++; resched(true); return; }
    }
    if (__builtin_expect(C.strategy == 5, 0)) {
        if (f_next[t.id] < f_end[t.id] && !t.nofail && forced_due(t.id)) { resched(true); return; }
    }
    if (__builtin_expect(--budget <= 0, 0)) slow_point();
}

static inline bool live() { return active && my_tid >= 0 && !tl_guard; }

static void sync_point(u64 tag) {
    if (tag != 0xA0 && tag != 0x90) progress++;
    note_event(tag, (u64) ((uintptr_t) __builtin_return_address(0) - text_base));
    S.sync_ops++;
    hash(S.hash_all, ((u64) cur << 48) ^ tag ^ (T[cur].ops << 8));
    T[cur].ops++; S.ops++;
    if (T[cur].nofail) return;
    if (S.ops > C.max_ops) slow_point();
    if (C.strategy == 5) {
        if (forced_due(cur)) { resched(true); return; }
        if (--budget <= 0) slow_point();
        return;
    }
    if (C.strategy != 4 && chance(rs, C.sync_permille)) { S.preemptions++; resched(true); }
    else if (--budget <= 0) slow_point();
}

static inline void tick() { T[cur].ops++; S.ops++; }

static void block(int kind, const void *obj, i64 deadline = -1) {
    Thr &t = T[cur]; tick();
    t.state = BLOCKED; t.wait_kind = kind; t.wait_obj = obj; t.deadline = deadline; t.timed_out = false; t.signalled = false;
    resched(true);
    t.wait_kind = W_NONE; t.wait_obj = nullptr; t.deadline = -1;
}

static void wake_all(int kind, const void *obj) {
    for (int i = 0; i < NT; ++i) if (T[i].state == BLOCKED && T[i].wait_kind == kind && T[i].wait_obj == obj) { T[i].state = RUNNABLE; T[i].signalled = true; }
}

/* ------------------------------------------------------------------------------------------------ sync objects, vector clocks */

struct Obj { const void *addr; int owner; int aux; u32 vc[MAXT]; };
static const u32 NOBJ = 1u << 20;
static Obj *objs; static u32 n_objs; static u32 obj_used[NOBJ];

static Obj *obj(const void *a) {
    u32 h = (u32) (((uintptr_t) a * 0x9E3779B97F4A7C15ull) >> 40) & (NOBJ - 1);
    while (objs[h].addr && objs[h].addr != a) h = (h + 1) & (NOBJ - 1);
    if (!objs[h].addr) {
        if (n_objs >= NOBJ / 2) fail("harness", "too many synchronisation objects in one run");
        obj_used[n_objs++] = h;
        objs[h].addr = a; objs[h].owner = -1;
    }
    return &objs[h];
}
static inline void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < NT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static inline void acquire(Obj *o) { if (C.race) vc_join(T[cur].vc, o->vc); }
static inline void release(Obj *o) { if (C.race) { vc_join(o->vc, T[cur].vc); T[cur].vc[cur]++; } }

/* ------------------------------------------------------------------------------------------------ shadow memory */

struct Cell { u32 clk; u8 tid; u8 off; u8 size; u8 flags; u32 pc; };            /* flags: 1 used, 2 write, 4 atomic, 8 freed */
struct Granule { Cell c[4]; };
struct SPage { Granule g[512]; };
struct PEnt { uintptr_t page; SPage *sp; };
static const u32 NPAGE = 1u << 17;
static PEnt *ptab; static u32 n_ptab; static u32 p_used[NPAGE];
static SPage *pool_free[1u << 15]; static u32 n_free;
static uintptr_t last_page; static SPage *last_sp;

static SPage *spage(uintptr_t page, bool make) {
    if (page == last_page && last_sp) return last_sp;
    u32 h = (u32) ((page * 0x9E3779B97F4A7C15ull) >> 40) & (NPAGE - 1);
    while (ptab[h].sp && ptab[h].page != page) h = (h + 1) & (NPAGE - 1);
    if (!ptab[h].sp) {
        if (!make) return nullptr;
        if (n_ptab >= NPAGE / 2) fail("harness", "shadow memory exhausted");
        p_used[n_ptab++] = h;
        SPage *p;
        if (n_free) { p = pool_free[--n_free]; memset(p, 0, sizeof *p); }
        else {
            p = (SPage *) mmap(nullptr, sizeof(SPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED) fail("harness", "no memory for shadow");
        }
        ptab[h].page = page; ptab[h].sp = p;
    }
    last_page = page; last_sp = ptab[h].sp;
    return ptab[h].sp;
}

static void shadow_reset() {
    for (u32 k = 0; k < n_ptab; ++k) { u32 i = p_used[k];
        if (n_free < (1u << 15)) pool_free[n_free++] = ptab[i].sp; else munmap(ptab[i].sp, sizeof(SPage));
        ptab[i].sp = nullptr; ptab[i].page = 0;
    }
    n_ptab = 0; last_sp = nullptr; last_page = 0;
}

static void shadow_fill(uintptr_t a, size_t n, bool freed, u32 pc) {
    if (!n) return;
    uintptr_t e = a + n;
    if (freed) e = e & ~(uintptr_t) 7; else e = (e + 7) & ~(uintptr_t) 7;   /* heap blocks: 16-aligned */
    a &= ~(uintptr_t) 7;
    for (; a < e; a += 8) {
        SPage *sp = spage(a >> 12, freed);
        if (!sp) { a = ((a >> 12) + 1) << 12; a -= 8; continue; }
        Granule &g = sp->g[(a >> 3) & 511];
        memset(&g, 0, sizeof g);
        if (freed) { g.c[0].flags = 1 | 2 | 8; g.c[0].size = 8; g.c[0].tid = (u8) cur; g.c[0].clk = T[cur].vc[cur]; g.c[0].pc = pc; }
    }
}

static void race_found(const Cell &o, uintptr_t addr, bool w, u32 pc, const char *what) {
    S.races++;
    fail(what, "T%d %s at core+0x%x conflicts with T%d %s at core+0x%x without ordering (address ...%03lx)", cur, w ? "write" : "read", pc, o.tid,
         (o.flags & 8) ? "free" : (o.flags & 2) ? "write" : "read", o.pc, (unsigned long) (addr & 0xfff));
}

static void check_access(uintptr_t a, u32 size, bool w, bool atomic, u32 pc) {
    while (size) {
        u32 off = a & 7, n = 8 - off; if (n > size) n = size;
        SPage *sp = spage(a >> 12, true);
        Granule &g = sp->g[(a >> 3) & 511];
        int slot = -1, empty = -1;
        for (int i = 0; i < 4; ++i) {
            Cell &c = g.c[i];
            if (!(c.flags & 1)) { if (empty < 0) empty = i; continue; }
            if (c.flags & 8) race_found(c, a, w, pc, "use_after_free");
            if (c.off >= off + n || off >= (u32) c.off + c.size) continue;
            if (c.tid == cur) {
                if (c.off == off && c.size == n && ((c.flags >> 1) & 1) == (w ? 1 : 0) && ((c.flags >> 2) & 1) == (atomic ? 1 : 0)) slot = i;
                else if (w && off <= c.off && off + n >= (u32) c.off + c.size && !atomic) slot = (slot < 0) ? i : slot;
                continue;
            }
            if (!(w || (c.flags & 2))) continue;
            if (atomic && (c.flags & 4)) continue;
            if (c.clk > T[cur].vc[c.tid]) race_found(c, a, w, pc, "data_race");
        }
        if (slot < 0) slot = empty;
        if (slot < 0) slot = (int) ((T[cur].ops + a) & 3);
        Cell &c = g.c[slot];
        c.flags = 1 | (w ? 2 : 0) | (atomic ? 4 : 0); c.tid = (u8) cur; c.off = (u8) off; c.size = (u8) n; c.clk = T[cur].vc[cur]; c.pc = pc;
        a += n; size -= n;
    }
}

#define PC() ((u32) ((uintptr_t) __builtin_return_address(0) - text_base))

static inline void access(uintptr_t a, u32 size, bool w, u32 pc) {
    if (!live()) return;
    Thr &t = T[cur];
    if (w) progress++;
    note_event(1, pc);
    if (C.race && !t.nofail) check_access(a, size, w, false, pc);
    after_op(t);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void *a) { access((uintptr_t) a, n, false, PC()); } \
    void __tsan_write##n(void *a) { access((uintptr_t) a, n, true, PC()); } \
    void __tsan_unaligned_read##n(void *a) { access((uintptr_t) a, n, false, PC()); } \
    void __tsan_unaligned_write##n(void *a) { access((uintptr_t) a, n, true, PC()); } \
    void __tsan_volatile_read##n(void *a) { access((uintptr_t) a, n, false, PC()); } \
    void __tsan_volatile_write##n(void *a) { access((uintptr_t) a, n, true, PC()); } \
    void __tsan_unaligned_volatile_read##n(void *a) { access((uintptr_t) a, n, false, PC()); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access((uintptr_t) a, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access((uintptr_t) a, (u32) n, false, PC()); }
void __tsan_write_range(void *a, unsigned long n) { access((uintptr_t) a, (u32) n, true, PC()); }
/* counted whether or not it changes anything: the old content of fresh memory must not matter */
void __tsan_vptr_update(void **p, void *v) { if (!live()) return; note_event(1, PC()); progress++; if (*p != v && C.race && !T[cur].nofail) check_access((uintptr_t) p, 8, true, false, PC()); after_op(T[cur]); }
void __tsan_vptr_read(void **p) { access((uintptr_t) p, 8, false, PC()); }
}

/* atomics: performed as sequentially consistent; happens-before edges follow the requested order */
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void at_pre(const volatile void *a) { S.atomics++; sync_point(0xA0); (void) a; }
static void at_post(const volatile void *a, u32 size, bool w, int mo, bool rmw, u32 pc) {
    if (!C.race || T[cur].nofail) return;
    check_access((uintptr_t) a, size, w, true, pc);
    Obj *o = obj((const void *) a);
    if (acq(mo)) acquire(o);
    if (w) {
        if (rel(mo)) { if (!rmw) memset(o->vc, 0, sizeof o->vc); release(o); }
        else if (!rmw) memset(o->vc, 0, sizeof o->vc);
    }
}

#define ATOMIC(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { if (!live()) return __atomic_load_n(a, __ATOMIC_SEQ_CST); at_pre(a); ty v = *a; at_post(a, sizeof(ty), false, mo, false, PC()); return v; } \
    void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { if (!live()) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return; } at_pre(a); progress++; *a = v; at_post(a, sizeof(ty), true, mo, false, PC()); } \
    ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); at_pre(a); ty o = *a; *a = v; progress += o != v; at_post(a, sizeof(ty), true, mo, true, PC()); return o; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); at_pre(a); ty o = *a; *a = o + v; progress += o != *a; at_post(a, sizeof(ty), true, mo, true, PC()); return o; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); at_pre(a); ty o = *a; *a = o - v; progress += o != *a; at_post(a, sizeof(ty), true, mo, true, PC()); return o; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); at_pre(a); ty o = *a; *a = o & v; progress += o != *a; at_post(a, sizeof(ty), true, mo, true, PC()); return o; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); at_pre(a); ty o = *a; *a = o | v; progress += o != *a; at_post(a, sizeof(ty), true, mo, true, PC()); return o; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); at_pre(a); ty o = *a; *a = o ^ v; progress += o != *a; at_post(a, sizeof(ty), true, mo, true, PC()); return o; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { if (!live()) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); at_pre(a); ty o = *a; *a = ~(o & v); progress += o != *a; at_post(a, sizeof(ty), true, mo, true, PC()); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *e, ty d, int mo, int fmo) { \
        if (!live()) return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_pre(a); if (*a == *e) { progress += *a != d; *a = d; at_post(a, sizeof(ty), true, mo, true, PC()); return 1; } *e = *a; at_post(a, sizeof(ty), false, fmo, true, PC()); return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *e, ty d, int mo, int fmo) { \
        if (!live()) return __atomic_compare_exchange_n(a, e, d, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        at_pre(a); if (C.spurious_permille && !T[cur].nofail && chance(rg, 20)) { *e = *a; return 0; } \
        if (*a == *e) { progress += *a != d; *a = d; at_post(a, sizeof(ty), true, mo, true, PC()); return 1; } *e = *a; at_post(a, sizeof(ty), false, fmo, true, PC()); return 0; } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty e, ty d, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, d, mo, fmo); return e; }
extern "C" {
ATOMIC(8, u8) ATOMIC(16, uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int) { if (live()) sync_point(0xFE); }
void __tsan_atomic_signal_fence(int) {}
}

/* ------------------------------------------------------------------------------------------------ threads */

static void *trampoline(void *p) {
    int id = (int) (intptr_t) p;
    my_tid = id;
    __atomic_store_n(&T[id].attached, 1, __ATOMIC_RELEASE);
    fwake(&T[id].attached);
    park(id);
    T[id].ret = T[id].fn(T[id].arg);
    T[id].state = FINISHED;
    my_tid = -1; tick();
    void *r = T[id].ret;
    wake_all(W_JOIN, &T[id]);
    resched(false, true);
    return r;
}

static int new_slot() {
    for (int i = 1; i < NT; ++i) if (T[i].state == FINISHED && T[i].joined) return i;
    if (NT >= MAXT) fail("harness", "more than %d threads alive in one run", MAXT);
    return NT++;
}

static int alloc_thread() {
    int id = new_slot();
    Thr &t = T[id];
    u32 clk = t.vc[id]; u64 ops = t.ops;
    memset(&t, 0, sizeof t);
    t.ops = ops;
    t.id = id; t.state = RUNNABLE; t.deadline = -1;
    memcpy(t.vc, T[cur].vc, sizeof t.vc);
    t.vc[id] = (clk > T[cur].vc[id] ? clk : T[cur].vc[id]) + 1;
    T[cur].vc[cur]++;
    t.prio = 1000000 + below(rg, 1u << 30);
    S.threads++;
    u64 lv = 0; for (int i = 0; i < NT; ++i) if (T[i].state == RUNNABLE || T[i].state == BLOCKED) lv++;
    if (lv > S.max_live_threads) S.max_live_threads = lv;
    return id;
}

static void clear_stack(pthread_t th) {
    if (!C.race) return;
    pthread_attr_t at;
    if (pthread_getattr_np(th, &at)) return;
    void *lo; size_t sz; pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
    uintptr_t a = (uintptr_t) lo >> 12, e = ((uintptr_t) lo + sz) >> 12;
    last_sp = nullptr;
    for (; a < e; ++a) { SPage *sp = spage(a, false); if (sp) memset(sp, 0, sizeof *sp); }
}

extern "C" {

int __wrap_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!live()) return __real_pthread_create(out, attr, fn, arg);
    sync_point(0xC0);
    if (!T[cur].nofail) {
        ++thread_creations;
        if (C.thread_fail_at && thread_creations >= C.thread_fail_at && thread_creations < C.thread_fail_at + C.thread_fail_len) { S.thread_faults++; return EAGAIN; }
    }
    int id = alloc_thread();
    T[id].fn = fn; T[id].arg = arg; T[id].has_real = true;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2u << 20);
    tl_guard++;
    int rc = __real_pthread_create(&T[id].real, &at, trampoline, (void *) (intptr_t) id);
    tl_guard--;
    pthread_attr_destroy(&at);
    if (rc) fail("harness", "the sandbox refused a real thread (%d)", rc);
    fwait(&T[id].attached, 0);
    clear_stack(T[id].real);
    *out = T[id].real;
    if (C.strategy != 4 && C.strategy != 5 && !T[cur].nofail && chance(rs, C.sync_permille)) { S.preemptions++; tick(); resched(true); }
    else if (C.strategy == 5) { tick(); if (forced_due(cur)) resched(true); }
    else tick();
    return 0;
}

int __wrap_pthread_join(pthread_t th, void **ret) {
    if (!live()) return __real_pthread_join(th, ret);
    int id = -1;
    for (int i = 1; i < NT; ++i) if (T[i].has_real && !T[i].joined && !T[i].detached && T[i].state != FREE_SLOT && pthread_equal(T[i].real, th)) id = i;
    if (id < 0) return __real_pthread_join(th, ret);
    sync_point(0xC1);
    while (T[id].state != FINISHED) block(W_JOIN, &T[id]);
    T[id].joined = true;
    if (C.race) vc_join(T[cur].vc, T[id].vc);
    if (ret) *ret = T[id].ret;
    void *dummy; return __real_pthread_join(th, &dummy);
}

int __wrap_pthread_detach(pthread_t th) {
    if (!live()) return __real_pthread_detach(th);
    for (int i = 1; i < NT; ++i) if (T[i].has_real && !T[i].joined && T[i].state != FREE_SLOT && pthread_equal(T[i].real, th)) { T[i].detached = true; T[i].joined = true; }
    return __real_pthread_detach(th);
}

/* ---- mutex ---- */
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!live()) return __real_pthread_mutex_lock(m);
    sync_point(0xD0);
    Obj *o = obj(m);
    while (o->owner >= 0) { block(W_MUTEX, m); }
    o->owner = cur; acquire(o);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!live()) return __real_pthread_mutex_trylock(m);
    sync_point(0xD1);
    Obj *o = obj(m);
    if (o->owner >= 0) return EBUSY;
    o->owner = cur; acquire(o);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!live()) return __real_pthread_mutex_unlock(m);
    Obj *o = obj(m);
    if (o->owner != cur) fail("mutex_misuse", "T%d unlocks a mutex owned by T%d", cur, o->owner);
    release(o); o->owner = -1;
    wake_all(W_MUTEX, m);
    sync_point(0xD2);
    return 0;
}

/* ---- condition variables ---- */
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, i64 deadline) {
    Obj *o = obj(m);
    if (o->owner != cur) fail("mutex_misuse", "T%d waits on a condition without owning its mutex", cur);
    sync_point(0xE0);
    release(o); o->owner = -1; wake_all(W_MUTEX, m);
    bool spurious = !T[cur].nofail && chance(rf, C.spurious_permille);
    bool timed_out = false;
    if (spurious) { S.spurious++; S.preemptions++; tick(); resched(true); }
    else { block(W_COND, c, deadline); timed_out = T[cur].timed_out && !T[cur].signalled; }
    while (o->owner >= 0) block(W_MUTEX, m);
    o->owner = cur; acquire(o);
    return timed_out ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!live()) return __real_pthread_cond_wait(c, m);
    return cond_wait(c, m, -1);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (!live()) return __real_pthread_cond_timedwait(c, m, t);
    return cond_wait(c, m, (i64) t->tv_sec * 1000000000ll + t->tv_nsec);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    if (!live()) return __real_pthread_cond_clockwait(c, m, k, t);
    return cond_wait(c, m, (i64) t->tv_sec * 1000000000ll + t->tv_nsec);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (!live()) return __real_pthread_cond_signal(c);
    int w[MAXT], n = 0;
    for (int i = 0; i < NT; ++i) if (T[i].state == BLOCKED && T[i].wait_kind == W_COND && T[i].wait_obj == c) w[n++] = i;
    if (n) { int k = w[below(rg, n)]; T[k].state = RUNNABLE; T[k].signalled = true; }
    sync_point(0xE1);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    if (!live()) return __real_pthread_cond_broadcast(c);
    wake_all(W_COND, c);
    sync_point(0xE2);
    return 0;
}

/* ---- once ---- */
struct OnceGuard { Obj *o; pthread_once_t *k; bool done; ~OnceGuard() { o->owner = -1; if (done) *k = 2; release(o); wake_all(W_ONCE, k); } };
int __wrap_pthread_once(pthread_once_t *k, void (*fn)(void)) {
    if (!live()) return __real_pthread_once(k, fn);
    sync_point(0xF0);
    Obj *o = obj(k);
    for (;;) {
        if (*k == 2) { acquire(o); return 0; }
        if (o->owner < 0) break;
        block(W_ONCE, k);
    }
    o->owner = cur;
    OnceGuard g = { o, k, false };
    fn();
    g.done = true;
    return 0;
}

/* ---- std::future's futex ---- */
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(
        void *self, unsigned *a, unsigned v, bool timed, i64 s, i64 ns) {
    (void) self;
    if (!live()) {      /* outside a run: plain futex */
        struct timespec ts = { s, ns };
        for (;;) {
            if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) return true;
            if (syscall(SYS_futex, a, FUTEX_WAIT_BITSET | (timed ? FUTEX_CLOCK_REALTIME : 0), v, timed ? &ts : nullptr, nullptr, 0xffffffff) == -1 && errno == ETIMEDOUT) return false;
        }
    }
    sync_point(0xB0);
    while (*a == v) {
        block(W_FUTEX, a, timed ? s * 1000000000ll + ns : -1);
        if (timed && T[cur].timed_out && !T[cur].signalled) return false;
    }
    return true;
}
void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(void *self, unsigned *a) {
    (void) self;
    if (!live()) { syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0); return; }
    wake_all(W_FUTEX, a);
    sync_point(0xB1);
}

/* ---- time ---- */
/* Every runnable thread does nothing but yield: whoever waits for quiescence or for a time may go on. */
static const u64 STALL = 32;
static bool stalled() {
    Thr &t = T[cur];
    if (t.stall_mark == progress) t.stall_n++; else { t.stall_mark = progress; t.stall_n = 1; }
    if (t.stall_n < STALL) return false;
    u64 least = t.stall_n;
    for (int i = 0; i < NT; ++i) if (T[i].state == RUNNABLE) {
        if (T[i].stall_mark != progress || T[i].stall_n < STALL) return false;
        if (T[i].stall_n < least) least = T[i].stall_n;
    }
    if (wake_timers()) { progress++; return true; }
    for (int i = 0; i < NT; ++i) if (T[i].state == BLOCKED && T[i].wait_kind == W_QUIESCE) { T[i].state = RUNNABLE; progress++; return true; }
    if (least > 20 * STALL) { char b[900]; describe(b, sizeof b); fail("deadlock", "every runnable thread spins in vain: %s", b); }
    return true;
}
int __wrap_sched_yield(void) {
    if (!live()) return __real_sched_yield();
    sync_point(0x90);
    Thr &t = T[cur];
    if (t.nofail) return 0;
    tick();
    if (C.strategy == 1) lower_priority(t);
    bool all_spin = stalled();
    if (all_spin) starved = -1;
    resched(false);
    return 0;
}
static void sim_sleep(i64 ns) {
    S.sleeps++;
    if (ns <= 0) { __wrap_sched_yield(); return; }
    i64 until = sim_now + ns;
    sync_point(0x91);
    block(W_SLEEP, &sim_now, until);
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *rem) {
    if (!live()) return __real_nanosleep(t, rem);
    sim_sleep((i64) t->tv_sec * 1000000000ll + t->tv_nsec); return 0;
}
int __wrap_clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *rem) {
    if (!live()) return __real_clock_nanosleep(k, fl, t, rem);
    i64 v = (i64) t->tv_sec * 1000000000ll + t->tv_nsec;
    sim_sleep(fl ? v - sim_now : v); return 0;
}
static i64 read_clock(bool wall) {
    S.clock_reads++;
    if (C.clock_step) { i64 d = below(re, C.clock_step + 1); sim_now += d; S.sim_ns += d; }
    static i64 skew = 0;
    if (S.clock_reads == 1) skew = 0;
    if (wall && C.clock_jump_permille && chance(re, C.clock_jump_permille)) { S.clock_jumps++; skew += (i64) below(re, 20000000000000ull) - 10000000000000ll; }
    i64 v = sim_now + (wall ? skew : 0);
    return v < 0 ? 0 : v;
}
int __wrap_clock_gettime(clockid_t k, struct timespec *t) {
    if (!live()) return __real_clock_gettime(k, t);
    i64 v = read_clock(k == CLOCK_REALTIME); t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll; return 0;
}
time_t __wrap_time(time_t *p) {
    if (!live()) return __real_time(p);
    time_t v = read_clock(true) / 1000000000ll; if (p) *p = v; return v;
}
i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv(void) {
    if (!live()) { struct timespec t; __real_clock_gettime(CLOCK_REALTIME, &t); return (i64) t.tv_sec * 1000000000ll + t.tv_nsec; }
    return read_clock(true);
}
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv(void) {
    if (!live()) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return (i64) t.tv_sec * 1000000000ll + t.tv_nsec; }
    return read_clock(false);
}

/* ---- entropy ---- */
static u64 entropy() {
    S.entropy_draws++;
    u64 v = mix(re);
    switch (C.entropy_mode) {
    case 1: return 0;
    case 2: return ~0ull;
    case 3: return v & 3;
    case 4: return 0x5555555555555555ull;
    default: return v;
    }
}
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void *self) {
    (void) self;
    if (!live()) { static u64 boot = 0x12345; return (unsigned) mix(boot); }
    return (unsigned) entropy();
}
void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) {}
void __wrap__ZNSt13random_device7_M_initERKSs(void *, const void *) {}
void __wrap__ZNSt13random_device7_M_finiEv(void *) {}
static u64 c_rand_state = 1;
int __wrap_rand(void) { return (int) (mix(c_rand_state) & 0x7fffffff); }
void __wrap_srand(unsigned s) { c_rand_state = s; }

unsigned __wrap__ZNSt6thread20hardware_concurrencyEv(void) {
    const char *e = getenv("DSIM_CORES");
    return e ? (unsigned) atoi(e) : 4u;
}

/* ---- heap ---- */
static bool alloc_fault() {
    if (!live()) return false;
    Thr &t = T[cur];
    if (t.nofail) return false;
    ++alloc_count; S.allocs++;
    if (C.alloc_fail_at && alloc_count >= C.alloc_fail_at && alloc_count < C.alloc_fail_at + C.alloc_fail_len) { S.alloc_faults++; return true; }
    return false;
}
/* Our own heap: addresses are a function of the run (never of what ran before), contents of fresh memory are chosen by the run,
 * freed memory is overwritten, a second release of a block is seen. Arena 0 serves what is allocated between runs. */
struct Hdr { u32 magic; uint16_t cls; uint8_t counted, arena; u64 size; };
static const u32 M_LIVE = 0x51AB1EEDu, M_FREE = 0xDEADF4EEu;
static const int NCLS = 64 + 40;
struct Arena { char *lo, *bump, *hi; Hdr *freel[NCLS]; u64 live; int down; };
static Arena arenas[2];
static int heap_lock;
static const u64 HEAP0 = 1ull << 32, HEAP1 = 1ull << 36;
static const u64 fills[] = { 0, ~0ull, 0xA5A5A5A5A5A5A5A5ull, 0x0101010101010101ull, 0x4059000000000000ull, 0x00007f0000000001ull };

static void heap_init() {
    const char *e = getenv("DSIM_CORES");
    char *want = (char *) (0x610000000000ull + (u64) (e ? atoi(e) & 63 : 63) * (HEAP0 + HEAP1));
    char *m = (char *) mmap(want, HEAP0 + HEAP1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) _exit(87);
    arenas[0].lo = arenas[0].bump = m; arenas[0].hi = m + HEAP0;
    arenas[1].lo = arenas[1].bump = m + HEAP0; arenas[1].hi = m + HEAP0 + HEAP1;
}
static void heap_enter() {
    while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) __real_sched_yield();
    if (!arenas[0].lo) heap_init();
}
static void heap_leave() { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
static inline bool ours(const void *p) { return (char *) p >= arenas[0].lo && (char *) p < arenas[1].hi; }
static inline int heap_class(size_t n, size_t &room) {
    if (n <= 1024) { int c = n ? (int) ((n + 15) / 16) : 1; room = (size_t) c * 16; return c - 1; }
    int c = 64; room = 2048;
    while (room < n) { room <<= 1; ++c; }
    return c;
}
static inline size_t block_size(void *p) { return ours(p) ? ((((Hdr *) p) - 1)->size + 15) & ~(size_t) 15 : malloc_usable_size(p); }
static void fill(void *p, size_t n, u64 w) { u64 *q = (u64 *) p; for (size_t i = 0; i < (n + 7) / 8; ++i) q[i] = w; }

static void *heap_alloc(size_t n, bool zero) {
    if (n > HEAP1 / 4) { errno = ENOMEM; return nullptr; }
    size_t room; int c = heap_class(n, room);
    heap_enter();
    int ai = (active && !tl_guard && my_tid >= 0) ? 1 : 0;
    Arena &a = arenas[ai];
    Hdr *h = a.freel[c];
    if (h) a.freel[c] = *(Hdr **) (h + 1);
    else {
        if ((size_t) (a.down ? a.bump - a.lo : a.hi - a.bump) < room + sizeof(Hdr)) { heap_leave(); errno = ENOMEM; return nullptr; }
        if (a.down) { a.bump -= room + sizeof(Hdr); h = (Hdr *) a.bump; }
        else { h = (Hdr *) a.bump; a.bump += room + sizeof(Hdr); }
    }
    a.live++;
    heap_leave();
    h->magic = M_LIVE; h->cls = (uint16_t) c; h->arena = (uint8_t) ai; h->size = n; h->counted = 0;
    if (zero) memset(h + 1, 0, n);
    else fill(h + 1, n, active ? fills[(C.heap_fill & 7) % 6] : 0);
    return h + 1;
}
static void heap_free(void *p) {
    if (!ours(p)) { __real_free(p); return; }
    Hdr *h = (Hdr *) p - 1;
    h->magic = M_FREE;
    fill(p, h->size, active ? fills[((C.heap_fill & 7) + 1) % 6] : 0xDBDBDBDBDBDBDBDBull);
    heap_enter();
    Arena &a = arenas[h->arena];
    *(Hdr **) (h + 1) = a.freel[h->cls]; a.freel[h->cls] = h; a.live--;
    heap_leave();
}
static void heap_begin() {      /* a run starts on an empty heap, unless objects of an earlier one are still alive */
    heap_enter();
    Arena &a = arenas[1];
    if (!a.live) {
        if (!a.down && a.bump - a.lo > (256 << 20)) madvise(a.lo, a.bump - a.lo, MADV_DONTNEED);
        if (a.down && a.hi - a.bump > (256 << 20)) { char *from = (char *) ((uintptr_t) a.bump & ~4095ull); madvise(from, a.hi - from, MADV_DONTNEED); }
        a.down = (C.heap_fill & 8) != 0;        /* later blocks below or above earlier ones */
        a.bump = a.down ? a.hi : a.lo;
        for (int i = 0; i < NCLS; ++i) a.freel[i] = nullptr;
    }
    heap_leave();
}
static inline void account(void *p) {
    if (!p || tl_guard) return;
    if (ours(p)) (((Hdr *) p) - 1)->counted = 1;
    __atomic_fetch_add(&g_live_allocs, 1, __ATOMIC_RELAXED); __atomic_fetch_add(&g_live_bytes, block_size(p), __ATOMIC_RELAXED);
}
static inline void unaccount(void *p) {
    if (ours(p)) { Hdr *h = (Hdr *) p - 1; if (!h->counted) return; h->counted = 0; }
    else return;
    __atomic_fetch_sub(&g_live_allocs, 1, __ATOMIC_RELAXED); __atomic_fetch_sub(&g_live_bytes, block_size(p), __ATOMIC_RELAXED);
}
static void check_block(void *p) {
    if (!ours(p)) {
        if (live()) fail("invalid free", "memory at %p, which does not come from the heap of the core, is released by T%d", p, cur);
        return;
    }
    Hdr *h = (Hdr *) p - 1;
    if (((uintptr_t) p & 15) || h->magic != M_LIVE)
        fail(h->magic == M_FREE ? "double free" : "invalid free", "block %p released %s (T%d, pc %x)", p, h->magic == M_FREE ? "a second time" : "is not a block of the heap", my_tid, PC());
}
static void **quar; static u64 n_quar; static const u64 CAP_QUAR = 1u << 20;

void *__wrap_malloc(size_t n) {
    if (alloc_fault()) { errno = ENOMEM; return nullptr; }
    void *p = heap_alloc(n, false); account(p);
    if (p && live() && C.race) shadow_fill((uintptr_t) p, block_size(p), false, 0);
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    if (alloc_fault()) { errno = ENOMEM; return nullptr; }
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void *p = heap_alloc(n, true); account(p);
    if (p && live() && C.race) shadow_fill((uintptr_t) p, block_size(p), false, 0);
    return p;
}
void __wrap_free(void *p) {
    if (!p) return;
    if (live() && C.race && C.quarantine && ours(p) && ((Hdr *) p - 1)->magic == M_LIVE) {
        unaccount(p);
        size_t n = block_size(p);
        u32 pc = PC();
        if (n_quar < CAP_QUAR && !T[cur].nofail) {
            for (size_t off = 0; off + 8 <= n; off += 8) {      /* freeing is a write to the whole block */
                SPage *sp = spage(((uintptr_t) p + off) >> 12, false);
                if (!sp) { off = ((((uintptr_t) p + off) >> 12) + 1 << 12) - (uintptr_t) p - 8; continue; }
                Granule &g = sp->g[(((uintptr_t) p + off) >> 3) & 511];
                for (int i = 0; i < 4; ++i) {
                    Cell &c = g.c[i];
                    if ((c.flags & 1) && (c.flags & 8)) race_found(c, (uintptr_t) p + off, true, pc, "double_free");
                    if ((c.flags & 1) && c.tid != cur && c.clk > T[cur].vc[c.tid] && !(c.flags & 4)) race_found(c, (uintptr_t) p + off, true, pc, "free_race");
                }
            }
            shadow_fill((uintptr_t) p, n, true, pc);
            quar[n_quar++] = p; S.quarantined++;
            return;
        }
        shadow_fill((uintptr_t) p, n, false, 0);
        heap_free(p);
        return;
    }
    check_block(p);
    unaccount(p);
    if (live() && C.race) shadow_fill((uintptr_t) p, block_size(p), false, 0);
    heap_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (n == 0) { __wrap_free(p); return nullptr; }
    if (alloc_fault()) { errno = ENOMEM; return nullptr; }
    check_block(p);
    void *q = heap_alloc(n, false);
    if (!q) return nullptr;
    account(q);
    size_t old = ((Hdr *) p - 1)->size;
    memcpy(q, p, old < n ? old : n);
    if (live() && C.race) shadow_fill((uintptr_t) q, block_size(q), false, 0);
    __wrap_free(p);
    return q;
}

/* ---- files ---- */
static bool is_file(int fd) { return fd > 2 && fd != fail_fd; }
static u64 write_broken;
static ssize_t faulted_write(int fd, const void *b, size_t n) {
    if (!live() || !is_file(fd) || T[cur].nofail) return __real_write(fd, b, n);
    ++write_count;
    sync_point(0x70);
    if (write_broken) { S.write_faults++; errno = ENOSPC; return -1; }
    if (C.write_fail_at && write_count >= C.write_fail_at) {
        if (C.write_fault == 5) { S.write_faults++; size_t k = n > 1 ? 1 + below(rf, n - 1) : n; return __real_write(fd, b, k); }
        if (write_count == C.write_fail_at) {
            S.write_faults++;
            switch (C.write_fault) {
            case 1: errno = ENOSPC; return -1;
            case 2: write_broken = 1; errno = ENOSPC; return -1;
            case 3: write_broken = 1; return n > 1 ? __real_write(fd, b, 1 + below(rf, n - 1)) : (errno = ENOSPC, -1);
            case 4: errno = EIO; return -1;
            case 6: errno = EINTR; return -1;
            default: break;
            }
        }
    }
    return __real_write(fd, b, n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return faulted_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
    if (!live() || !is_file(fd) || T[cur].nofail) return __real_writev(fd, v, n);
    for (int i = 0; i < n; ++i) if (v[i].iov_len) return faulted_write(fd, v[i].iov_base, v[i].iov_len);   /* a legal short writev */
    return 0;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (!live() || !is_file(fd) || T[cur].nofail) return __real_read(fd, b, n);
    ++read_count;
    sync_point(0x71);
    if (C.read_fail_at && read_count >= C.read_fail_at) {
        if (C.read_fault == 2) { S.read_faults++; return __real_read(fd, b, n > 1 ? 1 + below(rf, n - 1 < 64 ? n - 1 : 64) : n); }
        if (read_count == C.read_fail_at) { S.read_faults++; errno = (C.read_fault == 3) ? EINTR : EIO; return -1; }
    }
    return __real_read(fd, b, n);
}

/* The C library keeps copying primitives out of sight of the instrumentation: make them visible to the detector. */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
static void mem_access(const void *a, size_t n, bool w, u32 pc) {
    if (!live() || !C.race || !n || T[cur].nofail) return;
    check_access((uintptr_t) a, (u32) n, w, false, pc);
    after_op(T[cur]);
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { mem_access(s, n, false, PC()); mem_access(d, n, true, PC()); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { mem_access(s, n, false, PC()); mem_access(d, n, true, PC()); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { mem_access(d, n, true, PC()); return __real_memset(d, v, n); }

} /* extern "C" */

/* ------------------------------------------------------------------------------------------------ control interface */

API void sim_init(int fd, const char *trace_path, u64 cap) {
    fail_fd = fd;
    if (trace_path && *trace_path) {
        int f = open(trace_path, O_RDWR | O_CREAT | O_TRUNC, 0644);
        size_t len = 8 + cap * sizeof(Switch);
        if (f >= 0 && ftruncate(f, len) == 0) {
            void *m = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
            if (m != MAP_FAILED) { trace_n = (u64 *) m; trace = (Switch *) ((char *) m + 8); trace_cap = cap; }
        }
        if (f >= 0) close(f);
    }
    if (!trace_n) {
        void *m = mmap(nullptr, 8 + cap * sizeof(Switch), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m != MAP_FAILED) { trace_n = (u64 *) m; trace = (Switch *) ((char *) m + 8); trace_cap = cap; }
    }
    if (!objs) {
        objs = (Obj *) mmap(nullptr, sizeof(Obj) * NOBJ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        ptab = (PEnt *) mmap(nullptr, sizeof(PEnt) * NPAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        quar = (void **) mmap(nullptr, sizeof(void *) * CAP_QUAR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
}
API void sim_set_text_base(u64 b) { text_base = b; }
API void sim_set_forced(const Switch *s, u32 n) { memcpy(forced, s, sizeof(Switch) * (n < 65536 ? n : 65536)); }

API void sim_begin(const Config *c) {
    if (active) fail("harness", "nested run");
    C = *c;
    memset(&S, 0, sizeof S);
    memset(T, 0, sizeof T);
    for (u32 i = 0; i < n_objs; ++i) memset(&objs[obj_used[i]], 0, sizeof(Obj));
    n_objs = 0;
    shadow_reset(); progress = 1;
    for (int i = 0; i < MAXT; ++i) f_next[i] = f_end[i] = 0;
    if (C.strategy == 5) {
        u32 k = 0;
        for (u32 i = 0; i < MAXT; ++i) { f_next[i] = k; while (k < C.n_forced && forced[k].from == i) k++; f_end[i] = k; }
    }
    if (trace_n) *trace_n = 0;
    heap_begin();
    rs = c->seed * 0x9E3779B97F4A7C15ull + 1; re = c->entropy_seed * 0xD1342543DE82EF95ull + 7; rf = c->fault_seed * 0xA0761D6478BD642Full + 3; rg = c->fault_seed * 0xE7037ED1A0B428DBull + 11;
    c_rand_state = 1; thread_creations = alloc_count = write_count = read_count = 0; write_broken = 0;
    sim_now = (i64) c->clock_base; starved = -1;
    pct_low = 900000; pct_i = 0; pct_n = c->pct_depth > 16 ? 16 : c->pct_depth;
    for (u32 i = 0; i < pct_n; ++i) {
        u64 v = below(rs, c->mean_run ? c->mean_run * 64ull : 4096) + 1;
        u32 j = i; while (j > 0 && pct_next[j - 1] > v) { pct_next[j] = pct_next[j - 1]; --j; } pct_next[j] = v;
    }
    NT = 1; cur = 0;
    T[0].id = 0; T[0].state = RUNNABLE; T[0].deadline = -1; T[0].vc[0] = 1; T[0].prio = 1000000 + below(rg, 1u << 30);
    my_tid = 0;
    budget = draw_budget();
    active = 1;
}

API int sim_live_threads() { int n = 0; for (int i = 1; i < NT; ++i) if (T[i].state == RUNNABLE || T[i].state == BLOCKED) n++; return n; }

/* Lets everything else run until it can run no more, then returns the number of threads still blocked. */
API int sim_quiesce() {
    if (!live()) return 0;
    Thr &t = T[cur];
    int keep = t.nofail; t.nofail = 0;
    tick();
    t.state = BLOCKED; t.wait_kind = W_QUIESCE; t.wait_obj = &t; t.deadline = -1;
    resched(true);
    t.wait_kind = W_NONE; t.nofail = keep;
    return sim_live_threads();
}

API int sim_end(Stats *out) {
    if (!active) return -1;
    T[cur].nofail = 0;
    while (sim_live_threads()) {
        int runnable = 0;
        for (int i = 1; i < NT; ++i) if (T[i].state == RUNNABLE) runnable++;
        if (!runnable && !wake_timers()) break;
        tick();
        T[0].state = BLOCKED; T[0].wait_kind = W_DRAIN; T[0].wait_obj = nullptr; T[0].deadline = -1;
        resched(true);
        T[0].wait_kind = W_NONE;
    }
    for (int i = 1; i < NT; ++i) {
        if (T[i].state == BLOCKED) S.blocked_at_end++;
        else if (T[i].state == FINISHED && !T[i].joined) S.unjoined++;
    }
    hash(S.hash_all, S.hash_inter); hash(S.hash_all, S.ops);
    active = 0; my_tid = -1;
    for (u64 i = 0; i < n_quar; ++i) heap_free(quar[i]);
    n_quar = 0;
    S.live_allocs = g_live_allocs; S.live_bytes = g_live_bytes;
    if (out) *out = S;
    return (int) S.blocked_at_end;
}
API void sim_stats(Stats *out) { *out = S; out->live_allocs = g_live_allocs; out->live_bytes = g_live_bytes; }
API u64 sim_live_allocs() { return g_live_allocs; }
API u64 sim_live_bytes() { return g_live_bytes; }
API u64 sim_trace(Switch *out, u64 cap) { u64 n = trace_n ? *trace_n : 0; if (n > cap) n = cap; if (n) memcpy(out, trace, n * sizeof(Switch)); return n; }

API void sim_pause() { if (active && my_tid >= 0) T[cur].nofail++; }
API void sim_resume() { if (active && my_tid >= 0 && T[cur].nofail) T[cur].nofail--; }
API int sim_tid() { return active ? my_tid : -1; }
API u64 sim_step() { return S.ops; }
API void sim_yield() { if (live()) { S.sync_ops++; T[cur].ops++; S.ops++; if (T[cur].nofail) return; resched(true); } }
API void sim_point() { if (live()) sync_point(0x60); }
API u64 sim_random(u64 n) { return live() ? below(rf, n) : 0; }
API void sim_alloc_arm(u64 at, u64 len) { C.alloc_fail_at = at ? alloc_count + at : 0; C.alloc_fail_len = len; }
API u64 sim_alloc_count() { return alloc_count; }
API void sim_thread_arm(u64 at, u64 len) { C.thread_fail_at = at ? (u32) (thread_creations + at) : 0; C.thread_fail_len = (u32) len; }
API u64 sim_thread_count() { return thread_creations; }
API u64 sim_fault_count() { return S.alloc_faults + S.thread_faults; }
API void sim_fail(const char *kind, const char *msg) { fail(kind, "%s", msg); }

/* one-shot events for harness tasks */
API void sim_event_wait(volatile int *e) { if (!live()) return; sync_point(0x61); while (!*e) block(W_EVENT, (const void *) e); acquire(obj((const void *) e)); }
API void sim_event_set(volatile int *e) { *e = 1; if (!live()) return; release(obj((const void *) e)); wake_all(W_EVENT, (const void *) e); sync_point(0x62); }

/* threads that belong to the host interpreter */
static i64 py_budget();
API int sim_py_alloc() { if (!live()) return -1; int id = alloc_thread(); T[id].has_real = false; T[id].py = py_budget(); return id; }
API void sim_py_attach(int id) { clear_stack(pthread_self()); my_tid = id; __atomic_store_n(&T[id].attached, 1, __ATOMIC_RELEASE); fwake(&T[id].attached); park(id); }
API void sim_py_await(int id) { fwait(&T[id].attached, 0); }
API void sim_py_detach() { int id = my_tid; T[id].state = FINISHED; my_tid = -1; tick(); wake_all(W_JOIN, &T[id]); resched(false, true); }
API void sim_py_join(int id) { sync_point(0xC1); while (T[id].state != FINISHED) block(W_JOIN, &T[id]); T[id].joined = true; if (C.race) vc_join(T[cur].vc, T[id].vc); }
/* one interpreter line has run; called holding the interpreter lock. Nonzero: call sim_py_switch() without it */
static char interpreter_lock;
static i64 py_budget() {
    u64 m = C.mean_run < 4 ? 4 : C.mean_run; if (m > 400) m = 400;
    return 1 + (i64) below(rs, m);
}
API int sim_py_tick(int hot) {
    if (!live()) return 0;
    Thr &t = T[cur];
    t.ops++; S.ops++;
    if (t.nofail) return 0;
    if (C.race) { Obj *o = obj(&interpreter_lock); acquire(o); release(o); }
    if (S.ops > C.max_ops) return 1;
    if (hot && C.strategy < 4 && chance(rs, C.py_hot_permille)) return 1;
    switch (C.strategy) {
    case 5: return forced_due(cur);
    case 4: return 0;
    case 1: return pct_i < pct_n && S.ops >= pct_next[pct_i];
    default: return --t.py <= 0;
    }
}
API void sim_py_switch() {
    if (!live()) return;
    Thr &t = T[cur];
    if (S.ops > C.max_ops) { slow_point(); return; }
    if (C.strategy == 1) { pct_i++; lower_priority(t); }
    else if (C.strategy != 5) t.py = py_budget();
    S.preemptions++;
    resched(true);
}
