/* Workloads for the parallel layer: loops, thread pool, spin lock. Compiled with the same instrumentation as the core. */
#include "dsim.h"
#include <atomic>
#include <cstdio>
#include <cstring>
#include <deque>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#include <pyclustering/parallel/parallel.hpp>
#include <pyclustering/parallel/spinlock.hpp>
#include <pyclustering/parallel/thread_pool.hpp>

using namespace pyclustering::parallel;

/* ------------------------------------------------------------------------------------------------ loops (C01) */

struct LoopJob {
    i64 kind;               /* 0 size_t, 1 int, 2 long long, 3 unsigned, 4 short index; 10 vector, 11 deque, 12 pointers, 13 container overload, 14 two-bound overload */
    i64 start, end, step;
    i64 threads;            /* -1: the default */
    i64 work;               /* accesses per body */
    i64 inner;              /* iterations of a nested loop per body, 0 = none */
    i64 n_throw;
    i64 throws[8];          /* element positions at which the body throws */
};
struct LoopOut {
    i64 status;             /* 0 returned, 1 body's exception, 2 system_error, 3 other exception */
    i64 thrown;             /* position carried by the exception */
    i64 outside;            /* bodies run for something that is not in the sequence */
    i64 first_outside;
    i64 late;               /* bodies that ran after the loop had ended */
    i64 active_at_end;      /* bodies running when the loop ended */
    i64 bad_inner;          /* nested loops that were incomplete */
    i64 live_threads;
};

struct BodyError { i64 at; };

struct LoopState {
    const LoopJob *job; LoopOut *out;
    std::atomic<int> *hits; i64 n; i64 *values;
    int ended, active;
    std::string what;

    void body(i64 position, bool valid, i64 raw) {
        if (!valid) { Quiet q; if (!out->outside++) out->first_outside = raw; return; }
        struct Inside {
            LoopState &s;
            explicit Inside(LoopState &p) : s(p) { Quiet q; s.active++; if (s.ended) s.out->late++; }
            ~Inside() { Quiet q; s.active--; if (s.ended) s.out->late++; }
        } inside(*this);
        hits[position].fetch_add(1, std::memory_order_relaxed);
        for (i64 k = 0; k < job->work; ++k) values[position] += k;
        values[position] += 1;
        if (job->inner > 0) nested();
        bool boom = false;
        for (i64 k = 0; k < job->n_throw; ++k) boom |= (job->throws[k] == position);
        if (boom) throw BodyError { position };
    }
    void nested() {
        std::vector<int> seen(job->inner, 0);
        parallel_for(std::size_t(0), (std::size_t) job->inner, std::size_t(1), [&seen](const std::size_t i) { seen[i]++; },
                     job->threads < 0 ? AMOUNT_THREADS : (std::size_t) job->threads);
        for (int v : seen) if (v != 1) { Quiet q; out->bad_inner++; }
    }
};

template <typename T> static void indexed(LoopState &s) {
    const LoopJob &j = *s.job;
    auto act = [&s, &j](const T i) {
        i64 d = (i64) i - j.start;
        bool ok = d >= 0 && (i64) i < j.end && d % j.step == 0 && d / j.step < s.n;
        s.body(ok ? d / j.step : 0, ok, (i64) i);
    };
    if (j.threads < 0) parallel_for((T) j.start, (T) j.end, (T) j.step, act);
    else parallel_for((T) j.start, (T) j.end, (T) j.step, act, (std::size_t) j.threads);
}

template <typename C> static void ranged(LoopState &s, C &c) {
    const LoopJob &j = *s.job;
    auto act = [&s](const i64 &v) { s.body(v, v >= 0 && v < s.n, v); };
    if (j.threads < 0) parallel_for_each(c.begin(), c.end(), act);
    else parallel_for_each(c.begin(), c.end(), act, (std::size_t) j.threads);
}

WL void wl_loop(const LoopJob *job, LoopOut *out, int *hits_out, i64 n, i64 *values) {
    std::unique_ptr<std::atomic<int>[]> hits;
    std::vector<i64> elements; std::deque<i64> line;
    {
        Quiet q;
        hits.reset(new std::atomic<int>[n + 1]);
        for (i64 i = 0; i <= n; ++i) hits[i] = 0;
        for (i64 i = 0; i < n; ++i) { elements.push_back(i); line.push_back(i); }
    }
    memset(out, 0, sizeof *out);
    LoopState s { job, out, hits.get(), n, values, 0, 0, "" };
    int status = 0;
    try {
        switch (job->kind) {
        case 0: indexed<std::size_t>(s); break;
        case 1: indexed<int>(s); break;
        case 2: indexed<long long>(s); break;
        case 3: indexed<unsigned>(s); break;
        case 4: indexed<unsigned long>(s); break;
        case 10: ranged(s, elements); break;
        case 11: ranged(s, line); break;
        case 12: {
            i64 *p = elements.data();
            auto act = [&s](const i64 &v) { s.body(v, v >= 0 && v < s.n, v); };
            if (job->threads < 0) parallel_for_each(p, p + n, act); else parallel_for_each(p, p + n, act, (std::size_t) job->threads);
            break;
        }
        case 13: parallel_for_each(elements, [&s](const i64 &v) { s.body(v, v >= 0 && v < s.n, v); }); break;
        case 14: parallel_for(std::size_t(job->start), std::size_t(job->end), [&s, job](const std::size_t i) {
                    i64 d = (i64) i - job->start; bool ok = d >= 0 && (i64) i < job->end; s.body(ok ? d : 0, ok, (i64) i); }); break;
        }
    }
    catch (const BodyError &e) { status = 1; out->thrown = e.at; }
    catch (const std::system_error &) { status = 2; }
    catch (...) { status = 3; }
    { Quiet q; out->status = status; out->active_at_end = s.active; s.ended = 1; out->live_threads = sim_live_threads(); }
    i64 sum = 0;
    for (i64 i = 0; i < n; ++i) sum += values[i];      /* reads everything the bodies wrote */
    sim_quiesce();
    Quiet q;
    for (i64 i = 0; i < n; ++i) hits_out[i] = hits[i].load();
    hits_out[n] = (int) (sum & 0x7fffffff);
    hits.reset();
}

/* ------------------------------------------------------------------------------------------------ thread pool (C02) */

enum { ADD = 1, ADDF, WAIT, SET, LOOK, WORK, FRESH };
struct PoolOp { i64 op, a, b; };        /* ADD/ADDF: behaviour, argument; WAIT: task number, times; SET: event */
struct PoolJob { i64 size, clients, destroy_early, total_ops; };
struct TaskLog { i64 accepted, started, ended, if_free, behaviour, running_at_accept, waits, wrong_value, after_destroy; };
struct PoolOut { i64 n_tasks, looks, unstarted_if_free, idle_rounds, idle_admitted, idle_refused, max_running, size, status; };

static const int MAX_TASKS = 256;

struct PoolRun {
    thread_pool *pool; PoolOut *out; TaskLog *log;
    task::ptr handle[MAX_TASKS]; volatile int known[MAX_TASKS];
    volatile int event[MAX_TASKS];      /* what a blocking task waits for */
    i64 value[MAX_TASKS];
    int n, running, destroyed;

    int reserve(i64 behaviour, bool if_free) { Quiet q; if (n >= MAX_TASKS) return -1; int id = n++; out->n_tasks = n; log[id].behaviour = behaviour; log[id].if_free = if_free; return id; }

    void submit(i64 behaviour, i64 arg, bool if_free) {
        int id = reserve(behaviour, if_free);
        if (id < 0) return;
        int before; { Quiet q; before = running; }
        task::proc p = [this, id, behaviour, arg]() { run(id, behaviour, arg); };
        task::ptr t = if_free ? pool->add_task_if_free(p) : pool->add_task(p);
        { Quiet q; log[id].running_at_accept = before; if (t) { log[id].accepted = 1; handle[id] = t; } }
        if (t) sim_event_set(&known[id]);      /* hands the task over to other clients */
    }
    void run(int id, i64 behaviour, i64 arg) {
        { Quiet q; log[id].started++; running++; if (running > out->max_running) out->max_running = running; if (destroyed) log[id].after_destroy++; }
        value[id] += id * 7 + 1;
        if (behaviour == 0) for (i64 k = 0; k < arg; ++k) value[id] += (k & 1) ? -1 : 1;
        else if (behaviour == 1) sim_event_wait(&event[id]);
        else if (behaviour == 2) submit(0, arg, true);
        else if (behaviour == 3) submit(0, arg, false);
        else if (behaviour == 4) for (i64 k = 0; k < arg; ++k) std::this_thread::yield();
        value[id] += 1;
        { Quiet q; running--; log[id].ended++; if (destroyed) log[id].after_destroy++; }
    }
    void wait(int id, i64 times) {
        for (i64 k = 0; k < times; ++k) {
            task::ptr t;
            sim_event_wait(&known[id]);
            { Quiet q; t = handle[id]; }
            t->wait_ready();
            i64 v = value[id];
            Quiet q;
            log[id].waits++;
            if (log[id].ended != 1 || v == 0) log[id].wrong_value++;
        }
    }
    bool release_one() {
        int id = -1;
        { Quiet q; for (int i = 0; i < n && id < 0; ++i) if (log[i].behaviour == 1 && log[i].started && !event[i]) id = i; }
        if (id >= 0) sim_event_set(&event[id]);
        return id >= 0;
    }
    /* nothing else can run: end one of the blocking tasks, oldest first */
    void rescue() { for (int vain = 0; vain < 20; ) { sim_quiesce(); if (release_one()) vain = 0; else vain++; { Quiet q; if (destroyed) return; } } }

    /* everybody is blocked or gone: what was admitted as "served without delay" must have started */
    void look() {
        sim_quiesce();
        Quiet q;
        out->looks++;
        for (int i = 0; i < n; ++i) if (log[i].accepted && log[i].if_free && !log[i].started) out->unstarted_if_free++;
    }
    void client(const PoolOp *ops, i64 n_ops) {
        for (i64 i = 0; i < n_ops; ++i) {
            const PoolOp &o = ops[i];
            switch (o.op) {
            case ADD: submit(o.a, o.b, false); break;
            case ADDF: submit(o.a, o.b, true); break;
            case WAIT: { int id = -1; { Quiet q; for (int k = 0; k < n; ++k) { int c = (int) ((o.a + k) % n); if (known[c]) { id = c; break; } } }
                         if (id >= 0) wait(id, o.b); break; }
            case SET: release_one(); break;
            case WORK: for (i64 k = 0; k < o.a; ++k) sim_point(); break;
            }
        }
    }
    void wait_for_all() {
        for (bool more = true; more; ) {        /* tasks may add tasks */
            int m; { Quiet q; m = n; }
            for (int t = 0; t < m; ++t) if (known[t]) wait(t, 1 + t % 2);
            Quiet q; more = m != n;
        }
    }
};

WL void wl_pool(const PoolJob *job, const PoolOp *ops, const i64 *counts, PoolOut *out, TaskLog *log) {
    memset(out, 0, sizeof *out); memset(log, 0, sizeof(TaskLog) * MAX_TASKS);
    PoolRun *r;
    { Quiet q; r = new PoolRun(); memset((void *) r->known, 0, sizeof r->known); memset((void *) r->event, 0, sizeof r->event); memset(r->value, 0, sizeof r->value); r->n = r->running = r->destroyed = 0; r->out = out; r->log = log; }
    std::thread helper;
    {
        std::unique_ptr<thread_pool> pool(job->size > 0 ? new thread_pool((std::size_t) job->size) : new thread_pool());
        r->pool = pool.get();
        out->size = (i64) pool->size();
        helper = std::thread([r]() { r->rescue(); });
        std::vector<std::thread> clients;
        const PoolOp *p = ops + counts[0];      /* client 0 is this thread: it may look */
        for (i64 c = 1; c < job->clients; ++c) {
            const PoolOp *mine = p; i64 k = counts[c]; p += k;
            clients.emplace_back([r, mine, k]() { r->client(mine, k); });
        }
        for (i64 i = 0; i < counts[0]; ++i) {
            const PoolOp &o = ops[i];
            if (o.op == LOOK) r->look();
            else if (o.op == FRESH) {       /* drain, then an idle pool must admit exactly as many blocking tasks as it has threads */
                for (auto &c : clients) c.join();
                clients.clear();
                r->wait_for_all();
                sim_quiesce();
                int first; { Quiet q; first = r->n; }
                if (first + out->size + o.a > MAX_TASKS) continue;
                out->idle_rounds++;
                for (i64 k = 0; k < out->size + o.a; ++k) r->submit(1, 0, true);
                { Quiet q; for (int t = first; t < r->n; ++t) { if (log[t].accepted) out->idle_admitted++; else if (t - first < out->size) out->idle_refused++; } }
                r->look();
            }
            else r->client(&o, 1);
        }
        for (auto &c : clients) c.join();
        clients.clear();
        if (!job->destroy_early) r->wait_for_all();
        pool.reset();
        { Quiet q; r->destroyed = 1; }
    }
    helper.join();
    sim_quiesce();
    i64 check = 0;
    for (int t = 0; t < r->n; ++t) check += r->value[t];
    out->status = check;
    Quiet q; delete r;
}

/* ------------------------------------------------------------------------------------------------ spin lock (C03) */

struct SpinJob { i64 threads, total; };
struct SpinOut { i64 acquired, tried, refused, overlaps, wrong_refusals, wrong_counter, lost; };
/* ops: 0 lock, 1 try_lock; hold: accesses inside; stall: yields inside; twice: a second try while holding */
struct SpinOp { i64 op, hold, stall, twice; };

WL void wl_spin(const SpinJob *job, const SpinOp *ops, const i64 *counts, SpinOut *out) {
    memset(out, 0, sizeof *out);
    struct State { spinlock lock; int inside; i64 interested; u64 interest_events; i64 counter; i64 cells[4]; };
    std::unique_ptr<State> s;
    { Quiet q; s.reset(new State()); s->inside = 0; s->interested = 0; s->interest_events = 0; s->counter = 0; memset(s->cells, 0, sizeof s->cells); }
    auto critical = [&](const SpinOp &o) {
        { Quiet q; if (s->inside++) out->overlaps++; out->acquired++; }
        i64 c = s->counter;
        if (s->cells[c & 3] != c / 4) out->wrong_counter++;        /* what the previous holders wrote */
        for (i64 k = 0; k < o.hold; ++k) { volatile i64 *v = &s->cells[(c + k) & 3]; i64 x = *v; *v = x; }
        for (i64 k = 0; k < o.stall; ++k) std::this_thread::yield();
        if (o.twice && s->lock.try_lock()) { Quiet q; out->overlaps++; }
        s->cells[c & 3] = c / 4 + 1;
        s->counter = c + 1;
        { Quiet q; s->inside--; }
    };
    auto work = [&](const SpinOp *mine, i64 n) {
        for (i64 i = 0; i < n; ++i) {
            const SpinOp &o = mine[i];
            if (o.op == 0) {
                { Quiet q; s->interested++; s->interest_events++; }
                s->lock.lock();
                critical(o);
                s->lock.unlock();
                { Quiet q; s->interested--; }
            } else {
                u64 ev; i64 others;
                { Quiet q; out->tried++; others = s->interested; s->interested++; ev = ++s->interest_events; }
                bool got = s->lock.try_lock();
                if (got) { critical(o); s->lock.unlock(); }
                else { Quiet q; out->refused++; if (others == 0 && ev == s->interest_events) out->wrong_refusals++; }
                { Quiet q; s->interested--; }
            }
        }
    };
    std::vector<std::thread> th;
    const SpinOp *p = ops;
    for (i64 t = 0; t < job->threads; ++t) { const SpinOp *mine = p; i64 n = counts[t]; p += n; th.emplace_back([&work, mine, n]() { work(mine, n); }); }
    for (auto &t : th) t.join();
    out->lost = out->acquired - s->counter;
    { Quiet q; s.reset(); }
}
