"""C01: parallel loops."""
import ctypes
from simlib import native, wl
from simlib.frame import Violation

ID = 'C01'
PLAN = {'quick': (160000, 20), 'thorough': (2000000, 600)}
RULE = ('A case is one loop (kind, index type, bounds, step, workers, cores), which bodies throw, which worker creations are refused, '
        'and a scheduling policy with its seed. Counted as distinct: different sequences of (thread switched from, to, at which access), '
        'with at least two switches.')
REAL = ['parallel_for, parallel_for_each (header as compiled from the tree)', 'std::async / std::future of libstdc++']
STUB = ['thread scheduling and creation, futex, core count (simulator)', 'loop bodies (harness)']
PROBES = ['loop ended by a body exception', 'loop ended by a refused thread', 'one core', 'no iteration', 'more workers than iterations', 'nested loop', 'at least two workers']

Job = wl.struct('LoopJob', ['kind', 'start', 'end', 'step', 'threads', 'work', 'inner', 'n_throw', ('throws', 8)])
Out = wl.struct('LoopOut', ['status', 'thrown', 'outside', 'first_outside', 'late', 'active_at_end', 'bad_inner', 'live_threads'])


def make(rng, index, tier):
    kind = rng.choice([0, 0, 1, 2, 3, 4, 10, 10, 11, 12, 13, 14])
    n = rng.choice([0, 1, 2, 3, 5, 8, rng.randrange(0, 12), rng.randrange(0, 40), rng.randrange(0, 40), rng.randrange(30, 200)])
    step = 1
    start = 0
    if kind < 10:
        step = rng.choice([1, 1, 1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 40)])
        start = rng.choice([0, 0, rng.randrange(0, 50)]) if kind not in (1, 2) else rng.choice([0, rng.randrange(-60, 60)])
        length = max(0, n * step - rng.randrange(0, step)) if n else 0
    else:
        start = rng.choice([0, rng.randrange(0, 20)]) if kind == 14 else 0
        length = n
    threads = rng.choice([-1, -1, -1, 1, 2, 3, 4, rng.randrange(1, 9), rng.randrange(1, 16)])
    cfg = native.schedule(rng)
    fault = rng.choice([0, 0, 0, 1, 1, 2])
    throws = []
    if fault == 1 and n:
        throws = sorted(set(rng.randrange(n) for _ in range(rng.choice([1, 1, 2, 4]))))
    if fault == 2:
        cfg['thread_fail_at'] = rng.choice([1, 1, 2, 3, 4])
        cfg['thread_fail_len'] = rng.choice([1, 2, 100])
        if rng.random() < 0.2 and n:
            throws = [rng.randrange(n)]
    if fault == 0 and rng.random() < 0.4:
        cfg['race'] = cfg['quarantine'] = 1
    cores = rng.choice([1, 2, 3, 4, 4, 5, 7, 9])
    inner = rng.choice([0, 0, 0, 0, 1, 2, 5])
    if (cores if threads < 0 else threads) > 5:
        inner = 0           # the simulator holds at most 64 threads
    return dict(kind=kind, start=start, length=length, step=step, threads=threads, cores=cores,
                work=rng.choice([0, 0, 1, 3, 10]), inner=inner, throws=throws, cfg=cfg)


def run(env, c):
    nat = env.native(c['cores'])
    n = -(-c['length'] // c['step'])
    job = wl.make(Job, kind=c['kind'], start=c['start'], end=c['start'] + c['length'], step=c['step'], threads=c['threads'],
                  work=c['work'], inner=c['inner'], n_throw=len(c['throws']), throws=c['throws'])
    out = Out()
    hits = (ctypes.c_int * (n + 1))()
    values = (ctypes.c_int64 * (n + 1))()
    with env.session(nat, c['cfg']) as s:
        nat.lib.wl_loop(ctypes.byref(job), ctypes.byref(out), hits, ctypes.c_int64(n), values)
    st = s.stats
    got = list(hits)[:n]
    what = 'loop of %d iterations, step %d, %s workers, %d core(s)' % (n, c['step'], 'default' if c['threads'] < 0 else c['threads'], c['cores'])
    if out.outside:
        raise Violation('iteration outside the sequence', '%s: the body ran %d time(s) for something not in the sequence (first: %d)' % (what, out.outside, out.first_outside))
    if any(h > 1 for h in got):
        raise Violation('iteration repeated', '%s: iteration %d ran %d times' % (what, next(i for i, h in enumerate(got) if h > 1), max(got)))
    if out.active_at_end or out.late:
        raise Violation('body running after the loop ended', '%s: %d running when it ended, %d events afterwards' % (what, out.active_at_end, out.late))
    if out.bad_inner:
        raise Violation('nested loop incomplete', '%s: %d nested loops did not run each iteration once' % (what, out.bad_inner))
    refused = st['thread_faults']
    if out.status == 0:
        missing = [i for i, h in enumerate(got) if h != 1]
        if missing:
            raise Violation('iteration lost', '%s returned normally, but iterations %s did not run' % (what, missing[:8]))
        if any(i < n for i in c['throws']):
            raise Violation('exception lost', '%s returned normally although a body threw' % what)
        w = c['work'] * (c['work'] - 1) // 2 + 1
        if any(values[i] != w for i in range(n)):
            raise Violation('effect lost', '%s: results of a body are not visible after the loop' % what)
    elif out.status == 1:
        if out.thrown not in c['throws']:
            raise Violation('foreign exception', '%s threw the exception of iteration %d, which throws nothing' % (what, out.thrown))
    elif out.status == 2:
        if not refused:
            raise Violation('foreign exception', '%s threw system_error although no thread was refused' % what)
    else:
        raise Violation('foreign exception', '%s threw something nobody raised' % what)
    if st['blocked_at_end']:
        raise Violation('stuck worker', '%s left a blocked thread behind' % what)
    for cond, p in ((out.status == 1, PROBES[0]), (out.status == 2, PROBES[1]), (c['cores'] == 1, PROBES[2]), (n == 0, PROBES[3]),
                    (c['threads'] > n, PROBES[4]), (c['inner'] and n, PROBES[5]), (st['threads'] >= 2, PROBES[6])):
        if cond:
            env.probe(p)
    if c['throws'] and out.status == 1:
        env.fault('loop body throws')


def shrink(c):
    for k in ('throws',):
        for i in range(len(c[k])):
            yield dict(c, **{k: c[k][:i] + c[k][i + 1:]})
    for f in (c['length'] // 2, c['length'] - c['step'], c['length'] - 1):
        if 0 <= f < c['length']:
            n = -(-f // c['step'])
            yield dict(c, length=f, throws=[t for t in c['throws'] if t < n])
    for k, v in (('inner', 0), ('work', 0), ('start', 0), ('threads', 2), ('cores', 4)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if c['cfg'].get('thread_fail_at') and not c.get('forced'):
        yield dict(c, cfg=dict(c['cfg'], thread_fail_at=0))
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
