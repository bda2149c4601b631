"""C03: spin lock."""
import ctypes
from simlib import native, wl
from simlib.frame import Violation

ID = 'C03'
PLAN = {'quick': (120000, 20), 'thorough': (3000000, 600)}
RULE = ('A case is a list of operations per thread (lock or try-lock, with the work, stalls and re-tries inside the critical section) and a scheduling policy '
        'with its seed. Counted as distinct: different sequences of (thread switched from, to, at which access), with at least two switches.')
REAL = ['spinlock of the core']
STUB = ['thread scheduling and yield (simulator)', 'critical sections (harness)']
PROBES = ['try-lock refused', 'try-lock succeeded under competition', 'holder stalled', 'try-lock while holding', 'five threads or more']
Job = wl.struct('SpinJob', ['threads', 'total'])
Out = wl.struct('SpinOut', ['acquired', 'tried', 'refused', 'overlaps', 'wrong_refusals', 'wrong_counter', 'lost'])


def make(rng, index, tier):
    n = rng.choice([2, 2, 2, 3, 3, 4, 5, 8])
    tries = rng.choice([0, 0.2, 0.5, 0.9, 1])
    hold, stall = rng.choice([[0], [0, 1, 4], [20]]), rng.choice([[0], [0], [0, 1], [0, 0, 3, 10]])
    twice = rng.choice([0, 0, 0.3])
    ops = [[[1 if rng.random() < tries else 0, rng.choice(hold), rng.choice(stall), 1 if rng.random() < twice else 0]
            for _ in range(rng.choice([1, 2, 3, 6]))] for _ in range(n)]
    cfg = native.schedule(rng, race=rng.random() < 0.5)
    cfg['spurious_permille'] = 0
    return dict(ops=ops, cfg=cfg)


def run(env, c):
    nat = env.native(4)
    ops = wl.arr([x for t in c['ops'] for o in t for x in o])
    counts = wl.arr([len(t) for t in c['ops']])
    job, out = wl.make(Job, threads=len(c['ops']), total=0), Out()
    with env.session(nat, dict(c['cfg'], max_ops=2000000)) as s:
        nat.lib.wl_spin(ctypes.byref(job), ops, counts, ctypes.byref(out))
    what = '%d threads, %d operations' % (len(c['ops']), sum(map(len, c['ops'])))
    if out.overlaps:
        raise Violation('two holders', '%s: %d times a second holder got in' % (what, out.overlaps))
    if out.wrong_counter or out.lost:
        raise Violation('lost write', '%s: what a holder wrote was not what the next holder read (%d stale reads, %d updates lost)' % (what, out.wrong_counter, out.lost))
    if out.wrong_refusals:
        raise Violation('free lock refused', '%s: a try-lock failed %d times although nobody else was near the lock' % (what, out.wrong_refusals))
    want = sum(1 for t in c['ops'] for o in t if o[0] == 0) + out.tried - out.refused
    if out.acquired != want:
        raise Violation('acquisition lost', '%s: %d acquisitions instead of %d' % (what, out.acquired, want))
    if s.stats['blocked_at_end']:
        raise Violation('stuck thread', what)
    flat = [o for t in c['ops'] for o in t]
    for cond, p in ((out.refused, 0), (out.tried > out.refused and len(c['ops']) > 1, 1), (any(o[2] for o in flat), 2), (any(o[3] for o in flat), 3), (len(c['ops']) >= 5, 4)):
        if cond:
            env.probe(PROBES[p])
    env.count('critical sections', out.acquired)


def shrink(c):
    for i in range(len(c['ops'])):
        if len(c['ops']) > 1:
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    for i, t in enumerate(c['ops']):
        for k in range(len(t)):
            if len(t) > 1:
                yield dict(c, ops=c['ops'][:i] + [t[:k] + t[k + 1:]] + c['ops'][i + 1:])
            for n in ([t[k][0], 0, 0, 0], [0] + t[k][1:]):
                if n != t[k]:
                    yield dict(c, ops=c['ops'][:i] + [t[:k] + [n] + t[k + 1:]] + c['ops'][i + 1:])
