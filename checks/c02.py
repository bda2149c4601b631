"""C02: thread pool."""
import ctypes
from simlib import native, wl
from simlib.frame import Violation

ID = 'C02'
PLAN = {'quick': (120000, 24), 'thorough': (3000000, 600)}
RULE = ('A case is a pool size and one operation list per client thread (add, add-if-free, wait, release a blocking task, look at quiescence, drain and '
        'fill the idle pool), whether the pool is destroyed before its tasks are waited for, and a scheduling policy with its seed. Counted as '
        'distinct: different sequences of (thread switched from, to, at which access), with at least two switches.')
REAL = ['thread_pool, thread_executor, task, spinlock of the core']
STUB = ['thread scheduling, mutex, condition variable (simulator; with spurious wake-ups)', 'task bodies and client threads (harness)']
PROBES = ['several clients', 'task refused because no thread is free', 'task admitted while others run', 'pool destroyed with tasks queued', 'pool destroyed with a task running',
          'second wait on a task', 'two waiters for one task', 'idle pool filled', 'task that adds a task']

ADD, ADDF, WAIT, SET, LOOK, WORK, FRESH = range(1, 8)
NAMES = {ADD: 'add', ADDF: 'add if free', WAIT: 'wait', SET: 'release', LOOK: 'look', WORK: 'work', FRESH: 'drain and fill'}
MAX = 256
Job = wl.struct('PoolJob', ['size', 'clients', 'destroy_early', 'total_ops'])
Log = wl.struct('TaskLog', ['accepted', 'started', 'ended', 'if_free', 'behaviour', 'running_at_accept', 'waits', 'wrong_value', 'after_destroy'])
Out = wl.struct('PoolOut', ['n_tasks', 'looks', 'unstarted_if_free', 'idle_rounds', 'idle_admitted', 'idle_refused', 'max_running', 'size', 'status'])


def make(rng, index, tier):
    size = rng.choice([1, 1, 2, 2, 3, 4, 5, 0])
    clients = rng.choice([1, 1, 2, 2, 3, 4])
    early = 1 if rng.random() < 0.3 else 0
    weights = [rng.choice([0, 1, 2, 4]), rng.choice([1, 2, 4]), 0 if early and rng.random() < 0.5 else rng.choice([0, 1, 2]), rng.choice([0, 1]), rng.choice([0, 1, 2]), rng.choice([0, 0, 1])]
    behaviours = rng.choice([[0], [1], [0, 1], [0, 1, 2, 3, 4], [1, 1, 0, 4], [2, 3]])
    ops = []
    for c in range(clients):
        mine = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12])):
            o = rng.choices([ADD, ADDF, WAIT, SET, LOOK, WORK], weights)[0]
            if o in (ADD, ADDF):
                mine.append([o, rng.choice(behaviours), rng.choice([0, 1, 3, 20])])
            elif o == WAIT:
                mine.append([o, rng.randrange(20), rng.choice([1, 1, 2, 3])])
            elif o == LOOK and c:
                continue
            else:
                mine.append([o, rng.choice([1, 3, 10]), 0])
        if c == 0 and rng.random() < 0.25:
            mine.append([FRESH, rng.choice([0, 0, 1, 3]), 0])
            if rng.random() < 0.3:
                mine.append([FRESH, rng.choice([0, 1]), 0])
        ops.append(mine)
    return dict(size=size, early=early, ops=ops, cores=rng.choice([1, 3, 4, 9]) if size == 0 else 4, cfg=native.schedule(rng, race=rng.random() < 0.3))


def run(env, c):
    nat = env.native(c['cores'])
    flat = [x for cl in c['ops'] for o in cl for x in o]
    ops, counts = wl.arr(flat), wl.arr([len(cl) for cl in c['ops']])
    job = wl.make(Job, size=c['size'], clients=len(c['ops']), destroy_early=c['early'], total_ops=0)
    out, log = Out(), (Log * MAX)()
    cfg = dict(c['cfg'], max_ops=3000000)
    with env.session(nat, cfg) as s:
        nat.lib.wl_pool(ctypes.byref(job), ops, counts, ctypes.byref(out), log)
    st = s.stats
    what = 'pool of %d thread(s), clients %s%s' % (out.size, [[NAMES[o[0]] for o in cl] for cl in c['ops']], ', destroyed early' if c['early'] else '')
    if c['size'] and out.size != c['size']:
        raise Violation('wrong size', '%s: size() is not the requested %d' % (what, c['size']))
    for i in range(out.n_tasks):
        t = log[i]
        if t.started > 1 or t.ended > 1:
            raise Violation('task repeated', '%s: task %d started %d times' % (what, i, t.started))
        if t.started and not t.accepted:
            raise Violation('refused task ran', '%s: task %d was refused, and ran' % (what, i))
        if t.started and not t.ended:
            raise Violation('task abandoned', '%s: task %d never ended' % (what, i))
        if t.accepted and not t.ended and not c['early']:
            raise Violation('task lost', '%s: accepted task %d never ran' % (what, i))
        if t.after_destroy:
            raise Violation('task after destruction', '%s: task %d ran after the pool was destroyed' % (what, i))
        if t.wrong_value:
            raise Violation('wait returned early', '%s: a wait on task %d returned before its effects were visible' % (what, i))
        if t.accepted and t.if_free and t.running_at_accept >= out.size and t.behaviour != 99 and all(log[k].behaviour == 1 for k in range(out.n_tasks)) and len(c['ops']) == 1 and c['ops'][0] and not any(o[0] in (SET, WAIT, FRESH) for o in c['ops'][0]):
            raise Violation('admitted without a free thread', '%s: task %d was admitted as if a thread were free while all %d were busy' % (what, i, out.size))
    if out.unstarted_if_free:
        raise Violation('admitted without a free thread', '%s: %d task(s) admitted because a thread was free had to wait for another task to end' % (what, out.unstarted_if_free))
    if out.idle_refused:
        raise Violation('idle pool refuses', '%s: an idle pool refused %d of the %d tasks it has threads for' % (what, out.idle_refused, out.size))
    if out.max_running > out.size:
        raise Violation('too many at once', '%s: %d tasks ran at once' % (what, out.max_running))
    if st['blocked_at_end'] or st['unjoined']:
        raise Violation('stuck worker', '%s: %d pool thread(s) still there after destruction' % (what, st['blocked_at_end'] + st['unjoined']))
    lg = [log[i] for i in range(out.n_tasks)]
    for cond, p in ((len(c['ops']) > 1, 0), (any(t.if_free and not t.accepted for t in lg), 1), (any(t.accepted and t.if_free and t.running_at_accept for t in lg), 2),
                    (c['early'] and any(t.accepted and not t.started for t in lg), 3), (c['early'] and any(t.behaviour == 1 and t.ended for t in lg), 4),
                    (any(t.waits > 1 for t in lg), 5), (len(c['ops']) > 1 and any(t.waits > 2 for t in lg), 6), (out.idle_rounds, 7), (any(t.behaviour in (2, 3) and t.started for t in lg), 8)):
        if cond:
            env.probe(PROBES[p])
    env.count('tasks', out.n_tasks)


def shrink(c):
    for i in range(len(c['ops']) - 1, 0, -1):
        yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    for i, cl in enumerate(c['ops']):
        for k in range(len(cl)):
            yield dict(c, ops=c['ops'][:i] + [cl[:k] + cl[k + 1:]] + c['ops'][i + 1:])
    if c['size'] != 1:
        yield dict(c, size=max(1, c['size'] - 1), cores=4)
    for i, cl in enumerate(c['ops']):
        for k, o in enumerate(cl):
            if o[0] in (ADD, ADDF) and (o[1] or o[2]):
                for n in ([o[0], 0, 0], [o[0], o[1], 0]):
                    if n != o:
                        yield dict(c, ops=c['ops'][:i] + [cl[:k] + [n] + cl[k + 1:]] + c['ops'][i + 1:])
            if o[0] == WAIT and o[2] > 1:
                yield dict(c, ops=c['ops'][:i] + [cl[:k] + [[WAIT, o[1], 1]] + cl[k + 1:]] + c['ops'][i + 1:])
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
