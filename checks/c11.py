"""C11: memory or worker threads refused while a native algorithm runs."""
import ctypes

from simlib import native, wl
from simlib.frame import Violation

ID = 'C11'
PLAN = {'quick': (60000, 40), 'thorough': (3000000, 700)}
RULE = ('A case is a native algorithm, network or container with its data, a core count, a scheduling policy and a sequence of refusals: the n-th allocation (n anywhere in what the call needs), or all from there '
        'on, or the creation of the n-th worker. After each refused call the same call is made again. Counted as distinct: thread interleavings (cases with workers), different refused requests otherwise.')
REAL = ['all algorithms, networks and containers of the core behind their C++ classes', 'the C++ standard library, including std::async, futures and exceptions']
STUB = ['heap, thread creation and scheduling, core count, clock, random_device (simulator)']
ALGS = ['kmeans', 'kmedians', 'kmedoids', 'fcm', 'xmeans', 'gmeans', 'elbow', 'silhouette', 'silhouette_ksearch', 'agglomerative', 'bsas', 'mbsas', 'ttsas', 'clique', 'cure', 'dbscan', 'optics', 'pam_build', 'rock',
        'somsc', 'syncnet', 'hsyncnet', 'som', 'sync', 'syncpr', 'hhn', 'legion', 'pcnn', 'kdtree', 'initializers', 'thread_pool']
PARALLEL = [0, 1, 2, 3, 4, 5, 6, 8, 23, 25]
OBJECTS = list(range(20)) + [29]
PROBES = ['memory refused: ' + a for a in ALGS] + ['threads refused: ' + ALGS[i] for i in (0, 1, 2, 3, 4, 5, 6, 8, 23)] + ['refused once', 'refused from there on', 'refused while workers run', 'refusal absorbed', 'same object asked again', 'same object asked with other data']

HSYNC = [([[-0.71], [4.96], [-0.83], [0.6]], 2), ([[-0.19], [0.41], [4.45], [0.38]], 2), ([[-5.66], [-0.76], [0.16], [-0.02], [0.36]], 2), ([[-3.68], [0.83], [5.1], [0.58], [0.88], [0.64]], 2),
         ([[5.94, -3.8], [0.15, 5.8], [5.88, -0.24], [0.15, -0.05], [5.41, -0.3], [6.11, 4.94]], 2), ([[-0.37], [-0.46], [5.08], [-0.12], [-0.61], [5.53], [-0.21]], 2)]
Job = type('ExJob', (ctypes.Structure,), {'_fields_': [(f, ctypes.c_int64) for f in ('alg', 'n', 'dim', 'k', 'variant', 'repeat', 'metric', 'seed')] + [('x', ctypes.c_double), ('y', ctypes.c_double)]})
Fault = wl.struct('ExFault', ['what', 'at', 'len', 'object', 'other'])
Out = wl.struct('ExOut', ['status', 'faults', 'same', 'threads', 'leaked', 'changed', 'retry', 'retry_leaked', 'where', 'need', 'other'])
Info = wl.struct('ExInfo', ['allocs', 'threads', 'leaked', 'status', 'unstable'])
STATUS = ['normal return', 'bad_alloc', 'system_error', 'another exception', 'malformed result', 'something that is not an exception']


def make(rng, index, tier):
    alg = rng.choice(PARALLEL) if rng.random() < 0.45 else rng.randrange(len(ALGS))
    n = rng.choice([3, 4, 6, 9, 14])
    dim = rng.choice([1, 2, 2, 3])
    k = rng.randrange(1, min(n, 5) + 1)
    if alg in (7, 8):
        k = max(2, min(k, n // 2)) if n > 3 else 2
    data = []
    for _ in range(n):
        if data and rng.random() < 0.15:
            data.append(list(rng.choice(data)))
        else:
            c = rng.choice([0.0, 0.0, 5.0, -4.0])
            data.append([round(c + rng.gauss(0, 0.7), 3) for _ in range(dim)])
    if alg == 21:       # some phases and data never synchronise, whatever the resources: take data that does
        data, k = rng.choice(HSYNC)
        data = [list(p) for p in data]
    variant = rng.randrange(32) if alg == 22 else rng.randrange(4) if alg != 8 else rng.randrange(3)
    faults = []
    one = alg in OBJECTS and rng.random() < 0.4
    for _ in range(rng.choice([1, 1, 2, 4])):
        what = int(alg in PARALLEL and rng.random() < 0.3)
        faults.append([what, rng.choice([0, 1000000, rng.randrange(1000000), rng.randrange(1000000), rng.randrange(1000000)]), rng.choice([1, 1, 1, 2, 5, 1 << 30]), int(one), int(one and rng.random() < 0.5)])
    cfg = native.schedule(rng, light=True)
    cfg.update(clock_step=0, clock_jump_permille=0, entropy_mode=1)
    return dict(alg=alg, data=data, k=k, variant=variant, repeat=rng.choice([1, 2]), metric=rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6]), seed=rng.choice([0, 1, 77]), x=rng.choice([0.5, 1.0, 3.0]), y=rng.choice([0.5, 2.0]),
                faults=faults, cores=rng.choice([1, 2, 3, 4, 4]), cfg=cfg)


def run(env, c):
    nat = env.native(c['cores'])
    n, dim, alg = len(c['data']), len(c['data'][0]), c['alg']
    job = wl.make(Job, alg=alg, n=n, dim=dim, **{k: c[k] for k in ('k', 'variant', 'repeat', 'metric', 'seed', 'x', 'y')})
    values = wl.arr([x for p in c['data'] for x in p], ctypes.c_double)
    faults = (Fault * len(c['faults']))(*[wl.make(Fault, what=w, at=a, len=l, object=o, other=t) for w, a, l, o, t in c['faults']])
    outs, info = (Out * len(c['faults']))(), Info()
    with env.session(nat, dict(dict(max_ops=300000000), **c['cfg'])) as s:
        nat.lib.wl_exhaust(ctypes.byref(job), values, ctypes.c_int64(len(c['faults'])), faults, outs, ctypes.byref(info))
    name = ALGS[alg]
    if info.status:
        raise Violation('refused', '%s: %s without any fault' % (name, STATUS[info.status]))
    if info.leaked:
        raise Violation('leak', '%s: %d blocks still held after a normal call' % (name, info.leaked))
    for (what, at, length, one, other), o in zip(c['faults'], outs):
        kind = 'worker thread' if what else 'allocation'
        text = '%s on %d core(s), %s %d of %d refused%s%s' % (name, c['cores'], kind, o.where, o.need, ' in the second call of one object' if one else '', '' if length == 1 else ' and up to %d after it' % (length - 1))
        if o.status >= 100:
            raise Violation('cannot repeat', '%s on %d core(s): the same object asked for the second time gives %s' % (name, c['cores'], STATUS[o.status - 100] if o.status > 100 else 'another result'))
        if o.threads > 1:
            raise Violation('worker running', '%s: %d workers alive when the call ended' % (text, o.threads - 1))
        if o.changed:
            raise Violation('input changed', '%s: the input data was modified' % text)
        if o.leaked:
            raise Violation('leak', '%s: %s, %d blocks still held' % (text, STATUS[o.status], o.leaked))
        if o.status == 0:
            if not o.same and not info.unstable:
                raise Violation('failure hidden', '%s: the call returned normally with another result' % text)
        elif not o.faults:
            raise Violation('foreign exception', '%s: %s although nothing was refused' % (text, STATUS[o.status]))
        elif o.status not in ((1, 2) if what == 0 else (2,)):
            raise Violation('foreign exception', '%s: %s' % (text, STATUS[o.status]))
        if o.retry == 2:
            raise Violation('cannot repeat', '%s: %s, the same call afterwards %sthrows' % (text, STATUS[o.status], 'with other data ' if o.other else ''))
        if o.retry == 1 and not info.unstable:
            raise Violation('cannot repeat', '%s: %s, the same call afterwards %sgives another result' % (text, STATUS[o.status], 'with other data ' if o.other else ''))
        if o.retry_leaked:
            raise Violation('leak', '%s: the same call afterwards keeps %d blocks' % (text, o.retry_leaked))
        if o.faults:
            p = ('threads refused: ' if what else 'memory refused: ') + name
            if p in PROBES:
                env.probe(p)
            env.probe('refused once' if length == 1 else 'refused from there on')
            if info.threads:
                env.probe('refused while workers run')
            if one:
                env.probe('same object asked with other data' if o.other else 'same object asked again')
            if not o.status:
                env.probe('refusal absorbed')
            env.note([alg, what, o.where, length, o.need])


def shrink(c):
    for i in range(len(c['faults'])):
        if len(c['faults']) > 1:
            yield dict(c, faults=c['faults'][:i] + c['faults'][i + 1:])
    if len(c['data']) > 3:
        yield dict(c, data=c['data'][:-1], k=min(c['k'], len(c['data']) - 1))
    for k, v in (('metric', 0), ('repeat', 1), ('cores', 2), ('k', 2)):
        if c[k] != v and v <= len(c['data']):
            yield dict(c, **{k: v})
    for i, (w, a, l, o, t) in enumerate(c['faults']):
        if l != 1:
            yield dict(c, faults=c['faults'][:i] + [[w, a, 1, o, t]] + c['faults'][i + 1:])
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
