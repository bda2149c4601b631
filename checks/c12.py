"""C12: native memory over histories of API calls."""
import copy
import gc
import pickle
import random

import numpy

from simlib import catalog, native, pyrand, wl
from simlib.frame import Violation

ID = 'C12'
PLAN = {'quick': (60000, 40), 'thorough': (3000000, 700)}
RULE = ('A case is a history of operations on a pool of objects: constructing maps, networks, recorded dynamics and native metrics, training, simulating, reading any result any number of times, pickling and '
        'restoring maps, replacing and destroying objects in any order, whole native algorithm calls (successful, rejected, failing in a user callback), and a scheduling policy. The simulated heap counts '
        'live blocks and sees second releases. Counted as distinct: different sequences of operation kinds.')
REAL = ['core wrappers, packages and network classes of the Python package', 'the interface layer and all algorithms of the core']
STUB = ['heap (own allocator), thread scheduling, core count, clock, random_device (simulator)']
PROBES = ['map restored from a pickle', 'read again', 'dynamic outlives its network', 'network outlives its dynamic', 'native metric', 'callback failed', 'call rejected', 'whole algorithm', 'destroyed by the collector',
          'worker threads']
KINDS = ['som', 'som', 'sync', 'syncpr', 'pcnn', 'legion', 'hhn', 'syncnet', 'hsyncnet', 'metric', 'metric']


def mk_object(rng, kind):
    if kind == 'metric':
        return catalog.metric_spec(rng, dim=2) or {'type': 'USER_DEFINED', 'func': 'square'}
    c = catalog.make(rng, kind)
    while len(c.get('data') or ()) > 9 or (c['p'].get('n') or 0) > 12:
        c = catalog.make(rng, kind)
    return c


def make(rng, index, tier):
    ops, alive = [], {}
    n = 0
    for _ in range(rng.choice([2, 4, 8, 14])):
        r = rng.random()
        if r < 0.35 or not alive:
            kind = rng.choice(KINDS)
            ops.append(['new', n, kind, mk_object(rng, kind)])
            alive[n] = kind
            n += 1
        elif r < 0.65:
            i = rng.choice(sorted(alive))
            ops.append(['use', i, rng.randrange(1 << 16), rng.choice([1, 1, 2, 3])])
            if alive[i] in ('sync', 'syncpr', 'pcnn', 'legion', 'syncnet', 'hsyncnet') and rng.random() < 0.6:
                ops[-1] = ['record', i, n, rng.randrange(1 << 16)]
                alive[n] = 'dynamic ' + alive[i]
                n += 1
        elif r < 0.72:
            i = rng.choice(sorted(alive))
            if alive[i] == 'som':
                ops.append(['pickle', i, n, rng.random() < 0.3])
                alive[n] = 'som'
                n += 1
        elif r < 0.88:
            i = rng.choice(sorted(alive))
            ops.append(['del', i, rng.random() < 0.2])
            del alive[i]
        else:
            name = rng.choice([x for x in catalog.names(native=True) if x not in ('hhn', 'syncnet', 'hsyncnet', 'sync')])
            c = catalog.make(rng, name)
            while len(c.get('data') or ()) > 16:
                c = catalog.make(rng, name)
            mode = rng.choice(['ok', 'ok', 'reject', 'reject', 'callback'])
            ops.append(['call', c, mode])
    order = sorted(alive)
    rng.shuffle(order)
    ops += [['del', i, rng.random() < 0.2] for i in order]
    return dict(ops=ops, cores=rng.choice([1, 2, 3, 4]), cfg=native.schedule(rng, light=True))


def new(kind, c):
    from pyclustering.nnet import conn_type, conn_represent, initial_type
    if kind == 'metric':
        from pyclustering.core.metric_wrapper import metric_wrapper
        return metric_wrapper.create_instance(catalog.make_metric(c))
    p = c['p']
    if kind == 'som':
        return catalog.som_object(p, True)
    if kind == 'sync':
        from pyclustering.nnet.sync import sync_network
        return sync_network(p['n'], p['weight'], p['frequency'], conn_type(p['conn']), conn_represent.MATRIX, initial_type(p['phases']), True)
    if kind == 'syncpr':
        from pyclustering.nnet.syncpr import syncpr
        return syncpr(p['n'], p['s1'], p['s2'], True)
    if kind == 'pcnn':
        from pyclustering.nnet.pcnn import pcnn_network, pcnn_parameters
        q = pcnn_parameters()
        q.FAST_LINKING = p['fast']
        return pcnn_network(len(c['data']), q, conn_type(p['conn']), ccore=True)
    if kind == 'legion':
        from pyclustering.nnet.legion import legion_network, legion_parameters
        q = legion_parameters()
        q.ENABLE_POTENTIONAL = p['potential']
        return legion_network(len(c['data']), q, conn_type(p['conn']), ccore=True)
    if kind == 'hhn':
        from pyclustering.nnet.hhn import hhn_network, hhn_parameters
        q = hhn_parameters()
        q.nu = p['nu']
        return hhn_network(len(c['data']), c['data'], q, ccore=True)
    if kind == 'syncnet':
        from pyclustering.cluster.syncnet import syncnet
        return syncnet(c['data'], p['radius'], conn_represent.MATRIX, initial_type.RANDOM_GAUSSIAN, p['weighted'], True)
    from pyclustering.cluster.hsyncnet import hsyncnet
    return hsyncnet(c['data'], p['k'], initial_type.RANDOM_GAUSSIAN, p['neighbors'], p['increase'], True)


def record(kind, c, o, v):
    """Runs the network; the recorded dynamic is an object of its own."""
    from pyclustering.nnet import solve_type
    p = c['p']
    if kind == 'sync':
        return o.simulate_static(1 + v % 3, 0.5, solve_type.FAST, bool(v & 4))
    if kind == 'syncpr':
        o.train(c['data'])
        return o.simulate_static(1 + v % 3, 0.5, p['pattern'], solve_type.FAST, bool(v & 4))
    if kind == 'pcnn':
        return o.simulate(p['steps'], c['data'])
    if kind == 'legion':
        return o.simulate(2, 1.0, c['data'], solve_type.RK4, bool(v & 4))
    if kind == 'syncnet':
        return o.process(0.8, solve_type.FAST, bool(v & 4))
    return o.process(0.998, solve_type.FAST, bool(v & 4))


def reads(kind, c, o):
    """Calls that read results or state."""
    if kind == 'metric':
        return [lambda: o([0.0, 1.0], [2.0, 3.0]), lambda: o.get_pointer()]
    if kind.startswith('dynamic'):
        out = [lambda: o.output, lambda: o.time, lambda: len(o), lambda: setattr(o, '_dynamic', None) or o.output]
        k = kind.split()[1]
        if k in ('sync', 'syncpr', 'syncnet'):
            out += [lambda: o.allocate_sync_ensembles(0.1), lambda: o.allocate_correlation_matrix(), lambda: o.calculate_order_parameter(0, 1)]
        elif k == 'pcnn':
            out += [o.allocate_sync_ensembles, o.allocate_spike_ensembles, o.allocate_time_signal]
        elif k == 'legion':
            out += [lambda: o.inhibitor, o.allocate_sync_ensembles]
        if k in ('syncnet', 'hsyncnet'):
            out += [lambda: o.allocate_clusters(0.1)]
        return out
    if kind == 'som':
        return [lambda: o.weights, lambda: o.awards, lambda: o.capture_objects, lambda: o.get_winner_number(), lambda: o.simulate(c['data'][0]), lambda: o.get_distance_matrix() if o.size > 1 else None, lambda: o.size, lambda: len(o),
                lambda: pickle.dumps(o)]
    if kind == 'hhn':
        from pyclustering.nnet import solve_type
        return [lambda: o.simulate(2, 0.5, solve_type.RK4), lambda: o.simulate(2, 0.5, solve_type.RK4) and o.allocate_sync_ensembles(0.2)]
    if kind in ('sync', 'syncnet'):
        return [o.sync_order, o.sync_local_order, lambda: len(o), lambda: record(kind, c, o, 7)]
    if kind == 'syncpr':
        return [lambda: o.memory_order(c['p']['pattern']), lambda: len(o), lambda: record(kind, c, o, 7)]
    return [lambda: len(o) if kind in ('pcnn', 'legion') else None, lambda: record(kind, c, o, 7)]


def refused_by_core(c):
    """Arguments that only the core refuses; it reports through an error package."""
    n = len(c['data'])
    try:
        if c['alg'] == 'elbow':
            import pyclustering.core.elbow_wrapper as w
            w.elbow(c['data'], 5 + n, 6, 1, n % 2, n)
        elif c['alg'] == 'pam_build' and not c['p']['matrix']:
            import pyclustering.core.pam_build_wrapper as w
            from pyclustering.core.metric_wrapper import metric_wrapper
            from pyclustering.utils.metric import distance_metric, type_metric
            m = metric_wrapper.create_instance(distance_metric(type_metric.EUCLIDEAN))
            w.pam_build(c['data'], n + 3, m.get_pointer(), 'points')
        else:
            return
    except RuntimeError:
        return
    raise Violation('not refused', '%s with an impossible amount of clusters was accepted by the core' % c['alg'])


def call(c, mode):
    """A whole algorithm call."""
    if mode == 'callback':
        from pyclustering.core.metric_wrapper import metric_wrapper
        from pyclustering.utils.metric import distance_metric, type_metric
        count = [0]

        def bad(a, b):
            count[0] += 1
            if count[0] >= 2:
                raise ValueError('user callback')
            return 1.0
        import sys
        hook, sys.unraisablehook = sys.unraisablehook, lambda *a: None
        try:
            user = distance_metric(type_metric.USER_DEFINED, func=bad)
            m = metric_wrapper.create_instance(user)
            m([1.0], [2.0])
            if c['alg'] in ('bsas', 'mbsas'):
                import pyclustering.core.bsas_wrapper as w
                w.bsas(c['data'], 3, 1.0, m.get_pointer())
            elif c['alg'] == 'kmedoids' and not c['p']['matrix']:
                import pyclustering.core.kmedoids_wrapper as w
                w.kmedoids(c['data'], c['p']['medoids'], 0.1, 3, m.get_pointer(), 'points')
        finally:
            sys.unraisablehook = hook
        return None
    if mode == 'reject':
        # arguments that the Python layer refuses
        inp = catalog.build(c)
        inp['data'] = []
        if c['alg'] in REFUSING:
            catalog.execute(c, inp, True)
        refused_by_core(c)
        return None
    return catalog.execute(c, catalog.build(c), True)


REFUSING = ('kmeans', 'kmedians', 'kmedoids', 'fcm', 'dbscan', 'elbow', 'xmeans', 'gmeans', 'optics', 'agglomerative', 'somsc', 'rock')


def run(env, c):
    random.seed(7)
    numpy.random.seed(7)
    nat = env.core(c['cores'])
    pool = {}
    used = set()

    def dead():
        return nat.live()

    with env.session(nat, dict(c['cfg'], max_ops=400000000)) as s:
        base = nat.live()
        held = {}
        trail = []
        for op in c['ops']:
            what = op[0]
            before = nat.live()
            if what == 'new':
                pool[op[1]] = (op[2], op[3], new(op[2], op[3]))
                trail.append('create ' + op[2])
                if op[2] == 'metric':
                    env.probe(PROBES[4])
            elif what == 'use':
                if op[1] not in pool:
                    continue
                kind, case, o = pool[op[1]]
                if kind == 'som' and (op[2] & 3) == 0:
                    o.train(case['data'], 1 + op[2] % 4)
                    trail.append('train som')
                    used.add(op[1])
                    continue
                if kind == 'som' and op[1] not in used:
                    o.train(case['data'], 1)
                    used.add(op[1])
                todo = reads(kind, case, o)
                f = todo[op[2] % len(todo)]
                f()
                first = None
                for k in range(op[3]):
                    lv = nat.live()
                    f()
                    if nat.live() != lv:
                        raise Violation('read changes memory', 'after %s: reading from %s (reading %d of %d) changes the native memory held from %d to %d blocks' % (
                            trail[-6:], kind, op[2] % len(todo), len(todo), lv, nat.live()))
                    env.probe(PROBES[1])
                trail.append('read %s' % kind)
            elif what == 'record':
                if op[1] not in pool:
                    continue
                kind, case, o = pool[op[1]]
                pool[op[2]] = ('dynamic ' + kind, case, record(kind, case, o, op[3]))
                trail.append('record ' + kind)
            elif what == 'pickle':
                if op[1] not in pool:
                    continue
                kind, case, o = pool[op[1]]
                o2 = pickle.loads(pickle.dumps(o))
                if op[3]:
                    o2 = copy.deepcopy(o2)
                    gc.collect(0)
                pool[op[2]] = (kind, case, o2)
                used.discard(op[2])
                if op[1] in used:
                    used.add(op[2])
                trail.append('pickle')
                env.probe(PROBES[0])
            elif what == 'del':
                if op[1] not in pool:
                    continue
                kind = pool[op[1]][0]
                if kind.startswith('dynamic') and any(k == kind[8:] for k, _, _ in pool.values()):
                    env.probe(PROBES[3])
                if any(k == 'dynamic ' + kind for k, _, _ in pool.values()):
                    env.probe(PROBES[2])
                if op[2]:                           # left to the cyclic collector
                    loop = [pool.pop(op[1])[2]]
                    loop.append(loop)
                    del loop
                    env.probe(PROBES[8])
                else:
                    del pool[op[1]]
                o = f = todo = case = None
                gc.collect(0)
                trail.append('destroy ' + kind)
            else:
                call(op[1], op[2])
                gc.collect(0)
                trail.append('%s (%s)' % (op[1]['alg'], op[2]))
                env.probe(PROBES[{'ok': 7, 'reject': 6, 'callback': 5}[op[2]]])
                if nat.live() != before:
                    raise Violation('leak', 'after %s: a call of %s (%s) leaves %d native blocks' % (trail[-6:], op[1]['alg'], op[2], nat.live() - before))
        o = f = todo = case = o2 = None
        pool.clear()
        gc.collect()
        left = nat.live() - base
        if left:
            raise Violation('leak', 'history %s: with all objects gone %d native blocks are still held' % (trail[-12:], left))
    if s.stats['threads'] > 1:
        env.probe(PROBES[9])
    for t in trail:
        env.count('op: ' + t.split(' (')[0])
    env.note(trail)


def shrink(c):
    n = len(c['ops'])
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield dict(c, ops=c['ops'][:i] + c['ops'][i + size:])
        size //= 2
    if c['cores'] != 2:
        yield dict(c, cores=2)
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
