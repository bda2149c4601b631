"""C13: metric objects of the native core over histories of creation, use, destruction and collection."""
import functools
import gc
import math
import random

import numpy

from simlib import catalog, native, wl
from simlib.frame import REPO, Violation

ID = 'C13'
PLAN = {'quick': (40000, 40), 'thorough': (3000000, 700)}
RULE = ('A case is, for one to three caller threads, a history over a pool of metrics: creating native metrics from user-defined functions of every callable kind and from built-in metrics constructed in every '
        'documented way, evaluating them, running native algorithms on them, switching the numpy mode of metric objects, releasing them at once or through the cyclic collector, with collections and whole '
        'other operations injected into the middle of callbacks; some metrics are shared by all threads. Workers of the core call back on their own threads. Counted as distinct: different operation sequences.')
REAL = ['metric wrapper, metric classes, core wrappers and packages of the Python package', 'metric interface and the clustering algorithms of the core', 'ctypes callbacks into the interpreter']
STUB = ['moment of garbage collection, thread scheduling, core count, clock, random_device, heap (simulator)']
PROBES = ['algorithm with a user-defined metric', 'callback on a worker thread', 'metric released during a callback', 'metric created during a callback', 'nested algorithm in a callback', 'collection during a callback',
          'several caller threads', 'shared metric', 'user-defined metric evaluated after others were released', 'numpy mode switched']
BUILTIN = {'square': 'EUCLIDEAN_SQUARE', 'manhattan': 'MANHATTAN', 'euclidean': 'EUCLIDEAN', 'chebyshev': 'CHEBYSHEV'}
ALGS = ['kmeans', 'kmedians', 'kmedoids', 'bsas', 'mbsas', 'ttsas', 'pam_build', 'silhouette', 'xmeans']
FORMS = ['function', 'lambda', 'method', 'object', 'partial']


def distance(name, a, b):
    d = [abs(x - y) for x, y in zip(a, b)]
    if name in ('EUCLIDEAN', 'euclidean'):
        return math.sqrt(math.fsum(x * x for x in d))
    if name in ('EUCLIDEAN_SQUARE', 'square'):
        return math.fsum(x * x for x in d)
    if name in ('MANHATTAN', 'manhattan'):
        return math.fsum(d)
    if name in ('CHEBYSHEV', 'chebyshev'):
        return max(d)
    if name == 'MINKOWSKI':
        return math.fsum(x ** 2 for x in d) ** 0.5
    if name == 'MINKOWSKI4':
        return math.fsum(x ** 4 for x in d) ** 0.25
    if name == 'CANBERRA':
        return math.fsum(x / (abs(p) + abs(q)) for x, p, q in zip(d, a, b))
    if name == 'CHI_SQUARE':
        return math.fsum(x * x / (abs(p) + abs(q)) for x, p, q in zip(d, a, b))
    raise KeyError(name)


def algorithm(rng):
    n, dim = rng.choice([3, 4, 4, 6, 9, 9, 9, 14, 14, 30]), rng.choice([1, 2])
    alg = rng.choice(ALGS)
    data = catalog.points(rng, n, dim, rng.choice(['grid', 'blobs', 'uniform', 'ties']))
    k = rng.randrange(1, min(n, 4))
    labels = [i % k for i in range(k)] + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(labels)
    return dict(alg=alg, data=data, k=k, centers=[list(x) for x in rng.sample(data, k)], medoids=rng.sample(range(n), k), itermax=rng.choice([1, 3, 10]), t=rng.choice([0.3, 1.0, 3.0]),
                clusters=[[i for i in range(n) if labels[i] == j] for j in range(k)], observe=rng.random() < 0.3, seed=rng.randrange(1000))


def call(c, pointer):
    import pyclustering.core as core     # noqa
    a, d = c['alg'], c['data']
    if a == 'kmeans':
        from pyclustering.core.kmeans_wrapper import kmeans as f
        r = f(d, c['centers'], 0.001, c['itermax'], c['observe'], pointer)
    elif a == 'kmedians':
        from pyclustering.core.kmedians_wrapper import kmedians as f
        r = f(d, c['centers'], 0.001, c['itermax'], pointer)
    elif a == 'kmedoids':
        from pyclustering.core.kmedoids_wrapper import kmedoids as f
        r = f(d, c['medoids'], 0.001, c['itermax'], pointer, 'points')
    elif a == 'bsas':
        from pyclustering.core.bsas_wrapper import bsas as f
        r = f(d, c['k'], c['t'], pointer)
    elif a == 'mbsas':
        from pyclustering.core.mbsas_wrapper import mbsas as f
        r = f(d, c['k'], c['t'], pointer)
    elif a == 'ttsas':
        from pyclustering.core.ttsas_wrapper import ttsas as f
        r = f(d, c['t'], 2 * c['t'], pointer)
    elif a == 'pam_build':
        from pyclustering.core.pam_build_wrapper import pam_build as f
        r = f(d, c['k'], pointer, 'points')
    elif a == 'silhouette':
        from pyclustering.core.silhouette_wrapper import silhoeutte as f
        r = f(d, c['clusters'], pointer, 'points')
    else:
        from pyclustering.core.xmeans_wrapper import xmeans as f
        r = f(d, c['centers'], c['k'] + 3, 0.001, 0, 0.9, 0.9, 1, c['seed'], pointer)
    return catalog.canon(r)


class Method:
    def __init__(self, f):
        self.f = f

    def distance(self, a, b):
        return self.f(a, b)

    def __call__(self, a, b):
        return self.f(a, b)


def partial_form(f, a, b):
    return f(a, b)


def history(rng, prefix, shared):
    """Operations of one caller; metrics are known by name."""
    ops, alive, n = [], {}, 0
    todo = rng.choice([3, 5, 8, 12])

    def one(depth):
        nonlocal n
        names = [k for k in alive] + shared
        r = rng.random()
        if r < 0.28 or not names:
            name = '%s%d' % (prefix, n)
            n += 1
            if rng.random() < 0.7:
                f = rng.choice(sorted(BUILTIN))
                alive[name] = f
                return ['user', name, f, rng.choice(FORMS)]
            alive[name] = t = rng.choice(['EUCLIDEAN', 'EUCLIDEAN_SQUARE', 'MANHATTAN', 'CHEBYSHEV', 'MINKOWSKI', 'MINKOWSKI default', 'MINKOWSKI4', 'GOWER', 'GOWER data'] + ['CANBERRA', 'CHI_SQUARE'])
            return ['builtin', name, t]
        if r < 0.43 and alive:
            name = rng.choice(sorted(alive))
            del alive[name]
            return ['drop', name, rng.random() < 0.3]
        if r < 0.5:
            return ['collect']
        if r < 0.56:
            return ['mode', rng.choice(sorted(BUILTIN.values())), rng.random() < 0.5]
        if r < 0.72 or depth > 1:
            return ['eval', rng.choice(names), [[round(rng.uniform(0.5, 9), 2) for _ in range(2)] for _ in range(2)]]
        users = [k for k in names if k in shared or alive.get(k) in BUILTIN]
        if not users:
            return ['collect']
        name = rng.choice(users)
        op = ['algo', name, algorithm(rng), []]
        held = alive.pop(name, None)            # not released while it is used
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            op[3].append([rng.choice([1, 1, 2, 3, 5, 8, 13, 30]), one(depth + 1)])
        if held:
            alive[name] = held
        return op
    for _ in range(todo):
        ops.append(one(0))
    return ops


def make(rng, index, tier):
    threads = rng.choice([1, 1, 1, 2, 3])
    shared = [['user', 's%d' % i, rng.choice(sorted(BUILTIN)), rng.choice(FORMS)] for i in range(rng.choice([0, 1, 2]) if threads > 1 else 0)]
    return dict(shared=shared, threads=[history(rng, 'abc'[i], [s[1] for s in shared]) for i in range(threads)], cores=rng.choice([1, 2, 3, 4, 5]), cfg=native.schedule(rng, light=True))


class Pool:
    """The metrics of one caller."""

    def __init__(self, env, expected, shared=None, name=''):
        self.env, self.expected, self.shared = env, expected, shared
        self.items = {}
        self.stack = []         # algorithms running: [metric, queue of operations to inject, calls]
        self.released = False
        self.error = None
        self.name = name
        self.tid = None

    def find(self, name):
        if name in self.items:
            return self.items[name]
        return self.shared.items.get(name) if self.shared else None

    def user(self, name, f, form):
        from pyclustering.core.metric_wrapper import metric_wrapper
        from pyclustering.utils.metric import distance_metric, type_metric
        record = {'calls': 0, 'last': None, 'f': f, 'pool': self, 'name': name, 'watch': None}

        def work(a, b):
            a, b = list(a), list(b)
            record['calls'] += 1
            record['last'] = (a, b)
            if record['watch']:
                record['watch'](a, b)
            return distance(f, a, b)
        func = {'function': work, 'lambda': lambda a, b: work(a, b), 'method': Method(work).distance, 'object': Method(work), 'partial': functools.partial(partial_form, work)}[form]
        self.items[name] = (metric_wrapper.create_instance(distance_metric(type_metric.USER_DEFINED, func=func)), f, record)

    def builtin(self, name, t):
        from pyclustering.core.metric_wrapper import metric_wrapper
        from pyclustering.utils.metric import distance_metric, type_metric
        kw = {}
        if t == 'MINKOWSKI':
            kw['degree'] = 2.0
        if t == 'MINKOWSKI4':
            kw['degree'] = 4
        if t == 'GOWER':
            kw['max_range'] = [2.0, 4.0]
        if t == 'GOWER data':
            kw['data'] = [[1.0, 5.0], [3.0, 1.0]]
        kind = getattr(type_metric, t.split()[0].rstrip('4'))
        self.items[name] = (metric_wrapper.create_instance(distance_metric(kind, **kw)), t, None)

    def do(self, op):
        env, what = self.env, op[0]
        if what == 'user':
            self.user(op[1], op[2], op[3])
        elif what == 'builtin':
            self.builtin(op[1], op[2])
        elif what == 'drop':
            if op[1] not in self.items or any(s[0] == op[1] for s in self.stack):
                return
            self.released = True
            if op[2]:
                loop = [self.items.pop(op[1])]
                loop.append(loop)
                del loop
            else:
                del self.items[op[1]]
        elif what == 'collect':
            gc.collect(0)
        elif what == 'mode':
            from pyclustering.utils.metric import distance_metric, type_metric
            m, other = (distance_metric(getattr(type_metric, op[1])) for _ in range(2))
            a, b = [1.0, 2.0], [4.0, 6.0]
            (m.enable_numpy_usage if op[2] else m.disable_numpy_usage)()
            want = distance(op[1], a, b)
            x = (numpy.array(a), numpy.array(b)) if op[2] else (a, b)
            got = [float(m(*x)), float(other(a, b))]
            if any(abs(g - want) > 1e-9 for g in got):
                raise Violation('not independent', 'two %s metric objects, one switched to numpy %s: distances %s instead of %s' % (op[1], op[2], got, want))
            env.probe(PROBES[9])
        elif what == 'eval':
            e = self.find(op[1])
            if e is None:
                return
            w, f, rec = e
            a, b = op[2]
            before = rec['calls'] if rec else 0
            watch, seen = (rec['watch'], []) if rec else (None, None)
            if rec and e is self.items.get(op[1]):
                rec['watch'] = None
            got = w(a, b)
            if rec and e is self.items.get(op[1]):
                rec['watch'] = watch
                if rec['calls'] != before + 1 or rec['last'] != (a, b):
                    raise Violation('wrong function', 'evaluating metric %s (user-defined %s) called its function %d times, last with %s' % (op[1], f, rec['calls'] - before, rec['last']))
                if self.released:
                    env.probe(PROBES[8])
            if f.startswith('GOWER'):
                want = (abs(a[0] - b[0]) / 2.0 + abs(a[1] - b[1]) / 4.0) / 2
            else:
                want = distance(f.split()[0], a, b)
            if not abs(got - want) <= 1e-9 * (1 + abs(want)):
                raise Violation('wrong distance', 'metric %s (%s) gives %r for %s and %s instead of %r' % (op[1], f, got, a, b, want))
        else:
            self.algorithm(op)

    def algorithm(self, op):
        import threading
        e = self.find(op[1])
        if e is None:
            return
        env, (w, f, rec), case = self.env, e, op[2]
        mine = e is self.items.get(op[1])
        dim = len(case['data'][0])
        queue = sorted(op[3], key=lambda x: x[0]) if mine else []
        state = [op[1], queue, 0]
        here = threading.get_ident()
        before = rec['calls']

        def watch(a, b):
            state[2] += 1
            if len(a) != dim or len(b) != dim:
                self.error = self.error or Violation('wrong function', '%s on metric %s: its function is called with %s and %s' % (case['alg'], op[1], a, b))
            if threading.get_ident() != here:
                env.probe(PROBES[1])
                return                          # operations are injected on the caller's thread only
            while queue and queue[0][0] <= state[2] and self.error is None:
                todo = queue.pop(0)[1]
                calls, last = rec['calls'], rec['last']
                saved, rec['watch'] = rec['watch'], None
                try:
                    self.do(todo)
                    env.probe(PROBES[{'drop': 2, 'user': 3, 'builtin': 3, 'algo': 4, 'collect': 5}.get(todo[0], 3)])
                except Violation as v:
                    self.error = v
                except Exception as v:          # noqa
                    self.error = Violation('exception', '%s inside a callback raises %s: %s' % (todo[0], type(v).__name__, v))
                rec['watch'] = saved
        saved = None
        if mine:
            saved, rec['watch'] = rec['watch'], watch
        self.stack.append(state)
        try:
            r = call(case, w.get_pointer())
        finally:
            self.stack.pop()
            if mine:
                rec['watch'] = saved
        if self.error is not None:
            raise self.error
        env.probe(PROBES[0])
        env.count('runs of ' + case['alg'])
        if not mine:
            env.probe(PROBES[7])
        if rec['calls'] == before:
            raise Violation('wrong function', '%s on metric %s never called its function' % (case['alg'], op[1]))
        d = catalog.difference(self.expected[id(case)], r)
        if d:
            raise Violation('different result', '%s with user-defined %s (metric %s): not the result of the built-in metric: %s' % (case['alg'], f, op[1], d))


def references(c, env):
    """Results with the built-in metrics, one by one."""
    from pyclustering.core.metric_wrapper import metric_wrapper
    from pyclustering.utils.metric import distance_metric, type_metric
    out, kinds = {}, {s[1]: s[2] for s in c['shared']}

    def visit(ops):
        for op in ops:
            if op[0] == 'user':
                kinds[op[1]] = op[2]
            elif op[0] == 'algo':
                if op[1] in kinds:
                    m = metric_wrapper.create_instance(distance_metric(getattr(type_metric, BUILTIN[kinds[op[1]]])))
                    out[id(op[2])] = call(op[2], m.get_pointer())
                visit([x for _, x in op[3]])
    for ops in c['threads']:
        visit(ops)
    return out


def flat(ops):
    for op in ops:
        yield op[0] if op[0] != 'algo' else op[2]['alg']
        if op[0] == 'algo':
            yield from flat([x for _, x in op[3]])


def run(env, c):
    random.seed(7)
    nat = env.core(2)
    with env.session(nat, dict(seed=1, strategy=native.SERIAL, max_ops=200000000), main=False):
        expected = references(c, env)
    nat = env.core(c['cores'])
    out = []
    with env.session(nat, dict(c['cfg'], max_ops=400000000)) as s:
        shared = Pool(env, expected)
        for op in c['shared']:
            shared.do(op)
        pools = [Pool(env, expected, shared) for _ in c['threads']]

        def body(pool, ops):
            for op in ops:
                pool.do(op)
        if len(pools) == 1:
            body(pools[0], c['threads'][0])
        else:
            env.probe(PROBES[6])
            out = native.PyThreads(nat, REPO + '/pyclustering').run([lambda p=p, o=o: body(p, o) for p, o in zip(pools, c['threads'])])
        for p in pools + [shared]:
            p.items.clear()
        gc.collect()
    for ok, r in out:
        if not ok:
            if isinstance(r, Violation):
                raise r
            raise Violation('exception', 'a caller thread raised %s: %.200s' % (type(r).__name__, r))
    env.note([list(flat(o)) for o in c['threads']])


def shrink(c):
    if len(c['threads']) > 1:
        for i in range(len(c['threads'])):
            yield dict(c, threads=c['threads'][:i] + c['threads'][i + 1:])
    for t, ops in enumerate(c['threads']):
        n = len(ops)
        size = max(1, n // 2)
        while True:
            for i in range(0, n, size):
                yield dict(c, threads=c['threads'][:t] + [ops[:i] + ops[i + size:]] + c['threads'][t + 1:])
            if size == 1:
                break
            size //= 2
        for i, op in enumerate(ops):
            if op[0] == 'algo':
                for j in range(len(op[3])):
                    yield dict(c, threads=c['threads'][:t] + [ops[:i] + [op[:3] + [op[3][:j] + op[3][j + 1:]]] + ops[i + 1:]] + c['threads'][t + 1:])
    if c['cores'] != 2:
        yield dict(c, cores=2)
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
