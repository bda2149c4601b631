"""The library's algorithms behind one interface: a JSON case describes one call; `build` makes the objects a user would
pass in, `execute` makes the call and reads every result in a canonical form (numbers exact to the bit)."""
import copy
import math
import os
import warnings

import numpy

LIBRARY = os.path.join(os.environ.get('DSIM_REPO', '/repo'), 'pyclustering') + os.sep


class Injected(Exception):
    """Raised by the harness inside the library."""


PASS = (Injected,)
METRICS = ['EUCLIDEAN', 'EUCLIDEAN_SQUARE', 'MANHATTAN', 'CHEBYSHEV', 'MINKOWSKI', 'CANBERRA', 'CHI_SQUARE', 'GOWER']


def preload():
    """Imports the whole package, so that no run pays for it."""
    import importlib
    for root, dirs, files in os.walk(LIBRARY):
        dirs[:] = sorted(d for d in dirs if d not in ('tests', 'samples', 'examples'))
        for f in sorted(files):
            if f.endswith('.py'):
                name = 'pyclustering.' + os.path.relpath(os.path.join(root, f), LIBRARY)[:-3].replace(os.sep, '.')
                name = name[:-9] if name.endswith('.__init__') else name
                try:
                    importlib.import_module(name)
                except Exception:       # noqa
                    pass


# ------------------------------------------------------------------------------------------------- canonical values

def canon(x):
    """Nested lists of ints, strings and exactly written floats."""
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, (int, numpy.integer)):
        return int(x)
    if isinstance(x, (float, numpy.floating)):
        return 'f' + repr(float(x))
    if isinstance(x, complex):
        return ['complex', canon(x.real), canon(x.imag)]
    if isinstance(x, numpy.ndarray):
        return canon(x.tolist())
    if isinstance(x, dict):
        return ['dict'] + [[canon(k), canon(x[k])] for k in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((canon(v) for v in x), key=repr)
    if isinstance(x, (list, tuple, range)):
        return [canon(v) for v in x]
    if isinstance(x, numpy.bool_):
        return bool(x)
    if isinstance(x, BaseException):
        return ['raised', type(x).__name__]
    raise TypeError('no canonical form for %r' % type(x))


def difference(a, b, path=''):
    """Where two canonical values differ, or None."""
    if type(a) is not type(b):
        return '%s: %.80r vs %.80r' % (path or 'result', a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s: key %s only on one side' % (path, k)
            d = difference(a[k], b[k], path + '.' + k if path else k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path or 'result', len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    return None if a == b else '%s: %.80r vs %.80r' % (path or 'result', a, b)


# --------------------------------------------------------------------------------------------------------- the data

STYLES = ['blobs', 'uniform', 'grid', 'equal', 'ties', 'line']


def points(rng, n, dim, style=None):
    style = style or rng.choice(STYLES)
    if style == 'blobs':
        k = rng.randrange(1, 5)
        cs = [[rng.uniform(-10, 10) for _ in range(dim)] for _ in range(k)]
        return [[c + rng.gauss(0, 0.7) for c in cs[i * k // n]] for i in range(n)]
    if style == 'uniform':
        return [[rng.uniform(-5, 5) for _ in range(dim)] for _ in range(n)]
    if style == 'grid':
        w = rng.choice([2, 3, 5])
        return [[rng.randrange(w) * 0.5 for _ in range(dim)] for _ in range(n)]
    if style == 'equal':
        p = [rng.uniform(-3, 3) for _ in range(dim)]
        return [list(p) for _ in range(n)]
    if style == 'ties':
        ps = [[float(rng.randrange(4)) for _ in range(dim)] for _ in range(max(2, n // 4))]
        return [list(rng.choice(ps)) for _ in range(n)]
    s = rng.choice([0.25, 1.0])
    return [[i * s] + [0.0] * (dim - 1) for i in range(n)]


def metric_spec(rng, user=True, dim=2):
    r = rng.random()
    if r < 0.3:
        return None
    if user and r < 0.45:
        return {'type': 'USER_DEFINED', 'func': rng.choice(['square', 'manhattan', 'euclidean'])}
    t = rng.choice(METRICS)
    m = {'type': t}
    if t == 'MINKOWSKI':
        m['degree'] = rng.choice([2.0, 2.0, 4.0])
    if t == 'GOWER':
        m['max_range'] = [rng.choice([1.0, 2.0, 10.0]) for _ in range(dim)]
    return m


class user_metric:
    """A user-defined distance; `hook` sees every call."""

    def __init__(self, name, hook=None):
        self.name, self.hook = name, hook

    def __call__(self, a, b):
        if self.hook is not None:
            self.hook()
        if self.name == 'square':
            return float(sum((x - y) * (x - y) for x, y in zip(a, b)))
        if self.name == 'manhattan':
            return float(sum(abs(x - y) for x, y in zip(a, b)))
        return math.sqrt(sum((x - y) * (x - y) for x, y in zip(a, b)))


def make_metric(spec, hook=None):
    from pyclustering.utils.metric import distance_metric, type_metric
    if spec is None:
        return None
    t = getattr(type_metric, spec['type'])
    if spec['type'] == 'USER_DEFINED':
        return distance_metric(t, func=user_metric(spec['func'], hook))
    kw = {k: (list(v) if isinstance(v, list) else v) for k, v in spec.items() if k not in ('type',)}
    return distance_metric(t, **kw)


# ---------------------------------------------------------------------------------------------------- the algorithms

class Entry:
    def __init__(self, name, make, run, native=False, python=True, parallel=False, rand_native=False, rand_python=False,
                 seeded=False, metric=False, weight=1):
        self.name, self.make, self.run = name, make, run
        self.native, self.python, self.parallel = native, python, parallel
        self.rand_native, self.rand_python, self.seeded, self.metric, self.weight = rand_native, rand_python, seeded, metric, weight


ENTRIES = {}


def entry(name, make, **kw):
    def deco(f):
        ENTRIES[name] = Entry(name, make, f, **kw)
        return f
    return deco


def size(rng, lo=2, hi=24):
    n = rng.choice([lo, rng.randrange(lo, hi), rng.randrange(lo, hi), rng.randrange(lo, hi)])
    return n * rng.choice([2, 4]) if hi > 20 and rng.random() < 0.05 else n


def base(rng, lo=2, hi=24, dims=(1, 2, 2, 3), style=None):
    n, dim = size(rng, lo, hi), rng.choice(dims)
    return {'data': points(rng, n, dim, style)}, n, dim


def pick_centers(rng, data, k=None):
    n = len(data)
    k = k or rng.randrange(1, min(n, 6) + 1)
    mode = rng.random()
    if mode < 0.6:
        return [list(data[i]) for i in rng.sample(range(n), min(k, n))]
    if mode < 0.8:
        return [list(rng.choice(data)) for _ in range(k)]              # may repeat
    out = [list(data[i]) for i in rng.sample(range(n), min(k, n))]
    out.append([v + rng.choice([100.0, -50.0]) for v in data[0]])       # attracts nothing
    return out


TOL = [0.001, 0.0, 0.1, 1e-9]


def mk_kmeans(rng):
    c, n, dim = base(rng)
    c['p'] = dict(centers=pick_centers(rng, c['data']), tolerance=rng.choice(TOL), itermax=rng.choice([100, 0, 1, 2, 5]),
                  observe=rng.random() < 0.5)
    c['metric'] = metric_spec(rng, dim=dim)
    c['predict'] = points(rng, 3, dim, 'uniform') if rng.random() < 0.5 else None
    return c


def kwm(inp, **kw):
    if inp.get('metric') is not None:
        kw['metric'] = inp['metric']
    return kw


@entry('kmeans', mk_kmeans, native=True, parallel=True, metric=True, weight=2)
def _(c, inp, ccore):
    from pyclustering.cluster.kmeans import kmeans, kmeans_observer
    p = c['p']
    kw = kwm(inp, itermax=p['itermax'])
    obs = None
    if p['observe']:
        obs = kw['observer'] = inp['observer'] if inp.get('observer') is not None else kmeans_observer()
    o = kmeans(inp['data'], inp['centers'], p['tolerance'], ccore, **kw)
    o.process()
    r = {'clusters': o.get_clusters(), 'centers': o.get_centers(), 'wce': o.get_total_wce()}
    if obs is not None:
        r['history'] = [[obs.get_clusters(i), obs.get_centers(i)] for i in range(len(obs))]
    if inp.get('predict') is not None and len(o.get_centers()):
        r['predict'] = o.predict(inp['predict'])
    return r


def mk_kmedians(rng):
    c, n, dim = base(rng)
    c['p'] = dict(centers=pick_centers(rng, c['data']), tolerance=rng.choice(TOL), itermax=rng.choice([100, 0, 1, 2, 5]))
    c['metric'] = metric_spec(rng, dim=dim)
    c['predict'] = points(rng, 3, dim, 'uniform') if rng.random() < 0.3 else None
    return c


@entry('kmedians', mk_kmedians, native=True, parallel=True, metric=True, weight=2)
def _(c, inp, ccore):
    from pyclustering.cluster.kmedians import kmedians
    p = c['p']
    o = kmedians(inp['data'], inp['centers'], p['tolerance'], ccore, **kwm(inp, itermax=p['itermax']))
    o.process()
    r = {'clusters': o.get_clusters(), 'medians': o.get_medians(), 'wce': o.get_total_wce()}
    if inp.get('predict') is not None and len(o.get_medians()):
        r['predict'] = o.predict(inp['predict'])
    return r


def distances(data):
    return [[math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q))) for q in data] for p in data]


def mk_kmedoids(rng):
    c, n, dim = base(rng, 2, 20)
    k = rng.randrange(1, min(n, 5) + 1)
    c['p'] = dict(medoids=rng.sample(range(n), k), tolerance=rng.choice(TOL), itermax=rng.choice([200, 0, 1, 2, 5]),
                  matrix=rng.random() < 0.25)
    c['metric'] = None if c['p']['matrix'] else metric_spec(rng, dim=dim)
    c['predict'] = points(rng, 3, dim, 'uniform') if rng.random() < 0.3 and not c['p']['matrix'] else None
    return c


@entry('kmedoids', mk_kmedoids, native=True, parallel=True, metric=True, weight=2)
def _(c, inp, ccore):
    from pyclustering.cluster.kmedoids import kmedoids
    p = c['p']
    kw = kwm(inp, itermax=p['itermax'])
    if p['matrix']:
        kw['data_type'] = 'distance_matrix'
    o = kmedoids(inp['data'], inp['medoids'], p['tolerance'], ccore, **kw)
    o.process()
    r = {'clusters': o.get_clusters(), 'medoids': o.get_medoids(), 'iterations': o.get_iterations(), 'deviation': o.get_total_deviation(),
         'labels': o.get_labels()}
    if inp.get('predict') is not None:
        r['predict'] = o.predict(inp['predict'])
    return r


def mk_pam_build(rng):
    c, n, dim = base(rng, 2, 16)
    c['p'] = dict(k=rng.randrange(1, min(n, 5) + 1), matrix=rng.random() < 0.25)
    c['metric'] = None if c['p']['matrix'] else metric_spec(rng, dim=dim)
    return c


@entry('pam_build', mk_pam_build, native=True, metric=True)
def _(c, inp, ccore):
    from pyclustering.cluster.kmedoids import build
    kw = kwm(inp)
    if c['p']['matrix']:
        kw['data_type'] = 'distance_matrix'
    return {'medoids': build(inp['data'], c['p']['k'], ccore, **kw).initialize()}


def mk_fcm(rng):
    c, n, dim = base(rng, 2, 20)
    k = rng.randrange(1, min(n, 5) + 1)
    c['p'] = dict(centers=pick_centers(rng, c['data'], k), tolerance=rng.choice([0.001, 0.1, 1e-6]), itermax=rng.choice([200, 0, 1, 5, 20]),
                  m=rng.choice([2, 2, 1.5, 3]))
    return c


@entry('fcm', mk_fcm, native=True, parallel=True, weight=2)
def _(c, inp, ccore):
    from pyclustering.cluster.fcm import fcm
    p = c['p']
    o = fcm(inp['data'], inp['centers'], tolerance=p['tolerance'], itermax=p['itermax'], m=p['m'], ccore=ccore)
    o.process()
    return {'clusters': o.get_clusters(), 'centers': o.get_centers(), 'membership': o.get_membership()}


def seed(rng):
    return rng.choice([1, 5, 42, rng.randrange(1, 1 << 31)])


def mk_xmeans(rng):
    c, n, dim = base(rng, 2, 24)
    k = rng.randrange(1, min(n, 4) + 1)
    c['p'] = dict(centers=pick_centers(rng, c['data'], k), kmax=rng.choice([20, 2, 3, 5]), tolerance=rng.choice([0.001, 0.1]),
                  criterion=rng.choice([0, 1]), repeat=rng.choice([1, 1, 2, 5]), random_state=seed(rng),
                  alpha=rng.choice([0.9, 0.5]), beta=rng.choice([0.9, 0.5]), auto=rng.random() < 0.3)
    if c['p']['kmax'] < len(c['p']['centers']):
        c['p']['kmax'] = len(c['p']['centers'])
    c['metric'] = metric_spec(rng, dim=dim)
    c['predict'] = points(rng, 3, dim, 'uniform') if rng.random() < 0.3 else None
    return c


@entry('xmeans', mk_xmeans, native=True, parallel=True, metric=True, rand_python=True, seeded=True, weight=2)
def _(c, inp, ccore):
    from pyclustering.cluster.xmeans import xmeans, splitting_type
    p = c['p']
    o = xmeans(inp['data'], None if p['auto'] else inp['centers'], p['kmax'], p['tolerance'], splitting_type(p['criterion']), ccore,
               **kwm(inp, repeat=p['repeat'], random_state=p['random_state'], alpha=p['alpha'], beta=p['beta']))
    o.process()
    r = {'clusters': o.get_clusters(), 'centers': o.get_centers(), 'wce': o.get_total_wce()}
    if inp.get('predict') is not None:
        r['predict'] = o.predict(inp['predict'])
    return r


def mk_gmeans(rng):
    c, n, dim = base(rng, 3, 30)
    k = rng.randrange(1, min(n, 4) + 1)
    c['p'] = dict(k_init=k, tolerance=rng.choice([0.001, 0.1]), repeat=rng.choice([1, 3]), k_max=rng.choice([-1, max(k, 3), k, 8]), random_state=seed(rng))
    if c['p']['k_max'] != -1:
        c['p']['k_max'] = max(k, c['p']['k_max'])
    c['predict'] = points(rng, 3, dim, 'uniform') if rng.random() < 0.3 else None
    return c


@entry('gmeans', mk_gmeans, native=True, parallel=True, rand_python=True, seeded=True)
def _(c, inp, ccore):
    from pyclustering.cluster.gmeans import gmeans
    p = c['p']
    o = gmeans(inp['data'], p['k_init'], ccore, tolerance=p['tolerance'], repeat=p['repeat'], k_max=p['k_max'], random_state=p['random_state'])
    o.process()
    r = {'clusters': o.get_clusters(), 'centers': o.get_centers(), 'wce': o.get_total_wce()}
    if inp.get('predict') is not None:
        r['predict'] = o.predict(inp['predict'])
    return r


def mk_elbow(rng):
    c, n, dim = base(rng, 5, 20)
    kmin = rng.choice([1, 1, 2])
    kmax = min(n, kmin + rng.choice([2, 3, 4, 6]))
    step = rng.choice([1, 1, 2])
    if (kmax - kmin) // step + 1 < 3:
        step = 1
    c['p'] = dict(kmin=kmin, kmax=kmax, kstep=step, random_state=seed(rng), init=rng.choice(['pp', 'random']))
    if kmax - kmin + 1 < 3:
        c['p'].update(kmin=1, kmax=3)
    return c


@entry('elbow', mk_elbow, native=True, parallel=True, rand_python=True, seeded=True)
def _(c, inp, ccore):
    from pyclustering.cluster.elbow import elbow
    from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer, random_center_initializer
    p = c['p']
    o = elbow(inp['data'], p['kmin'], p['kmax'], kstep=p['kstep'], random_state=p['random_state'], ccore=ccore,
              initializer=kmeans_plusplus_initializer if p['init'] == 'pp' else random_center_initializer)
    o.process()
    return {'amount': o.get_amount(), 'wce': o.get_wce()}


def mk_silhouette(rng):
    c, n, dim = base(rng, 3, 20)
    k = rng.randrange(2, min(n, 5) + 1)
    labels = list(range(k)) + [rng.randrange(k) for _ in range(n - k)]
    rng.shuffle(labels)
    c['p'] = dict(clusters=shuffled_clusters(rng, labels, k), matrix=rng.random() < 0.25)
    c['metric'] = None if c['p']['matrix'] else metric_spec(rng, user=False, dim=dim)
    return c


@entry('silhouette', mk_silhouette, native=True, metric=True)
def _(c, inp, ccore):
    from pyclustering.cluster.silhouette import silhouette
    kw = kwm(inp, ccore=ccore)
    if c['p']['matrix']:
        kw['data_type'] = 'distance_matrix'
    return {'score': silhouette(inp['data'], inp['clusters'], **kw).process().get_score()}


def mk_ksearch(rng):
    c, n, dim = base(rng, 4, 16)
    kmin = rng.choice([2, 2, 3])
    c['p'] = dict(kmin=kmin, kmax=min(n, kmin + rng.choice([1, 2, 4])), algorithm=rng.choice([0, 1, 2]), random_state=seed(rng))
    return c


@entry('silhouette_ksearch', mk_ksearch, native=True, parallel=True, rand_python=True, seeded=True)
def _(c, inp, ccore):
    from pyclustering.cluster.silhouette import silhouette_ksearch, silhouette_ksearch_type as t
    p = c['p']
    o = silhouette_ksearch(inp['data'], p['kmin'], p['kmax'], algorithm=t(p['algorithm']), random_state=p['random_state'], ccore=ccore)
    o.process()
    return {'amount': o.get_amount(), 'score': o.get_score(), 'scores': o.get_scores()}


def mk_agglomerative(rng):
    c, n, dim = base(rng, 2, 14)
    c['p'] = dict(k=rng.randrange(1, n + 1), link=rng.randrange(4))
    return c


@entry('agglomerative', mk_agglomerative, native=True)
def _(c, inp, ccore):
    from pyclustering.cluster.agglomerative import agglomerative, type_link
    o = agglomerative(inp['data'], c['p']['k'], type_link(c['p']['link']), ccore)
    o.process()
    return {'clusters': o.get_clusters()}


def mk_bsas(rng):
    c, n, dim = base(rng)
    c['p'] = dict(maximum=rng.randrange(1, 8), threshold=rng.choice([0.0, 0.5, 1.0, 3.0]))
    c['metric'] = metric_spec(rng, dim=dim)
    return c


def run_sas(cls):
    def f(c, inp, ccore):
        import pyclustering.cluster as pc
        mod = __import__('pyclustering.cluster.' + cls, fromlist=['x'])
        p = c['p']
        if cls == 'ttsas':
            o = mod.ttsas(inp['data'], p['t1'], p['t2'], ccore, **kwm(inp))
        else:
            o = getattr(mod, cls)(inp['data'], p['maximum'], p['threshold'], ccore, **kwm(inp))
        o.process()
        return {'clusters': o.get_clusters(), 'representatives': o.get_representatives()}
    return f


def mk_ttsas(rng):
    c, n, dim = base(rng)
    t = rng.choice([0.1, 0.5, 1.0])
    c['p'] = dict(t1=t, t2=t * rng.choice([1.5, 2, 4]))
    c['metric'] = metric_spec(rng, dim=dim)
    return c


entry('bsas', mk_bsas, native=True, metric=True)(run_sas('bsas'))
entry('mbsas', mk_bsas, native=True, metric=True)(run_sas('mbsas'))
entry('ttsas', mk_ttsas, native=True, metric=True)(run_sas('ttsas'))


def mk_clique(rng):
    c, n, dim = base(rng, 2, 24, dims=(1, 2, 2, 3), style=rng.choice(['blobs', 'uniform', 'grid', 'ties']))
    c['p'] = dict(intervals=rng.choice([1, 2, 3, 5]), density=rng.choice([0, 0, 1, 2]))
    return c


@entry('clique', mk_clique, native=True)
def _(c, inp, ccore):
    from pyclustering.cluster.clique import clique
    o = clique(inp['data'], c['p']['intervals'], c['p']['density'], ccore=ccore)
    o.process()
    return {'clusters': o.get_clusters(), 'noise': o.get_noise(),
            'cells': [[b.logical_location, b.points, b.spatial_location.get_corners()] for b in o.get_cells()]}


def mk_cure(rng):
    c, n, dim = base(rng, 2, 16)
    c['p'] = dict(k=rng.randrange(1, min(n, 5) + 1), rep=rng.choice([1, 2, 5]), compression=rng.choice([0.1, 0.5, 0.9]))
    return c


@entry('cure', mk_cure, native=True)
def _(c, inp, ccore):
    from pyclustering.cluster.cure import cure
    p = c['p']
    o = cure(inp['data'], p['k'], p['rep'], p['compression'], ccore)
    o.process()
    return {'clusters': o.get_clusters(), 'representors': o.get_representors(), 'means': o.get_means()}


def mk_dbscan(rng):
    c, n, dim = base(rng)
    c['p'] = dict(eps=rng.choice([0.3, 0.75, 1.5, 4.0]), neighbors=rng.choice([1, 2, 3, 5]), matrix=rng.random() < 0.25)
    return c


@entry('dbscan', mk_dbscan, native=True)
def _(c, inp, ccore):
    from pyclustering.cluster.dbscan import dbscan
    p = c['p']
    o = dbscan(inp['data'], p['eps'], p['neighbors'], ccore, data_type='distance_matrix' if p['matrix'] else 'points')
    o.process()
    return {'clusters': o.get_clusters(), 'noise': o.get_noise()}


def mk_optics(rng):
    c, n, dim = base(rng)
    c['p'] = dict(eps=rng.choice([0.75, 1.5, 4.0, 8.0]), minpts=rng.choice([1, 2, 3]), amount=rng.choice([None, None, 1, 2, 3]), matrix=rng.random() < 0.25)
    if c['p']['amount'] is not None:        # an empty ordering has no connectivity radius
        c['p'].update(eps=1000.0, minpts=1)
    return c


@entry('optics', mk_optics, native=True)
def _(c, inp, ccore):
    from pyclustering.cluster.optics import optics
    p = c['p']
    o = optics(inp['data'], p['eps'], p['minpts'], p['amount'], ccore, data_type='distance_matrix' if p['matrix'] else 'points')
    o.process()
    return {'clusters': o.get_clusters(), 'noise': o.get_noise(), 'ordering': o.get_ordering(), 'radius': o.get_radius(),
            'objects': [[x.index_object, x.core_distance, x.reachability_distance] for x in o.get_optics_objects()]}


def mk_rock(rng):
    c, n, dim = base(rng, 2, 14)
    c['p'] = dict(eps=rng.choice([0.5, 1.0, 3.0]), k=rng.randrange(1, min(n, 5) + 1), threshold=rng.choice([0.2, 0.5, 0.9]))
    return c


@entry('rock', mk_rock, native=True)
def _(c, inp, ccore):
    from pyclustering.cluster.rock import rock
    p = c['p']
    o = rock(inp['data'], p['eps'], p['k'], p['threshold'], ccore)
    o.process()
    return {'clusters': o.get_clusters()}


def mk_somsc(rng):
    c, n, dim = base(rng, 2, 20)
    c['p'] = dict(k=rng.randrange(1, min(n, 5) + 1), epochs=rng.choice([0, 1, 5, 20]), random_state=seed(rng))
    c['predict'] = points(rng, 3, dim, 'uniform') if rng.random() < 0.5 else None
    return c


@entry('somsc', mk_somsc, native=True, rand_python=True, seeded=True)
def _(c, inp, ccore):
    from pyclustering.cluster.somsc import somsc
    p = c['p']
    o = somsc(inp['data'], p['k'], p['epochs'], ccore, random_state=p['random_state'])
    o.process()
    r = {'clusters': o.get_clusters()}
    if inp.get('predict') is not None:
        r['predict'] = o.predict(inp['predict'])
    return r


def mk_som(rng):
    c, n, dim = base(rng, 2, 20)
    c['p'] = dict(rows=rng.choice([1, 2, 3]), cols=rng.choice([1, 2, 4]), conn=rng.randrange(4), init=rng.randrange(4),
                  radius=rng.choice([None, None, 1.0, 2.5]), rate=rng.choice([0.1, 0.5]), threshold=rng.choice([0.001, 0.01]),
                  random_state=seed(rng), epochs=rng.choice([0, 1, 5, 20]), autostop=rng.random() < 0.3)
    c['predict'] = points(rng, 3, dim, 'uniform')
    return c


def som_object(p, ccore, parameters_=None):
    from pyclustering.nnet.som import som, type_conn
    return som(p['rows'], p['cols'], type_conn(p['conn']), parameters_ if parameters_ is not None else parameters({'alg': 'som', 'p': p}), ccore)


def som_state(o):
    return {'size': o.size, 'weights': o.weights, 'awards': o.awards, 'captured': o.capture_objects, 'winners': o.get_winner_number()}


@entry('som', mk_som, native=True, rand_python=True, seeded=True, weight=2)
def _(c, inp, ccore):
    p = c['p']
    o = som_object(p, ccore, inp.get('parameters'))
    iterations = o.train(inp['data'], p['epochs'], p['autostop'])
    r = som_state(o)
    r['iterations'] = iterations
    if p['epochs']:
        r['simulate'] = [o.simulate(x) for x in inp['predict']]
        r['distances'] = o.get_distance_matrix()
    return r


# -- oscillatory networks

def dyn(a, **kw):
    r = {'output': a.output, 'time': a.time, 'length': len(a), 'ensembles': a.allocate_sync_ensembles(**kw)}
    return r


def mk_sync(rng):
    big = rng.random() < 0.4
    n = rng.choice([64, 65, 66, 70]) if big else rng.choice([1, 2, 3, 8, 20, 63])
    conn = rng.choice([0, 1, 4, 5]) if math.isqrt(n) ** 2 != n else rng.randrange(0, 6)
    if conn == 5:
        conn = 1
    static = True if n > 20 else rng.random() < 0.75
    if not static:
        conn = 1
    frequency = rng.choice([0, 0, 1, 5]) if static else rng.choice([0, 0, 0.1])       # only weakly detuned networks converge quickly
    return {'data': None, 'p': dict(n=n, weight=rng.choice([1, 0.5, 2]), frequency=frequency, conn=conn,
                                    phases=rng.choice([0, 1]), static=static, steps=1 if big else rng.choice([1, 2, 5]),
                                    time=0.5 if big else rng.choice([0.5, 1, 2]),
                                    solver=rng.choice([0, 0, 0, 1]) if n > 8 else rng.choice([0, 1, 2]),     # Fehlberg is too slow for many
                                    collect=rng.random() < 0.8, order=rng.choice([0.5, 0.9]))}


@entry('sync', mk_sync, native=True, parallel=True, rand_native=True, rand_python=True, weight=2)
def _(c, inp, ccore):
    from pyclustering.nnet.sync import sync_network
    from pyclustering.nnet import conn_type, initial_type, solve_type, conn_represent
    p = c['p']
    o = sync_network(p['n'], p['weight'], p['frequency'], conn_type(p['conn']), conn_represent.MATRIX, initial_type(p['phases']), ccore)
    solver = solve_type(p['solver'])
    if p['static']:
        a = o.simulate_static(p['steps'], p['time'], solver, p['collect'])
    else:
        a = o.simulate_dynamic(p['order'], solver, p['collect'], 0.1, 0.02, 0.01)
    r = dyn(a, tolerance=0.1)
    r['order'] = [o.sync_order(), o.sync_local_order()]
    if len(r['output']) > 1 and p['n'] <= 8 and p['static']:
        r['correlation'] = a.allocate_correlation_matrix()
        r['order parameter'] = a.calculate_order_parameter(0, len(r['output']))
        r['local order parameter'] = a.calculate_local_order_parameter(o, 0, len(r['output']))
    return r


def mk_syncpr(rng):
    n = rng.choice([2, 4, 9, 64, 65])
    k = rng.choice([1, 2, 3])
    pats = [[rng.choice([-1, 1]) for _ in range(n)] for _ in range(k)]
    noisy = list(rng.choice(pats))
    for _ in range(rng.randrange(0, 3)):
        i = rng.randrange(n)
        noisy[i] = -noisy[i]
    static = n > 60 or rng.random() < 0.7
    solver = 0 if n > 60 else rng.choice([0, 1, 2 if n < 5 else 0]) if static else 1       # the fast solver need not converge
    return {'data': pats, 'p': dict(n=n, s1=rng.choice([0.1, 0.5]), s2=rng.choice([0.1, 0.5]), pattern=noisy, static=static,
                                    steps=1 if n > 60 else rng.choice([1, 3]), time=rng.choice([0.5, 1]), solver=solver,
                                    collect=rng.random() < 0.7)}


@entry('syncpr', mk_syncpr, native=True, parallel=True, rand_native=True, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.nnet.syncpr import syncpr
    from pyclustering.nnet import solve_type
    p = c['p']
    o = syncpr(p['n'], p['s1'], p['s2'], ccore)
    o.train(inp['data'])
    s = solve_type(p['solver'])
    if p['static']:
        a = o.simulate_static(p['steps'], p['time'], inp['pattern'], s, p['collect'])
    else:
        a = o.simulate_dynamic(inp['pattern'], 0.9, s, p['collect'], 0.1, 0.02, 0.01)
    r = dyn(a, tolerance=0.1)
    r['memory'] = o.memory_order(inp['pattern'])
    return r


def mk_syncnet(rng):
    big = rng.random() < 0.15
    c, n, dim = base(rng, 64 if big else 2, 67 if big else 16, style='blobs' if big else None)
    c['p'] = dict(radius=rng.choice([0.5, 1.0, 3.0]), phases=rng.choice([0, 1]), weighted=rng.random() < 0.3, order=0.7 if big else rng.choice([0.9, 0.99]),
                  solver=0 if big else rng.choice([0, 0, 1, 2 if n <= 5 else 0]), collect=rng.random() < 0.6)
    return c


@entry('syncnet', mk_syncnet, native=True, parallel=True, rand_native=True, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.cluster.syncnet import syncnet
    from pyclustering.nnet import initial_type, solve_type, conn_represent
    p = c['p']
    o = syncnet(inp['data'], p['radius'], conn_represent.MATRIX, initial_type(p['phases']), p['weighted'], ccore)
    a = o.process(p['order'], solve_type(p['solver']), p['collect'])
    return {'output': a.output, 'time': a.time, 'clusters': a.allocate_clusters(0.1)}


def mk_hsyncnet(rng):
    c, n, dim = base(rng, 3, 12)
    c['p'] = dict(k=rng.randrange(1, 4), phases=rng.choice([0, 1]), neighbors=rng.choice([1, 3]), increase=rng.choice([0.15, 0.5]),
                  order=0.998, solver=0, collect=rng.random() < 0.6)
    return c


@entry('hsyncnet', mk_hsyncnet, native=True, parallel=True, rand_native=True, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.cluster.hsyncnet import hsyncnet
    from pyclustering.nnet import initial_type, solve_type
    p = c['p']
    o = hsyncnet(inp['data'], p['k'], initial_type(p['phases']), p['neighbors'], p['increase'], ccore)
    a = o.process(p['order'], solve_type(p['solver']), p['collect'])
    return {'output': a.output, 'time': a.time, 'clusters': a.allocate_clusters(0.1)}


def mk_hhn(rng):
    n = rng.choice([1, 2, 3, 5, 8])
    return {'data': [rng.choice([0.0, 10.0, 25.0, 60.0]) for _ in range(n)],
            'p': dict(steps=rng.choice([2, 5, 10]), time=rng.choice([0.5, 2.0, 5.0]), solver=rng.choice([1, 1, 2]), nu=rng.uniform(-1, 1))}


@entry('hhn', mk_hhn, native=True, parallel=True, rand_native=True, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.nnet.hhn import hhn_network
    from pyclustering.nnet import solve_type
    p = c['p']
    q = inp.get('parameters') or parameters(c)
    o = hhn_network(len(inp['data']), inp['data'], q, ccore=ccore)
    t, per, cen = o.simulate(p['steps'], p['time'], solve_type(p['solver'] if ccore else 1))
    return {'time': t, 'peripheral': per, 'central': cen, 'ensembles': o.allocate_sync_ensembles(0.2)}


def mk_legion(rng):
    n = rng.choice([1, 4, 4, 9])
    return {'data': [rng.choice([0, 1]) for _ in range(n)],
            'p': dict(conn=rng.choice([0, 1, 2, 3, 4]), steps=rng.choice([2, 5]), time=rng.choice([1.0, 5.0]), solver=rng.choice([1, 1, 2]),
                      collect=rng.random() < 0.7, potential=rng.random() < 0.6)}


@entry('legion', mk_legion, native=True, rand_native=True, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.nnet.legion import legion_network
    from pyclustering.nnet import solve_type, conn_type
    p = c['p']
    q = inp.get('parameters') or parameters(c)
    o = legion_network(len(inp['data']), q, conn_type(p['conn']), ccore=ccore)
    a = o.simulate(p['steps'], p['time'], inp['data'], solve_type(p['solver'] if ccore else 1), p['collect'] or not ccore)
    r = {'output': a.output, 'inhibitor': a.inhibitor, 'time': a.time, 'length': len(a)}
    r['ensembles'] = a.allocate_sync_ensembles(0.1)
    return r


def mk_pcnn(rng):
    n = rng.choice([1, 4, 9, 16])
    conn = rng.choice([0, 1, 2, 3, 4])
    return {'data': [rng.choice([0, 1, 100]) for _ in range(n)],
            'p': dict(conn=conn, steps=rng.choice([1, 5, 12]), fast=rng.random() < 0.4, shape=rng.random() < 0.3)}


@entry('pcnn', mk_pcnn, native=True, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.nnet.pcnn import pcnn_network
    from pyclustering.nnet import conn_type
    p = c['p']
    q = inp.get('parameters') or parameters(c)
    n = len(inp['data'])
    kw = dict(height=1, width=n) if p['shape'] else {}
    o = pcnn_network(n, q, conn_type(p['conn']), ccore=ccore, **kw)
    a = o.simulate(p['steps'], inp['data'])
    return {'output': a.output, 'time': a.time, 'length': len(a), 'sync': a.allocate_sync_ensembles(), 'spike': a.allocate_spike_ensembles(), 'signal': a.allocate_time_signal()}


# -- Python only

def mk_birch(rng):
    c, n, dim = base(rng, 2, 30)
    c['p'] = dict(k=rng.randrange(1, min(n, 4) + 1), branching=rng.choice([2, 3, 5]), entries=rng.choice([2, 4, 20]), diameter=rng.choice([0.05, 0.5, 2.0]),
                  measure=rng.randrange(5), limit=rng.choice([500, 10, 4]), multiplier=rng.choice([1.5, 2.0]))
    return c


@entry('birch', mk_birch)
def _(c, inp, ccore):
    from pyclustering.cluster.birch import birch
    from pyclustering.container.cftree import measurement_type
    p = c['p']
    o = birch(inp['data'], p['k'], p['branching'], p['entries'], p['diameter'], measurement_type(p['measure']), p['limit'], p['multiplier'])
    o.process()
    return {'clusters': o.get_clusters(), 'entries': [[e.number_points, e.linear_sum, e.square_sum] for e in o.get_cf_entries()], 'cf': o.get_cf_cluster()}


def mk_clarans(rng):
    c, n, dim = base(rng, 3, 14)
    c['p'] = dict(k=rng.randrange(1, min(n - 1, 4) + 1), numlocal=rng.choice([1, 2, 3]), maxneighbor=rng.choice([1, 2, 4]))
    return c


@entry('clarans', mk_clarans, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.cluster.clarans import clarans
    p = c['p']
    o = clarans(inp['data'], p['k'], p['numlocal'], p['maxneighbor'])
    o.process()
    return {'clusters': o.get_clusters(), 'medoids': o.get_medoids()}


def mk_ga(rng):
    c, n, dim = base(rng, 3, 14)
    c['p'] = dict(k=rng.randrange(1, min(n, 4) + 1), chromosomes=rng.choice([4, 8, 10]), populations=rng.choice([1, 3, 6]), random_state=seed(rng),
                  genes=rng.choice([1, 2]), rate=rng.choice([1.0, 0.5]), mutation=rng.choice([0.25, 0.5]), select=rng.choice([1.0, 0.3]), observe=rng.random() < 0.5)
    return c


@entry('ga', mk_ga, rand_python=True, seeded=True)
def _(c, inp, ccore):
    from pyclustering.cluster.ga import genetic_algorithm, ga_observer
    p = c['p']
    kw = {}
    if p['observe']:
        kw['observer'] = inp['observer'] if inp.get('observer') is not None else ga_observer(True, True, True)
    o = genetic_algorithm(inp['data'], p['k'], p['chromosomes'], p['populations'], count_mutation_gens=p['genes'], crossover_rate=p['rate'],
                          coeff_mutation_count=p['mutation'], select_coeff=p['select'], random_state=p['random_state'], **kw)
    best = o.process()
    r = {'clusters': o.get_clusters(), 'best': best}
    if kw:
        b = o.get_observer()
        r['history'] = [b.get_global_best(), b.get_population_best(), b.get_mean_fitness_function()]
    return r


def mk_ema(rng):
    c, n, dim = base(rng, 4, 24, dims=(2, 2, 3), style=rng.choice(['blobs', 'uniform']))
    k = rng.randrange(1, 4)
    c['p'] = dict(k=k, tolerance=rng.choice([1e-5, 1e-2]), iterations=rng.choice([0, 1, 5, 20]), observe=rng.random() < 0.5,
                  means=[list(v) for v in rng.sample(c['data'], k)], variances=[[[1.0 if i == j else 0.0 for i in range(dim)] for j in range(dim)] for _ in range(k)])
    return c


@entry('ema', mk_ema)
def _(c, inp, ccore):
    from pyclustering.cluster.ema import ema, ema_observer
    p = c['p']
    obs = (inp['observer'] if inp.get('observer') is not None else ema_observer()) if p['observe'] else None
    o = ema(inp['data'], p['k'], inp['means'], inp['variances'], obs, p['tolerance'], p['iterations'])
    o.process()
    r = {'clusters': o.get_clusters(), 'centers': o.get_centers(), 'covariances': o.get_covariances(), 'probabilities': o.get_probabilities()}
    if obs is not None:
        r['history'] = [obs.get_evolution_means(), obs.get_evolution_covariances(), obs.get_evolution_clusters()]
    return r


def mk_bang(rng):
    c, n, dim = base(rng, 2, 30, style=rng.choice(['blobs', 'uniform', 'grid', 'ties']))
    c['p'] = dict(levels=rng.choice([1, 3, 5, 7]), density=rng.choice([0.0, 0.5]), amount=rng.choice([0, 1]))
    return c


@entry('bang', mk_bang)
def _(c, inp, ccore):
    from pyclustering.cluster.bang import bang
    p = c['p']
    o = bang(inp['data'], p['levels'], density_threshold=p['density'], amount_threshold=p['amount'])
    o.process()
    d = o.get_directory()
    return {'clusters': o.get_clusters(), 'noise': o.get_noise(), 'dendrogram': [[b.get_points() for b in x] for x in o.get_dendrogram()],
            'blocks': [[b.get_region(), b.get_density(), b.get_cluster(), b.get_points(), b.get_spatial_block().get_corners()] for b in d.get_leafs()]}


def mk_init(rng):
    c, n, dim = base(rng, 2, 16)
    k = rng.randrange(1, n + 1)
    c['p'] = dict(k=k, index=rng.random() < 0.5, random_state=rng.choice([0, 1, 7, rng.randrange(1 << 31)]),
                  candidates=rng.choice([None, 1, 'f', n]), random=rng.random() < 0.4, matrix=False)
    c['metric'] = None if c['p']['random'] else metric_spec(rng, user=False, dim=dim)
    return c


@entry('initializer', mk_init, rand_python=True, seeded=True, metric=True)
def _(c, inp, ccore):
    from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer as pp, random_center_initializer as rc
    p = c['p']
    if p['random']:
        o = rc(inp['data'], p['k'], random_state=p['random_state'])
    else:
        cand = pp.FARTHEST_CENTER_CANDIDATE if p['candidates'] == 'f' else p['candidates']
        o = pp(inp['data'], p['k'], cand, **kwm(inp, random_state=p['random_state']))
    return {'centers': o.initialize(return_index=p['index'])}


def mk_kdtree(rng):
    c, n, dim = base(rng, 1, 24)
    c['p'] = dict(queries=points(rng, 4, dim, 'uniform'), radius=rng.choice([0.5, 1.5, 4.0]), balanced=rng.random() < 0.3,
                  remove=rng.sample(range(n), rng.randrange(0, n)))
    return c


@entry('kdtree', mk_kdtree)
def _(c, inp, ccore):
    from pyclustering.container.kdtree import kdtree, kdtree_balanced
    p = c['p']
    if p['balanced']:
        t = kdtree_balanced(inp['data'], list(range(len(inp['data']))))
    else:
        t = kdtree()
        for i, x in enumerate(inp['data']):
            t.insert(x, i)
        for i in p['remove']:
            t.remove(inp['data'][i], payload=i)
    r = []
    for q in inp['queries']:
        near = t.find_nearest_dist_node(q, p['radius'])
        r.append([near.payload if near else None, sorted((d, x.payload) for d, x in t.find_nearest_dist_nodes(q, p['radius']))])
    return {'answers': r, 'size': len(t)}


def mk_cftree(rng):
    c, n, dim = base(rng, 1, 30)
    c['p'] = dict(branch=rng.choice([2, 3, 5]), entries=rng.choice([1, 2, 5]), threshold=rng.choice([0.01, 0.3, 1.0]), measure=rng.randrange(5))
    return c


@entry('cftree', mk_cftree)
def _(c, inp, ccore):
    from pyclustering.container.cftree import cftree, measurement_type
    p = c['p']
    t = cftree(p['branch'], p['entries'], p['threshold'], measurement_type(p['measure']))
    for x in inp['data']:
        t.insert_point(x)
    return {'nodes': t.amount_nodes, 'entries': t.amount_entries, 'height': t.height,
            'leafs': [[[e.number_points, e.linear_sum, e.square_sum] for e in l.entries] for l in t.leafes]}


def graph(rng, lo=2, hi=10):
    n = rng.randrange(lo, hi)
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if rng.random() < 0.4:
                m[i][j] = m[j][i] = 1
    return m


@entry('dsatur', lambda rng: {'data': graph(rng, 2, 14), 'p': {}})
def _(c, inp, ccore):
    from pyclustering.gcolor.dsatur import dsatur
    o = dsatur(inp['data'])
    o.process()
    return {'colors': o.get_colors()}


@entry('hysteresis', lambda rng: {'data': graph(rng, 2, 6), 'p': dict(steps=rng.choice([2, 5]), time=rng.choice([1.0, 5.0]))})
def _(c, inp, ccore):
    from pyclustering.gcolor.hysteresis import hysteresisgcolor
    p = c['p']
    o = hysteresisgcolor(inp['data'], 1.2, 1.8)
    a = o.process(p['steps'], p['time'])
    return {'output': a.output, 'time': a.time, 'length': len(a), 'colors': a.allocate_map_coloring(0.1, 1)}


def mk_syncgcolor(rng):
    return {'data': graph(rng, 2, 7), 'p': dict(order=rng.choice([0.9, 0.99]))}


@entry('syncgcolor', mk_syncgcolor, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.gcolor.sync import syncgcolor
    o = syncgcolor(inp['data'], 1, -1)
    a = o.simulate_dynamic(order=c['p']['order'], step=0.2, int_step=0.1, threshold_changes=0.01) if False else o.simulate_static(3, 1.0, collect_dynamic=True)
    return {'output': a.output, 'time': a.time}


def mk_cnn(rng):
    c, n, dim = base(rng, 4, 10, dims=(2,), style='uniform')
    c['p'] = dict(conn=rng.choice([0, 1]), neighbors=3, steps=rng.choice([2, 6]))
    return c


@entry('cnn', mk_cnn, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.nnet.cnn import cnn_network, type_conn
    p = c['p']
    o = cnn_network(len(inp['data']), type_conn(p['conn']), p['neighbors'])
    a = o.simulate(p['steps'], inp['data'])
    return {'output': a.output, 'time': a.time, 'length': len(a), 'ensembles': a.allocate_sync_ensembles(2)}


@entry('fsync', lambda rng: {'data': None, 'p': dict(n=rng.choice([1, 2, 4]), steps=rng.choice([2, 4]), time=1.0, collect=rng.random() < 0.5)}, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.nnet.fsync import fsync_network
    p = c['p']
    a = fsync_network(p['n']).simulate(p['steps'], p['time'], p['collect'])
    return {'output': a.output, 'time': a.time}


def mk_syncsom(rng):
    c, n, dim = base(rng, 4, 12, dims=(2,), style=rng.choice(['blobs', 'uniform']))
    c['p'] = dict(rows=rng.choice([1, 2]), cols=rng.choice([2, 3]), radius=rng.choice([0.5, 1.0, 2.0]))
    return c


@entry('syncsom', mk_syncsom, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.cluster.syncsom import syncsom
    p = c['p']
    o = syncsom(inp['data'], p['rows'], p['cols'], p['radius'])
    a = o.process(True, 0.9)
    return {'time': a[0], 'output': a[1], 'clusters': o.get_clusters(0.1), 'som': o.get_som_clusters()}


def shuffled_clusters(rng, labels, k):
    r = [[i for i in range(len(labels)) if labels[i] == j] for j in range(k)]
    for cluster in r:
        if rng.random() < 0.5:
            rng.shuffle(cluster)
    return r


def mk_encoder(rng):
    c, n, dim = base(rng, 2, 16)
    k = rng.randrange(1, min(n, 4) + 1)
    labels = [rng.randrange(k) for _ in range(n)]
    start = rng.choice(['index', 'index', 'label', 'object'])
    clusters = shuffled_clusters(rng, labels, k)
    c['p'] = dict(start=start, order=rng.sample(range(3), 3),
                  clusters=labels if start == 'label' else [[list(c['data'][i]) for i in x] for x in clusters] if start == 'object' else clusters)
    return c


@entry('encoder', mk_encoder)
def _(c, inp, ccore):
    from pyclustering.cluster.encoder import cluster_encoder, type_encoding
    p = c['p']
    start = {'index': type_encoding.CLUSTER_INDEX_LIST_SEPARATION, 'label': type_encoding.CLUSTER_INDEX_LABELING, 'object': type_encoding.CLUSTER_OBJECT_LIST_SEPARATION}
    e = cluster_encoder(start[p['start']], inp['clusters'], inp['data'])
    r = []
    for t in p['order']:
        e.set_encoding(type_encoding(t))
        r.append(copy.deepcopy(e.get_clusters()))
    return {'forms': r}


@entry('metric', lambda rng: (lambda c, n, dim: dict(c, p={}, metric=metric_spec(rng, dim=dim) or {'type': 'EUCLIDEAN'}))(*base(rng, 2, 8)), metric=True)
def _(c, inp, ccore):
    m = inp['metric']
    d = inp['data']
    return {'distances': [[m(a, b) for a in d] for b in d]}


# -- functions of the package

def mk_sampling(rng):
    n = rng.choice([1, 2, 5, 20])
    return {'data': points(rng, n, 2) if rng.random() < 0.5 else [rng.uniform(-5, 5) for _ in range(n)],
            'p': dict(n=rng.randrange(1, n + 1), x=rng.random() < 0.5)}


@entry('sampling', mk_sampling, rand_python=True)
def _(c, inp, ccore):
    from pyclustering.utils.sampling import reservoir_r, reservoir_x
    p = c['p']
    return {'sample': (reservoir_x if p['x'] else reservoir_r)(inp['data'], p['n'])}


def mk_statistics(rng):
    c, n, dim = base(rng, 4, 12, dims=(2,))
    h = rng.randrange(1, n)
    labels = rng.sample(range(n), n)
    c['p'] = dict(first=labels[:h], second=labels[h:], k=rng.randrange(1, 4), other=points(rng, n, dim, 'uniform'), scale=rng.choice([1.0, 2.0]),
                  covariance=[[2.0, 0.5], [0.5, 1.0]], ignore=[0], sorted=sorted(rng.randrange(4) for _ in range(n)),
                  pixels=[[rng.randrange(256) for _ in range(3)] for _ in range(4)])
    c['metric'] = metric_spec(rng, dim=dim)
    return c


@entry('statistics', mk_statistics, metric=True)
def _(c, inp, ccore):
    from pyclustering import utils as u
    p, d, a, b = c['p'], inp['data'], inp['first'], inp['second']
    one, two = [d[i] for i in p['first']], [d[i] for i in p['second']]
    r = {}
    for name, f in (('matrix', lambda: u.calculate_distance_matrix(d, **kwm(inp))), ('neighbors', lambda: u.average_neighbor_distance(d, p['k'])),
                    ('inter', lambda: u.average_inter_cluster_distance(a, b, d)), ('intra', lambda: u.average_intra_cluster_distance(a, b, d)),
                    ('variance', lambda: u.variance_increase_distance(a, b, d)), ('inter of points', lambda: u.average_inter_cluster_distance(one, two)),
                    ('intra of points', lambda: u.average_intra_cluster_distance(one, two)), ('variance of points', lambda: u.variance_increase_distance(one, two)),
                    ('corners', lambda: u.data_corners(d)), ('corners of some', lambda: u.data_corners(d, a)), ('sum', lambda: u.linear_sum(d)),
                    ('squares', lambda: u.square_sum(d)), ('subtraction', lambda: u.list_math_subtraction(d[0], d[1])),
                    ('addition', lambda: u.list_math_addition(d[0], d[1])), ('product', lambda: u.list_math_multiplication(d[0], d[1])),
                    ('subtraction of number', lambda: u.list_math_substraction_number(d[0], 1.5)), ('addition of number', lambda: u.list_math_addition_number(d[0], 1.5)),
                    ('quotient', lambda: u.list_math_division_number(d[0], 1.5)), ('multiple', lambda: u.list_math_multiplication_number(d[0], 1.5)),
                    ('norm', lambda: u.norm_vector(d[0])), ('ellipse', lambda: u.calculate_ellipse_description(inp['covariance'], p['scale'])),
                    ('oscillations', lambda: u.extract_number_oscillations(d, 0, 0.5)), ('synchronous', lambda: u.allocate_sync_ensembles(d, 0.1)),
                    ('synchronous without', lambda: u.allocate_sync_ensembles(d, 0.1, 1.0, inp['ignore'])),
                    ('left', lambda: u.find_left_element(inp['sorted'], len(d) - 1, lambda x, y: x < y)), ('gray', lambda: u.rgb2gray(inp['pixels']))):
        try:
            r[name] = canon(copy.deepcopy(f()))
        except PASS:
            raise
        except Exception as e:      # noqa
            r[name] = 'raises ' + type(e).__name__
    return r


# -------------------------------------------------------------------------------------------------------- build, run

# inputs that come from the parameters, as a user would hold them: {algorithm: [names]}
FROM_P = {'kmeans': ['centers'], 'kmedians': ['centers'], 'kmedoids': ['medoids'], 'fcm': ['centers'], 'xmeans': ['centers'],
          'silhouette': ['clusters'], 'encoder': ['clusters'], 'ema': ['means', 'variances'], 'kdtree': ['queries'], 'syncpr': ['pattern'],
          'statistics': ['first', 'second', 'covariance', 'ignore', 'sorted', 'pixels']}


def make(rng, name):
    e = ENTRIES[name]
    c = e.make(rng)
    c['alg'] = name
    c.setdefault('metric', None)
    c.setdefault('predict', None)
    return c


def names(**want):
    out = []
    for n, e in ENTRIES.items():
        if all(getattr(e, k) == v for k, v in want.items()):
            out += [n] * e.weight
    return sorted(out)


def parameters(c):
    """The parameters object of algorithms that take one."""
    p = c.get('p') or {}
    if c['alg'] == 'som':
        from pyclustering.nnet.som import som_parameters, type_init
        q = som_parameters()
        q.init_type, q.init_radius = type_init(p['init']), p['radius']
        q.init_learn_rate, q.adaptation_threshold, q.random_state = p['rate'], p['threshold'], p['random_state']
        return q
    if c['alg'] == 'hhn':
        from pyclustering.nnet.hhn import hhn_parameters
        q = hhn_parameters()
        q.nu = p['nu']
        return q
    if c['alg'] == 'legion':
        from pyclustering.nnet.legion import legion_parameters
        q = legion_parameters()
        q.ENABLE_POTENTIONAL = p['potential']
        return q
    if c['alg'] == 'pcnn':
        from pyclustering.nnet.pcnn import pcnn_parameters
        q = pcnn_parameters()
        q.FAST_LINKING = p['fast']
        return q
    return None


def build(c, hook=None, forms=None):
    """The objects the caller passes in; `forms` says which of them are arrays or tuples instead of lists. An array that overlaps
    the data (the first rows of it as initial centers, say) has the form 'alias'."""
    inp = {'data': copy.deepcopy(c['data'])}
    p = c.get('p') or {}
    if p.get('matrix'):
        inp['data'] = distances(c['data'])
    for k in FROM_P.get(c['alg'], ()):
        inp[k] = copy.deepcopy(p[k])
    if c.get('predict') is not None:
        inp['predict'] = copy.deepcopy(c['predict'])
    if c.get('metric') is not None:
        inp['metric'] = make_metric(c['metric'], hook)
    for k, f in sorted((forms or {}).items(), key=lambda x: x[0] != 'data'):
        if f == 'alias':
            inp[k] = inp['data'][:len(inp[k])]      # the same row objects, or a view
        elif f == 'tuple':
            inp[k] = tuple(inp[k])
        else:
            try:
                inp[k] = numpy.array(inp[k])
            except ValueError:                      # not rectangular
                pass
    return inp


def choose_forms(rng, c, share=0.5):
    out = {}
    if c.get('data'):
        for k in ['data'] + FROM_P.get(c['alg'], []) + (['predict'] if c.get('predict') is not None else []):
            if rng.random() < share:
                out[k] = rng.choice(['array', 'array', 'array', 'tuple'])
            if k == 'centers' and rng.random() < 0.3 and len(c['p'][k]) <= len(c['data']):
                out[k] = 'alias'
    return out


def execute(c, inp, ccore):
    """Makes the call; canonical result, or the exception the library raised. (Warnings are switched off once for the process:
    the context manager of the warnings module is not made for several threads.)"""
    try:
        r = ENTRIES[c['alg']].run(c, inp, ccore)
    except PASS:
        raise
    except Exception as e:
        if not through_library(e):
            raise
        return {'raised': type(e).__name__}
    return {k: canon(v) for k, v in r.items()}


def deterministic(c, ccore):
    """Whether the result is a function of the arguments alone: no unseeded random numbers, no generator of the process."""
    e, p = ENTRIES[c['alg']], c.get('p') or {}
    if ccore and uses_core(c):
        if c['alg'] == 'xmeans':
            return not p['auto']                    # the initial centers come from the Python implementation
        if c['alg'] in ('syncnet', 'hsyncnet'):
            return False                            # the native constructor ignores the type of initial phases
        if c['alg'] == 'sync':
            return p['phases'] == 1 and not p.get('frequency')
        if c['alg'] == 'syncpr':
            return True                             # phases are set from the pattern
        return not e.rand_native
    return not e.rand_python


def may_hang(c, ccore):
    """Calls that need not end by design: fast linking of pcnn iterates to a fixed point that need not exist for random thresholds."""
    return c['alg'] == 'pcnn' and not ccore and c['p']['fast']


def through_library(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(LIBRARY):
            return True
        tb = tb.tb_next
    return False


def call(c, ccore, inp=None):
    return execute(c, build(c) if inp is None else inp, ccore)


def uses_core(c):
    """Whether the call reaches the native core when it is requested."""
    e = ENTRIES[c['alg']]
    return e.native and not (c.get('metric') or {}).get('type') == 'USER_DEFINED'


def shrink(c):
    """Simpler calls of the same algorithm."""
    d = c.get('data')
    if c['alg'] in ('kmeans', 'kmedians', 'fcm', 'xmeans', 'bsas', 'mbsas', 'ttsas', 'dbscan', 'optics', 'birch') and d and len(d) > 3:
        yield dict(c, data=d[:len(d) // 2 + 1])
        yield dict(c, data=d[:-1])
    if c.get('metric') is not None and c['alg'] != 'metric':
        yield dict(c, metric=None)
    if c.get('predict') is not None and c['alg'] != 'som':
        yield dict(c, predict=None)
    p = c.get('p') or {}
    for k, vals in (('itermax', (1, 2)), ('observe', (False,)), ('repeat', (1,)), ('steps', (1,)), ('epochs', (1,)), ('collect', (False,)), ('matrix', ())):
        for v in vals:
            if k in p and p[k] != v and not (isinstance(p[k], int) and not isinstance(p[k], bool) and p[k] < v):
                yield dict(c, p=dict(p, **{k: v}))
    if isinstance(p.get('centers'), list) and len(p['centers']) > 1:
        yield dict(c, p=dict(p, centers=p['centers'][:-1]))
