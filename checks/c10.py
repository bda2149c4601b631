"""C10: the random procedures of the Python implementation under any draws."""
import math
import random
import sys
import warnings

import numpy

from checks import c19
from simlib import catalog, pyrand
from simlib.frame import Violation

ID = 'C10'
PLAN = {'quick': (400000, 40), 'thorough': (20000000, 700)}
RULE = ('A case is a procedure of the Python implementation that draws random numbers, with its data, and a script that decides the first draws of `random` and `numpy.random` (constants, extremes, cycles, ramps, long runs of '
        'equal draws); after the script the draws are fair. Initialisers and generators are used several times. Counted as distinct: different results together with the shape of the case.')
REAL = ['sampling, center initialisers, CLARANS, genetic algorithm, EM and its initialisers, SOM, data generator, syncnet, syncsom, and the Python x-means, g-means, elbow and silhouette search']
STUB = ['every draw of random and numpy.random']
KINDS = ['reservoir_r', 'reservoir_x', 'random_center', 'kmeans++', 'clarans', 'ga', 'ema_initializer', 'ema', 'som', 'generator', 'xmeans', 'gmeans', 'elbow', 'ksearch', 'somsc', 'syncnet', 'syncsom']
WEIGHT = [4, 4, 6, 8, 5, 5, 4, 3, 4, 2, 2, 2, 1, 2, 1, 1, 1]
PROBES = KINDS + ['all draws minimal', 'all draws maximal', 'script outlived', 'fewer distinct points than centers', 'object used again', 'distance matrix', 'searched again']


def make(rng, index, tier):
    kind = rng.choices(KINDS, WEIGHT)[0]
    c = dict(kind=kind, script=pyrand.script(rng), seed=rng.randrange(1 << 31), p={})
    p = c['p']
    if kind in ('reservoir_r', 'reservoir_x'):
        n = rng.choice([0, 1, 2, 5, 20, 60])
        p.update(n=n, take=rng.choice([0, min(1, n), n, max(n - 1, 0), rng.randrange(n + 1)]), over=rng.random() < 0.05, style=rng.choice(['position', 'position', 'points', 'text', 'array']))
    elif kind in ('random_center', 'kmeans++'):
        d, n, dim = catalog.base(rng, 1, 14)
        if rng.random() < 0.4:
            pool = [rng.choice(d['data']) for _ in range(rng.choice([1, 2, 3]))]
            d['data'] = [list(rng.choice(pool)) for _ in range(n)]
        k = rng.choice([1, n, rng.randrange(1, n + 1), rng.randrange(1, n + 1)])
        c['data'] = d['data']
        p.update(k=k, uses=[rng.random() < 0.7 for _ in range(rng.choice([1, 1, 2, 3]))], candidates=rng.choice([None, 'f', 1, n, rng.randrange(1, n + 1)]), matrix=rng.random() < 0.2,
                 array=rng.random() < 0.3, metric=rng.choice([None, 'euclid', 'manhattan', 'chebyshev']))
    elif kind == 'generator':
        k = rng.randrange(1, 5)
        p.update(k=k, dim=rng.randrange(1, 4), sizes=rng.choice([rng.randrange(0, 9), [rng.randrange(0, 9) for _ in range(k)]]), width=rng.choice([1.0, 0.001, [rng.choice([0.5, 2.0]) for _ in range(k)]]),
                 centers=rng.random() < 0.3)
    elif kind in ('ema_initializer', 'ema'):
        d, n, dim = catalog.base(rng, 3, 16, dims=(2, 2, 3), style=rng.choice(['blobs', 'uniform', 'uniform']))
        c['data'] = d['data']
        p.update(k=rng.randrange(1, min(n, 5) + 1), init=rng.choice([0, 0, 1]), iterations=rng.choice([1, 3, 10]), array=False)
    elif kind == 'som':
        d, n, dim = catalog.base(rng, 1, 14)
        c['data'] = d['data']
        p.update(rows=rng.randrange(1, 4), cols=rng.randrange(2, 4), conn=rng.randrange(4), init=rng.choice([0, 1, 2, 2, 3]), epochs=rng.choice([1, 2, 6]), autostop=rng.random() < 0.4, rate=rng.choice([0.1, 0.9]), seed=rng.choice([None, 0, 5]))
    else:
        name = {'ksearch': 'silhouette_ksearch'}.get(kind, kind)
        while True:
            d = catalog.make(rng, name)
            if len(d['data']) <= 24 and not catalog.may_hang(d, False) and d['p'].get('solver', 0) == 0 and d['p'].get('allocator', 0) != 99:
                break
        if kind == 'syncnet':
            d['p'].update(phases=0, order=0.9, weighted=False)       # weights of zero never synchronise
        if kind == 'somsc':
            d['p']['epochs'] = max(d['p']['epochs'], 1)      # nothing is captured without training
        if (d.get('metric') or {}).get('type') == 'USER_DEFINED':
            d['metric'] = None                              # k-means++ needs a metric that works on numpy arrays
        c['call'] = d
        p['again'] = rng.random() < 0.5
        c['data'] = d['data']
    return c


def fail(c, kind, text):
    raise Violation(kind, '%s: %s' % (c['kind'], text))


def partition(c, clusters, n, extra=()):
    seen = sorted(i for cl in clusters for i in cl) + list(extra)
    if sorted(seen) != list(range(n)):
        fail(c, 'not a partition', 'clusters %s of %d points' % (clusters, n))
    return len(clusters)


def finite(c, what, values):
    if not numpy.all(numpy.isfinite(numpy.asarray(values, dtype=float))):
        fail(c, 'not a number', '%s: %s' % (what, str(values)[:200]))


def metric(name):
    from pyclustering.utils.metric import distance_metric, type_metric
    return distance_metric({'euclid': type_metric.EUCLIDEAN, 'manhattan': type_metric.MANHATTAN, 'chebyshev': type_metric.CHEBYSHEV}[name])


def reservoir(env, c, p):
    from pyclustering.utils import sampling
    n, take = p['n'], p['take']
    if p['style'] == 'points':
        data = [[float(i), -float(i)] for i in range(n)]
    elif p['style'] == 'text':
        data = ['x%d' % i for i in range(n)]
    else:
        data = list(range(n))
    before = list(data)
    f = getattr(sampling, c['kind'])
    if p['over']:
        try:
            f(data, n + 1)
        except ValueError:
            return []
        fail(c, 'too large a sample accepted', 'a sample of %d from %d' % (n + 1, n))
    if p['style'] == 'array':
        data = numpy.array(data, dtype=int)
    r = f(data, take)
    if p['style'] == 'array':
        r = [int(x) for x in r]
    if len(r) != take:
        fail(c, 'wrong size', 'a sample of %d from %d has %d elements' % (take, n, len(r)))
    pos = [before.index(x) if x in before else -1 for x in r]
    if -1 in pos:
        fail(c, 'not from the data', 'sample %s' % r)
    if len(set(pos)) != take:
        fail(c, 'position repeated', 'sample %s of %d from %d' % (pos, take, n))
    if list(data) != before:
        fail(c, 'data changed', 'sampling modified the data')
    return pos


def initialiser(env, c, p):
    from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer as pp, random_center_initializer as rc
    data, k, n = c['data'], p['k'], len(c['data'])
    plain = [list(x) for x in data]
    if c['kind'] == 'random_center':
        o = rc(numpy.array(data) if p['array'] else data, k)
        matrix = False
    else:
        cand = pp.FARTHEST_CENTER_CANDIDATE if p['candidates'] == 'f' else p['candidates']
        kw = {}
        matrix = p['matrix']
        arg = numpy.array(data) if p['array'] else data
        if matrix:
            arg = [[math.dist(a, b) for b in data] for a in data]
            kw['data_type'] = 'distance_matrix'
            env.probe('distance matrix')
        elif p['metric']:
            kw['metric'] = metric(p['metric'])
        o = pp(arg, k, cand, **kw)
    if len({tuple(x) for x in data}) < k:
        env.probe('fewer distinct points than centers')
    res = []
    for j, index in enumerate(p['uses']):
        index = index or matrix
        r = list(o.initialize(return_index=index))
        if j:
            env.probe('object used again')
        if len(r) != k:
            fail(c, 'wrong number of centers', '%d instead of %d' % (len(r), k))
        if index:
            r = [int(x) for x in r]
            if any(not 0 <= x < n for x in r):
                fail(c, 'index outside the data', '%s of %d points' % (r, n))
            if len(set(r)) != k:
                fail(c, 'center repeated', 'indexes %s' % r)
            res.append(r)
        else:
            left = list(plain)
            for x in r:
                x = [float(v) for v in x]
                if x not in plain:
                    fail(c, 'not from the data', 'center %s' % x)
                if x not in left:
                    fail(c, 'center repeated', 'center %s more often than in the data' % x)
                left.remove(x)
                res.append(x)
    return res


def generator(env, c, p):
    from pyclustering.cluster.generator import data_generator
    k, dim = p['k'], p['dim']
    sizes = p['sizes'] if isinstance(p['sizes'], list) else [p['sizes']] * k
    centers = [[float(3 * i)] * dim for i in range(k)] if p['centers'] else None
    o = data_generator(k, dim, p['sizes'], centers, p['width'])
    for j in range(2):
        r = o.generate()
        if len(r) != sum(sizes):
            fail(c, 'wrong number of points', '%d instead of %d' % (len(r), sum(sizes)))
        if any(len(x) != dim for x in r):
            fail(c, 'wrong dimension', str(r)[:200])
        finite(c, 'point', r)
        if centers:
            w = p['width'] if isinstance(p['width'], list) else [p['width']] * k
            at = 0
            for i in range(k):
                for x in r[at:at + sizes[i]]:
                    if max(abs(v - m) for v, m in zip(x, centers[i])) > 5.0 * w[i]:      # 10 standard deviations: beyond what 53 bits can draw
                        fail(c, 'point far from its cluster', '%s of cluster %d' % (x, i))
                at += sizes[i]
    return r


def em(env, c, p):
    from pyclustering.cluster.ema import ema, ema_initializer, ema_init_type
    data, k = c['data'], p['k']
    n, dim = len(data), len(data[0])
    means, cov = ema_initializer(data, k).initialize(ema_init_type(p['init']))
    if len(means) != len(cov) or not (1 <= len(means) <= k if p['init'] else len(means) == k):
        fail(c, 'wrong number of initial clusters', '%d means and %d covariances instead of %d' % (len(means), len(cov), k))
    finite(c, 'initial mean', [list(m) for m in means])
    for m in cov:
        if numpy.shape(m) != (dim, dim):
            fail(c, 'wrong covariance', 'shape %s' % (numpy.shape(m),))
        finite(c, 'initial covariance', m)
    if c['kind'] == 'ema_initializer':
        return [list(map(float, m)) for m in means]
    o = ema(data, len(means), means, cov, None, 0.00001, p['iterations'])
    o.process()
    clusters = o.get_clusters()
    partition(c, clusters, n)
    sizes = [len(clusters), len(o.get_centers()), len(o.get_covariances()), len(o.get_probabilities())]
    if len(set(sizes)) != 1 or sizes[0] > k:
        fail(c, 'result lengths differ', 'clusters, centers, covariances, probabilities: %s' % sizes)
    if any(not x for x in clusters):
        fail(c, 'empty cluster', str(clusters))
    finite(c, 'centers', o.get_centers())
    prob = numpy.array(o.get_probabilities(), dtype=float)
    finite(c, 'probabilities', prob)
    if prob.shape != (len(clusters), n) or (prob < -1e-12).any() or (prob > 1 + 1e-6).any():
        fail(c, 'wrong probabilities', str(prob.tolist())[:300])
    return clusters


def som_(env, c, p):
    from pyclustering.nnet.som import som, som_parameters, type_conn, type_init
    data = c['data']
    q = som_parameters()
    q.init_type, q.init_learn_rate, q.random_state = type_init(p['init']), p['rate'], p['seed']
    o = som(p['rows'], p['cols'], type_conn(p['conn']), q, ccore=False)
    size = p['rows'] * p['cols']
    for _ in range(2):
        steps = o.train(data, p['epochs'], p['autostop'])
        if not 1 <= steps <= p['epochs']:
            fail(c, 'wrong number of epochs', '%d of %d' % (steps, p['epochs']))
        partition(c, o.capture_objects, len(data))
        if [len(x) for x in o.capture_objects] != list(o.awards) or len(o.awards) != size:
            fail(c, 'awards differ from captured objects', '%s, %s' % (o.awards, o.capture_objects))
        if o.get_winner_number() != sum(1 for x in o.awards if x):
            fail(c, 'wrong number of winners', '%d, awards %s' % (o.get_winner_number(), o.awards))
        w = numpy.array(o.weights, dtype=float)
        finite(c, 'weights', w)
        if w.shape != (size, len(data[0])):
            fail(c, 'wrong weights', 'shape %s' % (w.shape,))
        d = numpy.array(data, dtype=float)
        lo, hi = d.min(0), d.max(0)
        if p['init'] == 0:
            lo, hi = numpy.minimum(lo, 0.0), numpy.maximum(hi, 1.0)
        elif p['init'] == 1:
            lo, hi = lo, numpy.maximum(hi, (d.min(0) + d.max(0)) / 2 + 1.0)
        else:
            pass
        if p['init'] in (0, 1, 2) and ((w < lo - 1e-9).any() or (w > hi + 1e-9).any()):
            fail(c, 'weight outside the data', '%s not between %s and %s' % (w.tolist(), lo.tolist(), hi.tolist()))
        for x in data:
            if not 0 <= o.simulate(x) < size:
                fail(c, 'wrong winner', str(o.simulate(x)))
    return [list(x) for x in o.capture_objects]


def clarans_(env, c, draws):
    from pyclustering.cluster.clarans import clarans
    p, data = c['call']['p'], c['data']
    o = clarans(data, p['k'], p['numlocal'], p['maxneighbor'])
    o.process()
    med, clusters = o.get_medoids(), o.get_clusters()
    if len(set(med)) != p['k'] or len(med) != p['k'] or any(not 0 <= m < len(data) for m in med):
        fail(c, 'wrong medoids', '%s for %d clusters of %d points' % (med, p['k'], len(data)))
    partition(c, clusters, len(data))

    def cost(m):
        return sum(min(sum((a - b) ** 2 for a, b in zip(x, data[i])) for i in m) for x in data)
    start = [cost(s) for s in draws.samples if len(s) == p['k']]
    if start and cost(med) > min(start) * (1 + 1e-9) + 1e-12:
        fail(c, 'best result lost', 'cost %r, an initial set of medoids examined had %r' % (cost(med), min(start)))
    return [med, clusters]


def ga_(env, c):
    from pyclustering.cluster.ga import genetic_algorithm, ga_observer
    p, data = c['call']['p'], c['data']
    n = len(data)
    obs = ga_observer(True, True, True)
    o = genetic_algorithm(data, p['k'], p['chromosomes'], p['populations'], count_mutation_gens=p['genes'], crossover_rate=p['rate'], coeff_mutation_count=p['mutation'], select_coeff=p['select'], observer=obs)
    with numpy.errstate(over='ignore'):
        try:
            best, ff = o.process()
        except ValueError as e:
            if 'normalized' in str(e):      # documented: data outside [0, 1] may overflow the fitness
                return 'not normalized'
            raise
    clusters = o.get_clusters()
    partition(c, clusters, n)
    if len(clusters) != p['k']:
        fail(c, 'wrong number of clusters', '%d instead of %d' % (len(clusters), p['k']))
    glob, pop = [float(x) for x in obs.get_global_best()['fitness_function']], [float(x) for x in obs.get_population_best()['fitness_function']]
    if len(glob) != p['populations'] + 1:
        fail(c, 'history incomplete', '%d populations observed instead of %d' % (len(glob), p['populations'] + 1))
    low = math.inf
    for i, (g, q) in enumerate(zip(glob, pop)):
        low = min(low, q)
        if g != low:
            fail(c, 'best result lost', 'population %d: best cost %r, best examined %r' % (i, g, low))
    if float(ff) != low:
        fail(c, 'best result lost', 'returned cost %r, best examined %r' % (float(ff), low))
    d = numpy.array(data, dtype=float)
    want = 0.0
    for cl in clusters:
        if cl:
            want += float(numpy.abs(d[cl] - d[cl].mean(0)).sum())
    if abs(want - low) > 1e-9 * max(1.0, abs(low)):
        fail(c, 'best chromosome changed', 'clusters cost %r, reported best cost %r' % (want, low))
    for ch in obs.get_global_best()['chromosome']:
        if any(not 0 <= g < p['k'] for g in ch) or len(ch) != n:
            fail(c, 'wrong chromosome', str(ch))
    return clusters


def search(env, c):
    kind, d, data = c['kind'], c['call'], c['data']
    p, n = d['p'], len(c['data'])
    inp, f = catalog.build(d), catalog.ENTRIES[d['alg']].run
    again = kind in ('elbow', 'ksearch', 'gmeans', 'somsc') and c['p'].get('again')
    catch = c19.Catch(f.__code__)
    if again:
        sys.setprofile(catch)
    try:
        r = f(d, inp, False)
    finally:
        if again:
            sys.setprofile(None)
    valid(env, c, r)
    o = catch.found.get('o') if again else None
    if o is not None:
        env.probe('searched again')
        o.process()
        valid(env, c, dict(r, **({'amount': o.get_amount()} if hasattr(o, 'get_amount') else {}), **({'score': o.get_score(), 'scores': o.get_scores()} if kind == 'ksearch' else {}),
                           **({'wce': o.get_wce()} if kind == 'elbow' else {}), **({'clusters': o.get_clusters()} if kind in ('gmeans', 'somsc') else {}),
                           **({'centers': o.get_centers()} if kind == 'gmeans' else {})))
    return r


def valid(env, c, r):
    kind, d, data = c['kind'], c['call'], c['data']
    p, n = d['p'], len(c['data'])
    if kind in ('xmeans', 'gmeans'):
        clusters, centers = r['clusters'], r['centers']
        partition(c, clusters, n)
        if len(clusters) != len(centers):
            fail(c, 'result lengths differ', '%d clusters and %d centers' % (len(clusters), len(centers)))
        finite(c, 'centers', centers)
        top = p.get('k_max', p.get('kmax', -1))
        if top and top > 0 and len(centers) > max(top, len(d.get('centers') or ())):
            fail(c, 'too many clusters', '%d, at most %d allowed' % (len(centers), top))
    elif kind == 'ksearch':
        scores = r.get('scores')
        best = max([x for x in scores.values() if x == x], default=None)
        if best is not None and not (r['score'] == best and scores.get(r['amount']) == best):
            fail(c, 'best result lost', 'amount %s score %s, examined %s' % (r['amount'], r['score'], scores))
    elif kind == 'somsc':
        partition(c, r['clusters'], n)
    elif kind == 'syncsom':
        partition(c, r['clusters'], n)
    elif kind == 'syncnet':
        partition(c, r['clusters'], n)
    elif kind == 'elbow':
        ks = list(range(p['kmin'], p['kmax'] + 1, p['kstep']))
        if r['amount'] not in ks or len(r['wce']) != len(ks):
            fail(c, 'wrong result', 'amount %s, errors %s for k in %s' % (r['amount'], r['wce'], ks))


def run(env, c):
    p = c['p']
    env.probe(c['kind'])
    if c['script'] and len(c['script']) >= 30 and len(set(c['script'])) == 1:
        if c['script'][0] == 0.0:
            env.probe('all draws minimal')
        elif c['script'][0] == 1.0 - 2.0 ** -53:
            env.probe('all draws maximal')
    env.fault('scripted draws', len(c['script']))
    with pyrand.Draws(c['script'], c['seed']) as draws, warnings.catch_warnings(), numpy.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        if c['kind'] in ('reservoir_r', 'reservoir_x'):
            r = reservoir(env, c, p)
        elif c['kind'] in ('random_center', 'kmeans++'):
            r = initialiser(env, c, p)
        elif c['kind'] == 'generator':
            r = generator(env, c, p)
        elif c['kind'] in ('ema', 'ema_initializer'):
            r = em(env, c, p)
        elif c['kind'] == 'som':
            r = som_(env, c, p)
        elif c['kind'] == 'clarans':
            r = clarans_(env, c, draws)
        elif c['kind'] == 'ga':
            r = ga_(env, c)
        else:
            r = search(env, c)
    if draws.n > len(c['script']) > 0:
        env.probe('script outlived')
    env.note([c['kind'], len(c.get('data') or ()), str(r)[:400]])


def shrink(c):
    s = c['script']
    for cut in (len(s) // 2, len(s) - 1):
        if 0 <= cut < len(s):
            yield dict(c, script=s[:cut])
    if c['p'].get('uses') and len(c['p']['uses']) > 1:
        yield dict(c, p=dict(c['p'], uses=c['p']['uses'][:-1]))
    if c.get('call'):
        for d in catalog.shrink(c['call']):
            yield dict(c, call=d, data=d['data'])
    elif c.get('data') and len(c['data']) > max(1, c['p'].get('k', 1)):
        yield dict(c, data=c['data'][:-1])
        yield dict(c, data=c['data'][1:])
    for v in (0.0, 0.5):
        if any(x != v for x in s):
            for i in range(min(len(s), 20)):
                if s[i] != v and s[i] not in (0.0, 0.5):
                    yield dict(c, script=s[:i] + [v] + s[i + 1:])
