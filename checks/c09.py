"""C09: native initialisers and unseeded native searches under any entropy and clock."""
import collections
import ctypes
import math
import random

from simlib import catalog, native, pyrand, wl
from simlib.frame import Violation

ID = 'C09'
PLAN = {'quick': (200000, 40), 'thorough': (8000000, 700)}
RULE = ('Two kinds of case. (1) One native initialiser object (k-means++ with any number of candidates, or random) used repeatedly - all data, indexes, permitted subsets, several data sets, copied and moved in '
        'between, after rejected uses - on data with repeated points, under a simulated clock and entropy that may be degenerate. (2) A native algorithm without a seed under the same entropy, '
        'clock, heap, schedule and core count. Counted as distinct: different results together with the shape of the case.')
REAL = ['k-means++ and random initialisers, x-means, g-means, elbow, silhouette search, SOM clustering, synchronisation networks of the core', 'their Python wrappers (second kind)']
STUB = ['random_device, clock, heap, thread scheduling, core count (simulator); the C++ standard library turns their values into draws']
PROBES = ['k-means++', 'random initialiser', 'subset', 'repeated points', 'fewer distinct points than centers', 'all points requested', 'object reused', 'object reused after a rejected use', 'copied', 'degenerate entropy',
          'stopped clock', 'xmeans', 'gmeans', 'elbow', 'silhouette_ksearch', 'somsc', 'syncnet', 'som']
ALGS = ['xmeans', 'xmeans', 'gmeans', 'gmeans', 'elbow', 'silhouette_ksearch', 'somsc', 'som', 'syncnet', 'hsyncnet']

Job = wl.struct('InitJob', ['kind', 'amount', 'candidates', 'metric', 'seeded', 'seed', 'dim', 'uses'])
Use = wl.struct('InitUse', ['method', 'set', 'length', 'offset', 'copy'])
Out = wl.struct('InitOut', ['status', 'count'])


def environment(rng):
    e = native.schedule(rng, light=True)
    e.update(entropy_mode=rng.choice([0, 0, 0, 1, 2, 3, 4]), clock_base=rng.choice([10 ** 18, rng.randrange(1, 1 << 62), rng.randrange(1, 1 << 40), 0]), clock_step=rng.choice([0, 1, 1000, 10 ** 6, 1 << 32]))
    return e


def make(rng, index, tier):
    if rng.random() < 0.45:
        dim = rng.choice([1, 1, 2, 3])
        sets = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 3, 4, 5, 8, 13, 30])
            style = rng.random()
            if style < 0.35:
                pool = [[float(rng.randrange(3)) for _ in range(dim)] for _ in range(rng.choice([1, 2, 3]))]
                sets.append([rng.choice(pool) for _ in range(n)])
            elif style < 0.6:
                sets.append([[float(rng.randrange(4)) for _ in range(dim)] for _ in range(n)])
            elif style < 0.7:
                sets.append([[rng.choice([0.0, 1e-160, 1e150, -1e150]) for _ in range(dim)] for _ in range(n)])
            else:
                sets.append([[rng.uniform(-5, 5) for _ in range(dim)] for _ in range(n)])
        kind = int(rng.random() < 0.4)
        biggest = max(map(len, sets))
        amount = rng.choice([1, 2, 2, 3, biggest, rng.randrange(1, biggest + 2), 0])
        uses = []
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            s = rng.randrange(len(sets))
            method = rng.choice([0, 2, 2] if kind else [0, 1, 2, 2])
            subset = []
            if method == 2:
                n = len(sets[s])
                subset = rng.sample(range(n), rng.randrange(min(amount, n), n + 1)) if rng.random() < 0.85 else rng.sample(range(n), rng.randrange(0, n + 1))
                if rng.random() < 0.4:
                    subset.sort()
            uses.append([method, s, subset, rng.choice([0, 0, 0, 0, 1, 2])])
        return dict(what='init', dim=dim, sets=sets, kind=kind, amount=amount, candidates=rng.choice([-1, 1, 1, 1, 2, 5, 0]), metric=rng.choice([0, 0, 1, 2]), uses=uses, env=environment(rng))
    for _ in range(200):
        c = catalog.make(rng, rng.choice(ALGS))
        if catalog.uses_core(c) and len(c.get('data') or ()) <= 30 and (c['alg'] not in ('syncnet', 'hsyncnet') or (len(c['data']) <= 12 and rng.random() < 0.4)):
            break
    if 'random_state' in c['p']:
        c['p']['random_state'] = None
    if 'epochs' in c['p']:
        c['p']['epochs'] = max(1, c['p']['epochs'])
    if c['alg'] == 'som' and c['p']['rows'] * c['p']['cols'] == 1:
        c['p']['rows'] = 2                       # a map of one neuron has no distance matrix
    if c['alg'] == 'hsyncnet':
        c['p']['k'] = min(c['p']['k'], len(c['data']) - 1)      # with no more points than clusters it does not simulate at all
    if c['alg'] == 'syncnet':
        c['p']['order'] = 0.998
    if c['alg'] == 'xmeans':
        c['p']['auto'] = False
    return dict(what='call', call=c, cores=rng.choice([1, 2, 3, 4]), env=environment(rng), start=rng.randrange(1 << 32))


def run_init(env, c):
    nat = env.native(2)
    dim, amount, uses = c['dim'], c['amount'], c['uses']
    job = wl.make(Job, kind=c['kind'], amount=amount, candidates=c['candidates'], metric=c['metric'], dim=dim, uses=len(uses))
    values = wl.arr([x for s in c['sets'] for p in s for x in p], ctypes.c_double)
    sizes = wl.arr([len(s) for s in c['sets']])
    flat, us = [], (Use * len(uses))()
    for i, (method, s, subset, copy) in enumerate(uses):
        us[i] = wl.make(Use, method=method, set=s, length=len(subset), offset=len(flat), copy=copy)
        flat += subset
    outs = (Out * len(uses))()
    centers = (ctypes.c_double * (len(uses) * (amount + 2) * dim))()
    chosen = (ctypes.c_int64 * (len(uses) * (amount + 2)))()
    with env.session(nat, dict(c['env'], max_ops=50000000)) as s:
        nat.lib.wl_init(ctypes.byref(job), values, sizes, ctypes.c_int64(len(c['sets'])), us, wl.arr(flat), outs, centers, chosen)
    name = 'random initialiser' if c['kind'] else 'k-means++'
    failed, shape = False, []
    for i, (method, st, subset, copy) in enumerate(uses):
        data = c['sets'][st]
        permitted = subset if method == 2 and subset else list(range(len(data)))
        what = '%s, use %d of %d: %d of %d points%s' % (name, i + 1, len(uses), amount, len(permitted), ', subset %s of %d' % (subset, len(data)) if method == 2 else '')
        o = outs[i]
        impossible = amount > len(permitted)
        if o.status and not impossible:
            raise Violation('refused', '%s: an exception' % what)
        if impossible:
            if not o.status and o.count:
                raise Violation('wrong number', '%s: %d returned' % (what, o.count))
            failed = True
            continue
        if o.count != amount:
            raise Violation('wrong number', '%s: %d returned' % (what, o.count))
        if method == 1:
            got = [chosen[i * (amount + 2) + j] for j in range(amount)]
            if any(not 0 <= g < len(data) for g in got):
                raise Violation('invalid index', '%s: indexes %s' % (what, got))
            if len(set(got)) != len(got):
                raise Violation('repeated point', '%s: indexes %s' % (what, got))
        else:
            got = [tuple(centers[(i * (amount + 2) + j) * dim + d] for d in range(dim)) for j in range(amount)]
            have = collections.Counter(tuple(data[k]) for k in permitted)
            for g, k in collections.Counter(got).items():
                if g not in have:
                    raise Violation('foreign point', '%s: center %s is not one of the permitted points' % (what, list(g)))
                if k > have[g]:
                    raise Violation('repeated point', '%s: point %s was taken %d times, occurs %d time(s)' % (what, list(g), k, have[g]))
            if max(have.values()) > 1:
                env.probe(PROBES[3])
            if len(have) < amount:
                env.probe(PROBES[4])
        shape.append(got)
        for cond, p in ((method == 2 and subset, 2), (amount == len(permitted), 5), (i, 6), (i and failed, 7), (copy, 8)):
            if cond:
                env.probe(PROBES[p])
    env.probe(PROBES[c['kind']])
    environment_probes(env, c['env'], s.stats)
    env.note([c['kind'], c['candidates'], amount, [u[0] for u in uses], shape])


def environment_probes(env, e, stats):
    if e['entropy_mode'] and stats['entropy_draws']:
        env.probe(PROBES[9])
    if not e['clock_step'] and stats['clock_reads']:
        env.probe(PROBES[10])


def partition(what, clusters, n):
    flat = [i for c in clusters for i in c]
    if any(not 0 <= i < n for i in flat):
        raise Violation('invalid index', '%s: index outside the data: %s' % (what, clusters))
    if len(set(flat)) != len(flat):
        raise Violation('not a partition', '%s: a point is in two clusters: %s' % (what, clusters))
    if len(flat) != n:
        raise Violation('not a partition', '%s: points without cluster: %s' % (what, sorted(set(range(n)) - set(flat))))


def finite(x):
    try:
        return all(finite(v) for v in x)
    except TypeError:
        return math.isfinite(x)


def run(env, c):
    if c['what'] == 'init':
        return run_init(env, c)
    case = c['call']
    random.seed(c['start'])
    p, alg = case['p'], case['alg']
    nat = env.core(c['cores'])
    inp = catalog.build(case)
    with pyrand.Entropy(c['env']['entropy_seed']):
        with env.session(nat, dict(c['env'], max_ops=400000000)) as s:
            r = catalog.ENTRIES[alg].run(case, inp, True)
    what = 'native %s' % alg
    n = len(case['data'])
    if s.stats['blocked_at_end']:
        raise Violation('stuck worker', '%s left a blocked thread behind' % what)
    if alg in ('xmeans', 'gmeans', 'somsc', 'syncnet', 'hsyncnet'):
        partition(what, r['clusters'], n)
    if alg in ('xmeans', 'gmeans'):
        if len(r['centers']) != len(r['clusters']):
            raise Violation('centers and clusters', '%s: %d centers for %d clusters' % (what, len(r['centers']), len(r['clusters'])))
        if any(not x for x in r['clusters']):
            raise Violation('empty cluster', '%s: %s' % (what, r['clusters']))
        limit = p['kmax'] if alg == 'xmeans' else p['k_max']
        if limit != -1 and len(r['clusters']) > limit:
            raise Violation('too many clusters', '%s: %d, at most %d allowed' % (what, len(r['clusters']), limit))
        if any(len(x) != len(case['data'][0]) for x in r['centers']) or not finite(r['centers']):
            raise Violation('bad center', '%s: %s' % (what, r['centers']))
    elif alg == 'elbow':
        ks = list(range(p['kmin'], p['kmax'] + 1, p['kstep']))
        if r['amount'] not in ks or len(r['wce']) != len(ks) or not finite(r['wce']) or min(r['wce']) < 0:
            raise Violation('bad result', '%s: amount %s, errors %s for k in %s' % (what, r['amount'], r['wce'], ks))
    elif alg == 'silhouette_ksearch':
        ks = list(range(p['kmin'], p['kmax']))
        scores = [(-k, s) for k, s in r['scores'].items() if s == s]
        best = -max(scores, key=lambda x: (x[1], x[0]))[0] if scores else 0
        if sorted(r['scores']) != ks or r['amount'] != best or scores and r['score'] != r['scores'][best]:
            raise Violation('bad result', '%s: amount %s, scores %s for k in %s' % (what, r['amount'], r['scores'], ks))
    elif alg == 'som':
        if p['epochs']:
            flat = sorted(i for x in r['captured'] for i in x)
            if flat != list(range(n)):
                raise Violation('not a partition', '%s: captured objects %s' % (what, r['captured']))
            if [len(x) for x in r['captured']] != list(r['awards']):
                raise Violation('not a partition', '%s: awards %s, captured %s' % (what, r['awards'], r['captured']))
        if not finite(r['weights']):
            raise Violation('bad weight', '%s: %s' % (what, r['weights']))
    env.probe('syncnet' if alg == 'hsyncnet' else alg)
    environment_probes(env, c['env'], s.stats)
    env.note([alg, r.get('clusters'), r.get('amount'), n])


def shrink(c):
    e = c['env']
    for k, v in (('entropy_mode', 0), ('clock_jump_permille', 0), ('spurious_permille', 0), ('heap_fill', 0), ('clock_step', 1000), ('clock_base', 10 ** 18), ('entropy_seed', 1)):
        if e.get(k) != v:
            yield dict(c, env=dict(e, **{k: v}))
    if c['what'] == 'call':
        if c['cores'] != 2:
            yield dict(c, cores=2)
        for x in catalog.shrink(c['call']):
            yield dict(c, call=x)
        return
    for i in range(len(c['uses'])):
        if len(c['uses']) > 1:
            yield dict(c, uses=c['uses'][:i] + c['uses'][i + 1:])
    for i, (m, s, subset, copy) in enumerate(c['uses']):
        if copy:
            yield dict(c, uses=c['uses'][:i] + [[m, s, subset, 0]] + c['uses'][i + 1:])
        for j in range(len(subset)):
            if len(subset) > 1:
                yield dict(c, uses=c['uses'][:i] + [[m, s, subset[:j] + subset[j + 1:], copy]] + c['uses'][i + 1:])
    if c['amount'] > 1:
        yield dict(c, amount=c['amount'] - 1)
    for k, v in (('metric', 0), ('candidates', 1)):
        if c[k] != v:
            yield dict(c, **{k: v})
