"""C04: the native algorithms that work in parallel."""
import random

from simlib import catalog, native, wl
from simlib.frame import Violation

ID = 'C04'
PLAN = {'quick': (60000, 40), 'thorough': (4000000, 700)}
RULE = ('A case is one call of a parallel native algorithm (algorithm, data of 1-96 points with ties and duplicates, parameters, seed), a core count and a '
        'scheduling policy with its seed. It is compared with the same call on a machine where the core starts no second thread. Counted as distinct: different '
        'sequences of (thread switched from, to, at which access), with at least two switches.')
REAL = ['k-means, k-medians, k-medoids, fuzzy c-means, x-means, g-means, elbow, silhouette search, parallel loops, thread pool of the core',
        'Python classes, core wrappers and data conversion of the package']
STUB = ['thread scheduling, mutex, condition variable, core count, clock, random_device (simulator)']
ALGORITHMS = ['kmeans', 'kmedians', 'kmedoids', 'fcm', 'xmeans', 'gmeans', 'elbow', 'silhouette_ksearch']
PROBES = ['%s on several threads' % a for a in ALGORITHMS] + ['one core', 'history of iterations', 'more than 60 points', 'refused input']
WHAT = 'for the same data, parameters and seed'


def make(rng, index, tier):
    name = ALGORITHMS[index % len(ALGORITHMS)]
    while True:
        case = catalog.make(rng, name)
        if catalog.uses_core(case):
            break
    return dict(call=case, cores=rng.choice([1, 3, 3, 4, 4, 5, 7, 9]), cfg=native.schedule(rng, light=True), entropy=rng.getrandbits(63))


def one(env, c, cores, main):
    nat = env.core(cores)
    random.seed(7)
    inp = catalog.build(c['call'])
    cfg = dict(c['cfg'], max_ops=30000000) if main else dict(seed=1, strategy=native.SERIAL, entropy_seed=c['entropy'], max_ops=30000000)
    with env.session(nat, cfg, main=main) as s:
        r = catalog.execute(c['call'], inp, True)
    return r, s.stats


def run(env, c):
    expected, _ = one(env, c, 2, False)
    got, st = one(env, c, c['cores'], True)
    alg = c['call']['alg']
    d = catalog.difference(expected, got)
    if d:
        raise Violation('different result', '%s with %d core(s) differs from the sequential result %s: %s' % (alg, c['cores'], WHAT, d))
    if st['blocked_at_end'] or st['unjoined']:
        raise Violation('worker left', '%s with %d core(s) returned with %d worker thread(s) still there' % (alg, c['cores'], st['blocked_at_end'] + st['unjoined']))
    if st['threads'] > 1:
        env.probe('%s on several threads' % alg)
    if c['cores'] == 1:
        env.probe('one core')
    if 'history' in got:
        env.probe('history of iterations')
    if len(c['call']['data'] or ()) > 60:
        env.probe('more than 60 points')
    if 'raised' in got:
        env.probe('refused input')
    env.count('calls of ' + alg)


def shrink(c):
    for x in catalog.shrink(c['call']):
        yield dict(c, call=x)
    if c['cores'] > 3:
        yield dict(c, cores=3)
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
