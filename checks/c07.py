"""C07: several caller threads with independent objects."""
import random

from simlib import catalog, native, wl
from simlib.frame import Violation, REPO

ID = 'C07'
PLAN = {'quick': (40000, 60), 'thorough': (1500000, 700)}
RULE = ('A case is 2-4 calls (any algorithm, network, container or metric of the package, native or Python, whose result is a function of its arguments), which of '
        'them share input objects, a core count and a scheduling policy with its seed. Every executed line of the package and every memory access of the core '
        'is a point where another caller may go on. Counted as distinct: different sequences of (thread switched from, to, at which point), with at least two switches.')
REAL = ['the Python package: algorithms, networks, containers, metrics, core wrappers', 'the core library']
STUB = ['thread scheduling of interpreter threads and core threads, core count, clock, random_device (simulator)']
PROBES = ['native and native', 'native and Python', 'Python and Python', 'shared data', 'shared metric object', 'worker threads of two callers at once', 'switched inside Python',
          'same algorithm twice', 'four callers']
LIGHT = ('hhn', 'sync', 'syncpr', 'syncnet', 'hsyncnet', 'hysteresis', 'syncsom', 'gmeans')


# scipy.integrate.odeint keeps its state in static variables: not made for several threads
NOT_REENTRANT = ('hysteresis', 'hhn', 'fsync', 'legion')


def draw(rng, names, ccore=None):
    for _ in range(200):
        name = rng.choice(names)
        if name in LIGHT and len(names) > 1 and rng.random() < 0.5:
            continue
        native_ = rng.random() < 0.6 if ccore is None else ccore
        case = catalog.make(rng, name)
        if len(case['data'] or ()) > 20 or (case['p'].get('n') or 0) > 9 and not native_:
            continue
        if catalog.ENTRIES[name].native and case['p'].get('phases') is not None:
            case['p'].update(phases=1)
            if 'frequency' in case['p']:
                case['p']['frequency'] = 0
        if name == 'xmeans':
            case['p']['auto'] = False
        if native_ and ccore is not None and not catalog.uses_core(case):
            continue
        if name in NOT_REENTRANT and not (native_ and catalog.uses_core(case)):
            continue
        if catalog.deterministic(case, native_):
            return [case, native_]
    return None


def make(rng, index, tier):
    names = catalog.names()
    k = rng.choice([2, 2, 2, 3, 4])
    share = [-1] * k                # whose input objects a caller uses
    if rng.random() < 0.6:          # one implementation, several callers
        calls = None
        while not calls:
            name = rng.choice(names)
            ccore = rng.random() < 0.6
            calls = [draw(rng, [name], ccore) for _ in range(k)]
            if None in calls:
                calls = None
    else:
        calls = [draw(rng, names) for _ in range(k)]
    if rng.random() < 0.25:
        i = rng.randrange(1, k)
        j = rng.randrange(i)
        calls[i] = [calls[j][0], calls[j][1] if rng.random() < 0.6 else not calls[j][1]]
        share[i] = j
        if not catalog.deterministic(*calls[i]) or calls[i][0]['alg'] in NOT_REENTRANT:
            calls[i] = list(calls[j])
    return dict(calls=calls, share=share, cores=rng.choice([1, 3, 3, 4, 5]), cfg=native.schedule(rng, light=rng.random() < 0.7))


def run(env, c):
    nat = env.core(2)
    expected = []
    for case, ccore in c['calls']:
        random.seed(7)
        inp = catalog.build(case)
        with env.session(nat, dict(seed=1, strategy=native.SERIAL, max_ops=200000000), main=False):
            expected.append(catalog.execute(case, inp, ccore))
    nat = env.core(c['cores'])
    inputs = []
    for (case, ccore), j in zip(c['calls'], c['share']):
        inputs.append(dict(inputs[j]) if j >= 0 else catalog.build(case))
    threads = native.PyThreads(nat, REPO + '/pyclustering')
    with env.session(nat, dict(c['cfg'], max_ops=400000000)) as s:
        out = threads.run([lambda a=case, b=inp, d=ccore: catalog.execute(a, b, d) for (case, ccore), inp in zip(c['calls'], inputs)])
    what = ' and '.join('%s (%s)' % (a['alg'], 'native' if b else 'Python') for a, b in c['calls'])
    for i, ((case, ccore), (ok, r)) in enumerate(zip(c['calls'], out)):
        if not ok:
            raise Violation('exception', '%s at once: %s raised %s: %.200s' % (what, case['alg'], type(r).__name__, r))
        d = catalog.difference(expected[i], r)
        if d:
            raise Violation('different result', '%s at once: %s (%s) returns something else than alone: %s' % (what, case['alg'], 'native' if ccore else 'Python', d))
    st = s.stats
    if st['blocked_at_end'] or st['unjoined']:
        raise Violation('worker left', '%s at once: %d worker thread(s) still there' % (what, st['blocked_at_end'] + st['unjoined']))
    nats = sum(1 for a, b in c['calls'] if b and catalog.uses_core(a))
    for cond, p in ((nats > 1, 0), (0 < nats < len(c['calls']), 1), (nats < len(c['calls']) - 1, 2), (max(c['share']) >= 0, 3),
                    (any(j >= 0 and c['calls'][j][0].get('metric') for j in c['share']), 4), (st['max_live_threads'] > len(c['calls']) + 1 and nats > 1, 5), (threads.lines > 0 and st['switches'] > 2, 6),
                    (len({a['alg'] for a, _ in c['calls']}) < len(c['calls']), 7), (len(c['calls']) > 3, 8)):
        if cond:
            env.probe(PROBES[p])
    env.count('package lines executed under the scheduler', threads.lines)
    for a, b in c['calls']:
        env.count('calls of ' + a['alg'])


def shrink(c):
    for i in range(len(c['calls']) - 1, -1, -1):
        if len(c['calls']) > 2 and i not in c['share']:
            share = [j - 1 if j > i else j for k, j in enumerate(c['share']) if k != i]
            yield dict(c, calls=c['calls'][:i] + c['calls'][i + 1:], share=share)
    if max(c['share']) >= 0:
        yield dict(c, share=[-1] * len(c['share']))
    for i, (case, ccore) in enumerate(c['calls']):
        if c['share'][i] < 0 and i not in c['share']:
            for x in catalog.shrink(case):
                if catalog.deterministic(x, ccore):
                    yield dict(c, calls=c['calls'][:i] + [[x, ccore]] + c['calls'][i + 1:])
    if c['cores'] > 1:
        yield dict(c, cores=1)
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
