"""C05: oscillatory networks of the core."""
import math
import random

from simlib import catalog, native, wl
from simlib.frame import Violation

ID = 'C05'
PLAN = {'quick': (14000, 40), 'thorough': (1000000, 700)}
RULE = ('A case is one simulation of a native network (kind, size, structure, solver, length, inputs), the random bits and clock readings delivered to it, a core '
        'count and a scheduling policy with its seed. It is compared with the same simulation where the core starts no second thread. Counted as '
        'distinct: different sequences of (thread switched from, to, at which access), with at least two switches.')
REAL = ['sync_network, syncpr, syncnet, hsyncnet, hhn_network, legion_network, pcnn of the core, differential solvers, parallel loops, thread pool',
        'Python classes, core wrappers and data conversion of the package']
STUB = ['thread scheduling, mutex, condition variable, core count, clock, random_device (simulator)']
NETWORKS = ['sync', 'hhn', 'sync', 'hhn', 'sync', 'syncpr', 'syncnet', 'hsyncnet', 'legion', 'pcnn']
PROBES = ['sync on several threads', 'hhn on several threads', 'syncpr on several threads', 'syncnet on several threads', 'one core', 'steps checked against the model',
          'dynamic simulation']


def make(rng, index, tier):
    name = NETWORKS[index % len(NETWORKS)]
    case = catalog.make(rng, name)
    if name == 'sync' and rng.random() < 0.5 and case['p']['n'] < 64:
        case['p'].update(conn=rng.choice([0, 1, 4]), frequency=0, solver=rng.choice([0, 1]), static=True, collect=True)
    return dict(call=case, cores=rng.choice([1, 3, 3, 4, 4, 5, 7, 9]), cfg=dict(native.schedule(rng, light=True), entropy_mode=rng.choice([0, 0, 0, 0, 1, 2, 3, 4])))


def one(env, c, cores, main):
    nat = env.core(cores)
    random.seed(7)
    cfg = dict(c['cfg'], max_ops=400000000)
    if not main:          # same clock and entropy, no second thread
        cfg = {k: v for k, v in cfg.items() if k in ('entropy_seed', 'entropy_mode', 'clock_jump_permille', 'max_ops')}
        cfg.update(seed=1, strategy=native.SERIAL, fault_seed=c['cfg']['fault_seed'])
    inp = catalog.build(c['call'])
    with env.session(nat, cfg, main=main) as s:
        r = catalog.execute(c['call'], inp, True)
    return r, s.stats


def neighbours(n, conn):
    if conn == 0:
        return [[] for _ in range(n)]
    if conn == 1:
        return [[j for j in range(n) if j != i] for i in range(n)]
    return [[j for j in (i - 1, i + 1) if 0 <= j < n] for i in range(n)]


def model_step(ph, links, weight, solver, step):
    """The next phases, all computed from the previous ones."""
    n = len(ph)

    def f(i, x):
        return sum(math.sin(ph[j] - x) for j in links[i]) * weight / n
    if solver == 0:
        return [x + f(i, x) for i, x in enumerate(ph)]
    steps = int(step / (step / 10.0))
    h, out = step / steps, []
    for i, x in enumerate(ph):
        for _ in range(steps):
            k1 = f(i, x) * h
            k2 = f(i, x + k1 / 2) * h
            k3 = f(i, x + k2 / 2) * h
            k4 = f(i, x + k3) * h
            x += (k1 + 2 * k2 + 2 * k3 + k4) / 6
        out.append(x)
    return out


def check_model(env, call, r):
    p = call['p']
    out = [[float(x[1:]) for x in row] for row in r['output']]
    links = neighbours(p['n'], p['conn'])
    for k in range(len(out) - 1):
        want = model_step(out[k], links, p['weight'], p['solver'], p['time'] / p['steps'])
        for i, (a, b) in enumerate(zip(want, out[k + 1])):
            d = abs(math.fmod(a - b, 2 * math.pi))
            if min(d, 2 * math.pi - d) > 1e-6:
                raise Violation('step mixes states', 'sync network of %d oscillators: step %d moves oscillator %d to %r, from the previous state follows %r' % (p['n'], k + 1, i, b, a))
    env.probe('steps checked against the model')


def run(env, c):
    expected, _ = one(env, c, 2, False)
    got, st = one(env, c, c['cores'], True)
    call = c['call']
    alg, p = call['alg'], call['p']
    d = catalog.difference(expected, got)
    if d:
        raise Violation('different evolution', '%s with %d core(s) evolves differently from the sequential simulation with the same random bits: %s' % (alg, c['cores'], d))
    if st['blocked_at_end'] or st['unjoined']:
        raise Violation('worker left', '%s with %d core(s) returned with %d worker thread(s) still there' % (alg, c['cores'], st['blocked_at_end'] + st['unjoined']))
    if st['threads'] > 1:
        env.probe('%s on several threads' % alg)
    if p.get('static') is False:
        env.probe('dynamic simulation')
    if c['cores'] == 1:
        env.probe('one core')
    if alg == 'sync' and p['static'] and p['collect'] and p['frequency'] == 0 and p['conn'] in (0, 1, 4) and p['solver'] in (0, 1) and 'output' in got:
        check_model(env, call, got)
    env.count('simulations of ' + alg)


def shrink(c):
    call = c['call']
    if call['alg'] in ('sync',):
        for n in (64, 66):
            if call['p']['n'] > n:
                yield dict(c, call=dict(call, p=dict(call['p'], n=n)))
    if call['alg'] == 'hhn' and len(call['data']) > 1:
        yield dict(c, call=dict(call, data=call['data'][:-1]))
    for x in catalog.shrink(call):
        yield dict(c, call=x)
    if c['cores'] > 3:
        yield dict(c, cores=3)
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
