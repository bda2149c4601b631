"""C06: happens-before race detection over everything the core does with several threads."""
import random

from checks import c01, c02, c04, c05, c07
from simlib.frame import Violation

ID = 'C06'
PLAN = {'quick': (60000, 30), 'thorough': (4000000, 700)}
RULE = ('A case is one workload of the parallel surface of the core (a parallel loop, a pool history, a parallel algorithm, a network, or two to four callers at '
        'once), a core count and a scheduling policy with its seed. Every access of the core to memory is checked against the vector clocks of the earlier ones; '
        'freed memory is kept aside and watched. Counted as distinct: different sequences of (thread switched from, to, at which access), with at least two switches.')
REAL = c04.REAL + ['oscillatory networks of the core', 'std::async / std::future of libstdc++']
STUB = ['thread scheduling, mutex, condition variable, futex, core count, clock, random_device (simulator)', 'loop and task bodies (harness)',
        'ordering by the interpreter lock (every executed line acquires and releases it)']
SUBS = [(c04, 5), (c05, 3), (c07, 2), (c01, 2), (c02, 3)]
PROBES = ['loop', 'pool', 'callers at once'] + ['%s on several threads' % a for a in c04.ALGORITHMS + ['sync', 'hhn', 'syncpr', 'syncnet']]


def make(rng, index, tier):
    sub = rng.choices([s for s, _ in SUBS], [w for _, w in SUBS])[0]
    while True:
        case = sub.make(rng, rng.randrange(1 << 20), tier)
        if sub is c01 and (case['throws'] or case['cfg'].get('thread_fail_at')):
            continue
        if sub is c07 and not any(ccore and c07.catalog.uses_core(x) for x, ccore in case['calls']):
            continue
        if sub in (c04, c05, c07) and case['cores'] == 1:
            case['cores'] = 3
        if sub is c05 and case['call']['p'].get('n', 0) < 60 and case['call']['alg'] in ('sync', 'syncpr') and rng.random() < 0.7:
            continue
        break
    case['cfg'].update(race=1, quarantine=1)
    return dict(sub=sub.ID, case=case)


MODULES = {s.ID: s for s, _ in SUBS}


def run(env, c):
    sub, case = MODULES[c['sub']], c['case']
    before = dict(env.probes)
    env.probes.clear()
    try:
        sub.run(env, case)
    except Violation as v:              # decided by the check of that property
        env.count('other properties violated on the way: ' + sub.ID)
    finally:
        mine = dict(env.probes)
        env.probes.clear()
        env.probes.update(before)
    for p in mine:
        if p in PROBES:
            env.probe(p)
    if sub is c01:
        env.probe('loop')
    elif sub is c02:
        env.probe('pool')
    elif sub is c07:
        env.probe('callers at once')
    env.count('runs of the workload of ' + sub.ID)


def shrink(c):
    for x in MODULES[c['sub']].shrink(c['case']):
        yield dict(c, case=x)
