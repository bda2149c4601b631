"""C08: a seed makes the result a function of the arguments."""
import random

import numpy

from simlib import catalog, native, pyrand, wl
from simlib.frame import Violation

ID = 'C08'
PLAN = {'quick': (60000, 45), 'thorough': (4000000, 700)}
RULE = ('A case is a history of calls in one process: one call with a seed (or one that documents no randomness) made several times, other calls - native and Python, random and not - in between, '
        'the global generators reseeded or advanced, and for every call other system entropy, another wall clock (jumping or not), another heap (contents of fresh memory, order of addresses), another core '
        'count and schedule. Every occurrence must return the same result. Counted as distinct: different pairs (call repeated, calls in between).')
REAL = ['the Python package: algorithms, networks, initialisers, core wrappers', 'the core library', 'the generators of Python and numpy']
STUB = ['system entropy (random_device, seeding without argument), clock, heap, thread scheduling, core count (simulator)']
PROBES = ['native, seeded', 'Python, seeded', 'seed 0', 'native without randomness', 'Python without randomness', 'random call in between', 'global generator reseeded in between',
          'entropy delivered', 'clock read', 'same call of the other implementation in between']
findings = True
LIGHT = ('hhn', 'sync', 'syncpr', 'hysteresis', 'syncsom', 'syncnet', 'hsyncnet', 'gmeans', 'silhouette_ksearch')
SEEDS = [0, 0, 1, 2, 42, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]


def environment(rng):
    e = native.schedule(rng, light=True)
    e.update(entropy_mode=rng.choice([0, 0, 0, 0, 1, 2, 3, 4]), clock_base=rng.choice([10 ** 18, 1700000000 * 10 ** 9, rng.randrange(1, 1 << 62), 0]))
    return e


def target(rng):
    for _ in range(500):
        seeded = rng.random() < 0.75
        name = rng.choice(catalog.names(seeded=True) if seeded else catalog.names())
        ccore = rng.random() < 0.55
        case = catalog.make(rng, name)
        if name in LIGHT and rng.random() < 0.6 or len(case.get('data') or ()) > 30 or catalog.may_hang(case, ccore):
            continue
        if catalog.ENTRIES[name].native and case['p'].get('phases') is not None and not seeded:
            case['p'].update(phases=1)
            if 'frequency' in case['p']:
                case['p']['frequency'] = 0
        if catalog.ENTRIES[name].seeded:
            case['p']['random_state'] = rng.choice(SEEDS + [rng.randrange(1 << 32)])
            return case, ccore
        if catalog.deterministic(case, ccore):
            return case, ccore
    raise AssertionError


def make(rng, index, tier):
    case, ccore = target(rng)
    steps = [['target', None, None]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.45:
                for _ in range(100):
                    name = rng.choice(catalog.names())
                    other = catalog.make(rng, name)
                    core = rng.random() < 0.5
                    if not catalog.may_hang(other, core) and name not in LIGHT and len(other.get('data') or ()) <= 16 and (other['p'].get('n') or 0) <= 20:
                        break
                steps.append(['call', other, core])
            elif r < 0.6:
                steps.append(['call', dict(case, p=dict(case['p'], **({'random_state': rng.choice(SEEDS)} if 'random_state' in case['p'] else {}))), ccore if catalog.may_hang(case, False) else rng.random() < 0.5])
            elif r < 0.7 and not catalog.may_hang(case, not ccore):
                steps.append(['call', case, not ccore])
            elif r < 0.85:
                steps.append(['seed', rng.randrange(1 << 32), None])
            else:
                steps.append(['draw', rng.randrange(1, 700), None])
        steps.append(['target', None, None])
    return dict(call=case, ccore=ccore, steps=steps, envs=[environment(rng) for _ in steps], cores=[rng.choice([1, 2, 3, 4]) for _ in steps],
                start=rng.randrange(1 << 32))


def run(env, c):
    random.seed(c['start'])
    numpy.random.seed(c['start'] & 0xffffffff)
    expected, between = None, []
    occurrences = 0
    for (what, arg, core), e, cores in zip(c['steps'], c['envs'], c['cores']):
        if what == 'seed':
            random.seed(arg)
            numpy.random.seed(arg)
            between.append(what)
            env.probe(PROBES[6])
            continue
        if what == 'draw':
            for _ in range(arg):
                random.random()
            numpy.random.random(arg)
            random.gauss(0, 1)
            between.append(what)
            continue
        case, ccore = (c['call'], c['ccore']) if what == 'target' else (arg, core)
        inp = catalog.build(case)
        nat = env.core(cores)
        with pyrand.Entropy(e['entropy_seed']) as en:
            with env.session(nat, dict(e, max_ops=400000000), main=what == 'target') as s:
                r = catalog.execute(case, inp, ccore)
        if s.stats['entropy_draws'] or en.draws:
            env.probe(PROBES[7])
        if s.stats['clock_reads']:
            env.probe(PROBES[8])
        if what == 'call':
            between.append('%s (%s)' % (case['alg'], 'native' if ccore else 'Python'))
            if not catalog.deterministic(case, ccore):
                env.probe(PROBES[5])
            if case == c['call'] and ccore != c['ccore']:
                env.probe(PROBES[9])
            continue
        occurrences += 1
        if expected is None:
            expected = r
            continue
        d = catalog.difference(expected, r)
        if d:
            how = 'random_state %r' % case['p']['random_state'] if 'random_state' in case['p'] else 'no random part'
            raise Violation('not reproducible', '%s (%s, %s): occurrence %d differs from the first one after %s: %s' % (
                case['alg'], 'native' if ccore else 'Python', how, occurrences, between or 'nothing', d))
    seeded = catalog.ENTRIES[c['call']['alg']].seeded
    native_ = c['ccore'] and catalog.uses_core(c['call'])
    env.probe(PROBES[(0 if native_ else 1) if seeded else (3 if native_ else 4)])
    if c['call']['p'].get('random_state') == 0:
        env.probe(PROBES[2])
    env.count('calls repeated: ' + c['call']['alg'])
    env.note([c['call'], c['ccore'], between])


def shrink(c):
    for i in range(len(c['steps']) - 1, 0, -1):
        keep = [k for k in range(len(c['steps'])) if k != i]
        if sum(1 for k in keep if c['steps'][k][0] == 'target') > 1:
            yield dict(c, **{k: [c[k][j] for j in keep] for k in ('steps', 'envs', 'cores')})
    for i, s in enumerate(c['steps']):
        if c['cores'][i] != 2:
            yield dict(c, cores=c['cores'][:i] + [2] + c['cores'][i + 1:])
    for x in catalog.shrink(c['call']):
        yield dict(c, call=x)
    for i, e in enumerate(c['envs']):
        for k, v in (('entropy_mode', 0), ('clock_jump_permille', 0), ('spurious_permille', 0), ('heap_fill', 0), ('strategy', native.SERIAL), ('clock_base', 10 ** 18), ('entropy_seed', 1)):
            if e.get(k) != v:
                yield dict(c, envs=c['envs'][:i] + [dict(e, **{k: v})] + c['envs'][i + 1:])
