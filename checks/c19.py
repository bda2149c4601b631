"""C19: what a call returned stays what it was."""
import gc
import inspect
import random
import sys

import numpy

from checks import c14
from simlib import catalog, native, pyrand, wl
from simlib.frame import Violation

ID = 'C19'
PLAN = {'quick': (60000, 40), 'thorough': (3000000, 700)}
RULE = ('A case is a history over one to four analyses (every algorithm, network, container and initialiser, native or Python): running one, keeping its raw results and recorded dynamics, using the same object '
        'again (completely, or cut short by an interrupt at an arbitrary line or by its metric), reading everything that an object or dynamic offers for reading twice, destroying the object or its network, collecting garbage - and a scheduling policy. Freed native '
        'memory is filled at once. After every step all kept results are read again and compared with what they were. Counted as distinct: different sequences of steps.')
REAL = ['the Python package', 'core wrappers and packages', 'the core library']
STUB = ['heap (own allocator), thread scheduling, core count, clock, random_device (simulator)', 'generators of Python and numpy', 'moment of the interrupt (line events of the interpreter)']
PROBES = ['object used again', 'use again was interrupted', 'dynamic outlives its network', 'object destroyed, results kept', 'other object of the same class afterwards', 'dynamic recorded', 'native result', 'Python result', 'metric failed', 'results read twice', 'same result again', 'same result after an interrupt']
SLOW = c14.SLOW
# not results: properties of the map, which follow its state in the Python implementation, and collections of observers, which go on collecting
LIVE = {'som': ('weights', 'awards', 'captured'), 'ema': ('history',), 'ga': ('history',), 'kmeans': ('history',)}
# processing starts from the input: doing it again gives the same
REPEATABLE = ('agglomerative', 'bang', 'birch', 'bsas', 'mbsas', 'ttsas', 'clique', 'cure', 'dbscan', 'optics', 'rock', 'silhouette', 'dsatur', 'elbow', 'gmeans', 'silhouette_ksearch')
DYNAMICS = ('sync_dynamic', 'syncpr_dynamic', 'syncnet_analyser', 'pcnn_dynamic', 'legion_dynamic', 'cnn_dynamic', 'fsync_dynamic', 'hysteresis_dynamic', 'hysteresis_analyser', 'syncgcolor_analyser')


def make(rng, index, tier):
    n = rng.choice([1, 2, 2, 3, 4])
    objs = []
    while len(objs) < n:
        if objs and rng.random() < 0.35:
            name, ccore = objs[-1]['call']['alg'], rng.random() < 0.5
        else:
            name, ccore = rng.choice(catalog.names()), rng.random() < 0.5
        ccore = ccore and catalog.ENTRIES[name].native
        if name in SLOW and rng.random() < 0.6:
            continue
        c = c14.small(rng, name)
        if catalog.may_hang(c, ccore):
            continue
        if (c.get('metric') is None and catalog.ENTRIES[name].metric and not ccore and name not in ('initializer', 'silhouette') and not c['p'].get('matrix')
                and rng.random() < 0.2):
            c['metric'] = {'type': 'USER_DEFINED', 'func': 'square'}
        objs.append(dict(call=c, ccore=ccore, forms=catalog.choose_forms(rng, c) if rng.random() < 0.25 else {}))
    steps = []
    started, alive = [], []
    for _ in range(rng.choice([2, 4, 7])):
        r = rng.random()
        rest = [i for i in range(n) if i not in started]
        if not started or (rest and r < 0.35):
            steps.append(['run', rest[0]])
            started.append(rest[0])
            alive.append(rest[0])
        elif r < 0.65 and alive:
            steps.append(['again', rng.choice(alive), rng.choice([None, None, 'line', 'metric']), rng.random(), rng.randrange(1 << 16)])
        elif r < 0.8 and alive:
            steps.append(['look', rng.choice(alive)])
        elif r < 0.92 and alive:
            i = rng.choice(alive)
            alive.remove(i)
            steps.append(['drop', i])
    steps += [['drop', i] for i in alive]
    return dict(objs=objs, steps=steps, seed=rng.randrange(1 << 31), cfg=native.schedule(rng, light=True), cores=rng.choice([1, 2, 3]))


class Catch:
    """The locals of the function that makes the call: the object that the user would hold."""

    def __init__(self, code):
        self.code, self.found = code, {}

    def __call__(self, frame, event, arg):
        if event == 'return' and frame.f_code is self.code:
            self.found = dict(frame.f_locals)


def run_raw(o, inp, ccore):
    """(raw results or None, object, dynamic)"""
    f = catalog.ENTRIES[o['call']['alg']].run
    catch = Catch(f.__code__)
    sys.setprofile(catch)
    try:
        r = f(o['call'], inp, ccore)
    except catalog.PASS:
        raise
    except Exception as e:      # noqa
        if not catalog.through_library(e):
            raise
        r = None
    finally:
        sys.setprofile(None)
    v = catch.found
    obj = v.get('o')
    if o['call']['alg'] in ('kdtree', 'cftree', 'encoder'):
        obj = v.get('e' if o['call']['alg'] == 'encoder' else 't')
    dyn = v.get('a') if type(v.get('a')).__name__ in DYNAMICS else None
    return r, obj, dyn


def again(case, obj, inp, v):
    """Uses the object once more."""
    from pyclustering.nnet import solve_type
    p, name = case['p'], case['alg']
    if name == 'sync':
        return obj.simulate_static(1 + v % 3, 0.5, solve_type(p['solver'] if p['n'] < 9 else 0), True)
    if name == 'syncpr':
        obj.train(inp['data'])
        return obj.simulate_static(1, 0.5, inp['pattern'], solve_type.FAST, True)
    if name in ('syncnet', 'hsyncnet'):
        return obj.process(p['order'], solve_type(p['solver']), True)
    if name == 'hhn':
        return obj.simulate(2, 1.0, solve_type.RK4)
    if name == 'legion':
        return obj.simulate(p['steps'], p['time'], inp['data'], solve_type.RK4, True)
    if name == 'pcnn':
        return obj.simulate(p['steps'], inp['data'])
    if name == 'cnn':
        return obj.simulate(p['steps'], inp['data'])
    if name == 'som':
        return obj.train(inp['data'], 1 + v % 3)
    if name == 'hysteresis':
        if v & 1:
            obj.states = [float((v >> k) % 5 - 2) for k in range(len(obj))]
            obj.outputs = [1.0 - 2.0 * (v >> k & 1) for k in range(len(obj))]
        return obj.process(p['steps'], p['time'])
    if name == 'syncgcolor':
        return obj.simulate_static(2, 0.5, collect_dynamic=True)
    if name == 'syncsom':
        return obj.process(True, 0.9)
    if name == 'initializer':
        return obj.initialize(return_index=bool(v & 1))
    if name == 'kdtree':
        for i, x in enumerate(inp['data'][:3] if hasattr(obj, 'insert') else ()):
            obj.insert(x, -i) if v & 1 else obj.remove(x)
        return obj.find_nearest_dist_nodes(inp['queries'][0], 5.0)
    if name == 'cftree':
        for x in inp['data']:
            obj.insert_point(x)
        return None
    if name == 'encoder':
        from pyclustering.cluster.encoder import type_encoding
        return obj.set_encoding(type_encoding(v % 3))
    if hasattr(obj, 'process') and not isinstance(obj, type):
        return obj.process()
    return None


# methods that are there for reading
READERS = ('allocate_', 'calculate_', 'extract_', 'get_', 'predict')
NOT_READERS = ('get_observer', 'get_score' , 'get_axis_index')
ARGUMENTS = dict(tolerance=0.1, iteration=0, steps=3, index=0, amplitude_threshold=0.5, threshold_steps=1, eps=0.1, radius=1.0, amount_clusters=2, start_iteration=0, stop_iteration=1, surface_divider=20.0, level=0, noise_size=1)
OPTIONAL = ('tolerance', 'threshold_steps', 'eps', 'steps')


def look(o, inp, v):
    """Calls every method of an object that is there for reading; the results that have a canonical form."""
    out = {}
    for name in sorted(dir(type(o))):
        if not name.startswith(READERS) or name in NOT_READERS:
            continue
        f = getattr(o, name)
        try:
            args = {}
            for k, q in inspect.signature(f).parameters.items():
                if k in ('points',):
                    args[k] = inp['data']
                elif k == 'oscillatory_network':
                    args[k] = v
                elif q.default is q.empty or k in OPTIONAL:
                    args[k] = ARGUMENTS[k]
            x = f(**args)
            canon = catalog.canon(x)
        except catalog.PASS:
            raise
        except Exception as e:      # noqa
            e.__traceback__ = e.__context__ = None
            continue
        out[name] = (x, canon)
    return out


def read_dynamic(a):
    out = {}
    for k in ('output', 'time', 'inhibitor'):
        if hasattr(type(a), k):
            out[k] = catalog.canon(getattr(a, k))
    return out


def run(env, c):
    nat = env.core(c['cores'])
    hooks = {}
    pool, kept, trail, answers, broken = {}, [], [], {}, set()
    random.seed(c['seed'])
    numpy.random.seed(c['seed'])
    with env.session(nat, dict(c['cfg'], max_ops=400000000)), pyrand.Entropy(c['seed']):
        for st in c['steps']:
            what, i = st[0], st[1]
            o = c['objs'][i]
            name = '%s (%s)' % (o['call']['alg'], 'native' if o['ccore'] else 'Python')
            if what == 'run':
                hook = hooks[i] = c14.Raiser()
                inp = catalog.build(o['call'], hook, o['forms'])
                q = catalog.parameters(o['call'])
                if q is not None:
                    inp['parameters'] = q
                if any(x['call']['alg'] == o['call']['alg'] for x in (c['objs'][j] for j in pool)):
                    env.probe(PROBES[4])
                r, obj, dyn = run_raw(o, inp, o['ccore'])
                if r is not None:
                    raw = {k: x for k, x in r.items() if o['ccore'] or k not in LIVE.get(o['call']['alg'], ())}
                    kept.append([name, i, raw, {k: catalog.canon(x) for k, x in raw.items()}])
                    env.probe(PROBES[6 if o['ccore'] else 7])
                if dyn is not None:
                    kept.append([name + ' dynamic', i, dyn, read_dynamic(dyn)])
                    env.probe(PROBES[5])
                if obj is not None:
                    pool[i] = (obj, inp)
                    if o['call']['alg'] in REPEATABLE and r is not None and not callable(obj):
                        answers[i] = {k: x[1] for k, x in look(obj, inp, None).items()}
                r = raw = obj = dyn = inp = hook = None
                trail.append('run ' + o['call']['alg'])
            elif what == 'again':
                if i not in pool:
                    continue
                obj, inp = pool[i]
                tracer = None
                broken.add(i)
                if st[2] == 'metric':
                    hooks[i].n, hooks[i].k = 0, 1 + int(st[3] * 20)
                elif st[2] == 'line':
                    tracer = c14.Counter(1 + int(10 ** (4 * st[3])))
                    sys.settrace(tracer)
                try:
                    a = again(o['call'], obj, inp, st[4])
                    sys.settrace(None)
                    a = None
                    broken.discard(i)
                    if i in answers:
                        d = catalog.difference(answers[i], {k: x[1] for k, x in look(obj, inp, None).items()})
                        if d:
                            raise Violation('processed again', 'after %s, processing with %s again gave something else: %s' % (trail[-5:], name, d))
                        env.probe('same result again')
                        if any(t == 'interrupted ' + o['call']['alg'] for t in trail):
                            env.probe('same result after an interrupt')
                except (c14.Interrupt, catalog.Injected) as e:
                    sys.settrace(None)
                    e.__traceback__ = None
                    env.probe(PROBES[1 if tracer else 8])
                    trail.append('interrupted ' + o['call']['alg'])
                    env.fault('interrupt' if tracer else 'exception from a user callback')
                except Exception as e:      # noqa
                    sys.settrace(None)
                    if not catalog.through_library(e):
                        raise
                    e.__traceback__ = e.__context__ = None
                    env.count('use again refused')
                finally:
                    sys.settrace(None)
                hooks[i].k = None
                env.probe(PROBES[0])
                obj = inp = None
                trail.append('again ' + o['call']['alg'])
            elif what == 'look':
                if i in broken:         # half of a processing can be read in any way
                    continue
                for thing, who, owner in ([(pool[i][0], name, None)] if i in pool else []) + [(k[2], k[0], pool[i][0] if i in pool else None) for k in list(kept) if k[1] == i and k[0].endswith('dynamic') and not k[0].startswith('what')]:
                    inp = pool[i][1] if i in pool else {'data': []}
                    if callable(thing):
                        continue
                    first = look(thing, inp, owner)
                    second = look(thing, inp, owner)
                    d = catalog.difference({k: x[1] for k, x in first.items()}, {k: x[1] for k, x in second.items()})
                    if d:
                        raise Violation('reading', '%s: reading the results twice gives different answers: %s' % (who, d))
                    if first:
                        env.probe('results read twice')
                    live = LIVE.get(o['call']['alg'], ()) if not o['ccore'] else ()
                    kept.append(['what was read from ' + who, i, {k: x[0] for k, x in first.items() if k[4:] not in live}, {k: x[1] for k, x in first.items() if k[4:] not in live}])
                    first = second = thing = owner = inp = None
                trail.append('look ' + o['call']['alg'])
            else:
                if pool.pop(i, None) is not None:
                    env.probe(PROBES[3])
                    if any(k[1] == i and k[0].endswith('dynamic') for k in kept):
                        env.probe(PROBES[2])
                trail.append('drop ' + o['call']['alg'])
            gc.collect(0)
            for who, j, raw, was in kept:
                now = read_dynamic(raw) if who.endswith('dynamic') and not who.startswith('what') else {k: catalog.canon(x) for k, x in raw.items()}
                d = catalog.difference(was, now)
                if d:
                    raise Violation('result changed', 'after %s, what %s had returned is different: %s' % (trail[-5:], who, d))
        kept = raw = now = None
        pool.clear()
        gc.collect(0)
    env.note(trail)
    for t in trail:
        env.count('step: ' + t.split()[0])


def shrink(c):
    n = len(c['steps'])
    for i in range(n):
        if not (c['steps'][i][0] == 'run' and n > 1 and any(s[1] == c['steps'][i][1] for s in c['steps'][i + 1:])):
            yield dict(c, steps=c['steps'][:i] + c['steps'][i + 1:])
    for i, s in enumerate(c['steps']):
        if s[0] == 'again' and s[2]:
            yield dict(c, steps=c['steps'][:i] + [s[:2] + [None] + s[3:]] + c['steps'][i + 1:])
    for i, o in enumerate(c['objs']):
        if o['forms']:
            yield dict(c, objs=c['objs'][:i] + [dict(o, forms={})] + c['objs'][i + 1:])
        if any(s[1] == i for s in c['steps']):
            for x in catalog.shrink(o['call']):
                yield dict(c, objs=c['objs'][:i] + [dict(o, call=x)] + c['objs'][i + 1:])
    if c['cores'] != 2:
        yield dict(c, cores=2)
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
