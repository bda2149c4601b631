"""C15: histories of training, using, storing, copying and restoring self-organised maps."""
import copy
import gc
import json
import os
import pickle
import random
import shutil
import subprocess
import sys

from simlib import build, catalog, native, pyrand
from simlib.frame import Violation

ID = 'C15'
PLAN = {'quick': (100000, 45), 'thorough': (6000000, 700)}
RULE = ('A case is a history over a few maps (all connection and initialisation types, sizes 1x1 to 4x4, trained or not, native or Python): train, use, pickle with every protocol, copy, deep copy, write to a simulated disk, lose the '
        'process (every live map is gone, only what was written survives, the core may have become unavailable), write cut short by the crash, drop maps in any order; or several interpreter threads storing, restoring and using one '
        'map. After every step each live map has to answer everything as its model does. Some histories restore in a new process without the core. Counted as distinct: histories with their states.')
REAL = ['pyclustering.nnet.som', 'pyclustering.core.som_wrapper and packages', 'native core: nnet/som.cpp and interface', 'pickle and copy']
STUB = ['disk and process restart (a dictionary of bytes that survives, all objects dropped)', 'availability of the core', 'entropy and clock of the native core', 'scheduling of interpreter threads (line events)']
PROBES = ['native', 'Python', 'untrained map stored', 'trained map stored', 'retrained after restoring', 'other dimension after restoring', 'native map restored without the core', 'restart', 'cut short', 'copy of a copy', 'original dropped first',
          'several threads', 'new process', 'autostop', 'random initial weights', 'stored twice', 'shown', 'parameter object changed', 'not looked at before stored']
HOW = ['pickle', 'pickle', 'pickle', 'copy', 'deepcopy', 'deepcopy of a list', 'pickle of a pair']

PROCESS = r'''
import sys, json, pickle
sys.path.insert(0, sys.argv[1])
import warnings
warnings.simplefilter('ignore')
from pyclustering.core.wrapper import ccore_library
if ccore_library.workable():
    sys.exit('core is available')
with open(sys.argv[2], 'rb') as s:
    m, patterns, retrain = pickle.load(s)
out = [len(m), m.size, m.weights, m.awards, m.capture_objects, m.get_winner_number()]
out.append([m.simulate(p) for p in patterns])
with open(sys.argv[2], 'wb') as s:
    pickle.dump((out, m), s)
'''


def dataset(rng, dim):
    n = rng.choice([1, 2, 3, 4, 6, 9])
    return [[rng.choice([0.0, 1.0, -1.0, rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(0, 1000)]) for _ in range(dim)] for _ in range(n)]


def make(rng, index, tier):
    dim = rng.choice([1, 2, 2, 3])
    c = dict(seed=rng.randrange(1 << 31), cores=rng.choice([2, 2, 3]), cfg=native.schedule(rng, light=True), maps=[], data=[dataset(rng, dim)], patterns=[])
    c['cfg'].update(heap_fill=rng.choice([0, 1, 2]))
    c['data'].append(dataset(rng, dim))
    c['data'].append(dataset(rng, rng.choice([1, 2, 3, 4])))
    c['patterns'] = [[rng.uniform(-6, 6) for _ in range(4)] for _ in range(3)]
    for _ in range(rng.choice([1, 1, 2])):
        c['maps'].append(dict(rows=rng.choice([1, 2, 2, 3, 4]), cols=rng.choice([1, 1, 2, 3, 4]), conn=rng.randrange(4), init=rng.choice([0, 1, 2, 3, 3, 3]), radius=rng.choice([None, None, 1.0, 2.5]), rate=rng.choice([0.1, 0.1, 0.5]),
                              threshold=rng.choice([0.001, 0.5]), state=rng.choice([0, 1, 7, 2 ** 31 - 1, None]), ccore=rng.random() < 0.65))
    c['blind'] = rng.random() < 0.3       # maps are looked at at the end only
    live = rng.choice([3, 5])
    ops = []
    c['kind'] = 'threads' if rng.random() < 0.15 else 'process' if index % 700 == 5 else 'history'
    if rng.random() < 0.85:
        ops.append(['train', 0, rng.randrange(2), rng.choice([1, 2, 5, 12]), rng.random() < 0.3])
    for _ in range(rng.choice([1, 2, 3, 5, 9, 14])):
        r = rng.random()
        k = rng.randrange(live)
        if r < 0.22:
            ops.append(['train', k, rng.choice([0, 0, 1, 1, 2]), rng.choice([1, 2, 5, 12]), rng.random() < 0.3])
        elif r < 0.5:
            ops.append(['store', k, rng.choice(HOW), rng.randrange(6)])
        elif r < 0.6:
            ops.append(['dump', k, rng.randrange(6), None if rng.random() < 0.7 else rng.random()])
        elif r < 0.68:
            ops.append(['load', rng.randrange(3)])
        elif r < 0.76:
            ops.append(['restart', rng.random() < 0.6])
        elif r < 0.86:
            ops.append(['drop', k])
        elif r < 0.9:
            ops.append(['params', rng.randrange(len(c['maps']))])
        elif r < 0.905:
            ops.append(['show', k])
        else:
            ops.append(['use', k, rng.randrange(3)])
    c['ops'] = ops
    if c['kind'] == 'threads':
        c['cfg'] = native.schedule(rng)
        c['cfg']['py_hot_permille'] = rng.choice([40, 300, 500])
        c['threads'] = [[rng.choice([['store', rng.choice(HOW), rng.randrange(6)], ['read']]) for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 3]))]
    if c['kind'] == 'process':
        c['ops'] = [o for o in ops if o[0] == 'train'][:2]
    return c


def create(spec, ccore=None):
    from pyclustering.nnet.som import som, som_parameters, type_conn, type_init
    p = som_parameters()
    p.init_type = list(type_init)[spec['init']]
    p.init_radius = spec['radius']
    p.init_learn_rate = spec['rate']
    p.adaptation_threshold = spec['threshold']
    p.random_state = spec['state']
    return som(spec['rows'], spec['cols'], list(type_conn)[spec['conn']], p, ccore=spec['ccore'] if ccore is None else ccore), p


def value(f):
    try:
        return f()
    except (ZeroDivisionError, IndexError, TypeError) as e:
        return type(e).__name__


def observe(m, trained, patterns):
    o = dict(length=len(m), size=m.size, weights=[list(w) for w in m.weights], awards=list(m.awards), captured=[list(x) for x in m.capture_objects], winners=m.get_winner_number())
    if trained:
        dim = len(o['weights'][0])
        o['answers'] = [m.simulate(p[:dim]) for p in patterns]
        o['distances'] = value(m.get_distance_matrix)
    return o


def clear(o, patterns):
    """Whether every answer of the map is beyond the doubt of rounding."""
    dim = len(o['weights'][0])
    for p in patterns:
        d = sorted(sum((a - b) ** 2 for a, b in zip(w, p[:dim])) for w in o['weights'])
        if len(d) > 1 and d[1] - d[0] < 1e-9 * (1 + d[1]):
            return False
    return True


class Model:
    def __init__(self, spec, impl):
        self.spec, self.impl, self.trained, self.expected, self.copies, self.restored = spec, impl, False, None, 0, False

    def clone(self):
        m = Model(self.spec, self.impl)
        m.trained, m.expected, m.copies, m.restored = self.trained, self.expected, self.copies + 1, True
        return m


def same(a, b, exact=True):
    for k in a:
        if k not in b:
            return k
        if k == 'distances':
            if isinstance(a[k], str) or isinstance(b[k], str):
                if a[k] != b[k]:
                    return k
            elif catalog.difference(a[k], b[k]) and not close(a[k], b[k]):
                return k
        elif k == 'answers' and not exact:
            continue
        elif a[k] != b[k]:
            return k
    return None


def close(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(abs(u - v) <= 1e-9 * (1 + abs(u)) for u, v in zip(x, y)) for x, y in zip(a, b))


def through(m, how, proto):
    if how == 'copy':
        return copy.copy(m)
    if how == 'deepcopy':
        return copy.deepcopy(m)
    if how == 'deepcopy of a list':
        return copy.deepcopy([m])[0]
    if how == 'pickle of a pair':
        a, b = pickle.loads(pickle.dumps((m, m), proto))
        return a
    return pickle.loads(pickle.dumps(m, proto))


def package(env):
    root = os.path.join(env.scratch, 'package15')
    shutil.rmtree(root, ignore_errors=True)
    top = os.path.join(root, 'pyclustering')
    src = os.path.join(build.REPO, 'pyclustering')
    os.makedirs(os.path.join(top, 'core'))
    for e in os.listdir(src):
        if e not in ('core', '__pycache__'):
            os.symlink(os.path.join(src, e), os.path.join(top, e))
    for e in os.listdir(os.path.join(src, 'core')):
        if e.endswith('.py'):
            os.symlink(os.path.join(src, 'core', e), os.path.join(top, 'core', e))
    return root


class Core:
    """Availability of the core as the package sees it."""

    def __init__(self):
        from pyclustering.core.wrapper import ccore_library
        self.lib, self.real, self.there = ccore_library, ccore_library.__dict__['workable'], True

    def __enter__(self):
        real = self.real.__get__(None, self.lib)
        self.lib.workable = staticmethod(lambda: self.there and real())
        return self

    def __exit__(self, *a):
        self.lib.workable = self.real
        return False


def train(m, spec, data, epochs, autostop, seed):
    random.seed(seed)
    before = [list(x) for x in data]
    r = m.train(data, epochs, autostop)
    if data != before:
        raise Violation('input changed', 'training changes its data')
    return r


def run(env, c):
    nat = env.core(c['cores'])
    gc.collect()
    live, disk = {}, {}
    state = dict(next=0)
    log = []

    def where():
        return ' after ' + '; '.join(log[-6:])

    def check(k, why=''):
        m, mod = live[k]
        o = observe(m, mod.trained, c['patterns'])
        if mod.expected is None:
            mod.expected = o
            return
        d = same(mod.expected, o)
        if d:
            raise Violation('map differs', 'map %d (%s, %dx%d, connection %d, %s%s): %s is %s instead of %s%s' % (
                k, mod.impl, mod.spec['rows'], mod.spec['cols'], mod.spec['conn'], 'trained' if mod.trained else 'not trained', ', restored' if mod.restored else '', d, str(o.get(d))[:300], str(mod.expected.get(d))[:300], where()))

    def check_all(end=False):
        if c['blind'] and not end:
            env.probe('not looked at before stored')
            return
        for k in sorted(live):
            check(k)

    def add(m, mod):
        k = state['next']
        state['next'] += 1
        live[k] = [m, mod]
        return k

    def pick(k):
        ks = sorted(live)
        return ks[k % len(ks)] if ks else None

    def restored(m, mod, core, what):
        mod = mod.clone()
        if mod.copies > 1:
            env.probe('copy of a copy')
        if mod.impl == 'native' and not core.there:
            env.probe('native map restored without the core')
            mod.impl = 'Python'
            o = observe(m, mod.trained, c['patterns'])
            d = same(mod.expected, o, exact=not mod.trained or clear(mod.expected, c['patterns']))
            if d:
                raise Violation('map differs', 'a native map restored without the core (%s): %s is %s instead of %s%s' % (what, d, str(o.get(d))[:300], str(mod.expected.get(d))[:300], where()))
            mod.expected = o
        return add(m, mod)

    def one(op, core):
        if op[0] in ('train', 'store', 'dump', 'drop', 'use', 'show') and pick(op[1]) is None:
            return
        if op[0] == 'train':
            k = pick(op[1])
            m, mod = live[k]
            data = c['data'][op[2]]
            log.append('map %d trained (%d x %d, %d epochs%s)' % (k, len(data), len(data[0]), op[3], ', autostop' if op[4] else ''))
            r = train(m, mod.spec, data, op[3], op[4], c['seed'])
            if mod.restored:
                env.probe('retrained after restoring')
                if mod.trained and len(mod.expected['weights'][0]) != len(data[0]):
                    env.probe('other dimension after restoring')
            if op[4]:
                env.probe('autostop')
            mod.trained, mod.expected = True, None
            if mod.spec['init'] != 3:
                env.probe('random initial weights')
            blind = c['blind'] and (core.there or mod.impl != 'native') and (mod.spec['state'] is not None or mod.spec['init'] == 3)
            o = None if blind else observe(m, True, c['patterns'])
            if mod.spec['state'] is not None or mod.spec['init'] == 3:
                f, _ = create(mod.spec, ccore=mod.impl == 'native')
                if mod.impl == 'native' and not core.there:
                    return
                fr = train(f, mod.spec, data, op[3], op[4], c['seed'])
                fo = observe(f, True, c['patterns'])
                if blind:
                    o = fo
                d = same(fo, o) or (r != fr and 'number of iterations')
                if d:
                    raise Violation('training differs', 'map %d (%s, %dx%d%s) trained like a new one: %s is %s instead of %s%s' % (
                        k, mod.impl, mod.spec['rows'], mod.spec['cols'], ', restored' if mod.restored else '', d, str(o.get(d, r))[:300], str(fo.get(d, fr))[:300], where()))
            mod.expected = o
        elif op[0] == 'store':
            k = pick(op[1])
            m, mod = live[k]
            log.append('map %d through %s' % (k, op[2]))
            env.probe('trained map stored' if mod.trained else 'untrained map stored')
            n = through(m, op[2], op[3])
            if not c['blind'] or mod.expected is None:
                check(k)
            restored(n, mod, core, op[2])
        elif op[0] == 'dump':
            k = pick(op[1])
            m, mod = live[k]
            env.probe('trained map stored' if mod.trained else 'untrained map stored')
            b = pickle.dumps(m, op[2])
            if pickle.dumps(m, op[2]) != b:
                if pickle.loads(pickle.dumps(m, op[2])) is None:
                    raise Violation('map differs', 'nothing stored')
            else:
                env.probe('stored twice')
            cut = None if op[3] is None else int(op[3] * len(b))
            log.append('map %d written%s' % (k, '' if cut is None else ' (cut after %d bytes)' % cut))
            disk[len(disk)] = (b if cut is None else b[:cut], copy.copy(mod), cut)
        elif op[0] == 'load':
            if not disk:
                return
            b, mod, cut = disk[op[1] % len(disk)]
            log.append('file %d read' % (op[1] % len(disk)))
            if cut is not None:
                env.probe('cut short')
                env.fault('write cut short')
                try:
                    m = pickle.loads(b)
                except Exception:
                    return
                raise Violation('incomplete map restored', 'from %d bytes%s' % (cut, where()))
            restored(pickle.loads(b), mod, core, 'file')
        elif op[0] == 'restart':
            live.clear()
            gc.collect()
            core.there = op[1]
            env.probe('restart')
            env.fault('process restart')
            if not op[1]:
                env.fault('core unavailable')
            log.append('restart %s the core' % ('with' if op[1] else 'without'))
        elif op[0] == 'drop':
            k = pick(op[1])
            if len(live) > 1:
                if not live[k][1].restored:
                    env.probe('original dropped first')
                del live[k]
                log.append('map %d dropped' % k)
        elif op[0] == 'params':
            env.probe('parameter object changed')
            p = params[op[1] % len(params)]
            p.init_learn_rate, p.random_state, p.init_radius, p.adaptation_threshold = 0.9, 4242, 0.1, 7.0
        elif op[0] == 'show':
            k = pick(op[1])
            m, mod = live[k]
            if mod.trained and len(mod.expected['weights'][0]) <= 2:
                env.probe('shown')
                m.show_network(awards=True, belongs=True)
                m.show_winner_matrix()
        elif op[0] == 'use':
            k = pick(op[1])
            m, mod = live[k]
            if mod.trained:
                p = c['patterns'][op[2]][:len(mod.expected['weights'][0])]
                if m.simulate(p) != mod.expected['answers'][op[2]]:
                    raise Violation('map differs', 'answer of map %d%s' % (k, where()))
        check_all()

    def parallel():
        env.probe('several threads')
        k = pick(0)
        m, mod = live[k]

        def thread(ops):
            def go():
                out = []
                for op in ops:
                    x = m if op[0] == 'read' else through(m, op[1], op[2])
                    out.append((x, observe(x, mod.trained and x is not m, c['patterns'])))
                return out
            return go
        log.append('several threads use map %d' % k)
        res = native.PyThreads(nat, os.path.join(build.REPO, 'pyclustering') + os.sep).run([thread(t) for t in c['threads']])
        for ok, v in res:
            if not ok:
                if isinstance(v, Violation):
                    raise v
                raise Violation('unexpected exception', '%s: %s' % (type(v).__name__, str(v)[:200]))
            for x, o in v:
                d = same(o, mod.expected)
                if d:
                    raise Violation('map differs', 'stored, restored and used by several threads: %s%s' % (d, where()))
        check_all()

    def process():
        k = pick(0)
        m, mod = live[k]
        dim = len(mod.expected['weights'][0]) if mod.trained else 0
        env.probe('new process')
        env.fault('process restart')
        if mod.impl == 'native':
            env.probe('native map restored without the core')
            env.fault('core unavailable')
        path = os.path.join(env.scratch, 'map')
        with open(path, 'wb') as s:
            pickle.dump((m, [p[:dim] for p in c['patterns']] if mod.trained else [], None), s)
        root = package(env)
        r = subprocess.run([sys.executable, '-B', '-c', PROCESS, root, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, MPLBACKEND='Agg'))
        shutil.rmtree(root, ignore_errors=True)
        if r.returncode:
            raise Violation('unexpected exception', 'in a new process: ' + r.stderr.decode('utf-8', 'replace').strip().splitlines()[-1][:300])
        with open(path, 'rb') as s:
            out, back = pickle.load(s)
        os.unlink(path)
        e = mod.expected
        want = [e['length'], e['size'], e['weights'], e['awards'], e['captured'], e['winners']]
        if out[:6] != want or (mod.trained and clear(e, c['patterns']) and out[6] != e['answers']):
            raise Violation('map differs', 'restored in a new process: %s instead of %s' % (str(out)[:300], str(want)[:300]))
        mod = mod.clone()
        mod.impl = 'Python'
        if mod.trained:
            mod.expected = dict(mod.expected, answers=out[6])
        add(back, mod)
        check_all()

    params = []
    with pyrand.Entropy(c['seed']), env.session(nat, dict(c['cfg'], max_ops=400000000)) as s, Core() as core:
        try:
            for spec in c['maps']:
                m, p = create(spec)
                params.append(p)
                env.probe('native' if spec['ccore'] else 'Python')
                k = add(m, Model(spec, 'native' if spec['ccore'] else 'Python'))
                if c['blind'] and spec['state'] is not None:
                    twin, _ = create(spec)
                    live[k][1].expected = observe(twin, False, c['patterns'])
                else:
                    check(k)
            for op in c['ops']:
                try:
                    one(op, core)
                except Violation:
                    raise
                except Exception as e:
                    if not catalog.through_library(e):
                        raise
                    raise Violation('unexpected exception', '%s: %s: %s%s' % (op[0], type(e).__name__, str(e)[:200], where()))
            check_all(True)
            if c['kind'] == 'threads' and live:
                parallel()
            if c['kind'] == 'process' and live:
                process()
        finally:
            summary = [[k, v[1].impl, v[1].trained, v[1].copies] for k, v in sorted(live.items())]
            live.clear()
            m = p = None
            gc.collect()
    env.note([c['kind'], c['maps'], log, summary])


def shrink(c):
    for i in range(len(c['ops'])):
        yield dict(c, ops=c['ops'][:i] + c['ops'][i + 1:])
    if len(c['maps']) > 1:
        for i in range(len(c['maps'])):
            yield dict(c, maps=c['maps'][:i] + c['maps'][i + 1:])
    for i, t in enumerate(c.get('threads') or []):
        if len(c['threads']) > 1:
            yield dict(c, threads=c['threads'][:i] + c['threads'][i + 1:])
    for i, d in enumerate(c['data']):
        for k in range(len(d)):
            if len(d) > 1:
                yield dict(c, data=c['data'][:i] + [d[:k] + d[k + 1:]] + c['data'][i + 1:])
    for i, m in enumerate(c['maps']):
        for k, v in (('rows', 2), ('cols', 2), ('rows', 1), ('cols', 1), ('conn', 0), ('init', 3), ('radius', None), ('rate', 0.1), ('threshold', 0.001), ('state', 1)):
            if m[k] != v:
                yield dict(c, maps=c['maps'][:i] + [dict(m, **{k: v})] + c['maps'][i + 1:])
    for i, o in enumerate(c['ops']):
        if o[0] == 'train' and o[3] > 1:
            yield dict(c, ops=c['ops'][:i] + [o[:3] + [1, o[4]]] + c['ops'][i + 1:])
