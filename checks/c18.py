"""C18: whatever happens to the library of the native core."""
import ctypes
import importlib
import os
import platform
import random
import shutil
import subprocess
import sys
import types
import warnings

from simlib import build, catalog, native, pyrand
from simlib.frame import Violation

ID = 'C18'
PLAN = {'quick': (100000, 45), 'thorough': (6000000, 700)}
RULE = ('A case is a history of availability queries, requests of the library and algorithm calls with the core requested, in one or several interpreter threads, while the library file changes its condition - healthy, missing, a '
        'directory, empty, text, cut short, for another machine, without or with a wrong description or version, refused by the loader - between or during the accesses of the loader (before its n-th look at the file), or the '
        'platform is unknown. Some cases import the whole package in a new process. Counted as distinct: histories of accesses and conditions together with the answers.')
REAL = ['the loader of the package and ctypes', 'the dynamic loader of the system on real (broken) files', 'algorithms of the package, native core (healthy condition)']
STUB = ['condition of the library file at each access; libraries of other versions; thread scheduling of the interpreter (line events)']
BAD = ['missing', 'directory', 'empty', 'text', 'short', 'machine', 'loop', 'refused', 'stub:nothing', 'stub:nodescription', 'stub:noversion', 'stub:nulldescription', 'stub:emptydescription', 'stub:nullversion',
       'stub:oldversion', 'stub:newversion', 'stub:badversion']
PLATFORMS = [('sunos5', '64bit'), ('aix', '64bit'), ('freebsd14', '64bit'), ('linux', '32bit'), ('win32', '64bit'), ('cygwin', '64bit'), ('darwin', '64bit'), ('emscripten', '32bit'), ('linux2', '64bit')]
PROBES = BAD + ['healthy', 'changed while loading', 'core used', 'fallback used', 'several threads', 'platform', 'new process', 'library came back', 'library vanished after loading', 'object of the core outlives the file']
SOURCE = r'''
#if defined(NOTHING)
int unrelated(void) { return 1; }
#else
#ifndef NODESCRIPTION
const char *get_interface_description(void) { return DESCRIPTION; }
#endif
#ifndef NOVERSION
const char *get_interface_version(void) { return VERSION; }
#endif
#endif
'''
VARIANTS = {'nothing': ['-DNOTHING'], 'nodescription': ['-DNODESCRIPTION', '-DVERSION="0.11.0"'], 'noversion': ['-DNOVERSION', '-DDESCRIPTION="pyclustering"'],
            'nulldescription': ['-DDESCRIPTION=0', '-DVERSION="0.11.0"'], 'emptydescription': ['-DDESCRIPTION=""', '-DVERSION="0.11.0"'], 'nullversion': ['-DDESCRIPTION="pyclustering"', '-DVERSION=0'],
            'oldversion': ['-DDESCRIPTION="pyclustering"', '-DVERSION="0.10.1"'], 'newversion': ['-DDESCRIPTION="pyclustering"', '-DVERSION="0.12.0"'],
            'badversion': ['-DDESCRIPTION="pyclustering"', r'-DVERSION="\xff\xfe"']}
NAMES = ['kmeans', 'kmedians', 'kmedoids', 'dbscan', 'optics', 'bsas', 'mbsas', 'ttsas', 'clique', 'cure', 'agglomerative', 'rock', 'silhouette', 'fcm', 'pcnn', 'legion', 'som', 'elbow', 'xmeans', 'syncpr', 'pam_build']
MODULES = ['pyclustering', 'pyclustering.cluster.kmeans', 'pyclustering.cluster.dbscan', 'pyclustering.nnet.som', 'pyclustering.nnet.sync', 'pyclustering.nnet.pcnn', 'pyclustering.cluster.syncnet', 'pyclustering.core.wrapper']
PROCESS = r'''
import sys, warnings, json, ctypes, numpy, scipy.integrate, scipy.spatial.distance, matplotlib.pyplot, matplotlib.animation, PIL.Image
sys.path.insert(0, sys.argv[1])
sys.platform = sys.argv[2]
out = {}
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    from pyclustering.cluster.kmeans import kmeans
    from pyclustering.cluster.dbscan import dbscan
    from pyclustering.nnet.som import som, type_conn
    from pyclustering.nnet.sync import sync_network
    from pyclustering.nnet.pcnn import pcnn_network
    from pyclustering.core.wrapper import ccore_library
    data = [[0.0, 0.1], [0.2, 0.0], [5.0, 5.1], [5.2, 5.0], [9.0, 9.0]]
    for flag in (True, False):
        o = kmeans(data, [[0.0, 0.0], [6.0, 6.0]], ccore=flag); o.process()
        d = dbscan(data, 1.0, 2, ccore=flag); d.process()
        s = som(1, 2, type_conn.grid_four, ccore=flag); s.train(data, 3)
        out[flag] = [o.get_clusters(), [list(map(float, c)) for c in o.get_centers()], d.get_clusters(), d.get_noise(), [sorted(x) for x in s.capture_objects], len(sync_network(3, ccore=flag)), len(pcnn_network(4, ccore=flag))]
    out['workable'] = ccore_library.workable()
    out['again'] = ccore_library.workable()
    out['path'] = __import__('pyclustering.core.definitions', fromlist=['x']).__file__
    out['warnings'] = [str(x.message)[:60] for x in w if 'pyclustering' in str(x.message)]
print(json.dumps({str(k): v for k, v in out.items()}))
'''


def make(rng, index, tier):
    c = dict(seed=rng.randrange(1 << 31), cores=rng.choice([2, 2, 3]), cfg=native.schedule(rng, light=True))
    if index % 600 == 11:
        c.update(kind='process', condition=rng.choice([b for b in BAD if b != 'refused']), platform=rng.choice(['sunos5', 'aix', 'freebsd14', 'haiku1', 'linux2']) if rng.random() < 0.4 else 'linux')
        return c
    c['kind'] = 'threads' if rng.random() < 0.2 else 'history'
    c['platform'] = list(rng.choice(PLATFORMS)) if rng.random() < 0.06 else None
    c['start'] = rng.choice(BAD) if rng.random() < 0.7 else 'healthy'
    c['changes'] = sorted([rng.randrange(1, 7), rng.choice(BAD + ['healthy', 'healthy', 'missing', 'healthy'])] for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))        # before the n-th access
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        while True:
            d = catalog.make(rng, rng.choice(NAMES))
            if len(d.get('data') or ()) <= 14 and (d['p'].get('n') or 0) <= 8 and catalog.deterministic(d, True) and not catalog.may_hang(d, False) and (d.get('metric') or {}).get('type') != 'USER_DEFINED':
                break
        calls.append(d)
    c['calls'] = calls
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        r = rng.random()
        if r < 0.3:
            ops.append(['query'])
        elif r < 0.4:
            ops.append(['get'])
        elif r < 0.5:
            ops.append([rng.choice(['keep', 'keep', 'use'])])
        elif r < 0.85:
            ops.append(['call', rng.randrange(len(calls))])
        else:
            ops.append(['set', rng.choice(BAD + ['healthy'] * 4)])
    c['ops'] = ops
    if c['kind'] == 'threads':
        c['threads'] = [[rng.choice([['query'], ['query'], ['get'], ['call', 0]]) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
        c['cfg'] = native.schedule(rng)
        c['cfg']['py_hot_permille'] = rng.choice([40, 300, 500])
    return c


class Files:
    """The library file as the loader meets it."""

    def __init__(self, env):
        self.dir = os.path.join(env.scratch, 'library')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.path = os.path.join(self.dir, 'libpyclustering.so')
        src = os.path.join(self.dir, 'stub.c')
        with open(src, 'w') as s:
            s.write(SOURCE)
        self.target = {}
        for name, flags in VARIANTS.items():
            so = os.path.join(self.dir, 'stub-%s.so' % name)
            subprocess.run(['gcc', '-shared', '-fPIC', '-o', so, src] + flags, check=True, stderr=subprocess.DEVNULL)
            self.target['stub:' + name] = so
        with open(self.target['stub:nothing'], 'rb') as s:
            elf = bytearray(s.read())
        for name, data in (('empty', b''), ('text', b'this is not a library\n' * 20), ('short', bytes(elf[:40])), ('machine', bytes(elf[:18]) + b'\xb7\x00' + bytes(elf[20:]))):
            self.target[name] = os.path.join(self.dir, 'bad-' + name)
            with open(self.target[name], 'wb') as s:
                s.write(data)
        self.target['directory'] = os.path.join(self.dir, 'bad-directory')
        os.mkdir(self.target['directory'])
        self.target['missing'] = os.path.join(self.dir, 'absent')
        self.target['loop'] = os.path.join(self.dir, 'bad-loop')
        os.symlink('bad-loop', self.target['loop'])
        self.target['refused'] = self.target['stub:nothing']
        self.real = (os.stat, ctypes._dlopen)

    def set(self, condition):
        self.condition = condition
        if os.path.lexists(self.path):
            os.unlink(self.path)
        if condition != 'missing':
            os.symlink(self.target[condition], self.path)


class Seam:
    """Every look at the file and every load of it, counted; the condition changes before chosen ones."""

    def __init__(self, env, files, c, nat):
        self.env, self.files, self.n, self.loaded, self.log, self.nat = env, files, 0, [], [], nat
        self.changes = list(c.get('changes') or [])
        files.target['healthy'] = nat.path

    def access(self, what):
        self.n += 1
        while self.changes and self.changes[0][0] <= self.n:
            _, cond = self.changes.pop(0)
            if cond != self.files.condition:
                self.env.probe('changed while loading')
                if self.healthy_loaded() and cond == 'missing':
                    self.env.probe('library vanished after loading')
                self.files.set(cond)
        self.log.append((what, self.files.condition))
        if self.files.condition != 'healthy':
            self.env.fault('library ' + self.files.condition)
        self.env.probe(self.files.condition)

    def healthy_loaded(self):
        return 'healthy' in self.loaded

    def ours(self, path):
        try:
            return os.fspath(path) == self.files.path
        except TypeError:
            return False

    def __enter__(self):
        real_stat, real_open = self.files.real

        def stat(path, *a, **kw):
            if not self.ours(path):
                return real_stat(path, *a, **kw)
            self.access('look')
            return real_stat(path, *a, **kw)

        def dlopen(path, *a):
            if not self.ours(path):
                return real_open(path, *a)
            self.access('load')
            cond = self.files.condition
            if cond == 'refused':
                raise OSError('%s: cannot allocate memory in static TLS block' % path)
            h = real_open(self.files.target[cond], *a)
            self.loaded.append(cond)
            return h
        os.stat, ctypes._dlopen = stat, dlopen
        return self

    def __exit__(self, *a):
        os.stat, ctypes._dlopen = self.files.real
        return False


def pristine(w):
    """The state of the loader as it was when the package was imported."""
    if not hasattr(pristine, 'code'):
        with open(w.__file__) as s:
            pristine.code = compile(s.read(), w.__file__, 'exec')
    m = types.ModuleType(w.__name__)
    m.__file__ = w.__file__
    exec(pristine.code, m.__dict__)
    for src, dst in ((m, w), (m.ccore_library, w.ccore_library)):
        for k, v in list(vars(dst).items()):
            if k.startswith('__') or k == 'PATH_PYCLUSTERING_CCORE_LIBRARY':
                continue
            if callable(v) or isinstance(v, (staticmethod, classmethod, property, types.ModuleType)):
                continue
            if k not in vars(src):
                delattr(dst, k)
        for k, v in list(vars(src).items()):
            if k.startswith('__') or k == 'PATH_PYCLUSTERING_CCORE_LIBRARY' or callable(v) or isinstance(v, (staticmethod, classmethod, property, types.ModuleType)):
                continue
            setattr(dst, k, v)


FILES = {}


def files(env):
    if 'f' not in FILES:
        FILES['f'] = Files(env)
    return FILES['f']


def process(env, c):
    f = files(env)
    root = os.path.join(env.scratch, 'package')
    shutil.rmtree(root, ignore_errors=True)
    top = os.path.join(root, 'pyclustering')
    src = os.path.join(build.REPO, 'pyclustering')
    os.makedirs(os.path.join(top, 'core', '64-bit', 'linux'))
    for e in os.listdir(src):
        if e not in ('core', '__pycache__'):
            os.symlink(os.path.join(src, e), os.path.join(top, e))
    for e in os.listdir(os.path.join(src, 'core')):
        if e.endswith('.py'):
            os.symlink(os.path.join(src, 'core', e), os.path.join(top, 'core', e))
    lib = os.path.join(top, 'core', '64-bit', 'linux', 'libpyclustering.so')
    if c['condition'] != 'missing':
        os.symlink(f.target[c['condition']], lib)
    env.probe(c['condition'])
    env.probe('new process')
    env.fault('library ' + c['condition'])
    r = subprocess.run([sys.executable, '-B', '-c', PROCESS, root, c['platform']], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ, MPLBACKEND='Agg'))
    shutil.rmtree(root, ignore_errors=True)
    what = 'library %s, platform %s' % (c['condition'], c['platform'])
    if r.returncode:
        raise Violation('import fails', '%s: %s' % (what, r.stderr.decode('utf-8', 'replace').strip().splitlines()[-1][:300]))
    import json
    out = json.loads(r.stdout)
    if out['True'] != out['False']:
        raise Violation('fallback differs', '%s: %s instead of %s' % (what, out['True'], out['False']))
    if out['workable'] or out['again']:
        raise Violation('unusable core reported usable', what)
    if not out['warnings']:
        raise Violation('no warning', what)
    env.note(['process', c['condition'], c['platform']])


KEPT = [[0.0, 0.3], [0.2, 0.1], [5.0, 5.2], [5.3, 4.9], [9.1, 0.4]]


class Kept:
    """Networks created with the core requested and used later."""

    def __init__(self, ccore):
        from pyclustering.nnet import initial_type
        from pyclustering.nnet.som import som, som_parameters, type_conn, type_init
        from pyclustering.nnet.sync import sync_network
        p = som_parameters()
        p.init_type = type_init.uniform_grid
        self.som = som(2, 2, type_conn.grid_four, p, ccore=ccore)
        self.sync = sync_network(4, 0.5, initial_phases=initial_type.EQUIPARTITION, ccore=ccore)

    def use(self):
        self.som.train(KEPT, 4)
        d = self.sync.simulate_static(6, 1.0, collect_dynamic=True)
        return [len(self.som), self.som.capture_objects, self.som.awards, [[round(x, 6) for x in w] for w in self.som.weights], [self.som.simulate(p) for p in KEPT], len(self.sync), len(d), [[round(x, 6) for x in v] for v in d.output]]


def reference(c, d, ccore):
    with pyrand.Entropy(c['seed']):
        random.seed(c['seed'])
        return catalog.call(d, ccore)


def run(env, c):
    if c['kind'] == 'process':
        return process(env, c)
    import pyclustering.core.definitions as defs
    import pyclustering.core.wrapper as w
    f = files(env)
    nat = env.core(c['cores'])
    lib = w.ccore_library
    refs = []
    with env.session(nat, dict(native.schedule(random.Random(1), light=True), strategy=native.SERIAL, max_ops=400000000), main=False):
        for d in c['calls']:
            refs.append([reference(c, d, False), reference(c, d, True)])
        kept = [Kept(False).use(), Kept(True).use()]
    pristine(w)
    seam = Seam(env, f, c, nat)
    f.set(c['start'])
    defs.PATH_PYCLUSTERING_CCORE_LIBRARY = w.PATH_PYCLUSTERING_CCORE_LIBRARY = f.path
    state = dict(always=c['start'] == 'healthy' and not c['changes'], answers=[], asked=False)
    real = (sys.platform, platform.architecture)
    text = lambda: 'accesses %s' % (seam.log,)

    def usable(threads=False):
        r = lib.workable()
        if r not in (True, False):
            raise Violation('wrong answer', 'availability of the core: %r' % (r,))
        if r and not seam.healthy_loaded():
            raise Violation('unusable core reported usable', text())
        if not r and state['always']:
            raise Violation('healthy core not used', text())
        return r

    def one(op):
        if op[0] == 'set':
            if seam.healthy_loaded() and op[1] == 'missing':
                env.probe('library vanished after loading')
            elif op[1] == 'healthy' and f.condition != 'healthy':
                env.probe('library came back')
            f.set(op[1])
            if op[1] != 'healthy' and not seam.healthy_loaded():
                state['always'] = False
        elif op[0] == 'query':
            a, b = usable(), usable()
            if a and not b:
                raise Violation('answer changes', 'usable, then not: ' + text())
            return a
        elif op[0] == 'get':
            lib.get()
        elif op[0] == 'keep':
            a = lib.workable()
            state.pop('kept', None)
            state['kept'] = (Kept(True), f.condition)
            state['core'] = (a, lib.workable())
        elif op[0] == 'use':
            if state.get('kept'):
                o, cond = state.pop('kept')
                if state['core'][0] and cond != f.condition:
                    env.probe('object of the core outlives the file')
                r = o.use()
                if r not in [kept[u] for u in state['core']]:
                    raise Violation('wrong result', 'networks created when the core was %s give a result of neither implementation: %s' % ('usable' if state['core'][1] else 'not usable', text()))
        else:
            d = c['calls'][op[1]]
            before = nat.stats()['allocs']
            r = reference(c, d, True)
            after = nat.stats()['allocs']
            u = usable()
            name = d['alg']
            want = refs[op[1]][1 if u else 0]
            diff = catalog.difference(r, want)
            if diff and u and not catalog.difference(r, refs[op[1]][0]) and c['kind'] == 'threads':
                diff = None         # the core became usable while the call was under way
            if diff:
                raise Violation('wrong result', '%s with the core requested (%s) differs at %s: %s' % (name, 'usable' if u else 'not usable', diff, text()))
            if u and state['always'] and catalog.uses_core(d) and 'raised' not in r and after == before:
                raise Violation('healthy core not used', '%s: %s' % (name, text()))
            env.probe('core used' if after != before else 'fallback used')
            return 'core' if after != before else 'python'

    if c['platform']:
        sys.platform = c['platform'][0]
        platform.architecture = lambda *a, **k: (c['platform'][1], 'ELF')
    try:
        with env.session(nat, dict(c['cfg'], max_ops=400000000)) as s, seam, warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                if c['platform']:
                    env.probe('platform')
                    env.fault('unknown platform')
                    try:
                        m = types.ModuleType(defs.__name__)
                        m.__file__ = defs.__file__
                        with open(defs.__file__) as src:
                            exec(compile(src.read(), defs.__file__, 'exec'), m.__dict__)
                    except Exception as e:
                        raise Violation('import fails', 'platform %s: %s: %s' % (c['platform'], type(e).__name__, e))
                    defs.PATH_PYCLUSTERING_CCORE_LIBRARY = w.PATH_PYCLUSTERING_CCORE_LIBRARY = m.PATH_PYCLUSTERING_CCORE_LIBRARY and f.path
                    if c['platform'][0] not in ('linux', 'linux2', 'win32', 'cygwin', 'darwin') and m.PATH_PYCLUSTERING_CCORE_LIBRARY is None:
                        seam.log.append(('unsupported', c['platform'][0]))
                    state['always'] = False
                if c['kind'] == 'threads':
                    env.probe('several threads')

                    def thread(ops):
                        def go():
                            return [one_threaded(op) for op in ops]
                        return go

                    def one_threaded(op):
                        if op[0] == 'query':
                            return usable()
                        return one(op) if op[0] == 'get' else lib.workable()
                    res = native.PyThreads(nat, os.path.join(build.REPO, 'pyclustering') + os.sep).run([thread(t) for t in c['threads']])
                    for ok, v in res:
                        if not ok:
                            if isinstance(v, Violation):
                                raise v
                            raise Violation('unexpected exception', '%s: %s: %s' % (type(v).__name__, str(v)[:200], text()))
                    state['answers'].append([v for _, v in res])
                    usable()
                for op in c['ops']:
                    try:
                        state['answers'].append(one(op))
                    except (Violation, KeyboardInterrupt):
                        raise
                    except Exception as e:
                        if not catalog.through_library(e):
                            raise
                        raise Violation('unexpected exception', '%s raises %s: %s: %s' % (op[0], type(e).__name__, str(e)[:200], text()))
                u = usable()
                if not u and not any('pyclustering' in str(x.message) for x in caught):
                    raise Violation('no warning', text())
            finally:
                sys.platform, platform.architecture = real
                state.pop('kept', None)         # released while the library of the case is there
    finally:
        sys.platform, platform.architecture = real
        pristine(w)
    env.note([c['kind'], c['platform'], seam.log, str(state['answers'])])


def shrink(c):
    if c['kind'] == 'process':
        return
    for k in ('ops', 'changes', 'threads'):
        v = c.get(k) or []
        for i in range(len(v)):
            if len(v) > 1 or k != 'ops':
                yield dict(c, **{k: v[:i] + v[i + 1:]})
    if c['platform']:
        yield dict(c, platform=None)
    if c['start'] not in ('missing', 'healthy'):
        yield dict(c, start='missing')
    for i, d in enumerate(c['calls']):
        for e in catalog.shrink(d):
            yield dict(c, calls=c['calls'][:i] + [e] + c['calls'][i + 1:])
