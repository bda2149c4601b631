"""C14: calls cut short at an arbitrary point."""
import ast
import gc
import random
import sys
import warnings

import numpy

from simlib import catalog, native, pyrand, wl
from simlib.frame import Violation

ID = 'C14'
PLAN = {'quick': (60000, 50), 'thorough': (4000000, 700)}
RULE = ('A case is one call of the package (every algorithm, network, container and initialiser; native or Python), one to three aborts of it - an interrupt delivered before a chosen executed line of the package, other than cleanup code, '
        '(uniform over distinct lines or over time), or an exception raised by the k-th call of the user-defined metric or observer - and later calls. Half of the interrupts of native calls find the core not '
        'loaded yet. Compared: identity of the exception, the caller\'s objects before and after, global settings, and every later result with the result without aborts. Counted as distinct: different interrupted lines.')
REAL = ['the Python package: algorithms, networks, containers, core wrappers, loader', 'the core library']
STUB = ['moment of the interrupt (line events of the interpreter)', 'generators of Python and numpy, clock, heap, thread scheduling of the core (simulator)']
PROBES = ['interrupt in Python code', 'interrupt in a core wrapper', 'interrupt while loading the core', 'metric raised', 'observer raised', 'aborted more than once', 'arrays, tuples, views as input', 'same objects used again',
          'other algorithm afterwards', 'parameters object']
LIMIT = 100000
SLOW = ('hhn', 'hysteresis', 'hsyncnet', 'syncsom', 'syncgcolor', 'sync', 'gmeans')


class Interrupt(KeyboardInterrupt):
    pass


class TooLong(BaseException):
    pass


def small(rng, name):
    for _ in range(60):
        c = catalog.make(rng, name)
        if len(c.get('data') or ()) <= 14 and (c['p'].get('n') or 0) <= 8 and (c['p'].get('k') or 0) <= 5:
            break
    return c


def repeatable(c, ccore):
    """Whether the same generators give the same result (the entropy of the core goes on from call to call)."""
    return not (ccore and catalog.uses_core(c)) or catalog.deterministic(c, True)


def make(rng, index, tier):
    while True:
        name = rng.choice(catalog.names())
        ccore = catalog.ENTRIES[name].native and rng.random() < 0.35
        if name in SLOW and rng.random() < 0.7:
            continue
        c = small(rng, name)
        if not catalog.may_hang(c, ccore) and repeatable(c, ccore):
            break
    aborts = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        kind = rng.choice(['line', 'line', 'spread', 'user', 'user'])
        if kind == 'user' and (c.get('metric') or {}).get('type') != 'USER_DEFINED' and not c['p'].get('observe'):
            if catalog.ENTRIES[name].metric and c.get('metric') is None and not ccore and name != 'initializer' and not c['p'].get('matrix'):
                c['metric'] = {'type': 'USER_DEFINED', 'func': 'square'}
            else:
                kind = 'line'
        aborts.append([kind, rng.random(), rng.random()])
    other = None
    if rng.random() < 0.3:
        while True:
            n2 = rng.choice(catalog.names())
            core2 = catalog.ENTRIES[n2].native and rng.random() < 0.5
            o = small(rng, n2)
            if n2 not in SLOW and not catalog.may_hang(o, core2) and repeatable(o, core2):
                break
        other = [o, core2]
    return dict(call=c, ccore=ccore, aborts=aborts, other=other, forms=catalog.choose_forms(rng, c) if rng.random() < 0.4 else {}, reuse=rng.random() < 0.5, fresh=rng.random() < 0.5, seed=rng.randrange(1 << 31),
                cfg=dict(native.schedule(rng, light=True)), cores=rng.choice([1, 2, 3]))


def objects(c, hook=None):
    inp = catalog.build(c['call'], hook, c['forms'])
    random.seed(c['seed'])                      # parameters objects draw some of their defaults
    q = catalog.parameters(c['call'])
    if q is not None:
        inp['parameters'] = q
    return inp


def state(inp):
    """What the caller can see of the objects passed in."""
    out = {}
    for k in sorted(inp):
        v = inp[k]
        if k == 'parameters':
            out[k] = sorted((n, repr(x)) for n, x in vars(v).items())
        elif k == 'metric':
            a, b = [1.5, 2.5, 3.5], [2.5, 4.5, 1.0]
            n = len(v.get_arguments().get('max_range', a)) if v.get_arguments() else 3
            try:
                d = repr(float(v(a[:n], b[:n])))
            except catalog.Injected:
                raise
            except Exception as e:          # noqa
                d = 'raises %s' % type(e).__name__
            out[k] = [d, repr(v.get_type()), sorted((n, repr(x)) for n, x in v.get_arguments().items() if n != 'func')]
        elif k == 'observer':
            continue
        else:
            out[k] = kind(v)
    return out


def kind(v):
    if isinstance(v, numpy.ndarray):
        return [str(v.dtype), v.shape, v.tobytes()]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [kind(x) for x in v]
    return [type(v).__name__, repr(v)]


def settings():
    return [numpy.geterr(), repr(numpy.geterrcall()), sorted(numpy.get_printoptions().items(), key=lambda x: x[0]).__repr__(), list(warnings.filters), sys.getrecursionlimit(), sys.gettrace() is None]


def forget_core():
    """As if nothing had used the core yet."""
    from pyclustering.core.wrapper import ccore_library as lib
    for k, v in zip(native._STATE, (None, False, False)):
        if not hasattr(lib, k):
            return False
        setattr(lib, k, v)
    return True


_quiet = {}


def quiet(name):
    """Lines where the call is already putting things back: leaving a with statement, finally blocks. No code can survive an
    interrupt before the first of these instructions."""
    if name not in _quiet:
        out = set()
        try:
            with open(name) as s:
                tree = ast.parse(s.read())
            for x in ast.walk(tree):
                if isinstance(x, ast.With):
                    out.update(range(x.lineno, x.items[-1].context_expr.end_lineno + 1))
                elif isinstance(x, ast.Try) and x.finalbody:
                    out.update(range(x.finalbody[0].lineno, x.finalbody[-1].end_lineno + 1))
        except (OSError, SyntaxError):
            pass
        _quiet[name] = out
    return _quiet[name]


class Counter:
    """Lines of the package executed by a call."""

    def __init__(self, stop=None):
        self.order, self.n, self.stop = [], 0, stop
        self.hit = None

    def __call__(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(catalog.LIBRARY):
            return None
        f = frame
        for _ in range(6):
            if f is None:
                break
            if f.f_code.co_name == '__del__':   # the interpreter drops exceptions of destructors
                return None
            if f is not frame and f.f_code.co_filename.startswith(catalog.LIBRARY) and f.f_lineno in quiet(f.f_code.co_filename):
                return None
            f = f.f_back
        return self.local

    def local(self, frame, event, arg):
        if event == 'line' and frame.f_lineno not in quiet(frame.f_code.co_filename):
            self.n += 1
            if self.stop is None:
                if self.n > LIMIT:
                    raise TooLong()
                self.order.append((frame.f_code.co_filename, frame.f_lineno))
            elif self.n == self.stop:
                self.hit = (frame.f_code.co_filename[len(catalog.LIBRARY):], frame.f_lineno)
                raise Interrupt()
        return self.local


def make_call(c, case, ccore, inp, tracer=None):
    random.seed(c['seed'])
    numpy.random.seed(c['seed'])
    with pyrand.Entropy(c['seed']):
        if tracer:
            sys.settrace(tracer)
        try:
            return catalog.execute(case, inp, ccore)
        finally:
            sys.settrace(None)


OBSERVERS = {'kmeans': ('pyclustering.cluster.kmeans', 'kmeans_observer', ['notify']), 'ema': ('pyclustering.cluster.ema', 'ema_observer', ['notify']),
             'ga': ('pyclustering.cluster.ga', 'ga_observer', ['collect_global_best', 'collect_population_best', 'collect_mean'])}


class Raiser:
    """Fails at the k-th call."""

    def __init__(self, k=None):
        self.n, self.k, self.error = 0, k, None

    def __call__(self):
        self.n += 1
        if self.n == self.k:
            self.error = catalog.Injected('k-th call')
            raise self.error


def observer(case, raiser):
    mod, name, methods = OBSERVERS[case['alg']]
    base = getattr(__import__(mod, fromlist=['x']), name)

    def wrap(m):
        def f(self, *a, **kw):
            raiser()
            return getattr(base, m)(self, *a, **kw)
        return f
    cls = type('user_observer', (base,), {m: wrap(m) for m in methods})
    return cls(True, True, True) if name == 'ga_observer' else cls()


def run(env, c):
    case, ccore = c['call'], c['ccore']
    nat = env.core(c['cores'])
    serial = dict(c['cfg'], max_ops=400000000)
    what = '%s (%s)' % (case['alg'], 'native' if ccore else 'Python')
    # the results nobody interfered with; lines and user calls are counted
    count, users = Counter(), Raiser()
    inp = objects(c, users)
    watched = case['alg'] in OBSERVERS and case['p'].get('observe')
    if watched:
        inp['observer'] = observer(case, users)
    before = state(inp)
    with env.session(nat, serial, main=False):
        calls = users.n
        loaded = forget_core() if ccore and c['fresh'] else False
        try:
            expected = make_call(c, case, ccore, inp, count)
        except TooLong:
            env.count('calls too long to be interrupted')
            inp = None
            gc.collect(0)
            return
        calls = users.n - calls
        other = make_call(c, c['other'][0], c['other'][1], catalog.build(c['other'][0])) if c['other'] else None
        gc.collect(0)
    if state(inp) != before:
        raise Violation('input modified', '%s: a completed call changes its input: %s' % (what, changed(before, state(inp))))
    if 'parameters' in inp:
        env.probe(PROBES[9])
    if c['forms']:
        env.probe(PROBES[6])
    inp = None
    if not count.order:
        return
    ref = settings()
    lines = {}
    for i, x in enumerate(count.order):
        lines.setdefault(x, []).append(i)
    places = sorted(lines)
    fired = 0
    with env.session(nat, serial):
        inp = None
        for n, (how, f1, f2) in enumerate(c['aborts']):
            user = None
            tracer = None
            if how == 'user' and calls:
                user = Raiser(1 + int(f1 * calls))
            elif how == 'line':
                occ = lines[places[int(f1 * len(places))]]
                tracer = Counter(1 + occ[int(f2 * len(occ))])
            else:
                tracer = Counter(1 + int(f1 * len(count.order)))
            if inp is None or not c['reuse']:
                hook = Raiser()
                inp = objects(c, hook)
                if watched:
                    inp['observer'] = observer(case, hook)
                before = state(inp)
            hook.n, hook.k = 0, user.k if user else None
            if ccore and c['fresh']:
                forget_core()
            swallowed = None
            try:
                swallowed = make_call(c, case, ccore, inp, tracer)
                hit = tracer.hit is not None if tracer else hook.error is not None
            except (Interrupt, catalog.Injected) as e:
                hit = True
                if user and e is not hook.error:
                    raise Violation('exception', '%s: another exception object reaches the caller' % what)
                e.__traceback__ = None
                swallowed = False
            except BaseException as e:      # noqa
                if not isinstance(e, Violation) and not (e.__context__ is not None and isinstance(root(e), (Interrupt, catalog.Injected))) and not through(e):
                    raise
                raise Violation('exception', '%s interrupted at %s: %s reaches the caller instead of the interrupt' % (what, place(tracer, user), type(e).__name__))
            hook.k, hook.error = None, None
            where = place(tracer, user)
            if hit and swallowed is not False:
                raise Violation('exception lost', '%s, abort at %s: the exception does not reach the caller, the call returns' % (what, where))
            if hit:
                fired += 1
                if user:
                    env.probe(PROBES[4 if watched else 3])
                    env.fault('exception from a user callback')
                else:
                    env.fault('interrupt')
                    env.probe(PROBES[2 if tracer.hit[0] == 'core/wrapper.py' else 1 if tracer.hit[0].startswith('core') else 0])
                    env.note([case['alg'], ccore, tracer.hit])
            gc.collect(0)
            after = state(inp)
            if after != before:
                raise Violation('input modified', '%s, abort at %s: %s' % (what, where, changed(before, after)))
            now = settings()
            if now != ref:
                raise Violation('settings', '%s, abort at %s: global settings differ: %s' % (what, where, [x for x in zip(ref, now) if x[0] != x[1]]))
        # later calls
        if c['other']:
            r = make_call(c, c['other'][0], c['other'][1], catalog.build(c['other'][0]))
            d = catalog.difference(other, r)
            if d:
                raise Violation('later call', 'after %s was aborted at %s, %s returns something else: %s' % (what, where, c['other'][0]['alg'], d))
            env.probe(PROBES[8])
        again = [('with new objects', objects(c))]
        if watched:
            again[0][1]['observer'] = observer(case, Raiser())
        if c['reuse']:
            if watched:
                inp['observer'] = observer(case, Raiser())
            again.append(('with the same objects', inp))
            env.probe(PROBES[7])
        for how, obj in again:
            if ccore:
                from pyclustering.core.wrapper import ccore_library
                if not ccore_library.workable():
                    raise Violation('later call', 'after %s was aborted at %s the core is not usable any more' % (what, where))
            d = catalog.difference(expected, make_call(c, case, ccore, obj))
            if d:
                raise Violation('later call', 'after %s was aborted at %s, the same call %s returns something else: %s' % (what, where, how, d))
        again = obj = inp = hook = user = None
        gc.collect(0)
    if fired > 1:
        env.probe(PROBES[5])
    env.count('calls of ' + case['alg'])


def root(e):
    while e.__context__ is not None:
        e = e.__context__
    return e


def through(e):
    return catalog.through_library(e)


def place(tracer, user):
    if user is not None:
        return 'call %d of the user callback' % user.k
    return '%s:%d' % tracer.hit if tracer.hit else 'line event %d' % tracer.stop


def changed(a, b):
    for k in a:
        if a[k] != b.get(k):
            return '%s changed from %.150r to %.150r' % (k, a[k], b.get(k))
    return 'objects appeared'


def shrink(c):
    for i in range(len(c['aborts'])):
        if len(c['aborts']) > 1:
            yield dict(c, aborts=c['aborts'][:i] + c['aborts'][i + 1:])
    if c['other']:
        yield dict(c, other=None)
    if c['forms']:
        yield dict(c, forms={})
        for k in c['forms']:
            yield dict(c, forms={x: y for x, y in c['forms'].items() if x != k})
    if c['reuse']:
        yield dict(c, reuse=False)
    if c['fresh']:
        yield dict(c, fresh=False)
    for x in catalog.shrink(c['call']):
        yield dict(c, call=x)
    if c['cores'] != 2:
        yield dict(c, cores=2)
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
