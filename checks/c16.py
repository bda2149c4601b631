"""C16: storing and reading back dynamics of the Hodgkin-Huxley network on a failing disk."""
import ctypes
import math
import os

from simlib import native, wl
from simlib.frame import Violation

ID = 'C16'
PLAN = {'quick': (200000, 40), 'thorough': (10000000, 700)}
RULE = ('A case is the dynamics of a network (stored step by step with chosen values or simulated; any set of collections), written by the stream operator or the interface, under faults of write (short, interrupted, I/O error, '
        'full disk once or for good) and then a crash (file cut after any byte, or with zeros instead of its last bytes or of a lost block), read back under faults of read (short, interrupted, I/O error) or of memory, once or '
        'twice. Counted as distinct: inputs with the fault that was met.')
REAL = ['hhn_dynamic, its output operator, hhn_dynamic_reader, the interface functions, hhn_network', 'file streams of the C++ library, the file system of a scratch folder']
STUB = ['system calls read, write, writev (faults)', 'crash: the file loses its tail before it is read', 'heap (refusals)']
WRITE = {0: None, 1: 'disk full once', 2: 'disk full', 3: 'short write, then disk full', 4: 'write error', 5: 'short writes', 6: 'write interrupted'}
READ = {0: None, 1: 'read error', 2: 'short reads', 3: 'read interrupted'}
TRANSPARENT = (0, 5, 6)
PROBES = [w for w in WRITE.values() if w] + [r for r in READ.values() if r] + ['cut', 'cut in a header', 'cut in a row', 'cut after a row', 'cut in the last row', 'zeros at the end', 'block lost', 'no file', 'memory refused', 'reported', 'read back',
                                                                              'more than one buffer', 'simulated', 'no collection', 'no steps', 'read again with the same reader', 'special values', 'stored over an older file']

Job = type('HhnJob', (ctypes.Structure,), {'_fields_': [(f, ctypes.c_int64) for f in ('neurons', 'rows', 'mask', 'simulate', 'solver', 'interface_', 'extra_disable')] + [('time', ctypes.c_double)]})
Read = wl.struct('HhnRead', ['interface_', 'again'])
Result = wl.struct('HhnResult', ['status', 'count', 'status2', 'count2', 'leaked'])
SPECIAL = [0.0, -0.0, 1.0, -1.0, 100000.0, 1e6, 123456.5, 1234567.0, 1e-5, 1e300, -1e-300, 4e-310, 5e-324, 1.7976931348623157e308, math.inf, -math.inf, math.nan, 0.1, 999999.5]


def make(rng, index, tier):
    c = dict(neurons=rng.choice([1, 1, 2, 3, 5, 8, 0]), rows=rng.choice([0, 1, 1, 2, 3, 5, 10, 25]), mask=rng.choice([1, 1, 15, 15, rng.randrange(16)]), interface=rng.random() < 0.5, cores=rng.choice([1, 2, 3]),
             cfg=native.schedule(rng, light=True), simulate=rng.random() < 0.08, solver=rng.randrange(2), time=rng.choice([1.0, 5.0]), values_seed=rng.randrange(1 << 30), special=rng.choice([0, 0, 0, 5, 60]), extra=0)
    if index % 60 == 7:
        c['rows'], c['neurons'], c['mask'] = rng.choice([60, 150]), rng.choice([5, 20]), 15
    if c['simulate']:
        c['rows'] = rng.choice([1, 2, 5, 10])
        c['neurons'] = max(1, c['neurons'])
        if c['mask'] & (c['mask'] - 1) and rng.random() < 0.2:
            c['extra'] = c['mask'] & -c['mask']
    c['write'] = [rng.choice([1, 2, 3, 4, 5, 6]), rng.choice([1, 1, 1, 2, 3])] if rng.random() < 0.35 else [0, 0]
    r = rng.random()
    c['crash'] = ['cut', rng.random()] if r < 0.3 else ['cut near the end', rng.choice([1, 2, 3, 4, rng.randrange(1, 60)])] if r < 0.5 else ['cut at line', rng.random(), rng.choice([0, 0, 1, -1])] if r < 0.6 else \
        ['zeros', rng.random()] if r < 0.67 else ['block', rng.random(), rng.choice([1, 2, 8, 64, 512])] if r < 0.72 else ['missing'] if r < 0.725 else None
    c['read'] = [rng.choice([1, 2, 3]), rng.choice([1, 1, 1, 2, 3])] if rng.random() < 0.3 else [0, 0]
    c['memory'] = [rng.random(), rng.choice([1, 1, 5, 1 << 30])] if rng.random() < 0.12 else None
    c['existing'] = rng.choice([1, 3, 12, 40]) if rng.random() < 0.25 else 0       # steps of older dynamics in the file
    c['again'] = rng.choice([0, 0, 1, 2])
    c['read_interface'] = rng.random() < 0.3
    return c


def values(c):
    import random
    rng = random.Random(c['values_seed'])
    n = c['neurons'] if c['simulate'] else c['rows'] * (1 + 4 * (c['neurons'] + 2))
    if c['simulate']:
        return [rng.choice([10.0, 20.0, 40.0]) for _ in range(n)]
    return [rng.choice(SPECIAL) if rng.randrange(100) < c['special'] else round(rng.uniform(-90, 60), rng.choice([0, 1, 3, 9])) for _ in range(n)]


def stored(x):
    return float('%.6g' % x)


def equal(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def mangle(env, c, path):
    """The crash; returns what is lost."""
    k = c['crash']
    if k is None or not os.path.exists(path):
        return None
    with open(path, 'rb') as s:
        data = s.read()
    if k[0] == 'missing':
        os.unlink(path)
        env.probe('no file')
        env.fault('file lost')
        return 'no file'
    if not data:
        return None
    n = len(data)
    if k[0] in ('cut', 'zeros', 'block'):
        at = int(k[1] * n)
    elif k[0] == 'cut near the end':
        at = max(0, n - k[1])
    else:
        ends = [i + 1 for i, b in enumerate(data) if b == 10]
        at = min(n, max(0, ends[int(k[1] * len(ends))] + k[2])) if ends else 0
    if k[0] == 'zeros':
        new = data[:at] + bytes(n - at)
        env.probe('zeros at the end')
        env.fault('crash: last bytes never written')
        text = 'zeros from byte %d of %d' % (at, n)
    elif k[0] == 'block':
        new = data[:at] + bytes(min(k[2], n - at)) + data[at + k[2]:]
        env.probe('block lost')
        env.fault('crash: block never written')
        text = '%d zeros at byte %d of %d' % (min(k[2], n - at), at, n)
    else:
        new = data[:at]
        text = 'cut after byte %d of %d' % (at, n)
        lines = data[:at].count(b'\n')
        env.probe('cut')
        env.fault('crash: file cut')
        if at == n:
            return None
        env.probe('cut in a header' if lines < 2 else 'cut after a row' if at and data[at - 1] == 10 else 'cut in the last row' if lines == data.count(b'\n') - 1 else 'cut in a row')
    if new == data:
        return None
    with open(path, 'wb') as s:
        s.write(new)
    return text


def run(env, c):
    nat = env.native(c['cores'])
    path = os.path.join(env.scratch, 'dynamics')
    if os.path.exists(path):
        os.unlink(path)
    job = wl.make(Job, neurons=c['neurons'], rows=c['rows'], mask=c['mask'], simulate=int(c['simulate']), solver=c['solver'], interface_=int(c['interface']), extra_disable=c['extra'], time=c['time'])
    vals = values(c)
    cap = 16 + (c['rows'] + 2) * (1 + 4 * (c['neurons'] + 2))
    out, out2, original, status = (ctypes.c_double * cap)(), (ctypes.c_double * cap)(), (ctypes.c_double * cap)(), ctypes.c_int64()
    nat.lib.wl_hhn_write.restype = ctypes.c_int64
    args = [wl.arr(vals, ctypes.c_double), path.encode(), original, ctypes.c_int64(cap), ctypes.byref(status)]
    cfg = dict(c['cfg'], max_ops=400000000)
    if c['existing']:
        env.probe('stored over an older file')
        old = wl.make(Job, neurons=3, rows=c['existing'], mask=c['mask'] or 1, simulate=0, solver=0, interface_=int(c['interface']), extra_disable=0, time=1.0)
        size = 16 + (c['existing'] + 2) * 21
        with env.session(nat, cfg, main=False) as s:
            nat.lib.wl_hhn_write(ctypes.byref(old), wl.arr([7.25] * size, ctypes.c_double), path.encode(), (ctypes.c_double * size)(), ctypes.c_int64(size), ctypes.byref(status))
    fault, at = c['write']
    with env.session(nat, dict(cfg, write_fault=fault, write_fail_at=at), main=False) as s:
        count = nat.lib.wl_hhn_write(ctypes.byref(job), *args)
    wrote_badly = s.stats['write_faults'] and fault not in TRANSPARENT
    if s.stats['write_faults']:
        env.probe(WRITE[fault])
    if count < 0:
        raise Violation('inconsistent', 'the dynamics to be stored')
    expected = list(original[:3]) + [stored(x) for x in original[3:count]]
    text = ['%d neurons, %d steps, collections %d' % (original[1], original[0], original[2])]
    size = os.path.getsize(path) if os.path.exists(path) else 0
    if size > 8191:
        env.probe('more than one buffer')
    if c['simulate']:
        env.probe('simulated')
    if not original[2]:
        env.probe('no collection')
    if not original[0]:
        env.probe('no steps')
    if c['special'] and not c['simulate']:
        env.probe('special values')
    if s.stats['write_faults']:
        text.append(WRITE[fault] + ' at write %d' % at)
    lost = mangle(env, c, path)
    if lost:
        text.append(lost)
    fault, at = c['read']
    result = Result()
    job = wl.make(Read, interface_=int(c['read_interface']), again=c['again'])
    args = [ctypes.byref(job), path.encode(), out, out2, ctypes.c_int64(cap), ctypes.byref(result)]
    cfg = dict(cfg, read_fault=fault, read_fail_at=at)
    if c['memory']:
        with env.session(nat, dict(cfg, read_fault=0, read_fail_at=0, strategy=native.SERIAL), main=False) as s:
            nat.lib.wl_hhn_read(*args)
        cfg.update(alloc_fail_at=1 + int(c['memory'][0] * max(1, s.stats['allocs'])), alloc_fail_len=c['memory'][1])
    with env.session(nat, cfg) as s:
        nat.lib.wl_hhn_read(*args)
    read_badly = s.stats['read_faults'] and fault == 1
    if s.stats['read_faults']:
        env.probe(READ[fault])
        text.append(READ[fault] + ' at read %d' % at)
    refused = s.stats['alloc_faults']
    if refused:
        env.probe('memory refused')
        text.append('allocation %d refused' % cfg['alloc_fail_at'])
    text = ', '.join(text)
    for which, st, n, o in (('', result.status, result.count, out), (' again', result.status2, result.count2, out2)):
        if st == -1:
            continue
        if which and c['again'] == 1:
            env.probe('read again with the same reader')
        if st == 0:
            env.probe('read back')
            if n < 0 or not equal(list(o[:n]), expected):
                got = list(o[:max(0, n)])
                what = 'neurons, steps or collections are %s' % got[:3] if got[:3] != expected[:3] else 'value %d is %r instead of %r' % next(
                    (i, a, b) for i, (a, b) in enumerate(zip(got + [None] * len(expected), expected + [None] * len(got))) if not (a == b or (a != a and b != b)))
                raise Violation('wrong dynamics', 'read%s without an error, %s: %s' % (which, what, text))
        else:
            env.probe('reported')
            excuse = wrote_badly or lost or read_badly or refused
            if which and c['again'] == 2 and not wrote_badly and not lost and not refused:
                excuse = False                  # the error was not persistent
            if which and read_badly and at > 1:
                excuse = True                   # it may have met the second read only
            if not excuse:
                raise Violation('cannot be read', 'reading%s reports an error: %s' % (which, text))
    if result.leaked > 0 and not refused:
        raise Violation('leak', '%d blocks are still held after reading: %s' % (result.leaked, text))
    env.note([text, result.status, result.status2])


def shrink(c):
    if c['existing']:
        yield dict(c, existing=0)
    for k in ('memory', 'crash'):
        if c[k]:
            yield dict(c, **{k: None})
    for k in ('read', 'write'):
        if c[k][0]:
            yield dict(c, **{k: [0, 0]})
    for k, v in (('again', 0), ('simulate', False), ('interface', False), ('read_interface', False), ('neurons', 1), ('rows', 0), ('rows', 1), ('rows', 2), ('mask', 1), ('special', 0), ('extra', 0)):
        if c[k] != v and not (k == 'simulate' and c['extra']):
            yield dict(c, **{k: v})
    for k in ('rows', 'neurons'):
        if c[k] > 2:
            yield dict(c, **{k: c[k] // 2})
    for cfg in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=cfg)
