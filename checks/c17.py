"""C17: reading samples, graphs, answers and images from a failing storage."""
import glob
import io
import math
import os
import random
import struct

import numpy

from simlib import disk, native
from simlib.frame import REPO, Violation

ID = 'C17'
PLAN = {'quick': (400000, 40), 'thorough': (20000000, 700)}
RULE = ('A case is a file - sample, graph (matrix, vertices or edges), answer or image, generated with any layout (line ends, blank lines, separators, no end of the last line, text of several bytes per character) or bundled with the '
        'package - and a history of reads of it, in one or several interpreter threads, over a storage that splits reads into given pieces and fails opening, any read or closing (I/O error, stale handle, no memory, too many '
        'files, interruption by the user), any number of times, or the file has a damaged byte or (images) was cut short. Counted as distinct: files and histories with the faults that were met.')
REAL = ['read_sample, read_graph, answer_reader, read_image', 'text and buffer layers of Python, Pillow']
STUB = ['storage (open, read, close): pieces, errors, interruptions', 'thread scheduling of the interpreter (line events)']
PROBES = ['sample', 'graph', 'answer', 'image', 'bundled file', 'short read', 'error at open', 'error at read', 'error at the first read', 'error after some reads', 'error at close', 'interrupted call', 'user interruption', 'no memory',
          'reported', 'complete after a failure', 'several failures in a row', 'answer asked again after a failure', 'several threads', 'character split', 'line split', 'more than one buffer', 'no content', 'no end of last line', 'other line ends', 'damaged byte', 'image cut short', 'large file']


# ---- files --------------------------------------------------------------------------------------------------------
def number(rng, kind):
    if kind == 'int':
        return rng.randrange(-50, 1000)
    x = rng.choice([rng.uniform(-10, 10), rng.uniform(0, 1e6), rng.gauss(0, 1) * 10 ** rng.randrange(-12, 12), rng.randrange(10)])
    return rng.choice([math.inf, -0.0, 5e-324, 1e308]) if kind == 'odd' and rng.random() < 0.2 else x


def write(rng, x):
    r = rng.random()
    return repr(x) if r < 0.7 else '%.6e' % x if r < 0.85 else '%g' % x if r < 0.95 else '+' + repr(x) if x >= 0 and not str(x).startswith('-') else repr(x)


class Layout:
    def __init__(self, rng):
        self.rng, self.end = rng, rng.choice(['\n', '\n', '\r\n', '\r'])
        self.separator = rng.choice([' ', '\t', '  ', ' \t '])
        self.blank = rng.choice([0, 0, 0.1, 0.4])
        self.pad = rng.random() < 0.2

    def row(self, words, prefix=''):
        s = prefix + self.separator.join(words)
        return s + self.rng.choice([' ', '\t', '  ']) if self.pad else s

    def text(self, lines, blanks=True):
        out = []
        for x in lines:
            while blanks and self.rng.random() < self.blank:
                out.append(self.rng.choice(['', '', '  ', '\t']))
            out.append(x)
        s = self.end.join(out)
        last = self.rng.random() < 0.3
        return s if last or not out else s + self.end


def sample_file(rng, big):
    lay, kind = Layout(rng), rng.choice(['float', 'float', 'int', 'odd'])
    n, d = rng.choice([0, 1, 2, 5, 12, 40]) if not big else rng.choice([300, 900]) if big < 2 else 4000, rng.choice([1, 2, 3, 8])
    rows = [[write(rng, number(rng, kind)) for _ in range(d)] for _ in range(n)]
    return lay.text([lay.row(r, rng.choice(['', '', ' '])) for r in rows]), [[float(v) for v in r] for r in rows]


def graph_file(rng, big):
    lay, kind = Layout(rng), rng.choice('mve')
    n = rng.choice([1, 2, 3, 5, 9]) if not big else rng.choice([30, 60]) if big < 2 else 260
    if kind == 'e':
        n = max(2, n)
    lines, comments, data = [], '', []
    for _ in range(rng.choice([0, 0, 1, 3, 12 if big else 4])):
        text = rng.choice([' a graph', '', ' of %d vertices' % n, ' граф из вершин', ' r 1 2', ' \U0001d54fé', ' m 0 1 0'])
        comments += text + '\n'
        lines.append((0, rng.choice('cp') + text))
    space = [[float(v) for v in (write(rng, number(rng, 'float')), write(rng, number(rng, 'float')))] for _ in range(n)] if rng.random() < 0.5 else []
    for p in space:
        lines.append((1, lay.row([repr(v) for v in p], 'r ')))
    if kind == 'm':
        data = [[float(rng.randrange(2)) for _ in range(n)] for _ in range(n)]
        lines += [(2, lay.row([str(int(v)) for v in r], 'm ')) for r in data]
    elif kind == 'v':
        data = [sorted(float(x) for x in rng.sample(range(n), rng.randrange(n))) for _ in range(n)]
        lines += [(2, lay.row([str(int(v)) for v in r], 'v ')) for r in data]
    else:
        edges = [(i, rng.randrange(1, i)) for i in range(2, n + 1)] + [(rng.randrange(1, n + 1), rng.randrange(1, n + 1)) for _ in range(rng.randrange(n))]
        rng.shuffle(edges)
        data = [[0] * n for _ in range(n)]
        for a, b in edges:
            data[a - 1][b - 1] = data[b - 1][a - 1] = 1
        lines += [(2, lay.row([str(a), str(b)], 'e ')) for a, b in edges]
    if rng.random() < 0.3:                                   # rows of different meaning in any order
        keys = [rng.random() for _ in lines]
        order = sorted(keys)
        groups = {g: [x for x in lines if x[0] == g] for g in (0, 1, 2)}
        mixed = [g for g, _ in lines]
        rng.shuffle(mixed)
        lines = [groups[g].pop(0) for g in mixed]
        del order
    text = lay.text([x for _, x in lines])
    if comments and not text.endswith(lay.end) and lines[-1][0] == 0:
        comments = comments[:-1]
    return text, [2 if kind == 'v' else 1, data, space or None, comments]


def answer_file(rng, big):
    lay = Layout(rng)
    n = rng.choice([0, 1, 3, 10, 40]) if not big else rng.choice([2000, 5000]) if big < 2 else 60000
    clusters, noise, lines = [], [], []
    for i in range(n):
        if rng.random() < 0.2:
            noise.append(i)
            lines.append(rng.choice(['n', 'n', 'noise']))
            continue
        k = rng.randrange(len(clusters) + 1) if len(clusters) < 6 else rng.randrange(6)
        if k == len(clusters):
            clusters.append([])
        clusters[k].append(i)
        lines.append(lay.row([str(k)]))
    return lay.text(lines, False), [clusters, noise]


def image_file(rng, big):
    from PIL import Image
    w, h = rng.choice([1, 2, 5, 16]), rng.choice([1, 2, 3, 12])
    if big:
        w, h = rng.choice([40, 120]), 60 if big < 2 else 400
    kind = rng.choice(['BMP', 'BMP', 'PNG', 'PPM', 'TIFF', 'TGA'])
    bands = 4 if kind == 'PNG' and rng.random() < 0.4 else 3
    pixels = [tuple(rng.randrange(256) for _ in range(bands)) for _ in range(w * h)]
    image = Image.new('RGBA' if bands == 4 else 'RGB', (w, h))
    image.putdata(pixels)
    out = io.BytesIO()
    image.save(out, kind)
    return out.getvalue(), [list(p) for p in pixels]


BUNDLED = {}


def bundled(kind):
    if kind not in BUNDLED:
        base = os.path.join(REPO, 'pyclustering', 'samples')
        found = {'graph': sorted(glob.glob(base + '/graphs/*.grpr')), 'image': sorted(glob.glob(base + '/images/digits/*.png'))}
        files = sorted(glob.glob(base + '/samples/*/*'))
        found['sample'] = [f for f in files if f.endswith(('.data', '.txt'))]
        found['answer'] = [f for f in files if f.endswith('.answer')]
        BUNDLED[kind] = [f for f in found[kind] if os.path.getsize(f) < 60000]
    return BUNDLED[kind]


def parse(kind, text):
    """What a bundled text file contains."""
    lines = text.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    if kind == 'sample':
        return [[float(v) for v in x.split()] for x in lines if x.strip()]
    if kind == 'answer':
        clusters, noise = [], []
        for i, x in enumerate(lines[:-1] if not lines[-1] else lines):
            if x[0] == 'n':
                noise.append(i)
            elif int(x) >= len(clusters):
                clusters.append([i])
            else:
                clusters[int(x)].append(i)
        return [clusters, noise]
    rows = {k: [x[1:] for x in lines if x and x[0] in k] for k in ('cp', 'r', 'm', 'v', 'e')}
    whole = lines if lines[-1] == '' else None
    comments = ''.join(x[1:] + '\n' for x in lines if x and x[0] in 'cp')
    if whole is None and lines[-1][:1] in ('c', 'p'):
        comments = comments[:-1]
    space = [[float(v) for v in x.split()] for x in rows['r']]
    if rows['e']:
        edges = [[int(v) for v in x.split()] for x in rows['e']]
        n = len({v for e in edges for v in e[:2]})
        data = [[0] * n for _ in range(n)]
        for a, b in edges:
            data[a - 1][b - 1] = data[b - 1][a - 1] = 1
    else:
        data = [[float(v) for v in x.split()] for x in rows['m'] or rows['v']]
    return [2 if rows['v'] else 1, data, space or None, comments]


# ---- cases --------------------------------------------------------------------------------------------------------
def make(rng, index, tier):
    kind = rng.choice(['sample', 'sample', 'graph', 'graph', 'answer', 'answer', 'answer', 'image'])
    c = dict(kind=kind, seed=rng.randrange(1 << 31), big=rng.choice([1, 1, 1, 1, 1, 1, 1, 2]) if rng.random() < 0.04 else 0, bundled=-1, numpy=kind == 'sample' and rng.random() < 0.3)
    if index % 25 == 3 and bundled(kind):
        c['bundled'] = rng.randrange(len(bundled(kind)))
    c['pieces'] = rng.choice([[1 << 20]] * 2 + [[1], [2], [3, 1], [7], [64], [512, 1], [1 << 20, 1]] + [[rng.randrange(1, 40) for _ in range(5)]])
    if c['big'] or c['bundled'] >= 0 or kind == 'image':
        c['pieces'] = [max(16, p) if p < 16 and rng.random() < 0.9 else p for p in c['pieces']]
    c['buffer'] = rng.choice([None, None, 16, 100])
    if c['big'] > 1:
        c['pieces'], c['buffer'] = rng.choice([[1 << 20], [4096, 1], [65536], [1 << 20, 7]]), None
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 5])):
        r = rng.random()
        if r < 0.25:
            faults.append(['open', rng.randrange(1, 5), rng.choice(disk.OPEN)])
        elif r < 0.85:
            faults.append(['read', rng.choice([1, 1, 2, 2, 3, 4, rng.randrange(1, 12), rng.randrange(1, 60), rng.randrange(1, 400)]), rng.choice(disk.READ + ['EIO', 'EIO', 'EINTR'])])
        else:
            faults.append(['close', rng.randrange(1, 4), 'EIO'])
    c['faults'] = faults
    c['calls'] = [rng.choice(['clusters', 'noise', 'lengths']) if kind == 'answer' else 'read' for _ in range(rng.choice([1, 2, 3, 4, 6]))]
    c['threads'] = 0
    if kind != 'image' and rng.random() < 0.12:
        c['threads'] = rng.choice([2, 2, 3])
        c['cfg'] = native.schedule(rng, light=True)
        c['cfg']['py_hot_permille'] = 0
        c['shared'] = rng.random() < 0.8
        c['pieces'] = [max(64, p) for p in c['pieces']]
        c['calls'] = c['calls'][:3]
        c['big'] = 0
    c['rot'] = [rng.random(), rng.random() < 0.5] if rng.random() < 0.06 else None
    return c


def content(c):
    rng = random.Random(c['seed'])
    if c['bundled'] >= 0:
        path = bundled(c['kind'])[c['bundled']]
        with open(path, 'rb') as s:
            data = s.read()
        if c['kind'] == 'image':
            from PIL import Image
            with Image.open(io.BytesIO(data)) as image:
                raw = image.tobytes()
                bands = len(image.getbands())
            if bands < 2:
                return data, None
            return data, [list(raw[i:i + bands]) for i in range(0, len(raw), bands)]
        return data, parse(c['kind'], data.decode('utf-8'))
    data, expected = {'sample': sample_file, 'graph': graph_file, 'answer': answer_file, 'image': image_file}[c['kind']](rng, c['big'])
    return data if isinstance(data, bytes) else data.encode('utf-8'), expected


def calls(c, path, expected):
    """[(name, function, what it has to return)], for every new reader."""
    if c['kind'] == 'sample':
        from pyclustering.utils import read_sample
        if c['numpy']:
            return lambda: {'read': (lambda: read_sample(path, return_type='numpy'), expected)}
        return lambda: {'read': (lambda: read_sample(path), expected)}
    if c['kind'] == 'graph':
        from pyclustering.utils.graph import read_graph

        def graph():
            g = read_graph(path)
            return [int(g.type_graph_descr), g.data, g.space_description, g.comments]
        return lambda: {'read': (graph, expected)}
    if c['kind'] == 'image':
        from pyclustering.utils import read_image
        return lambda: {'read': (lambda: read_image(path), expected)}
    from pyclustering.samples import answer_reader

    def answers():
        r = answer_reader(path)
        if expected is None:
            return {'clusters': (r.get_clusters, None), 'noise': (r.get_noise, None), 'lengths': (r.get_cluster_lengths, None)}
        return {'clusters': (r.get_clusters, expected[0]), 'noise': (r.get_noise, expected[1]), 'lengths': (r.get_cluster_lengths, [len(x) for x in expected[0]])}
    return answers


def plain(x):
    if isinstance(x, numpy.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    return x


def short(x):
    return '%.80r' % (x,)


def judge(what, value, expected, text):
    got = plain(value)
    if expected is None:
        raise Violation('damage not reported', '%s of a file with a damaged byte returned %s: %s' % (what, short(got), text))
    if got != expected:
        n = ' (%d of %d items)' % (len(got), len(expected)) if isinstance(got, list) and len(got) != len(expected) else ''
        raise Violation('wrong content', '%s returned %s instead of %s%s: %s' % (what, short(got), short(expected), n, text))


def attempt(fn):
    try:
        return True, fn()
    except (Exception, KeyboardInterrupt) as e:         # noqa
        return False, '%s: %s' % (type(e).__name__, e)


def run(env, c):
    data, expected = content(c)
    if expected is None:
        return
    if c['rot'] and data:
        i = int(c['rot'][0] * len(data))
        if c['kind'] == 'image':
            data = data[:i]
            env.probe('image cut short')
            env.fault('image cut short')
        else:
            data = data[:i] + (b'\0' if c['rot'][1] and c['kind'] == 'sample' else b'\xff') + data[i + 1:]
            env.probe('damaged byte')
            env.fault('damaged byte')
            expected = None
    path = os.path.join(env.scratch, 'file.' + c['kind'])
    with open(path, 'wb') as s:
        s.write(data)
    env.probe(c['kind'])
    if c['bundled'] >= 0:
        env.probe('bundled file')
    if not data:
        env.probe('no content')
    if len(data) > 8192:
        env.probe('more than one buffer')
    if len(data) > 1 << 16:
        env.probe('large file')
    if c['kind'] != 'image':
        if data and data[-1] not in b'\r\n':
            env.probe('no end of last line')
        if b'\r' in data:
            env.probe('other line ends')
    d = disk.Disk({os.path.abspath(path): data}, c['pieces'], c['faults'], c['buffer'])
    new = calls(c, path, expected)
    env.core(2)
    history = []
    with d:
        if c['threads']:
            threads(env, c, d, new, history)
        else:
            one(env, c, d, new, history)
    for op, n, e in d.fired:
        env.fault('%s at %s' % (e, op))
        env.probe('error at ' + op if e not in ('EINTR', 'keyboard', 'memory') else {'EINTR': 'interrupted call', 'keyboard': 'user interruption', 'memory': 'no memory'}[e])
        if op == 'read':
            env.probe('error at the first read' if n == 1 else 'error after some reads')
    if d.short:
        env.probe('short read')
        env.fault('short read', d.short)
        if c['pieces'] == [1] and any(b > 127 for b in data) and c['kind'] == 'graph':
            env.probe('character split')
        if c['kind'] != 'image' and min(c['pieces']) < 8:
            env.probe('line split')
    env.note([c['kind'], len(data), c['seed'] % 1000, d.fired, history, c['pieces']])


def one(env, c, d, new, history):
    table = new()
    failed = 0
    for i, name in enumerate(c['calls'] + ['last']):
        last = name == 'last'
        if last:                            # the faults stop
            d.healed = True
            name = c['calls'][-1]
        before = len(d.fired)
        ok, r = attempt(table[name][0])
        fired = [f for f in d.fired[before:] if f[2] != 'EINTR']
        text = '%s, %d bytes, call %d of %s, %s' % (c['kind'], len(next(iter(d.files.values()))), i + 1, c['calls'], 'after ' + ', '.join('%s at %s %d' % (e, o, n) for o, n, e in d.fired) if d.fired else 'no fault')
        if ok:
            judge(name, r, table[name][1], text)
            if d.held:
                raise Violation('handle left open', '%d handles are open after %s: %s' % (len(d.held), name, text))
            history.append(name)
            if failed:
                env.probe('complete after a failure')
                if c['kind'] == 'answer':
                    env.probe('answer asked again after a failure')
            failed = 0
        else:
            if not fired and not c['rot']:
                raise Violation('cannot be read', '%s raised %s: %s' % (name, r, text))
            if d.held:
                raise Violation('handle left open', '%d handles are open after %s failed (%s): %s' % (len(d.held), name, r, text))
            env.probe('reported')
            failed += 1
            if failed > 1:
                env.probe('several failures in a row')
            history.append('failed')
        del r


def threads(env, c, d, new, history):
    env.probe('several threads')
    nat = env.native(2)
    shared = new()
    tables = [shared if c['shared'] else new() for _ in range(c['threads'])]

    def body(table, order):
        return [(name,) + attempt(table[name][0]) for name in order]
    orders = [c['calls'][k % len(c['calls']):] + c['calls'][:k % len(c['calls'])] for k in range(c['threads'])]
    prefix = os.path.join(REPO, 'pyclustering') + os.sep
    with env.session(nat, dict(c['cfg'], max_ops=400000000)):
        out = native.PyThreads(nat, prefix).run([lambda t=t, o=o: body(t, o) for t, o in zip(tables, orders)])
    text = '%s, %d threads%s, %s, %s' % (c['kind'], c['threads'], ' with one reader' if c['shared'] else '', c['calls'], 'after ' + ', '.join('%s at %s %d' % (e, o, n) for o, n, e in d.fired) if d.fired else 'no fault')
    errors = 0
    for table, (ok, results) in zip(tables, out):
        if not ok:
            raise results
        for name, fine, r in results:
            if fine:
                judge(name + ' in a thread', r, table[name][1], text)
            else:
                errors += 1
                if not [f for f in d.fired if f[2] != 'EINTR'] and not c['rot']:
                    raise Violation('cannot be read', '%s in a thread raised %s: %s' % (name, r, text))
            history.append(name if fine else 'failed')
    if errors > len([f for f in d.fired if f[2] != 'EINTR']) and not c['rot']:
        raise Violation('cannot be read', '%d calls failed: %s' % (errors, text))
    del out
    if d.held:
        raise Violation('handle left open', '%d handles are open after all calls: %s' % (len(d.held), text))
    d.healed = True
    for table in tables:
        for name in table:
            ok, r = attempt(table[name][0])
            if not ok and c['rot']:
                continue
            if not ok:
                raise Violation('cannot be read', '%s raised %s afterwards: %s' % (name, r, text))
            judge(name + ' afterwards', r, table[name][1], text)


def shrink(c):
    if c['threads'] > 2:
        yield dict(c, threads=2)
    for i in range(len(c['faults'])):
        yield dict(c, faults=c['faults'][:i] + c['faults'][i + 1:])
    for i in range(len(c['calls'])):
        if len(c['calls']) > 1:
            yield dict(c, calls=c['calls'][:i] + c['calls'][i + 1:])
    if c['big']:
        yield dict(c, big=0)
    if c['pieces'] != [1 << 20]:
        yield dict(c, pieces=[1 << 20])
    if c['rot']:
        yield dict(c, rot=None)
    if c['buffer']:
        yield dict(c, buffer=None)
    if c['bundled'] >= 0:
        yield dict(c, bundled=-1)
    for s in range(4):
        if c['seed'] > 3:
            yield dict(c, seed=s)
