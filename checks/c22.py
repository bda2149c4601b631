"""C22: histories of k-d trees."""
import collections
import ctypes
import math

import numpy

from simlib import catalog, native, wl
from simlib.frame import Violation

ID = 'C22'
PLAN = {'quick': (60000, 35), 'thorough': (4000000, 700)}
RULE = ('A case is up to three k-d trees (native, or Python with lists or numpy arrays), points with and without ties, and a history of builds, insertions, removals by point, by payload and by node, look-ups, nearest and radius searches, '
        'groups of searches made by several threads at once, and groups where every thread changes a tree of its own; native operations meet refused memory. Every answer is compared with a linear scan over what the history put into the tree, and '
        'the content of the tree after each change with that. Counted as distinct: different histories of kinds of operations and, for groups, different interleavings.')
REAL = ['pyclustering.container.kdtree', 'kdtree, kdtree_balanced, kdtree_searcher of the core']
STUB = ['scheduler (one thread at a time), heap of the core (simulator)']
PROBES = ['native', 'Python', 'numpy points', 'equal points', 'memory refused in a change', 'memory refused in a search', 'searches at once', 'trees changed at once', 'root removed', 'tree emptied', 'removed by point', 'removed by node', 'more than 60 points', 'dimension changed']

Op = type('KdOp', (ctypes.Structure,), {'_fields_': [(f, ctypes.c_int64) for f in ('what', 'tree', 'id', 'count', 'at', 'len', 'threads')] + [('radius', ctypes.c_double)]})
BUILD, INSERT, REMOVE, REMOVE_PAYLOAD, REMOVE_NODE, FIND, FIND_PAYLOAD, RADIUS, NEAREST, RULE_STORE, TWICE, GROUP, MOVE, WIDTH = range(14)
CHANGES = (BUILD, INSERT, REMOVE, REMOVE_PAYLOAD, REMOVE_NODE, MOVE, WIDTH)
NAMES = ['build', 'insert', 'remove by point', 'remove by payload', 'remove by node', 'find', 'find by payload', 'neighbours in the radius', 'nearest', 'neighbours to a function', 'searcher used twice', 'group', 'move', 'emptied for points of another dimension']
STATUS = ['', 'refused memory', 'an exception', 'malformed tree', 'malformed result']


def make(rng, index, tier):
    n = rng.choice([1, 2, 4, 8, 15, 30, 30, 100])
    dim = rng.choice([1, 2, 2, 3, 4])
    kind = rng.choice(['grid', 'grid', 'tiny grid', 'float', 'line', 'far'])
    pts = []
    for _ in range(n):
        if kind == 'grid':
            p = [rng.randrange(-6, 7) for _ in range(dim)]
        elif kind == 'tiny grid':
            p = [rng.randrange(3) for _ in range(dim)]
        elif kind == 'float':
            p = [rng.gauss(0, 1) for _ in range(dim)]
        elif kind == 'line':
            p = [2] * dim
            p[rng.randrange(dim) if rng.random() < 0.1 else dim - 1] = rng.randrange(20)
        else:
            p = [rng.choice([1e6, 1e-6, 1.0, -1.0]) * rng.randrange(1, 9) for _ in range(dim)]
        if pts and rng.random() < 0.12:
            p = list(rng.choice(pts))
        pts.append([float(x) for x in p])
    impl = rng.choice(['native', 'native', 'native', 'list', 'list', 'numpy'])
    ntrees = rng.choice([1, 1, 2, 3])
    faults = impl == 'native' and rng.random() < 0.5
    removing = rng.choice([0.15, 0.35, 0.55])
    ops = []

    def one(tree, searching, alone=True):
        i = rng.randrange(n)
        if not searching:
            r = rng.random()
            if r < removing:
                o = [rng.choice([REMOVE, REMOVE_PAYLOAD, REMOVE_PAYLOAD, REMOVE_NODE] if alone else [REMOVE_PAYLOAD, REMOVE_NODE]), tree, i]
            elif r < removing + 0.1:
                o = [BUILD, tree, i, rng.choice([1, n - i, rng.randrange(1, n - i + 1)])]
            elif r < removing + 0.12:
                o = [MOVE, tree, i]
            elif r < removing + 0.16 and alone and dim > 1:
                o = [WIDTH, tree, i, rng.randrange(1, dim + 1)]
            else:
                o = [INSERT, tree, i]
        else:
            o = [rng.choice([FIND, FIND_PAYLOAD, RADIUS, RADIUS, RADIUS, NEAREST, NEAREST, RULE_STORE, TWICE]), tree, i]
        o += [1] * (4 - len(o))
        if o[0] in (RADIUS, NEAREST, RULE_STORE, TWICE):
            d = math.dist(pts[i], rng.choice(pts))
            rad = rng.choice([0.0, 1.0, 2.0, 5.0, 13.0, d, d, round(d), d * 0.999, d * 1.001, 1e9])
        else:
            rad = 0.0
        at = ln = 0
        if faults and alone and o[0] != WIDTH and rng.random() < 0.25:
            at, ln = rng.choice([1, 1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 40)]), rng.choice([1, 1, 1, 3, 1 << 30])
        return [o[0], o[1], o[2], o[3], at, ln, 0, float(rad)]

    # usually start with something in the trees
    for t in range(ntrees):
        if rng.random() < 0.7:
            i = rng.randrange(n)
            ops.append([BUILD, t, i, n - i, 0, 0, 0, 0.0])
        if rng.random() < 0.5:
            ids = list(range(n))
            rng.shuffle(ids)
            ops += [[INSERT, t, i, 1, 0, 0, 0, 0.0] for i in ids[:rng.randrange(1, n + 1)][:30]]
    for _ in range(rng.choice([3, 8, 20, 40])):
        if rng.random() < 0.08:
            k, apart = rng.randrange(2, 9), rng.random() < 0.5 and ntrees > 1
            ops.append([GROUP, 0, int(apart), k, 0, 0, rng.choice([2, 2, 3]), 0.0])
            ops += [one(rng.randrange(ntrees), not apart or rng.random() < 0.4, False) for _ in range(k)]
        else:
            ops.append(one(rng.randrange(ntrees), rng.random() < 0.5))
    if rng.random() < 0.1:      # take everything out
        ids = list(range(n))
        rng.shuffle(ids)
        ops += [[rng.choice([REMOVE, REMOVE_PAYLOAD]), 0, i, 1, 0, 0, 0, 0.0] for i in ids * 2]
    cfg = native.schedule(rng, light=n > 15)
    return dict(points=pts, trees=ntrees, impl=impl, ops=ops, exact=kind not in ('float', 'far'), cfg=cfg)


# ---- the two implementations ---------------------------------------------------------------------------------------

def run_native(env, c, nat):
    ops = (Op * len(c['ops']))(*[wl.make(Op, what=o[0], tree=o[1], id=o[2], count=o[3], at=o[4], len=o[5], threads=o[6], radius=o[7]) for o in c['ops']])
    n, dim = len(c['points']), len(c['points'][0])
    values = wl.arr([x for p in c['points'] for x in p], ctypes.c_double)
    cap = sum(8 + 2 * (n + i + 2) + (2 * (n + i + 2) * c['trees'] + 8 * c['trees'] if o[0] == GROUP else 2 * (n + i + 2)) for i, o in enumerate(c['ops'])) + 4096
    buf = (ctypes.c_double * cap)()
    nat.lib.wl_kdtree.restype = ctypes.c_int64
    with env.session(nat, c['cfg']):
        used = nat.lib.wl_kdtree(ctypes.c_int64(n), ctypes.c_int64(dim), values, ctypes.c_int64(c['trees']), ctypes.c_int64(len(c['ops'])), ops, buf, ctypes.c_int64(cap))
    if used > cap:
        raise RuntimeError('%d values, %d expected' % (used, cap))
    at = [0]

    def get():
        at[0] += 1
        return buf[at[0] - 1]

    def result():
        status, k = int(get()), int(get())
        return status, [(int(get()) - 1, get()) for _ in range(k)]

    def content():
        status, items = result()
        size = int(get())
        return status, [i for i, wrong in items], size, any(wrong for i, wrong in items)
    out, i = [], 0
    while i < len(c['ops']):
        o = c['ops'][i]
        if o[0] == GROUP:
            rs = [result() for _ in range(o[3])]
            out.append(('group', rs, [content() for _ in range(c['trees'])]))
            i += o[3]
        else:
            r = result()
            out.append(('op', r, content() if o[0] in CHANGES else None))
        i += 1
    leaked = int(get())
    if leaked:
        raise Violation('leak', 'native k-d tree: %d blocks still held after the trees are gone' % leaked)
    return out


class Python:
    def __init__(self, c):
        from pyclustering.container import kdtree
        self.m = kdtree
        self.numpy = c['impl'] == 'numpy'
        self.widths = {w: [numpy.array(p[:w]) for p in c['points']] if self.numpy else [list(p[:w]) for p in c['points']] for w in range(1, len(c['points'][0]) + 1)}
        self.points = [self.widths[len(c['points'][0])]] * c['trees']
        self.trees = [kdtree.kdtree() for _ in range(c['trees'])]

    def op(self, o):
        what, t, i, k, radius = o[0], o[1], o[2], o[3], o[7]
        tree, p = self.trees[t], self.points[t][i]
        if what == BUILD:
            part = self.points[t][i:i + k]
            self.trees[t] = self.m.kdtree(numpy.array(part) if self.numpy else part, list(range(i, i + k)))
        elif what == INSERT:
            n = tree.insert(p, i)
            if n.payload != i or list(n.data) != list(p):
                return 4, []
        elif what == REMOVE:
            present = tree.find_node(p) is not None
            if (tree.remove(p) is None) != (not present or len(tree) == 0):
                return 4, []
        elif what in (REMOVE_PAYLOAD, REMOVE_NODE):
            tree.remove(p, payload=i)
        elif what == WIDTH:
            while tree.get_root() is not None:
                tree.remove(tree.get_root().data, payload=tree.get_root().payload)
            self.points[t] = self.widths[k]
        elif what == FIND:
            n = tree.find_node(p)
            return 0, [(n.payload if n is not None else -1, 0.0)]
        elif what == FIND_PAYLOAD:
            n = tree.find_node_with_payload(p, i)
            return 0, [(n.payload if n is not None else -1, 0.0)]
        elif what == NEAREST:
            n = tree.find_nearest_dist_node(p, radius)
            m = tree.find_nearest_dist_node(p, radius, True)
            if (n is None) != (m is None) or n is not None and m[1] is not n:
                return 4, []
            return 0, [(n.payload, m[0])] if n is not None else []
        elif what in (RADIUS, RULE_STORE, TWICE):
            return 0, [(n.payload, d) for d, n in tree.find_nearest_dist_nodes(p, radius)]
        return 0, []

    def content(self, t):
        tree, items, wrong = self.trees[t], [], False
        todo = [(tree.get_root(), None)] if tree.get_root() is not None else []
        while todo:
            n, parent = todo.pop()
            items.append(n.payload)
            wrong = wrong or n.parent is not parent or not 0 <= n.payload < len(self.points[t]) or list(n.data) != list(self.points[t][n.payload])
            if len(items) > 4 * len(self.points[t]) + 10000:
                return 3, items, len(tree), wrong
            todo += [(x, n) for x in n.get_children()]
        return 0, items, len(tree), wrong


def run_python(env, c, nat):
    p, out, i = Python(c), [], 0
    with env.session(nat, c['cfg']):
        while i < len(c['ops']):
            o = c['ops'][i]
            if o[0] == GROUP:
                todo, rs = c['ops'][i + 1:i + 1 + o[3]], {}

                def work(k):
                    for j, x in enumerate(todo):
                        if (x[1] if o[2] else j) % o[6] == k:
                            rs[j] = p.op(x)
                for ok, e in native.PyThreads(nat, catalog.LIBRARY).run([lambda k=k: work(k) for k in range(o[6])]):
                    if not ok:
                        raise e
                out.append(('group', [rs[j] for j in range(len(todo))], [p.content(t) for t in range(c['trees'])]))
                i += o[3]
            else:
                r = p.op(o)
                out.append(('op', r, p.content(o[1]) if o[0] in CHANGES else None))
            i += 1
    return out


# ---- the reference ---------------------------------------------------------------------------------------------------

class Model:
    def __init__(self, c):
        self.c, self.widths = c, [len(c['points'][0])] * c['trees']
        self.trees = [collections.Counter() for _ in range(c['trees'])]

    def ids(self, t):
        return sorted(self.trees[t].elements())

    def equal(self, t, i):
        p = self.point(t, i)
        return sorted({j for j in self.trees[t] if self.point(t, j) == p})

    def point(self, t, i):
        return self.c['points'][i][:self.widths[t]]

    def expected(self, o):
        """Contents allowed after a change: list of counters."""
        what, t, i, k = o[:4]
        now = self.trees[t]
        if what == BUILD:
            return [collections.Counter(range(i, i + k))]
        if what == INSERT:
            return [now + collections.Counter([i])]
        if what == MOVE:
            return [now]
        if what == WIDTH:
            self.widths[t] = k
            return [collections.Counter()]
        if what == REMOVE:
            return [now - collections.Counter([j]) for j in self.equal(t, i)] or [now]
        return [now - collections.Counter([i])]

    def square(self, t, i, j):
        return sum((a - b) ** 2 for a, b in zip(self.point(t, i), self.point(t, j)))

    def sure(self, t, i, j, radius):
        """Whether j is within the radius of i: True, False or None when rounding decides."""
        d, r = self.square(t, i, j), radius * radius
        if self.c['exact'] and float(radius).is_integer():
            return d <= r
        m = 1e-9 * max(d, r) + 1e-12 * max(map(abs, self.point(t, i) + self.point(t, j))) ** 2
        return None if abs(d - r) <= m else d < r


def check_search(m, o, r, native_impl, tell):
    what, t, i, radius = o[0], o[1], o[2], o[7]
    status, items = r
    if status == 1 and o[4]:
        return True
    if status:
        raise Violation('search', tell('%s' % STATUS[status]))
    have = m.ids(t)
    if not have and what >= RADIUS:
        if items:
            raise Violation('search', tell('%r in an empty tree' % (items,)))
        return False
    if what in (FIND, FIND_PAYLOAD):
        right = m.equal(t, i) if what == FIND else [j for j in [i] if m.trees[t][i]]
        got = items[0][0]
        if got not in right and (right or got != -1):
            raise Violation('search', tell('%s returned, %s would be right' % (got if got >= 0 else 'nothing', right or 'nothing')))
        return False
    for j, d in items:
        if not m.trees[t][j]:
            raise Violation('search', tell('point %d returned which is not in the tree' % j))
        if what != NEAREST or not native_impl:
            true = m.square(t, i, j)
            if abs(true - d) > 1e-9 * true + 1e-300 and not abs(true - d) <= 1e-12 * max(map(abs, m.point(t, i) + m.point(t, j))) ** 2:
                raise Violation('search', tell('distance %r to point %d, %r is right' % (d, j, true)))
    if what == NEAREST:
        best = min(m.square(t, i, j) for j in have)
        near = [m.sure(t, i, j, radius) for j in have]
        got = items[0][0] if items else None
        if native_impl:
            # the radius only bounds the search; when the nearest point lies within it, it must be found
            if not any(x is True and m.square(t, i, j) == best for x, j in zip(near, have)):
                return False
        elif not any(x is True for x in near):
            if got is not None and not any(x is None for x in near):
                raise Violation('search', tell('point %d returned although the radius is empty' % got))
            return False
        if got is None or m.square(t, i, got) > best * (1 + 1e-9) + 1e-300:
            raise Violation('search', tell('point %s returned at %s, the nearest is at %r' % (got, m.square(t, i, got) if got is not None else None, best)))
        return False
    got = collections.Counter(j for j, d in items)
    for j, k in m.trees[t].items():
        inside = m.sure(t, i, j, radius)
        if inside is None and got[j] <= k:
            continue
        if got[j] != (k if inside else 0):
            raise Violation('search', tell('point %d at square distance %r: %d times in the result, %d would be right' % (j, m.square(t, i, j), got[j], k if inside else 0)))
    return False


def run(env, c):
    nat = env.native(2)
    is_native = c['impl'] == 'native'
    out = (run_native if is_native else run_python)(env, c, nat)
    m = Model(c)
    env.probe(PROBES[0 if is_native else 1])
    if c['impl'] == 'numpy':
        env.probe(PROBES[2])
    if len({tuple(p) for p in c['points']}) < len(c['points']):
        env.probe(PROBES[3])
    env.note([c['impl'], [o[0] for o in c['ops']], len(c['points'])])
    i = 0

    def same(t, content, allowed, tell):
        status, ids, size, wrong = content
        if status or wrong:
            raise Violation('content', tell('the tree is malformed'))
        for a in allowed:
            if a == collections.Counter(ids):
                m.trees[t] = a
                break
        else:
            raise Violation('content', tell('the tree holds %s, %s would be right' % (sorted(ids), sorted(allowed[0].elements()))))
        if size != len(ids):
            raise Violation('content', tell('size %d reported for %d points' % (size, len(ids))))
    for kind, r, after in out:
        o = c['ops'][i]
        label = '%s k-d tree %%s (operation %d): ' % (c['impl'], i)
        if kind == 'group':
            env.probe(PROBES[7 if o[2] else 6])
            for j, res in enumerate(r):
                x = c['ops'][i + 1 + j]

                def tell(s):
                    return label % ('%s by one of %d threads' % (NAMES[x[0]], o[6])) + s
                if x[0] in CHANGES:
                    if res[0]:
                        raise Violation('content', tell(STATUS[res[0]]))
                    m.trees[x[1]] = m.expected(x)[0]
                else:
                    check_search(m, x, res, is_native, tell)
            for t, content in enumerate(after):
                same(t, content, [m.trees[t]], lambda s: label % 'group' + 'tree %d: %s' % (t, s))
            i += 1 + o[3]
            continue

        def tell(s):
            return label % (NAMES[o[0]] + (', allocation %d refused' % o[4] if o[4] else '')) + s
        if o[0] in CHANGES:
            before = m.trees[o[1]]
            refused = r[0] == 1 and o[4]
            if r[0] and not refused:
                raise Violation('content', tell(STATUS[r[0]]))
            if refused:
                env.fault('refused memory')
                env.probe(PROBES[4])
            same(o[1], after, [before] if refused else m.expected(o), tell)
            if o[0] == REMOVE and m.trees[o[1]] != before:
                env.probe(PROBES[10])
            if o[0] == REMOVE_NODE and m.trees[o[1]] != before:
                env.probe(PROBES[11])
            if o[0] == WIDTH:
                env.probe(PROBES[13])
            if before and not m.trees[o[1]]:
                env.probe(PROBES[9])
            if len(before) > 60:
                env.probe(PROBES[12])
        elif check_search(m, o, r, is_native, tell):
            env.fault('refused memory')
            env.probe(PROBES[5])
        i += 1
    env.count('operations', len(out))


def shrink(c):
    groups, i = [], 0
    while i < len(c['ops']):
        k = 1 + (c['ops'][i][3] if c['ops'][i][0] == GROUP else 0)
        groups.append(c['ops'][i:i + k])
        i += k
    size = len(groups) // 2
    while size:
        for i in range(0, len(groups), size):
            rest = groups[:i] + groups[i + size:]
            if rest:
                yield dict(c, ops=[o for g in rest for o in g])
        size //= 2
    for i, g in enumerate(groups):
        if g[0][0] == GROUP:
            for x in range(1, len(g)):
                if len(g) > 2:
                    yield dict(c, ops=[o for h in groups[:i] for o in h] + [g[0][:3] + [g[0][3] - 1] + g[0][4:]] + g[1:x] + g[x + 1:] + [o for h in groups[i + 1:] for o in h])
            yield dict(c, ops=[o for h in groups[:i] for o in h] + g[1:] + [o for h in groups[i + 1:] for o in h])
    for i, o in enumerate(c['ops']):
        if o[4]:
            yield dict(c, ops=c['ops'][:i] + [o[:4] + [0, 0] + o[6:]] + c['ops'][i + 1:])
        if o[5] > 1:
            yield dict(c, ops=c['ops'][:i] + [o[:5] + [1] + o[6:]] + c['ops'][i + 1:])
    n = len(c['points'])
    if n > 1 and all(o[2] < n - 1 and (o[0] != BUILD or o[2] + o[3] < n) for o in c['ops']):
        yield dict(c, points=c['points'][:-1])
    for g in wl.sched_shrinks(c['cfg']):
        yield dict(c, cfg=g)
