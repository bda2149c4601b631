"""The random generators of Python and numpy behind one simulated source."""
import random

import numpy

_real = {}


class Entropy:
    """`random.seed()` and `numpy.random.seed()` without argument (and `default_rng()`) take their bits from a simulated system."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.draws = 0

    def bits(self, n):
        self.draws += 1
        return self.rng.getrandbits(n)

    def __enter__(self):
        self.saved = (random.seed, numpy.random.seed, numpy.random.default_rng, random.Random.seed)
        real_seed, real_np, real_rng = self.saved[:3]

        def seed(a=None, version=2):
            return real_seed(self.bits(64) if a is None else a, version)

        def np_seed(a=None):
            return real_np(self.bits(32) if a is None else a)

        def rng(a=None):
            return real_rng(self.bits(64) if a is None else a)
        random.seed, numpy.random.seed, numpy.random.default_rng = seed, np_seed, rng
        return self

    def __exit__(self, *a):
        random.seed, numpy.random.seed, numpy.random.default_rng = self.saved[:3]
        return False


NUMPY = ('seed', 'rand', 'random', 'random_sample', 'ranf', 'sample', 'randint', 'uniform', 'shuffle', 'permutation', 'choice', 'normal', 'randn', 'standard_normal')


class Draws(random.Random):
    """Every draw of `random` and `numpy.random` decided by the simulator: a script of positions in [0, 1), fair draws after it.

    `random()` returns the position itself, a choice among n the position times n: 0 is the first, the largest double below 1 the last.
    """
    NAMES = ('random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'choices', 'normalvariate', 'lognormvariate', 'expovariate', 'vonmisesvariate', 'gammavariate', 'gauss',
             'betavariate', 'paretovariate', 'weibullvariate', 'getrandbits', 'randbytes')

    def __new__(cls, script, seed):
        return super().__new__(cls, seed)

    def __init__(self, script, seed):
        self.script, self.n, self.samples = list(script), 0, []
        self.fair = random.Random(seed)
        super().__init__(seed)

    def position(self):
        self.n += 1
        return self.script[self.n - 1] if self.n <= len(self.script) else self.fair.random()

    def random(self):
        return self.position()

    def getrandbits(self, k):
        return int(self.position() * (1 << k))

    def _randbelow(self, n):
        return min(int(self.position() * n), n - 1)

    def seed(self, *a, **kw):
        self.gauss_next = None              # the seed is not what decides here

    def sample(self, population, k, **kw):
        r = super().sample(population, k, **kw)
        self.samples.append(list(r))
        return r

    def __enter__(self):
        self.saved = {n: getattr(random, n) for n in self.NAMES + ('seed',)}
        self.np_saved = {n: getattr(numpy.random, n) for n in NUMPY}
        for n in self.saved:
            setattr(random, n, getattr(self, n))
        for n in NUMPY:
            setattr(numpy.random, n, getattr(self, 'np_' + n))
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(random, n, f)
        for n, f in self.np_saved.items():
            setattr(numpy.random, n, f)
        return False

    # ---- the part of numpy.random
    def fill(self, f, size):
        if size is None:
            return f()
        shape = (size,) if numpy.isscalar(size) else tuple(size)
        return numpy.array([f() for _ in range(int(numpy.prod(shape)))]).reshape(shape)

    def np_seed(self, *a, **kw):
        self.gauss_next = None

    def np_rand(self, *shape):
        return self.fill(self.position, shape or None)

    def np_random(self, size=None):
        return self.fill(self.position, size)

    np_random_sample = np_ranf = np_sample = np_random

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        r = self.fill(lambda: low + self._randbelow(high - low), size)
        return r if size is None else r.astype(dtype)

    def np_uniform(self, low=0.0, high=1.0, size=None):
        return self.fill(lambda: low + (high - low) * self.position(), size)

    def np_shuffle(self, x):
        for i in reversed(range(1, len(x))):
            j = self._randbelow(i + 1)
            t = numpy.copy(x[i]) if isinstance(x, numpy.ndarray) else x[i]
            x[i] = x[j]
            x[j] = t

    def np_permutation(self, x):
        a = numpy.arange(x) if numpy.isscalar(x) else numpy.array(x)
        self.np_shuffle(a)
        return a

    def np_choice(self, a, size=None, replace=True, p=None):
        a = numpy.arange(a) if numpy.isscalar(a) else numpy.asarray(a)
        if p is not None:
            c = numpy.cumsum(p)
            if not replace and size is not None:
                raise NotImplementedError('choice without replacement with probabilities')
            return a[self.fill(lambda: min(int(numpy.searchsorted(c, self.position() * c[-1], 'right')), len(a) - 1), size)]
        if not replace and size is not None:
            n = int(numpy.prod(size))
            return numpy.array([a[i] for i in super().sample(range(len(a)), n)]).reshape(size)
        return a[self.fill(lambda: self._randbelow(len(a)), size)]

    def np_normal(self, loc=0.0, scale=1.0, size=None):
        return self.fill(lambda: random.Random.gauss(self, loc, scale), size)

    def np_standard_normal(self, size=None):
        return self.np_normal(0.0, 1.0, size)

    def np_randn(self, *shape):
        return self.np_normal(0.0, 1.0, shape or None)


def script(rng, length=None):
    """A script of positions: constant, two values, cycles, ramps, boundary values, with or without fair draws in between."""
    top = 1.0 - 2.0 ** -53
    palette = [0.0, 0.0, top, top, 2.0 ** -53, 0.5, 0.25, 1 / 3, 0.999, 1e-3, 0.75]
    n = rng.choice([0, 3, 10, 30, 100, 300]) if length is None else length
    kind = rng.choice(['constant', 'constant', 'two', 'cycle', 'ramp', 'boundary', 'sticky', 'mixed'])
    if kind == 'constant':
        return [rng.choice(palette + [rng.random()])] * n
    if kind == 'two':
        a, b = rng.choice(palette), rng.choice(palette + [rng.random()])
        return [rng.choice((a, b)) for _ in range(n)]
    if kind == 'cycle':
        c = [rng.choice(palette + [rng.random()]) for _ in range(rng.choice([2, 3, 4, 7]))]
        return [c[i % len(c)] for i in range(n)]
    if kind == 'ramp':
        return [min(i / max(n - 1, 1), top) for i in range(n)][::rng.choice([1, -1])]
    if kind == 'boundary':
        return [rng.choice(palette[:5]) for _ in range(n)]
    if kind == 'sticky':
        out = []
        while len(out) < n:
            out += [rng.choice(palette + [rng.random(), rng.random()])] * rng.choice([1, 2, 4, 9])
        return out[:n]
    return [rng.choice(palette) if rng.random() < 0.3 else rng.random() for _ in range(n)]
