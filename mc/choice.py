"""Controlled nondeterminism: every answer of the random module is a choice point that the explorer
enumerates (stateless depth-first search over choice sequences, replaying prefixes).

Continuous draws (random.random) are offered from a finite menu supplied by the check.  A choice
out of range during the replay of a prefix is a hard error (divergence)."""
import random as _random
from fractions import Fraction


class Divergence(Exception):
    pass


class TooLong(Exception):
    """execution needed more choice points than the bound: the path is cut (counted, not a failure)"""


class Chooser(object):
    def __init__(self, prefix, limit):
        self.prefix = prefix
        self.trace = []       # (chosen, n alternatives, label)
        self.limit = limit
        self.prob = Fraction(1)

    def choose(self, n, label, probs=None):
        i = len(self.trace)
        if n <= 0:
            raise IndexError("choice from an empty population")
        if i >= self.limit:
            raise TooLong()
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence("choice %d of %d at point %d (%s)" % (c, n, i, label))
        else:
            c = 0
        self.trace.append((c, n, label))
        self.prob *= probs[c] if probs is not None else Fraction(1, n)
        return c


class Choices(list):
    """the choices of one execution; prob is its exact probability"""
    prob = None


class LazyFloat(float):
    """A draw from [0,1) whose value is chosen from the menu at its first use; comparing it with
    a number <= 0 or >= 1 needs no choice."""
    def __new__(cls, chooser, menu):
        self = float.__new__(cls, menu[0])
        self.c, self.menu, self.v = chooser, menu, None
        return self

    def val(self):
        if self.v is None:
            self.v = self.menu[self.c.choose(len(self.menu), "random")]
        return self.v

    def _cmp(name):
        def f(self, other):
            if self.v is None and isinstance(other, (int, float)) and not isinstance(other, LazyFloat):
                if other <= 0:
                    return name in ("__gt__", "__ge__", "__ne__")
                if other >= 1:
                    return name in ("__lt__", "__le__", "__ne__")
            return getattr(self.val(), name)(other)
        return f

    def _op(name):
        def f(self, *args):
            return getattr(self.val(), name)(*args)
        return f
    for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
        locals()[_n] = _cmp(_n)
    for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__floordiv__", "__rfloordiv__",
               "__mod__", "__rmod__", "__pow__", "__rpow__", "__neg__", "__abs__", "__int__", "__float__", "__trunc__", "__floor__", "__ceil__",
               "__round__", "__bool__", "__hash__", "__repr__", "__str__", "__format__", "__divmod__", "__rdivmod__"):
        locals()[_n] = _op(_n)
    del _n


class FakeRandom(object):
    """replaces the module-level functions of `random` while active"""
    NAMES = ("random", "uniform", "randint", "randrange", "choice", "choices", "sample", "shuffle", "getrandbits",
             "gauss", "expovariate", "betavariate", "triangular", "seed")

    def __init__(self, chooser, floats, lazy=False, pairing=None, samples=None, arrange=()):
        self.arrange = list(arrange)  # results of shuffling the lists that have the same items
        self.samples = samples  # number of calls to sample() before the execution is cut
        self.c = chooser
        self.floats = floats   # menu for random(); if its items are pairs, (value, probability)
        self.lazy = lazy
        self.pairing = pairing  # longest list for which every order of shuffle() is tried

    def random(self):
        m = self.floats
        if isinstance(m[0], tuple):
            return m[self.c.choose(len(m), "random", [p for _, p in m])][0]
        if self.lazy:
            return LazyFloat(self.c, m)
        return m[self.c.choose(len(m), "random")]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def randint(self, a, b):
        return a + self.c.choose(b - a + 1, "randint(%s,%s)" % (a, b))

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.c.choose(len(r), "randrange")]

    def choice(self, seq):
        return seq[self.c.choose(len(seq), "choice(%d)" % len(seq))]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        if weights is None and cum_weights is None:
            return [self.choice(population) for _ in range(k)]
        if weights is None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        pos = [i for i, w in enumerate(weights) if w > 0]
        total = sum(Fraction(w) for w in weights)
        probs = [Fraction(weights[i]) / total for i in pos]
        return [population[pos[self.c.choose(len(pos), "choices", probs)]] for _ in range(k)]

    def sample(self, population, k, counts=None):
        pool = list(population)
        if not 0 <= k <= len(pool):
            raise ValueError("Sample larger than population or is negative")
        if self.samples is not None:
            self.samples -= 1
            if self.samples < 0:
                raise TooLong()
        out = []
        for _ in range(k):
            out.append(pool.pop(self.c.choose(len(pool), "sample")))
        return out

    def shuffle(self, x, *a):
        for i, y in enumerate(self.arrange):
            if sorted(map(repr, y)) == sorted(map(repr, x)):
                x[:] = self.arrange.pop(i)
                return
        if self.pairing is not None and len(x) > self.pairing:
            # every way of dividing the items to consecutive pairs (one order of and within the pairs)
            rest, out = list(x), []
            while rest:
                out.append(rest.pop(0))
                if rest:
                    alt = list(dict.fromkeys(rest))
                    out.append(alt[self.c.choose(len(alt), "pair")])
                    rest.remove(out[-1])
            x[:] = out
            return
        for i in reversed(range(1, len(x))):
            j = self.c.choose(i + 1, "shuffle")
            x[i], x[j] = x[j], x[i]

    def getrandbits(self, k):
        return self.c.choose(2 ** k, "getrandbits")

    def seed(self, *a, **k):
        pass

    def gauss(self, *a):
        raise NotImplementedError("gauss")
    expovariate = betavariate = triangular = gauss


class patched(object):
    def __init__(self, fake):
        self.fake = fake

    def __enter__(self):
        self.saved = dict((n, getattr(_random, n)) for n in FakeRandom.NAMES)
        self.inst = _random._inst
        _random._inst = self.fake      # what networkx uses
        for n in FakeRandom.NAMES:
            setattr(_random, n, getattr(self.fake, n))

    def __exit__(self, *a):
        _random._inst = self.inst
        for n, f in self.saved.items():
            setattr(_random, n, f)


def explore(run, floats=(0.5,), limit=60, max_runs=None, prefix=(), lazy=False, pairing=None, samples=None, arrange=()):
    """Depth-first over all choice sequences.  `run()` executes the code once under the patched
    random module and returns an observation.  Yields (choices, observation or TooLong)."""
    prefix = list(prefix)
    base = len(prefix)
    n = 0
    while True:
        ch = Chooser(prefix, limit)
        with patched(FakeRandom(ch, floats, lazy, pairing, samples, arrange)):
            try:
                res = run()
            except TooLong:
                res = TooLong
        if len(ch.trace) < len(prefix):
            raise Divergence("execution consumed only %d of %d recorded choices" % (len(ch.trace), len(prefix)))
        cs = Choices(c for c, _, _ in ch.trace)
        cs.prob = ch.prob
        yield cs, res
        n += 1
        if max_runs is not None and n >= max_runs:
            return
        t = ch.trace
        i = len(t) - 1
        while i >= base and t[i][0] + 1 >= t[i][1]:
            i -= 1
        if i < base:
            return
        prefix = [c for c, _, _ in t[:i]] + [t[i][0] + 1]


def replay(run, choices, floats=(0.5,), limit=1000):
    ch = Chooser(list(choices), limit)
    with patched(FakeRandom(ch, floats)):
        return run()
