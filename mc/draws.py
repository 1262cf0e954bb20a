"""
Control over the draws which the code makes with the ``random`` module: shuffles
and samples follow an enumerated policy instead of a generator.
"""
import collections.abc
import contextlib
import math
import random

GOLDEN = (math.sqrt(5) - 1) / 2


def checked(population):
    """The population as a list; only sequences are accepted, as in the standard library."""
    if not isinstance(population, collections.abc.Sequence):
        raise TypeError('Population must be a sequence.  For dicts or sets, use sorted(d).')
    return list(population)


def coprime_stride(n, factor):
    """A stride close to factor * n which reaches all n numbers."""
    if n <= 2:
        return 1
    stride = max(1, round(n * factor)) % n or 1
    while math.gcd(stride, n) != 1:
        stride += 1
    return stride


def unrank(n, k, rank):
    """Combination (indices) number ``rank`` in lexicographic order."""
    res = []
    start = 0
    for left in range(k, 0, -1):
        for i in range(start, n):
            count = math.comb(n - i - 1, left - 1)
            if rank < count:
                res.append(i)
                start = i + 1
                break
            rank -= count
    return res


class Policy:
    """
    ``order``: how lists are shuffled, (kind, number). ``factor``: successive
    samples are this fraction of all combinations apart; 0 means in order, negative
    values in reverse order. No combination is repeated before all were drawn.
    """
    def __init__(self, order=('keep', 0), factor=GOLDEN, offset=0):
        self.order = order
        self.factor = factor
        self.offset = offset
        self.draws = {}

    def shuffle(self, x):
        kind, num = self.order
        items = list(x)
        n = len(items)
        if not n:
            return
        if kind in ('sorted', 'reversed'):
            items.sort(reverse=kind == 'reversed')
        elif kind == 'stride':
            items.sort()
            s = coprime_stride(n, GOLDEN)
            items = [items[(num + i * s) % n] for i in range(n)]
        elif kind == 'rotate':
            items.sort()
            items = items[num % n:] + items[:num % n]
        elif kind == 'permutation':
            items.sort()
            rest = items
            items = []
            for i in range(n, 0, -1):
                num, idx = divmod(num, i)
                items.append(rest.pop(idx))
        x[:] = items

    def _step(self, n):
        if self.factor == 0:
            return 1
        if self.factor < 0:
            return n - 1 if n > 1 else 1
        return coprime_stride(n, self.factor)

    def sample(self, population, k, **_):
        population = checked(population)
        n = len(population)
        if k > n:
            raise ValueError('Sample larger than population')
        if k > 3:
            s = self._step(n)
            start = self.offset if self.factor >= 0 else n - 1
            return [population[(start + i * s) % n] for i in range(k)]
        total = math.comb(n, k)
        num = self.draws.get((n, k), 0)
        self.draws[n, k] = num + 1
        start = self.offset if self.factor >= 0 else total - 1
        return [population[i] for i in unrank(n, k, (start + num * self._step(total)) % total)]

    @contextlib.contextmanager
    def active(self):
        saved = random.shuffle, random.sample
        random.seed(0)
        random.shuffle = self.shuffle
        random.sample = self.sample
        try:
            yield self
        finally:
            random.shuffle, random.sample = saved


class Chosen(Policy):
    """All orders which a chooser allows."""
    def __init__(self, chooser):
        super().__init__()
        self.chooser = chooser

    def _permute(self, items, label):
        items = list(items)
        res = []
        while len(items) > 1:
            res.append(items.pop(self.chooser.choose(len(items), label)))
        return res + items

    def shuffle(self, x):
        x[:] = self._permute(sorted(x), 'shuffle')

    def sample(self, population, k, **_):
        items = checked(population)
        if k > len(items):
            raise ValueError('Sample larger than population')
        res = []
        for _ in range(k):
            res.append(items.pop(self.chooser.choose(len(items), 'sample') if len(items) > 1 else 0))
        return res
