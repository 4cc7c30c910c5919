"""C23 Reservoir sampling."""
import itertools
from fractions import Fraction
from math import comb, factorial

import numpy

from mc import chance
from mc.engine import Family, require

from pyclustering.utils.sampling import reservoir_r, reservoir_x

LEVEL = 'model_checking'
RULE = ('every length of the stream and size of the sample up to a bound x algorithm x kind of container: every sequence of random '
        'answers is executed, draws from [0, 1) being answered by one representative of every cell between the thresholds that '
        'occur (refined by a uniform grid), weighted by the size of the cell, so that the probability of every subset is exact; '
        'longer streams with a bounded number of non-default answers for the validity of the sample; states are the executions, '
        'transitions the answers; non-trivial: some elements are sampled and some are not')
ASSUMPTIONS = ['thresholds of the draws from [0, 1) are products of ratios (t + 1 - n) / (t + 1) as in the published algorithms, or '
               'differ from them by more than a cell of the grid']

ALGO = {'r': reservoir_r, 'x': reservoir_x}


def make(size, kind):
    if kind == 'points':
        return [[float(i), float(-i)] for i in range(size)]
    if kind == 'tuple':
        return tuple(range(100, 100 + size))
    if kind == 'numpy':
        return numpy.array([[float(i), 0.5 * i] for i in range(size)])
    if kind == 'strings':
        return ['e%d' % i for i in range(size)]
    return list(range(100, 100 + size))


def plain(x):
    return tuple(numpy.asarray(x).tolist()) if isinstance(x, (list, numpy.ndarray)) else x


def cells(n, size, grid):
    cuts = {Fraction(0), Fraction(1)} | {Fraction(k, grid) for k in range(grid)}
    for t in range(n, size):
        p = Fraction(1)
        for k in range(t, size):
            p *= Fraction(k + 1 - n, k + 1)
            cuts |= {p, 1 - p}
    cuts = sorted(cuts)
    return [(float((a + b) / 2), b - a) for a, b in zip(cuts, cuts[1:])]


def sample(algo, data, n):
    before = repr(data)
    got = ALGO[algo](data, n)
    require(repr(data) == before, lambda: 'the stream has been changed from %s to %r' % (before, data))
    got = [plain(x) for x in got]
    where = {plain(x): i for i, x in enumerate(data)}
    require(len(got) == n, lambda: '%d elements are sampled, %d asked' % (len(got), n))
    require(all(x in where for x in got), lambda: 'the sample %r has an element which is not in the stream' % (got,))
    out = frozenset(where[x] for x in got)
    require(len(out) == n, lambda: 'an element is sampled twice: %r' % (got,))
    return out


def run(case):
    algo, size, n, kind, grid = case
    data = make(size, kind)
    got = {}
    total = Fraction(0)
    for _, s, w in chance.explore(lambda: sample(algo, data, n), horizon=60, limit=2000000, unit=cells(n, size, grid), weighted=True):
        got[s] = got.get(s, 0) + w
        total += w
    require(total == 1 or abs(total - 1) < 1e-12, lambda: 'harness: the probabilities sum to %r' % float(total))
    want = 1.0 / comb(size, n)
    for s in itertools.combinations(range(size), n):
        p = float(got.get(frozenset(s), 0))
        require(abs(p - want) < 1e-9, lambda: 'the elements %r are sampled with probability %.6f, every subset has to have %.6f' % (s, p, want))
    return (size, n) if 0 < n < size else None


def run_long(case):
    algo, size, n, bound = case
    data = make(size, 'list')
    seen = 0
    for _, s in chance.explore(lambda: sample(algo, data, n), horizon=400, limit=200000, unit=(0.5, 0.0, 0.25, 0.9999999999999999, 1e-300), bound=bound):
        seen += 1
    return seen if 0 < n < size else None


def run_refuse(case):
    algo, size, n = case
    try:
        ALGO[algo](list(range(size)), n)
    except ValueError:
        return True
    require(False, 'a sample of %d elements from %d is drawn' % (n, size))


def families(tier):
    deep = tier == 'thorough'

    budget = 400000 if deep else 60000

    def leaves(algo, size, n, grid):
        """Bound on the number of leaves of the tree of answers."""
        if algo == 'r':
            return factorial(size) // factorial(n)
        return (len(cells(n, size, grid)) * max(n, 1)) ** (size - n)

    def subsets():
        for size in range(0, 10 + deep):
            for n in range(0, size + 1):
                for algo in ('r', 'x'):
                    for kind in ('list', 'points', 'tuple', 'numpy', 'strings'):
                        if leaves(algo, size, n, 1) <= (budget if kind == 'list' else budget // 10):
                            yield algo, size, n, kind, 1

    def fine():
        for size in range(1, 13):
            for n in range(1, size):
                for grid in (100, 64, 16, 7):
                    if leaves('x', size, n, grid) <= budget:
                        yield 'x', size, n, 'list', grid

    def long():
        for size in (10, 25, 60):
            for n in (0, 1, 2, 5, size // 2, size - 1, size):
                for algo in ('r', 'x'):
                    yield algo, size, n, (3 if deep else 2) if size < 60 else 1

    def refuse():
        for size in range(0, 4):
            for more in (1, 2, 9):
                for algo in ('r', 'x'):
                    yield algo, size, size + more

    return [Family('subsets', subsets, run), Family('fine', fine, run), Family('long', long, run_long), Family('refuse', refuse, run_refuse)]
