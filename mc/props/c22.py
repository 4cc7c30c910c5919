"""C22 Center initializers."""
import ctypes
import itertools
from fractions import Fraction

import numpy

from mc import build, chance, dom, geo
from mc.engine import Counters, Family, require
from mc.refmetric import instance, reference

from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer, random_center_initializer

FAR = kmeans_plusplus_initializer.FARTHEST_CENTER_CANDIDATE

LEVEL = 'model_checking'
RULE = ('data sequences of the grids x amount x number of candidates x metric x form x implementation, and for each of them every '
        'sequence of random answers (draws from [0, 1) from an alphabet with the extreme values, or from one representative of '
        'every cell between all thresholds that occur, weighted by the size of the cell, which makes the distribution of the '
        'results exact); states are the executions, transitions the answers; the core runs with its random engine and '
        'distributions replaced by the explorer (tape.hpp); non-trivial: more than one center')
ASSUMPTIONS = ['the order of the centers is the order in which they are drawn',
               'which of several equally far points is taken, and which point when all the remaining ones coincide with a center, is not specified',
               'the random initializer of the core answers an impossible amount by an empty result, the others refuse it']

EXTREME = (0.0, 0.37, 0.71, 0.9999999999999999)
_core = []


def core():
    if not _core:
        lib = chance.attach(ctypes.CDLL(build.harness(build.ensure(), 'init')))
        lib.init_centers.restype = ctypes.c_long
        _core.append(lib)
    return _core[0]


def by_core(kind, data, amount, candidates, metric, form, span):
    """(indexes or None when the values cannot tell, values), or None when refused."""
    n, dim = len(data), len(data[0])
    flat = (ctypes.c_double * (n * dim))(*[x for p in data for x in p])
    out = (ctypes.c_double * ((amount + 1) * dim))()
    span = list(span or [])
    r = core().init_centers(ctypes.c_long(1 if kind == 'random' else 0), ctypes.c_long(amount), ctypes.c_long(-1 if candidates == FAR else candidates or 0),
                            ctypes.c_long(metric == 'EUCLIDEAN'), ctypes.c_long({'points': 0, 'indexes': 1, 'range': 2}[form]), ctypes.c_long(n), ctypes.c_long(dim),
                            flat, ctypes.c_long(len(span)), (ctypes.c_long * max(1, len(span)))(*span), out)
    if r < 0:
        return None
    if form == 'indexes':
        return [int(out[i]) for i in range(r)]
    return [[out[i * dim + d] for d in range(dim)] for i in range(r)]


def by_python(kind, given, amount, candidates, metric, form, again):
    kw = {}
    if kind == 'random':
        o = random_center_initializer(given, amount)
    else:
        if metric != 'EUCLIDEAN_SQUARE':
            kw['metric'] = instance(metric)
        if form == 'matrix':
            kw['data_type'] = 'distance_matrix'
        o = kmeans_plusplus_initializer(given, amount, candidates, **kw)
    ask = dict(return_index=True) if form == 'indexes' else {}
    if again:
        with chance.muted():
            o.initialize(**ask)
    return o.initialize(**ask)


def judge(kind, data, amount, candidates, dist, form, got, span=None):
    """The chosen indexes, where the values tell them."""
    allowed = list(range(len(data))) if not span else span
    require(got is not None, 'the request is refused')
    require(len(got) == amount, lambda: '%d centers for %d asked: %r' % (len(got), amount, got))
    if form in ('indexes', 'matrix'):
        idx = []
        for g in got:
            require(int(g) == g and int(g) in allowed, lambda: '%r is not an index of a point: %r' % (g, got))
            idx.append(int(g))
        require(len(set(idx)) == amount, lambda: 'points are used several times: %r' % (idx,))
    else:
        idx, free = [], list(allowed)
        for g in got:
            here = [i for i in free if [float(x) for x in g] == [float(x) for x in data[i]]]
            require(here, lambda: 'center %r is not a (further) point of the data: %r' % (list(g), [list(map(float, x)) for x in got]))
            free.remove(here[0])
            idx.append(here[0])
    if kind == 'kpp':
        for step in range(1, amount):
            far = {i: min(dist(i, c) for c in idx[:step]) for i in allowed}
            top = max(far.values())
            if top > 0.0:
                require(far[idx[step]] > 0.0, lambda: 'center %d coincides with a chosen one while other points remain: %r of %r' % (step, idx, data))
                if candidates == FAR:
                    require(geo.close(far[idx[step]], top), lambda: 'center %d is at %r, the farthest point is at %r: %r' % (step, far[idx[step]], top, idx))
    return tuple(idx)


def setup(case):
    kind, data, amount, candidates, metric, form, impl, span = case
    if form == 'matrix':
        m = reference(metric)
        given = [[m(a, b) for b in data] for a in data]
    else:
        given = dom.numpyfy(data, form if form in ('tuple', 'numpy', 'int') else 'list')
    m = reference(metric)
    dist = lambda i, j: m(data[i], data[j])
    if impl == 'core':
        return dist, lambda: by_core(kind, data, amount, candidates, metric, form, span)
    return dist, lambda: by_python(kind, given, amount, candidates, metric, form, impl == 'again')


def run(case):
    kind, data, amount, candidates, metric, form, impl, span = case
    dist, once = setup(case)
    seen = set()
    for _, got in chance.explore(once, horizon=40, limit=20000, unit=EXTREME):
        seen.add(judge(kind, data, amount, candidates, dist, form, got, span))
    allowed = span or range(len(data))
    distinct = len({tuple(data[i]) for i in allowed}) == len(allowed)
    if kind == 'random' and distinct:
        reached = {frozenset(s) for s in seen}
        for s in itertools.combinations(allowed, amount):
            require(frozenset(s) in reached, lambda: 'the points %r cannot be drawn' % (s,))
    return len(seen) if amount > 1 else None


# -- exact distribution of K-Means++ ------------------------------------------------------------------------------------
def cells(data, amount, dist):
    """Alphabet of [0, 1): a representative and the size of every cell between the thresholds that can occur."""
    n = len(data)
    cuts = {Fraction(0), Fraction(1)}
    for size in range(1, amount):
        for state in itertools.combinations(range(n), size):
            d = [Fraction(min(dist(i, c) for c in state)).limit_denominator(10 ** 6) for i in range(n)]
            total = sum(d)
            if total == 0:
                continue
            x = Fraction(0)
            for v in d:
                x += v / total
                cuts |= {x, 1 - x}
    cuts = sorted(cuts)
    return [(float((a + b) / 2), b - a) for a, b in zip(cuts, cuts[1:])]


def distribution(data, amount, candidates, dist):
    n = len(data)
    out = {(i,): Fraction(1, n) for i in range(n)}
    for _ in range(1, amount):
        new = {}
        for state, weight in out.items():
            d = [Fraction(min(dist(i, c) for c in state)).limit_denominator(10 ** 6) for i in range(n)]
            total = sum(d)
            for i in range(n):
                if i in state:
                    continue
                upto = sum(x for x in d if x <= d[i]) / total
                below = sum(x for x in d if x < d[i]) / total
                p = (upto ** candidates - below ** candidates) / sum(1 for x in d if x == d[i])
                if p:
                    new[state + (i,)] = weight * p
        out = new
    return out


def run_distribution(case):
    kind, data, amount, candidates, metric, form, impl, span = case
    dist, once = setup(case)
    got = {}
    total = Fraction(0)
    for _, r, w in chance.explore(once, horizon=40, limit=400000, unit=cells(data, amount, dist), weighted=True):
        k = judge(kind, data, amount, candidates, dist, form, r, span)
        got[k] = got.get(k, 0) + w
        total += w
    require(abs(total - 1) < 1e-12, lambda: 'harness: the probabilities sum to %r' % float(total))
    want = distribution(data, amount, candidates or 3, dist)
    for k in set(got) | set(want):
        require(abs(float(got.get(k, 0)) - float(want.get(k, 0))) < 1e-9,
                lambda: 'centers %r are drawn with probability %.6f, %.6f is expected' % (k, float(got.get(k, 0)), float(want.get(k, 0))))
    return len(got)


# -- seeds and refusals -------------------------------------------------------------------------------------------------
def run_seed(case):
    kind, data, amount, seed, entropy = case
    out = []
    for e in (entropy, entropy + 1):
        with chance.owned(e):
            if kind == 'random':
                o = random_center_initializer(data, amount, random_state=seed)
            else:
                o = kmeans_plusplus_initializer(data, amount, random_state=seed)
            out.append([list(map(float, c)) for c in o.initialize()])
    require(out[0] == out[1], lambda: 'seed %r gives %r and %r' % (seed, out[0], out[1]))
    judge(kind, data, amount, 3, lambda i, j: geo.sq(data[i], data[j]), 'points', out[0])
    return repr(out[0]) if amount > 1 else None


def run_refuse(case):
    kind, data, amount, candidates, how = case
    try:
        if how == 'core':
            r = by_core('kpp', data, amount, candidates, 'EUCLIDEAN_SQUARE', 'points', None)
            require(r is None, lambda: '%d centers of %d points are accepted: %r' % (amount, len(data), r))
            return True
        if kind == 'random':
            r = random_center_initializer(data, amount).initialize()
        else:
            kw = dict(data_type='distance_matrix') if how == 'matrix' else {}
            r = kmeans_plusplus_initializer(data, amount, candidates, **kw).initialize(**(dict(return_index=False) if how == 'matrix' else {}))
    except ValueError:
        return True
    require(False, lambda: 'amount %r, candidates %r of %d points are accepted: %r' % (amount, candidates, len(data), r))


def families(tier):
    deep = tier == 'thorough'
    core()

    def forms(kind, data, amount, candidates, metrics=('EUCLIDEAN_SQUARE',), more=True):
        for m in metrics:
            for form in (('list', 'indexes', 'numpy', 'tuple', 'matrix') if more else ('list', 'indexes')):
                if form == 'matrix' and kind == 'random':
                    continue
                yield kind, data, amount, candidates, m, form, 'python', None
            yield kind, data, amount, candidates, m, 'list', 'again', None
            if m in ('EUCLIDEAN_SQUARE', 'EUCLIDEAN'):
                if candidates is not None or kind == 'random':
                    yield kind, data, amount, candidates, m, 'points', 'core', None
                    if kind != 'random':
                        yield kind, data, amount, candidates, m, 'indexes', 'core', None

    def randoms():
        for n in (1, 2, 3, 4):
            for data in dom.line(n, [0.0, 1.0, 4.0][:3 if n < 4 else 2]):
                for amount in range(1, n + 1):
                    yield from forms('random', data, amount, None, more=n < 4)
        for n in (5, 6):
            data = dom.lattice(n)
            for amount in range(1, n + 1 if n < 6 else 4):
                yield from forms('random', data, amount, None, more=n < 6)

    def plus_plus():
        for n in (1, 2, 3):
            for data in dom.line(n, [0.0, 1.0, 4.0]):
                for amount in range(1, n + 1):
                    for c in (1, 2, FAR) + ((None,) if amount < 3 else ()):
                        if c in (None, 1, FAR) or c <= n:
                            yield from forms('kpp', data, amount, c)
        for data in dom.line(4, [0.0, 1.0, 4.0]):
            for amount in (2, 3, 4):
                for c in (1, FAR) + ((2,) if amount < 4 else ()):
                    yield from forms('kpp', data, amount, c, more=False)
        for data in dom.plane_sets(4, (0.0, 3.0), (0.0, 1.0)):
            for m in ('EUCLIDEAN', 'MANHATTAN', 'CHEBYSHEV', 'USER_DEFINED'):
                for amount in (2, 3):
                    for c in (1, FAR):
                        if m != 'USER_DEFINED':
                            yield from forms('kpp', data, amount, c, (m,), False)

    def wide():
        for n in (6, 9, 14) + ((20,) if deep else ()):
            for data in (dom.lattice(n), [[float(i // 3)] for i in range(n)], [[0.0]] * (n - 1) + [[5.0]]):
                for amount, c in ((2, 1), (2, 2), (3, 1), (n, FAR), (4, FAR)):
                    yield from forms('kpp', data, amount, c, more=False)

    def ranges():
        for data in ([[0.0], [1.0], [4.0], [9.0]], [[5.0], [5.0], [0.0], [2.0], [9.0]], [[0.0], [7.0], [0.0], [7.0], [1.0]]):
            n = len(data)
            for size in range(1, n + 1):
                for span in itertools.permutations(range(n), size):
                    if size > 3 and list(span) != sorted(span) and list(span) != sorted(span)[::-1]:
                        continue
                    for amount in range(1, min(size, 3) + 1):
                        for c in (1, 2, FAR):
                            yield 'kpp', data, amount, c, 'EUCLIDEAN_SQUARE', 'range', 'core', list(span)
                        yield 'random', data, amount, None, 'EUCLIDEAN_SQUARE', 'range', 'core', list(span)

    def distributions():
        for data in dom.permuted(3, (0.0, 1.0, 3.0, 4.0)):
            for amount in (2, 3):
                for c in (1, 2) + ((None,) if data < [[2.0]] or deep else ()):
                    if amount < 3 or c == 1:
                        yield from forms('kpp', data, amount, c, ('EUCLIDEAN_SQUARE', 'EUCLIDEAN') if c == 1 else ('EUCLIDEAN_SQUARE',), False)
        for data in dom.permuted(4, (0.0, 1.0, 3.0, 4.0) + ((8.0,) if deep else ())):
            yield from forms('kpp', data, 2, 1, more=False)
            yield from forms('kpp', data, 2, 2, more=False)
            if data[0] == [1.0]:
                yield from forms('kpp', data, 3, 1, more=False)
        for n in (5, 6, 7):
            yield from forms('kpp', dom.lattice(n), 2, 1, ('EUCLIDEAN_SQUARE', 'MANHATTAN'), False)

    def seeds():
        for data in (dom.lattice(7), [[0.0], [1.0], [1.0], [4.0], [9.0], [9.5]]):
            for kind in ('kpp', 'random'):
                for amount in range(1, len(data) + 1):
                    for seed in (0, 1, 2, 77, 2 ** 31):
                        yield kind, data, amount, seed, 11

    def refuse():
        for data in ([[0.0], [1.0], [2.0]], [[0.0, 0.0]]):
            n = len(data)
            for amount in (0, -1, n + 1, n + 5):
                yield 'random', data, amount, None, 'python'
                yield 'kpp', data, amount, None, 'python'
                if amount > n:
                    yield 'kpp', data, amount, 1, 'core'
            for c in (0, -2, n + 1):
                yield 'kpp', data, 1, c, 'python'
        yield 'kpp', [[0.0, 1.0], [1.0, 0.0]], 1, 1, 'matrix'
        for kind in ('kpp', 'random'):
            yield kind, [], 1, None, 'python'

    return [Family('randoms', randoms, run), Family('plus_plus', plus_plus, run), Family('wide', wide, run), Family('ranges', ranges, run),
            Family('distributions', distributions, run_distribution), Family('seeds', seeds, run_seed), Family('refuse', refuse, run_refuse)]
