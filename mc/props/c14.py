"""C14 ROCK: greedy merges by goodness."""
from mc import dom, geo, greedy
from mc.engine import Counters, Family, require

from pyclustering.cluster.rock import rock

LEVEL = 'exploration'
RULE = ('every data sequence / multiset of the grids x radius (including radii equal to a distance) x number of clusters x '
        'threshold x implementation x input kind; the result has to be one of the partitions reachable by merging a pair of '
        'largest goodness with any tie-break (breadth-first search over partitions); non-trivial: a merge happened and at '
        'least two clusters remain')
ASSUMPTIONS = ['neighbours are points closer than the radius, links of two clusters are their pairs of neighbours (as documented)',
               'thresholds are below 1, where the normalisation degenerates',
               'goodness values closer than 1e-9 count as tied; the tie search is limited to 3000 (150 from 9 points) partitions per level (such cases '
               'are checked to be a partition only, and counted)']
LIMIT = 3000
_memo = {}


def expected(data, eps, k, threshold):
    key = (tuple(map(tuple, data)), eps, k, threshold)
    if key not in _memo:
        if len(_memo) > 2000:
            _memo.clear()
        n = len(data)
        near = [[i != j and geo.sq(data[i], data[j]) < eps * eps for j in range(n)] for i in range(n)]
        f = 1.0 + 2.0 * (1.0 - threshold) / (1.0 + threshold)

        def value(a, b):
            links = sum(near[i][j] for i in a for j in b)
            return -links / ((len(a) + len(b)) ** f - len(a) ** f - len(b) ** f)
        _memo[key] = greedy.reachable(n, k, value, LIMIT if n < 9 else 150, lambda v: v == 0)
    return _memo[key]


def run(case):
    data, eps, k, threshold, ccore, kind = case
    kw = {} if threshold is None else {'threshold': threshold}
    o = rock(dom.numpyfy(data, kind), eps, k, ccore=ccore, **kw)
    o.process()
    cl, _ = geo.partition(o.get_clusters(), len(data))
    want = expected(data, eps, k, 0.5 if threshold is None else threshold)
    if want is None:
        Counters.notes['too_many_ties'] = Counters.notes.get('too_many_ties', 0) + 1
        return None
    got = frozenset(frozenset(c) for c in cl)
    require(got in want, lambda: 'ROCK gives %r; merging by goodness gives %r' % (cl, [sorted(map(sorted, w)) for w in list(want)[:4]]))
    return geo.shape(cl) if 1 < len(cl) < len(data) else None


def cross(datas, epss, ks, thresholds=(0.5,), kinds=('list',)):
    for data in datas:
        for eps in epss:
            for k in ks:
                if k > len(data) + 1:
                    continue
                for t in thresholds:
                    for ccore in (False, True):
                        for kind in kinds:
                            yield data, eps, k, t, ccore, kind


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 2.0, 4.0, 4.5, 7.0]
    T = (0.0, 0.3, 0.9)

    def lines():
        for n in (1, 2, 3, 4):
            yield from cross(dom.line(n, g), (0.25, 1.0, 2.5), (1, 2, 3), (0.0, 0.7))
        yield from cross(dom.line_sets(5, g), (1.0, 2.0, 2.5, 3.0), range(1, 5), T)
        for n in (6, 7) + ((8,) if deep else ()):
            yield from cross(dom.distinct(n, [[x] for x in (0.0, 1.0, 2.5, 4.5, 5.25, 8.0, 9.0, 11.5, 12.25)]), (1.5, 2.5, 3.0), range(1, 5), T)

    def planes():
        p = [[x, y] for x in (0.0, 1.0, 2.5) for y in (0.0, 1.5, 4.0)]
        yield from cross(dom.distinct(4, p), (1.25, 2.0, 3.0, 5.0), (1, 2, 3), T)
        yield from cross(dom.distinct(5, p), (1.75, 2.5, 3.0), (1, 2, 3), T)
        yield from cross(dom.distinct(6, p), (2.0, 2.5), (1, 2, 3), (0.0, 0.7) if deep else (0.2,))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (1.5, 2.0), (1, 2), (None,), ('list', 'tuple', 'numpy', 'int'))
        cube = [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 1.5) for z in (0.0, 2.0)]
        yield from cross(dom.distinct(4, cube), (1.25, 1.75, 2.25), (1, 2, 3), (0.4,), ('list', 'numpy'))

    def sizes():
        for n in range(7, 40 if deep else 26):
            for d in ([[float(i * i % 97) + i / 16.0] for i in range(n)],
                      [[x + i * i / 64.0, y + i / 32.0] for i, (x, y) in enumerate(dom.lattice(n))]):
                yield from cross([d], (1.0, 4.0, 9.0), (1, 2, 3, 5), (0.0, 0.5))

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            yield from cross(dom.scaled(dom.line(4, g[:5]), f, o), (1.5 * f, 2.25 * f), (1, 2), (0.5,))
            yield from cross(dom.scaled(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 2.5) for y in (0.0, 1.5, 4.0)]), f, o), (2.25 * f,), (1, 2), (0.0, 0.7))

    return [Family('line', lines, run), Family('plane', planes, run), Family('kinds', kinds, run), Family('scaled_sizes', sizes, run),
            Family('magnitudes', magnitudes, run)]
