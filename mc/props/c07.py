"""C07 K-Medians."""
import itertools

from mc import dom, geo, lloyd
from mc.engine import Family, Skip, require
from mc.refmetric import instance, reference

from pyclustering.cluster.kmedians import kmedians

LEVEL = 'exploration'
RULE = ('every data sequence / multiset of the grids x initial medians of the grid x metric x tolerance x iteration limit '
        'x implementation; the result is compared with reference iterations wherever no decision is tied, and with the '
        'definition of medians, error and prediction always; non-trivial: more than one cluster')
ASSUMPTIONS = ['decisions closer than 1e-9 count as tied; tied cases are checked for consistency only',
               'an iteration limit of zero is outside of the property (there is no result to speak about)']

PROBES = {1: [[-3.0], [0.4], [1.6], [2.2], [50.0]], 2: [[-1.0, 0.3], [1.2, 1.1], [9.0, -4.0]],
          3: [[0.2, 0.1, 1.0], [5.0, -5.0, 2.0]]}


def run(case):
    data, medians, mname, marg, tol, itermax, ccore, kind = case
    metric = reference(mname, marg)
    kw = {} if mname == 'EUCLIDEAN_SQUARE' and kind == 'list' else dict(metric=instance(mname, marg))
    o = kmedians(dom.numpyfy(data, kind), dom.numpyfy(medians, kind), tol, ccore, itermax=itermax, **kw)
    if len(data) % 2:
        require(len(o.predict(data)) == 0, 'prediction before processing is not empty')
    o.process()
    ref = lloyd.iterate(data, medians, metric, lloyd.median, tol, itermax)
    cl = lloyd.consistent(data, o.get_clusters(), o.get_medians(), o.get_total_wce(), metric, lloyd.median)
    pts = data + PROBES.get(len(data[0]), [])
    lloyd.check_predict(o.predict(pts), pts, o.get_medians(), metric)
    if not ref['tied']:
        require([sorted(c) for c in cl] == ref['clusters'], lambda: 'clusters %r, the iterations give %r' % (cl, ref['clusters']))
        require(all(geo.close_vec(list(a), b) for a, b in zip(o.get_medians(), ref['centers'])), 'medians %r, the iterations give %r' % (o.get_medians(), ref['centers']))
    return (geo.shape(cl), ref['iterations']) if len(cl) > 1 else None


BASIC = [('EUCLIDEAN_SQUARE', None)]
ALL = [('EUCLIDEAN_SQUARE', None), ('EUCLIDEAN', None), ('MANHATTAN', None), ('CHEBYSHEV', None), ('MINKOWSKI', 4), ('MINKOWSKI', None),
       ('CANBERRA', None), ('CHI_SQUARE', None), ('USER_DEFINED', None)]


def cross(datas, centersets, metrics, tols, iters, kinds=('list',)):
    for data in datas:
        for centers in centersets:
            for mn, ma in metrics:
                for tol in tols:
                    for it in iters:
                        for kind in kinds:
                            for ccore in (False, True):
                                if mn == 'USER_DEFINED' and ccore and (it, tol) != (100, 0.0):
                                    continue
                                yield data, centers, mn, ma, tol, it, ccore, kind


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 3.0, 7.0]
    c1 = [[[a]] for a in (0.0, 2.0)] + [[[a], [b]] for a in (0.0, 1.5, 6.0, 20.0) for b in (0.0, 2.5, 7.0)]
    c3 = [[[a], [b], [c]] for a, b, c in itertools.permutations((-9.0, 0.0, 1.0, 6.5), 3)]

    def lines():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, g), c1, BASIC, (0.0, 0.001, 1.0), (1, 2, 100))
        yield from cross(dom.line(4, g) if deep else dom.line_sets(4, g), c1 + c3, BASIC, (0.0, 0.5), (1, 2, 3, 100))
        yield from cross(dom.line_sets(6, [0.0, 1.0, 3.0, 4.0, 10.0]), c1 + c3, BASIC, (0.0, 2.0), (2, 100) if deep else (100,))

    cp = [[[0.0, 0.0], [2.0, 1.0]], [[0.5, 0.5], [0.5, 2.0], [2.0, 0.5]], [[5.0, 5.0], [0.0, 0.0]], [[1.0, 1.0]],
          [[0.0, 0.0], [0.0, 2.0], [2.0, 0.0], [2.0, 2.0]]]

    def planes():
        pts = [0.0, 1.0, 3.0]
        yield from cross(dom.plane_sets(3, pts), cp, BASIC, (0.0, 0.3), (1, 2, 100))
        yield from cross(dom.distinct(5, [[x, y] for x in (0.0, 1.0, 4.0) for y in (0.0, 2.0, 3.0)]), cp, BASIC, (0.0,), (1, 2, 100))
        if deep:
            yield from cross(dom.plane_sets(5, pts), cp, BASIC, (0.0, 0.3), (1, 100))

    def metrics():
        yield from cross(dom.line_sets(4, [0.0, 1.0, 3.0, 7.5]), [[[0.5], [6.0]], [[30.0], [1.0], [2.0]]], ALL, (0.0, 0.25), (1, 100))
        data = list(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 5.0) for y in (0.5, 2.0, 3.0)]))
        yield from cross(data if deep else data[::2], [[[0.5, 0.5], [4.0, 3.0]], [[1.0, 1.0], [2.0, 2.0], [9.0, 0.0]]], ALL, (0.0,), (1, 2, 100))
        for rng in ([5.0, 2.5], [0.5, 8.0]):
            yield from cross(data[::3], [[[0.5, 0.5], [4.0, 3.0]]], [('GOWER', rng)], (0.0,), (1, 100))

    def kinds():
        for n in (2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), [[[0], [1]], [[-2], [5]]], BASIC + [('MANHATTAN', None)], (0.0,), (1, 100), ('list', 'tuple', 'numpy', 'int'))
        cube = [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 1.5) for z in (0.0, 2.0)]
        yield from cross(dom.distinct(4, cube), [[[0.0, 0.0, 0.0], [1.0, 1.0, 2.0]]], BASIC, (0.0,), (1, 2, 100), ('list', 'numpy'))

    def sizes():
        for n in range(7, 90 if deep else 50):
            for d in (dom.lattice(n), [[x, y, (x * y) % 5.0] for x, y in dom.lattice(n, 5, 4, 13)], [[float((i * i * 3) % 101)] for i in range(n)]):
                k = [d[i] for i in (0, n // 3, n // 2)] + [[x + 0.5 for x in d[n - 1]]]
                yield from cross([d], [k, k[1:]], BASIC + [('MANHATTAN', None)], (0.0, 0.01), (1, 3, 100))

    def groups():
        for counts in ((3, 4), (5, 1, 2), (10, 10, 10), (2, 2, 2, 2), (17, 3), (1, 1, 1, 1, 1), (33, 30)):
            d = dom.blobs(counts)
            for c in ([[0.1, 0.2], [10.1, 10.2]], [[0.0, 0.0], [11.0, 11.0], [21.0, 21.0]], [[5.0, 5.0], [6.0, 6.0], [50.0, 50.0], [12.0, 9.0], [0.0, 1.0]]):
                yield from cross([d], [c], ALL, (0.0, 0.1), (1, 2, 100))

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            cs = lambda sets: list(dom.scaled(sets, f, o))
            for tol in (0.0, 0.5):
                yield from cross(dom.scaled(dom.line_sets(4, g + [7.5]), f, o), cs([[[1.5], [2.5]], [[0.0], [7.0], [6.0]]]), BASIC, (tol * f,), (1, 2, 100))
                yield from cross(dom.scaled(dom.line_sets(5, [0.0, 1.0, 1.5, 4.0]), f, o), cs([[[0.0], [4.5]], [[2.0]]]), BASIC, (tol * f,), (1, 100))
            yield from cross(dom.scaled(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 4.0) for y in (0.0, 2.0, 3.0)]), f, o), cs([[[0.0, 0.0], [2.0, 1.0]]]), BASIC, (0.0,), (1, 2, 100))
            yield from cross(dom.scaled(dom.permuted(5, [0.0, 1.0, 1.5, 4.0, 4.25]), f, o), cs([[[0.0], [4.5]], [[2.0]]]), BASIC, (0.0,), (100,))

    return [Family('line', lines, run), Family('plane', planes, run), Family('metrics', metrics, run), Family('kinds', kinds, run),
            Family('scaled_sizes', sizes, run), Family('scaled_sizes_5_processors', sizes, run, hwc=5),
            Family('groups', groups, run),
            Family('magnitudes', magnitudes, run)]
