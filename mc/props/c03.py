"""C03 DBSCAN: density reachability."""
import itertools

from mc import dom, geo
from mc.engine import Family, Violation, require

from pyclustering.cluster.dbscan import dbscan

LEVEL = 'exploration'
RULE = ('every ordered / multiset data set of the stated grids x radius x neighbour threshold x implementation x input '
        'kind; non-trivial: at least one cluster together with noise or a second cluster')
ASSUMPTIONS = ['grid coordinates and radii are chosen so that no distance comparison is decided by rounding',
               'a point does not count as its own neighbour (documented behaviour of both implementations)']


def oracle(dist2, n, eps2, minpts, clusters, noise):
    cl, no = geo.partition(clusters, n, noise)
    near = [[j for j in range(n) if j != i and dist2(i, j) <= eps2] for i in range(n)]
    core = [len(near[i]) >= minpts for i in range(n)]
    nearset = [set(x) for x in near]
    comps = geo.components([i for i in range(n) if core[i]], lambda a, b: b in nearset[a])
    got = sorted(sorted(i for i in c if core[i]) for c in cl)
    require(got == sorted(comps), lambda: 'core points are grouped as %r, density connectivity gives %r (clusters %r, '
            'noise %r)' % (got, sorted(comps), cl, no))
    for c in cl:
        cset = set(c)
        for i in c:
            if not core[i]:
                require(any(core[j] and j in cset for j in near[i]),
                        lambda: 'point %d is in cluster %r without a core neighbour there' % (i, c))
    for i in no:
        require(not core[i], 'core point %d is reported as noise' % i)
        require(not any(core[j] for j in near[i]), 'point %d is next to a core point but is reported as noise' % i)
    return cl, no


def matrix(data):
    return [[geo.euclid(a, b) for b in data] for a in data]


def run(case):
    data, eps, minpts, ccore, kind, dtype = case
    n = len(data)
    if dtype == 'points':
        given = dom.numpyfy(data, kind)
        d2 = lambda i, j: geo.sq(data[i], data[j])
        e2 = eps * eps
    else:
        m = matrix(data)
        given = dom.numpyfy(m, kind)
        d2 = lambda i, j: m[i][j]
        e2 = eps
    o = dbscan(given, eps, minpts, ccore, data_type=dtype)
    o.process()
    cl, no = oracle(d2, n, e2, minpts, o.get_clusters(), o.get_noise())
    return geo.shape(cl, no) if len(cl) + (len(no) > 0) > 1 else None


def cross(datas, epss, mins, kinds=('list',), dtypes=('points',)):
    for data in datas:
        for eps in epss:
            for m in mins:
                for dt in dtypes:
                    for kind in kinds:
                        for ccore in (False, True):
                            yield data, eps, m, ccore, kind, dt


def families(tier):
    deep = tier == 'thorough'
    g5 = [0, 1, 2, 4, 5]

    def small_lines():
        for n in range(1, 6 if deep else 5):
            yield from cross(dom.line(n, g5), (0.0, 1.0, 1.5, 2.0), (1, 2, 3))
        yield from cross(dom.line_sets(5, g5), (0.0, 1.0, 2.5), (1, 2, 3, 4))
        for n in (6, 7, 8) if deep else (6, 7):
            yield from cross(dom.line_sets(n, [0, 1, 3, 4, 9]), (1.0, 2.0, 4.5), (2, 3, 4))

    def planes():
        yield from cross(dom.plane(3, [0, 1, 2]), (1.0, 1.2, 2.0), (1, 2))
        yield from cross(dom.plane_sets(4, [0, 1, 2]), (0.0, 1.0, 1.5, 2.1), (1, 2, 3))
        yield from cross(dom.distinct(5, [[x, y] for x in range(4) for y in range(3)]), (1.0, 1.5), (1, 2, 3))
        if deep:
            yield from cross(dom.plane_sets(6, [0, 1, 3]), (1.0, 1.5, 2.1), (1, 2, 3))
            yield from cross(dom.distinct(6, [[x, y] for x in range(4) for y in range(3)]), (1.0, 1.5), (2, 3))

    def matrices():
        for n in range(1, 5):
            yield from cross(dom.line(n, g5), (0.0, 1.0, 2.0), (1, 2, 3), ('list', 'numpy'), ('distance_matrix',))
        yield from cross(dom.plane_sets(4, [0, 1, 3]), (1.0, 2.5), (1, 2), ('list', 'numpy'), ('distance_matrix',))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (0.0, 1.0, 2.0), (0, 1, 2), ('list', 'tuple', 'numpy', 'int'))
        yield from cross(dom.plane_sets(3, [-1, 0, 2]), (1.0, 2.5), (1, 2), ('list', 'tuple', 'numpy', 'int'))
        cube = [[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 2)]
        yield from cross(dom.distinct(4, cube), (1.0, 1.5, 2.1), (1, 2, 3), ('list', 'numpy'))

    def sizes():
        for n in range(6, 80 if deep else 48):
            for data in (dom.lattice(n), dom.lattice(n, 5, 2, 9), [[float(i % 13) * 3, 0.0, float(i // 13)] for i in range(n)],
                         [[float((i * i) % 31)] for i in range(n)]):
                yield from cross([data], (0.0, 1.1, 2.3, 3.7), (1, 2, 4, 7), ('list',))
                yield from cross([data], (2.3,), (2, 3), ('numpy',), ('points', 'distance_matrix'))

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            for eps in (1.0, 1.5, 2.0):
                yield from cross(dom.scaled(dom.line(4, [0, 1, 2, 4]), f, o), (eps * f,), (1, 2, 3))
                yield from cross(dom.scaled(dom.plane_sets(4, [0, 1, 2]), f, o), (eps * f,), (1, 2))
                yield from cross(dom.scaled(dom.line_sets(4, [0, 1, 3]), f, o), (eps * f,), (1, 2), ('numpy',), ('points', 'distance_matrix'))

    return [Family('line', small_lines, run), Family('plane', planes, run), Family('distance_matrix', matrices, run),
            Family('input_kinds', kinds, run), Family('scaled_sizes', sizes, run),
            Family('magnitudes', magnitudes, run)]
