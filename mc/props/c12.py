"""C12 CLIQUE: grid cells, dense cells, face connectivity."""
import itertools

from mc import dom, geo
from mc.engine import Family, require

from pyclustering.cluster.clique import clique

LEVEL = 'exploration'
RULE = ('every data sequence / set of the grids x intervals x density threshold x input kind x implementation x one or two '
        'process() calls; the reported cells have to tile the bounding box and hold each point once, and clusters and noise '
        'have to follow from the cells; non-trivial: a cluster together with noise or a second cluster')
ASSUMPTIONS = ['a point on the border of two cells may be in either of them', 'corners are compared with a tolerance of 1e-9 of the size']


def run(case):
    data, k, threshold, ccore, kind, twice = case
    n, dim = len(data), len(data[0])
    o = clique(dom.numpyfy(data, kind), k, threshold, ccore=ccore)
    o.process()
    if twice:
        o.process()
    cl, no = geo.partition(o.get_clusters(), n, o.get_noise())
    cells = o.get_cells()
    locs = [tuple(int(x) for x in c.logical_location) for c in cells]
    require(len(locs) == k ** dim and set(locs) == set(itertools.product(range(k), repeat=dim)),
            lambda: '%d cells with locations %r instead of a grid of %d intervals in %d dimensions' % (len(locs), sorted(set(locs))[:9], k, dim))
    lo = [min(p[d] for p in data) for d in range(dim)]
    hi = [max(p[d] for p in data) for d in range(dim)]
    owner = {}
    for c, loc in zip(cells, locs):
        require(c.dimensions == dim, 'dimensions of a cell')
        cmax, cmin = c.spatial_location.get_corners()
        for d in range(dim):
            s = (hi[d] - lo[d]) / k
            tol = 1e-9 * max(1.0, abs(hi[d]), abs(lo[d]))
            require(abs(cmin[d] - (lo[d] + s * loc[d])) <= tol and abs(cmax[d] - (lo[d] + s * (loc[d] + 1))) <= tol,
                    lambda: 'cell %r spans %r .. %r in data from %r to %r with %d intervals' % (loc, list(cmin), list(cmax), lo, hi, k))
            for i in c.points:
                require(cmin[d] - tol <= data[i][d] <= cmax[d] + tol, lambda: 'point %r is outside of its cell %r .. %r' % (data[i], list(cmin), list(cmax)))
        for i in geo.ints(c.points):
            require(i not in owner, lambda: 'point %d is in two cells' % i)
            owner[i] = loc
    require(len(owner) == n, lambda: 'points %r are in no cell' % [i for i in range(n) if i not in owner])
    dense = [loc for c, loc in zip(cells, locs) if len(c.points) > threshold]
    comps = geo.components(dense, lambda a, b: sum(abs(x - y) for x, y in zip(a, b)) == 1)
    where = {loc: i for i, comp in enumerate(comps) for loc in comp}
    want = [[] for _ in comps]
    noise = []
    for i in range(n):
        if owner[i] in where:
            want[where[owner[i]]].append(i)
        else:
            noise.append(i)
    require(sorted(map(sorted, cl)) == sorted(want), lambda: 'clusters %r, the dense cells %r give %r' % (cl, dense, want))
    require(sorted(no) == noise, lambda: 'noise %r instead of %r' % (no, noise))
    return geo.shape(cl, no) if cl and len(cl) + bool(no) > 1 else None


def cross(datas, ks, ts, kinds=('list',), twice=(False,)):
    for data in datas:
        for k in ks:
            for t in ts:
                for kind in kinds:
                    for tw in twice:
                        for ccore in (False, True):
                            yield data, k, t, ccore, kind, tw


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 3.0, 4.0, 9.0]

    def lines():
        for n in (1, 2, 3, 4):
            yield from cross(dom.line(n, g), (1, 2, 3, 5), (0, 1, 2))
        for n in (5, 6) + ((7,) if deep else ()):
            yield from cross(dom.line_sets(n, g + [6.0]), (2, 3, 4, 6), (0, 1, 2))

    def planes():
        yield from cross(dom.plane(3, [0.0, 1.0, 2.0]), (1, 2, 3), (0, 1))
        yield from cross(dom.plane_sets(4, [0.0, 1.0, 3.0, 4.0]) if deep else dom.plane_sets(4, [0.0, 1.0, 4.0]), (2, 3, 4), (0, 1))
        yield from cross(dom.distinct(6, [[x, y] for x in (0.0, 1.0, 2.0, 3.0) for y in (0.0, 1.0, 2.5)]), (2, 3, 4), (0, 1))
        yield from cross(dom.distinct(4, [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 1.5) for z in (0.0, 2.0, 3.0)]), (2, 3), (0, 1))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (1, 2, 3), (0, 1), ('list', 'tuple', 'numpy', 'int'), (False, True))
        yield from cross(dom.plane_sets(3, [-1, 0, 2]), (2, 3), (0, 1), ('list', 'tuple', 'numpy', 'int'), (False, True))

    def rounding():
        # coordinates on cell borders which are not exactly representable, with neighbours one rounding step away
        import numpy
        for lo in (0.0, -1.0, 0.1, -0.3, 1000.1):
            for step in (0.1, 0.3, 0.7, 1.0 / 3):
                for k in range(2, 13):
                    hi = lo + step * k
                    for j in range(1, k):
                        size = (hi - lo) / k
                        a, b = lo + size * j, (lo + size * (j - 1)) + size
                        pts = {a, b, (a + b) / 2}
                        for x in (a, b):
                            pts |= {float(numpy.nextafter(x, 1e9)), float(numpy.nextafter(x, -1e9))}
                        data = [[lo], [hi]] + [[x] for x in sorted(pts)]
                        yield from cross([data, [p + [0.5] for p in data]] if k < 5 else [data], (k,), (0, 1))

    def sizes():
        for n in range(6, 60 if deep else 40):
            for d in (dom.lattice(n), dom.lattice(n, 5, 2, 9), [[float((i * i) % 31)] for i in range(n)]):
                yield from cross([d], (2, 5, 10), (0, 1, 2, 4))

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            yield from cross(dom.scaled(dom.line_sets(5, g), f, o), (2, 3, 5), (0, 1))
            yield from cross(dom.scaled(dom.distinct(5, [[x, y] for x in (0.0, 1.0, 3.0) for y in (0.0, 1.0, 2.5)]), f, o), (2, 3), (0, 1))

    def cells():
        # every choice of occupied cells (one point in the middle of each), and of few of them in larger grids
        def of(chosen, k, dim):
            return [[0.0] * dim, [float(k)] * dim] + [[x + 0.5 for x in c] for c in chosen]
        for dim, k, most in ((2, 3, 9), (3, 2, 8), (2, 4, 5 if deep else 4), (3, 3, 4 if deep else 3), (4, 2, 4 if deep else 3)):
            grid = [c for c in itertools.product(range(k), repeat=dim) if len(set(c)) > 1 or c[0] not in (0, k - 1)]
            for m in range(1, most + 1):
                yield from cross((of(c, k, dim) for c in itertools.combinations(grid, m)), (k,), (0,))
        for dim, k in ((3, 3), (3, 4), (4, 3)):
            # all straight and bent paths through a corner, two points in each cell
            steps = [tuple(s if d == e else 0 for e in range(dim)) for d in range(dim) for s in (1, -1)]
            for start in itertools.product((0, k - 1), repeat=dim):
                for path in itertools.product(steps, repeat=3):
                    cells_, c = [start], start
                    for s in path:
                        c = tuple(a + b for a, b in zip(c, s))
                        cells_.append(c)
                    if all(0 <= x < k for c in cells_ for x in c) and len(set(cells_)) == 4:
                        yield from cross([of(cells_ + cells_, k, dim)], (k,), (1,))

    return [Family('line', lines, run), Family('plane', planes, run), Family('kinds', kinds, run), Family('rounding', rounding, run),
            Family('scaled_sizes', sizes, run),
            Family('cells', cells, run), Family('magnitudes', magnitudes, run)]
