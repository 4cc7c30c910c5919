"""C04 OPTICS: ordering, core and reachability distances."""
import math

from mc import dom, geo
from mc.engine import Counters, Family, require

from pyclustering.cluster.optics import optics, ordering_analyser

LEVEL = 'exploration'
RULE = ('every ordered / multiset data set of the grids x radius x neighbours x requested amount of clusters x input kind x '
        'implementation; the reported processing order is checked step by step against the definition (any tie-break is '
        'accepted); non-trivial: a cluster with at least two members and a second cluster, noise or a requested amount')
ASSUMPTIONS = ['an object is not its own neighbour (documented behaviour of both implementations)', 'minimum neighbours >= 1',
               'start objects are taken in the order of the data',
               'distances within 1e-9 of a searched radius are left undecided (such cases are compared with a plain run only)']
EPS = 1e-9


def eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= 1e-9 * max(1.0, abs(b))


def oracle(D, eps, minpts, clusters, noise, objects):
    n = len(D)
    cl, no = geo.partition(clusters, n, noise)
    near = [sorted((D[i][j], j) for j in range(n) if j != i and D[i][j] <= eps + EPS) for i in range(n)]
    core = [near[i][minpts - 1][0] if len(near[i]) >= minpts else None for i in range(n)]
    require([o.index_object for o in objects] == list(range(n)), 'objects are not the points in order')
    for i, o in enumerate(objects):
        require(eq(o.core_distance, core[i]), lambda: 'core distance of %d is %r instead of %r' % (i, o.core_distance, core[i]))
    starts = [c[0] for c in cl]
    require(starts == sorted(starts), lambda: 'clusters start at %r' % starts)
    done = set()
    events = sorted([(c[0], c) for c in cl] + [(i, None) for i in no], key=lambda e: e[0])
    require(no == sorted(no), lambda: 'noise is %r' % no)
    for first, members in events:
        require(objects[first].reachability_distance is None, lambda: 'start object %d has reachability %r' % (first, objects[first].reachability_distance))
        done.add(first)
        if members is None:
            require(core[first] is None, lambda: 'core object %d is noise' % first)
            continue
        require(core[first] is not None, lambda: 'cluster %r starts with an object which is not core' % members)
        waiting = {}

        def spread(q):
            if core[q] is not None:
                for d, j in near[q]:
                    if j not in done:
                        r = max(core[q], d)
                        if j not in waiting or r < waiting[j]:
                            waiting[j] = r
        spread(first)
        for p in members[1:]:
            require(p in waiting, lambda: 'object %d follows in %r without being reachable' % (p, members))
            r = waiting.pop(p)
            require(eq(objects[p].reachability_distance, r), lambda: 'reachability of %d is %r instead of %r' % (p, objects[p].reachability_distance, r))
            require(not waiting or r <= min(waiting.values()) + EPS, lambda: 'object %d (reachability %r) is processed before %r' % (p, r, waiting))
            done.add(p)
            spread(p)
        require(not waiting, lambda: 'objects %r are reachable but not in cluster %r' % (waiting, members))
    return cl, no


def ordering_of(cl, objects):
    return [objects[i].reachability_distance for c in cl for i in c if objects[i].reachability_distance is not None]


def same(a, b):
    return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))


def run(case):
    data, eps, minpts, amount, ccore, kind, dtype = case
    n = len(data)
    D = [[geo.euclid(a, b) for b in data] for a in data]
    given = dom.numpyfy(data if dtype == 'points' else D, kind)

    def go(e, a):
        o = optics(given, e, minpts, a, ccore, data_type=dtype)
        o.process()
        return o
    o = go(eps, amount)
    r = o.get_radius()
    plain = o if amount is None else go(eps, None)
    require(amount is not None or r == eps, lambda: 'radius %r was changed to %r without need' % (eps, r))
    cl, no = oracle(D, eps, minpts, plain.get_clusters(), plain.get_noise(), plain.get_optics_objects())
    order = ordering_of(cl, plain.get_optics_objects())
    require(same(list(plain.get_ordering()), order), lambda: 'ordering %r, the objects say %r' % (plain.get_ordering(), order))
    if amount is not None:
        if len(cl) == amount:
            require(r == eps, lambda: 'radius %r was changed to %r although there are %d clusters' % (eps, r, amount))
        if r != eps:
            require(order and 0 <= r <= max(order), lambda: 'radius %r outside of the ordering %r' % (r, order))
            found = ordering_analyser(order).extract_cluster_amount(r)[0]
            require(found == amount, lambda: 'radius %r stands for %r clusters of the ordering, not for %d' % (r, found, amount))
        else:
            require(order == [] or len(cl) == amount or ordering_analyser(order).calculate_connvectivity_radius(amount)[0] in (None, 0.0, r),
                    'a radius for the requested amount exists but is not used')
        again = go(r, None)
        cl2, no2 = geo.partition(o.get_clusters(), n, o.get_noise())
        require(cl2 == [geo.ints(c) for c in again.get_clusters()] and no2 == geo.ints(again.get_noise()),
                lambda: 'clusters %r, noise %r; a plain run with radius %r gives %r, %r' % (cl2, no2, r, again.get_clusters(), again.get_noise()))
        for a, b in zip(o.get_optics_objects(), again.get_optics_objects()):
            require(eq(a.core_distance, b.core_distance) and eq(a.reachability_distance, b.reachability_distance), lambda: 'object %r, plain run %r' % (a, b))
        if not any(0 < abs(x - r) < 1e-6 for row in D for x in row):
            oracle(D, r, minpts, o.get_clusters(), o.get_noise(), o.get_optics_objects())
        require(same(list(o.get_ordering()), order) or same(list(o.get_ordering()), ordering_of(cl2, o.get_optics_objects())),
                lambda: 'ordering %r belongs neither to the given nor to the found radius' % (o.get_ordering(),))
        cl, no = cl2, no2
    return (geo.shape(cl, no), r != eps) if any(len(c) > 1 for c in cl) and (len(cl) + len(no) > 1 or amount) else None


def run_analyser(case):
    """The amount of clusters of a diagram: independent count of the rises over the radius."""
    order, amount = case
    a = ordering_analyser(list(order))
    require(len(a) == len(order) and list(a.cluster_ordering) == list(order), 'the analyser changed the ordering')
    radius, borders = a.calculate_connvectivity_radius(amount)
    require(borders == sorted(set(borders)) and all(0 < b < len(order) for b in borders), lambda: 'borders %r' % (borders,))
    if radius is None:
        return None
    require(0.0 <= radius <= max(order), 'radius %r' % radius)
    got, b2 = a.extract_cluster_amount(radius)
    require(got == amount and b2 == borders, lambda: 'radius %r gives %r with %r, asked for %d with %r' % (radius, got, b2, amount, borders))
    require(len(borders) in (amount - 1, amount - 2), lambda: '%d clusters with borders %r' % (amount, borders))
    # at least one rise over the radius for each additional cluster
    runs = sum(1 for i, d in enumerate(order) if d >= radius and (i == 0 or order[i - 1] < radius))
    require(amount >= runs + 1, lambda: '%d clusters but %d separate peaks over %r' % (amount, runs, radius))
    return amount


def cross(datas, epss, mins, amounts=(None,), kinds=('list',), dtypes=('points',)):
    for data in datas:
        for eps in epss:
            for m in mins:
                for a in amounts:
                    for dt in dtypes:
                        for kind in kinds:
                            for ccore in (False, True):
                                yield data, eps, m, a, ccore, kind, dt


def families(tier):
    deep = tier == 'thorough'
    g5 = [0, 1, 2, 4, 5]

    def lines():
        for n in range(1, 6 if deep else 5):
            yield from cross(dom.line(n, g5), (0.0, 1.0, 2.5), (1, 2))
        yield from cross(dom.line(4, g5[1:]), (2.0, 3.5), (1, 2, 3))
        yield from cross(dom.line_sets(5, g5), (1.0, 2.5, 9.0), (1, 2, 3))
        for n in (6, 7, 8) if deep else (6, 7):
            yield from cross(dom.line_sets(n, [0, 1, 3, 4, 9]), (1.0, 2.0, 4.5), (2, 3))

    def planes():
        yield from cross(dom.plane(3, [0, 1, 3]), (1.2, 2.5), (1, 2))
        yield from cross(dom.plane_sets(4, [0, 1, 3]), (1.0, 1.5, 2.3), (1, 2, 3))
        yield from cross(dom.distinct(5, [[x, y] for x in range(4) for y in range(3)]), (1.0, 1.5, 2.1), (1, 2, 3))
        if deep:
            yield from cross(dom.plane_sets(5, [0, 1, 3]), (1.5, 2.3), (1, 2, 3))
            yield from cross(dom.distinct(6, [[x, y] for x in range(4) for y in range(3)]), (1.5, 2.3), (2, 3))

    def amounts():
        for n in (1, 2, 3, 4):
            yield from cross(dom.line(n, [0, 1, 3, 7]) if n < 4 or deep else dom.line_sets(n, [0, 1, 3, 7]), (0.5, 2.0, 9.0), (1, 2), (1, 2, 3))
        yield from cross(dom.line_sets(6, [0, 1, 2, 5, 6, 13]), (4.0, 20.0), (1, 2), (1, 2, 3, 4))
        yield from cross(dom.distinct(6, [[x] for x in (0, 1, 2.5, 6, 7, 8.25, 14, 15)]), (20.0,), (1, 2), (2, 3, 4))
        yield from cross(dom.distinct(5, [[x, y] for x in (0, 1, 4, 6) for y in (0, 1, 5)]), (9.0,), (1, 2), (2, 3))

    def matrices():
        for n in range(1, 5):
            yield from cross(dom.line(n, g5), (0.0, 1.0, 2.0), (1, 2), (None, 2), ('list', 'numpy') if n < 4 else ('list',), ('distance_matrix',))
        yield from cross(dom.plane_sets(4, [0, 1, 3]), (1.0, 2.5), (1, 2), (None,), ('list', 'numpy'), ('distance_matrix',))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (1.0, 2.0), (1, 2), (None, 2), ('list', 'tuple', 'numpy', 'int'))
        cube = [[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 2)]
        yield from cross(dom.distinct(4, cube), (1.0, 1.5, 2.1), (1, 2, 3), (None,), ('list', 'numpy'))

    def sizes():
        for n in range(6, 60 if deep else 40):
            for data in (dom.lattice(n), dom.lattice(n, 5, 2, 9), [[float((i * i) % 31)] for i in range(n)]):
                yield from cross([data], (1.1, 2.3, 3.7, 30.0), (1, 2, 4), (None,), ('list',))
                yield from cross([data], (3.7, 30.0), (2, 3), (None, 2, 3, 5), ('list',), ('points', 'distance_matrix'))

    def orderings():
        import itertools
        for n in range(1, 7 if deep else 6):
            for o in itertools.product((0.5, 1.0, 2.0, 3.0, 5.0), repeat=n):
                for a in (1, 2, 3, 4):
                    yield list(o), a

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            for eps in (1.5, 3.5):
                yield from cross(dom.scaled(dom.line(4, [0, 1, 2, 4]), f, o), (eps * f,), (1, 2))
                yield from cross(dom.scaled(dom.plane_sets(4, [0, 1, 3]), f, o), (eps * f,), (2,))
                yield from cross(dom.scaled(dom.line_sets(5, [0, 1, 3, 7]), f, o), (eps * f,), (1, 2), (None, 2))

    return [Family('line', lines, run), Family('plane', planes, run), Family('amount_clusters', amounts, run), Family('distance_matrix', matrices, run),
            Family('input_kinds', kinds, run), Family('scaled_sizes', sizes, run), Family('ordering_analyser', orderings, run_analyser),
            Family('magnitudes', magnitudes, run)]
