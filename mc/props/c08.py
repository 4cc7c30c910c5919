"""C08 K-Medoids (PAM) and PAM build."""
import itertools

import numpy

from mc import dom, geo
from mc.engine import Counters, Family, require
from mc.refmetric import instance, reference

from pyclustering.cluster.kmedoids import build, kmedoids

LEVEL = 'exploration'
RULE = ('every data sequence / set of the grids (as points and as distance matrix) x initial medoids x metric x tolerance x '
        'iteration limit x implementation; the final medoids have to be in the set reachable by best-improvement exchanges '
        'with any tie-break (breadth-first search over sets of medoids); non-trivial: at least one exchange was possible')
ASSUMPTIONS = ['deviations closer than 1e-9 count as tied', 'initial medoids are distinct valid indexes, iteration limit >= 1',
               'distance matrices are symmetric with zeros on the diagonal only']
EPS = 1e-9


def matrix_of(data, metric):
    return [[metric(a, b) for b in data] for a in data]


def deviation(D, med):
    return sum(min(row[m] for m in med) for row in D)


def best_moves(D, med):
    """(best deviation after one exchange, [medoid sets reaching it]) over non-medoids; None when there is none."""
    n = len(D)
    best, out = None, set()
    for m in med:
        for c in range(n):
            if c in med:
                continue
            new = (med - {m}) | {c}
            v = deviation(D, new)
            if best is None or v < best - EPS:
                best, out = v, {new}
            elif v <= best + EPS:
                out.add(new)
    return best, out


def reachable(D, initial, tol, itermax):
    """Medoid sets in which steepest exchange may stop."""
    final = set()
    level = {frozenset(initial)}
    seen = set(level)
    for it in range(itermax):
        nxt = set()
        for med in level:
            here = deviation(D, med)
            best, moves = best_moves(D, med)
            if best is None or best >= here - EPS:
                final.add(med)
                if best is not None and best <= here + EPS:
                    final |= moves      # an exchange that changes nothing is harmless
                continue
            if here - best <= tol + EPS:
                final |= moves
                if here - best > tol - EPS and tol > 0:
                    nxt |= moves        # exactly on the tolerance
            else:
                nxt |= moves
        level = nxt
        if not level:
            return final
        if it > 50:
            raise AssertionError('reference does not terminate')
    return final | level


_memo = {}


def expected(key, D, initial, tol, itermax):
    key = (key, tuple(initial), tol, itermax)
    if key not in _memo:
        if len(_memo) > 500:
            _memo.clear()
        _memo[key] = reachable(D, initial, tol, itermax)
    return _memo[key]


def as_input(data, D, form):
    if form == 'points':
        return data, 'points'
    if form == 'npoints':
        return numpy.array(data, dtype=float), 'points'
    if form == 'tpoints':
        return [tuple(p) for p in data], 'points'
    if form == 'matrix':
        return [list(r) for r in D], 'distance_matrix'
    if form == 'nmatrix':
        return numpy.array(D), 'distance_matrix'
    if form == 'mmatrix':
        return numpy.matrix(D), 'distance_matrix'
    raise ValueError(form)


def run(case):
    data, initial, mname, marg, tol, itermax, ccore, form = case
    metric = reference(mname, marg)
    D = matrix_of(data, metric)
    arg, kind = as_input(data, D, form)
    kw = {} if mname == 'EUCLIDEAN_SQUARE' and form == 'points' else dict(metric=instance(mname, marg))
    if kind != 'points':
        kw['data_type'] = kind
    if itermax != 200:
        kw['itermax'] = itermax
    o = kmedoids(arg, list(initial), tol, ccore, **kw)
    o.process()
    med = geo.ints(o.get_medoids())
    cl, _ = geo.partition(o.get_clusters(), len(data))
    require(len(med) == len(cl), lambda: '%d medoids, %d clusters' % (len(med), len(cl)))
    require(len(set(med)) == len(med) and all(0 <= m < len(data) for m in med), lambda: 'medoids %r' % (med,))
    labels = list(o.get_labels())
    for k, c in enumerate(cl):
        for i in c:
            require(D[i][med[k]] <= min(D[i][m] for m in med) + EPS, lambda: 'point %d is in the cluster of medoid %d, nearest of %r' % (i, med[k], med))
            require(labels[i] == k, lambda: 'labels %r of clusters %r' % (labels, cl))
    have = deviation(D, med)
    require(geo.close(o.get_total_deviation(), have, 1e-6), lambda: 'total deviation %r, the medoids have %r' % (o.get_total_deviation(), have))
    start = deviation(D, initial)
    require(have <= start + EPS * max(1, start), lambda: 'total deviation %r of medoids %r is worse than %r of the initial %r' % (have, med, start, initial))
    require(0 <= o.get_iterations() <= itermax, 'iterations %r' % o.get_iterations())
    want = expected((tuple(map(tuple, data)), mname, str(marg)), D, initial, tol, itermax)
    require(any(set(med) <= w and all(min(D[x][m] for m in med) <= EPS for x in w - set(med)) for w in want),
            lambda: 'medoids %r (deviation %r); best exchanges lead to %r' % (med, have, [(sorted(w), deviation(D, w)) for w in list(want)[:4]]))
    if itermax == 200 and tol == 0.0:
        best, _ = best_moves(D, frozenset(med))
        require(best is None or best >= have - 1e-7, lambda: 'an exchange still improves %r to %r' % (have, best))
    if kind == 'points':
        pts = [list(p) for p in data] + [[x + 0.4 for x in data[0]], [x * 2 - 3.1 for x in data[-1]]]
        pred = list(o.predict(pts))
        require(len(pred) == len(pts), 'length of prediction')
        for p, k in zip(pts, pred):
            require(metric(p, data[med[k]]) <= min(metric(p, data[m]) for m in med) + EPS, lambda: '%r predicted to medoid %r of %r' % (p, k, med))
    return (geo.shape(cl), o.get_iterations()) if len(data) > len(initial) else None


def run_build(case):
    data, k, mname, marg, ccore, form = case
    metric = reference(mname, marg)
    D = matrix_of(data, metric)
    arg, kind = as_input(data, D, form)
    kw = {} if mname == 'EUCLIDEAN_SQUARE' and form == 'points' else dict(metric=instance(mname, marg))
    if kind != 'points':
        kw['data_type'] = kind
    b = build(arg, k, ccore, **kw)
    first = geo.ints(b.initialize())
    require(geo.ints(b.initialize()) == first, 'second initialize() differs')
    require(len(first) == k and len(set(first)) == k and all(0 <= m < len(data) for m in first), lambda: 'medoids %r instead of %d' % (first, k))
    for i in range(k):
        v = deviation(D, first[:i + 1])
        best = min(deviation(D, first[:i] + [c]) for c in range(len(data)) if c not in first[:i])
        require(v <= best + EPS * max(1.0, best), lambda: 'medoid %d of %r leaves %r; possible is %r' % (i, first, v, best))
    return tuple(first) if len(data) > k else None


BASIC = [('EUCLIDEAN_SQUARE', None)]
ALL = BASIC + [('EUCLIDEAN', None), ('MANHATTAN', None), ('CHEBYSHEV', None), ('MINKOWSKI', 4), ('CANBERRA', None), ('CHI_SQUARE', None), ('USER_DEFINED', None)]


def cross(datas, ks, metrics, tols, iters, forms=('points',), perms=False):
    for data in datas:
        for k in ks:
            if k > len(data):
                continue
            for initial in (itertools.permutations if perms else itertools.combinations)(range(len(data)), k):
                for mn, ma in metrics:
                    for tol in tols:
                        for it in iters:
                            for form in forms:
                                for ccore in (False, True):
                                    yield data, list(initial), mn, ma, tol, it, ccore, form


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 3.0, 7.0]

    def lines():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, g), (1, 2, 3), BASIC, (0.0, 1.0), (1, 200), perms=True)
        yield from cross(dom.line(4, g) if deep else dom.line(4, g[1:]), (1, 2, 3), BASIC, (0.0, 2.5), (1, 2, 200))
        yield from cross(dom.line_sets(5, g), (1, 2, 3), BASIC, (0.0, 0.0001), (1, 200))
        yield from cross(dom.distinct(6, [[x] for x in (0.0, 1.0, 2.5, 4.5, 8.0, 9.25, 14.0, 15.5)]), (2, 3), BASIC, (0.0, 4.0), (2, 200))

    def planes():
        yield from cross(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 2.5) for y in (0.0, 1.5, 4.0)]), (1, 2, 3), BASIC, (0.0,), (1, 200))
        p5 = list(dom.distinct(5, [[x, y] for x in (0.0, 1.0, 2.5, 5.0) for y in (0.0, 1.75, 4.0)]))
        yield from cross(p5 if deep else p5[::4], (2, 3), BASIC, (0.0,), (200,))

    def forms():
        for n in (2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (1, 2), BASIC + [('MANHATTAN', None)], (0.0,), (200,), ('points', 'npoints', 'tpoints'))
        yield from cross(dom.distinct(4, [[x] for x in (0.0, 1.0, 2.5, 4.5, 8.0, 9.25)]), (1, 2, 3), BASIC + [('EUCLIDEAN', None)], (0.0,), (1, 200), ('npoints', 'matrix', 'nmatrix', 'mmatrix'))

    def metrics():
        data = list(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 5.0) for y in (0.5, 2.0, 3.0)]))
        yield from cross(data if deep else data[::3], (1, 2), ALL, (0.0,), (200,))

    def sizes():
        for n in range(7, 40 if deep else 24):
            for d in (dom.lattice(n), [[float((i * i * 3) % 101)] for i in range(n)]):
                for initial in ([0, 1], [n - 1, n // 2, 2], list(range(5))):
                    for tol, it in ((0.0, 200), (0.0, 2), (3.0, 200)):
                        for form in ('points', 'matrix'):
                            for ccore in (False, True):
                                yield d, initial, 'EUCLIDEAN_SQUARE', None, tol, it, ccore, form

    def builds():
        forms = ('points', 'npoints', 'tpoints', 'matrix', 'nmatrix', 'mmatrix')
        for datas, ks, ms, fs in [(list(dom.line(1, g)) + list(dom.line(2, g)) + list(dom.line(3, g)), (1, 2, 3), BASIC, forms),
                                  (dom.line(4, g), (1, 2, 3, 4), BASIC, ('points',)),
                                  (dom.line_sets(6, g + [12.0]), (2, 3, 5), BASIC, ('points',)),
                                  (dom.distinct(4, [[x, y] for x in (0.0, 1.0, 5.0) for y in (0.5, 2.0, 3.0)]), (1, 2, 3), ALL, ('points',)),
                                  (dom.distinct(5, [[x, y] for x in (0.0, 1.0, 2.5, 5.0) for y in (0.0, 1.75, 4.0)]), (2, 3, 4), BASIC, ('points', 'matrix')),
                                  ([dom.lattice(n) for n in range(6, 60 if deep else 40)], (1, 2, 3, 6), BASIC, ('points', 'matrix'))]:
            for d in datas:
                for k in ks:
                    if k > len(d):
                        continue
                    for mn, ma in ms:
                        for f in fs:
                            for ccore in (False, True):
                                yield d, k, mn, ma, ccore, f

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            yield from cross(dom.scaled(dom.line_sets(4, [0.0, 1.0, 3.0, 7.0, 7.5]), f, o), (1, 2, 3), BASIC, (0.0,), (1, 200))
            yield from cross(dom.scaled(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 4.0) for y in (0.0, 2.0, 3.0)]), f, o), (1, 2), BASIC, (0.0,), (1, 200))

    return [Family('line', lines, run), Family('plane', planes, run), Family('forms', forms, run), Family('metrics', metrics, run),
            Family('scaled_sizes', sizes, run), Family('scaled_sizes_5_processors', sizes, run, hwc=5), Family('build', builds, run_build),
            Family('magnitudes', magnitudes, run)]
