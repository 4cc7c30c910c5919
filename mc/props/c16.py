"""C16 Fuzzy C-Means and EM: memberships, responsibilities, centers."""
import itertools
import math

import numpy

from mc import chance, dom, geo
from mc.engine import Counters, Family, Skip, Violation, require

from pyclustering.cluster.ema import ema, ema_init_type, ema_initializer, ema_observer
from pyclustering.cluster.fcm import fcm

LEVEL = 'exploration'
RULE = ('FCM: every data sequence / set of the grids x initial centers (also on points, equal, far) x degree x tolerance x '
        'iteration limit x implementation, compared with reference iterations; EM: every data set x explicit initial components '
        '(also impossible ones) compared with reference iterations, and every sequence of random answers of its own '
        'initialisation with up to two (three in the thorough tier) deviations from the first answer checked for consistency; non-trivial: at least two clusters with points')
ASSUMPTIONS = ['memberships closer than 1e-9 count as tied when points are put into clusters; a stop decision within 1e-9 of the '
               'tolerance may go either way',
               'EM components whose covariance is singular are checked for consistency of the result only',
               'random draws of a real number are answered from four values']


# -- FCM ----------------------------------------------------------------------------------------------------------------
def fcm_step(data, centers, m):
    u = []
    for p in data:
        d = [geo.euclid(p, c) for c in centers]
        if 0.0 in d:
            n = d.count(0.0)
            u.append([1.0 / n if x == 0.0 else 0.0 for x in d])
        else:
            u.append([1.0 / sum((x / y) ** (2.0 / (m - 1.0)) for y in d) for x in d])
    new = []
    for j, c in enumerate(centers):
        w = [row[j] ** m for row in u]
        s = sum(w)
        new.append(list(c) if s == 0.0 else [sum(x * p[k] for x, p in zip(w, data)) / s for k in range(len(c))])
    return u, new


def fcm_step_pinned(data, centers, m):
    """What the core does (known finding point-on-center-core): a point on a center gets full membership of it, and the
    center is left out of the formula for the others."""
    u = []
    for p in data:
        d = [geo.euclid(p, c) for c in centers]
        s = [sum((x / y) ** (2.0 / (m - 1.0)) for y in d if y) for x in d]
        u.append([1.0 if x == 0.0 else 1.0 / x for x in s])
    new = []
    for j, c in enumerate(centers):
        w = [row[j] ** m for row in u]
        s = sum(w)
        new.append(list(c) if s == 0.0 else [sum(x * p[k] for x, p in zip(w, data)) / s for k in range(len(c))])
    return u, new


def fcm_judge(data, centers, m, tol, itermax, got_u, got_c, step):
    """Compares with reference iterations of step; returns (undecided, a point was on a center, iterations)."""
    cur, change, it, options, on = [list(map(float, c)) for c in centers], float('inf'), 0, [], False
    while it < itermax:
        if change <= tol - 1e-9:
            break
        if change <= tol + 1e-9:
            options.append((u, cur))
        ds = [geo.sq(p, c) for p in data for c in cur]
        on = on or 0.0 in ds
        # sensitive points (centers very close to a point, underflow) end the comparison
        if any((x < 1e-7 if it else 0.0 < x < 1e-7) for x in ds):
            return True, on, it
        u, new = step(data, cur, m)
        change = max(geo.euclid(a, b) for a, b in zip(cur, new))
        cur = new
        it += 1
    options.append((u, cur))

    def agree(u, c):
        return (all(geo.close_vec(list(map(float, a)), b, 1e-6, 1e-7) for a, b in zip(got_c, c)) and
                all(geo.close_vec(list(map(float, a)), b, 1e-6, 1e-7) for a, b in zip(got_u, u)))
    require(any(agree(*x) for x in options), lambda: 'centers %r memberships %r, the formulas give %r %r' % (
        [list(c) for c in got_c], [list(r) for r in got_u], options[-1][1], options[-1][0]))
    return False, on, it


def run_fcm(case):
    data, centers, m, tol, itermax, ccore, kind = case
    kw = dict(ccore=ccore)
    if m is not None:
        kw['m'] = m
    if tol is not None:
        kw['tolerance'] = tol
    if itermax is not None:
        kw['itermax'] = itermax
    o = fcm(dom.numpyfy(data, kind), dom.numpyfy(centers, kind), **kw)
    o.process()
    m, tol, itermax = m or 2, 0.001 if tol is None else tol, 200 if itermax is None else itermax
    got_u, got_c = o.get_membership(), o.get_centers()
    n, k = len(data), len(centers)
    require(len(got_c) == k, lambda: '%d centers instead of %d' % (len(got_c), k))
    if itermax == 0:
        require(len(got_u) == 0 and len(o.get_clusters()) == 0, 'a result without iterations')
        require(all(geo.close_vec(list(map(float, a)), b) for a, b in zip(got_c, centers)), 'initial centers have been changed')
        return None
    require(len(got_u) == n and all(len(r) == k for r in got_u), 'shape of the memberships')
    cl, _ = geo.partition(o.get_clusters(), n, empty_ok=True)
    require(len(cl) == k, lambda: '%d clusters for %d centers' % (len(cl), k))
    for j, c in enumerate(cl):
        for i in c:
            require(got_u[i][j] >= max(got_u[i]) - 1e-9, lambda: 'point %d with memberships %r is in cluster %d' % (i, list(got_u[i]), j))
    for i, r in enumerate(got_u):
        require(all(-1e-12 <= x <= 1.0 + 1e-12 for x in r), lambda: 'membership %r of point %d' % (list(r), i))
    try:
        undecided, _, it = fcm_judge(data, centers, m, tol, itermax, got_u, got_c, fcm_step)
        for i, r in enumerate(got_u):
            require(geo.close(sum(r), 1.0), lambda: 'memberships %r of point %d do not sum to 1' % (list(r), i))
    except Violation as v:
        if not ccore:
            raise
        try:
            undecided, on, it = fcm_judge(data, centers, m, tol, itermax, got_u, got_c, fcm_step_pinned)
        except Violation:
            raise v from None
        if on or undecided:
            raise Violation(v.message, 'point-on-center-core') from None
        raise
    if undecided:
        Counters.notes['center_very_close_to_a_point'] = Counters.notes.get('center_very_close_to_a_point', 0) + 1
    return (geo.shape(cl), it) if sum(map(bool, cl)) > 1 else None


def cross(datas, centersets, ms, tols, iters, kinds=('list',)):
    for data in datas:
        for c in centersets:
            for m in ms:
                for tol in tols:
                    for it in iters:
                        for ccore in (False, True):
                            for kind in kinds:
                                yield data, c, m, tol, it, ccore, kind


# -- EM -----------------------------------------------------------------------------------------------------------------
def density(p, mean, cov):
    dim = len(p)
    c = numpy.array(cov, dtype=float).reshape(dim, dim)
    det = numpy.linalg.det(c)
    d = numpy.array(p, dtype=float) - numpy.array(mean, dtype=float)
    return float(math.exp(-0.5 * d @ numpy.linalg.inv(c) @ d) / math.sqrt((2 * math.pi) ** dim * det))


def em_iterations(data, means, covs, limit):
    """Yields (responsibilities, means, covariances, clusters) of each iteration; None when it becomes degenerate."""
    n, dim = len(data), len(data[0])
    means, covs, pic = [list(m) for m in means], [numpy.array(c, dtype=float).reshape(dim, dim) for c in covs], [1.0] * len(means)
    x = numpy.array(data, dtype=float)
    for _ in range(limit):
        if any(numpy.linalg.cond(c) > 1e8 or numpy.linalg.norm(c) < 1e-9 for c in covs):
            yield None
            return
        g = [[density(p, m, c) for p in data] for m, c in zip(means, covs)]
        tot = [sum(w * row[i] for w, row in zip(pic, g)) for i in range(n)]
        if min(tot) < 1e-250:
            yield None
            return
        rc = [[w * row[i] / tot[i] for i in range(n)] for w, row in zip(pic, g)]
        rc = [r for r in rc if sum(r) > 0.0]
        pic = [sum(r) / n for r in rc]
        means = [[sum(a * p[d] for a, p in zip(r, data)) / sum(r) for d in range(dim)] for r in rc]
        covs = []
        for r, m in zip(rc, means):
            dev = x - numpy.array(m)
            covs.append((dev.T * numpy.array(r)) @ dev / sum(r))
        best = [max(range(len(rc)), key=lambda k: rc[k][i]) for i in range(n)]
        if any(sorted(r[i] for r in rc)[-2] > rc[b][i] - 1e-7 for i, b in enumerate(best) if len(rc) > 1):
            yield None
            return
        kept = [k for k in range(len(rc)) if k in best]
        rc, pic, means, covs = ([z[k] for k in kept] for z in (rc, pic, means, covs))
        yield rc, means, covs, [[i for i in range(n) if best[i] == k] for k in kept]


def check_em(o, n):
    cl, _ = geo.partition(o.get_clusters(), n)
    means, covs, rc = o.get_centers(), o.get_covariances(), o.get_probabilities()
    require(len(means) == len(cl) and len(covs) == len(cl) and len(rc) == len(cl), lambda: 'clusters, means, covariances, probabilities: %r' % (
        [len(cl), len(means), len(covs), len(rc)],))
    for i in range(n):
        col = [float(r[i]) for r in rc]
        require(all(-1e-9 <= x <= 1.0 + 1e-9 for x in col) and geo.close(sum(col), 1.0, 1e-5, 1e-5), lambda: 'probabilities %r of point %d' % (col, i))
    for k, c in enumerate(cl):
        for i in c:
            require(rc[k][i] >= max(r[i] for r in rc) - 1e-9, lambda: 'point %d with probabilities %r is in cluster %d' % (i, [r[i] for r in rc], k))
    return cl, rc, means, covs


def run_em(case):
    data, means, covs, iters, kind = case
    dim = len(data[0])
    w = ema_observer()
    arrays = [numpy.array(c, dtype=float) for c in covs] if dim > 1 else [float(c[0][0]) for c in covs]
    o = ema(dom.numpyfy(data, kind), len(means), [numpy.array(m) for m in means], arrays, observer=w, iterations=iters)
    with numpy.errstate(all='ignore'):
        o.process()
    cl, rc, gm, gc = check_em(o, len(data))
    done = len(w)
    require(1 <= done <= iters, lambda: '%d iterations, the limit is %d' % (done, iters))
    for it, step in enumerate(em_iterations(data, means, covs, done)):
        if step is None:
            Counters.notes['degenerate_or_tied'] = Counters.notes.get('degenerate_or_tied', 0) + 1
            break
        r, m, c, clusters = step
        what = 'iteration %d: ' % it
        require(w.get_evolution_clusters()[it] == clusters, lambda: what + 'clusters %r, expected %r' % (w.get_evolution_clusters()[it], clusters))
        require(all(geo.close_vec(list(map(float, a)), b, 1e-6, 1e-6) for a, b in zip(w.get_evolution_means()[it], m)),
                lambda: what + 'means %r, expected %r' % (w.get_evolution_means()[it], m))
        require(all(numpy.allclose(numpy.array(a, dtype=float).reshape(dim, dim), b, 1e-6, 1e-6) for a, b in zip(w.get_evolution_covariances()[it], c)),
                lambda: what + 'covariances %r, expected %r' % (w.get_evolution_covariances()[it], c))
        if it == done - 1:
            tot = [sum(x[i] for x in r) for i in range(len(data))]
            require(cl == clusters, 'reported clusters are not those of the last iteration')
            require(all(geo.close(float(a[i]), b[i] / (tot[i] if abs(tot[i] - 1) > 1e-6 else 1), 1e-6, 1e-6) for a, b in zip(rc, r) for i in range(len(data))),
                    lambda: 'probabilities %r, expected %r' % (rc, r))
    return (geo.shape(cl), done) if len(cl) > 1 else None


def run_em_own(case):
    data, k, how, iters, bound = case
    shapes = set()

    def once():
        kw = {}
        if how == 'random':
            m, v = ema_initializer(data, k).initialize(ema_init_type.RANDOM_INITIALIZATION)
            require(len(m) == k and len(v) == k, 'initial components')
            kw = dict(means=m, variances=v)
        o = ema(data, k, iterations=iters, **kw)
        with numpy.errstate(all='ignore'):
            o.process()
        cl, *_ = check_em(o, len(data))
        require(len(cl) <= k, 'more clusters than asked for')
        shapes.add(geo.shape(cl))
    for _ in chance.explore(once, horizon=40, limit=40000, bound=bound):
        pass
    return tuple(sorted(shapes)) if len(shapes) > 1 or any(len(s[0]) > 1 for s in shapes) else None


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 3.0, 7.0]
    c1 = [[[1.0]], [[0.0], [7.0]], [[0.5], [2.0]], [[3.0], [3.0]], [[0.0], [1.0], [9.0]], [[6.0], [1.0], [40.0]], [[2.0], [3.0], [7.0], [1.0]]]

    def lines():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, g), c1, (2, 3.0, 1.5), (0.0, 0.01), (1, 2, 5))
        yield from cross(dom.line_sets(4, g), c1, (2, 1.3), (0.0, 0.3, 0.001), (1, 2, 10))
        yield from cross(dom.line_sets(6, [0.0, 1.0, 3.0, 4.0, 10.0]), c1, (2,), (0.001, 0.5), (0, 3, 200) if deep else (0, 50))

    cp = [[[0.0, 0.0], [2.0, 1.0]], [[0.5, 0.5], [0.5, 2.0], [2.0, 0.5]], [[5.0, 5.0], [0.0, 0.0]], [[1.0, 1.0]]]

    def planes():
        yield from cross(dom.plane_sets(3, [0.0, 1.0, 2.0]), cp, (2, 2.5), (0.0, 0.05), (1, 2, 8))
        yield from cross(dom.distinct(5, [[x, y] for x in (0.0, 1.0, 4.0) for y in (0.0, 2.0, 3.0)]), cp, (2, 1.5), (0.001,), (2, 100))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 2]), [[[0], [1]], [[-2], [2]]], (None, 3), (None,), (None, 1), ('list', 'tuple', 'numpy', 'int'))
        cube = [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 2.0) for z in (0.0, 5.0)]
        yield from cross(dom.distinct(4, cube), [[[0.0, 0.0, 0.0], [1.0, 2.0, 4.0]]], (2,), (0.001,), (None,), ('list', 'numpy'))

    def sizes():
        for n in range(2, 70 if deep else 40):
            for d in ([[float(i * i % 97) + i / 16.0] for i in range(n)],):
                yield from cross([d], [[[5.0], [60.0]], [[0.0], [30.0], [31.0], [90.0]]], (2, 2.2), (0.001,), (5, 60))
            d = [[float(x), float(y)] for x, y in dom.lattice(n)]
            yield from cross([d], [[[1.0, 1.0], [6.0, 6.0], [9.0, 1.0]]], (2,), (0.001, 0.1), (100,))

    def em_line():
        init = [([[0.5]], [[[1.0]]]), ([[0.0], [6.0]], [[[1.0]], [[2.0]]]), ([[1.0], [500.0], [6.5]], [[[1.0]], [[0.5]], [[1.5]]]),
                ([[500.0], [1.0], [6.5]], [[[0.5]], [[1.0]], [[1.5]]]), ([[2.0], [2.5], [8.0]], [[[4.0]], [[0.25]], [[4.0]]])]
        for n in (2, 3, 4):
            for data in dom.line_sets(n, [0.0, 1.0, 1.5, 5.0, 7.0, 8.0]):
                for m, c in init:
                    for it in (1, 2, 4):
                        yield data, m, c, it, 'list'
        for data in dom.distinct(6 if not deep else 5, [[x] for x in (0.0, 0.5, 1.5, 2.0, 5.0, 6.25, 7.0, 9.0, 9.5)]):
            for m, c in init:
                for it in (1, 3, 30):
                    yield data, m, c, it, 'list'

    def em_plane():
        e, s, t = [[1.0, 0.0], [0.0, 1.0]], [[2.0, 0.9], [0.9, 1.0]], [[0.3, -0.1], [-0.1, 3.0]]
        init = [([[0.5, 0.5], [4.0, 3.0]], [e, e]), ([[0.5, 0.5], [4.0, 3.0]], [s, t]), ([[1.0, 2.0]], [s]), ([[2.0, 1.0], [2.5, 2.0], [3.0, 0.0]], [t, s, e]),
                ([[900.0, 2.0], [0.5, 0.5], [4.0, 3.0]], [e, s, t])]
        for n in (3, 4, 5):
            for data in dom.distinct(n, [[x, y] for x in (0.0, 1.25, 4.0) for y in (0.0, 2.0, 3.0)]):
                for m, c in init:
                    for it in (1, 2, 5) if n < 5 else (3,):
                        for kind in ('list', 'numpy') if n == 3 else ('list',):
                            yield data, m, c, it, kind
        for data in dom.distinct(4, [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 2.0) for z in (0.0, 2.5)]):
            yield data, [[0.0, 0.0, 0.0], [1.0, 2.0, 2.0]], [[[1.0, 0.2, 0.0], [0.2, 1.0, 0.1], [0.0, 0.1, 2.0]], [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]], 2, 'list'

    def em_own():
        datas = [[[0.0], [1.0], [5.0], [6.0]], [[0.0], [0.0], [3.0], [3.0]], [[0.0], [1.0], [2.0], [9.0], [9.5]], [[2.0], [2.0], [2.0]],
                 [[0.0, 0.0], [1.0, 0.5], [0.2, 1.0], [6.0, 6.0], [7.0, 6.2], [6.5, 7.3]], [[0.0, 0.0], [0.0, 0.0], [4.0, 4.0]],
                 [[0.0, 0.0], [1.0, 1.0], [2.0, 2.0], [7.0, 7.0]], [[1.0, 2.0]], [[0.0, 0.0], [0.0, 1.0], [0.0, 2.0], [5.0, 5.0]]]
        for data in datas:
            for k in (1, 2, 3):
                if k <= len(data):
                    for how in ('kmeans', 'random'):
                        for it in (1, 20):
                            yield data, k, how, it, (2 if k * len(data) < 10 else 1) + deep

    return [Family('fcm_line', lines, run_fcm), Family('fcm_plane', planes, run_fcm), Family('fcm_kinds', kinds, run_fcm), Family('fcm_scaled_sizes', sizes, run_fcm),
            Family('em_line', em_line, run_em), Family('em_plane', em_plane, run_em), Family('em_random_answers', em_own, run_em_own)]
