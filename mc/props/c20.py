"""C20 Silhouette scores, the silhouette search and the elbow method."""
import itertools
import math

from mc import chance, dom, geo
from mc.engine import Counters, Family, require
from mc.refmetric import instance, reference

from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer, random_center_initializer
from pyclustering.cluster.elbow import elbow
from pyclustering.cluster.kmeans import kmeans
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.kmedoids import kmedoids
from pyclustering.cluster.silhouette import silhouette, silhouette_ksearch, silhouette_ksearch_type

LEVEL = 'exploration'
RULE = ('silhouette: every data sequence of the grids (also as a distance matrix) x every way to divide it into two to four '
        'ordered clusters with or without unclustered points x metric x implementation; search and elbow: every sequence of '
        'random answers of the Python implementation (draws from [0, 1) from a finite alphabet) and a range of seeds of the '
        'core, each reported number being one that the algorithm gives from some choice of different points as initial '
        'centers; non-trivial: some score or error is not zero')
ASSUMPTIONS = ['the score of a point that is alone in its cluster is undefined and reported as nan (stated in the code)',
               'there are at least two clusters, and the scores of points in no cluster are not specified',
               'the search considers the amounts from kmin up to, but without, kmax (what its tests require)',
               'distances of 1e-9 and less between the best candidates count as ties']


def score(i, clusters, diff):
    own = [c for c in clusters if i in c][0]
    if len(own) == 1:
        return float('nan')
    a = sum(diff(i, j) for j in own) / (len(own) - 1)
    b = min(sum(diff(i, j) for j in c) / len(c) for c in clusters if c is not own)
    return 0.0 if a == b else (b - a) / max(a, b)


def same(x, y):
    return (math.isnan(x) and math.isnan(y)) or geo.close(x, y, 1e-7, 1e-9)


def run_scores(case):
    data, clusters, mname, marg, form, ccore = case
    metric = reference(mname, marg)
    kw = {} if mname == 'EUCLIDEAN_SQUARE' and form == 'list' else dict(metric=instance(mname, marg))
    if form in ('matrix', 'raw_matrix'):
        m = data if form == 'raw_matrix' else [[metric(a, b) for b in data] for a in data]
        diff = lambda i, j: m[i][j]
        got = silhouette(m, clusters, data_type='distance_matrix', ccore=ccore).process().get_score()
    else:
        diff = lambda i, j: metric(data[i], data[j])
        got = silhouette(dom.numpyfy(data, form), clusters, ccore=ccore, **kw).process().get_score()
    require(len(got) == len(data), lambda: '%d scores for %d points' % (len(got), len(data)))
    got = [float(x) for x in got]
    for i in sorted(i for c in clusters for i in c):
        want = score(i, clusters, diff)
        require(same(got[i], want), lambda: 'score of point %d is %r, by definition %r (all scores %r)' % (i, got[i], want, got))
        require(math.isnan(want) or -1.0 - 1e-12 <= got[i] <= 1.0 + 1e-12, lambda: 'score %r is outside of [-1, 1]' % got[i])
    return tuple(round(x, 6) for x in got) if any(x for x in got) else None


# ---------------------------------------------------------------------------------------------------------------------
_memo = {}


def possible(data, k, what):
    """What the algorithm can give from some k different points: average scores, or errors of K-Means."""
    key = (tuple(map(tuple, data)), k, what)
    if key in _memo:
        return _memo[key]
    if len(_memo) > 500:
        _memo.clear()
    out = []
    for subset in itertools.permutations(range(len(data)), k):
        for ccore in (False, True):
            if what == 'KMEDOIDS':
                o = kmedoids(data, list(subset), ccore=ccore)
            else:
                o = (kmedians if what == 'KMEDIANS' else kmeans)(data, [list(data[i]) for i in subset], ccore=ccore)
            o.process()
            if what == 'WCE':
                v = float(o.get_total_wce())
            else:
                cl = [list(map(int, c)) for c in o.get_clusters()]
                if len(cl) != k:
                    v = float('nan')
                else:
                    v = sum(score(i, cl, lambda a, b: geo.sq(data[a], data[b])) for i in range(len(data))) / len(data)
            if not any(same(v, x) for x in out):
                out.append(v)
    _memo[key] = out
    return out


def check_search(data, kmin, kmax, algo, amount, best, scores):
    require(sorted(scores) == list(range(kmin, kmax)), lambda: 'scores are given for %r, asked for %d..%d' % (sorted(scores), kmin, kmax))
    for k, v in scores.items():
        want = possible(data, k, algo)
        require(any(same(float(v), w) for w in want), lambda: 'the score for %d clusters is %r, %s can only give %r' % (k, v, algo, want))
    valid = {k: float(v) for k, v in scores.items() if not math.isnan(v)}
    if not valid:
        require(amount not in scores, lambda: 'amount %r is chosen while no score is known' % amount)
        return
    top = max(valid.values())
    require(amount in valid and valid[amount] >= top - 1e-9, lambda: 'amount %r is chosen, scores are %r' % (amount, scores))
    require(geo.close(best, valid[amount]), lambda: 'best score %r, the score of %d clusters is %r' % (best, amount, valid[amount]))


def run_search(case):
    data, kmin, kmax, algo, seeds = case
    seen = set()

    def once(ccore, seed=None):
        o = silhouette_ksearch(data, kmin, kmax, algorithm=silhouette_ksearch_type[algo], ccore=ccore, random_state=seed)
        require(o.process() is o, 'process() does not return the object')
        return int(o.get_amount()), float(o.get_score()), {int(k): float(v) for k, v in o.get_scores().items()}

    if seeds is None:
        for _, r in chance.explore(lambda: once(False), horizon=40, limit=3000, bound=2 if kmax - kmin > 1 or kmin > 2 else None):
            check_search(data, kmin, kmax, algo, *r)
            seen.add(r[0])
    else:
        for seed in range(seeds):
            with chance.owned(1000 + seed):
                r = once(True, seed)
                check_search(data, kmin, kmax, algo, *r)
                with chance.owned(5000 + 7 * seed):
                    again = once(True, seed)
                require(str(again) == str(r), lambda: 'seed %d gives %r and then %r' % (seed, r, again))
                seen.add(r[0])
            Counters.executions += 1
    return tuple(sorted(seen))


# ---------------------------------------------------------------------------------------------------------------------
class first_points:
    """A custom initializer: the first points of the data."""
    def __init__(self, data, amount, **kwargs):
        self.centers = [list(p) for p in data[:amount]]

    def initialize(self, **kwargs):
        return self.centers


class last_points(first_points):
    def __init__(self, data, amount, **kwargs):
        self.centers = [list(p) for p in data[len(data) - amount:]]


INIT = {'kpp': kmeans_plusplus_initializer, 'random': random_center_initializer, 'first': first_points, 'last': last_points}


def check_elbow(data, kmin, kmax, kstep, init, amount, wce):
    ks = list(range(kmin, kmax + 1, kstep))
    require(len(wce) == len(ks), lambda: '%d errors for the amounts %r' % (len(wce), ks))
    for k, v in zip(ks, wce):
        if init in ('first', 'last'):
            want = []
            for ccore in (False, True):
                o = kmeans(data, INIT[init](data, k).centers, ccore=ccore)
                o.process()
                want.append(float(o.get_total_wce()))
        else:
            want = possible(data, k, 'WCE')
        require(any(geo.close(v, w, 1e-7, 1e-9) for w in want), lambda: 'the error for %d clusters is %r, K-Means can only give %r' % (k, v, want))
        if init == 'kpp' and k == len(set(map(tuple, data))):
            require(abs(v) < 1e-9, lambda: 'K-Means++ left a group of coinciding points without a center: error %r for %d clusters' % (v, k))
    x1, y0, y1 = float(ks[-1] - ks[0]), wce[0], wce[-1]
    dist = {k: abs((y0 - y1) * (k - ks[0]) + x1 * v - x1 * y0) / math.hypot(x1, y1 - y0) for k, v in zip(ks[1:-1], wce[1:-1])}
    require(amount in dist and dist[amount] >= max(dist.values()) - 1e-9,
            lambda: 'amount %r is chosen, the distances to the line are %r (errors %r)' % (amount, dist, wce))


def run_elbow(case):
    data, kmin, kmax, kstep, init, mode = case
    seen = set()
    kw = dict(initializer=INIT[init]) if init != 'kpp' or len(data) % 2 else {}
    if kstep != 1:
        kw['kstep'] = kstep

    def once(ccore, seed=None):
        o = elbow(data, kmin, kmax, ccore=ccore, random_state=seed, **kw)
        require(o.process() is o, 'process() does not return the object')
        return int(o.get_amount()), [float(x) for x in o.get_wce()]

    if mode == 'tree':
        for _, r in chance.explore(lambda: once(False), horizon=60, limit=4000, bound=2):
            check_elbow(data, kmin, kmax, kstep, init, *r)
            seen.add((r[0], tuple(round(x, 6) for x in r[1])))
    else:
        for seed in range(mode):
            with chance.owned(300 + seed):
                for ccore in (True, False):
                    r = once(ccore, seed)
                    check_elbow(data, kmin, kmax, kstep, init, *r)
                    with chance.owned(800 + seed):
                        require(once(ccore, seed) == r, 'seed %d gives two results' % seed)
                    seen.add((r[0], tuple(round(x, 6) for x in r[1])))
            Counters.executions += 1
    return len(seen), sorted(seen)[0]


# ---------------------------------------------------------------------------------------------------------------------
METRICS = [('EUCLIDEAN_SQUARE', None), ('EUCLIDEAN', None), ('MANHATTAN', None), ('CHEBYSHEV', None), ('MINKOWSKI', 4),
           ('CANBERRA', None), ('CHI_SQUARE', None), ('USER_DEFINED', None)]


def divisions(n, most, noise):
    """Every assignment of n points to 2..most ordered clusters (each used), optionally leaving points out."""
    for labels in itertools.product(range(-1 if noise else 0, most), repeat=n):
        used = sorted(set(labels) - {-1})
        if len(used) < 2 or used != list(range(len(used))):
            continue
        yield [[i for i in range(n) if labels[i] == k] for k in used]


def families(tier):
    deep = tier == 'thorough'

    def cross(datas, divs, metrics, forms):
        divs = list(divs)
        for data in datas:
            for d in divs:
                for mn, ma in metrics:
                    for form in forms:
                        for ccore in (False, True):
                            yield data, d, mn, ma, form, ccore

    def line_scores():
        for n in (2, 3):
            yield from cross(dom.line(n, [-1.0, 0.0, 2.0]), divisions(n, 3, True), METRICS[:1], ('list', 'matrix'))
        yield from cross(dom.line(4, [0.0, 1.0, 3.0]), divisions(4, 3, True), METRICS[:1], ('list', 'matrix'))
        yield from cross(dom.line_sets(5, [0.0, 1.0, 3.0, 7.0]), divisions(5, 4 if deep else 3, False), METRICS[:1], ('list',))

    def member_order():
        # the order of points inside of a cluster is not a matter of the score
        for data in dom.distinct(5, [[x] for x in (0.0, 1.0, 2.5, 6.0, 7.0, 11.0)]):
            for perm in itertools.permutations(range(5)):
                for cut in (1, 2, 3):
                    for ccore in (False, True):
                        yield data, [list(perm[:cut]), list(perm[cut:])], 'EUCLIDEAN_SQUARE', None, 'list', ccore

    def metric_scores():
        p = [[x, y] for x in (0.0, 1.0, 3.0) for y in (-2.0, 0.5)]
        yield from cross(dom.distinct(4, p), divisions(4, 3, False), METRICS, ('list', 'numpy'))
        yield from cross(dom.line(3, [1, 2, 5]), divisions(3, 2, True), METRICS[:3], ('tuple', 'int', 'numpy', 'matrix'))

    def raw_matrices():
        # symmetric tables which are not distances of points on a line
        for v in itertools.product((0.0, 1.0, 4.0), repeat=6):
            it = iter(v)
            m = [[0.0] * 4 for _ in range(4)]
            for i in range(4):
                for j in range(i + 1, 4):
                    m[i][j] = m[j][i] = next(it)
            for d in ([[0, 1], [2, 3]], [[3, 1], [0, 2]], [[0, 1, 3], [2]], [[2, 0], [1, 3]], [[1], [0, 2], [3]]):
                for ccore in (False, True):
                    yield m, d, 'EUCLIDEAN_SQUARE', None, 'raw_matrix', ccore

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            yield from cross(dom.scaled(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 4.0) for y in (0.0, 2.5)]), f, o), divisions(4, 2, False), METRICS[:3], ('list',))

    def larger():
        for n in range(6, 24, 3 if not deep else 1):
            data = dom.lattice(n)
            for m in range(2, 6):
                for shift in (0, 1):
                    d = [[i for i in range(n) if (i * (shift + 1) + i // m) % m == k] for k in range(m)]
                    if all(d):
                        yield from cross([data], [d, d[::-1]], METRICS[:4], ('list', 'matrix'))

    lines = [[[0.0], [1.0], [5.0], [6.5]], [[0.0], [1.0], [2.0], [10.0], [11.5]], [[0.0], [0.0], [3.0], [3.0], [9.0]], [[4.0], [0.0], [9.5], [1.0], [10.0], [4.5]],
             [[5.0], [0.0], [5.0], [9.0], [0.0]], [[2.0], [2.0], [2.0], [2.0]],
             [[-5.0], [1.75], [3.0], [3.75], [3.75], [6.25], [7.0], [7.0]]]
    planes = [[[0.0, 0.0], [0.0, 1.0], [5.0, 5.0], [5.0, 6.5], [11.0, 0.0]], [[0.0, 0.0], [8.0, 1.0], [0.5, 0.0], [8.0, 0.0], [4.0, 9.0], [4.5, 9.0]]]

    def searches():
        for data in lines + planes:
            for algo in ('KMEANS', 'KMEDIANS', 'KMEDOIDS'):
                for kmin, kmax in ((2, 3), (2, 4), (3, 4), (2, len(data)), (3, 5)):
                    if kmax <= min(len(data), 5):
                        if len(data) < 7 or kmax < 4:
                            yield data, kmin, kmax, algo, None
                        yield data, kmin, kmax, algo, 40 if deep else 16
        for data in ([0, 0, 1, 1, 2, 8], [0, 0, 1, 2, 2, 10], [3, 3, 4, 4, 4, 13], [2, 2, 3, 3, 4, 13]):
            # the best score can be negative
            data = [[float(x)] for x in data]
            yield data, 2, 3, 'KMEDIANS', None
            yield data, 2, 3, 'KMEDIANS', 24
        for data in dom.distinct(4, [[x] for x in (0.0, 1.0, 2.5, 6.0, 7.5, 11.0)]):
            yield data, 2, 3, 'KMEANS', None
            yield data, 2, 4, 'KMEANS', 8

    def elbows():
        for data in lines + planes:
            n = len(data)
            for kmin, kmax, kstep in ((1, 3, 1), (2, 4, 1), (1, 4, 1), (1, 5, 2), (1, 5, 1), (1, 6, 2), (2, 6, 2)):
                if kmax <= n and kmax * (n > 7) < 5:
                    for init in ('kpp', 'random'):
                        yield data, kmin, kmax, kstep, init, 'tree'
                        yield data, kmin, kmax, kstep, init, 40 if deep else 12
                    for init in ('first', 'last'):
                        yield data, kmin, kmax, kstep, init, 1

    def elbow_places():
        # every profile of distances: groups of points at all combinations of gaps
        for gaps in itertools.product((0.0, 1.0, 4.0, 10.0), repeat=5 if deep else 4):
            x, data = 0.0, [[0.0]]
            for g in gaps:
                x += g
                data.append([x])
            for kmin, kmax in ((1, 5), (2, 5), (1, 4)):
                for init in ('first', 'last'):
                    yield data, kmin, kmax, 1, init, 1
                yield data, kmin, kmax, 1, 'kpp', 3

    return [Family('line_scores', line_scores, run_scores), Family('member_order', member_order, run_scores), Family('metrics', metric_scores, run_scores),
            Family('raw_matrices', raw_matrices, run_scores), Family('magnitudes', magnitudes, run_scores), Family('larger', larger, run_scores),
            Family('searches', searches, run_search), Family('elbows', elbows, run_elbow), Family('elbow_places', elbow_places, run_elbow)]
