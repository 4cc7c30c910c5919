"""C10 X-Means and G-Means."""
import ctypes
import itertools
import math
import warnings

import numpy
import scipy.stats

from mc import build, chance, dom, geo, lloyd
from mc.engine import Counters, Family, require
from mc.refmetric import instance, reference

from pyclustering.cluster.gmeans import gmeans
from pyclustering.cluster.xmeans import splitting_type, xmeans

LEVEL = 'model_checking'
RULE = ('every small data set x initial centers x limit x criterion x metric: every sequence of random answers (with a bounded number of '
        'non-default answers for larger sets) is executed on the Python implementation and on the core; the result has to be one that a '
        'model reaches which splits clusters by any choice of two seeds when the criterion allows it; the model is explored '
        'completely for each case, its states are the sequences of centers; also a range of seeds through the public interface; '
        'non-trivial: something has been split')
ASSUMPTIONS = ['children of a split come from K-Means with two different points of the cluster as initial centers',
               'cases in which the model meets a tie (equal distances, equal criteria, a stop decided by rounding) are checked for consistency only, and counted']
TIE = 1e-9
LIMIT = 3000


class Tied(Exception):
    pass


def improve(data, centers, metric, tol, itermax=100):
    r = lloyd.iterate(data, centers, metric, lloyd.mean, tol, itermax)
    if r['tied']:
        raise Tied()
    return r['clusters'], r['centers']


def bic(data, clusters, centers, metric):
    k, n, dim = len(clusters), sum(map(len, clusters)), len(data[0])
    if n == k:
        return float('inf')
    s = sum(metric(data[i], c) for g, c in zip(clusters, centers) for i in g) / (n - k)
    if s <= 0:
        return float('inf')
    p = k - 1 + dim * k + 1
    return sum(len(g) * math.log(len(g)) - len(g) * math.log(n) - len(g) * math.log(2 * math.pi) / 2 - len(g) * dim * math.log(s) / 2 - (len(g) - k) / 2
               - p * math.log(n) / 2 for g in clusters)


def mndl(data, clusters, centers, metric, alpha, beta):
    k, n = len(clusters), float(sum(map(len, clusters)))
    if n == k:
        return float('inf')
    w = [sum(metric(data[i], c) for i in g) for g, c in zip(clusters, centers)]
    ss = sum(w) / (n - k)
    mean = sum(x / len(g) for x, g in zip(w, clusters))
    kw = (1 - k / n) * ss
    under = alpha * alpha * ss / n + mean - kw / 2
    if under < 0:
        raise Tied()
    ksa = 2 * alpha * math.sqrt(ss) / math.sqrt(n) * math.sqrt(under)
    uq = mean - kw + 2 * alpha * alpha * ss / n + ksa
    return ss * k / n + uq + ss * beta * math.sqrt(2 * k) / n


def children(data, cluster, metric, tol):
    """Clusters and centers which K-Means makes of any two different points (none: the points coincide)."""
    pts = [data[i] for i in cluster]
    out = {}
    for a, b in itertools.permutations(range(len(pts)), 2):
        if pts[a] != pts[b]:
            groups, centers = improve(pts, [pts[a], pts[b]], metric, tol)
            if len(groups) == 2:
                out[tuple(map(tuple, centers))] = [[cluster[i] for i in g] for g in groups]
            else:
                out[None] = None
    return out


class Model:
    """Every result of splitting; better(parent clusters, centers, child clusters, centers) -> True, False (a tie raises Tied)."""

    def __init__(self, data, metric, tol, kmax, better):
        self.data, self.metric, self.tol, self.kmax, self.better = data, metric, tol, kmax, better
        self.options = {}

    def choices(self, cluster, center):
        """(children which may replace the cluster, whether it may stay)."""
        key = (tuple(cluster), tuple(center))
        if key not in self.options:
            found, stay = [], False
            ch = children(self.data, cluster, self.metric, self.tol) if len(cluster) > 1 else {}
            for centers, groups in ch.items():
                if centers is not None and self.better([cluster], [center], groups, centers):
                    found.append(centers)
                else:
                    stay = True
            self.options[key] = found, stay or not found
        return self.options[key]

    def results(self, starts):
        """Partitions in which the process can end. `starts`: sequences of centers to begin with."""
        ends, seen, stack = set(), set(), [tuple(map(tuple, s)) for s in starts]
        seen.update(stack)
        while stack:
            start = stack.pop()
            groups, centers = improve(self.data, start, self.metric, self.tol)
            Counters.states += 1
            if len(start) > self.kmax:
                ends.add(partition(groups))
                continue
            options = [self.choices(g, c) for g, c in zip(groups, centers)]
            free = self.kmax - len(centers)
            for pick in itertools.product(*[[None] + o for o, _ in options]):
                splits = sum(1 for p in pick if p)
                missing = sum(1 for p, (_, stay) in zip(pick, options) if p is None and not stay)
                if splits > free or (missing and splits < free):
                    continue
                Counters.transitions += 1
                after = []
                for p, c in zip(pick, centers):
                    after += list(p) if p else [tuple(c)]
                after = tuple(map(tuple, after))
                if not splits or len(start) > len(groups):
                    # the process stops here (it may when centers have disappeared)
                    for final in {tuple(map(tuple, centers)), after}:
                        ends.add(partition(improve(self.data, final, self.metric, self.tol)[0]))
                if splits and after not in seen:
                    seen.add(after)
                    stack.append(after)
                    if len(seen) > LIMIT:
                        raise Tied()
        return ends


def partition(groups):
    return frozenset(frozenset(int(i) for i in g) for g in groups)


_memo = {}


def memo(key, make):
    if key not in _memo:
        if len(_memo) > 3000:
            _memo.clear()
        try:
            _memo[key] = make()
        except Tied:
            Counters.notes['tied'] = Counters.notes.get('tied', 0) + 1
            _memo[key] = None
    return _memo[key]


def xmodel(data, starts, kmax, tol, crit, alpha, beta, mname):
    metric = reference(mname)

    def better(g1, c1, g2, c2):
        if crit == 'BIC':
            a, b = bic(data, g1, c1, metric), bic(data, g2, c2, metric)
        else:
            b, a = mndl(data, g1, c1, metric, alpha, beta), mndl(data, g2, c2, metric, alpha, beta)
        if a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= TIE * max(1.0, abs(a))):
            raise Tied()
        return a < b
    return Model(data, metric, tol, kmax, better).results([starts])


def rejects(points, a, b):
    """The Anderson-Darling test at 1 % denies that the points projected on the line between two centers are normal."""
    v = [x - y for x, y in zip(a, b)]
    norm = sum(x * x for x in v)
    x = [sum(p * q for p, q in zip(pt, v)) / norm for pt in points]
    n = len(x)
    mean = sum(x) / n
    var = sum((t - mean) ** 2 for t in x) / (n - 1)
    if var <= 0:
        raise Tied()
    y = sorted((t - mean) / math.sqrt(var) for t in x)
    phi = lambda t: 0.5 * math.erfc(-t / math.sqrt(2))
    if not all(0 < phi(t) < 1 for t in y):
        raise Tied()
    a2 = -n - sum((2 * i + 1) * (math.log(phi(y[i])) + math.log(phi(-y[n - 1 - i]))) for i in range(n)) / n
    d = 1.0 + 4.0 / n - 25.0 / n / n
    if abs(d) < 1e-9:
        raise Tied()
    crit = 1.092 / d
    if abs(a2 - crit) < 1.1e-3 * max(1.0, abs(crit)):       # scipy rounds the critical values to three digits
        raise Tied()
    return not a2 < crit


def gmodel(data, k, kmax, tol):
    metric = reference('EUCLIDEAN_SQUARE')

    def better(g1, c1, g2, c2):
        return rejects([data[i] for i in g1[0]], c2[0], c2[1])
    model = Model(data, metric, tol, kmax if kmax > 0 else len(data) + 1, better)
    starts = {}
    distinct = len(set(map(tuple, data)))
    for idx in itertools.permutations(range(len(data)), k):
        if len(set(tuple(data[i]) for i in idx)) == min(k, distinct):
            groups, centers = improve(data, [data[i] for i in idx], metric, tol)
            starts[tuple(map(tuple, centers))] = len(groups)
    return model.results(starts)


def judge(data, metric, clusters, centers, wce, want, top, predict=None, probes=()):
    clusters = [[int(i) for i in c] for c in clusters]
    centers = [list(map(float, c)) for c in centers]
    lloyd.consistent(data, clusters, centers, float(wce), metric, lloyd.mean)
    require(all(clusters), 'a cluster is empty')
    require(len(clusters) <= top, lambda: '%d clusters, allowed are %d' % (len(clusters), top))
    if predict:
        pts = [list(p) for p in data] + [list(p) for p in probes]
        lloyd.check_predict(predict(pts), pts, centers, metric)
    if want is not None:
        require(partition(clusters) in want, lambda: 'the clusters %r are none of those which splitting by the criterion gives: %r' % (clusters, [sorted(map(sorted, w)) for w in want][:6]))
    return len(clusters)


_harness = None


def harness():
    global _harness
    if _harness is None:
        chance.core_seed(1)         # the core first, it keeps its own functions then
        _harness = chance.attach(ctypes.CDLL(build.harness(build.ensure(), 'xg')))
        _harness.xg_xmeans.restype = _harness.xg_gmeans.restype = ctypes.c_long
    return _harness


def flat(points):
    v = [float(x) for p in points for x in p]
    return (ctypes.c_double * max(1, len(v)))(*v)


def unpack(out, size, dim):
    require(size > 0, lambda: 'the core gives no result (%d)' % size)
    v = list(out[:size])
    k, m, wce = int(v[0]), int(v[1]), v[2]
    pos, clusters = 3, []
    for _ in range(k):
        n = int(v[pos])
        clusters.append([int(x) for x in v[pos + 1:pos + 1 + n]])
        pos += 1 + n
    return clusters, [v[pos + i * dim:pos + (i + 1) * dim] for i in range(m)], wce


L, D = ctypes.c_long, ctypes.c_double


def core_xmeans(data, starts, kmax, tol, crit, repeat, alpha, beta, mname):
    dim = len(data[0])
    out = (D * 4000)()
    size = harness().xg_xmeans(L(len(data)), L(dim), flat(data), L(len(starts)), flat(starts), L(kmax), D(tol), L(crit == 'MNDL'), L(repeat), D(alpha), D(beta),
                               L(mname == 'MANHATTAN'), out, L(4000))
    return unpack(out, size, dim)


def core_gmeans(data, k, kmax, tol, repeat):
    dim = len(data[0])
    out = (D * 4000)()
    size = harness().xg_gmeans(L(len(data)), L(dim), flat(data), L(k), D(tol), L(repeat), L(kmax), out, L(4000))
    return unpack(out, size, dim)


CRIT = dict(BIC=splitting_type.BAYESIAN_INFORMATION_CRITERION, MNDL=splitting_type.MINIMUM_NOISELESS_DESCRIPTION_LENGTH)


def run_xmeans(case):
    data, starts, kmax, tol, crit, repeat, (alpha, beta), mname, mode, bound, limit = case
    data = [list(p) for p in data]
    starts = [list(p) for p in starts]
    metric = reference(mname)
    want = memo(repr(('x', data, starts, kmax, tol, crit, alpha, beta, mname)), lambda: xmodel(data, starts, kmax, tol, crit, alpha, beta, mname))
    probes = [[x + 0.375 for x in p] for p in data[:2]]
    top = max(kmax, len(starts))
    sizes = set()

    def python(**kw):
        o = xmeans(data, starts, kmax, tol, CRIT[crit], mode == 'seeds', repeat=repeat, alpha=alpha, beta=beta, metric=instance(mname), **kw).process()
        return judge(data, metric, o.get_clusters(), o.get_centers(), o.get_total_wce(), want, top, o.predict, probes)

    if mode == 'seeds':
        for s in range(bound):
            sizes.add(python(random_state=s))
            Counters.executions += 1
    else:
        run = python if mode == 'python' else lambda: judge(data, metric, *core_xmeans(data, starts, kmax, tol, crit, repeat, alpha, beta, mname), want, top)
        for _, size in chance.explore(run, horizon=400, limit=limit, bound=bound):
            sizes.add(size)
    return (max(sizes), len(sizes)) if max(sizes) > len(starts) else None


def run_gmeans(case):
    data, k, kmax, tol, repeat, mode, bound, limit = case
    data = [list(p) for p in data]
    metric = reference('EUCLIDEAN_SQUARE')
    want = memo(repr(('g', data, k, kmax, tol)), lambda: gmodel(data, k, kmax, tol))
    probes = [[x + 0.375 for x in p] for p in data[:2]]
    top = kmax if kmax > 0 else len(data)
    sizes = set()

    def python(**kw):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = gmeans(data, k, mode == 'seeds', tolerance=tol, repeat=repeat, k_max=kmax, **kw).process()
        return judge(data, metric, o.get_clusters(), o.get_centers(), o.get_total_wce(), want, top, o.predict, probes)

    if mode == 'seeds':
        for s in range(bound):
            sizes.add(python(random_state=s))
            Counters.executions += 1
    else:
        run = python if mode == 'python' else lambda: judge(data, metric, *core_gmeans(data, k, kmax, tol, repeat), want, top)
        for _, size in chance.explore(run, horizon=400, limit=limit, bound=bound):
            sizes.add(size)
    return (max(sizes), len(sizes)) if max(sizes) > k else None


def families(tier):
    deep = tier == 'thorough'
    build.harness(build.ensure(), 'xg')
    f = 4 if deep else 1
    ab = (0.9, 0.9)

    def xstarts(data):
        yield [data[0]]
        if len(data) > 1 and data[0] != data[-1]:
            yield [data[0], data[-1]]
            yield [data[-1], data[0], [data[0][0] + 100.0] + list(data[0][1:])]        # attracts no point

    def xsmall():
        g = [0.0, 1.0, 3.5, 4.75, 9.0]
        sets = list(dom.line_sets(3, g[:4])) + list(dom.line_sets(4, g)) + [[[0.0]], [[2.0], [3.0]], [[2.0], [2.0]]]
        for data in sets:
            for s in xstarts(data):
                for kmax in (1, 2, 3, 4):
                    for crit in ('BIC', 'MNDL'):
                        for mode in ('python', 'core'):
                            yield data, s, kmax, 0.001, crit, 1, ab, 'EUCLIDEAN_SQUARE', mode, 2 if mode == 'core' else 1, 200 * f if mode == 'core' else 60

    groups = [[[0.0], [0.25], [0.6], [10.0], [10.3], [10.7], [11.2]],
              [[0.0, 0.0], [0.3, 0.1], [0.13, 0.36], [5.02, 5.21], [5.4, 5.11], [9.0, 0.23], [9.32, 0.07], [9.11, 0.45]],
              [[float(i * i)] for i in range(7)],
              [[0.0], [0.0], [0.0], [4.0], [4.0], [9.0], [9.0], [9.5]],
              [[1.0, 1.0]] * 4,
              [[0.0, 0.0], [1.02, 0.05], [0.11, 1.3], [20.0, 20.3], [21.03, 20.0], [20.2, 21.6], [40.0, 0.21], [41.12, 0.0], [40.3, 1.93]]]

    def xgroups():
        for data in groups:
            for s in xstarts(data):
                for kmax in (1, 2, 3, 5, 20):
                    for crit in ('BIC', 'MNDL'):
                        for mname in ('EUCLIDEAN_SQUARE', 'MANHATTAN'):
                            for repeat in (1, 2):
                                for mode, bound, limit in (('python', 1, 60 * f), ('core', 2, 300 * f), ('seeds', 4 * f, 0)):
                                    yield data, s, kmax, 0.001, crit, repeat, ab, mname, mode, bound, limit
            for bounds in ((0.0, 0.0), (1.0, 0.25), (0.1, 1.0)):
                for mode, bound, limit in (('python', 1, 60), ('core', 2, 800), ('seeds', 6, 0)):
                    yield data, [data[0]], 6, 0.001, 'MNDL', 1, bounds, 'EUCLIDEAN_SQUARE', mode, bound, limit

    def xlines():
        for n in (5, 6):
            for data in itertools.islice(dom.distinct(n, [[x] for x in (0.0, 1.0, 2.5, 4.75, 8.5, 9.25, 14.0, 15.75)]), 0, None, 1 if deep else 2):
                for kmax in (2, 3, 20):
                    for crit in ('BIC', 'MNDL'):
                        for mode, bound, limit in (('python', 1, 40), ('core', 2, 400)):
                            yield data, [data[0]], kmax, 0.001, crit, 1, ab, 'EUCLIDEAN_SQUARE', mode, bound, limit

    def gsmall():
        g = [0.0, 1.0, 3.5, 4.75, 9.0]
        sets = list(dom.line_sets(3, g[:4])) + list(dom.line_sets(4, g)) + list(dom.distinct(5, [[x] for x in g + [9.5, 11.0]])) + [[[0.0]], [[2.0], [3.0]], [[2.0], [2.0]]]
        for data in sets:
            for k in (1, 2, 3):
                if k <= len(data):
                    for kmax in (-1, 1, 2, 3, 4):
                        if kmax == -1 or kmax >= k:
                            for mode in ('python', 'core'):
                                yield data, k, kmax, 0.001, 1, mode, 2 if mode == 'core' else 1, 120 * f if mode == 'core' else 30

    def ggroups():
        for data in groups + [[[0.0], [0.5], [1.0], [1.4], [1.9], [2.6], [100.0], [100.7], [101.0], [101.6], [102.1], [102.9]],
                              [[math.tan(i / 8.0 - 0.75) + 0.01 * i] for i in range(13)]]:
            for k in (1, 2, 3):
                for kmax in (-1, 3, 4, 6):
                    for repeat in (1, 3):
                        for mode, bound, limit in (('python', 1, 40 * f), ('core', 1, 600 * f), ('seeds', 6 * f, 0)):
                            yield data, k, kmax, 0.001, repeat, mode, bound, limit

    return [Family('xsmall', xsmall, run_xmeans), Family('xgroups', xgroups, run_xmeans), Family('xlines', xlines, run_xmeans),
            Family('gsmall', gsmall, run_gmeans), Family('ggroups', ggroups, run_gmeans)]
