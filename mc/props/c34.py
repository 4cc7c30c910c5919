"""C34 The Python and the C++ implementation of an algorithm agree."""
import itertools
import math

from mc import chance, dom
from mc.algos import ALGOS, firsts, kmeans_like, spread
from mc.engine import Counters, Family, Skip, require
from mc.props import c08, c11
from mc.props.c02 import plain
from mc.refmetric import instance, reference

from pyclustering.cluster.kmeans import kmeans
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.silhouette import silhouette

LEVEL = 'exploration'
RULE = ('every data set of generic points (no two equal distances): all orders of subsets of irregular 1-D, 2-D and 3-D point sets, and larger sets '
        'made of windows of irrational quadratic sequences (uniform, grouped, elongated, nested) x all parameters and metrics both implementations accept; both '
        'implementations return the same clusters, noise, centers, representatives, objects and scores; non-trivial: at least two clusters')
ASSUMPTIONS = ['BSAS, MBSAS and TTSAS: cases in which the recorded weight of representatives in the core (known finding of C11) makes a difference are '
               'outside', 'K-Medoids: cases in which equally good exchanges lead to different medoids are outside']
PHI = (math.sqrt(5) - 1) / 2
RATES = (PHI, math.sqrt(2) - 1, math.sqrt(3) - 1)


def rotation(start, n, dim, shape):
    """n points: a window of an irrational quadratic sequence (a rotation itself has equal gaps), shaped."""
    out = []
    for i in range(start, start + n):
        q = [(i * i * r + i * math.sqrt(5 + k)) % 1.0 for k, r in enumerate(RATES[:dim])]
        if shape == 'uniform':
            out.append([10 * x for x in q])
        elif shape == 'groups':
            g = i % 3
            out.append([12.7 * g * (k + 1) / 1.9 + 2 * x for k, x in enumerate(q)])
        elif shape == 'long':
            out.append([30 * q[0]] + [0.7 * x for x in q[1:]])
        elif shape == 'nested':
            s = 10.0 ** (-(i % 4))
            out.append([10 * s * x for x in q])
        elif shape == 'far':
            out.append([1000.5 + 3 * x for x in q])
        elif shape == 'close':
            out.append([0.002 * x - 0.0007 for x in q])
    return out


def canonical(r):
    """Order of clusters and of points inside of them is not a part of the agreement; what is paired with clusters moves with them."""
    r = plain(r)
    order = sorted(range(len(r['get_clusters'])), key=lambda k: sorted(r['get_clusters'][k]))
    out = {'clusters': [sorted(r['get_clusters'][k]) for k in order]}
    for name, v in r.items():
        if name == 'get_clusters':
            continue
        if name in ('get_centers', 'get_medians', 'get_medoids', 'get_means', 'get_representatives', 'get_representors'):
            require(len(v) == len(order), lambda: '%d clusters, %d of %s' % (len(order), len(v), name))
            v = [v[k] for k in order]
            if name == 'get_representors':
                v = [sorted(x) for x in v]
        elif name == 'get_membership':
            v = [[row[k] for k in order] for row in v]
        elif name == 'get_noise':
            v = sorted(v)
        out[name] = v
    return out


def agree(a, b, tol):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(agree(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(agree(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if a is None or b is None:
            return a is b
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1e-3, abs(a), abs(b))
    return a == b


def run(case):
    name, data, p = case
    a = ALGOS[name]
    data = [list(map(float, q)) for q in data]
    if name in ('bsas', 'mbsas', 'ttsas'):
        ref = getattr(c11, 'ref_' + name)
        results = [[(x.clusters, x.reps) for x in ref(data, p[0], p[1], reference(p[2]), recorded)] for recorded in (False, True)]
        if results[0] != results[1]:
            raise Skip('known finding')
    got = []
    for core in (False, True):
        with chance.owned(11):
            o = a.make(a.inp([list(q) for q in data]), p, core)
            got.append(canonical(a.read(a.run(o))))
        Counters.executions += 1
    if name.startswith('kmedoids') and not agree(got[0], got[1], 1e-6):
        # both members of a two-point cluster are equally good medoids, whatever the points are
        D = a.inp(data) if name == 'kmedoids-matrix' else c08.matrix_of(data, reference(p[1]))
        stops = c08.reachable(D, p[0], 0.0001, 200)
        if len(stops) > 1 and all(frozenset(g['get_medoids']) in stops for g in got):
            raise Skip('exchanges are tied')
    require(agree(got[0], got[1], 1e-6), lambda: 'Python: %r, core: %r' % (got[0], got[1]))
    n = sum(1 for c in got[0]['clusters'] if c)
    return (name, n) if n > 1 else None


# name: values comparable between implementations, of (data, labels, metric, core)
def halves(n, k):
    return [c for c in ([i for i in range(n) if (i * i + i) // 2 % k == j] for j in range(k)) if c]


SCORES = {
    'silhouette': lambda d, k, m, core: silhouette(d, halves(len(d), k), metric=m, ccore=core).process().get_score(),
    'silhouette matrix': lambda d, k, m, core: silhouette([[m(a, b) for b in d] for a in d], halves(len(d), k), data_type='distance_matrix', ccore=core).process().get_score(),
    'kmeans predict': lambda d, k, m, core: [int(x) for x in kmeans(d, firsts(d, k), ccore=core, metric=m).process().predict(d)],
    'kmedians predict': lambda d, k, m, core: [int(x) for x in kmedians(d, firsts(d, k), ccore=core, metric=m).process().predict(d)],
    'kmeans wce': lambda d, k, m, core: kmeans(d, firsts(d, k), ccore=core, metric=m).process().get_total_wce(),
    'kmeans steps': lambda d, k, m, core: [sorted(sorted(c) for c in kmeans(d, firsts(d, k), 0.0, core, metric=m, itermax=i).process().get_clusters()) for i in (0, 1, 2, 3)],
    'kmedians steps': lambda d, k, m, core: [sorted(sorted(c) for c in kmedians(d, firsts(d, k), 0.0, core, metric=m, itermax=i).process().get_clusters()) for i in (0, 1, 2, 3)],
}


def run_score(case):
    name, data, k, metric = case
    data = [list(map(float, q)) for q in data]
    arg = [max(c) - min(c) for c in zip(*data)] if metric == 'GOWER' else None
    got = []
    for core in (False, True):
        with chance.owned(11):
            got.append(SCORES[name]([list(q) for q in data], k, instance(metric, arg), core))
        Counters.executions += 1
    require(agree(plain(got[0]), plain(got[1]), 1e-6), lambda: '%s: Python %r, core %r' % (name, got[0], got[1]))
    return (name, metric) if k > 1 else None


NAMES = ('kmeans', 'kmedians', 'kmedoids', 'agglomerative', 'cure', 'rock', 'bsas', 'mbsas', 'ttsas', 'dbscan', 'optics', 'fcm', 'clique', 'kmedoids-matrix', 'dbscan-matrix', 'optics-matrix')


def families(tier):
    deep = tier == 'thorough'
    L = [0.0, 1.0173, 2.3291, 4.5117, 7.9337, 13.3751]
    P2 = [[0.0, 0.0], [1.0131, 0.3177], [2.7713, 1.1939], [0.4519, 3.3371], [5.1179, 4.2317], [6.6131, 0.8713]]
    P3 = [q + [(k * k * PHI + k * 0.37) % 1.0 * 5] for k, q in enumerate(P2)]

    def sets():
        for n in (2, 3, 4):
            for c in itertools.permutations(L[:6 if deep else 5], n):
                yield [[x] for x in c]
        for n in (3, 4, 5):
            for k, c in enumerate(itertools.permutations(P2, n)):
                if k % (1 if n == 3 else 5 if deep else 23) == 0:
                    yield list(c)
        for k, c in enumerate(itertools.permutations(P3, 4)):
            if k % (5 if deep else 29) == 0:
                yield list(c)

    def larger():
        for shape in ('uniform', 'groups', 'long', 'nested', 'far', 'close'):
            for dim in (1, 2, 3):
                for n in (7, 10, 14, 21, 33) + ((50, 80) if deep else ()):
                    for start in range(1, 200 if deep else 60, 13):
                        yield rotation(start, n, dim, shape)

    def cases(name):
        a = ALGOS[name]
        for data in itertools.chain(sets(), larger()):
            for p in a.params(data):
                if name == 'fcm':
                    p = ([[x + 0.0137 * spread(data) for x in c] for c in p[0]], p[1])
                yield name, data, p
    def scores():
        for data in itertools.chain(dom.stride(sets(), 3 if deep else 11), dom.stride(larger(), 1 if deep else 2)):
            for name in SCORES:
                for metric in ('EUCLIDEAN_SQUARE', 'EUCLIDEAN', 'MANHATTAN', 'CHEBYSHEV', 'CANBERRA', 'CHI_SQUARE', 'GOWER'):
                    for k in (2, 3):
                        if k < len(data):
                            yield name, data, k, metric
    return [Family('scores', scores, run_score, hang=60)] + [Family(name, lambda name=name: cases(name), run, hang=60) for name in NAMES]
