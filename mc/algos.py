"""
Every clustering algorithm behind one interface: how to parameterise it for a data set, make it, run it and read it.

params(data) are plain values derived from the data set (lists of lists of floats); make(data, p, core) may get the data in
any accepted container; read(o) gives a dict of everything the algorithm returns.
"""
import math

from mc.refmetric import instance

from pyclustering.cluster.agglomerative import agglomerative, type_link
from pyclustering.cluster.bang import bang
from pyclustering.cluster.birch import birch
from pyclustering.cluster.bsas import bsas
from pyclustering.cluster.clarans import clarans
from pyclustering.cluster.clique import clique
from pyclustering.cluster.cure import cure
from pyclustering.cluster.dbscan import dbscan
from pyclustering.cluster.ema import ema
from pyclustering.cluster.fcm import fcm
from pyclustering.cluster.ga import genetic_algorithm
from pyclustering.cluster.gmeans import gmeans
from pyclustering.cluster.hsyncnet import hsyncnet
from pyclustering.cluster.kmeans import kmeans
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.kmedoids import kmedoids
from pyclustering.cluster.mbsas import mbsas
from pyclustering.cluster.optics import optics
from pyclustering.cluster.rock import rock
from pyclustering.cluster.somsc import somsc
from pyclustering.cluster.syncnet import syncnet
from pyclustering.cluster.syncsom import syncsom
from pyclustering.cluster.ttsas import ttsas
from pyclustering.cluster.xmeans import splitting_type, xmeans
from pyclustering.container.cftree import measurement_type

BOTH, PY = ('python', 'core'), ('python',)


class Algo:
    def __init__(self, name, impls, params, make, read, random=False, run=None, seeded=False, inp=None):
        self.name, self.impls, self.params, self.make, self.read, self.random = name, impls, params, make, read, random
        self.run = run or (lambda o: (o.process(), o)[1])
        self.seeded = seeded        # takes random_state
        self.inp = inp or (lambda data: data)      # what the algorithm takes for these points


def ks(data, *wanted):
    return [k for k in wanted if k <= len(data)]


def firsts(data, k):
    """k different points of the data (fewer if there are not as many)."""
    out = []
    for p in data:
        if list(p) not in out:
            out.append([float(x) for x in p])
    step = max(1, len(out) // k)
    return out[::step][:k]


def spread(data):
    """A typical distance."""
    d = sorted(math.dist(p, q) for i, p in enumerate(data) for q in data[:i])
    return d[len(d) // 2] if d and d[len(d) // 2] > 0 else 1.0


def getters(*names):
    return lambda o: {n: getattr(o, n)() for n in names}


def centers_params(data):
    out = []
    for k in (1, 2, 3):
        c = firsts(data, k)
        if len(c) == k:
            out.append(c)
    return out


def kmeans_like(cls, *names):
    def params(data):
        return [(c, m) for c in centers_params(data) for m in ('EUCLIDEAN_SQUARE', 'MANHATTAN', 'CHEBYSHEV')[:3 if len(c) == 2 else 1]]
    return params, lambda data, p, core: cls(data, p[0], 0.001, core, metric=instance(p[1])), getters(*names)


def matrix(data):
    return [[math.dist(a, b) for b in data] for a in data]


def table():
    A = []

    def add(*a, **k):
        A.append(Algo(*a, **k))
    add('kmeans', BOTH, *kmeans_like(kmeans, 'get_clusters', 'get_centers', 'get_total_wce'))
    add('kmedians', BOTH, *kmeans_like(kmedians, 'get_clusters', 'get_medians', 'get_total_wce'))

    def medoid_params(data):
        n = len(data)
        return [(list(range(0, n, max(1, n // k)))[:k], m) for k in ks(data, 1, 2, 3) for m in ('EUCLIDEAN_SQUARE', 'MANHATTAN')]
    add('kmedoids', BOTH, medoid_params, lambda d, p, core: kmedoids(d, p[0], 0.0001, core, metric=instance(p[1])), getters('get_clusters', 'get_medoids'))
    add('clarans', PY, lambda d: [(k, 2, 3) for k in ks(d, 1, 2)], lambda d, p, core: clarans(d, *p), getters('get_clusters', 'get_medoids'), random=True)
    add('xmeans', BOTH, lambda d: [(c, k, crit) for c in centers_params(d)[:2] for k in (2, 4) for crit in (0, 1)],
        lambda d, p, core: xmeans(d, p[0], p[1], 0.001, list(splitting_type)[p[2]], core, random_state=5), getters('get_clusters', 'get_centers', 'get_total_wce'), random=True, seeded=True)
    add('gmeans', BOTH, lambda d: [(k,) for k in ks(d, 1, 2)], lambda d, p, core: gmeans(d, p[0], core, random_state=5), getters('get_clusters', 'get_centers', 'get_total_wce'), random=True, seeded=True)
    links = list(type_link)
    add('agglomerative', BOTH, lambda d: [(k, i) for k in ks(d, 1, 2, 3) for i in range(len(links))], lambda d, p, core: agglomerative(d, p[0], links[p[1]], core), getters('get_clusters'))
    add('cure', BOTH, lambda d: [(k, r, c) for k in ks(d, 1, 2, 3) for r, c in ((1, 0.5), (3, 0.2), (5, 0.0))], lambda d, p, core: cure(d, *p, core), getters('get_clusters', 'get_representors', 'get_means'))
    add('rock', BOTH, lambda d: [(spread(d) * f, k, t) for k in ks(d, 1, 2, 3) for f in (0.5, 1.01, 3.0) for t in (0.3, 0.5)], lambda d, p, core: rock(d, *p, core), getters('get_clusters'))
    kinds = list(measurement_type)
    add('birch', PY, lambda d: [(k, b, m, dm, t, e) for k in ks(d, 1, 2, 3) for b, m, dm, e in ((2, 2, 0.3, 500), (50, 200, 0.5, 500), (2, 3, 0.1, 2)) for t in (0, 2, 4)],
        lambda d, p, core: birch(d, p[0], p[1], p[2], p[3], kinds[p[4]], p[5]), getters('get_clusters'))
    seq = lambda d: [(k, spread(d) * f, m) for k in (1, 2, 4) for f in (0.4, 1.05) for m in ('EUCLIDEAN', 'MANHATTAN')]
    add('bsas', BOTH, seq, lambda d, p, core: bsas(d, p[0], p[1], core, metric=instance(p[2])), getters('get_clusters', 'get_representatives'))
    add('mbsas', BOTH, seq, lambda d, p, core: mbsas(d, p[0], p[1], core, metric=instance(p[2])), getters('get_clusters', 'get_representatives'))
    add('ttsas', BOTH, lambda d: [(spread(d) * a, spread(d) * b, m) for a, b in ((0.2, 0.6), (0.5, 1.1), (1.0, 3.0)) for m in ('EUCLIDEAN', 'MANHATTAN')],
        lambda d, p, core: ttsas(d, p[0], p[1], core, metric=instance(p[2])), getters('get_clusters', 'get_representatives'))
    add('dbscan', BOTH, lambda d: [(spread(d) * f, k) for f in (0.25, 0.5, 1.0, 2.1) for k in (1, 2, 3)], lambda d, p, core: dbscan(d, p[0], p[1], core), getters('get_clusters', 'get_noise'))
    add('optics', BOTH, lambda d: [(spread(d) * f, k, a) for f in (0.25, 0.5, 1.0, 2.1) for k in (1, 2, 3) for a in (None, 2)], lambda d, p, core: optics(d, p[0], p[1], p[2], core),
        lambda o: dict(getters('get_clusters', 'get_noise', 'get_radius')(o), order=[(x.index_object, x.core_distance, x.reachability_distance) for x in o.get_optics_objects()]))
    add('fcm', BOTH, lambda d: [(c, m) for c in centers_params(d) for m in (2.0, 1.4)], lambda d, p, core: fcm(d, p[0], m=p[1], ccore=core), getters('get_clusters', 'get_centers', 'get_membership'))
    add('ema', PY, lambda d: [([list(c) for c in firsts(d, k)], k) for k in (1, 2) if len(d) >= 3 and len(firsts(d, k)) == k and len(firsts(d, 3)) == 3 and len(d[0]) < 3],
        lambda d, p, core: ema(d, p[1], p[0], [1.0 if len(p[0][0]) == 1 else [[1.0 if i == j else 0.0 for j in range(len(p[0][0]))] for i in range(len(p[0][0]))]] * p[1], iterations=12), getters('get_clusters', 'get_centers', 'get_covariances'))
    add('clique', BOTH, lambda d: [(i, t) for i in (1, 2, 5) for t in (0, 1)], lambda d, p, core: clique(d, p[0], p[1], ccore=core), lambda o: dict(getters('get_clusters', 'get_noise')(o), cells=sorted((tuple(c.logical_location), sorted(c.points)) for c in o.get_cells())))
    add('bang', PY, lambda d: [(lv, dt, at) for lv in (1, 3, 6) for dt, at in ((0.0, 0), (1.0, 1))], lambda d, p, core: bang(d, p[0], density_threshold=p[1], amount_threshold=p[2]), getters('get_clusters', 'get_noise'))
    add('somsc', BOTH, lambda d: [(k, e) for k in ks(d, 1, 2, 3) for e in (1, 20)], lambda d, p, core: somsc(d, p[0], p[1], core, random_state=3), getters('get_clusters'), random=True, seeded=True)
    add('syncsom', PY, lambda d: [(r, c, spread(d)) for r, c in ((1, 2), (2, 2))], lambda d, p, core: syncsom(d, *p), getters('get_clusters'), random=True)
    add('syncnet', BOTH, lambda d: [(spread(d) * f, w) for f in (0.5, 1.2) for w in (False, True)], lambda d, p, core: syncnet(d, p[0], enable_conn_weight=p[1], ccore=core),
        lambda a: dict(get_clusters=a.allocate_clusters(0.1)), random=True, run=lambda o: o.process())
    add('hsyncnet', BOTH, lambda d: [(k,) for k in ks(d, 2, 3)], lambda d, p, core: hsyncnet(d, p[0], ccore=core), lambda a: dict(get_clusters=a.allocate_clusters(0.05)), random=True, run=lambda o: o.process())
    add('ga', PY, lambda d: [(k, ch, g) for k in (1, 2, 3) for ch, g in ((2, 3), (7, 5))], lambda d, p, core: genetic_algorithm(d, p[0], p[1], p[2], observer=None, random_state=7), getters('get_clusters'), random=True, seeded=True)
    add('kmedoids-matrix', BOTH, medoid_params, lambda d, p, core: kmedoids(d, p[0], 0.0001, core, data_type='distance_matrix'), getters('get_clusters', 'get_medoids'), inp=matrix)
    add('dbscan-matrix', BOTH, lambda d: [(spread(d) * f, k) for f in (0.25, 0.5, 1.0, 2.1) for k in (1, 2, 3)], lambda d, p, core: dbscan(d, p[0], p[1], core, data_type='distance_matrix'), getters('get_clusters', 'get_noise'), inp=matrix)
    add('optics-matrix', BOTH, lambda d: [(spread(d) * f, k, a) for f in (0.25, 0.5, 1.0, 2.1) for k in (1, 2, 3) for a in (None, 2)], lambda d, p, core: optics(d, p[0], p[1], p[2], core, data_type='distance_matrix'),
        lambda o: dict(getters('get_clusters', 'get_noise', 'get_radius')(o), order=[(x.index_object, x.core_distance, x.reachability_distance) for x in o.get_optics_objects()]), inp=matrix)
    return A


ALGOS = {a.name: a for a in table()}


def prepared(algo, data, p, core):
    """A new object. Algorithms of C++ that take the source of entropy from the machine see the same one each time."""
    return algo.make(data, p, core)
