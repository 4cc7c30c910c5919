"""C02 Algorithms leave the caller's data alone and can be run again."""
import copy
import itertools
import math

import numpy

import mc.algos
from mc import chance, dom
from mc.algos import ALGOS
from mc.engine import Counters, Family, require
from mc.refmetric import instance as new_metric

from pyclustering.cluster.center_initializer import kmeans_plusplus_initializer, random_center_initializer
from pyclustering.cluster.elbow import elbow
from pyclustering.cluster.encoder import cluster_encoder, type_encoding
from pyclustering.cluster.gmeans import gmeans
from pyclustering.cluster.kmeans import kmeans
from pyclustering.cluster.kmedians import kmedians
from pyclustering.cluster.kmedoids import kmedoids
from pyclustering.cluster.silhouette import silhouette, silhouette_ksearch
from pyclustering.cluster.somsc import somsc
from pyclustering.cluster.xmeans import xmeans
from pyclustering.container.cftree import cftree
from pyclustering.container.kdtree import kdtree_balanced
from pyclustering.utils import calculate_distance_matrix, data_corners

LEVEL = 'model_checking'
RULE = ('histories of constructions and process() calls over shared inputs: every algorithm and implementation x container of the data (lists, '
        'tuples, numpy array, strided numpy view, list of numpy rows) x container of initial centers and medoids x small data sets x parameters; '
        'after every step the data set, the initial values and the metric object are those that were passed and the result is that of the '
        'first run with plain lists; non-trivial: at least two clusters in a container that is not a list')
ASSUMPTIONS = ['randomised algorithms see the same source of randomness in each run']

KINDS = ('list', 'tuple', 'array', 'strided', 'rows')
# results of a second process() on one object are not those of the first one by design: the run goes on from what it has reached
GOES_ON = ('fcm', 'ema')


def is_points(x):
    return isinstance(x, list) and x and isinstance(x[0], list) and all(isinstance(v, (int, float)) for v in x[0])


def is_indexes(x):
    return isinstance(x, list) and x and all(isinstance(v, int) for v in x)


def convert(x, kind):
    if is_points(x):
        if kind == 'list':
            return [list(r) for r in x]
        if kind == 'tuple':
            return tuple(tuple(r) for r in x)
        if kind == 'array':
            return numpy.array(x, dtype=float)
        if kind == 'strided':
            wide = numpy.full((len(x) * 2, len(x[0]) * 3), -77.0)
            wide[::2, ::3] = x
            return wide[::2, ::3]
        return [numpy.array(r, dtype=float) for r in x]
    if is_indexes(x):
        if kind in ('array', 'strided', 'rows'):
            return numpy.array(x)
        return tuple(x) if kind == 'tuple' else list(x)
    return x


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, numpy.ndarray):
        return plain(x.tolist())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(v) for v in x)
    if isinstance(x, numpy.generic):
        return x.item()
    return x


def same(a, b):
    if isinstance(a, dict):
        return all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    return a == b


def frozen(x):
    """Kind and values of an input."""
    if isinstance(x, numpy.ndarray):
        return 'array', str(x.dtype), x.shape, x.tolist()
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [frozen(v) for v in x]
    return type(x).__name__, x


def run(case):
    name, impl, data, p, kind = case
    a = ALGOS[name]
    data = [list(map(float, q)) for q in data]
    core = impl == 'core'
    metrics = []

    def recorded(*args):
        if not metrics:
            metrics.append(new_metric(*args))
        return metrics[0]

    def state():
        return [{k: v for k, v in vars(m).items() if not callable(v)} for m in metrics]
    mc.algos.instance = new_metric
    with chance.owned(11):
        o = a.make(a.inp(copy.deepcopy(data)), copy.deepcopy(p), core)
        want = plain(a.read(a.run(o)))
    Counters.executions += 1
    given = convert(a.inp(data), kind)
    given_p = tuple(convert(x, kind) for x in p)
    before, before_p = frozen(given), frozen(given_p)
    mc.algos.instance = recorded
    try:
        objects = []
        for step in ('first object', 'first object again', 'second object', 'first object after it'):
            with chance.owned(11):
                if step == 'first object' or step == 'second object':
                    o = a.make(given, given_p, core)
                    objects.append(o)
                    if step == 'first object':
                        before_m = state()
                elif name in GOES_ON or a.random or (name.startswith('optics') and p[2] is not None):
                    continue
                else:
                    o = objects[0]
                got = plain(a.read(a.run(o)))
            Counters.executions += 1
            Counters.transitions += 1
            require(frozen(given) == before, lambda: '%s: the data set became %r' % (step, frozen(given)))
            require(frozen(given_p) == before_p, lambda: '%s: the parameters became %r' % (step, frozen(given_p)))
            require(state() == before_m, lambda: '%s: the metric object became %r, it was %r' % (step, state(), before_m))
            require(same(want, got), lambda: '%s, %s: %r, with lists %r' % (step, kind, got, want))
    finally:
        mc.algos.instance = new_metric
    return (name, kind) if sum(1 for c in want['get_clusters'] if c) > 1 and kind != 'list' else None


def halves(n):
    k = (n + 1) // 2
    return [list(range(k)), list(range(k, n))]


# name: (needs, implementations, call of (data, metric, core) that gives something comparable)
TOOLS = {
    'silhouette': (3, ('python', 'core'), lambda d, m, core: silhouette(d, halves(len(d)), metric=m, ccore=core).process().get_score()),
    'silhouette-search': (4, ('python', 'core'), lambda d, m, core: silhouette_ksearch(d, 2, 4, ccore=core, random_state=5).process().get_scores()),
    'elbow': (4, ('python', 'core'), lambda d, m, core: (lambda e: [e.get_amount(), e.get_wce()])(elbow(d, 1, 4, ccore=core, random_state=5).process())),
    'kmeans++': (2, ('python',), lambda d, m, core: kmeans_plusplus_initializer(d, 2, 2, metric=m, random_state=5).initialize(return_index=True)),
    'kmeans++ points': (2, ('python',), lambda d, m, core: kmeans_plusplus_initializer(d, 2, metric=m, random_state=5).initialize()),
    'random centers': (2, ('python',), lambda d, m, core: random_center_initializer(d, 2, random_state=5).initialize()),
    'all centers': (2, ('python',), lambda d, m, core: random_center_initializer(d, len(d), random_state=5).initialize()),
    'encoder': (2, ('python',), lambda d, m, core: [cluster_encoder(type_encoding.CLUSTER_INDEX_LIST_SEPARATION, halves(len(d)), d).set_encoding(e).get_clusters() for e in type_encoding]),
    'kmeans predict': (2, ('python', 'core'), lambda d, m, core: kmeans(d, [d[0], d[1]], ccore=core, metric=m).process().predict(d)),
    'kmedians predict': (2, ('python', 'core'), lambda d, m, core: kmedians(d, [d[0], d[1]], ccore=core, metric=m).process().predict(d)),
    'kmedoids predict': (2, ('python', 'core'), lambda d, m, core: kmedoids(d, [0, 1], ccore=core, metric=m).process().predict(d)),
    'xmeans predict': (2, ('python', 'core'), lambda d, m, core: xmeans(d, [d[0], d[1]], 2, ccore=core, metric=m, random_state=5).process().predict(d)),
    'gmeans predict': (2, ('python', 'core'), lambda d, m, core: gmeans(d, 2, core, random_state=5).process().predict(d)),
    'somsc predict': (2, ('python', 'core'), lambda d, m, core: somsc(d, 2, 10, core, random_state=5).process().predict(d)),
    'kd tree': (1, ('python',), lambda d, m, core: [sorted(round(x[0], 9) for x in kdtree_balanced(d, list(range(len(d)))).find_nearest_dist_nodes(q, 1.5)) for q in d]),
    'cf tree': (1, ('python',), lambda d, m, core: cf_state(d)),
    'data dimensions': (1, ('python',), lambda d, m, core: [data_corners(d), calculate_distance_matrix(d)]),
}


def cf_state(d):
    tree = cftree(2, 2, threshold=0.5)
    for q in d:
        tree.insert_point(q)
    return [[e.number_points, e.linear_sum, e.square_sum] for leaf in tree.leafes for e in leaf.entries]


def run_tool(case):
    name, impl, metric, data, kind = case
    need, _, call = TOOLS[name]
    data = [list(map(float, q)) for q in data]
    core = impl == 'core'
    with chance.owned(11):
        want = plain(call(copy.deepcopy(data), new_metric(metric), core))
    given, m = convert(data, kind), new_metric(metric)
    before = frozen(given)
    probe = [m(data[0], q) for q in data]
    state = {k: v for k, v in vars(m).items() if not callable(v)}
    for step in ('first call', 'second call'):
        with chance.owned(11):
            got = plain(call(given, m, core))
        Counters.executions += 1
        Counters.transitions += 1
        require(frozen(given) == before, lambda: '%s: the data set became %r' % (step, frozen(given)))
        require({k: v for k, v in vars(m).items() if not callable(v)} == state, lambda: '%s: the metric was %r, became %r' % (step, state, vars(m)))
        require([m(data[0], q) for q in data] == probe, lambda: '%s: the metric answers differently' % step)
        require(same(want, got), lambda: '%s, %s: %r, with lists %r' % (step, kind, got, want))
    return (name, kind) if kind != 'list' and len(data) > 2 else None


def families(tier):
    deep = tier == 'thorough'

    def tools():
        for name, (need, impls, _) in TOOLS.items():
            for data in itertools.chain(dom.stride(dom.line_sets(4, [0.0, 1.0, 2.5, 6.0]), 1 if deep else 3), dom.stride(dom.plane_sets(4, [0.0, 1.0, 4.0]), 4 if deep else 12),
                                        dom.stride(dom.line(3, [0.0, 1.0, 2.5]), 2), [dom.blobs([3, 4, 3]), [[1.0, 2.0, 4.0], [0.0, 0.0, 1.0], [5.0, 5.0, 5.0], [6.0, 5.0, 5.0]]]):
                distinct = len({tuple(q) for q in data})
                if distinct >= need and len(data) > need - 1:
                    for impl in impls:
                        for metric in ('EUCLIDEAN_SQUARE', 'EUCLIDEAN', 'MANHATTAN', 'CHEBYSHEV'):
                            for kind in KINDS[:4]:
                                yield name, impl, metric, data, kind

    def sets(name):
        f = 1 if deep else 3
        slow = 'sync' in name
        yield [[1.0, 2.0]]
        yield [[2.0]] * 3
        if slow:
            yield from dom.stride(dom.line(3, [0.0, 1.0, 2.5]), 3 * f)
            yield [[0.0, 0.0], [0.5, 0.0], [4.0, 4.0], [4.5, 4.0]]
            return
        yield from dom.stride(dom.line(3, [0.0, 1.0, 2.5]), f)
        yield from dom.stride(dom.line_sets(4, [0.0, 1.0, 2.5, 6.0]), f)
        yield from dom.stride(dom.plane_sets(3, [0.0, 1.0, 2.5]), 2 * f)
        yield from dom.stride(dom.plane_sets(4, [0.0, 1.0, 4.0]), 8 * f)
        yield from dom.stride(([list(q) for q in c] for c in itertools.product(itertools.product((0.0, 2.0), repeat=3), repeat=3)), 40 * f)
        yield dom.blobs([3, 4, 3])
        yield dom.lattice(9)

    def cases(name):
        a = ALGOS[name]
        for data in sets(name):
            for k, p in enumerate(a.params(data)):
                for impl in a.impls:
                    for kind in KINDS[:4] if name == 'cure' else KINDS:
                        yield name, impl, data, p, kind
    return [Family(name, lambda name=name: cases(name), run, hang=60) for name in ALGOS] + [Family('tools', tools, run_tool, hang=60)]
