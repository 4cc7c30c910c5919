"""C21 Conversions of the representation of clusters."""
import itertools
import math

import numpy

from mc import dom, geo
from mc.engine import Counters, Family, require

from pyclustering.cluster.encoder import cluster_encoder, type_encoding
from pyclustering.cluster.kmeans import kmeans

LABEL = type_encoding.CLUSTER_INDEX_LABELING
INDEX = type_encoding.CLUSTER_INDEX_LIST_SEPARATION
OBJECT = type_encoding.CLUSTER_OBJECT_LIST_SEPARATION
TYPES = (LABEL, INDEX, OBJECT)

LEVEL = 'model_checking'
RULE = ('data with and without repeated points x every division into ordered clusters with unclustered points x every order of '
        'members x first representation x every sequence of conversions up to the depth (transitions are the conversions), '
        'compared with the model (the ordered clusters of point values) after every one; non-trivial: at least two clusters')
ASSUMPTIONS = ['points with the same coordinates are the same point, except where only index lists and labels are involved',
               'a cluster without members is not distinguished from no cluster when it is the last one (labels cannot tell)']


def key(o):
    return tuple(float(x) for x in o)


def check(encoder, encoding, data, clusters, exact):
    require(encoder.get_encoding == encoding, lambda: 'encoding is %r, asked for %r' % (encoder.get_encoding, encoding))
    got = encoder.get_clusters()
    if encoding == LABEL:
        require(len(got) == len(data), lambda: '%d labels for %d points' % (len(got), len(data)))
        out = [[] for _ in clusters]
        for i, k in enumerate(got):
            if not math.isnan(k):
                require(int(k) == k and 0 <= k < len(clusters), lambda: 'label %r, there are %d clusters' % (k, len(clusters)))
                out[int(k)].append(i)
    elif encoding == INDEX:
        out = [[int(i) for i in c] for c in got]
        for c in out:
            require(all(0 <= i < len(data) for i in c), lambda: 'an index is outside of the data: %r' % (got,))
    else:
        out = [[key(o) for o in c] for c in got]
    if encoding != OBJECT:
        flat = [i for c in out for i in c]
        require(len(flat) == len(set(flat)), lambda: 'a point is in two places: %r' % (got,))
    if exact and encoding != OBJECT:
        have = [sorted(c) for c in out]
        want = [sorted(c) for c in clusters]
    else:
        have = [sorted(c if encoding == OBJECT else (key(data[i]) for i in c)) for c in out]
        want = [sorted(key(data[i]) for i in c) for c in clusters]
    while have and not have[-1]:
        have.pop()
    while want and not want[-1]:
        want.pop()
    require(have == want, lambda: 'the clusters are now %r, they were %r (data %r)' % (have, want, data))


def build(data, clusters, encoding):
    if encoding == INDEX:
        return [list(c) for c in clusters]
    if encoding == OBJECT:
        return [[data[i] for i in c] for c in clusters]
    labels = [float('NaN')] * len(data)
    for k, c in enumerate(clusters):
        for i in c:
            labels[i] = k
    return labels


def run(case):
    data, clusters, kind, depth = case
    given = dom.numpyfy(data, kind) if kind != 'mixed' else [[int(x) if i % 2 else x for x in p] for i, p in enumerate(data)]
    plain = [key(p) for p in data]
    distinct = len(set(plain)) == len(plain)
    frozen = repr(given)
    for first in TYPES:
        for word in itertools.product(TYPES, repeat=depth):
            e = cluster_encoder(first, build(given, clusters, first), given)
            exact = first != OBJECT or distinct
            check(e, first, given, clusters, exact)
            for t in word:
                require(e.set_encoding(t) is e, 'set_encoding() does not return the encoder')
                exact = exact and (t != OBJECT or distinct)
                check(e, t, given, clusters, exact)
                Counters.transitions += 1
            Counters.traces += 1
    Counters.states += 3
    require(repr(given) == frozen, 'the data has been changed')
    require(e.get_data() is given or repr(e.get_data()) == frozen, 'other data is returned')
    return geo.shape(clusters, [i for i in range(len(data)) if all(i not in c for c in clusters)]) if len(clusters) > 1 else None


def run_algorithm(case):
    """A clustering result of the library, through its own encoding."""
    data, centers, ccore = case
    o = kmeans(data, centers, ccore=ccore)
    o.process()
    clusters = [list(map(int, c)) for c in o.get_clusters()]
    for word in itertools.product(TYPES, repeat=3):
        e = cluster_encoder(o.get_cluster_encoding(), o.get_clusters(), data)
        for t in word:
            check(e.set_encoding(t), t, data, clusters, len(set(map(key, data))) == len(data))
            Counters.transitions += 1
        Counters.traces += 1
    return geo.shape(clusters)


def run_refuse(case):
    data, foreign, encoding = case
    try:
        cluster_encoder(OBJECT, [[foreign]], data).set_encoding(encoding)
    except ValueError:
        return True
    require(False, 'an object which is not in the data is accepted')


def divisions(n, most, noise=True):
    for labels in itertools.product(range(-1 if noise else 0, most), repeat=n):
        used = sorted(set(labels) - {-1})
        if used == list(range(len(used))):
            yield [[i for i in range(n) if labels[i] == k] for k in used]


def families(tier):
    deep = tier == 'thorough'
    depth = 5 if deep else 4

    def line():
        for n in (1, 2, 3, 4):
            for data in dom.line(n, [0.0, 1.0, 2.5] if n < 4 or deep else [0.0, 1.0]):
                for d in divisions(n, 3):
                    for kind in ('list', 'tuple'):
                        yield data, d, kind, depth if n < 4 else 3

    def member_order():
        for data in ([[0.0], [1.0], [2.0], [3.0]], [[1.0], [0.0], [1.0], [1.0]]):
            for perm in itertools.permutations(range(4)):
                for cuts in ((1,), (2,), (3,), (1, 2), (1, 3), (2, 2), (0, 2)):
                    edges = (0,) + cuts + (4,)
                    yield data, [list(perm[a:b]) for a, b in zip(edges, edges[1:])], 'list', depth

    def kinds():
        for data in dom.plane(3, (0.0, 1.0)):
            for d in divisions(3, 2):
                for kind in ('numpy', 'int', 'mixed', 'list'):
                    yield data, d, kind, 3
        big = [[1.0 / 3 + i * 1e-12, 1e15 + i] for i in range(4)]
        for d in divisions(4, 3):
            for kind in ('list', 'numpy'):
                yield big, d, kind, 2
        long = [[float(i == j or j % 7 == 0) for j in range(1200)] for i in (500, 501, 502, 500)]
        for d in divisions(4, 2):
            for kind in ('list', 'numpy'):
                yield long, d, kind, 2

    def algorithms():
        for data in dom.plane_sets(4, (0.0, 1.0, 4.0), (0.0, 2.0)):
            for ccore in (False, True):
                yield data, [data[0], data[-1]], ccore

    def refuse():
        for data in ([[0.0], [1.0]], [(0.0, 1.0), (2.0, 2.0)]):
            for encoding in (LABEL, INDEX):
                yield data, [5.0] * len(data[0]), encoding

    return [Family('line', line, run), Family('member_order', member_order, run), Family('kinds', kinds, run),
            Family('algorithms', algorithms, run_algorithm), Family('refuse', refuse, run_refuse)]
