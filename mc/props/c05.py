"""C05 Agglomerative clustering: greedy merges under the chosen link."""
import itertools

from mc import dom, geo
from mc.engine import Counters, Family, Skip, require

from pyclustering.cluster.agglomerative import agglomerative, type_link

LEVEL = 'exploration'
RULE = ('every data sequence / multiset of the grids x number of clusters x link x implementation x input kind; the '
        'result has to be one of the partitions reachable by greedy merges with any tie-break (computed by breadth-first '
        'search over partitions); non-trivial: at least one merge and at least two clusters remain')
ASSUMPTIONS = ['links are measured with the squared Euclidean distance, as both implementations document',
               'link values closer than 1e-9 count as tied; the tie search is limited to 3000 partitions per level (such '
               'cases are checked to be a partition of the right size only, and counted)']
LIMIT = 3000
LINKS = ['SINGLE_LINK', 'COMPLETE_LINK', 'AVERAGE_LINK', 'CENTROID_LINK']


def link_value(link, data, a, b):
    if link == 'CENTROID_LINK':
        ca = [sum(data[i][d] for i in a) / len(a) for d in range(len(data[0]))]
        cb = [sum(data[i][d] for i in b) / len(b) for d in range(len(data[0]))]
        return geo.sq(ca, cb)
    ds = [geo.sq(data[i], data[j]) for i in a for j in b]
    return min(ds) if link == 'SINGLE_LINK' else max(ds) if link == 'COMPLETE_LINK' else sum(ds) / len(ds)


def reachable(data, k, link):
    level = {frozenset(frozenset([i]) for i in range(len(data)))}
    size = len(data)
    cache = {}
    while size > k:
        nxt = set()
        for part in level:
            groups = sorted(part, key=min)
            best, pairs = None, []
            for a, b in itertools.combinations(groups, 2):
                key = (a, b)
                if key not in cache:
                    cache[key] = link_value(link, data, a, b)
                v = cache[key]
                if best is None or v < best - 1e-9 * max(1.0, abs(best)):
                    best, pairs = v, [(a, b)]
                elif v <= best + 1e-9 * max(1.0, abs(best)):
                    pairs.append((a, b))
            for a, b in pairs:
                nxt.add((part - {a, b}) | {a | b})
        if len(nxt) > LIMIT:
            return None
        level = nxt
        size -= 1
    return level


_memo = {}


def expected(data, k, link):
    key = (tuple(map(tuple, data)), k, link)
    if key not in _memo:
        if len(_memo) > 2000:
            _memo.clear()
        _memo[key] = reachable(data, k, link)
    return _memo[key]


def run(case):
    data, k, link, ccore, kind = case
    o = agglomerative(dom.numpyfy(data, kind), k, type_link[link] if link else None, ccore)
    o.process()
    cl, _ = geo.partition(o.get_clusters(), len(data))
    require(len(cl) == min(k, len(data)), lambda: '%d clusters instead of %d: %r' % (len(cl), min(k, len(data)), cl))
    want = expected(data, k, link or 'CENTROID_LINK')
    if want is None:
        Counters.notes['too_many_ties'] = Counters.notes.get('too_many_ties', 0) + 1
        return None
    got = frozenset(frozenset(c) for c in cl)
    require(got in want, lambda: '%s gives %r; greedy merging gives %r' % (link, cl, [sorted(map(sorted, w)) for w in list(want)[:4]]))
    return geo.shape(cl) if 1 < len(cl) < len(data) else None


def cross(datas, ks, kinds=('list',), links=LINKS):
    for data in datas:
        for k in ks:
            if k > len(data) + 1:
                continue
            for link in links:
                for ccore in (False, True):
                    for kind in kinds:
                        yield data, k, link, ccore, kind


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 3.0, 7.0, 7.5]

    def lines():
        for n in (1, 2, 3, 4):
            yield from cross(dom.line(n, g), range(1, 6))
        yield from cross(dom.line_sets(5, g), range(1, 5))
        yield from cross(dom.distinct(6 if not deep else 7, [[x] for x in (0.0, 1.0, 2.5, 4.5, 8.0, 9.25, 14.0, 15.5, 21.0)]), range(1, 6))

    def planes():
        yield from cross(dom.plane(3, [0.0, 1.0, 2.5]), (1, 2))
        yield from cross(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 2.5) for y in (0.0, 1.5, 4.0)]), (1, 2, 3))
        yield from cross(dom.distinct(5, [[x, y] for x in (0.0, 1.0, 2.5, 5.0) for y in (0.0, 1.75, 4.0)]), (2, 3))
        if deep:
            yield from cross(dom.distinct(6, [[x, y] for x in (0.0, 1.0, 2.5, 5.0) for y in (0.0, 1.75, 4.0)]), (2, 3, 4))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (1, 2), ('list', 'tuple', 'numpy', 'int'), LINKS + [None])
        cube = [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 1.5) for z in (0.0, 2.0)]
        yield from cross(dom.distinct(4, cube), (1, 2, 3), ('list', 'numpy'))

    def sizes():
        for n in range(7, 45 if deep else 28):
            for d in ([[float(i * i % 97) + i / 16.0] for i in range(n)],
                      [[x + i * i / 64.0, y + i / 32.0] for i, (x, y) in enumerate(dom.lattice(n))]):
                yield from cross([d], (1, 2, 3, 5, n - 2))

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            yield from cross(dom.scaled(dom.line(4, g[:4]), f, o), (1, 2, 3))
            yield from cross(dom.scaled(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 2.5) for y in (0.0, 1.5, 4.0)]), f, o), (1, 2))

    return [Family('line', lines, run), Family('plane', planes, run), Family('kinds', kinds, run), Family('scaled_sizes', sizes, run),
            Family('magnitudes', magnitudes, run)]
