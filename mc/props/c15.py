"""C15 CURE: greedy merges by closest representatives; means and representatives."""
import itertools

from mc import dom, geo
from mc.engine import Counters, Family, require

from pyclustering.cluster.cure import cure

LEVEL = 'exploration'
RULE = ('every data sequence / set of the grids x number of clusters x representatives x compression x implementation x input '
        'kind x one or two process() calls; clusters with their representatives have to be one of the states reachable by '
        'merging two clusters of closest representatives with any tie-break (breadth-first search over states); non-trivial: a '
        'merge happened and at least two clusters remain')
ASSUMPTIONS = ['the points to be moved are chosen farthest-first, starting with the point farthest from the mean (the published rule)',
               'distances closer than 1e-9 count as tied; the tie search is limited to 400 states per level (such cases are checked '
               'for the partition, the means and the number of representatives only, and counted)']
LIMIT = 400


def mean(pts):
    return tuple(sum(p[d] for p in pts) / len(pts) for d in range(len(pts[0])))


def choices(pts, m, count):
    """All sets of points the farthest-first choice can select."""
    cur = {()}
    vals = sorted(set(pts))
    for step in range(count):
        nxt = set()
        for chosen in cur:
            ds = [(geo.sq(p, m) if not chosen else min(geo.sq(p, q) for q in chosen)) for p in vals]
            best = max(ds)
            if chosen and best == 0:
                nxt.add(chosen)
                continue
            for p, v in zip(vals, ds):
                if v >= best - 1e-9 * max(1.0, best):
                    nxt.add(tuple(sorted(chosen + (p,))))
        cur = nxt
    return cur


def reachable(data, k, count, compression):
    pts = [tuple(map(float, p)) for p in data]
    start = frozenset((frozenset([i]), (pts[i],)) for i in range(len(pts)))
    level, done, reps_memo, dist_memo = {start}, set(), {}, {}

    def distance(a, b):
        key = (a[1], b[1])
        if key not in dist_memo:
            dist_memo[key] = min(geo.sq(p, q) for p in a[1] for q in b[1])
        return dist_memo[key]

    def merged(a, b):
        members = a[0] | b[0]
        if members not in reps_memo:
            mp = [pts[i] for i in sorted(members)]
            m = mean(mp)
            reps_memo[members] = {tuple(tuple(x + compression * (y - x) for x, y in zip(p, m)) for p in c) for c in choices(mp, m, count)}
        return [(members, r) for r in reps_memo[members]]
    while level:
        nxt = set()
        for state in level:
            if len(state) <= k:
                done.add(state)
                continue
            best, pairs = None, []
            for a, b in itertools.combinations(sorted(state, key=lambda s: min(s[0])), 2):
                v = distance(a, b)
                if best is None or v < best - 1e-9 * max(1.0, best):
                    best, pairs = v, [(a, b)]
                elif v <= best + 1e-9 * max(1.0, best):
                    pairs.append((a, b))
            for a, b in pairs:
                for c in merged(a, b):
                    nxt.add((state - {a, b}) | {c})
            if len(nxt) > LIMIT:
                return None
        level = nxt
    return done


_memo = {}


def expected(*key):
    k = (tuple(map(tuple, key[0])),) + key[1:]
    if k not in _memo:
        if len(_memo) > 2000:
            _memo.clear()
        _memo[k] = reachable(*key)
    return _memo[k]


def same(a, b):
    """The same set of representatives (with tolerance)."""
    near = lambda p, q: all(geo.close(float(x), y) for x, y in zip(p, q))
    return all(any(near(p, q) for q in b) for p in a) and all(any(near(p, q) for p in a) for q in b)


def run(case):
    data, k, count, compression, ccore, kind, twice = case
    n = len(data)
    o = cure(dom.numpyfy(data, kind), k, count, compression, ccore=ccore)
    o.process()
    if twice:
        o.process()
    cl, _ = geo.partition(o.get_clusters(), n)
    require(len(cl) == min(k, n), lambda: '%d clusters instead of %d' % (len(cl), min(k, n)))
    means, reps = o.get_means(), o.get_representors()
    require(len(means) == len(cl) and len(reps) == len(cl), 'means and representatives do not match the clusters')
    for c, m, r in zip(cl, means, reps):
        require(geo.close_vec(m, mean([data[i] for i in c])), lambda: 'mean of %r is reported as %r' % (c, m))
        require(1 <= len(r) <= max(1, min(count, len(c))), lambda: '%d representatives of %d points (limit %d)' % (len(r), len(c), count))
    want = expected(data, k, count, compression)
    if want is None:
        Counters.notes['too_many_ties'] = Counters.notes.get('too_many_ties', 0) + 1
        return None
    got = {frozenset(c): r for c, r in zip(cl, reps)}
    parts = [s for s in want if {c[0] for c in s} == set(got)]
    require(parts, lambda: 'clusters %r, closest pairs give %r' % (cl, [sorted(sorted(c[0]) for c in s) for s in list(want)[:4]]))
    require(any(all(same(got[c[0]], c[1]) for c in s) for s in parts),
            lambda: 'representatives %r of clusters %r, expected %r' % (reps, cl, [(sorted(c[0]), c[1]) for c in parts[0]]))
    return geo.shape(cl) if 1 < len(cl) < n else None


def cross(datas, ks, counts, comps, kinds=('list',), twice=(False,)):
    for data in datas:
        for k in ks:
            if k > len(data) + 1:
                continue
            for c in counts:
                for p in comps:
                    for ccore in (False, True):
                        for kind in kinds:
                            for tw in twice:
                                yield data, k, c, p, ccore, kind, tw


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 2.0, 4.5, 7.0]

    def lines():
        for n in (1, 2, 3, 4):
            yield from cross(dom.line(n, g), (1, 2, 3), (1, 2), (0.0, 0.5))
        yield from cross(dom.line_sets(5, g), (1, 2, 3), (1, 2, 3), (0.0, 0.3, 1.0))
        for n in (6, 7) + ((8,) if deep else ()):
            yield from cross(dom.distinct(n, [[x] for x in (0.0, 1.0, 2.5, 4.5, 8.0, 9.25, 14.0, 15.75, 21.0)]), (1, 2, 3), (1, 3), (0.3, 0.9))

    def planes():
        p = [[x, y] for x in (0.0, 1.0, 2.5) for y in (0.0, 1.75, 4.0)]
        yield from cross(dom.distinct(4, p), (1, 2, 3), (1, 2, 5), (0.0, 0.5, 0.8))
        yield from cross(dom.distinct(5, p), (1, 2, 3), (2, 3), (0.2, 0.7))
        yield from cross(dom.distinct(6, [[x, y] for x in (0.0, 1.0, 2.5, 5.25) for y in (0.0, 1.75, 4.0)] if deep else p), (1, 2, 3), (2,), (0.4,))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (1, 2), (2,), (0.5,), ('list', 'tuple', 'numpy', 'int'), (False, True))
        cube = [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 1.5) for z in (0.0, 2.0)]
        yield from cross(dom.distinct(4, cube), (1, 2), (1, 3), (0.4,), ('list', 'numpy'))

    def shapes():
        # curved groups around a point: representatives moved to the mean come closer to other clusters than any member was
        for radius in (3.0, 4.0):
            for gap in range(0, 8):
                ring = [[radius * x, radius * y] for x, y in ((1.0, 0.02), (0.7, 0.71), (0.0, 1.03), (-0.72, 0.7), (-1.04, 0.0), (-0.7, -0.73), (0.01, -1.05), (0.71, -0.74))]
                ring = ring[:gap] + ring[gap + 1:]
                for extra in ([[0.1, 0.2]], [[0.1, 0.2], [9.0, 1.0]], [[0.1, 0.2], [0.4, 0.3], [9.0, 1.0], [8.0, -2.0]]):
                    for order in (1, -1):
                        yield from cross([(ring + extra)[::order]], (1, 2, 3, 4), (1, 2, 3, 5, 8), (0.0, 0.3, 0.6, 0.9, 1.0))

    def sizes():
        for n in range(7, 60 if deep else 34):
            for d in ([[float(i * i % 97) + i * i / 1024.0] for i in range(n)],
                      [[x + i * i / 640.0, y + i * i * i / 9999.0] for i, (x, y) in enumerate(dom.lattice(n))]):
                yield from cross([d], (1, 2, 3, 5), (1, 4), (0.1, 0.5))

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            yield from cross(dom.scaled(dom.line(4, g), f, o), (1, 2), (2,), (0.5,))
            yield from cross(dom.scaled(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 2.5) for y in (0.0, 1.75, 4.0)]), f, o), (1, 2), (2, 3), (0.25,))

    return [Family('line', lines, run), Family('plane', planes, run), Family('kinds', kinds, run), Family('shapes', shapes, run),
            Family('scaled_sizes', sizes, run),
            Family('magnitudes', magnitudes, run)]
