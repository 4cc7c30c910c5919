"""C17 CF-tree under insertion sequences; BIRCH on top of it."""
import itertools
import math

import numpy

from mc import dom, geo
from mc.engine import Counters, Family, require
from mc.props.c05 import expected as single_link

from pyclustering.cluster.birch import birch
from pyclustering.container.cftree import cfentry, cfnode_type, cftree, leaf_node, measurement_type

LEVEL = 'model_checking'
TECHNIQUE = ('explicit exploration of all insertion sequences up to a depth on the real CF-tree; every transition is compared with '
             'the successors a model of the insertion rule allows')
RULE = ('every insertion sequence over the alphabet up to the depth x branching factor x entries per leaf x diameter x measurement; '
        'states are trees, every insertion is one transition, checked against the model; non-trivial: the tree has more than one level '
        'or a point was absorbed by an entry')
ASSUMPTIONS = ['distances closer than 1e-9 count as tied when the nearest child or entry is chosen', 'diameters closer than 1e-7 to the threshold may go either way',
               'the diameter multiplier of BIRCH is greater than 1']
M = list(measurement_type)


def cf(points):
    dim = len(points[0])
    return (len(points), tuple(float(sum(p[d] for p in points)) for d in range(dim)), float(sum(x * x for p in points for x in p)))


def add(a, b):
    return (a[0] + b[0], tuple(x + y for x, y in zip(a[1], b[1])), a[2] + b[2])


def of(e):
    return (int(e.number_points), tuple(float(x) for x in e.linear_sum), float(e.square_sum))


def same(a, b):
    return a[0] == b[0] and geo.close_vec(a[1], b[1]) and geo.close(a[2], b[2])


def dist(a, b, m):
    na, la, sa = a
    nb, lb, sb = b
    dot = lambda x, y: sum(p * q for p, q in zip(x, y))
    ca, cb = [x / na for x in la], [x / nb for x in lb]
    if m == measurement_type.CENTROID_EUCLIDEAN_DISTANCE:
        return geo.sq(ca, cb)
    if m == measurement_type.CENTROID_MANHATTAN_DISTANCE:
        return sum(abs(x - y) for x, y in zip(ca, cb))
    if m == measurement_type.AVERAGE_INTER_CLUSTER_DISTANCE:
        return max(0.0, sa / na + sb / nb - 2.0 * dot(la, lb) / (na * nb)) ** 0.5
    n, l, s = add(a, b)
    if m == measurement_type.AVERAGE_INTRA_CLUSTER_DISTANCE:
        return max(0.0, (2.0 * n * s - 2.0 * dot(l, l)) / (n * (n - 1))) ** 0.5
    inner = lambda e: e[2] - dot(e[1], e[1]) / e[0]
    return inner((n, l, s)) - inner(a) - inner(b)


def diameter(a):
    n, l, s = a
    v = 2.0 * n * s - 2.0 * sum(x * x for x in l)
    return 0.0 if n == 1 or v < 1e-9 else (v / (n * (n - 1))) ** 0.5


def nearest(items, e, m):
    ds = [dist(i, e, m) for i in items]
    best = min(ds)
    # square roots turn rounding of 1e-16 into 1e-8
    return [k for k, d in enumerate(ds) if d <= best + 1e-7 * max(1.0, abs(best))]


def snapshot(node):
    """Model value of a subtree: ('L', entries) or ('N', feature, children)."""
    if node.type == cfnode_type.CFNODE_LEAF:
        return ('L', of(node.feature), [of(e) for e in node.entries])
    return ('N', of(node.feature), [snapshot(c) for c in node.successors])


def entries(t):
    return list(t[2]) if t[0] == 'L' else [e for c in t[2] for e in entries(c)]


def outcomes(t, e, m, threshold):
    """Possible (removed entry or None, added entry) of inserting e."""
    if t[0] == 'N':
        return [o for k in nearest([c[1] for c in t[2]], e, m) for o in outcomes(t[2][k], e, m, threshold)]
    out = []
    for k in nearest(t[2], e, m):
        new = add(t[2][k], e)
        d = diameter(new)
        if d > threshold - 1e-7:
            out.append((None, e))
        if d <= threshold + 1e-7:
            out.append((t[2][k], new))
    return out


def match(a, b):
    """Are two lists of entries equal as multisets (with tolerance)?"""
    b = list(b)
    for x in a:
        for k, y in enumerate(b):
            if same(x, y):
                del b[k]
                break
        else:
            return False
    return not b


def check_structure(tree, bf, me):
    leafs, nodes, depths = [], 0, set()

    def walk(node, parent, depth):
        nonlocal nodes
        nodes += 1
        require(node.parent is parent, 'a node has a wrong parent')
        if node.type == cfnode_type.CFNODE_LEAF:
            depths.add(depth)
            leafs.append(node)
            require(1 <= len(node.entries) <= me, lambda: 'leaf with %d entries, limit %d' % (len(node.entries), me))
            parts = [of(e) for e in node.entries]
        else:
            require(node.type == cfnode_type.CFNODE_NONLEAF, 'node of unknown type')
            require(1 <= len(node.successors) <= bf, lambda: 'node with %d successors, limit %d' % (len(node.successors), bf))
            parts = [of(c.feature) for c in node.successors]
        total = parts[0]
        for p in parts[1:]:
            total = add(total, p)
        require(same(of(node.feature), total), lambda: 'feature %r of a node, its parts sum to %r' % (of(node.feature), total))
        if node.type != cfnode_type.CFNODE_LEAF:
            for c in node.successors:
                walk(c, node, depth + 1)
    walk(tree.root, None, 1)
    require(len(depths) == 1, lambda: 'leafs at levels %r' % depths)
    require(tree.height == depths.pop(), lambda: 'height %d is reported' % tree.height)
    require(tree.amount_nodes == nodes, lambda: '%d nodes are reported, %d exist' % (tree.amount_nodes, nodes))
    require(tree.amount_entries == sum(len(x.entries) for x in leafs), lambda: '%d entries are reported' % tree.amount_entries)
    require(len(tree.leafes) == len(leafs) and {id(x) for x in tree.leafes} == {id(x) for x in leafs}, 'list of leafs differs from the leafs of the tree')
    require(sum(len(tree.get_level_nodes(k)) for k in range(tree.height)) == nodes and tree.get_level_nodes(tree.height) == [], 'nodes by level')
    return nodes


def check_pairs(node, m):
    """Nearest and farthest pairs of each node are what they are called."""
    if node.type == cfnode_type.CFNODE_LEAF:
        parts, objs, far = [of(e) for e in node.entries], node.entries, node.get_farthest_entries
    else:
        parts, objs, far = [of(c.feature) for c in node.successors], node.successors, node.get_farthest_successors
        for c in node.successors:
            check_pairs(c, m)
    if len(parts) < 2:
        return
    pos = lambda x: next(k for k, o in enumerate(objs) if o is x)
    ds = {(i, j): dist(parts[i], parts[j], m) for i, j in itertools.combinations(range(len(parts)), 2)}
    a, b = far(m)
    if max(ds.values()) > 1e-6:
        require(a is not None and ds[tuple(sorted((pos(a), pos(b))))] >= max(ds.values()) - 1e-7 * max(1.0, max(ds.values())), 'farthest pair is not the farthest')
    if node.type != cfnode_type.CFNODE_LEAF:
        a, b = node.get_nearest_successors(m)
        require(ds[tuple(sorted((pos(a), pos(b))))] <= min(ds.values()) + 1e-7 * max(1.0, min(ds.values())), 'nearest pair is not the nearest')
    else:
        for probe in parts[:2]:
            e = cfentry(probe[0], list(probe[1]), probe[2])
            k = node.get_nearest_index_entry(e, m)
            require(k in nearest(parts, probe, m), 'nearest entry is not the nearest')


def run_tree(case):
    points, bf, me, threshold, m, how = case
    m = measurement_type(m)
    tree = cftree(bf, me, threshold, m)
    done, absorbed, height = [], False, 1
    seen = set()
    with numpy.errstate(all='ignore'):
        for i, p in enumerate(points):
            before = snapshot(tree.root) if tree.root is not None else None
            e = cf([p])
            tree.insert_point(dom.numpyfy([p], how)[0])
            done.append(p)
            after = entries(snapshot(tree.root))
            nodes = check_structure(tree, max(2, bf), me)
            if before is None:
                require(match(after, [e]), 'first entry')
            else:
                old = entries(before)
                opts = outcomes(before, e, m, threshold)
                ok = False
                for gone, new in opts:
                    rest = list(old)
                    if gone is not None:
                        rest.remove(gone)
                    if match(after, rest + [new]):
                        ok = True
                        absorbed = absorbed or gone is not None
                        break
                require(ok, lambda: 'insertion %d of %r gives entries %r; before %r, allowed %r' % (i, p, after, before, opts))
            require(same(of(tree.root.feature), cf(done)), 'total of the tree')
            check_pairs(tree.root, m)
            probe = cfentry(*cf([p]))
            leaf = tree.find_nearest_leaf(probe)
            node = tree.root
            options = [tree.root]
            while options and options[0].type != cfnode_type.CFNODE_LEAF:
                options = [o.successors[k] for o in options for k in nearest([of(c.feature) for c in o.successors], e, m)]
            require(any(leaf is o for o in options), 'nearest leaf')
            height = max(height, tree.height)
            key = repr(snapshot(tree.root))
            Counters.transitions += 1
            if key not in seen:
                seen.add(key)
                Counters.states += 1
    Counters.traces += 1
    return (height, len(after), nodes) if height > 1 or absorbed else None


def run_measures(case):
    """Distances, radius and diameter of features against the points themselves."""
    a, b, kind = case
    ea, eb = cfentry(*cf(a)), cfentry(*cf(b))
    Counters.traces += 1
    Counters.states += 1
    Counters.transitions += 5
    mean = lambda pts: [sum(c) / len(pts) for c in zip(*pts)]
    inner = lambda pts: sum(geo.sq(p, mean(pts)) for p in pts)
    ab = a + b
    want = {M[0]: geo.sq(mean(a), mean(b)), M[1]: sum(abs(x - y) for x, y in zip(mean(a), mean(b))),
            M[2]: (sum(geo.sq(p, q) for p in a for q in b) / (len(a) * len(b))) ** 0.5,
            M[3]: (sum(geo.sq(p, q) for p in ab for q in ab) / (len(ab) * (len(ab) - 1))) ** 0.5,
            M[4]: inner(ab) - inner(a) - inner(b)}
    with numpy.errstate(all='ignore'):
        for m in M:
            for x, y in ((ea, eb), (eb, ea)):
                got = x.get_distance(y, m)
                require(abs(got - want[m]) < 1e-6, lambda: '%s is %r, expected %r' % (m.name, got, want[m]))
        s = ea + eb
        require(same(of(s), cf(ab)) and same(of(ea), cf(a)) and same(of(eb), cf(b)), 'sum of features')
        for e, pts in ((ea, a), (s, ab)):
            require(abs(e.get_radius() - (inner(pts) / len(pts)) ** 0.5) < 1e-6 or inner(pts) < 1e-9, lambda: 'radius %r' % e.get_radius())
            d = (sum(geo.sq(p, q) for p in pts for q in pts) / (len(pts) * (len(pts) - 1))) ** 0.5 if len(pts) > 1 else 0.0
            require(abs(e.get_diameter() - d) < 1e-6, lambda: 'diameter %r, expected %r' % (e.get_diameter(), d))
            require(geo.close_vec([float(x) for x in e.get_centroid()], mean(pts)), 'centroid')
    require((ea == eb) == same(of(ea), of(eb)), 'equality of features')
    return len(a), len(b)


def run_birch(case):
    data, k, bf, me, diam, m, limit, mult, kind, twice = case
    o = birch(dom.numpyfy(data, kind), k, bf, me, diam, measurement_type(m), limit, mult)
    with numpy.errstate(all='ignore'):
        o.process()
        if twice:
            o.process()
    n = len(data)
    cl, _ = geo.partition(o.get_clusters(), n, empty_ok=True)
    feats = [of(f) for f in o.get_cf_entries()]
    require(1 <= len(feats) <= limit, lambda: '%d entries, the limit is %d' % (len(feats), limit))
    total = feats[0]
    for f in feats[1:]:
        total = add(total, f)
    require(same(total, cf(data)), lambda: 'entries sum to %r, the data to %r' % (total, cf(data)))
    cents = [[x / f[0] for x in f[1]] for f in feats]
    cf_cl, _ = geo.partition(o.get_cf_cluster(), len(feats), what='clusters of entries')
    require(len(cf_cl) == min(k, len(feats)) and len(cl) == len(cf_cl), lambda: '%d clusters of %d entries, %d asked' % (len(cl), len(feats), k))
    want = single_link(cents, k, 'SINGLE_LINK')
    if want is not None:
        require(frozenset(map(frozenset, cf_cl)) in want, lambda: 'entries %r are clustered as %r' % (cents, cf_cl))
    owner = {e: i for i, c in enumerate(cf_cl) for e in c}
    for i, c in enumerate(cl):
        for p in c:
            ds = [geo.sq(x, data[p]) for x in cents]
            require(any(owner[e] == i for e, d in enumerate(ds) if d <= min(ds) + 1e-9), lambda: 'point %r is not with its nearest entry' % data[p])
    Counters.traces += 1
    Counters.states += 1
    Counters.transitions += n
    return geo.shape(cl) + (len(feats),) if len(cl) > 1 else None


def families(tier):
    deep = tier == 'thorough'

    def trees(seqs, bfs, mes, ths, ms, kinds=('list',)):
        for s in seqs:
            for bf in bfs:
                for me in mes:
                    for t in ths:
                        for m in ms:
                            for kind in kinds:
                                yield s, bf, me, t, m, kind
    alpha = [[0.0], [1.0], [2.5], [6.0], [7.0]]
    words = lambda n, a=alpha: map(list, itertools.product(a, repeat=n))

    def line():
        for n in (1, 2, 3):
            yield from trees(words(n), (1, 2, 3), (1, 2), (0.0, 1.2, 3.0), range(5))
        yield from trees(words(5), (2, 3), (1, 2), (0.0, 1.2), range(5))
        yield from trees(words(7 if deep else 6, [[0.0], [1.0], [4.0], [5.5]]), (2,), (1,), (0.0, 1.1), (0, 1, 2, 3, 4))

    def permutations():
        # different points in every order: deep trees with splits and merges
        pts = [[0.0], [1.0], [2.5], [6.0], [7.25], [11.0], [15.5], [16.0]]
        for p in itertools.permutations(pts[:7 if not deep else 8]):
            yield list(p), 2, 1, 0.0, 0, 'list'
        for p in itertools.permutations(pts[:6]):
            for bf, me in ((2, 1), (3, 1), (2, 2), (3, 2)):
                for m in range(5):
                    yield list(p), bf, me, 0.3, m, 'list'

    def plane():
        pts = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.5], [4.0, 4.0], [4.0, 5.0]]
        yield from trees(words(4, pts), (2, 3), (1, 2), (0.0, 1.3), range(5))
        cross = [[0.0, 0.0], [2.0, 0.0], [-2.0, 0.0], [0.0, 2.0], [0.0, -2.0], [2.0, 2.0], [-2.0, -2.0]]
        for p in itertools.permutations(cross, 6 if not deep else 7):
            yield list(p), 2, 1, 0.5, (sum(map(sum, p[:2])) + 8) % 5, 'list'

    def kinds():
        yield from trees(words(4, [[0], [1], [5]]), (2,), (1, 2), (0.0, 1.5), range(5), ('int', 'numpy', 'tuple'))

    def measures():
        groups = [list(map(list, g)) for n in (1, 2, 3) for g in itertools.combinations_with_replacement([(0.0, 0.0), (1.0, 0.0), (0.0, 2.5), (-3.0, 1.0)], n)]
        for a in groups:
            for b in groups:
                yield a, b, 'list'
        for a in words(2, [[0.0, 1.0, 2.0], [5.0, -1.0, 0.0]]):
            for b in words(3, [[0.0, 1.0, 2.0], [5.0, -1.0, 0.0], [0.5, 0.25, 9.0]]):
                yield a, b, 'list'

    def large():
        for n in range(8, 90 if deep else 50, 3):
            for s in ([[float(i * i % 97)] for i in range(n)], [[float(i % 5), float(i * 7 % 11)] for i in range(n)], [[i * 0.1, (i * i % 13) * 0.3] for i in range(n)]):
                yield from trees([s], (2, 3, 5), (1, 3), (0.0, 0.7, 3.0), range(5))

    def births():
        for n in (1, 2, 3, 4):
            for d in dom.line_sets(n, [0.0, 1.0, 2.0, 5.0, 5.5]):
                for k in (1, 2, 3):
                    for diam, limit in ((0.0, 50), (0.6, 3), (1.5, 50), (0.0, 1), (0.0, 2)):
                        for m in range(5):
                            yield d, k, 2, 2, diam, m, limit, 1.5, 'list', False
        for d in dom.distinct(5, [[0.0], [0.25], [1.0], [1.5], [5.0], [5.5], [9.0], [9.75]]):
            for k in (1, 2, 3):
                for limit in (1, 2, 3, 4, 9):
                    for bf, me, mult in ((2, 1, 1.5), (3, 2, 1.2)):
                        yield d[::-1] if limit % 2 else d, k, bf, me, 0.3, 0, limit, mult, 'list', False
        for d in dom.plane_sets(3, [-1, 0, 4]):
            for kind in ('int', 'numpy', 'tuple', 'list'):
                for twice in (False, True):
                    yield d, 2, 3, 3, 0.5, 0, 2, 1.5, kind, twice
        for n in range(6, 80 if deep else 45):
            for d in ([[float(i * i % 97) + i / 16.0] for i in range(n)], [[x + i / 64.0, y + i * i / 640.0] for i, (x, y) in enumerate(dom.lattice(n))]):
                for limit in (3, 5, 12):
                    for m in (0, 1, 4):
                        yield d, 3, 3, 2, 0.4, m, limit, 1.3, 'list', False

    return [Family('line', line, run_tree), Family('permutations', permutations, run_tree), Family('plane', plane, run_tree), Family('kinds', kinds, run_tree),
            Family('long', large, run_tree), Family('measures', measures, run_measures), Family('birch', births, run_birch)]
