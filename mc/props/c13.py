"""C13 BANG: directory of blocks, neighbourhood, clusters, dendrogram."""
import itertools

from mc import dom, geo
from mc.engine import Family, require

from pyclustering.cluster.bang import bang

LEVEL = 'exploration'
RULE = ('every data sequence / set of the grids x levels x thresholds x input kind x one or two process() calls; leaf blocks, '
        'clusters, noise and dendrogram are compared with an independent construction; non-trivial: a cluster together with '
        'noise or a second cluster')
ASSUMPTIONS = ['a point on the border of blocks belongs to the cluster of one of them and counts for all of them',
               'coordinates are chosen so that halving borders is exact']


def reference(data, levels, dens, amt, first):
    """Leaf boxes [(min, max, points)] when the first split is along dimension `first`."""
    n, dim = len(data), len(data[0])

    def box(lo, hi):
        pts = [i for i in range(n) if all(lo[d] <= data[i][d] <= hi[d] for d in range(dim))]
        vol = 0.0
        for a, b in zip(lo, hi):
            if b != a:
                vol = (b - a) if vol == 0.0 else vol * (b - a)
        return (tuple(lo), tuple(hi), pts, len(pts) / vol if vol else 0.0)
    cur = [box([float(min(p[d] for p in data)) for d in range(dim)], [float(max(p[d] for p in data)) for d in range(dim)])]
    leafs = []
    for level in range(1, levels):
        d = (first + level - 1) % dim
        nxt = []
        for b in cur:
            if b[3] <= dens or len(b[2]) <= amt:
                leafs.append(b)
                continue
            m = (b[0][d] + b[1][d]) / 2.0
            hi = list(b[1])
            hi[d] = m
            lo = list(b[0])
            lo[d] = m
            nxt += [box(b[0], hi), box(lo, b[1])]
        cur = nxt
    return leafs + cur


def corners(block):
    hi, lo = block.get_spatial_block().get_corners()
    return tuple(float(x) for x in lo), tuple(float(x) for x in hi)


def run(case):
    data, levels, dens, amt, kind, twice = case
    n, dim = len(data), len(data[0])
    o = bang(dom.numpyfy(data, kind), levels, density_threshold=dens, amount_threshold=amt)
    o.process()
    if twice:
        o.process()
    directory = o.get_directory()
    leafs = directory.get_leafs()
    got = sorted((corners(b), tuple(sorted(geo.ints(b.get_points() or [])))) for b in leafs)
    for first in range(dim):
        ref = reference(data, levels, dens, amt, (first + 1) % dim)
        want = sorted(((b[0], b[1]), tuple(b[2])) for b in ref)
        if got == want:
            break
    else:
        require(False, lambda: 'leaf blocks are %r, halving gives %r' % (got, want))
    density = {(b[0], b[1]): b[3] for b in ref}
    for b in leafs:
        require(len(b) == len(b.get_points() or []), lambda: 'block %s says %d points, has %r' % (b, len(b), b.get_points()))
        require(geo.close(b.get_density(), density[corners(b)]), lambda: 'density %r of block %r, expected %r' % (b.get_density(), corners(b), density[corners(b)]))
    height = directory.get_height()
    require(1 <= height <= max(1, levels - 1), lambda: 'height %d of %d levels' % (height, levels))
    require(len(directory) == sum(len(directory.get_level(i)) for i in range(height)), 'size of the directory')
    cand = [i for i, b in enumerate(ref) if b[3] > dens and len(b[2]) > amt]
    comps = geo.components(cand, lambda a, b: all(ref[a][0][d] <= ref[b][1][d] and ref[b][0][d] <= ref[a][1][d] for d in range(dim)))
    want = sorted(sorted(set().union(*[ref[i][2] for i in c])) for c in comps)
    cl, no = geo.partition(o.get_clusters(), n, o.get_noise())
    require(sorted(map(sorted, cl)) == want, lambda: 'clusters %r, connected dense blocks give %r' % (cl, want))
    require(sorted(no) == sorted(set(range(n)) - set(sum(want, []))), lambda: 'noise %r' % no)
    dendro = o.get_dendrogram()
    require(len(dendro) == len(cl), lambda: '%d dendrogram entries of %d clusters' % (len(dendro), len(cl)))
    boxes = {}
    for c in comps:
        key = tuple(sorted(set().union(*[ref[i][2] for i in c])))
        boxes[key] = sorted((ref[i][0], ref[i][1]) for i in c)
    for i, (c, blocks) in enumerate(zip(cl, dendro)):
        have = sorted(corners(b) for b in blocks)
        require(have == boxes[tuple(sorted(c))], lambda: 'dendrogram of cluster %r has blocks %r instead of %r' % (c, have, boxes[tuple(sorted(c))]))
        require(all(b.get_cluster() == i for b in blocks), 'blocks of the dendrogram belong to another cluster')
    return geo.shape(cl, no) if cl and len(cl) + bool(no) > 1 else None


def cross(datas, levels, denss, amts, kinds=('list',), twice=(False,)):
    for data in datas:
        for k in levels:
            for d in denss:
                for a in amts:
                    for kind in kinds:
                        for tw in twice:
                            yield data, k, d, a, kind, tw


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 3.0, 4.0, 8.0]

    def lines():
        for n in (1, 2, 3, 4):
            yield from cross(dom.line(n, g), (1, 2, 3, 4), (0.0, 0.3, 1.0), (0, 1))
        for n in (5, 6) + ((7,) if deep else ()):
            yield from cross(dom.line_sets(n, g + [6.0]), (2, 3, 4, 5), (0.0, 0.5, 1.0), (0, 1, 2))

    def planes():
        yield from cross(dom.plane(3, [0.0, 1.0, 2.0]), (1, 2, 3, 5), (0.0, 0.5), (0, 1))
        yield from cross(dom.plane_sets(4, [0.0, 1.0, 4.0]), (2, 3, 5, 6), (0.0, 0.2, 1.0), (0, 1))
        yield from cross(dom.distinct(6, [[x, y] for x in (0.0, 1.0, 2.0, 4.0) for y in (0.0, 1.0, 4.0)]), (3, 4, 5), (0.0, 0.5), (0, 1))
        yield from cross(dom.distinct(4, [[x, y, z] for x in (0.0, 1.0) for y in (0.0, 2.0) for z in (0.0, 2.0, 4.0)]), (2, 3, 4, 7), (0.0, 0.4), (0, 1))

    def kinds():
        for n in (1, 2, 3):
            yield from cross(dom.line(n, [-2, 0, 2]), (1, 2, 3), (0.0, 0.6), (0, 1), ('list', 'tuple', 'numpy', 'int'), (False, True))
        yield from cross(dom.plane_sets(3, [-2, 0, 2]), (2, 3), (0.0, 0.3), (0, 1), ('list', 'tuple', 'numpy', 'int'), (False, True))

    def cubes():
        # many neighbours: full and nearly full cubes, constant coordinates
        grid = [list(p) for p in itertools.product((0.0, 1.0, 2.0, 3.0, 4.0), repeat=3)]
        for lv in range(2, 10):
            yield from cross([grid, [p for p in grid if p != [2.0, 2.0, 2.0]], [p for p in grid if sum(p) % 2 == 0], [p for p in grid if 0.0 not in p or 4.0 in p]], (lv,), (0.0, 1.5), (0, 2))
            for n in (3, 6, 9):
                yield from cross([[[float(i), 5.0] for i in range(n)], [[5.0, float(i), 7.0] for i in range(n)], [[float(i), 1.0, 1.0, 1.0] for i in (0, 1, 2, 6, 7, 8)]], (lv,), (0.0, 0.7), (0,))

    def sizes():
        for n in range(6, 60 if deep else 40, 1 if deep else 2):
            for d in ([[x * 8.0, y * 8.0] for x, y in dom.lattice(n, 7, 3, 16)], [[float((i * i) % 33)] for i in range(n)]):
                yield from cross([d], (3, 5, 7), (0.0, 0.01, 0.5), (0, 1, 3))

    return [Family('line', lines, run), Family('plane', planes, run), Family('kinds', kinds, run), Family('cubes', cubes, run),
            Family('scaled_sizes', sizes, run)]
