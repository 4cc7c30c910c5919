"""C01 Every clustering result is a partition."""
import itertools

from mc import chance, dom
from mc.algos import ALGOS
from mc.engine import Counters, Family, require

LEVEL = 'exploration'
RULE = ('every algorithm and implementation x every small data set (sequences of 1-D points over a grid, planar points, coincident points, '
        'structured larger sets) x a grid of parameters relative to the data: clusters and noise list every point exactly once, also after '
        'process() has been called again; non-trivial: at least two clusters, or a cluster and noise')
ASSUMPTIONS = ['randomised algorithms: fixed sources of randomness here, all the choices in the checks of the algorithms']


def partition(data, result):
    n = len(data)
    clusters = [list(c) for c in result['get_clusters']]
    noise = list(result.get('get_noise', []))
    flat = [i for c in clusters for i in c] + noise
    require(all(int(i) == i and 0 <= i < n for i in flat), lambda: 'not indexes of %d points: %r, noise %r' % (n, clusters, noise))
    require(sorted(flat) == list(range(n)), lambda: 'points %r are lost or repeated: clusters %r, noise %r' % (
        sorted(i for i in range(n) if flat.count(i) != 1), clusters, noise))
    return sum(1 for c in clusters if c) + bool(noise)


def run(case):
    name, impl, data, p, repeat = case
    a = ALGOS[name]
    with chance.owned(11):
        o = a.make(a.inp([list(x) for x in data]), p, impl == 'core')
        parts = 0
        for _ in range(repeat):
            parts = partition(data, a.read(a.run(o)))
            Counters.executions += 1
    return (name, parts) if parts > 1 else None


SLOW = ('xmeans', 'gmeans', 'ema', 'ga', 'hsyncnet', 'syncnet', 'syncsom', 'somsc')


def families(tier):
    deep = tier == 'thorough'

    def small(name):
        f = 1 if deep else 24 if name == 'syncsom' else 6 if 'sync' in name else 4 if name in SLOW else 1
        g = f if deep or name in SLOW else 2
        yield [[1.0]]
        yield [[1.0, 2.0]]
        for n in (2, 3, 4, 5) if name != 'syncsom' else (2, 4):
            yield [[2.0]] * n
            yield [[1.0, -1.0]] * n
        yield from dom.line(2, [0.0, 1.0, 2.5])
        yield from dom.stride(dom.line(3, [0.0, 1.0, 2.5]), f)
        yield from dom.stride(dom.line(4, [0.0, 1.0, 2.5]), 4 * f if name in SLOW else f)
        yield from dom.stride(dom.line_sets(5, [0.0, 1.0, 2.5, 6.0]), g)
        yield from dom.stride(dom.plane_sets(3, [0.0, 1.0, 2.5]), g)
        yield from dom.stride(dom.plane(4, [0.0, 1.0]), 2 * g)
        yield from dom.stride(([list(q) for q in c] for c in itertools.product(itertools.product((0.0, 2.0), repeat=3), repeat=3)), 10 * f)

    def large(name):
        yield dom.blobs([3, 4, 3])
        yield dom.lattice(9)
        yield dom.blobs([4, 4], 6.0, 3)
        yield [[float(i // 2)] for i in range(10)]
        if deep or name not in SLOW:
            yield dom.lattice(17)
            yield dom.blobs([6, 5, 7, 6], 5.0)
            yield [[float(i % 4), float(i // 4)] for i in range(16)]

    def cases(name):
        a = ALGOS[name]
        for sets in (small, large):
            for data in sets(name):
                for k, p in enumerate(a.params(data)):
                    for impl in a.impls:
                        if deep or name not in ('agglomerative', 'birch', 'rock', 'optics', 'hsyncnet', 'syncnet') or (k + len(data)) % 3 == 0:
                            yield name, impl, data, p, 2 if k % 2 == 0 or deep else 1
    return [Family(name, lambda name=name: cases(name), run, hang=40) for name in ALGOS]
