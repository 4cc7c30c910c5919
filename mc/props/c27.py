"""C27 Graph colouring."""
import itertools
import random

import numpy

from mc.engine import Family, Skip, require

from pyclustering.gcolor.dsatur import dsatur
from pyclustering.gcolor.hysteresis import hysteresis_analyser, hysteresisgcolor
from pyclustering.gcolor.sync import syncgcolor, syncgcolor_analyser

LEVEL = 'exploration'
RULE = ('DSATUR: every labelled graph of up to 6 vertices (7 in the thorough tier), every bipartite graph on 4 + 4 vertices (4 + 5 in the '
        'thorough tier), every labelled tree of up to 7 vertices, crowns, cycles, wheels, grids, complete multipartite and Mycielski '
        'graphs under families of relabellings, kinds of matrices, repeated process(); the colouring is accepted when some execution of '
        'the published scheme (largest saturation first, ties by degree, smallest free colour) produces it; networks: every graph of up to '
        '4 vertices x grids of initial phases and every synthetic last state over a grid of phases or amplitudes x tolerances; '
        'non-trivial: the number of colours and of edges')
ASSUMPTIONS = ['graphs are simple and undirected (a symmetric matrix with zero diagonal)']


def edges(n):
    return list(itertools.combinations(range(n), 2))


def matrix(n, chosen):
    m = [[0] * n for _ in range(n)]
    for a, b in chosen:
        m[a][b] = m[b][a] = 1
    return m


def produced(adj, colors, limit=60000):
    """Some execution of DSATUR gives the colouring: the sets of coloured vertices which executions can reach are explored."""
    n = len(adj)
    nb = [[j for j in range(n) if adj[i][j]] for i in range(n)]
    deg = [len(x) for x in nb]
    full = (1 << n) - 1
    stack = [1 << i for i in reversed(range(n)) if deg[i] == max(deg) and colors[i] == 1]
    seen = set(stack)
    while stack:
        s = stack.pop()
        if s == full:
            return True
        if len(seen) > limit:
            raise Skip()
        sat = {}
        for v in range(n):
            if not s >> v & 1:
                sat[v] = len({colors[w] for w in nb[v] if s >> w & 1})
        top = max(sat.values())
        tied = [v for v in sat if sat[v] == top]
        d1 = max(deg[v] for v in tied)
        free = {v: sum(1 for w in nb[v] if not s >> w & 1) for v in tied}
        d2 = max(free.values())
        for v in reversed(tied):
            if deg[v] != d1 and free[v] != d2:
                continue
            used = {colors[w] for w in nb[v] if s >> w & 1}
            c = 1
            while c in used:
                c += 1
            if c == colors[v] and s | 1 << v not in seen:
                seen.add(s | 1 << v)
                stack.append(s | 1 << v)
    return False


def bipartite(adj):
    n = len(adj)
    side = [None] * n
    for r in range(n):
        if side[r] is None:
            side[r] = 0
            stack = [r]
            while stack:
                v = stack.pop()
                for w in range(n):
                    if adj[v][w]:
                        if side[w] is None:
                            side[w] = 1 - side[v]
                            stack.append(w)
                        elif side[w] == side[v]:
                            return False
    return True


def judge(adj, given):
    n = len(adj)
    solver = dsatur(given)
    solver.process()
    colors = [int(c) for c in solver.get_colors()]
    require(len(colors) == n, lambda: '%d colours for %d vertices' % (len(colors), n))
    require(all(c >= 1 for c in colors), lambda: 'a vertex has no colour: %r' % (colors,))
    for i, j in edges(n):
        require(not adj[i][j] or colors[i] != colors[j], lambda: 'adjacent vertices %d and %d have the same colour in %r' % (i, j, colors))
    degree = max(sum(row) for row in adj)
    used = len(set(colors))
    require(max(colors) == used, lambda: 'colours are skipped: %r' % (colors,))
    require(used <= degree + 1, lambda: '%d colours, the maximum degree is %d' % (used, degree))
    if bipartite(adj):
        require(used <= 2, lambda: '%d colours for a bipartite graph: %r' % (used, colors))
    require(produced(adj, colors), lambda: 'no execution that colours a vertex of the largest saturation first gives %r' % (colors,))
    solver.process()
    require([int(c) for c in solver.get_colors()] == colors, 'the second process() gives another colouring')
    return used, sum(map(sum, adj)) // 2


def run_mask(case):
    n, mask = case
    adj = matrix(n, [e for k, e in enumerate(edges(n)) if mask >> k & 1])
    before = repr(adj)
    out = judge(adj, adj)
    require(repr(adj) == before, 'the graph has been changed')
    return out if out[1] else None


def run_bip(case):
    a, b, mask = case
    return judge_adj(matrix(a + b, [(i, a + j) for i in range(a) for j in range(b) if mask >> (i * b + j) & 1]))


def judge_adj(adj):
    return judge(adj, adj)


def run_edges(case):
    n, es, kind = case
    adj = matrix(n, es)
    if kind == 'tuple':
        given = tuple(tuple(r) for r in adj)
    elif kind == 'numpy':
        given = numpy.array(adj)
    elif kind == 'bool':
        given = [[bool(x) for x in r] for r in adj]
    elif kind == 'float':
        given = [[float(x) for x in r] for r in adj]
    else:
        given = adj
    return judge(adj, given)


def mycielski(n, es):
    out = list(es) + [(a, n + b) for a, b in es] + [(b, n + a) for a, b in es] + [(n + i, 2 * n) for i in range(n)]
    return 2 * n + 1, out


def structured():
    for k in range(3, 14):
        yield k, [(i, (i + 1) % k) for i in range(k)]
        yield k + 1, [(i, (i + 1) % k) for i in range(k)] + [(i, k) for i in range(k)]
        yield k, [(i, i + 1) for i in range(k - 1)]
        yield k, edges(k)
        yield 2 * k, [(i, k + j) for i in range(k) for j in range(k) if i != j]
    for parts in [p for k in range(2, 6) for p in itertools.combinations_with_replacement((1, 2, 3), k)]:
        owner = [i for i, p in enumerate(parts) for _ in range(p)]
        yield len(owner), [(a, b) for a, b in edges(len(owner)) if owner[a] != owner[b]]
    for h, w in ((2, 2), (2, 5), (3, 3), (3, 4), (4, 4)):
        yield h * w, [(a, b) for a, b in edges(h * w) if abs(a // w - b // w) + abs(a % w - b % w) == 1]
    n, es = 2, [(0, 1)]
    for _ in range(3):
        n, es = mycielski(n, es)
        yield n, es
    petersen = [(i, (i + 1) % 5) for i in range(5)] + [(i, i + 5) for i in range(5)] + [(5 + i, 5 + (i + 2) % 5) for i in range(5)]
    yield 10, petersen
    # two graphs side by side
    yield 9, [(0, 1), (1, 2), (2, 0)] + [(3 + a, 3 + b) for a, b in edges(4)] + [(7, 8)]


def relabel(n, es, how):
    step, shift = how
    from math import gcd
    while gcd(step, n) != 1:
        step += 1
    return [tuple(sorted(((a * step + shift) % n, (b * step + shift) % n))) for a, b in es]


def trees(n):
    if n <= 2:
        yield [(0, 1)][:n - 1]
        return
    for code in itertools.product(range(n), repeat=n - 2):
        deg = [1 + code.count(i) for i in range(n)]
        es = []
        for c in code:
            leaf = deg.index(1)
            es.append((leaf, c))
            deg[leaf] -= 1
            deg[c] -= 1
        es.append(tuple(i for i in range(n) if deg[i] == 1))
        yield es


# ------------------------------------------------------------------ colour maps of networks
def judge_map(n, clusters, cmap, what):
    where = {}
    for k, c in enumerate(clusters):
        require(len(c) > 0, lambda: '%s: an empty group in %r' % (what, clusters))
        for v in c:
            require(v not in where, lambda: '%s: vertex %r is in two groups of %r' % (what, v, clusters))
            where[v] = k
    require(sorted(where) == list(range(n)), lambda: '%s: groups %r do not cover the %d vertices' % (what, clusters, n))
    require(list(cmap) == [where[v] for v in range(n)], lambda: '%s: the map %r does not follow the groups %r' % (what, cmap, clusters))
    return len(clusters)


def run_phases(case):
    phases, tolerance, history = case
    analyser = syncgcolor_analyser([list(p) for p in history] + [list(phases)], list(range(len(history) + 1)), None)
    clusters = analyser.allocate_color_clusters(tolerance)
    return judge_map(len(phases), clusters, analyser.allocate_map_coloring(tolerance), 'phases')


def run_amplitudes(case):
    rows, tolerance, steps = case
    analyser = hysteresis_analyser([list(r) for r in rows], list(range(len(rows))))
    clusters = analyser.allocate_clusters(tolerance, steps)
    k = judge_map(len(rows[0]), clusters, analyser.allocate_map_coloring(tolerance, steps), 'amplitudes')
    # vertices of one colour are synchronous with the first of them, those of different colours are not
    window = rows[-min(steps, len(rows)):]

    def together(a, b):
        return all(abs(r[a] - r[b]) < tolerance for r in window)
    for i, c in enumerate(clusters):
        for v in c:
            require(together(c[0], v), lambda: 'vertices %d and %d have one colour but different amplitudes %r' % (c[0], v, window))
        for d in clusters[:i]:
            require(not together(d[0], c[0]), lambda: 'groups %r and %r have the same amplitudes %r' % (d, c, window))
    return k


class Draws:
    """random.random() answers the given phases in turn."""

    def __init__(self, values):
        self.values = list(values)

    def __enter__(self):
        self.saved = random.random
        self.at = 0

        def draw():
            self.at += 1
            return self.values[(self.at - 1) % len(self.values)]
        random.random = draw

    def __exit__(self, *_):
        random.random = self.saved


def run_sync(case):
    n, mask, draws, positive, negative, reduction = case
    adj = matrix(n, [e for k, e in enumerate(edges(n)) if mask >> k & 1])
    with Draws(draws):
        net = syncgcolor(adj, positive, negative, reduction)
    for i in range(n):
        for j in range(n):
            require(bool(net.has_connection(i, j)) == bool(adj[i][j]), lambda: 'connection of %d and %d in the network does not follow the graph' % (i, j))
    dynamic = net.simulate(12, 12, collect_dynamic=True)
    analyser = syncgcolor_analyser(dynamic.output, dynamic.time, None)
    out = []
    for tolerance in (0.01, 0.2):
        out.append(judge_map(n, analyser.allocate_color_clusters(tolerance), analyser.allocate_map_coloring(tolerance), 'sync'))
    return tuple(out)


def run_hysteresis(case):
    n, mask, alpha, eps, steps, collect = case
    adj = matrix(n, [e for k, e in enumerate(edges(n)) if mask >> k & 1])
    net = hysteresisgcolor(adj, alpha, eps)
    analyser = net.process(steps, steps / 10.0, collect)
    require(len(analyser.output[0]) == n and len(analyser.output) == len(analyser.time), 'the record has a wrong shape')
    return judge_map(n, analyser.allocate_clusters(0.05, 3), analyser.allocate_map_coloring(0.05, 3), 'hysteresis')


def families(tier):
    deep = tier == 'thorough'

    def graphs():
        for n in range(1, 8 if deep else 7):
            for mask in range(1 << len(edges(n))):
                yield n, mask

    def bip():
        for a, b in ((2, 5), (3, 4), (4, 4)) + (((4, 5),) if deep else ()):
            for mask in range(1 << (a * b)):
                yield a, b, mask

    def tree():
        for n in range(2, 8 + deep):
            for es in trees(n):
                yield n, es, 'list'

    def shapes():
        for n, es in structured():
            for how in itertools.product((1, 2, 3, 5, 7), range(0, n, 1 if deep else 2)):
                yield n, relabel(n, es, how), 'list'

    def kinds():
        for n in range(1, 5):
            for mask in range(1 << len(edges(n))):
                for kind in ('tuple', 'numpy', 'bool', 'float'):
                    yield n, [e for k, e in enumerate(edges(n)) if mask >> k & 1], kind

    def phases():
        grid = [0.0, 0.05, 0.1, 1.0, 1.08, 3.14, 6.2, 6.28]
        for n in range(1, 5):
            for p in itertools.product(grid, repeat=n):
                for tolerance in (0.01, 0.1, 0.2, 1.0):
                    yield p, tolerance, ()
        for p in itertools.product(grid[:6], repeat=3):
            for q in itertools.product((0.0, 1.0), repeat=3):
                yield p, 0.1, (q,)

    def amplitudes():
        grid = [0.0, 0.05, 0.1, 1.0, -1.0]
        for n in range(1, 5):
            for p in itertools.product(grid, repeat=n):
                for tolerance in (0.01, 0.07, 0.2):
                    for steps in (1, 3):
                        yield (p,), tolerance, steps
        for n in (2, 3, 4 if deep else 3):
            for a in itertools.product((0.0, 0.1, 1.0), repeat=n):
                for b in itertools.product((0.0, 0.1, 1.0), repeat=n):
                    for steps in (1, 2, 5):
                        yield (a, b), 0.15, steps

    def sync():
        for n in range(1, 5):
            grid = (0.0, 0.2, 0.55, 0.8) if n < 4 or deep else (0.0, 0.3, 0.8)
            for mask in range(1 << len(edges(n))):
                for draws in itertools.product(grid, repeat=n):
                    yield n, mask, [x for d in draws for x in (d, 0.5)], 0, -1, None
                    if n < 4:
                        yield n, mask, [x for d in draws for x in (d, 0.5)], 0.5, -1, n

    def hysteresis():
        for n in range(1, 5 + deep):
            for mask in range(1 << len(edges(n))):
                for alpha, eps in ((1.2, 1.8), (2.0, 0.5)):
                    for collect in (True, False):
                        yield n, mask, alpha, eps, 20, collect

    return [Family('graphs', graphs, run_mask), Family('bipartite', bip, run_bip), Family('trees', tree, run_edges), Family('shapes', shapes, run_edges),
            Family('kinds', kinds, run_edges), Family('phases', phases, run_phases), Family('amplitudes', amplitudes, run_amplitudes),
            Family('sync', sync, run_sync), Family('hysteresis', hysteresis, run_hysteresis)]
