"""C18 k-d trees under insertion and removal histories, Python and C++."""
import collections
import ctypes
import itertools

import numpy

from mc import build
from mc.engine import Counters, Family, Violation, require

from pyclustering.container.kdtree import kdtree, kdtree_balanced

LEVEL = 'model_checking'
TECHNIQUE = ('explicit-state exploration of the real trees: every insert / remove history up to a depth from every start tree, states '
             'deduplicated by their exact structure, every transition and every query compared with a multiset model')
RULE = ('every start set x every history of insertions, removals and removals with payload over the alphabet, breadth first to the '
        'depth; in each new state the structure and all searches of the query grid are checked; non-trivial: a state with at '
        'least two nodes was reached through a removal')
ASSUMPTIONS = ['coordinates and radii are exactly representable numbers, so the inclusive border of a radius is decided without rounding',
               'payloads are compared by equality']


# -- adapters: the same interface over both implementations ------------------------------------------------------------
class Py:
    def __init__(self, points, payloads, dim, kind):
        self.kind = kind
        self.dim = dim
        self.t = kdtree([self.p(x) for x in points], payloads) if points is not None else kdtree()

    def p(self, x):
        return list(x) if self.kind == 'list' else tuple(x) if self.kind == 'tuple' else numpy.array(x, dtype=float)

    def of(self, n):
        return None if n is None else (tuple(float(v) for v in n.data), n.payload)

    def insert(self, x, pay):
        return self.of(self.t.insert(self.p(x), pay))

    def remove(self, x, pay, with_payload):
        before = len(self.t)
        r = self.t.remove(self.p(x), payload=pay) if with_payload else self.t.remove(self.p(x))
        require(r is None if before == len(self.t) else r is self.t.get_root(), lambda: 'remove() returned %r' % (r,))

    def size(self):
        return len(self.t)

    def find(self, x):
        return self.of(self.t.find_node(self.p(x)))

    def find_payload(self, x, pay):
        return self.of(self.t.find_node_with_payload(self.p(x), pay))

    def radius(self, x, r):
        yield 'find_nearest_dist_nodes', [(d,) + self.of(n) for d, n in self.t.find_nearest_dist_nodes(self.p(x), r)]

    def nearest(self, x, r):
        a = self.t.find_nearest_dist_node(self.p(x), r)
        b = self.t.find_nearest_dist_node(self.p(x), r, True)
        require((a is None) == (b is None), 'find_nearest_dist_node() with and without distance disagree')
        if a is not None:
            require(b[1] is a, 'find_nearest_dist_node() with and without distance disagree')
            return (b[0],) + self.of(a)
        return None

    def dump(self):
        def go(n, parent):
            if n is None:
                return None
            require(n.parent is parent, lambda: 'the parent of node %r is wrong' % (self.of(n),))
            return self.of(n) + (n.disc, go(n.left, n), go(n.right, n))
        return go(self.t.get_root(), None)

    def subtrees(self, x):
        """find_node() that starts at any node finds exactly the points below it."""
        def go(n):
            if n is None:
                return False
            inside = tuple(float(v) for v in n.data) == tuple(x)
            inside = go(n.left) | go(n.right) | inside
            f = self.t.find_node(self.p(x), n)
            require((f is not None) == inside, lambda: 'find_node(%r) from node %r found %r' % (x, self.of(n), self.of(f)))
            return inside
        go(self.t.get_root())

    def close(self):
        pass


class Cpp:
    lib = None

    def __init__(self, points, payloads, dim, kind):
        if Cpp.lib is None:
            lib = ctypes.CDLL(build.harness(build.ensure(), 'kd'))
            lib.kd_new.restype = ctypes.c_void_p
            for f in ('kd_size', 'kd_insert', 'kd_find', 'kd_find_payload', 'kd_dump', 'kd_search'):
                getattr(lib, f).restype = ctypes.c_long
            Cpp.lib = lib
        self.dim = dim
        self.buf = (ctypes.c_double * 4000)()
        n = len(points) if points is not None else 0
        flat = [v for x in (points or []) for v in x]
        self.h = ctypes.c_void_p(Cpp.lib.kd_new(ctypes.c_long(n), ctypes.c_long(dim), (ctypes.c_double * max(1, len(flat)))(*flat),
                                                (ctypes.c_long * max(1, n))(*payloads) if payloads is not None else None))

    def p(self, x):
        return (ctypes.c_double * self.dim)(*x)

    def get(self, n):
        return (tuple(self.buf[1:1 + self.dim]), int(self.buf[0])) if n else None

    def insert(self, x, pay):
        return self.get(Cpp.lib.kd_insert(self.h, self.p(x), ctypes.c_long(pay), self.buf))

    def remove(self, x, pay, with_payload):
        if with_payload:
            Cpp.lib.kd_remove_payload(self.h, self.p(x), ctypes.c_long(pay))
        else:
            Cpp.lib.kd_remove(self.h, self.p(x))

    def size(self):
        return Cpp.lib.kd_size(self.h)

    def find(self, x):
        return self.get(Cpp.lib.kd_find(self.h, self.p(x), self.buf))

    def find_payload(self, x, pay):
        return self.get(Cpp.lib.kd_find_payload(self.h, self.p(x), ctypes.c_long(pay), self.buf))

    def search(self, x, r, how):
        n = Cpp.lib.kd_search(self.h, self.p(x), ctypes.c_double(r), ctypes.c_long(how), self.buf)
        require(n >= 0, 'distances and nodes of a search differ in number')
        w = self.dim + 2
        return [(self.buf[i * w], tuple(self.buf[i * w + 2:(i + 1) * w]), int(self.buf[i * w + 1])) for i in range(n)]

    def radius(self, x, r):
        yield 'find_nearest_nodes', self.search(x, r, 0)
        yield 'find_nearest', self.search(x, r, 1)

    def nearest(self, x, r):
        a = self.search(x, r, 2)
        if not a:
            return None
        return (sum((u - v) ** 2 for u, v in zip(x, a[0][1])),) + a[0][1:]

    def dump(self):
        n = Cpp.lib.kd_dump(self.h, self.buf)
        it = iter(self.buf[:n])

        def go():
            disc = next(it)
            if disc < 0:
                return None
            pay, parent, dim = int(next(it)), next(it), int(next(it))
            require(dim == self.dim, 'dimension of a node')
            data = tuple(next(it) for _ in range(dim))
            require(parent == 1.0, lambda: 'the parent of node %r is wrong' % ((data, pay),))
            left = go()
            return (data, pay, int(disc), left, go())
        return go()

    def subtrees(self, x):
        pass

    def close(self):
        Cpp.lib.kd_free(self.h)


# -- oracle --------------------------------------------------------------------------------------------------------------
def nodes(tree):
    if tree is not None:
        yield tree
        yield from nodes(tree[3])
        yield from nodes(tree[4])


def structure(tree, dim, depth=0):
    if tree is None:
        return
    data, pay, disc, left, right = tree
    require(disc == depth % dim, lambda: 'node %r at depth %d splits by coordinate %d' % (data, depth, disc))
    for n in nodes(left):
        require(n[0][disc] < data[disc], lambda: '%r is left of %r, split by coordinate %d' % (n[0], data, disc))
    for n in nodes(right):
        require(n[0][disc] >= data[disc], lambda: '%r is right of %r, split by coordinate %d' % (n[0], data, disc))
    structure(left, dim, depth + 1)
    structure(right, dim, depth + 1)


def check(a, model, dim, alphabet, pays, queries, radii, tree):
    structure(tree, dim)
    require(a.size() == sum(model.values()), lambda: 'the size is %d with %d points' % (a.size(), sum(model.values())))
    points = {p for p, _ in model}
    for x in alphabet:
        f = a.find(x)
        require(f in model if x in points else f is None, lambda: 'find(%r) gives %r; stored %r' % (x, f, dict(model)))
        require(f is None or f[0] == x, lambda: 'find(%r) gives %r' % (x, f))
        for pay in pays:
            f = a.find_payload(x, pay)
            require(f == ((x, pay) if (x, pay) in model else None), lambda: 'find(%r, %r) gives %r; stored %r' % (x, pay, f, dict(model)))
        a.subtrees(x)
    for q in queries:
        dist = {k: sum((u - v) ** 2 for u, v in zip(q, k[0])) for k in model}
        for r in radii:
            near = collections.Counter({k: n for k, n in model.items() if dist[k] <= r * r})
            for name, found in a.radius(q, r):
                require(collections.Counter((p, pay) for _, p, pay in found) == near, lambda: '%s(%r, %r) gives %r; stored %r' % (name, q, r, found, dict(model)))
                for d, p, pay in found:
                    require(d == dist[p, pay], lambda: '%s(%r, %r) gives distance %r of %r' % (name, q, r, d, p))
            f = a.nearest(q, r)
            if not near:
                require(f is None, lambda: 'the nearest to %r within %r is %r; stored %r' % (q, r, f, dict(model)))
            else:
                require(f is not None and f[1:] in near and f[0] == dist[f[1:]] == min(dist[k] for k in near),
                        lambda: 'the nearest to %r within %r is %r; stored %r' % (q, r, f, dict(model)))


ALPHABETS = {
    'line': (1, [(0.0,), (1.0,), (2.0,)], [(0.5,), (1.0,), (3.5,)], (0.0, 0.5, 1.0, 2.5, float('inf'))),
    'plane': (2, [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 2.0)], [(0.0, 0.0), (1.0, 1.0), (-2.0, 0.5)], (0.0, 1.0, 1.5, 3.0)),
    'wide': (2, [(x, y) for x in (0.0, 1.0, 3.0) for y in (-1.0, 0.0, 2.0)], [(0.0, 0.0), (1.5, -1.0), (5.0, 5.0)], (0.0, 1.0, 2.0, 4.5)),
    'cube': (3, [(0.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 0.0, 1.0), (0.0, 1.0, 2.0), (1.0, 1.0, 1.0)], [(0.0, 0.0, 1.0), (2.0, 1.0, 0.0)], (0.0, 1.0, 2.0, 9.0)),
}


def run(case):
    impl, kind, name, pays, start, prefix, depth, removals_only = case
    dim, alphabet, queries, radii = ALPHABETS[name]
    ops = [('-', x, None) for x in alphabet] + [('-p', x, p) for x in alphabet for p in pays]
    if not removals_only:
        ops += [('+', x, p) for x in alphabet for p in pays]

    def fresh():
        if start is None:
            return (Py if impl == 'py' else Cpp)(None, None, dim, kind), collections.Counter()
        pts = [alphabet[i] for i, _ in start]
        ps = [pays[j] for _, j in start]
        return (Py if impl == 'py' else Cpp)(pts, ps, dim, kind), collections.Counter(zip(pts, ps))

    def content(tree):
        return collections.Counter((n[0], n[1]) for n in nodes(tree))

    def apply(a, model, op):
        """One transition of the implementation and the model; returns the new model."""
        kind_, x, pay = op
        new = model.copy()
        if kind_ == '+':
            n = a.insert(x, pay)
            require(n == (x, pay), lambda: 'insert(%r, %r) returned %r' % (x, pay, n))
            new[x, pay] += 1
            return new, [new]
        a.remove(x, pay, kind_ == '-p')
        victims = [k for k in model if k[0] == x and (kind_ == '-' or k[1] == pay)]
        return None, [model - collections.Counter([v]) for v in victims] or [model]

    def replay(path):
        a, model = fresh()
        for op in path:
            _, options = apply(a, model, op)
            got = content(a.dump())
            require(got in options, lambda: '%r leaves %r; expected %r' % (op, dict(got), [dict(o) for o in options]))
            model = got
        return a, model

    seen = set()
    frontier = [list(prefix)]
    interesting = 0
    level = len(prefix)
    while frontier:
        following = []
        for path in frontier:
            try:
                a, model = replay(path)
                tree = a.dump()
                require(content(tree) == model, lambda: 'stored %r instead of %r' % (content(tree), dict(model)))
                Counters.transitions += 1
                Counters.traces += 1
                if tree in seen:
                    a.close()
                    continue
                seen.add(tree)
                Counters.states += 1
                check(a, model, dim, alphabet, pays, queries, radii, tree)
                a.close()
            except Violation as v:
                raise Violation('after %r on %r: %s' % (path, start, v.message), v.key) from None
            interesting += sum(model.values()) > 1 and any(o[0] != '+' for o in path)
            if level < depth:
                following += [path + [op] for op in ops]
        frontier = following
        level += 1
    return (len(seen), interesting) if interesting else None


def run_balanced(case):
    """kdtree_balanced over every sequence of points."""
    impl, kind, name, seq, pays = case
    dim, alphabet, queries, radii = ALPHABETS[name]
    pts = [alphabet[i] for i in seq]
    if impl == 'py':
        a = Py(None, None, dim, kind)
        a.t = kdtree_balanced([a.p(x) for x in pts], pays)
        stored = pays or [None] * len(pts)
    else:
        a = Cpp(pts, pays, dim, kind)
        stored = pays or [0] * len(pts)
    model = collections.Counter(zip(pts, stored))
    tree = a.dump()
    require(collections.Counter((n[0], n[1]) for n in nodes(tree)) == model, lambda: 'stored %r instead of %r' % (tree, dict(model)))
    check(a, model, dim, alphabet, sorted(set(stored), key=str), queries, radii, tree)
    a.close()
    Counters.states += 1
    Counters.transitions += 1
    Counters.traces += 1
    return len(seq) if len(seq) > 1 else None


def families(tier):
    deep = tier == 'thorough'
    build.harness(build.ensure(), 'kd')

    def histories():
        for impl, kinds in (('py', ('list',)), ('cpp', ('list',))):
            for kind in kinds:
                for name, pays, depth in (('line', [1, 2], 5), ('plane', [1], 6), ('plane', [1, 2], 5 if deep else 4), ('cube', [1], 5), ('wide', [1], 4)) + (
                        (('line', [1, 2], 6), ('plane', [1], 7), ('wide', [1], 5)) if deep else ()):
                    alphabet = ALPHABETS[name][1]
                    for x in alphabet:
                        for p in pays:
                            for y in alphabet:
                                for q in pays:
                                    yield impl, kind, name, pays, None, [('+', x, p), ('+', y, q)], depth, False

    def short():
        for impl, kinds in (('py', ('list', 'tuple', 'numpy')), ('cpp', ('list',))):
            for kind in kinds:
                for name in ALPHABETS:
                    yield impl, kind, name, [1], None, [], 3 if name == 'wide' else 4, False
                    yield impl, kind, name, [1, 2], None, [], 3 if name in ('line', 'plane') else 2, False
                    yield impl, kind, name, [1, 2], [], [], 2, False

    def balanced_then_changed():
        for impl, kinds in (('py', ('list', 'numpy')), ('cpp', ('list',))):
            for kind in kinds:
                for name, n, depth in (('line', 3, 3), ('line', 4, 2), ('plane', 4, 3 if kind == 'list' else 2), ('wide', 2, 2), ('wide', 3, 2)):
                    for seq in itertools.combinations_with_replacement(range(len(ALPHABETS[name][1])), n):
                        yield impl, kind, name, [1, 2], [(i, j % 2) for j, i in enumerate(seq)], [], depth, False

    def removals():
        # taking large trees apart: every order of removal of every tree of five to seven distinct or repeated points
        for impl in ('py', 'cpp'):
            for name, n in (('wide', 5), ('cube', 5)) + ((('wide', 6),) if deep else ()):
                k = len(ALPHABETS[name][1])
                for seq in itertools.combinations_with_replacement(range(k), n) if k < 6 else itertools.combinations(range(k), n):
                    yield impl, 'list', name, [1], [(i, 0) for i in seq], [], n, True

    def inserted_then_removed():
        for impl in ('py', 'cpp'):
            for name, n in (('plane', 5), ('line', 5)) + ((('wide', 4),) if deep else ()):
                alphabet = ALPHABETS[name][1]
                for seq in itertools.product(alphabet, repeat=n):
                    yield impl, 'list', name, [1], None, [('+', x, 1) for x in seq], n + 2, True

    def balanced():
        for impl, kinds in (('py', ('list', 'tuple', 'numpy')), ('cpp', ('list',))):
            for kind in kinds:
                for name, most in (('line', 6), ('plane', 5 if kind == 'list' else 4), ('wide', 4 if deep else 3), ('cube', 4)):
                    for n in range(0, most + 1):
                        for seq in itertools.product(range(len(ALPHABETS[name][1])), repeat=n):
                            yield impl, kind, name, seq, None
                            if n <= 4:
                                yield impl, kind, name, seq, [5 + i for i in range(n)]

    return [Family('histories', histories, run), Family('short_histories', short, run), Family('balanced_then_changed', balanced_then_changed, run),
            Family('removals', removals, run), Family('inserted_then_removed', inserted_then_removed, run), Family('balanced', balanced, run_balanced)]
