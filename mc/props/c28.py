"""C28 Self-organized feature maps."""
import copy
import itertools
import math
import pickle

from mc import dom
from mc.engine import Counters, Family, Skip, require

from pyclustering.cluster.somsc import somsc
from pyclustering.nnet.som import som, som_parameters, type_conn, type_init

LEVEL = 'model_checking'
RULE = ('every sequence of train, simulate, read and store/restore operations up to a length over small data sets, map shapes, structures and initialisations, compared after '
        'every operation with an explicit model of the map (all continuations of ties are followed); trained maps of every small data set x configuration; '
        'neighbour tables of all shapes up to 6 x 6; both implementations; non-trivial: more than one neuron wins')
ASSUMPTIONS = ['the map is trained before it is asked', 'random initial weights are read from the map itself (training of no epochs with the same seed)',
               'the automatic stop may or may not look at the first epoch (the implementations differ)']
EPS = 1e-9
BRANCHES = 64
IMPL = {'python': False, 'core': True}


def sq(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def near(rows, cols, kind, i):
    """Neighbours of neuron i by the geometry of the grid (a honeycomb shifts its even rows to the right)."""
    r, c = divmod(i, cols)
    out = set()
    for j in range(rows * cols):
        dr, dc = j // cols - r, j % cols - c
        if j == i:
            continue
        if kind == type_conn.grid_four:
            ok = abs(dr) + abs(dc) == 1
        elif kind == type_conn.grid_eight:
            ok = max(abs(dr), abs(dc)) == 1
        else:
            shift = (0, 1) if r % 2 == 0 else (-1, 0)
            ok = (dr == 0 and abs(dc) == 1) or (abs(dr) == 1 and dc in shift)
        if ok:
            out.add(j)
    return out


def grid_weights(rows, cols, data):
    lo, hi = [min(v) for v in zip(*data)], [max(v) for v in zip(*data)]
    mid = [(a + b) / 2.0 for a, b in zip(lo, hi)]
    out = []
    for r in range(rows):
        for c in range(cols):
            w = list(mid)
            if rows > 1:
                w[0] = lo[0] + (hi[0] - lo[0]) * r / (rows - 1)
            if len(w) > 1 and cols > 1:
                w[1] = lo[1] + (hi[1] - lo[1]) * c / (cols - 1)
            out.append(w)
    return out


class State:
    __slots__ = ('w', 'captured', 'before', 'stopped')

    def __init__(self, w, captured, before, stopped):
        self.w, self.captured, self.before, self.stopped = w, captured, before, stopped

    def fork(self):
        return State([list(x) for x in self.w], [list(x) for x in self.captured], self.before, self.stopped)


class Model:
    """The maps that a training may give (several because of ties of the competition)."""

    def __init__(self, rows, cols, kind, radius, rate, threshold):
        self.rows, self.cols, self.kind, self.radius, self.rate, self.threshold = rows, cols, kind, radius, rate, threshold
        n = rows * cols
        if radius is None:
            self.radius = 2.0 if (rows + cols) / 4.0 > 1.0 else 1.5 if rows > 1 and cols > 1 else 1.0
        self.gap = [[(i // cols - j // cols) ** 2 + (i % cols - j % cols) ** 2 for j in range(n)] for i in range(n)]
        self.near = [[j for j in range(n) if j != i] if kind == type_conn.func_neighbor else sorted(near(rows, cols, kind, i)) for i in range(n)]
        self.states = []
        self.epochs = None

    def winners(self, w, p):
        d = [sq(x, p) for x in w]
        m = min(d)
        return [i for i, x in enumerate(d) if x <= m + EPS * (1.0 + m)]

    def train(self, data, epochs, autostop, begin):
        n = self.rows * self.cols
        live = [State([list(x) for x in begin], [[] for _ in range(n)], None, None)]
        ended = []
        for e in range(1, epochs + 1):
            radius = (self.radius * math.exp(-e / epochs)) ** 2
            rate = self.rate * math.exp(-e / epochs)
            for s in live:
                s.before, s.captured = [list(x) for x in s.w], [[] for _ in range(n)]
            for i, p in enumerate(data):
                new = []
                for s in live:
                    ws = self.winners(s.w, p)
                    for k, winner in enumerate(ws):
                        t = s.fork() if k + 1 < len(ws) else s
                        t.captured[winner].append(i)
                        for j in [winner] + self.near[winner]:
                            if j == winner or self.gap[winner][j] < radius:
                                pull = rate * math.exp(-self.gap[winner][j] / (2.0 * radius))
                                if self.kind == type_conn.func_neighbor and self.gap[winner][j] >= radius:
                                    continue
                                t.w[j] = [a + pull * (x - a) for a, x in zip(t.w[j], p)]
                        Counters.transitions += 1
                        new.append(t)
                        if len(new) > BRANCHES:
                            raise Skip('too many ties')
                live = new
            if autostop:
                go = []
                for s in live:
                    change = max(abs(a - b) for x, y in zip(s.before, s.w) for a, b in zip(x, y))
                    if change < self.threshold + EPS:          # may stop
                        t = s.fork()
                        t.stopped = e
                        ended.append(t)
                    if change >= self.threshold - EPS or e == 1:
                        go.append(s)
                live = go
        for s in live:
            s.stopped = epochs
        self.states = live + ended
        Counters.states += len(self.states)

    def match(self, weights, returned=None):
        ok = [s for s in self.states if (returned is None or s.stopped == returned) and all(abs(a - b) <= 1e-7 * (1 + abs(a)) for x, y in zip(s.w, weights) for a, b in zip(x, y))]
        require(ok, lambda: 'no allowed training gives weights %r in %r epochs; the model gives %r' % (weights, returned, [(s.w, s.stopped) for s in self.states[:3]]))
        self.states = ok

    def read(self, net):
        n = self.rows * self.cols
        weights, awards, captured = [list(map(float, w)) for w in net.weights], list(net.awards), [list(c) for c in net.capture_objects]
        require(net.size == len(net) == n == len(weights) == len(awards) == len(captured), lambda: 'sizes %r' % ((net.size, len(net), len(weights), len(awards), len(captured)),))
        self.match(weights)
        require(any(s.captured == captured for s in self.states), lambda: 'captured %r, the pass gives %r' % (captured, [s.captured for s in self.states[:3]]))
        require(awards == [len(c) for c in captured], lambda: 'awards %r, captured %r' % (awards, captured))
        require(net.get_winner_number() == sum(a > 0 for a in awards), lambda: '%d winners of awards %r' % (net.get_winner_number(), awards))
        return weights, awards, captured

    def distances(self, net, weights):
        table = net.get_distance_matrix()
        kind = type_conn.grid_eight if self.kind == type_conn.func_neighbor else self.kind
        for i, w in enumerate(weights):
            js = near(self.rows, self.cols, kind, i)
            want = sum(sq(w, weights[j]) for j in js) / len(js) if js else 0.0
            got = table[i // self.cols][i % self.cols]
            require(abs(got - want) <= 1e-9 * (1 + want), lambda: 'distance matrix %r, neuron %d: %r' % (table, i, want))
        require(len(table) == self.rows and all(len(t) == self.cols for t in table), 'shape of the distance matrix')

    def density(self, net, weights, data):
        table = net.get_density_matrix(3.0)
        reach = [(max(v) - min(v)) / 3.0 for v in zip(*weights)]
        for i, w in enumerate(weights):
            sure = sum(all(abs(a - b) <= r - EPS for a, b, r in zip(p, w, reach)) for p in data)
            most = sum(all(abs(a - b) <= r + EPS for a, b, r in zip(p, w, reach)) for p in data)
            got = table[i // self.cols][i % self.cols]
            require(sure <= got <= most, lambda: 'density matrix %r, neuron %d covers %d..%d' % (table, i, sure, most))

    def simulate(self, net, weights, p):
        got = net.simulate(p)
        require(got in self.winners(weights, p), lambda: 'winner of %r is %r, nearest are %r of %r' % (p, got, self.winners(weights, p), weights))


def parameters(init=type_init.uniform_grid, radius=None, rate=0.1, threshold=0.001, seed=None):
    q = som_parameters()
    q.init_type, q.init_radius, q.init_learn_rate, q.adaptation_threshold, q.random_state = init, radius, rate, threshold, seed
    return q


def fresh(impl, rows, cols, kind, init, seed, rate, radius, threshold):
    return som(rows, cols, type_conn(kind), parameters(type_init(init), radius, rate, threshold, seed), IMPL[impl])


def first_weights(make, data, rows, cols, init):
    """Initial weights; checked against what the initialisation promises."""
    net = make()
    net.train(data, 0, False)
    w = [list(map(float, x)) for x in net.weights]
    lo, hi = [min(v) for v in zip(*data)], [max(v) for v in zip(*data)]
    require(len(w) == rows * cols and all(len(x) == len(lo) for x in w), lambda: 'weights %r for data of %d dimensions' % (w, len(lo)))
    if init == type_init.uniform_grid:
        want = grid_weights(rows, cols, data)
        require(all(abs(a - b) <= 1e-9 * (1 + abs(b)) for x, y in zip(w, want) for a, b in zip(x, y)), lambda: 'initial grid %r, expected %r' % (w, want))
    elif init == type_init.random_surface:
        require(all(a - EPS <= x <= b + EPS for v in w for a, b, x in zip(lo, hi, v)), lambda: 'initial weights %r are out of the surface %r..%r' % (w, lo, hi))
    elif init == type_init.random_centroid:
        require(all(abs(x - (a + b) / 2.0) <= 1.0 + EPS for v in w for a, b, x in zip(lo, hi, v)), lambda: 'initial weights %r are not around the centre of %r..%r' % (w, lo, hi))
    return w


def trained(case):
    """One training of one configuration."""
    impl, data, rows, cols, kind, init, epochs, autostop, rate, radius, threshold = case
    data = [list(map(float, p)) for p in data]
    kind, init = type_conn(kind), type_init(init)
    make = lambda: fresh(impl, rows, cols, kind, init, 5, rate, radius, threshold)
    begin = first_weights(make, data, rows, cols, init)
    m = Model(rows, cols, kind, radius, rate, threshold)
    m.train(data, epochs, autostop, begin)
    net = make()
    returned = net.train(data, epochs, autostop)
    m.match([list(map(float, w)) for w in net.weights], returned)
    weights, awards, captured = m.read(net)
    if epochs:
        require(sorted(i for c in captured for i in c) == list(range(len(data))), lambda: 'captured %r' % (captured,))
    again = make()
    require(again.train(data, epochs, autostop) == returned and [list(w) for w in again.weights] == weights and list(again.awards) == awards, 'the same seed gives another map')
    m.distances(net, weights)
    m.density(net, weights, data)
    probes = data + [[x + 0.4 for x in data[0]], [-x for x in data[-1]]] + weights
    for p in probes:
        m.simulate(net, weights, p)
    Counters.traces += 1
    return sum(a > 0 for a in awards) > 1


OPS = ('train', 'stop', 'other', 'wide', 'none', 'store', 'copy', 'ask', 'read')


def history(case):
    """A sequence of operations on one map, compared with the model after each of them."""
    impl, datas, rows, cols, kind, init, ops = case
    datas = [[list(map(float, p)) for p in d] for d in datas]
    kind, init = type_conn(kind), type_init(init)
    make = lambda: fresh(impl, rows, cols, kind, init, 9, 0.3, None, 0.05)
    net = make()
    m = Model(rows, cols, kind, None, 0.3, 0.05)
    current = None
    for op in ops:
        if op in ('train', 'stop', 'other', 'wide', 'none'):
            current = datas[{'other': 1, 'wide': 2}.get(op, 0)]
            epochs, auto = {'none': (0, False), 'stop': (6, True)}.get(op, (3, False))
            m.train(current, epochs, auto, first_weights(make, current, rows, cols, init))
            m.match([list(map(float, w)) for w in (lambda r: net.weights)(net.train(current, epochs, auto))])
        elif op == 'store':
            net = pickle.loads(pickle.dumps(net))
        elif op == 'copy':
            twin = copy.deepcopy(net)
            if current is not None:
                m.read(twin)
            twin.train(datas[1], 2, False)           # the original does not notice
        elif op == 'read' and current is not None:
            m.distances(net, [list(map(float, w)) for w in net.weights])
            m.density(net, [list(map(float, w)) for w in net.weights], current)
        require(net.size == rows * cols, 'size')
        if current is None:
            require(net.get_winner_number() == 0, 'winners before a training')
            continue
        weights, _, _ = m.read(net)
        for p in current if op == 'ask' else current[:1]:
            m.simulate(net, weights, p)
    Counters.traces += 1
    return len(ops) > 2


def table(case):
    """Neighbours seen by one presented pattern: exactly the winner and its neighbours move."""
    impl, rows, cols, kind = case
    n = rows * cols
    kind = type_conn(kind)
    data = [[0.0, 0.0], [float(2 * rows), float(3 * cols)]]
    make = lambda: som(rows, cols, kind, parameters(radius=40.0, rate=0.5, seed=1), IMPL[impl])
    begin = first_weights(make, data, rows, cols, type_init.uniform_grid)
    for target in range(n):
        # the box is kept by its corners, the rest of the pass is one pattern on the neuron itself
        probe = [begin[target][0] + 0.01, begin[target][1] + 0.01]
        net = make()
        m = Model(rows, cols, kind, 40.0, 0.5, 0.001)
        full = [probe, data[0], data[1]]
        m.train(full, 1, False, first_weights(make, full, rows, cols, type_init.uniform_grid))
        net.train(full, 1, False)
        m.read(net)
    if IMPL[impl]:
        if kind != type_conn.func_neighbor:
            net.get_distance_matrix()
            require([sorted(x) for x in net._neighbors] == [sorted(x) for x in m.near], lambda: 'neighbours %r' % (net._neighbors,))
    elif kind != type_conn.func_neighbor:
        require([sorted(x) for x in net._neighbors] == [sorted(x) for x in m.near], lambda: 'neighbours %r' % (net._neighbors,))
    Counters.states += n
    return n > 1


def shared(case):
    """Two maps made with the same parameters object, trained in turns."""
    impl, data, shapes, kind = case
    data = [list(map(float, p)) for p in data]
    q = parameters(rate=0.3)
    nets = [som(r, c, type_conn(kind), q, IMPL[impl]) for r, c in shapes]
    for net, (r, c) in zip(nets, shapes):
        m = Model(r, c, type_conn(kind), None, 0.3, 0.001)
        m.train(data, 4, False, grid_weights(r, c, data))
        net.train(data, 4, False)
        m.read(net)
    require(q.init_radius is None, 'the parameters of the user are changed')
    return True


def clustering(case):
    impl, data, k, epochs = case
    data = [list(map(float, p)) for p in data]
    m = Model(1, k, type_conn.grid_four, None, 0.1, 0.001)
    m.train(data, epochs, True, grid_weights(1, k, data))
    o = somsc(data, k, epochs, IMPL[impl]).process()
    clusters = [list(c) for c in o.get_clusters()]
    require(any(s.captured == clusters for s in m.states), lambda: 'clusters %r, the map captures %r' % (clusters, [s.captured for s in m.states[:3]]))
    got = o.predict(data)
    require(any(all(g in m.winners(s.w, p) for g, p in zip(got, data)) for s in m.states if s.captured == clusters), lambda: 'predicted %r' % (got,))
    return sum(map(bool, clusters)) > 1


# points in general position: the competition has no ties
def generic(n, dim=2, step=0.61803398875):
    return [[round(10 * ((i + 1) * math.sqrt(2 + 3 * d) * step % 1), 6) + 0.001 * i for d in range(dim)] for i in range(n)]


def gen_trained(deep):
    lines = [list(d) for n in range(1, 5 if deep else 4) for d in dom.line(n, (0, 1, 3))]
    planes = [list(d) for n in range(1, 4 if deep else 3) for d in dom.plane(n, (0, 2))]
    planes += [generic(n) for n in (3, 5, 8)] + [generic(4, 3), generic(6, 3), generic(5, 1)]
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 2)] + ([(2, 3), (3, 3), (4, 1)] if deep else [])
    for data in lines + planes:
        for (r, c), impl in itertools.product(shapes, IMPL):
            for kind, init in itertools.product(range(4), range(4)):
                light = len(data) < 3 or deep
                for epochs, auto in ((0, False), (1, False), (4, False), (5, True)) if light else ((2, False), (5, True)):
                    yield impl, data, r, c, kind, init, epochs, auto, 0.1, None, 0.001
    for data in (generic(4), generic(7), generic(5, 1), generic(5, 3)):
        for (r, c), impl, kind in itertools.product([(1, 3), (2, 2), (3, 3), (2, 4), (5, 2)], IMPL, range(4)):
            for rate, radius, threshold in itertools.product((0.02, 0.5, 1.0), (0.5, 1.5, 4.0), (0.0001, 0.3)):
                for epochs, auto in ((3, False), (12, True)):
                    yield impl, data, r, c, kind, 3, epochs, auto, rate, radius, threshold


def gen_histories(deep):
    datas = [generic(4), [[p[1] * 2 + 1, p[0] - 3] for p in generic(5)], generic(3, 3)]
    for length in (1, 2, 3) + ((4,) if deep else ()):
        for ops in itertools.product(OPS, repeat=length):
            if not any(o in OPS[:4] for o in ops) and length > 2:
                continue
            for impl, (r, c), kind in itertools.product(IMPL, ((1, 1), (1, 3), (2, 2)) if length > 3 or deep or length < 3 else ((2, 2),), range(4)):
                for init in (3, 2) if length < 3 else (3,):
                    yield impl, datas, r, c, kind, init, ops


def families(tier):
    deep = tier != 'quick'
    return [
        Family('table', lambda: ((i, r, c, k) for r in range(1, 7 if deep else 5) for c in range(1, 7 if deep else 5) for i in IMPL for k in range(4)), table),
        Family('history', lambda: gen_histories(deep), history),
        Family('trained', lambda: gen_trained(deep), trained),
        Family('shared', lambda: ((i, d, s, k) for i in IMPL for d in (generic(4), generic(6)) for k in range(4)
                                  for s in itertools.permutations([(1, 1), (2, 2), (3, 2), (1, 3), (4, 4)], 2)), shared),
        Family('clustering', lambda: ((i, d, k, e) for d in [list(x) for n in range(1, 5 if deep else 4) for x in dom.line(n, (0, 1, 3, 8))] + [generic(n) for n in range(2, 9)]
                                      for k in (1, 2, 3, 4) for e in (0, 1, 3, 30) for i in IMPL), clustering),
    ]
