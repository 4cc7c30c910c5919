"""C32 Pulse-coupled, LEGION, hysteresis, chaotic and Hodgkin-Huxley networks."""
import itertools
import math
import random
from fractions import Fraction

from mc import chance
from mc.engine import Counters, Family, Skip, require
from mc.props.c30 import answers

from pyclustering.nnet import conn_type, solve_type
from pyclustering.nnet.cnn import cnn_dynamic, cnn_network, type_conn
from pyclustering.nnet.hhn import hhn_network, hhn_parameters
from pyclustering.nnet.hysteresis import hysteresis_dynamic, hysteresis_network
from pyclustering.nnet.legion import legion_network, legion_parameters
from pyclustering.nnet.pcnn import pcnn_dynamic, pcnn_network, pcnn_parameters
from pyclustering.utils import allocate_sync_ensembles

LEVEL = 'model_checking'
RULE = ('every recorded dynamics over a small alphabet of outputs up to a bound of rows and oscillators against the definition of its ensembles; runs of every small network x '
        'structure x stimulus x parameters x number of steps, repeated on the same network, each recorded row compared with the row that the equations of the network '
        'give from the row before it; both implementations; non-trivial: several ensembles or changing output')
ASSUMPTIONS = ['equations with a continuous time are compared with a fine Runge-Kutta integration, within 2e-3', 'the noise of LEGION is off, that of Hodgkin-Huxley stays within 1 %',
               'fast linking that has no fixed point is out of scope (counted)', 'ensembles of oscillating activity are those of C33']
IMPL = {'python': False, 'core': True}
NONE, ALL, FOUR, EIGHT, LIST = conn_type.NONE, conn_type.ALL_TO_ALL, conn_type.GRID_FOUR, conn_type.GRID_EIGHT, conn_type.LIST_BIDIR


def joined(kind, i, j, width=None):
    if i == j or kind == NONE:
        return False
    if kind == ALL:
        return True
    if kind == LIST:
        return abs(i - j) == 1
    dr, dc = abs(i // width - j // width), abs(i % width - j % width)
    return dr + dc == 1 if kind == FOUR else max(dr, dc) == 1


def near(kind, n, width=None):
    return [[j for j in range(n) if joined(kind, i, j, width)] for i in range(n)]


def valid(ensembles, n, every):
    flat = [i for e in ensembles for i in e]
    require(len(set(flat)) == len(flat) and all(0 <= i < n for i in flat) and all(ensembles), lambda: 'ensembles %r of %d oscillators' % (ensembles, n))
    require(not every or len(flat) == n, lambda: 'ensembles %r leave out some of %d oscillators' % (ensembles, n))


def close(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b))


# --- pulse-coupled -----------------------------------------------------------

def pcnn_ensembles(dynamic, rows):
    """What a recorded PCNN dynamics says about its rows."""
    n = len(rows[0])
    last = {}
    for t, row in enumerate(rows):
        for i, v in enumerate(row):
            if v == 1:
                last[i] = t
    want = [[i for i in range(n) if last.get(i) == t] for t in sorted(set(last.values()), reverse=True)]
    got = dynamic.allocate_sync_ensembles()
    require([list(e) for e in got] == want, lambda: 'synchronous ensembles %r of %r, expected %r' % (got, rows, want))
    spikes = [[i for i, v in enumerate(row) if v == 1] for row in rows]
    got = dynamic.allocate_spike_ensembles()
    require([list(e) for e in got] == [s for s in spikes if s], lambda: 'spike ensembles %r of %r' % (got, rows))
    got = dynamic.allocate_time_signal()
    require(list(got) == [len(s) for s in spikes], lambda: 'time signal %r of %r' % (got, rows))
    require(len(dynamic) == len(rows), 'length')
    time = list(dynamic.time)
    require(len(time) == len(rows) and all(a < b for a, b in zip(time, time[1:])), lambda: 'times %r' % (time,))
    return len(want) > 1


def pcnn_recorded(case):
    rows = [list(r) for r in case]
    Counters.states += 1
    return pcnn_ensembles(pcnn_dynamic([list(r) for r in rows]), rows)


class Pulse:
    def __init__(self, q, links, threshold):
        n = len(links)
        self.q, self.links, self.threshold = q, links, list(threshold)
        self.out, self.feed, self.link = [0.0] * n, [0.0] * n, [0.0] * n

    def fires(self, i, link):
        activity = self.feed[i] * (1.0 + self.q.B * link)
        if abs(activity - self.threshold[i]) < 1e-9 and (activity or self.threshold[i]):
            raise Skip('activity on the threshold')
        return 1.0 if activity > self.threshold[i] else 0.0

    def step(self, stimulus):
        q = self.q
        Counters.transitions += 1
        around = []
        for i, js in enumerate(self.links):
            m = w = 0.0
            for j in js:
                m += self.out[j] * q.M
                w += self.out[j] * q.W
            around.append((m * q.VF, w * q.VL))
        self.feed = [q.AF * f + s + a[0] for f, s, a in zip(self.feed, stimulus, around)]
        self.link = [q.AL * x + a[1] for x, a in zip(self.link, around)]
        out = [self.fires(i, x) for i, x in enumerate(self.link)]
        if q.FAST_LINKING:
            seen = set()
            while True:
                seen.add(tuple(out))
                self.link = []
                for js in self.links:
                    w = 0.0
                    for j in js:
                        w += out[j] * q.W
                    self.link.append(w * q.VL)
                new = [self.fires(i, x) for i, x in enumerate(self.link)]
                out = new
                if tuple(out) in seen:           # a fixed point or a repetition
                    break
        self.out = out
        self.threshold = [q.AT * t + q.VT * o for t, o in zip(self.threshold, out)]


PULSE = [dict(), dict(FAST_LINKING=True), dict(VT=1.0, AT=0.9), dict(VT=1.0, AF=0.9, AL=0.9, B=2.0), dict(VT=2.0, M=0.0, B=1.0, FAST_LINKING=True), dict(VT=0.5, VF=0.2, VL=3.0, B=0.5, AT=0.25, W=0.5)]


def pcnn_run(case):
    impl, n, kind, shape, stimulus, which, calls = case
    q = pcnn_parameters()
    for k, v in PULSE[which].items():
        setattr(q, k, v)
    begin = [0.25 * ((i * 2 + 1) % 5) for i in range(n)] if impl == 'python' else [0.0] * n
    h, w = shape or (None, None)
    stimulus = list(map(float, stimulus))
    m = Pulse(q, near(kind, n, w), begin)
    plan = []
    for steps in calls:
        rows = [list(m.out)] if impl == 'python' else []
        while len(rows) < steps:
            m.step(stimulus)
            rows.append(list(m.out))
        plan.append(rows)
    with answers(begin):
        net = pcnn_network(n, q, kind, height=h, width=w, ccore=IMPL[impl])
    require(len(net) == n, 'size')
    several = False
    for rows in plan:
        dynamic = net.simulate(len(rows), stimulus)
        got = [[float(x) for x in r] for r in dynamic.output]
        require(got == rows, lambda: 'recorded %r, the equations give %r' % (got, rows))
        several |= pcnn_ensembles(dynamic, rows)
    Counters.traces += 1
    return several


def gen_pcnn(deep):
    structures = [(n, k, None) for n in (1, 2, 3, 4) for k in (NONE, ALL, LIST)] + [(4, FOUR, (2, 2)), (4, EIGHT, (2, 2))]
    core_only = [(6, FOUR, (2, 3)), (6, FOUR, (3, 2)), (6, EIGHT, (2, 3)), (6, EIGHT, (3, 2)), (4, FOUR, (1, 4)), (4, EIGHT, (4, 1))]      # rows of Python grids: known finding of C29
    for impl in IMPL:
        for n, kind, shape in structures + (core_only if impl == 'core' else []):
            if shape and impl == 'python':
                continue
            values = (0, 0.3, 1, 12) if n < 4 or deep else (0, 0.3, 12) if n < 6 else (0, 1)
            for stimulus in itertools.product(values, repeat=n):
                for which in range(len(PULSE)):
                    for calls in ((1,), (2,), (3,), (7,), (3, 4), (2, 1, 6)) if n < 4 or deep else ((8,), (3, 4)):
                        yield impl, n, kind, shape, stimulus, which, calls


# --- LEGION ------------------------------------------------------------------

def rk4(f, state, t, h, pieces):
    d = h / pieces
    for k in range(pieces):
        s = t + k * d
        a = f(s, state)
        b = f(s + d / 2, [x + d / 2 * y for x, y in zip(state, a)])
        c = f(s + d / 2, [x + d / 2 * y for x, y in zip(state, b)])
        e = f(s + d, [x + d * y for x, y in zip(state, c)])
        state = [x + d / 6 * (p + 2 * q + 2 * r + s4) for x, p, q, r, s4 in zip(state, a, b, c, e)]
    return state


class Relax:
    """LEGION without noise."""

    def __init__(self, q, links, x):
        n = len(links)
        self.q, self.links, self.n = q, links, n
        self.x, self.y, self.p, self.z, self.coupling = list(x), [0.0] * n, [0.0] * n, 0.0, [0.0] * n

    def step(self, on, t, h):
        q, on_count = self.q, [sum(on[j] for j in js) for js in self.links]
        Counters.transitions += 1
        live = lambda v, bound: 1.0 if v > bound else 0.0
        states, coupling = [], []
        for i, js in enumerate(self.links):
            stimulus = q.I if on[i] else 0.0
            drive = live(sum(q.T * live(self.x[j], q.teta_x) for j in js), q.teta_p)

            def f(s, v):
                x, y, p = v
                gate = live(p + math.exp(-q.alpha * s), q.teta) if q.ENABLE_POTENTIONAL else 1.0
                return [3.0 * x - x ** 3 + 2.0 - y + stimulus * gate + self.coupling[i], q.eps * (q.gamma * (1.0 + math.tanh(x / q.betta)) - y), q.lamda * (1.0 - p) * drive - q.mu * p]
            states.append(rk4(f, [self.x[i], self.y[i], self.p[i]], t, h, 60))
            weight = q.Wt / on_count[i] if on[i] and on_count[i] else 0.0
            coupling.append(sum(weight * live(self.x[j], q.teta_x) for j in js) - q.Wz * live(self.z, q.teta_xz))
        sigma = live(max(self.x), q.teta_zx)
        self.z = sigma + (self.z - sigma) * math.exp(-q.fi * h)
        self.x, self.y, self.p = map(list, zip(*states))
        self.coupling = coupling


def legion_run(case):
    impl, n, kind, on, potential, solver, h, calls, change = case
    q = legion_parameters()
    q.ro, q.ENABLE_POTENTIONAL = 0.0, potential
    for k, v in change:
        setattr(q, k, v)
    begin = [0.9 - 0.7 * i for i in range(n)] if impl == 'python' else [0.0] * n
    with answers(begin):
        net = legion_network(n, q, kind, ccore=IMPL[impl])
    require(len(net) == n, 'size')
    m = Relax(q, near(kind, n), begin)
    moved = False
    for steps, collect in calls:
        dynamic = net.simulate(steps, h * steps, list(on), solve_type(solver), collect)
        got = [[float(x) for x in r] for r in dynamic.output]
        rows, zs, times = ([(list(m.x))], [m.z], [0.0]) if impl == 'core' else ([], [], [])
        k = 0
        while len(rows) < steps:
            k += 1
            m.step(list(on), h * k if impl == 'core' else h * (k - 1), h)
            rows.append(list(m.x))
            zs.append(m.z)
            times.append(h * k)
        if not collect:
            rows, zs, times = rows[-1:], zs[-1:], times[-1:]
        require(len(got) == len(rows) == len(dynamic) == len(dynamic.time) == len(dynamic.inhibitor), lambda: '%d rows, %d inhibitors, %d times, length %d, %d steps' % (
            len(got), len(dynamic.inhibitor), len(dynamic.time), len(dynamic), len(rows)))
        require(close(list(dynamic.time), times, 1e-9), lambda: 'times %r, expected %r' % (list(dynamic.time), times))
        for r, w in zip(got, rows):
            require(close(r, w, 2e-3), lambda: 'recorded %r, the equations give %r' % (got, rows))
        require(close(list(dynamic.inhibitor), zs, 2e-3), lambda: 'inhibitor %r, the equations give %r' % (list(dynamic.inhibitor), zs))
        ensembles = dynamic.allocate_sync_ensembles(0.1)
        valid(ensembles, n, False)
        require(ensembles == allocate_sync_ensembles(got, 0.1), lambda: 'ensembles %r' % (ensembles,))
        moved |= len(rows) > 1
        if impl == 'core' and not collect and steps == 1:
            pass
    Counters.traces += 1
    return moved


def gen_legion(deep):
    solvers = {'python': (1,), 'core': (1, 2)}
    for impl in IMPL:
        for n in (1, 2, 3) + ((4,) if deep else ()):
            for kind in (NONE, ALL, LIST):
                for on in itertools.product((0, 1), repeat=n):
                    for potential, solver, h in itertools.product((True, False), solvers[impl], (0.1, 0.5)):
                        for calls in (((6, True),), ((3, False),), ((1, True), (2, True), (2, False), (2, True))):
                            yield impl, n, kind, on, potential, solver, h, calls, ()
        for change in ((('teta_zx', 0.95),), (('teta_xz', 0.6),), (('fi', 0.4),), (('Wz', 4.0), ('teta_x', 0.1)), (('T', 4.0), ('teta_p', 5.0), ('lamda', 0.8)), (('mu', 0.6), ('teta', 0.99)),
                       (('I', 1.5), ('alpha', 0.6)), (('eps', 0.4), ('gamma', 3.0), ('betta', 0.5)), (('Wt', 1.0),)):
            for n, kind, on in ((2, ALL, (1, 1)), (3, LIST, (1, 0, 1)), (3, LIST, (1, 1, 0)), (3, ALL, (0, 1, 1))):
                yield impl, n, kind, on, True, 1, 0.3, ((8, True),), change
    for steps in range(1, 41 if not deep else 130):        # numbers of steps whose times are not exact
        yield 'core', 1, NONE, (1,), True, 1, 0.1, ((steps, True),), ()
        yield 'python', 1, NONE, (1,), True, 1, 0.1, ((steps, True),), ()


# --- hysteresis --------------------------------------------------------------

def hysteresis_recorded(case):
    rows, tolerance, steps = case
    n = len(rows[0])
    want = []
    for i in range(n):
        for e in want:
            gaps = [abs(r[i] - r[e[0]]) for r in rows[-steps:]]
            if any(abs(g - tolerance) < 1e-9 for g in gaps):
                raise Skip('on the tolerance')
            if all(g < tolerance for g in gaps):
                e.append(i)
                break
        else:
            want.append([i])
    d = hysteresis_dynamic([list(r) for r in rows], list(range(len(rows))))
    got = d.allocate_sync_ensembles(tolerance, steps)
    require(got == want, lambda: 'ensembles %r of %r, expected %r' % (got, rows, want))
    require(len(d) == len(rows) and d.output == [list(r) for r in rows], 'recorded rows')
    Counters.states += 1
    return len(want) > 1


def hysteresis_run(case):
    n, kind, own, other, states, outputs, h, calls = case
    net = hysteresis_network(n, own, other, kind)
    net.states, net.outputs = list(states), list(outputs)
    links, x, out = near(kind, n), [float(v) for v in states], [float(v) for v in outputs]
    changed = False
    for steps, collect in calls:
        # one step at a time shows the outputs; the last call records all of them
        for _ in range(steps):
            d = net.simulate(1, h, collect_dynamic=collect)
            rows = [[float(v) for v in r] for r in d.output]
            require(len(rows) == len(d.time) == (2 if collect else 1), lambda: 'rows %r' % (rows,))
            if collect:
                require(close(rows[0], x, 1e-12), lambda: 'the first row %r is not the state %r' % (rows[0], x))
            goal = [own * out[i] + sum(other * out[j] for j in links[i]) for i in range(n)]
            nxt = [g + (v - g) * math.exp(-h) for v, g in zip(x, goal)]
            require(close(rows[-1], nxt, 1e-4), lambda: 'recorded %r, the equations give %r' % (rows[-1], nxt))
            new = [float(v) for v in net.outputs]
            for i in range(n):
                lo, hi = min(x[i], nxt[i]), max(x[i], nxt[i])
                top = max(hi, goal[i]) if goal[i] > x[i] else hi
                low = min(lo, goal[i]) if goal[i] < x[i] else lo
                allowed = set()
                if nxt[i] > 1 + 1e-3:
                    allowed = {1.0}
                elif nxt[i] < -1 - 1e-3:
                    allowed = {-1.0}
                else:
                    allowed = {out[i]} | ({1.0} if top > 1 - 1e-3 else set()) | ({-1.0} if low < -1 + 1e-3 else set())     # the solver may look a little ahead
                require(new[i] in allowed, lambda: 'output %r of state %r -> %r was %r' % (new, x, nxt, out))
            changed |= new != out
            x, out = rows[-1], new
            Counters.transitions += 1
        d = net.simulate(steps, h * steps, collect_dynamic=collect)
        require(len(d) == len(d.output) == len(d.time) == (steps + 1 if collect else 1) and all(len(r) == n for r in d.output), lambda: '%d rows, %d times, %d steps' % (len(d.output), len(d.time), steps))
        require(close([float(t) for t in d.time], [h * k for k in range(steps + 1)] if collect else [h * steps], 1e-9), lambda: 'times %r' % (d.time,))
        valid(d.allocate_sync_ensembles(0.1), n, True)
        if collect:
            require(close(d.output[0], x, 1e-12), 'the first row')
        x, out = [float(v) for v in d.output[-1]], [float(v) for v in net.outputs]
        require([float(v) for v in net.states] == x, 'states of the network')
    Counters.traces += 1
    return changed


# --- chaotic -----------------------------------------------------------------

def same_signs(rows, steps):
    window, out = rows[-steps:] if steps else [], []
    for i in range(len(rows[0])):
        for e in out:
            if all((r[i] > 0) == (r[e[0]] > 0) for r in window):
                e.append(i)
                break
        else:
            out.append([i])
    return out


def cnn_recorded(case):
    rows = [list(r) for r in case]
    d = cnn_dynamic([list(r) for r in rows], list(range(len(rows))))
    parts = 0
    for steps in range(1, len(rows) + 2):
        got = d.allocate_sync_ensembles(steps)
        want = same_signs(rows, steps)
        require(got == want, lambda: 'ensembles %r of %r in %d steps, expected %r' % (got, rows, steps, want))
        parts = max(parts, len(want))
        Counters.states += 1
    got = d.allocate_observation_matrix()
    require([[float(v) for v in r] for r in got] == [[1.0 if v > 0 else 0.0 for v in r] for r in rows], lambda: 'observation matrix %r of %r' % (got, rows))
    require(len(d) == len(rows), 'length')
    return parts > 1


def empty_circle_edges(points):
    """Edges of the Delaunay triangulation of points in general position."""
    P = [[Fraction(x) for x in p] for p in points]
    edges = set()
    for a, b, c in itertools.combinations(range(len(P)), 3):
        (ax, ay), (bx, by), (cx, cy) = P[a], P[b], P[c]
        d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
        if d == 0:
            continue
        sa, sb, sc = ax * ax + ay * ay, bx * bx + by * by, cx * cx + cy * cy
        u, v = (sa * (by - cy) + sb * (cy - ay) + sc * (ay - by)) / d, (sa * (cx - bx) + sb * (ax - cx) + sc * (bx - ax)) / d
        r = (ax - u) ** 2 + (ay - v) ** 2
        rest = [(x - u) ** 2 + (y - v) ** 2 - r for k, (x, y) in enumerate(P) if k not in (a, b, c)]
        if any(x == 0 for x in rest):
            raise Skip('four points on a circle')
        if all(x > 0 for x in rest):
            edges |= {(a, b), (a, c), (b, c)}
    if not edges:
        raise Skip('points on a line')
    return edges


def cnn_run(case):
    points, kind, k, calls = case
    points = [list(map(float, p)) for p in points]
    n = len(points)
    sq = [[sum((x - y) ** 2 for x, y in zip(a, b)) for b in points] for a in points]
    average = sum(math.sqrt(x) for i in range(n) for x in sorted(sq[i][j] for j in range(n) if j != i)[:k]) / (k * n)
    edges = empty_circle_edges(points) if kind else {(i, j) for i in range(n) for j in range(i + 1, n)}
    weight = [[math.exp(-sq[i][j] / (2.0 * average)) if (min(i, j), max(i, j)) in edges and i != j else 0.0 for j in range(n)] for i in range(n)]
    net = cnn_network(n, type_conn(kind), k)
    require(len(net) == n, 'size')
    last = None
    for steps in calls:
        d = net.simulate(steps, points)
        rows = [list(map(float, r)) for r in d.output]
        require(len(rows) == len(d) == len(d.time) == steps and all(len(r) == n for r in rows), lambda: '%d rows, %d times, %d steps' % (len(rows), len(d.time), steps))
        require(all(a < b for a, b in zip(d.time, d.time[1:])), 'times')
        require(last is None or rows[0] == last, 'the second run does not begin where the first ended')
        for a, b in zip(rows, rows[1:]):
            want = [sum(w * (1.0 - 2.0 * v * v) for w, v in zip(ws, a)) / sum(ws) for ws in weight]
            require(close(b, want, 1e-9), lambda: 'after %r comes %r, the equations give %r' % (a, b, want))
            Counters.transitions += 1
        last = rows[-1]
        if all(abs(v) > 1e-12 for r in rows for v in r):
            require(d.allocate_sync_ensembles(2) == same_signs(rows, 2), 'ensembles')
    Counters.traces += 1
    return n > 2


def gen_cnn(deep):
    grid = [(x, y) for x in (0, 1, 3) for y in (0, 2)]
    clouds = [p for n in (3, 4) for p in itertools.combinations(grid, n)]
    spread = lambda n, s: [(round(7 * ((i + 1) * math.sqrt(2 + s) % 1), 4), round(7 * ((i + 1) * math.sqrt(7 + s) % 1), 4)) for i in range(n)]
    clouds += [spread(n, s) for n in range(4, 9) for s in (0, 1, 3, 4)]
    for points in clouds:
        for kind in (0, 1):
            for k in (1, 2, 3):
                if k < len(points):
                    for calls in ((1,), (6,), (2, 3)):
                        yield points, kind, k, calls
    for points in ([(0,), (1,), (5,)], [(0, 0, 1), (1, 3, 2), (4, 1, 1), (2, 2, 5)]):
        for k in (1, 2):
            yield points, 0, k, (5, 2)


# --- Hodgkin-Huxley ----------------------------------------------------------

def membrane(q, current):
    def f(t, s):
        v, m, h, n = s
        ion = q.gNa * m ** 3 * h * (v - q.vNa) + q.gK * n ** 4 * (v - q.vK) + q.gL * (v - q.vL)
        p = v - q.vRest
        am, an = (2.5 - 0.1 * p) / math.expm1(2.5 - 0.1 * p), (0.1 - 0.01 * p) / math.expm1(1.0 - 0.1 * p)
        return [current - ion, am * (1 - m) - 4.0 * math.exp(-p / 18.0) * m, 0.07 * math.exp(-p / 20.0) * (1 - h) - h / (math.exp(3.0 - 0.1 * p) + 1.0), an * (1 - n) - 0.125 * math.exp(-p / 80.0) * n]
    return f


def hhn_run(case):
    impl, n, stimulus, steps, h, change = case
    q = hhn_parameters()
    q.nu, q.gNa, q.gK, q.gL = 0.0, 120.0, 36.0, 0.3
    for k, v in change:
        setattr(q, k, v)
    net = hhn_network(n, list(map(float, stimulus)), q, ccore=IMPL[impl])
    time, outer, central = net.simulate(steps, h * steps)
    require(len(time) == len(outer) == len(central) == steps + 1 and all(len(r) == n for r in outer) and all(len(r) == 2 for r in central), lambda: '%d times, %d and %d rows for %d steps' % (
        len(time), len(outer), len(central), steps))
    require(close([float(t) for t in time], [h * k for k in range(steps + 1)], 1e-9), lambda: 'times %r, steps of %r' % (list(time), h))
    require(all(v == 0.0 for v in list(outer[0]) + list(central[0])), 'the network begins at rest')
    s = [0.0] * 4
    for k in range(1, steps + 1):
        s = rk4(membrane(q, q.Icn2), s, 0.0, h, max(4, int(h / 0.004)))
        require(abs(central[k][1] - s[0]) <= 2e-2 * (1 + abs(s[0]) / 10), lambda: 'second central element %r after %d steps, the equations give %r' % (central[k][1], k, s[0]))
        Counters.transitions += 1
    first = lambda current: rk4(membrane(q, current), [0.0] * 4, 0.0, h, 50)[0]
    require(abs(central[1][0] - first(q.Icn1)) <= 5e-3, lambda: 'first central element %r, the equations give %r' % (central[1][0], first(q.Icn1)))
    for v, c in zip(outer[1], stimulus):
        a, b = sorted((first(c * 0.99), first(c * 1.01)))
        require(a - 5e-3 <= v <= b + 5e-3, lambda: 'first step of stimulus %r: %r is not in %r..%r' % (c, v, a, b))
    ensembles = net.allocate_sync_ensembles(0.2)
    valid(ensembles, n, False)
    require(ensembles == allocate_sync_ensembles([list(r) for r in outer], 0.2, 20.0, None), lambda: 'ensembles %r' % (ensembles,))
    Counters.traces += 1
    return steps > 1


def gen_hhn(deep):
    for impl in IMPL:
        for n in (1, 2, 3):
            for stimulus in itertools.product((0, 25, 70), repeat=n):
                for steps, h in ((1, 0.1), (3, 0.05), (10, 0.02)) + (((60, 0.1),) if n == 1 or deep else ()):
                    yield impl, n, stimulus, steps, h, ()
        for change in ((('Icn1', 9.0),), (('Icn2', 12.0),), (('gNa', 100.0), ('vNa', 40.0)), (('gK', 30.0), ('vK', -70.0)), (('gL', 0.6), ('vL', -40.0)), (('vRest', -60.0),)):
            yield impl, 2, (25, 0), 40, 0.1, change


def families(tier):
    deep = tier != 'quick'
    binary = lambda: (rows for n in (1, 2, 3) for t in range(1, 5) for rows in itertools.product(itertools.product((0, 1), repeat=n), repeat=t))

    def amplitudes():
        for n, t, values in ((1, 2, (0, 1)), (2, 3, (-1, -0.95, 0.2)), (3, 2, (-1, -0.95, -0.86, 0.2)), (4, 2 if deep else 1, (-1, -0.95, -0.86, 0.2))):
            for rows in itertools.product(itertools.product(values, repeat=n), repeat=t):
                for tolerance, steps in itertools.product((0.07, 0.12, 2.0), (1, 2, 5)):
                    yield rows, tolerance, steps

    def hysteresis():
        for n in (1, 2, 3):
            for kind in (NONE, ALL, LIST):
                for own, other in ((-4, -1), (2, -1), (-4, 1), (0.5, 0.2)):
                    for states in itertools.product((-2, 0, 0.9), repeat=n):
                        for outputs in ((-1,) * n, tuple(1 - 2 * (i % 2) for i in range(n))):
                            for h, calls in ((0.1, ((3, True), (2, False))), (0.7, ((4, True),))):
                                if deep or n < 3 or h > 0.5:
                                    yield n, kind, own, other, states, outputs, h, calls
    return [
        Family('pcnn-recorded', binary, pcnn_recorded),
        Family('pcnn-run', lambda: gen_pcnn(deep), pcnn_run),
        Family('legion-run', lambda: gen_legion(deep), legion_run),
        Family('hysteresis-recorded', amplitudes, hysteresis_recorded),
        Family('hysteresis-run', hysteresis, hysteresis_run),
        Family('cnn-recorded', lambda: (rows for n in (1, 2, 3) for t in (1, 2, 3 if n < 3 or deep else 2) for rows in itertools.product(itertools.product((-0.5, 0.3, 0.8), repeat=n), repeat=t)), cnn_recorded),
        Family('cnn-run', lambda: gen_cnn(deep), cnn_run),
        Family('hhn-run', lambda: gen_hhn(deep), hhn_run),
    ]
