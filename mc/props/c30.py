"""C30 Phase oscillator networks: simulation, ensembles, order."""
import contextlib
import ctypes
import itertools
import math
import random

from mc import build, chance, dom
from mc.engine import Counters, Family, Skip, Violation, require

from pyclustering.cluster.hsyncnet import hsyncnet
from pyclustering.cluster.syncnet import syncnet
from pyclustering.nnet import conn_represent, conn_type, initial_type, solve_type
from pyclustering.nnet.fsync import fsync_network
from pyclustering.nnet.sync import order_estimator, sync_dynamic, sync_network
from pyclustering.nnet.syncpr import syncpr

LEVEL = 'model_checking'
RULE = ('every small network (structure, weight, frequencies, initial phases over a grid of the circle, solver, steps): the recorded rows are '
        'replayed, transition by transition, on the coupling equation; sequences of simulations of one network; stop rule of the dynamic '
        'simulation; every small synthetic dynamic for ensembles, correlation, order; patterns and trainings of the pattern recognition '
        'network; clustering networks over point sets; both implementations; non-trivial: phases move, or there are several groups')
ASSUMPTIONS = ['within a recorded step the phases of neighbours keep the values of the previous row (as both implementations define it)',
               'the FAST solver advances by one unit of time whatever the step is', 'distances within 1e-9 of a tolerance are not decided']
TWO = 2.0 * math.pi
D, L = ctypes.c_double, ctypes.c_long
SOLVER = dict(FAST=solve_type.FAST, RK4=solve_type.RK4, RKF45=solve_type.RKF45)

_harness = None


def harness():
    global _harness
    if _harness is None:
        chance.core_seed(1)
        _harness = ctypes.CDLL(build.harness(build.ensure(), 'sync'))
        _harness.mc_sync_dynamic.restype = ctypes.POINTER(ctypes.c_void_p)
    return _harness


def flat(v):
    v = [float(x) for x in v]
    return (D * max(1, len(v)))(*v)


@contextlib.contextmanager
def answers(values):
    """random.random() gives the values one after another."""
    queue, real = list(values), (random.random, random.uniform, random.seed)

    def draw():
        return queue.pop(0) if queue else 0.5
    random.random, random.uniform, random.seed = draw, lambda a, b: a + (b - a) * draw(), lambda *a, **k: None
    try:
        yield
    finally:
        random.random, random.uniform, random.seed = real


def apart(a, b):
    d = abs(a - b) % TWO
    return min(d, TWO - d)


def same_row(a, b, tol=1e-9):
    return len(a) == len(b) and all(apart(x, y) <= tol for x, y in zip(a, b))


def rk4(f, x, h, m=0):
    m = m or max(8, int(50 * h))
    d = h / m
    for _ in range(m):
        a = f(x)
        b = f(x + d / 2 * a)
        c = f(x + d / 2 * b)
        e = f(x + d * c)
        x += d / 6 * (a + 2 * b + 2 * c + e)
    return x


def replay(rows, times, rate, solver, h, start=0.0):
    """rate(i, theta, phases of the previous row). Every row follows from the previous one."""
    require(abs(times[0] - start) < 1e-9, lambda: 'the first row is of the time %r' % times[0])
    for r in range(1, len(rows)):
        require(abs(times[r] - r * h) <= 1e-7 * max(1.0, r * h), lambda: 'row %d is of the time %r, expected %r' % (r, times[r], r * h))
        prev = rows[r - 1]
        Counters.transitions += 1
        for i in range(len(prev)):
            f = lambda t: rate(i, t, prev)
            want = prev[i] + f(prev[i]) if solver == 'FAST' else rk4(f, prev[i], h)
            require(apart(rows[r][i], want) <= (1e-9 if solver == 'FAST' else 2e-4),
                    lambda: 'row %d: phase of oscillator %d is %r, the equation gives %r (previous row %r)' % (r, i, rows[r][i], want % TWO, prev))
    for row in rows:
        require(all(0.0 <= x <= TWO + 1e-12 for x in row), lambda: 'a phase is out of the circle: %r' % (row,))
        Counters.states += 1


def order(row):
    return abs(sum(complex(math.cos(x), math.sin(x)) for x in row)) / len(row)


def local_order(row, pairs):
    return sum(math.exp(-abs(row[j] - row[i])) for i, j in pairs) / max(1, len(pairs))


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol


def rows_of(dynamic):
    rows, times = [list(map(float, r)) for r in dynamic.output], [float(t) for t in dynamic.time]
    require(len(rows) == len(times) == len(dynamic), lambda: '%d rows, %d times, length %d' % (len(rows), len(times), len(dynamic)))
    return rows, times


def make(impl, n, weight, factor, kind, repr_, phases, freqs):
    """A network with given phases and frequencies (as far as the draws of the constructor allow)."""
    if impl == 'core':
        net = sync_network(n, weight, factor, conn_type[kind], ccore=True)
        harness().mc_sync_set(net._ccore_network_pointer, flat(phases), flat([f * factor for f in freqs]))
        return net, [f * factor for f in freqs], list(phases)
    draws = [x for p, f in zip(phases, freqs) for x in (p / TWO, f)]
    with answers(draws):
        net = sync_network(n, weight, factor, conn_type[kind], conn_represent[repr_], ccore=False)
    return net, [f * factor for f in freqs], list(phases)


def connect(net, n, kind, edges):
    if kind == 'DYNAMIC':
        for i, j in edges:
            net.set_connection(i, j)
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j and net.has_connection(i, j)]
    return pairs, {i: [j for a, j in pairs if a == i] for i in range(n)}


def check_orders(net, dynamic, rows, pairs):
    require(close(net.sync_order(), order(rows[-1])), lambda: 'order is %r, of the last phases %r' % (net.sync_order(), order(rows[-1])))
    require(close(net.sync_local_order(), local_order(rows[-1], pairs)), lambda: 'local order is %r, of the last phases %r' % (net.sync_local_order(), local_order(rows[-1], pairs)))
    got = list(dynamic.calculate_order_parameter(0, len(rows)))
    require(len(got) == len(rows) and all(close(a, order(r)) and 0.0 <= a <= 1.0 for a, r in zip(got, rows)), lambda: 'order parameters %r of %r' % (got, rows))
    got = list(dynamic.calculate_local_order_parameter(net, 0, len(rows)))
    require(len(got) == len(rows) and all(close(a, local_order(r, pairs)) for a, r in zip(got, rows)), lambda: 'local order parameters %r of %r' % (got, rows))
    for what, ref in ((dynamic.calculate_order_parameter(), order), (dynamic.calculate_local_order_parameter(net), lambda r: local_order(r, pairs))):
        require(len(what) == 1 and close(what[0], ref(rows[-1])), lambda: 'order of the last row %r' % (list(what),))
    got = dynamic.calculate_order_parameter(len(rows) - 1)
    require(len(got) == 1 and close(got[0], order(rows[-1])), lambda: 'order from the last row on %r' % (list(got),))


def run_steps(case):
    impl, n, kind, edges, repr_, weight, factor, freqs, phases, solver, plan = case

    def build_net():
        net, w, p = make(impl, n, weight, factor, kind, repr_, phases, freqs)
        return (net, w, p) + connect(net, n, kind, edges)
    net, omega, begin, pairs, near = build_net()
    require(close(net.sync_order(), order(begin)), lambda: 'order %r of the initial phases %r' % (net.sync_order(), begin))
    require(len(net) == n, 'length of the network')
    rate = lambda i, t, prev: omega[i] + weight / n * sum(math.sin(prev[k] - t) for k in near[i])
    history, last, moved = [], begin, False
    for steps, time, collect in plan:
        dynamic = net.simulate(steps, time, SOLVER[solver], collect)
        if collect:
            rows, times = rows_of(dynamic)
            require(len(rows) == steps + 1, lambda: '%d rows after %d steps' % (len(rows), steps))
            require(same_row(rows[0], last), lambda: 'the simulation begins with %r, the network was in %r' % (rows[0], last))
            replay(rows, times, rate, solver, time / steps)
            check_orders(net, dynamic, rows, pairs)
            history.append((dynamic, [list(r) for r in rows]))
            moved = moved or not same_row(rows[0], rows[-1], 1e-3)
            last = rows[-1]
        else:
            rows, times = rows_of(dynamic)
            require(len(rows) == 1 and close(times[0], time, 1e-7), lambda: '%d rows, times %r, only the last state was asked for' % (len(rows), times))
            virtual = last
            for _ in range(steps):
                virtual = [virtual[i] + rate(i, virtual[i], virtual) if solver == 'FAST' else rk4(lambda t: rate(i, t, virtual), virtual[i], time / steps) for i in range(n)]
            require(same_row(rows[0], virtual, 1e-9 if solver == 'FAST' and steps < 4 else 5e-4), lambda: 'the last state is %r, the equation gives %r' % (rows[0], virtual))
            check_orders(net, dynamic, rows, pairs)
            history.append((dynamic, [list(r) for r in rows]))
            last = rows[0]
    for dynamic, rows in history:
        require([list(map(float, r)) for r in dynamic.output] == rows, 'an earlier dynamic has been changed by a later simulation')
    return (kind, solver) if moved else None


def run_dynamic(case):
    impl, n, kind, edges, weight, phases, solver, target, step, int_step, threshold = case
    out = []
    for collect in (True, False):
        net, omega, begin = make(impl, n, weight, 0.0, kind, 'MATRIX', phases, [0.0] * n)
        pairs, near = connect(net, n, kind, edges)
        rate = lambda i, t, prev: weight / n * sum(math.sin(prev[k] - t) for k in near[i])
        dynamic = net.simulate_dynamic(target, SOLVER[solver], collect, step, int_step, threshold)
        rows, times = rows_of(dynamic)
        if collect:
            require(same_row(rows[0], begin), lambda: 'the simulation begins with %r, the network was in %r' % (rows[0], begin))
            replay(rows, times, rate, solver, step)
            lo = [local_order(r, pairs) for r in rows]
            for k, v in enumerate(lo):
                reached = v >= target
                steady = k > 0 and abs(v - lo[k - 1]) < threshold
                unclear = abs(v - target) < 1e-12 or (k > 0 and abs(abs(v - lo[k - 1]) - threshold) < 1e-12)
                if not unclear:
                    require((reached or steady) == (k == len(lo) - 1), lambda: 'the simulation %s at row %d: local orders %r' % ('does not stop' if reached or steady else 'stops', k, lo[:k + 2]))
            check_orders(net, dynamic, rows, pairs)
        else:
            require(len(rows) == 1, lambda: '%d rows' % len(rows))
            check_orders(net, dynamic, rows, pairs)
        out.append((rows[-1], times[-1]))
    require(same_row(out[0][0], out[1][0]) and close(out[0][1], out[1][1], 1e-7), lambda: 'the last state depends on whether the dynamic is collected: %r' % (out,))
    return len(out) and (solver, round(out[0][1] / step)) if out[0][1] > 0 else None


def greedy(row, tol):
    groups = []
    for i, x in enumerate(row):
        for g in groups:
            d = [apart(x, row[j]) for j in g]
            if any(abs(v - tol) < 1e-9 for v in d):
                raise Skip()
            if min(d) < tol:
                g.append(i)
                break
        else:
            groups.append([i])
    return groups


def dynamic_of(impl, rows, times):
    if impl == 'python':
        return sync_dynamic([list(r) for r in rows], list(times), None)
    return sync_dynamic(None, None, harness().mc_sync_dynamic(L(len(rows)), L(len(rows[0])), flat(x for r in rows for x in r), flat(times)))


def run_ensembles(case):
    impl, rows, tol, named = case
    n = len(rows[0])
    dynamic = dynamic_of(impl, rows, range(len(rows)))
    most = 0
    for iteration in [None] + list(range(len(rows))):
        row = rows[-1] if iteration is None else rows[iteration]
        want = greedy(row, tol)
        indexes = [10 * (n - i) for i in range(n)] if named else None
        got = dynamic.allocate_sync_ensembles(tol, indexes, iteration)
        if named:
            want = [[indexes[i] for i in g] for g in want]
        require(sorted(map(sorted, got)) == sorted(map(sorted, want)), lambda: 'ensembles of %r within %r: %r, expected %r' % (row, tol, got, want))
        again = dynamic.allocate_sync_ensembles(tol, indexes, iteration)
        require(sorted(map(sorted, again)) == sorted(map(sorted, want)), 'a second allocation differs')
        most = max(most, len(want) if len(want) < n else 0)
    return most or None


def run_matrices(case):
    impl, rows, shape = case
    n = len(rows[0])
    times = [0.5 * k for k in range(len(rows))]
    dynamic = dynamic_of(impl, rows, times)
    require(len(dynamic) == len(rows), 'length')
    require([list(r) for r in dynamic.output] == [list(r) for r in rows] and list(dynamic.time) == times, lambda: 'output %r, time %r' % (dynamic.output, dynamic.time))
    require(list(dynamic[0]) == times and [list(r) for r in dynamic[1]] == [list(r) for r in rows], 'access by index')
    for iteration in [None] + list(range(len(rows))):
        row = rows[-1] if iteration is None else rows[iteration]
        m = dynamic.allocate_correlation_matrix(iteration)
        require(len(m) == n and all(len(r) == n for r in m) and all(close(m[i][j], abs(math.sin(row[i] - row[j]))) for i in range(n) for j in range(n)),
                lambda: 'correlation matrix %r of %r' % (m, row))
        if shape is None or shape[0] * shape[1] == n:
            w, h = shape or (int(math.isqrt(n)),) * 2
            if w * h == n:
                m = dynamic.allocate_phase_matrix(*(shape or (None, None)), iteration=iteration)
                require([list(r) for r in m] == [list(row[k * w:k * w + w]) for k in range(h)], lambda: 'phase matrix %r of %r' % (m, row))
        else:
            try:
                dynamic.allocate_phase_matrix(shape[0], shape[1], iteration)
            except NameError:
                continue
            raise Violation('a phase matrix of %r has been made of %d oscillators' % (shape, n))
    orders = dynamic.calculate_order_parameter(0, len(rows))
    for v, row in zip(orders, rows):
        require(close(v, order(row)) and v <= 1.0, lambda: 'order %r of %r' % (v, row))
        require(v == 1.0 if len(set(row)) == 1 else (v < 1.0 or order(row) > 1 - 1e-12), lambda: 'order %r of %r' % (v, row))
        require(close(order_estimator.calculate_sync_order(row), order(row)), 'order_estimator')
    return len({round(v, 6) for v in orders})


def run_pattern(case):
    impl, n, trainings, a1, a2, plan = case
    net = syncpr(n, a1, a2, ccore=impl == 'core')
    require(len(net) == n, 'length')
    coupling = [[0.0] * n for _ in range(n)]
    for t in trainings:
        net.train([list(p) for p in t])
        for p in t:
            for i in range(n):
                for j in range(n):
                    if i != j:
                        coupling[i][j] += p[i] * p[j] / n

    def rate(i, t, prev):
        return sum(coupling[i][k] * math.sin(prev[k] - t) + (a1 * math.sin(2 * (prev[k] - t)) - a2 * math.sin(3 * (prev[k] - t))) / n for k in range(n) if k != i)
    memory = lambda row, p: abs(sum(v * complex(math.cos(x), math.sin(x)) for v, x in zip(p, row))) / n
    history, moved = [], False
    for kind, pattern, solver, steps, step in plan:
        if kind == 'static':
            dynamic = net.simulate(steps, steps * step, list(pattern), SOLVER[solver], True)
        else:
            dynamic = net.simulate_dynamic(list(pattern), 0.98, SOLVER[solver], True, step)
        rows, times = rows_of(dynamic)
        begin = [0.0 if v > 0 else math.pi / 2 for v in pattern]
        require(same_row(rows[0], begin), lambda: 'the simulation of %r begins with %r' % (pattern, rows[0]))
        replay(rows, times, rate, solver, step)
        if kind == 'static':
            require(len(rows) == steps + 1, lambda: '%d rows after %d steps' % (len(rows), steps))
        else:
            lo = [memory(r, pattern) for r in rows]
            limit = 1e-7 if impl == 'python' else 1e-6
            for k, v in enumerate(lo):
                reached, steady = v >= 0.98, k > 0 and abs(v - lo[k - 1]) < limit
                if abs(v - 0.98) > 1e-12 and not (k and abs(abs(v - lo[k - 1]) - limit) < 1e-12):
                    require((reached or steady) == (k == len(lo) - 1), lambda: 'the simulation ends at row %d: %r' % (len(lo) - 1, lo[-3:]))
        for p in {tuple(pattern), tuple(-v for v in pattern), (1,) * n}:
            got = net.memory_order(list(p))
            require(close(got, memory(rows[-1], p)), lambda: 'memory order of %r is %r, of the last phases %r' % (p, got, memory(rows[-1], p)))
        require(close(dynamic.calculate_order_parameter()[0], order(rows[-1])), 'order of the last row')
        history.append((dynamic, [list(r) for r in rows]))
        moved = moved or not same_row(rows[0], rows[-1], 1e-3)
    for dynamic, rows in history:
        require([list(map(float, r)) for r in dynamic.output] == rows, 'an earlier dynamic has been changed by a later simulation')
    for bad in ([1] * (n + 1), [0.5] + [1] * (n - 1)):
        try:
            net.simulate(1, 1.0, bad)
        except Exception:      # pylint: disable=broad-except
            continue
        raise Violation('the pattern %r has been accepted' % (bad,))
    return moved or None


def run_initial(case):
    impl, cls, n, kind, how, factor = case
    core = impl == 'core'
    points = [[float(i * i)] for i in range(n)]
    draws = [[0.125, 0.75], [0.0, 0.0], [0.9999, 0.9999], [0.3, 0.0]]
    lot = [chance.core_seed(s) or s for s in range(3)] if core else draws
    for k, d in enumerate(lot):
        chance.core_seed(k + 1)
        with (contextlib.nullcontext() if core else answers(d * n)):
            try:
                if cls == 'sync':
                    net = sync_network(n, 1, factor, conn_type[kind], conn_represent.MATRIX, initial_type[how], core)
                elif cls == 'syncnet':
                    net = syncnet(points, 5.0, initial_phases=initial_type[how], ccore=core)
            except NameError:
                require(kind.startswith('GRID') and math.isqrt(n) ** 2 != n, lambda: 'the network of %d oscillators (%s) has been refused' % (n, kind))
                return 'refused'
        require(not kind.startswith('GRID') or math.isqrt(n) ** 2 == n, 'a square grid of %d oscillators has been made' % n)
        order_ = net.sync_order()
        dynamic = net.simulate(1, 0.1, solve_type.RK4, True)
        row = rows_of(dynamic)[0][0]
        require(close(order_, order(row)), lambda: 'order %r, the initial phases are %r' % (order_, row))
        require(all(0.0 <= x <= TWO for x in row), lambda: 'initial phases %r' % (row,))
        if how == 'EQUIPARTITION':
            want = [math.pi / n * i for i in range(n)]
            if not same_row(row, want):
                pinned = cls == 'syncnet' and core
                raise Violation('initial phases %r, expected %r' % (row, want), 'syncnet-core-initial-phases' if pinned else None)
        elif core:
            require(n < 2 or len(set(row)) > 1, 'all the initial phases are the same')
        net2 = dynamic = None
        if core:
            phases, freq = (D * n)(), (D * n)()
            harness().mc_sync_get(net._ccore_network_pointer, phases, freq)
            if cls == 'sync':
                require(all(0.0 <= f <= factor for f in freq), lambda: 'frequencies %r' % (list(freq),))
    return (cls, how)


def weights(points, squared):
    n = len(points)
    dist = [[sum((a - b) ** 2 for a, b in zip(p, q)) for q in points] for p in points]
    if not squared:
        dist = [[math.sqrt(x) for x in r] for r in dist]
    vals = [dist[i][j] for i in range(n) for j in range(i)]
    if not vals:
        return dist
    lo, hi = min(vals), max(vals)
    return [[(x - lo) / (hi - lo) if hi != lo else x for x in r] for r in dist]


def partition(groups, n):
    flat_ = sorted(i for g in groups for i in g)
    require(flat_ == list(range(n)) and all(groups), lambda: 'not a partition of %d points: %r' % (n, groups))


def run_syncnet(case):
    impl, points, radius, repr_, weighted, phases, solver, target = case
    n = len(points)
    d = [[math.dist(p, q) for q in points] for p in points]
    if any(abs(d[i][j] - radius) < 1e-9 for i in range(n) for j in range(n)) and not all(float(x).is_integer() for p in points for x in p):
        raise Skip()
    near = {i: [j for j in range(n) if j != i and d[i][j] <= radius + 1e-12] for i in range(n)}
    w = weights(points, impl == 'core') if weighted else [[1.0] * n for _ in range(n)]
    if impl == 'core':
        net = syncnet(points, radius, enable_conn_weight=weighted, ccore=True)
        harness().mc_sync_set(net._ccore_network_pointer, flat(phases[:n]), None)
    else:
        with answers([x for p in phases[:n] for x in (p / TWO, 0.0)]):
            net = syncnet(points, radius, conn_represent[repr_], enable_conn_weight=weighted, ccore=False)
    for i in range(n):
        require(sorted(net.get_neighbors(i)) == near[i], lambda: 'neighbours of %d: %r, expected %r' % (i, net.get_neighbors(i), near[i]))
    rate = lambda i, t, prev: sum(w[i][k] * math.sin(prev[k] - t) for k in near[i]) / max(1, len(near[i]))
    analyser = net.process(target, SOLVER[solver], True)
    rows, times = rows_of(analyser)
    require(same_row(rows[0], phases[:n]), lambda: 'the process begins with %r' % (rows[0],))
    replay(rows, times, rate, solver, 0.1)
    pairs = [(i, j) for i in near for j in near[i]]
    lo = [local_order(r, pairs) for r in rows]
    require(all(v < target + 1e-12 for v in lo[:-1]), lambda: 'the process goes on after local order %r' % lo)
    require(lo[-1] >= target - 1e-12 or abs(lo[-1] - lo[-2]) < 1.1e-6, lambda: 'the process stops with local orders %r' % lo[-2:])
    most = 0
    for tol in (0.01, 0.1):
        clusters = analyser.allocate_clusters(tol)
        partition(clusters, n)
        want = greedy(rows[-1], tol)
        require(sorted(map(sorted, clusters)) == sorted(want), lambda: 'clusters %r, expected %r' % (clusters, want))
        most = max(most, len(want))
    return most if most < n else None


def run_hsyncnet(case):
    impl, points, k, how, neigh, inc, solver, collect, seeds = case
    n = len(points)
    found = set()
    for s in seeds:
        chance.core_seed(s + 1)
        rnd = random.Random(s)
        with (contextlib.nullcontext() if impl == 'core' else answers([rnd.random() for _ in range(2 * n)])):
            net = hsyncnet([list(p) for p in points], k, initial_type[how], neigh, inc, ccore=impl == 'core')
            analyser = net.process(0.998, SOLVER[solver], collect)
        rows, times = rows_of(analyser)
        require(rows and all(len(r) == n and all(0.0 <= x <= TWO + 1e-12 for x in r) for r in rows), lambda: 'output %r' % (rows,))
        require(all(a < b for a, b in zip(times, times[1:])), lambda: 'times %r' % (times,))
        require(collect or len(rows) == 1, lambda: '%d rows, only the last state was asked for' % len(rows))
        groups = analyser.allocate_clusters(0.05)
        partition(groups, n)
        require(len(groups) <= k, lambda: '%d clusters were asked for, there are %d: %r' % (k, len(groups), groups))
        want = greedy(rows[-1], 0.05)
        require(sorted(map(sorted, groups)) == sorted(want), lambda: 'clusters %r, expected %r' % (groups, want))
        found.add(len(groups))
        Counters.executions += 1
    return sorted(found)


def run_fsync(case):
    n, kind, repr_, freq, radius, coupling, begin, plan = case
    with answers(begin):
        net = fsync_network(n, freq, radius, coupling, conn_type[kind], conn_represent[repr_])
    near = {i: [j for j in range(n) if j != i and net.has_connection(i, j)] for i in range(n)}
    om = freq if isinstance(freq, list) else [freq] * n
    ra = radius if isinstance(radius, list) else [radius] * n
    state, moved, history = [complex(x) for x in begin], False, []
    for steps, time, collect in plan:
        dynamic = net.simulate(steps, time, collect)
        rows, times = [[complex(x) for x in r] for r in dynamic.output], [float(t) for t in dynamic.time]
        h = time / steps
        seq = [list(state)]
        for _ in range(steps):
            prev = seq[-1]
            seq.append([rk4(lambda z: (1j * om[i] + ra[i] ** 2 - abs(z) ** 2) * z + coupling / n * sum(prev[k] - z for k in near[i]), prev[i], h, 40) for i in range(n)])
            Counters.transitions += 1
        want, wt = (seq, [h * k for k in range(steps + 1)]) if collect else (seq[-1:], [time])
        require(len(rows) == len(want) == len(times) == len(dynamic), lambda: '%d rows after %d steps' % (len(rows), steps))
        require(all(close(a, b, 1e-7) for a, b in zip(times, wt)), lambda: 'times %r' % (times,))
        for r, v in zip(rows, want):
            require(len(r) == n and all(abs(a - b.real) < 2e-4 for a, b in zip(r, v)), lambda: 'output %r, the equation gives %r' % (rows, want))
            Counters.states += 1
        history.append((dynamic, repr(dynamic.output)))
        moved = True
        state = seq[-1]
    require(all(repr(d.output) == r for d, r in history), 'an earlier dynamic has been changed by a later simulation')
    return moved


def families(tier):
    deep = tier == 'thorough'
    build.harness(build.ensure(), 'sync')
    ring = [0.0, 0.6, 1.9, math.pi + 0.4, TWO - 0.3]
    freqs = [0.0, 0.5, 0.25, 0.9, 0.4, 0.1]

    def starts(n, stride=1):
        return itertools.islice(itertools.product(ring, repeat=n), 0, None, stride)

    def kinds(n, impl):
        out = [('ALL_TO_ALL', ()), ('LIST_BIDIR', ()), ('NONE', ())]
        if math.isqrt(n) ** 2 == n:
            out += [('GRID_FOUR', ()), ('GRID_EIGHT', ())]
        if impl == 'python':
            out += [('DYNAMIC', e) for e in ([], [(0, n - 1)], [(i, i + 1) for i in range(n - 1)][::2]) if all(a != b for a, b in e)]
        return out

    def steps():
        plans = [[(1, 1.0, True)], [(3, 0.6, True)], [(2, 0.4, True), (2, 1.0, True)], [(2, 0.5, False), (1, 0.25, True), (3, 0.75, False)]]
        for impl in ('python', 'core'):
            for n, stride in ((1, 1), (2, 1), (3, 5 if deep else 12), (4, 20 if deep else 61), (5, 100 if deep else 400)):
                for kind, edges in kinds(n, impl):
                    for phases in starts(n, stride):
                        for weight, factor in ((1.0, 0.0), (2.5, 1.0), (0.0, 0.5)):
                            for solver in SOLVER:
                                for k, plan in enumerate(plans):
                                    if deep or (k + len(kind)) % 2 == 0:
                                        yield impl, n, kind, list(edges), ('MATRIX', 'LIST')[k % 2], weight, factor, freqs[:n], list(phases), solver, plan
            for steps_, time in ((10, 1.0), (7, 0.7), (49, 0.49), (3, 0.1)):
                yield impl, 3, 'ALL_TO_ALL', [], 'MATRIX', 1.0, 0.0, freqs[:3], [0.0, 1.0, 2.0], 'RK4', [(steps_, time, True)]
        yield 'core', 66, 'ALL_TO_ALL', [], 'MATRIX', 1.0, 1.0, [0.01 * i for i in range(66)], [0.09 * i for i in range(66)], 'FAST', [(4, 1.0, True)]     # over the limit of sequential work

    def dynamics():
        for impl in ('python', 'core'):
            for n, stride in ((1, 1), (2, 1), (3, 10 if deep else 31), (4, 60 if deep else 170)):
                for kind, edges in kinds(n, impl):
                    for phases in starts(n, stride):
                        for solver, step, int_step in (('FAST', 0.1, 0.01), ('RK4', 0.25, 0.025), ('RKF45', 0.5, 0.1)):
                            for target, threshold in ((0.998, 1e-3), (0.7, 1e-7), (0.0, 1e-3), (0.95, 0.05)):
                                yield impl, n, kind, list(edges), 2.0, list(phases), solver, target, step, int_step, threshold

    def ensembles():
        grid = [0.0, 0.05, 0.11, 0.2, 3.0, TWO - 0.04, TWO]
        for impl in ('python', 'core'):
            for n in (1, 2, 3, 4) + ((5,) if deep else ()):
                for k, row in enumerate(itertools.product(grid, repeat=n)):
                    if n < 4 or deep or k % 3 == 0:
                        rows = [list(row)] if n > 3 else [list(row), list(row[::-1]), [grid[(i + k) % 7] for i in range(n)], list(row)]
                        for tol in (0.01, 0.0551, 0.0901, 0.125):
                            yield impl, rows, tol, k % 2 == 1

    def matrices():
        grid = [0.0, 0.7, 2.0, math.pi, 4.5, TWO]
        for impl in ('python', 'core'):
            for n in (1, 2, 3, 4):
                for k, row in enumerate(itertools.product(grid, repeat=n)):
                    if n < 4 or deep or k % 4 == 0:
                        for shape in {1: (None, (1, 1)), 2: ((2, 1), (1, 2), (2, 2)), 3: ((3, 1), (1, 3)), 4: (None, (2, 2), (4, 1), (1, 4), (3, 2))}[n]:
                            yield impl, [list(row), [grid[(k + i) % 6] for i in range(n)], list(row[::-1])], shape

    def patterns():
        for impl in ('python', 'core'):
            for n in (1, 2, 3, 4):
                pats = list(itertools.product((1, -1), repeat=n))
                trainings = [[], [[pats[0]]], [[pats[-1], pats[len(pats) // 2]]], [[pats[0]], [pats[1], pats[-1]]], [[pats[1]], [pats[1]]]]
                for t in trainings:
                    for a1, a2 in ((0.0, 0.0), (0.3, 0.0), (0.1, 0.2)):
                        for p in pats[::1 if n < 4 or deep else 3]:
                            q = pats[1]
                            for plan in ([('static', p, 'RK4', 3, 0.25)], [('static', p, 'FAST', 2, 0.5), ('dynamic', q, 'RK4', 0, 0.2)], [('dynamic', p, 'RKF45', 0, 0.5), ('static', q, 'RK4', 2, 0.1), ('static', p, 'FAST', 1, 1.0)]):
                                yield impl, n, t, a1, a2, plan

    def initial():
        for impl in ('python', 'core'):
            for n in range(1, 11):
                for kind in ('ALL_TO_ALL', 'NONE', 'LIST_BIDIR', 'GRID_FOUR', 'GRID_EIGHT'):
                    for how in ('RANDOM_GAUSSIAN', 'EQUIPARTITION'):
                        for factor in (0.0, 2.0):
                            yield impl, 'sync', n, kind, how, factor
                for how in ('RANDOM_GAUSSIAN', 'EQUIPARTITION'):
                    yield impl, 'syncnet', n, 'ALL_TO_ALL', how, 0.0

    flatsets = [[[0.0], [1.0], [2.0], [10.0]], [[0.0, 0.0], [3.0, 4.0], [6.0, 8.0]], [[0.0], [0.0], [5.0]], [[1.0]], [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [8.0, 8.0], [8.0, 9.0]],
                [[0.0, 0.0, 0.0], [0.0, 0.0, 2.0], [0.0, 3.0, 2.0]], [[0.0], [1.5], [3.5], [6.25]]]

    def nets():
        for impl in ('python', 'core'):
            for points in flatsets + [list(p) for p in dom.line_sets(3, [0.0, 1.0, 3.0, 7.0])]:
                for radius in (0.0, 1.0, 2.0, 5.0, 100.0):
                    for weighted in (False, True):
                        for k, phases in enumerate(([0.3, 2.0, 4.4, 5.9, 1.1], [0.05, 6.2, 0.1, 6.1, 0.2])[:2 if deep or weighted or radius in (2.0, 100.0) else 1]):
                            for solver, target in (('FAST', 0.998), ('RK4', 0.9))[:2 if deep or k else 1]:
                                yield impl, points, radius, ('MATRIX', 'LIST')[k], weighted, phases, solver, target

    def hnets():
        for impl in ('python', 'core'):
            for points in flatsets + [[[0.0], [0.1], [0.2], [5.0], [5.1], [5.2], [9.0]]]:
                for k in (1, 2, 3, 5):
                    for how, neigh, inc in (('RANDOM_GAUSSIAN', 3, 0.15), ('EQUIPARTITION', 1, 0.5), ('RANDOM_GAUSSIAN', 2, 0.05)):
                        for solver in ('FAST', 'RK4') if deep else ('FAST',):
                            for collect in (False, True):
                                yield impl, points, k, how, neigh, inc, solver, collect, list(range(6 if deep else 2 if impl == 'core' else 1))

    def fsyncs():
        begins = [[0.1, 0.9, 0.45, 0.7], [0.0, 0.99, 0.0, 0.3]]
        for n in (1, 2, 3, 4):
            for kind in ('ALL_TO_ALL', 'NONE', 'LIST_BIDIR') + (('GRID_FOUR',) if n in (1, 4) else ()):
                for freq, radius in ((1.0, 1.0), ([1.0, 2.0, 0.5, 3.0][:n], 1.0), (0.0, [0.5, 1.0, 2.0, 0.1][:n])):
                    for coupling in (0.0, 1.0, 3.0):
                        for b in begins:
                            for k, plan in enumerate(([(2, 0.5, True)], [(3, 0.6, False), (2, 0.5, True), (1, 0.2, True)])):
                                yield n, kind, ('MATRIX', 'LIST')[k], freq, radius, coupling, b[:n], plan

    return [Family('steps', steps, run_steps), Family('dynamic', dynamics, run_dynamic), Family('ensembles', ensembles, run_ensembles),
            Family('matrices', matrices, run_matrices), Family('patterns', patterns, run_pattern), Family('initial', initial, run_initial),
            Family('syncnet', nets, run_syncnet), Family('hsyncnet', hnets, run_hsyncnet), Family('fsync', fsyncs, run_fsync)]
