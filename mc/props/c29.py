"""C29 Structures of oscillatory networks."""
import itertools

from mc.engine import Counters, Family, Violation, require

from pyclustering.cluster.syncnet import syncnet
from pyclustering.nnet import conn_represent, conn_type, network
from pyclustering.nnet.fsync import fsync_network
from pyclustering.nnet.hysteresis import hysteresis_network
from pyclustering.nnet.legion import legion_network
from pyclustering.nnet.pcnn import pcnn_network
from pyclustering.nnet.sync import sync_network

LEVEL = 'model_checking'
RULE = ('every structure x storage form x size (and every height x width of the grids) up to a bound for the basic network, for every '
        'network derived from it and for the networks of the C++ core; every sequence of set_connection() calls up to a length over all '
        'pairs, compared after every call; networks connected by distance: every small data set x radius; states are the checked '
        'connection tables, transitions the calls; non-trivial: the number of connections and of missing connections')
ASSUMPTIONS = ['the structure of the PCNN, LEGION and Hodgkin-Huxley networks of the C++ core is not visible, their connectors are covered by C24']

MATRIX, LIST = conn_represent.MATRIX, conn_represent.LIST
TYPES = ['NONE', 'ALL_TO_ALL', 'GRID_FOUR', 'GRID_EIGHT', 'LIST_BIDIR', 'DYNAMIC']


def adjacent(kind, width, i, j):
    if i == j or kind in ('NONE', 'DYNAMIC'):
        return False
    if kind == 'ALL_TO_ALL':
        return True
    if kind == 'LIST_BIDIR':
        return abs(i - j) == 1
    dr, dc = abs(i // width - j // width), abs(i % width - j % width)
    return dr + dc == 1 if kind == 'GRID_FOUR' else max(dr, dc) == 1


def shifted(kind, width, i, j):
    """The rows of the Python grids as recorded in known_findings.json: cell k is put into row ceil(k / width) when cells are joined
    from left to right (everything else follows the grid)."""
    if abs(i - j) == 1:
        if kind == 'GRID_EIGHT' and width == 2 and i // width != j // width:
            return True                    # diagonal neighbours of a grid of two columns
        return -(-i // width) == -(-j // width) or (width == 1)
    return adjacent(kind, width, i, j)


def compare_grid(net, n, kind, width):
    """Grids of the Python networks: a table which is exactly the recorded one is the known finding, any other deviation is not."""
    try:
        return compare(net, n, lambda i, j: adjacent(kind, width, i, j))
    except Violation as v:
        if not kind.startswith('GRID'):
            raise
        compare(net, n, lambda i, j: shifted(kind, width, i, j), kind == 'GRID_EIGHT' and width == 2)
        raise Violation('%s: cells of one row are not connected or ends of neighbour rows are (%s)' % (kind, v.message), 'grid-row-off-by-one')


def compare(net, n, expected, twice=False):
    """Connection tests and lists of neighbours follow the expected table."""
    Counters.states += 1
    require(len(net) == n, lambda: 'the size is %r, %d oscillators are asked' % (len(net), n))
    there = 0
    for i in range(n):
        want = [j for j in range(n) if expected(i, j)]
        for j in range(n):
            got = bool(net.has_connection(i, j))
            require(got == (j in want), lambda: 'has_connection(%d, %d) is %r' % (i, j, got))
        neighbors = list(net.get_neighbors(i))
        require(sorted(set(neighbors) if twice else neighbors) == want, lambda: 'neighbours of %d are %r, expected %r' % (i, neighbors, want))
        there += len(want)
    return (n, there) if 0 < there < n * n - n else None


def square(n):
    return int(n ** 0.5 + 0.5) ** 2 == n


def run_structure(case):
    kind, form, n, shape = case
    args = [n, conn_type[kind], None if form is None else conn_represent[form]] + ([] if shape is None else list(shape))
    grid = kind.startswith('GRID')
    bad = grid and (shape[0] * shape[1] != n if shape is not None else not square(n))
    try:
        net = network(*args)
    except NameError:
        require(bad, lambda: 'a valid network is refused')
        return 'refused'
    require(not bad, lambda: 'a grid of %r is accepted for %d oscillators' % (shape, n))
    width = shape[1] if shape is not None else int(round(n ** 0.5))
    if grid:
        require((net.height, net.width) == (n // width, width), lambda: 'the grid is %d x %d' % (net.height, net.width))
    require(net.structure == conn_type[kind], 'the structure is not reported')
    out = compare_grid(net, n, kind, width)
    if kind != 'DYNAMIC' and n > 1:
        try:
            net.set_connection(0, n - 1)
            require(False, 'set_connection() is accepted by a network with a fixed structure')
        except NameError:
            pass
        compare(net, n, lambda i, j: adjacent(kind, width, i, j))
    return out


def run_history(case):
    n, form, ops = case
    net = network(n, conn_type.DYNAMIC, conn_represent[form])
    other = network(n, conn_type.DYNAMIC, conn_represent[form])
    pairs = set()
    out = None
    for a, b in ops:
        net.set_connection(a, b)
        Counters.transitions += 1
        pairs |= {(a, b), (b, a)}
        out = compare(net, n, lambda i, j: (i, j) in pairs)
    compare(other, n, lambda i, j: False)
    return len(pairs) or out


def run_derived(case):
    name, kind, form, n, shape = case
    structure, form = conn_type[kind], conn_represent[form]
    if name == 'sync':
        net = sync_network(n, type_conn=structure, representation=form, ccore=False)
    elif name == 'sync core':
        net = sync_network(n, type_conn=structure, ccore=True)
    elif name == 'fsync':
        net = fsync_network(n, type_conn=structure, representation=form)
    elif name == 'hysteresis':
        net = hysteresis_network(n, type_conn=structure, type_conn_represent=form)
    elif name == 'legion':
        net = legion_network(n, type_conn=structure, type_conn_represent=form, ccore=False)
    else:
        net = pcnn_network(n, None, structure, form, *(shape or (None, None)), ccore=False)
    width = shape[1] if shape is not None else int(round(n ** 0.5))
    return (compare if name == 'sync core' else compare_grid)(net, n, *((lambda i, j: adjacent(kind, width, i, j),) if name == 'sync core' else (kind, width)))


def run_distance(case):
    data, radius, form, core = case
    data = [list(p) for p in data]
    n = len(data)
    exact = [[sum((a - b) ** 2 for a, b in zip(p, q)) for q in data] for p in data]
    net = syncnet(data, radius, conn_represent[form], ccore=core)
    return compare(net, n, lambda i, j: i != j and exact[i][j] <= radius * radius)


def families(tier):
    deep = tier == 'thorough'
    limit = 49 if deep else 30

    def structures():
        for kind in TYPES:
            for form in ('MATRIX', 'LIST', None):
                for n in range(1, limit + 1):
                    yield kind, form, n, None
        for kind in TYPES[2:4]:
            for form in ('MATRIX', 'LIST', None):
                for h in range(1, 9):
                    for w in range(1, 9):
                        yield kind, form, h * w, (h, w)
                for n in range(1, 10):
                    for h in range(1, 10):
                        for w in range(1, 10):
                            if h * w != n:
                                yield kind, form, n, (h, w)
                for k in (10, 13, limit):
                    yield kind, form, k, (1, k)
                    yield kind, form, k, (k, 1)
                    yield kind, form, 2 * k, (2, k)
                    yield kind, form, 2 * k, (k, 2)

    def histories():
        for n, depth in ((1, 4), (2, 5), (3, 5 if deep else 4), (4, 4 if deep else 3)):
            pairs = list(itertools.product(range(n), repeat=2))
            for form in ('MATRIX', 'LIST'):
                for k in range(0, depth + 1):
                    for ops in itertools.product(pairs, repeat=k):
                        yield n, form, ops

    def derived():
        for kind in TYPES:
            for n in range(1, 17):
                if kind.startswith('GRID') and not square(n):
                    continue
                for form in ('MATRIX', 'LIST'):
                    for name in ('sync', 'fsync', 'hysteresis', 'legion', 'pcnn'):
                        yield name, kind, form, n, None
                if kind != 'DYNAMIC':
                    yield 'sync core', kind, 'MATRIX', n, None
        for kind in TYPES[2:4]:
            for n in (25, 36, 49):
                yield 'sync core', kind, 'MATRIX', n, None
            for h in range(1, 7):
                for w in range(1, 7):
                    for form in ('MATRIX', 'LIST'):
                        yield 'pcnn', kind, form, h * w, (h, w)

    def distance():
        for core in (False, True):
            for form in ('MATRIX', 'LIST') if not core else ('MATRIX',):
                for n in range(1, 5 + deep):
                    for data in itertools.product([(0,), (1,), (2,), (4,)], repeat=n):
                        for radius in (0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0):
                            yield data, radius, form, core
                for n in range(1, 4):
                    for data in itertools.product([(0, 0), (0, 3), (4, 0), (4, 3), (1, 1)], repeat=n):
                        for radius in (1.0, 3.0, 4.0, 5.0, 4.9, 0.0):
                            yield data, radius, form, core

    return [Family('structures', structures, run_structure), Family('histories', histories, run_history), Family('derived', derived, run_derived),
            Family('distance', distance, run_distance)]
