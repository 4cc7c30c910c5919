"""C33 Geometry and data helpers return what their description says."""
import contextlib
import copy
import ctypes
import io
import itertools
import math
import os
import shutil
import tempfile

import numpy
from PIL import Image

from mc import build, chance, dom
from mc.engine import Counters, Family, Skip, require
from mc.props.c02 import convert, frozen, plain

from pyclustering import utils
from pyclustering.cluster.generator import data_generator
from pyclustering.samples import answer_reader
from pyclustering.utils.color import color
from pyclustering.utils.dimension import dimension_info
from pyclustering.utils.graph import graph, read_graph, type_graph_descr
from pyclustering.utils.metric import distance_metric, type_metric

LEVEL = 'exploration'
RULE = ('every helper of utils, samples and the data generator over all small inputs: data sets in 1 to 3 dimensions and index subsets (lists, tuples, '
        'numpy arrays), all small pixel grids, graphs, label files and text layouts, all short activity patterns, all sorted sequences; the C++ helpers over '
        'the same vectors and matrices; results against the stated quantity computed with exact or 1e-9 arithmetic, arguments unchanged; '
        'non-trivial: more than one element')
ASSUMPTIONS = ['a pattern image has a dark pixel', 'edge lists name every vertex from 1 on', 'activity is never exactly on the threshold at the first step',
               'label files use the labels 0 .. k-1']
KINDS = ('list', 'tuple', 'array', 'strided')


def near(a, b, tol=1e-9):
    a, b = plain(a), plain(b)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    return a == b or (a is not None and b is not None and abs(a - b) <= tol * max(1.0, abs(a), abs(b)))


def check(what, got, want, tol=1e-9):
    require(near(got, want, tol), lambda: '%s is %r, expected %r' % (what, plain(got), plain(want)))


# ---- geometry of data sets -----------------------------------------------------------------------------------------
def geometry(case):
    data, kind = case
    data = [list(map(float, q)) for q in data]
    given = convert(data, kind)
    before = frozen(given)
    n, dim = len(data), len(data[0])
    Counters.executions += 1
    cols = list(zip(*data))
    lo, hi = [min(c) for c in cols], [max(c) for c in cols]
    check('data_corners()', utils.data_corners(given), [lo, hi])
    for size in range(1, n + 1):
        for sub in itertools.combinations(range(n), size):
            for f in (list(sub), tuple(reversed(sub)), numpy.array(sub)):
                check('data_corners() of %r' % (sub,), utils.data_corners(given, f), [[min(c[i] for i in sub) for c in cols], [max(c[i] for i in sub) for c in cols]])
    for order in itertools.permutations(('get_dimensions', 'get_maximum_coordinate', 'get_minimum_coordinate', 'get_width', 'get_center'), 2):
        info = dimension_info(given)
        want = dict(get_dimensions=dim, get_maximum_coordinate=hi, get_minimum_coordinate=lo, get_width=[b - a for a, b in zip(lo, hi)],
                    get_center=[(a + b) / 2 for a, b in zip(lo, hi)])
        for name in order + order:
            check(name, getattr(info, name)(), want[name])
    euclid = lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    check('calculate_distance_matrix()', utils.calculate_distance_matrix(given), [[euclid(a, b) for b in data] for a in data])
    taxi = distance_metric(type_metric.MANHATTAN)
    check('calculate_distance_matrix(MANHATTAN)', utils.calculate_distance_matrix(given, taxi), [[sum(abs(x - y) for x, y in zip(a, b)) for b in data] for a in data])
    for a, ga in zip(data, given):
        check('norm_vector()', utils.norm_vector(ga), euclid(a, [0.0] * dim))
        for b, gb in zip(data, given):
            check('euclidean_distance()', utils.euclidean_distance(ga, gb), euclid(a, b))
            check('euclidean_distance_square()', utils.euclidean_distance_square(ga, gb), euclid(a, b) ** 2)
            check('manhattan_distance()', utils.manhattan_distance(ga, gb), sum(abs(x - y) for x, y in zip(a, b)))
            check('list_math_addition()', utils.list_math_addition(ga, gb), [x + y for x, y in zip(a, b)])
            check('list_math_subtraction()', utils.list_math_subtraction(ga, gb), [x - y for x, y in zip(a, b)])
            check('list_math_multiplication()', utils.list_math_multiplication(ga, gb), [x * y for x, y in zip(a, b)])
            if all(b):
                check('list_math_division()', utils.list_math_division(ga, gb), [x / y for x, y in zip(a, b)])
        for s in (2.0, -0.5, 3):
            check('list_math_addition_number()', utils.list_math_addition_number(ga, s), [x + s for x in a])
            check('list_math_substraction_number()', utils.list_math_substraction_number(ga, s), [x - s for x in a])
            check('list_math_multiplication_number()', utils.list_math_multiplication_number(ga, s), [x * s for x in a])
            check('list_math_division_number()', utils.list_math_division_number(ga, s), [x / s for x in a])
    check('linear_sum()', utils.linear_sum(given), [sum(c) for c in cols])
    check('square_sum()', utils.square_sum(given), sum(x * x for q in data for x in q))
    for k in range(0, n):
        want = sum(sum(sorted(euclid(a, b) for j, b in enumerate(data) if j != i)[:k]) for i, a in enumerate(data)) / (n * k) if k else 0.0
        check('average_neighbor_distance(%d)' % k, utils.average_neighbor_distance(given, k), want)
    check('the data set', plain(given), data)
    require(frozen(given) == before, lambda: 'the data set became %r' % (frozen(given),))
    return (dim, n, kind) if n > 1 else None


def between(case):
    """Distances between two clusters, given as points and as indexes."""
    data, label, kind = case
    data = [list(map(float, q)) for q in data]
    groups = [[i for i, l in enumerate(label) if l == g] for g in (0, 1)]
    if not all(groups):
        raise Skip('empty cluster')
    given = convert(data, kind)
    before = frozen(given)
    Counters.executions += 1
    A, B = ([data[i] for i in g] for g in groups)
    sq = lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b))
    both = A + B
    mean = lambda c: [sum(v) / len(c) for v in zip(*c)]
    spread = lambda c, m: sum(sq(q, m) for q in c)
    want = dict(average_inter_cluster_distance=math.sqrt(sum(sq(a, b) for a in A for b in B) / (len(A) * len(B))),
                average_intra_cluster_distance=math.sqrt(sum(sq(a, b) for a in both for b in both) / (len(both) * (len(both) - 1))),
                variance_increase_distance=spread(both, mean(both)) - spread(A, mean(A)) - spread(B, mean(B)))
    GA, GB = convert(A, kind), convert(B, kind)
    for name, w in want.items():
        f = getattr(utils, name)
        check(name + ' of points', f(GA, GB), w)
        check(name + ' of points, other way', f(GB, GA), w)
        check(name + ' of indexes', f(groups[0], groups[1], given), w)
    require(frozen(given) == before and groups == [[i for i, l in enumerate(label) if l == g] for g in (0, 1)], 'the arguments were changed')
    require(plain(GA) == A and plain(GB) == B, 'the clusters were changed')
    return (len(A), len(B), kind) if len(both) > 2 else None


def ellipse(case):
    (a, b, c), scale = case
    m = numpy.array([[a, b], [b, c]])
    before = m.copy()
    got = utils.calculate_ellipse_description(m, scale)
    Counters.executions += 1
    mid, r = (a + c) / 2, math.sqrt(((a - c) / 2) ** 2 + b * b)
    big, small = mid + r, mid - r
    require((m == before).all(), 'the covariance was changed')
    if small < -1e-12:
        raise Skip('not a covariance')
    if small < 1e-12:
        return None     # degenerate: decided by rounding of the eigenvalue
    angle, width, height = (float(x) for x in got)
    check('width', width, 2 * scale * math.sqrt(big))
    check('height', height, 2 * scale * math.sqrt(small))
    if r > 1e-9:
        v = (math.cos(math.radians(angle)), math.sin(math.radians(angle)))
        check('covariance along the angle', a * v[0] ** 2 + 2 * b * v[0] * v[1] + c * v[1] ** 2, big, 1e-7)
    return ('ellipse', r > 1e-9)


# ---- sequences -----------------------------------------------------------------------------------------------------
def left(case):
    seq, right = case
    data = list(seq)
    got = utils.find_left_element(data, right, lambda x, y: x < y)
    Counters.executions += 1
    check('find_left_element', got, data.index(data[right]))
    require(data == list(seq), 'the data was changed')
    return ('left', data[right] == data[0]) if len(set(data)) > 1 else None


def heavy(case):
    v, = case
    check('heaviside(%r)' % v, utils.heaviside(v), 1.0 if v > 0 else 0.0)
    Counters.executions += 1
    for i in range(100):
        require(color.get_color(i) == color.TITLES[i % len(color.TITLES)], 'color %d' % i)
    require(len(set(color.TITLES)) == len(color.TITLES), 'colors repeat')
    t, r = utils.timedcall(lambda x, y=1: x + y, 3, y=4)
    require(r == 7 and 0 <= t < 60, lambda: 'timedcall: %r' % ((t, r),))
    return ('heaviside', v > 0)


def pulses(active):
    """Complete active runs: they begin after the first step and end before the last one."""
    runs, n = [], len(active)
    t = 0
    while t < n:
        if active[t]:
            e = t
            while e + 1 < n and active[e + 1]:
                e += 1
            runs.append((t, e))
            t = e + 1
        else:
            t += 1
    return [(b, e) for b, e in runs if e < n - 1], [(b, e) for b, e in runs if e < n - 1 and b > 0]


def oscillations(case):
    rows, threshold = case
    dyn = [[(2.0 if x == 1 else threshold if x == 2 else -1.0) for x in r] for r in rows]
    keep = copy.deepcopy(dyn)
    Counters.executions += 1
    for i in range(len(dyn[0])):
        want = len(pulses([r[i] >= threshold for r in dyn])[1])
        got = utils.extract_number_oscillations(dyn, i, threshold)
        require(got == want, lambda: '%d oscillations of %r with threshold %r, expected %d' % (got, [r[i] for r in dyn], threshold, want))
    require(dyn == keep, 'the dynamic was changed')
    return ('oscillations', want) if want else None


def ensembles(case):
    rows, tolerance, ignore = case
    dyn = [[2.0 if x else 0.0 for x in r] for r in rows]
    keep = copy.deepcopy(dyn)
    got = utils.allocate_sync_ensembles(dyn, tolerance, 1.0, ignore)
    Counters.executions += 1
    want, windows = [], []
    for i in range(len(dyn[0])):
        if ignore and i in ignore:
            continue
        runs = pulses([r[i] > 1.0 for r in dyn])[0]
        # the last run that has ended; a run of the first step alone is not an oscillation
        runs = [(b, e) for b, e in runs if e > 0]
        if not runs:
            continue
        b, e = runs[-1]
        begin = max(b - 1, 0)
        middle, half = begin + (e - begin) / 2.0, (e - begin) * tolerance
        for k, (lo, hi) in enumerate(windows):
            if lo < middle < hi:
                want[k].append(i)
                break
        else:
            want.append([i])
            windows.append((middle - half, middle + half))
    require(got == want, lambda: 'ensembles %r, expected %r' % (got, want))
    require(dyn == keep, 'the dynamic was changed')
    return ('ensembles', len(want), tolerance) if len(want) > 1 or any(len(w) > 1 for w in want) else None


# ---- images --------------------------------------------------------------------------------------------------------
@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc-c33-')
    try:
        yield d
    finally:
        shutil.rmtree(d)


TONES = {0: (0, 0, 0), 1: (255, 255, 255), 2: (200, 10, 10), 3: (128, 128, 128), 4: (0, 255, 0), 5: (127, 127, 127)}


def gray(p):
    return float(p[0]) * 0.2989 + float(p[1]) * 0.587 + float(p[2]) * 0.114


def images(case):
    width, height, pixels = case
    image = Image.new('RGB', (width, height))
    image.putdata([TONES[p] for p in pixels])
    Counters.executions += 1
    flat = [list(TONES[p]) for p in pixels]
    with scratch() as d:
        image.save(os.path.join(d, 'x.png'))
        check('read_image()', utils.read_image(os.path.join(d, 'x.png')), flat)
    keep = copy.deepcopy(flat)
    grays = [gray(p) for p in flat]
    check('rgb2gray()', utils.rgb2gray(flat), grays)
    require(flat == keep, 'the pixels were changed')
    dark = [(i % width, i // width) for i, g in enumerate(grays) if g < 128]
    if not dark:
        return None
    box = (min(x for x, _ in dark), min(y for _, y in dark), max(x for x, _ in dark) + 1, max(y for _, y in dark) + 1)
    check('gray_pattern_borders()', utils.gray_pattern_borders(image), box)
    pattern, stretched = utils.stretch_pattern(image)
    require(stretched.size == (width, height) and list(image.getdata()) == [TONES[p] for p in pixels], 'size of the stretched image, or the source was changed')
    inside = [grays[y * width + x] for y in range(box[1], box[3]) for x in range(box[0], box[2])]
    require(len(pattern) == width * height and near(pattern, [gray(p) for p in stretched.getdata()]), lambda: 'pattern %r is not the gray image %r' % (pattern, list(stretched.getdata())))
    if box == (0, 0, width, height):
        check('stretch of a full pattern', pattern, grays)
    if len(set(inside)) == 1:
        check('stretch of an even pattern', pattern, [inside[0]] * (width * height), 0.02)
    return ('image', box) if box != (0, 0, width, height) else ('image', 'full')


# ---- files ---------------------------------------------------------------------------------------------------------
LAYOUTS = {
    'plain': lambda rows: '\n'.join(' '.join(r) for r in rows) + '\n',
    'no last newline': lambda rows: '\n'.join(' '.join(r) for r in rows),
    'tabs': lambda rows: '\n'.join('\t'.join(r) for r in rows) + '\n',
    'crlf': lambda rows: '\r\n'.join(' '.join(r) for r in rows) + '\r\n',
    'blank lines': lambda rows: '\n\n'.join(' '.join(r) for r in rows) + '\n \n\t\n',
    'wide': lambda rows: '\n'.join('   ' + '   '.join(r) + '  ' for r in rows) + '\n\n',
}
NUMBERS = {'0': 0.0, '-1.5': -1.5, '2e3': 2000.0, '+.25': 0.25, '1E-2': 0.01, '7.': 7.0}


def samples(case):
    rows, layout = case
    want = [[NUMBERS[x] for x in r] for r in rows]
    Counters.executions += 1
    with scratch() as d:
        path = os.path.join(d, 'sample.data')
        with open(path, 'w', newline='') as f:
            f.write(LAYOUTS[layout](rows))
        got = utils.read_sample(path)
        require(got == want and all(type(x) is float for r in got for x in r), lambda: 'sample %r, expected %r' % (got, want))
        got = utils.read_sample(path, return_type='numpy')
        require(isinstance(got, numpy.ndarray) and got.tolist() == want, lambda: 'numpy sample %r, expected %r' % (got, want))
        try:
            utils.read_sample(path, return_type='tuple')
            require(False, 'unknown type of result is accepted')
        except ValueError:
            pass
    return (layout, len(rows[0])) if len(rows) > 1 else None


def answers(case):
    labels, last, order = case
    Counters.executions += 1
    with scratch() as d:
        path = os.path.join(d, 'x.answer')
        with open(path, 'w') as f:
            f.write('\n'.join('n' if l < 0 else str(l) for l in labels) + ('\n' if last else ''))
        reader = answer_reader(path)
        want = dict(get_clusters=[[i for i, l in enumerate(labels) if l == k] for k in range(max(labels) + 1)], get_noise=[i for i, l in enumerate(labels) if l < 0])
        want['get_cluster_lengths'] = [len(c) for c in want['get_clusters']]
        for name in order:
            got = getattr(reader, name)()
            require(got == want[name], lambda: '%s() is %r for the labels %r' % (name, got, labels))
    return (max(labels), order[0]) if len(set(labels)) > 1 else None


def graphs(case):
    form, n, edges, extras = case
    edges = [tuple(e) for e in edges]
    adjacency = [[1 if (i, j) in edges or (j, i) in edges else 0 for j in range(n)] for i in range(n)]
    lines = []
    if 'comment' in extras:
        lines += ['c a comment', 'p edge %d %d' % (n, len(edges))]
    if 'space' in extras:
        lines += ['r %d.5 -%d' % (i, i) for i in range(n)]
    vectors = [[j for j in range(n) if adjacency[i][j]] for i in range(n)]
    if form == 'm':
        lines += ['m ' + ' '.join(str(x) for x in r) for r in adjacency]
    elif form == 'v':
        lines += ['v ' + ' '.join(str(x) for x in r) for r in vectors]
    else:
        if any(not v for v in vectors):
            raise Skip('edge lists do not name isolated vertices')
        lines += ['e %d %d' % (i + 1, j + 1) for i, j in edges]
    if 'blank' in extras:
        lines = [x for l in lines for x in (l, '')]
    Counters.executions += 1
    with scratch() as d:
        path = os.path.join(d, 'x.grpr')
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        with contextlib.redirect_stdout(io.StringIO()):
            g = read_graph(path)
    want = vectors if form == 'v' else adjacency
    require(plain(g.data) == want, lambda: 'graph %r, expected %r' % (g.data, want))
    require(len(g) == n, lambda: '%d vertices' % len(g))
    require(g.type_graph_descr == (type_graph_descr.GRAPH_VECTOR_DESCR if form == 'v' else type_graph_descr.GRAPH_MATRIX_DESCR), lambda: 'type %r' % g.type_graph_descr)
    require(g.space_description == ([[i + 0.5, -float(i)] for i in range(n)] if 'space' in extras else None), lambda: 'coordinates %r' % (g.space_description,))
    require(g.comments == (' a comment\n edge %d %d\n' % (n, len(edges)) if 'comment' in extras else ''), lambda: 'comments %r' % (g.comments,))
    require(graph(adjacency).type_graph_descr == type_graph_descr.GRAPH_MATRIX_DESCR, lambda: 'matrix %r is taken for a vector of neighbours' % (adjacency,))
    if any(len(v) != n for v in vectors):
        require(graph(vectors).type_graph_descr == type_graph_descr.GRAPH_VECTOR_DESCR, lambda: 'vector %r is taken for a matrix' % (vectors,))
    return (form, n) if edges else None


def bad_graphs(case):
    text, = case
    Counters.executions += 1
    with scratch() as d:
        path = os.path.join(d, 'x.grpr')
        with open(path, 'w') as f:
            f.write(text)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                g = read_graph(path)
            except NameError:
                return ('refused', text[0])
    require(False, lambda: 'accepted: %r' % (g.data,))


# ---- data generator ------------------------------------------------------------------------------------------------
def generated(case):
    clusters, dim, sizes, centers, width = case
    sizes_list = sizes if isinstance(sizes, list) else [sizes] * clusters
    widths = width if isinstance(width, list) else [width] * clusters
    drawn = []

    def gauss(mu, sigma):
        drawn.append((mu, sigma))
        return mu + sigma * (len(drawn) % 5 - 2)
    import random
    real, random.gauss = random.gauss, gauss
    try:
        arguments = copy.deepcopy((sizes, centers, width))
        gen = data_generator(clusters, dim, sizes, centers, width)
        if centers is None:
            require(len(drawn) == clusters * dim, 'amount of draws for centers')
            made = [[drawn[i * dim + k][0] + drawn[i * dim + k][1] * ((i * dim + k + 1) % 5 - 2) for k in range(dim)] for i in range(clusters)]
            require(all(drawn[i * dim + k] == (i * max(widths) * 4.0, widths[i] / 2.0) for i in range(clusters) for k in range(dim)), lambda: 'centers drawn around %r' % drawn)
        else:
            made = centers
        for repeat in range(2):
            drawn.clear()
            got = gen.generate()
            Counters.executions += 1
            require(len(got) == sum(sizes_list) and all(len(q) == dim for q in got), lambda: '%d points for sizes %r' % (len(got), sizes))
            owner = [c for c in range(clusters) for _ in range(sizes_list[c])]
            want = [(made[c][k], widths[c] / 2.0) for c in owner for k in range(dim)]
            check('centers and widths of the draws', [list(x) for x in drawn], [list(x) for x in want])
            check('points', [x for q in got for x in q], [mu + s * ((i + 1) % 5 - 2) for i, (mu, s) in enumerate(want)])
        require((sizes, centers, width) == arguments, 'the arguments were changed')
    finally:
        random.gauss = real
    return (clusters, dim) if clusters > 1 else None


# ---- C++ -----------------------------------------------------------------------------------------------------------
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(build.harness(build.ensure(), 'util'))
        _lib.mc_neighbours.restype = ctypes.c_double
    return _lib


def D(values):
    return (ctypes.c_double * max(1, len(values)))(*values)


def vectors(case):
    a, b, s = case
    n = len(a)
    out = D([0.0] * 16)
    Counters.executions += 1

    def linalg(op):
        k = lib().mc_linalg(op, D(a), D(b), n, ctypes.c_double(s), out)
        return list(out)[:k]
    check('subtract', linalg(0), [x - y for x, y in zip(a, b)])
    check('subtract number', linalg(1), [x - s for x in a])
    check('multiply', linalg(2), [x * y for x, y in zip(a, b)])
    check('multiply number', linalg(3), [x * s for x in a])
    if all(b):
        check('divide', linalg(4), [x / y for x, y in zip(a, b)])
    check('divide number', linalg(5), [x / s for x in a])
    check('sum', linalg(6), [sum(a)])
    if len(a) == len(b) == 2:
        m = list(a) + list(b) + [x + y for x, y in zip(a, b)]
        rows = [list(a), list(b), [x + y for x, y in zip(a, b)]]
        k = lib().mc_matrix(0, D(m), 3, 2, D(a), 2, out)
        check('multiply matrix', list(out)[:k], [x * y for r in rows for x, y in zip(r, a)])
        k = lib().mc_matrix(1, D(m), 3, 2, D(a), 2, out)
        check('sum of columns', list(out)[:k], [sum(c) for c in zip(*rows)])
        k = lib().mc_matrix(2, D(m), 3, 2, D(a), 2, out)
        check('sum of rows', list(out)[:k], [sum(r) for r in rows])
    return ('vectors', n) if n > 1 else None


def statistics(case):
    a, = case
    n = len(a)
    out = D([0.0] * max(16, n))
    Counters.executions += 1

    def stats(op):
        k = lib().mc_stats(op, D(a), n, out)
        return list(out)[:k]
    mean = sum(a) / n
    check('mean', stats(0), [mean])
    if n > 1:
        var = sum((x - mean) ** 2 for x in a) / (n - 1)
        check('variance', stats(1), [var])
        check('deviation', stats(2), [math.sqrt(var)])
    check('density', stats(3), [math.exp(-x * x / 2) / math.sqrt(2 * math.pi) for x in a])
    phi = lambda x: 0.5 * math.erfc(-x / math.sqrt(2))
    check('distribution', stats(4), [phi(x) for x in a])
    check('critical values', stats(6), [v / (1.0 + 4.0 / n - 25.0 / n / n) for v in (0.576, 0.656, 0.787, 0.918, 1.092)])
    require(all(h == (x > 0) for x, h in zip(a, stats(7)) if x != 0), lambda: 'heaviside of %r: %r' % (a, stats(7)))    # both values are in use at zero
    if n > 1 and var > 0:
        z = sorted((x - mean) / math.sqrt(var) for x in a)
        want = -n - sum((2 * i + 1) * (math.log(phi(z[i])) + math.log(1 - phi(z[n - 1 - i]))) for i in range(n)) / n
        check('Anderson-Darling statistic', stats(5), [want], 1e-7)
    s = sorted(a)
    require(lib().mc_left(D(s), n) == s.index(s[-1]), lambda: 'leftmost element equal to the last of %r' % (s,))
    return ('statistics', n) if n > 1 else None


def neighbours(case):
    data, = case
    n = len(data)
    Counters.executions += 1
    flat = D([x for q in data for x in q])
    for k in range(0, n):
        want = sum(sum(sorted(math.dist(a, b) for j, b in enumerate(data) if j != i)[:k]) for i, a in enumerate(data)) / (n * k) if k else 0.0
        check('average_neighbor_distance(%d)' % k, lib().mc_neighbours(flat, n, len(data[0]), k), want)
    return ('neighbours', n) if n > 1 else None


def families(tier):
    build.harness(build.ensure(), 'util')
    deep = tier == 'thorough'

    def datas(step):
        yield [[1.5]]
        yield [[1.0, -2.0]]
        for n in (2, 3, 4):
            yield from dom.line(n, [0.0, -1.0, 2.5])
        yield from dom.stride(dom.plane(2, [0.0, 1.0, -2.5]), 1)
        yield from dom.stride(dom.plane(3, [0.0, 1.0, -2.5]), step)
        yield from dom.stride(dom.plane_sets(4, [0.0, 1.0, -2.5]), step)
        yield from ([list(q) for q in c] for c in dom.stride(itertools.product(itertools.product((0.0, 2.0, -1.0), repeat=3), repeat=2), step))

    def geometry_cases():
        for data in datas(1 if deep else 5):
            for kind in KINDS:
                yield data, kind

    def between_cases():
        for data in datas(1 if deep else 3):
            if len(data) > 1:
                for label in itertools.product((0, 1), repeat=len(data)):
                    for kind in KINDS:
                        yield data, label, kind

    def sequence_cases():
        for n in range(1, 8 if deep else 7):
            for c in itertools.combinations_with_replacement((0, 1, 2.5, 7), n):
                for r in range(n):
                    yield c, r

    def oscillation_cases():
        for n in range(1, 10 if deep else 8):
            for first in (0, 1):
                for c in itertools.product((0, 1, 2), repeat=n - 1):
                    yield [[first]] + [[x] for x in c], 0.5
        for n in range(1, 5):
            for c in itertools.product(itertools.product((0, 1), repeat=2), repeat=n):
                yield [list(r) for r in c], 1.0

    def ensemble_cases():
        for n in range(1, 7 if deep else 6):
            for c in itertools.product(itertools.product((0, 1), repeat=2), repeat=n):
                for tol in (0.1, 0.6):
                    yield [list(r) for r in c], tol, None
        for n in (3, 4):
            for c in itertools.product(itertools.product((0, 1), repeat=3), repeat=n):
                for tol, ignore in ((0.1, None), (1.1, None), (0.1, [1]), (0.3, [0, 2])):
                    yield [list(r) for r in c], tol, ignore
        for c in dom.stride(itertools.product((0, 1), repeat=18), 1 if deep else 37):
            yield [list(c[i::9]) for i in range(9)], 0.3, None

    def image_cases():
        for w, h in ((1, 1), (2, 1), (1, 2), (1, 3), (2, 2)):
            for c in itertools.product(TONES, repeat=w * h):
                yield w, h, c
        for w, h in ((3, 2), (2, 3), (3, 3)):
            for c in dom.stride(itertools.product((0, 1, 2) if w * h < 9 else (0, 1), repeat=w * h), 1 if deep else 3):
                yield w, h, c
        for x, y in itertools.product(range(6), range(5)):
            yield 6, 5, tuple(0 if (i % 6 == x or i // 6 == y) and (i % 6 >= x) else 1 for i in range(30))

    def sample_cases():
        for dim in (1, 2, 3):
            for n in (1, 2, 3):
                names = list(NUMBERS)
                k = dim * n
                for code in range(0, 6 ** k, (1, 1, 1, 7, 61, 61, 1009, 7919, 7919, 300007)[k]):
                    c = [names[code // 6 ** i % 6] for i in range(k)]
                    for layout in LAYOUTS:
                        yield [list(c[i * dim:(i + 1) * dim]) for i in range(n)], layout

    def answer_cases():
        for n in range(1, 6 if deep else 5):
            for c in itertools.product((-1, 0, 1, 2), repeat=n):
                if set(range(max(c) + 1)) <= set(c):
                    for last in (True, False):
                        for order in (('get_clusters', 'get_noise', 'get_cluster_lengths'), ('get_noise', 'get_clusters', 'get_clusters'), ('get_cluster_lengths', 'get_noise', 'get_clusters')):
                            yield c, last, order

    def graph_cases():
        for n in (1, 2, 3, 4):
            pairs = list(itertools.combinations(range(n), 2))
            for size in range(len(pairs) + 1):
                for e in itertools.combinations(pairs, size):
                    for form in 'mve':
                        for extras in ((), ('comment', 'space'), ('space', 'blank'), ('comment', 'blank')):
                            yield form, n, [tuple(reversed(x)) if k % 2 else x for k, x in enumerate(e)], extras

    def bad_cases():
        bodies = {'m': 'm 0 1\nm 1 0\n', 'v': 'v 1\nv 0\n', 'e': 'e 1 2\n'}
        for a, b in itertools.permutations(bodies, 2):
            yield bodies[a] + bodies[b],
        for a in bodies:
            yield bodies[a] + 'x 1 2\n',
            yield 'r 1 2 3\n' + bodies[a],
            yield 'r 1 2\n' + bodies[a],
            yield bodies[a] + 'r 1\nr 2\n',
            yield 'r 1 2\nr 2 2\nr 3 3\n' + bodies[a],
        yield 'c nothing\n',

    def generator_cases():
        for clusters in (1, 2, 3):
            for dim in (1, 2, 3):
                for sizes in [0, 1, 3] + [list(s) for s in itertools.product((0, 1, 2), repeat=clusters)]:
                    for centers in (None, [[10.0 * i + k for k in range(dim)] for i in range(clusters)]):
                        for width in [1.0, 2.5, [0.5 + i for i in range(clusters)]]:
                            yield clusters, dim, sizes, centers, width

    def vector_cases():
        grid = (0.0, 1.5, -2.0, 4.25)
        for n in (1, 2, 3):
            for a in itertools.product(grid, repeat=n):
                for b in itertools.product(grid, repeat=n):
                    for s in (2.0, -0.5):
                        yield a, b, s

    def statistic_cases():
        for n in range(1, 6 if deep else 5):
            for c in itertools.product((0.0, 1.0, -0.75, 2.5), repeat=n):
                yield c,
        for k in range(60):
            yield tuple(((i * i * 0.618 + i * 1.7 + k) % 1.0) * (k + 1) for i in range(5 + k)),

    return [Family('geometry', geometry_cases, geometry), Family('clusters', between_cases, between),
            Family('ellipse', lambda: (((a, b, c), s) for a in (0.0, 1.0, 2.5, 9.0) for c in (0.0, 1.0, 2.5, 9.0) for b in (0.0, 0.5, -0.75, 2.0, -3.0) for s in (1.0, 2.0)), ellipse),
            Family('leftmost', sequence_cases, left), Family('scalars', lambda: ((v,) for v in (-2.0, -0.0, 0.0, 1e-300, 0.5, 3, -1)), heavy),
            Family('oscillations', oscillation_cases, oscillations), Family('ensembles', ensemble_cases, ensembles), Family('images', image_cases, images),
            Family('samples', sample_cases, samples), Family('answers', answer_cases, answers), Family('graphs', graph_cases, graphs),
            Family('refused graphs', bad_cases, bad_graphs), Family('generator', generator_cases, generated), Family('core vectors', vector_cases, vectors),
            Family('core statistics', statistic_cases, statistics), Family('core neighbours', lambda: ((d,) for d in datas(1)), neighbours)]
