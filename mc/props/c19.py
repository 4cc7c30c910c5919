"""C19 Metrics: formulas, axioms, agreement of the list, numpy and C++ evaluations."""
import itertools

import numpy

from mc import dom, geo
from mc.engine import Counters, Family, require
from mc.refmetric import formula, make

from pyclustering.utils.metric import distance_metric, type_metric
from pyclustering.core.metric_wrapper import metric_wrapper

LEVEL = 'exploration'
RULE = ('every pair of points of the grids x metric x evaluation (list, numpy vector, numpy matrix on either side, C++ '
        'core), evaluated in both orders; non-trivial: the points differ')
ASSUMPTIONS = ['relative tolerance 1e-9 between evaluations']


def expect(value, want, what):
    require(not isinstance(value, complex) and geo.close(float(value), want, 1e-9, 1e-12),
            lambda: '%s gives %r, the formula gives %r' % (what, value, want))


KEY = 'minkowski-list-signed-terms'


def signed_terms(name, arg, a, b):
    """The value of the list version of Minkowski with an odd or fractional degree, pinned by the existing tests."""
    if name != 'MINKOWSKI' or arg is None or arg % 2 == 0:
        return None
    total = 0.0
    for x, y in zip(a, b):
        total += (x - y) ** arg
    return total ** (1.0 / arg)


def expect_list(value, want, name, arg, a, b, what):
    """True when the value is the recorded known finding instead of the formula."""
    known = signed_terms(name, arg, a, b)
    if known is not None and abs(known - want) > 1e-9 and abs(value - known) <= 1e-9 * max(1.0, abs(known)):
        return True
    expect(value, want, what)
    return False


def run_pair(case):
    name, arg, a, b, how = case
    want = formula(name, a, b, arg)
    known = False
    if how == 'list':
        m = make(name, arg)
        for p, q in ((a, b), (b, a), (tuple(a), tuple(b))):
            known |= expect_list(m(p, q), want, name, arg, p, q, 'list evaluation')
        expect(m(a, a), 0.0, 'list evaluation of equal points')
    elif how == 'numpy':
        m = make(name, arg, True)
        x, y = numpy.array(a, dtype=float), numpy.array(b, dtype=float)
        expect(m(x, y), want, 'numpy evaluation')
        expect(m(y, x), want, 'numpy evaluation (swapped)')
        expect(m(x, x), 0.0, 'numpy evaluation of equal points')
        if all(int(v) == v for v in a + b):
            expect(m(numpy.array(a, dtype=int), numpy.array(b, dtype=int)), want, 'numpy evaluation of integers')
        for r in (m(numpy.array([a, b, a], dtype=float), y), m(x, numpy.array([b, a, b], dtype=float)),
                  m(numpy.array([a, b, a], dtype=float), numpy.array([b, b, b], dtype=float))):
            require(len(r) == 3, 'matrix evaluation has a wrong shape')
            expect(r[0], want, 'numpy matrix evaluation')
            expect(r[2], want, 'numpy matrix evaluation')
            expect(r[1], 0.0, 'numpy matrix evaluation')
    elif how == 'cpp':
        m = metric_wrapper.create_instance(make(name, arg))
        expect(m(a, b), want, 'C++ evaluation')
        expect(m(b, a), want, 'C++ evaluation (swapped)')
        expect(m(a, a), 0.0, 'C++ evaluation of equal points')
    elif how == 'history':
        # switching the numpy mode on and off, in any order, never changes what the metric computes
        for ops in itertools.product((0, 1), repeat=3):
            m = make(name, arg)
            for o in ops:
                if o:
                    m.enable_numpy_usage()
                else:
                    m.disable_numpy_usage()
                x, y = (numpy.array(a, dtype=float), numpy.array(b, dtype=float)) if o else (a, b)
                if o:
                    expect(m(x, y), want, 'evaluation after %r' % (ops,))
                else:
                    known |= expect_list(m(x, y), want, name, arg, x, y, 'evaluation after %r' % (ops,))
            require(m.get_type() == type_metric[name], 'the type of the metric changed')
            Counters.transitions += 3
    require(not known, 'the list version of Minkowski of an odd or fractional degree keeps the sign of its terms', KEY)
    return a != b


def run_gower_data(case):
    data, a, b = case
    rng = [max(c) - min(c) for c in zip(*data)]
    want = formula('GOWER', a, b, rng)
    for given in (data, numpy.array(data, dtype=float)):
        for np_first in (False, True):
            m = distance_metric(type_metric.GOWER, data=given, numpy_usage=np_first)
            if np_first:
                expect(m(numpy.array(a, dtype=float), numpy.array(b, dtype=float)), want, 'numpy evaluation')
                m.disable_numpy_usage()
            expect(m(a, b), want, 'list evaluation')
            m.enable_numpy_usage()
            expect(m(numpy.array(a, dtype=float), numpy.array(b, dtype=float)), want, 'numpy evaluation')
            expect(metric_wrapper.create_instance(m)(a, b), want, 'C++ evaluation')
    return a != b


def run_user(case):
    a, b, how = case
    seen = []

    def f(p, q):
        seen.append((list(map(float, p)), list(map(float, q))))
        return sum(abs(x - y) * (k + 1) for k, (x, y) in enumerate(zip(p, q)))
    m = distance_metric(type_metric.USER_DEFINED, func=f)
    want = sum(abs(x - y) * (k + 1) for k, (x, y) in enumerate(zip(a, b)))
    if how == 'cpp':
        w = metric_wrapper.create_instance(m)
        del m
        got = [w(a, b) for _ in range(2)]
    else:
        if how == 'numpy':
            m.enable_numpy_usage()
        got = [m(a, b) for _ in range(2)]
    require(all(geo.close(g, want) for g in got), 'user-defined metric gives %r instead of %r' % (got, want))
    require(seen == [(list(map(float, a)), list(map(float, b)))] * 2,
            lambda: 'the user function was called with %r for %r and %r' % (seen, a, b))
    return a != b


def run_unknown(case):
    kind = case[0]
    try:
        if kind == 'type':
            distance_metric(case[1])
        else:
            distance_metric(type_metric.GOWER)
    except ValueError:
        return 'refused'
    require(False, 'an invalid metric was accepted')


NAMES = [('EUCLIDEAN', None), ('EUCLIDEAN_SQUARE', None), ('MANHATTAN', None), ('CHEBYSHEV', None), ('MINKOWSKI', None),
         ('MINKOWSKI', 1), ('MINKOWSKI', 2), ('MINKOWSKI', 3), ('MINKOWSKI', 4), ('MINKOWSKI', 5), ('MINKOWSKI', 1.5),
         ('CANBERRA', None), ('CHI_SQUARE', None)]
RANGES = {1: [[2.0], [0.0], [0.5]], 2: [[2.0, 4.0], [0.0, 3.0], [3.0, 0.0]], 3: [[1.0, 2.0, 4.0], [2.0, 0.0, 8.0]],
          4: [[1.0, 2.0, 4.0, 8.0], [0.0, 0.0, 1.0, 2.0]]}


def pairs(dim, grid):
    pts = [list(p) for p in itertools.product(grid, repeat=dim)]
    for a in pts:
        for b in pts:
            for name, arg in NAMES:
                for how in ('list', 'numpy', 'cpp'):
                    yield name, arg, a, b, how
            for r in RANGES[dim]:
                for how in ('list', 'numpy', 'cpp'):
                    yield 'GOWER', r, a, b, how


def families(tier):
    deep = tier == 'thorough'

    def d1():
        yield from pairs(1, [0.0, 1.0, -1.0, 2.0, -2.5, 3.25, 0.125, 100.0, -7.0, 1e-3])

    def d2():
        yield from pairs(2, [0.0, 1.0, -1.0, 2.5, -3.0])

    def d3():
        yield from pairs(3, [0.0, 1.0, -2.5, 4.0] if deep else [0.0, 1.0, -2.5])

    def d4():
        grid = [0.0, 1.5, -2.0] if deep else [0.0, -1.5]
        yield from pairs(4, grid)

    def history():
        for dim, grid in ((1, [0.0, 1.0, -2.0]), (2, [0.0, 1.0, -3.0])):
            pts = [list(p) for p in itertools.product(grid, repeat=dim)]
            for a in pts:
                for b in pts:
                    for name, arg in NAMES + [('GOWER', r) for r in RANGES[dim]]:
                        yield name, arg, a, b, 'history'

    def gower():
        for data in dom.plane_sets(3, [0.0, 1.0, -2.0]):
            for a in data:
                for b in data:
                    yield data, a, b
        for data in dom.line_sets(3, [0.0, 1.0, 5.0, -2.0]):
            for a in data:
                for b in data:
                    yield data, a, b

    def user():
        for dim, grid in ((1, [0.0, 1.0, -2.5]), (2, [0.0, 1.0, -2.5]), (3, [0.0, 4.0])):
            pts = [list(p) for p in itertools.product(grid, repeat=dim)]
            for a in pts:
                for b in pts:
                    for how in ('list', 'numpy', 'cpp'):
                        yield a, b, how

    def unknown():
        yield 'gower',
        for t in (8, 9, 100, -1, 999, 1001):
            yield 'type', t

    return [Family('points_1d', d1, run_pair), Family('points_2d', d2, run_pair), Family('points_3d', d3, run_pair),
            Family('points_4d', d4, run_pair), Family('mode_histories', history, run_pair),
            Family('gower_data', gower, run_gower_data), Family('user_defined', user, run_user),
            Family('invalid', unknown, run_unknown)]
