"""C11 BSAS, MBSAS, TTSAS: sequential schemes."""
import math

from mc import dom, geo
from mc.engine import Counters, Family, require
from mc.refmetric import instance, reference

from pyclustering.cluster.bsas import bsas
from pyclustering.cluster.mbsas import mbsas
from pyclustering.cluster.ttsas import ttsas

LEVEL = 'exploration'
RULE = ('every sequence of points of the grids (all orders) x scheme x thresholds x cluster limit x metric x implementation; '
        'the result has to be one of those the scheme allows when tied choices are taken either way (explored exhaustively); '
        'non-trivial: at least two clusters, one with two points')
ASSUMPTIONS = ['a tie between nearest representatives, or a threshold decision within 1e-9 on an inexact representative, may go either way',
               'the second TTSAS threshold is not smaller than the first']
EPS = 1e-9
CAP = 4000


KEY = 'core-weight-of-representatives'


class State:
    """`recorded`: weigh the new point by the number of clusters (the known finding of the core) instead of the cluster size."""
    __slots__ = ('clusters', 'reps', 'recorded')

    def __init__(self, clusters=(), reps=(), recorded=False):
        self.clusters, self.reps, self.recorded = clusters, reps, recorded

    def open(self, i, p):
        return State(self.clusters + ((i,),), self.reps + (tuple(float(x) for x in p),), self.recorded)

    def join(self, k, i, p):
        c = self.clusters[k] + (i,)
        n = len(self.clusters) if self.recorded else len(c)
        r = tuple(((n - 1) * a + b) / n for a, b in zip(self.reps[k], p))
        return State(self.clusters[:k] + (c,) + self.clusters[k + 1:], self.reps[:k] + (r,) + self.reps[k + 1:], self.recorded)


def exact(v):
    return all(float(x * 4096).is_integer() for x in v)


def options(state, p, metric):
    """[(cluster, distance)] of the nearest representatives, tied ones included."""
    d = [metric(p, r) for r in state.reps]
    m = min(d)
    return [(k, x) for k, x in enumerate(d) if x <= m + EPS * max(1.0, m)]


def over(state, k, d, threshold, p):
    """Possible answers to d > threshold."""
    if abs(d - threshold) > EPS * max(1.0, threshold) or (exact(state.reps[k]) and exact(p) and exact([d, threshold])):
        return (d > threshold,)
    return (False, True)


def dedupe(states):
    out = {}
    for s in states:
        out.setdefault(s.clusters, s)
    if len(out) > CAP:
        raise OverflowError
    return list(out.values())


def ref_bsas(data, amount, t, metric, recorded):
    states = [State(recorded=recorded).open(0, data[0])]
    for i in range(1, len(data)):
        nxt = []
        for s in states:
            for k, d in options(s, data[i], metric):
                for o in over(s, k, d, t, data[i]):
                    nxt.append(s.open(i, data[i]) if o and len(s.clusters) < amount else s.join(k, i, data[i]))
        states = dedupe(nxt)
    return states


def ref_mbsas(data, amount, t, metric, recorded):
    states = {((0,), ()): State(recorded=recorded).open(0, data[0])}
    for i in range(1, len(data)):
        nxt = {}
        for (opened, left), s in states.items():
            for k, d in options(s, data[i], metric):
                for o in over(s, k, d, t, data[i]):
                    if o and len(s.clusters) < amount:
                        nxt[(opened + (i,), left)] = s.open(i, data[i])
                    else:
                        nxt[(opened, left + (i,))] = s
        states = nxt
    final = []
    for (_, left), s in states.items():
        cur = [s]
        for i in left:
            cur = dedupe([c.join(k, i, data[i]) for c in cur for k, _ in options(c, data[i], metric)])
        final += cur
    return dedupe(final)


def ref_ttsas(data, t1, t2, metric, recorded):
    n = len(data)
    final = []
    todo = [(State(recorded=recorded), frozenset(range(n)), True)]
    steps = 0
    while todo:
        s, left, force = todo.pop()
        steps += 1
        if steps > CAP:
            raise OverflowError
        if not left:
            final.append(s)
            continue
        order = sorted(left)
        cur = [(s, left, False)]
        if force:
            cur = [(s.open(order[0], data[order[0]]), left - {order[0]}, True)]
            order = order[1:]
        for i in order:
            nxt = []
            for st, lf, changed in cur:
                for k, d in options(st, data[i], metric):
                    for far in over(st, k, d, t1, data[i]):
                        if not far:
                            nxt.append((st.join(k, i, data[i]), lf - {i}, True))
                        else:
                            for f2 in over(st, k, d, t2, data[i]):
                                nxt.append((st.open(i, data[i]), lf - {i}, True) if f2 else (st, lf, changed))
            seen = {}
            for x in nxt:
                seen[(x[0].clusters, x[2])] = x
            cur = list(seen.values())
            if len(cur) > CAP:
                raise OverflowError
        todo += [(st, lf, not changed) for st, lf, changed in cur]
    return dedupe(final)


_memo = {}


def expected(case, metric, recorded):
    """{clusters: [representatives]} of all the results allowed, None when there are too many."""
    scheme, data, a, t, mname, marg, _, _ = case
    key = (scheme, tuple(map(tuple, data)), a, t, mname, str(marg), recorded)
    if key not in _memo:
        if len(_memo) > 300:
            _memo.clear()
        out = {}
        try:
            for s in {'bsas': ref_bsas, 'mbsas': ref_mbsas, 'ttsas': ref_ttsas}[scheme](data, a, t, metric, recorded):
                out.setdefault(s.clusters, []).append(s.reps)
        except OverflowError:
            out = None
        _memo[key] = out
    return _memo[key]


def run(case):
    scheme, data, a, t, mname, marg, ccore, kind = case
    metric = reference(mname, marg)
    kw = {} if mname == 'EUCLIDEAN' and len(data) % 2 else dict(metric=instance(mname, marg))
    given = dom.numpyfy(data, kind)
    if scheme == 'ttsas':
        o = ttsas(given, a, t, ccore, **kw)
    else:
        o = (bsas if scheme == 'bsas' else mbsas)(given, a, t, ccore, **kw)
    o.process()
    cl, _ = geo.partition(o.get_clusters(), len(data))
    reps = [list(map(float, r)) for r in o.get_representatives()]
    require(len(reps) == len(cl), lambda: '%d representatives of %d clusters' % (len(reps), len(cl)))
    if scheme != 'ttsas':
        require(len(cl) <= a, lambda: '%d clusters, at most %d were allowed' % (len(cl), a))
    got = tuple(tuple(c) for c in cl)

    def means_off():
        for c, r in zip(cl, reps):
            mean = [sum(data[i][d] for i in c) / len(c) for d in range(len(data[0]))]
            if not geo.close_vec(r, mean, 1e-7):
                return 'representative %r of cluster %r, whose mean is %r' % (r, c, mean)
        return None
    want = expected(case, metric, False)
    if want is None:
        Counters.notes['too_many_ties'] = Counters.notes.get('too_many_ties', 0) + 1
        return None
    wrong = means_off()
    if got not in want:
        wrong = '%s gives %r, the scheme gives %r' % (scheme, cl, sorted(want)[:3])
    if wrong and ccore and mname != 'USER_DEFINED':
        recorded = expected(case, metric, True)
        if recorded and got in recorded:
            same = any(all(geo.close_vec(r, list(x), 1e-7) for r, x in zip(reps, rr)) for rr in recorded[got])
            require(not same, wrong + ' (new points are weighted by the number of clusters)', KEY)
    require(not wrong, wrong)
    return (scheme, geo.shape(cl)) if len(cl) > 1 and any(len(c) > 1 for c in cl) else None


BASIC = [('EUCLIDEAN', None)]
ALL = BASIC + [('EUCLIDEAN_SQUARE', None), ('MANHATTAN', None), ('CHEBYSHEV', None), ('MINKOWSKI', 4), ('CANBERRA', None), ('CHI_SQUARE', None), ('USER_DEFINED', None)]


def cross(datas, amounts, ts, pairs, metrics=BASIC, kinds=('list',)):
    for data in datas:
        for mn, ma in metrics:
            for kind in kinds:
                for ccore in (False, True):
                    for t in ts:
                        for a in amounts:
                            yield 'bsas', data, a, t, mn, ma, ccore, kind
                            yield 'mbsas', data, a, t, mn, ma, ccore, kind
                    for t1, t2 in pairs:
                        yield 'ttsas', data, t1, t2, mn, ma, ccore, kind


def families(tier):
    deep = tier == 'thorough'
    g = [0.0, 1.0, 3.0, 7.0]

    def lines():
        for n in (1, 2, 3, 4):
            yield from cross(dom.line(n, g), (1, 2, 3), (0.0, 1.0, 2.5), [(0.0, 1.0), (1.0, 3.0), (1.5, 1.5), (2.0, 5.0)])
        yield from cross(dom.line(5, g if deep else [0.0, 2.0, 5.0]), (1, 2, 4), (1.0, 2.0), [(1.0, 2.5), (2.0, 4.0), (0.5, 9.0)])
        perms = list(dom.distinct(6, [[x] for x in (0.0, 1.0, 2.5, 4.5, 8.0, 9.25, 14.0)]))
        shuffled = [[d[(i * 5 + s) % 6] for i in range(6)] for d in perms for s in range(6)] + [[d[i] for i in o] for d in perms for o in ((3, 0, 5, 1, 4, 2), (5, 3, 1, 0, 2, 4), (2, 4, 0, 5, 3, 1))]
        yield from cross(shuffled, (2, 3, 5), (1.5, 3.0), [(1.0, 2.0), (2.0, 5.0), (1.0, 12.0)])

    def planes():
        yield from cross(dom.plane(3, [0.0, 1.0, 4.0]), (1, 2, 3), (1.0, 3.5), [(1.0, 3.0), (2.0, 9.0)])
        d5 = [[d[i] for i in o] for d in dom.distinct(5, [[x, y] for x in (0.0, 1.0, 3.5) for y in (0.0, 2.0, 5.0)]) for o in ((0, 1, 2, 3, 4), (3, 1, 4, 0, 2))]
        yield from cross(d5, (2, 3), (1.5, 3.0), [(1.5, 2.5), (2.0, 5.0)])

    def metrics():
        data = list(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 5.0) for y in (0.5, 2.0, 3.0)]))
        yield from cross(data if deep else data[::2], (2, 3), (0.4, 2.0), [(0.4, 1.3), (2.0, 4.0)], ALL)

    def kinds():
        for n in (2, 3):
            yield from cross(dom.line(n, [-2, 0, 1]), (1, 2), (1.0,), [(1.0, 2.0)], BASIC, ('list', 'tuple', 'numpy', 'int'))
        yield from cross(dom.distinct(4, [[x, 2 * y, z] for x in (0, 1) for y in (0, 1) for z in (0, 3)]), (2, 3), (1.2,), [(1.2, 2.5)], BASIC, ('list', 'numpy', 'int'))

    def sizes():
        for n in range(7, 80 if deep else 45):
            for d in (dom.lattice(n), [[float((i * i * 3) % 101)] for i in range(n)]):
                yield from cross([d], (1, 2, 5, 9, 100), (0.5, 2.0, 5.0), [(0.5, 2.0), (2.0, 6.0), (4.0, 4.0), (0.1, 50.0)])

    def magnitudes():
        for f, o in dom.MAGNITUDES:
            yield from cross(dom.scaled(dom.line(4, [0.0, 1.0, 2.5, 4.0]), f, o), (1, 2, 5), (1.5 * f,), [(1.0 * f, 2.0 * f), (1.5 * f, 3.0 * f)], [('EUCLIDEAN', None)])
            yield from cross(dom.scaled(dom.distinct(4, [[x, y] for x in (0.0, 1.0, 4.0) for y in (0.0, 2.0, 3.0)]), f, o), (2, 3), (2.5 * f,), [(1.0 * f, 2.5 * f)], [('EUCLIDEAN', None)])

    return [Family('line', lines, run), Family('plane', planes, run), Family('metrics', metrics, run), Family('kinds', kinds, run),
            Family('scaled_sizes', sizes, run),
            Family('magnitudes', magnitudes, run)]
