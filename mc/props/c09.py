"""C09 CLARANS."""
import itertools

from mc import chance
from mc.engine import Family, require

from pyclustering.cluster.clarans import clarans

LEVEL = 'model_checking'
RULE = ('every small data set (coincident points, ties, every point a medoid) x number of clusters x numbers of local searches and '
        'neighbours: every sequence of random answers is executed on the real code (start medoids are observed; after a rejected '
        'answer the next value of the range is tried), the result is compared with the states which a reference search by improving exchanges can end in; '
        'longer searches with a bounded number of non-default answers; states are the executions, transitions the answers; non-trivial: '
        'the search has moved')
ASSUMPTIONS = ['start medoids are drawn by random.sample and a rejected candidate is drawn again from the same range',
               'distances are exact in floating point']


class Tape(chance.Tape):
    """A range drawn again at once is a retry: the next value is answered, which is not a choice (it is one of the first answer)."""

    def reset(self, prefix):
        super().reset(prefix)
        self.streak = None
        self.starts = []

    def randint(self, a, b):
        if self.streak is None or self.streak[:2] != (a, b) or len(self.streak[2]) == b - a + 1:
            self.streak = (a, b, [])
        if self.streak[2]:
            x = min(set(range(a, b + 1)) - set(self.streak[2]), key=lambda v: (v - self.streak[2][-1]) % (b - a + 1))
        else:
            x = a + self.choose(b - a + 1)
        self.streak[2].append(x)
        return x

    def sample(self, population, k, **kw):
        out = super().sample(population, k, **kw)
        self.streak = None
        self.starts.append(tuple(out))
        return out

    def __getattribute__(self, name):
        if name in ('random', 'randrange', 'choice', 'choices', 'shuffle', 'gauss', 'np_randint', 'np_choice', 'np_random', 'np_rand', 'np_permutation'):
            object.__setattr__(self, 'streak', None)
        return object.__getattribute__(self, name)


def explore(run, **kw):
    saved = chance.Tape
    chance.Tape = Tape
    try:
        yield from chance.explore(run, **kw)
    finally:
        chance.Tape = saved


def square(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def cost(data, medoids):
    return sum(min(square(p, data[m]) for m in medoids) for p in data)


def exchanges(n, medoids):
    inside = set(medoids)
    for m in inside:
        for c in range(n):
            if c not in inside:
                yield frozenset(inside - {m} | {c})


def reachable(data, start, cache):
    """Sets of medoids which improving exchanges lead to (with the start)."""
    start = frozenset(start)
    if start not in cache:
        seen, stack = {start}, [start]
        while stack:
            s = stack.pop()
            for t in exchanges(len(data), s):
                if t not in seen and cost(data, t) < cost(data, s):
                    seen.add(t)
                    stack.append(t)
        cache[start] = seen
    return cache[start]


def judge(data, k, job, starts, cache):
    n = len(data)
    medoids = [int(m) for m in job.get_medoids()]
    clusters = [[int(i) for i in c] for c in job.get_clusters()]
    require(len(medoids) == k and len(set(medoids)) == k and all(0 <= m < n for m in medoids), lambda: 'medoids are %r' % (medoids,))
    require(sorted(i for c in clusters for i in c) == list(range(n)), lambda: 'clusters %r are not a partition of %d points' % (clusters, n))
    best = [min(square(p, data[m]) for m in medoids) for p in data]
    for c in clusters:
        require(len(c) > 0, 'an empty cluster is reported')
        require(any(all(square(data[i], data[m]) == best[i] for i in c) for m in medoids), lambda: 'cluster %r has no medoid of %r nearest to all its points' % (c, medoids))
    final = cost(data, medoids)
    for s in starts:
        require(final <= cost(data, s), lambda: 'the cost of the medoids %r is %r, the search started from %r of cost %r' % (medoids, final, s, cost(data, s)))
    require(not starts or any(frozenset(medoids) in reachable(data, s, cache) for s in starts),
            lambda: 'the medoids %r cannot be reached from the starts %r by exchanges which decrease the cost' % (medoids, starts))
    return frozenset(medoids), final


def run(case):
    data, k, numlocal, maxneighbor, bound, horizon, limit = case
    data = [list(p) for p in data]
    n = len(data)
    cache = {}
    ends = {}
    before = repr(data)
    moved = 0

    def once():
        job = clarans(data, k, numlocal, maxneighbor)
        job.process()
        starts = list(chance._current[-1].starts)
        return judge(data, k, job, starts, cache), starts

    count = 0
    for _, ((medoids, final), starts) in explore(once, horizon=horizon, limit=limit, bound=bound):
        count += 1
        if starts and medoids not in [frozenset(s) for s in starts]:
            moved += 1
        if numlocal == 1 and len(starts) == 1:
            ends.setdefault(frozenset(starts[0]), set()).add(final)
    require(repr(data) == before, 'the data have been changed')
    require(count > 0, 'no execution ends')
    complete = count < limit and bound is None
    if complete and numlocal == 1 and maxneighbor >= 1:
        for s, finals in ends.items():
            if len(reachable(data, s, cache)) > 1:
                require(min(finals) < cost(data, s), lambda: 'no sequence of draws improves the medoids %r' % (sorted(s),))
    if maxneighbor == 0:
        require(moved == 0, 'medoids are exchanged though no neighbour may be examined')
    return (k, len(ends), moved > 0) if moved else None


def run_refuse(case):
    args = case
    try:
        clarans(*args)
    except ValueError:
        return True
    require(False, 'invalid arguments are accepted')


def families(tier):
    deep = tier == 'thorough'
    line = [(0,), (1,), (2,), (3,), (5,), (9,)]

    def searches():
        for n in range(1, 5):
            for data in itertools.combinations_with_replacement(line[:5], n):
                for k in range(1, n + 1):
                    for m in (0, 1, 2):
                        if n == 4 and m == 2 and not deep:
                            continue
                        yield data, k, 1, m, None, 40, 20000
        for n in (3, 4):
            for data in itertools.product([(0, 0), (0, 3), (4, 0), (1, 1)], repeat=n):
                if list(data) == sorted(data) or n == 3:
                    for k in range(1, n):
                        yield data, k, 1, 1, None, 40, 20000

    def locals_():
        for n in (2, 3):
            for data in itertools.combinations_with_replacement(line[:4], n):
                for k in range(1, n + 1):
                    for count in (2, 3 if n == 2 or deep else 2):
                        yield data, k, count, 1, None, 60, 40000
                        yield data, k, count, 0, None, 60, 40000

    def orders():
        # every order of the points of a line with unequal gaps
        for n in (4, 5):
            for data in itertools.permutations([(0,), (1,), (4,), (9,), (11,)][:n]):
                for k in range(1, n):
                    yield data, k, 1, 1, None if n == 4 else (4 if deep else 2), 40, 20000

    def deviations():
        shapes = [[(0,), (1,), (2,), (10,), (11,), (12,), (20,)], [(0, 0), (0, 1), (1, 0), (5, 5), (5, 6), (9, 0), (9, 1), (8, 0)],
                  [(3,)] * 5, [(0,), (0,), (7,), (7,), (7,), (9,)], [(i * i,) for i in range(8)]]
        for data in shapes:
            for k in (1, 2, 3, 4):
                for numlocal in (1, 2, 3):
                    for m in (1, 3, 5):
                        yield data, k, numlocal, m, 3 if deep else 2, 300, 30000 if deep else 800

    def refuse():
        data = [[0.0], [1.0]]
        for args in (([], 1, 1, 1), (data, 0, 1, 1), (data, -1, 1, 1), (data, 1, -1, 1), (data, 1, 1, -1)):
            yield args

    return [Family('searches', searches, run), Family('locals', locals_, run), Family('orders', orders, run), Family('deviations', deviations, run),
            Family('refuse', refuse, run_refuse)]
