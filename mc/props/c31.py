"""C31 Genetic clustering keeps chromosomes valid and reports its best fitness."""
import collections
import itertools
import math

import numpy

from mc import chance, dom
from mc.engine import Counters, Family, Skip, require

from pyclustering.cluster.ga import ga_observer, genetic_algorithm
from pyclustering.cluster.ga_maths import ga_math

LEVEL = 'model_checking'
RULE = ('the choice tree of numpy.random under whole evolutions (all answers, or all with at most two deviations from the first ones, of larger settings) over small '
        'data sets and population settings; the operators alone: all populations of the bound and all their random answers, the set of reachable '
        'results compared with the set of the definition; non-trivial: chromosomes that use at least two clusters')
ASSUMPTIONS = ['continuous draws are answered from a finite alphabet (selection alone: a fine grid and every boundary of the probabilities)',
               'data is scaled so that the exponent of the fitness is finite']


def fitness(chromosome, data, k):
    total = 0.0
    for c in range(k):
        own = [q for g, q in zip(chromosome, data) if g == c]
        if own:
            m = [sum(v) / len(own) for v in zip(*own)]
            total += sum(abs(x - y) for q in own for x, y in zip(q, m))
    return total


class Watch(ga_observer):
    """Keeps what was told and when."""

    def __init__(self):
        super().__init__(True, True, True)
        self.told = []

    def collect_global_best(self, chromosome, ff):
        self.told.append(('global', list(map(int, chromosome)), float(ff)))
        super().collect_global_best(chromosome, ff)

    def collect_population_best(self, chromosome, ff):
        self.told.append(('population', list(map(int, chromosome)), float(ff)))
        super().collect_population_best(chromosome, ff)

    def collect_mean(self, ffs):
        self.told.append(('mean', [float(f) for f in ffs], None))
        super().collect_mean(ffs)


def evolve(case):
    data, k, size, steps, options, bound = case
    data = [list(map(float, q)) for q in data]
    n = len(data)

    def once():
        watch = Watch()
        o = genetic_algorithm(data, k, size, steps, observer=watch, random_state=1, **options)
        best, ff = o.process()
        valid = lambda c: len(c) == n and all(int(g) == g and 0 <= g < k for g in c)
        told = collections.defaultdict(list)
        for kind, x, f in watch.told:
            told[kind].append((x, f))
        require(len(watch) == steps + 1 and all(len(told[t]) == steps + 1 for t in ('global', 'population', 'mean')), lambda: '%d records for %d steps' % (len(watch), steps))
        so_far = math.inf
        for (gc, gf), (pc, pf), (ffs, _) in zip(told['global'], told['population'], told['mean']):
            require(valid(gc) and valid(pc), lambda: 'chromosome %r or %r is not a placement of %d points in %d clusters' % (gc, pc, n, k))
            require(abs(fitness(pc, data, k) - pf) <= 1e-9 and abs(fitness(gc, data, k) - gf) <= 1e-9, lambda: 'fitness %r of %r, %r of %r' % (pf, pc, gf, gc))
            require(len(ffs) == size and abs(min(ffs) - pf) <= 1e-12, lambda: 'the best of %r is told to be %r' % (ffs, pf))
            so_far = min(so_far, pf)
            require(gf == so_far, lambda: 'the best so far is %r, told %r' % (so_far, gf))
        kept = watch.get_global_best(), watch.get_population_best(), watch.get_mean_fitness_function()
        for name, record in (('global', kept[0]), ('population', kept[1])):
            require([list(map(int, c)) for c in record['chromosome']] == [c for c, _ in told[name]] and [float(f) for f in record['fitness_function']] == [f for _, f in told[name]],
                    lambda: 'the record of the %s best changed: %r, told %r' % (name, record, told[name]))
        require(all(abs(m - sum(f) / len(f)) <= 1e-9 for m, (f, _) in zip(kept[2], told['mean'])), 'mean fitness')
        require(list(map(int, best)) == told['global'][-1][0] and ff == so_far, lambda: 'reported %r, %r; the best was %r' % (best, ff, told['global'][-1]))
        clusters = o.get_clusters()
        require(len(clusters) == k and sorted(i for c in clusters for i in c) == list(range(n)), lambda: 'clusters %r' % (clusters,))
        require(all(i in clusters[g] for i, g in enumerate(best)), lambda: 'clusters %r of %r' % (clusters, best))
        require(o.get_observer() is watch, 'observer')
        return len(set(map(int, best)))
    seen = set()
    for _, r in chance.explore(once, horizon=200, limit=100000, unit=(0.0, 0.37, 0.99), bound=bound):
        seen.add(r)
    return ('evolve', max(seen)) if max(seen) > 1 else None


def operator(name):
    f = getattr(genetic_algorithm, name, None)
    if f is None:
        raise Skip('no such operator')
    return f


def crossover(case):
    population, = case
    rows, n = len(population), len(population[0])
    f = operator('_crossover')

    def once():
        p = numpy.array(population)
        f(p)
        return tuple(map(tuple, p.tolist()))
    got = {r for _, r in chance.explore(once, horizon=60, limit=200000)}
    masks = [m for m in itertools.product((0, 1), repeat=n) if sum(m) == n // 2]
    want = set()
    half = rows // 2
    for order in itertools.permutations(range(rows)):
        for ms in itertools.product(masks, repeat=half):
            p = [list(r) for r in population]
            for i in range(half):
                a, b = p[order[i]], p[order[i + half]]
                for g in range(n):
                    if ms[i][g]:
                        a[g], b[g] = b[g], a[g]
            want.add(tuple(map(tuple, p)))
    require(got == want, lambda: 'reachable by crossover only in the code: %r, only by definition: %r' % (sorted(got - want)[:3], sorted(want - got)[:3]))
    return ('crossover', rows, n) if len(want) > 1 else None


def mutation(case):
    population, k, genes, coefficient = case
    rows, n = len(population), len(population[0])
    f = operator('_mutation')

    def once():
        p = numpy.array(population)
        f(p, k, genes, coefficient)
        return tuple(map(tuple, p.tolist()))
    got = {r for _, r in chance.explore(once, horizon=60, limit=200000)}
    want = set()
    for chosen in itertools.permutations(range(rows), int(rows * coefficient)):
        for changes in itertools.product(itertools.product(itertools.product(range(n), range(k)), repeat=genes), repeat=len(chosen)):
            p = [list(r) for r in population]
            for c, ch in zip(chosen, changes):
                for g, v in ch:
                    p[c][g] = v
            want.add(tuple(map(tuple, p)))
    require(got == want, lambda: 'reachable by mutation only in the code: %r, only by definition: %r' % (sorted(got - want)[:3], sorted(want - got)[:3]))
    return ('mutation', len(want)) if len(want) > 1 else None


def selection(case):
    """Each new chromosome is one of the old ones, chosen with a probability proportional to exp(-fitness)."""
    population, data, k, coefficient = case
    f = operator('_select')
    data = [list(map(float, q)) for q in data]
    weights = [math.exp(-coefficient * fitness(c, data, k)) for c in population]
    limits = [sum(weights[:i + 1]) / sum(weights) for i in range(len(weights))]
    grid = sorted({i / 32.0 for i in range(32)} | {max(0.0, l - 1e-7) for l in limits} | {l + 1e-7 for l in limits[:-1]})

    def once():
        p = numpy.array(population)
        return tuple(map(tuple, f(p, numpy.array(data), k, coefficient).tolist())), p.tolist()
    tape_of = {}
    for taken, (new, old) in chance.explore(once, horizon=60, limit=200000, unit=tuple(grid), bound=1):
        require(old == [list(c) for c in population], 'the old population was changed')
        require(len(new) == len(population) and len(taken) == len(population), lambda: '%d chromosomes of %d draws' % (len(new), len(taken)))
        for t, c in zip(taken, new):
            u = grid[t]
            near = [i for i, l in enumerate(limits[:-1]) if abs(u - l) < 1e-12]
            want = [tuple(population[next(i for i, l in enumerate(limits) if u < l + (1e-9 if i == len(limits) - 1 else 0))])] + [tuple(population[i]) for i in near]
            require(c in want, lambda: 'draw %r selects %r, expected %r for weights %r' % (u, c, want, weights))
    return ('selection', len(population)) if len({round(w, 9) for w in weights}) > 1 else None


def maths(case):
    data, chromosomes, k = case
    data = [list(map(float, q)) for q in data]
    Counters.executions += 1
    c = numpy.array(chromosomes)
    got = ga_math.calc_centers(c, numpy.array(data), k)
    for row, ch in zip(got, chromosomes):
        for j in range(k):
            own = [q for g, q in zip(ch, data) if g == j]
            if own:
                require(all(abs(x - sum(v) / len(own)) < 1e-9 for x, v in zip(row[j], zip(*own))), lambda: 'center %r of %r' % (row[j], own))
    used = [len(set(ch)) for ch in chromosomes]
    for ch in chromosomes:
        a = numpy.array(ch)
        require(ga_math.calc_count_centers(a) == max(ch) + 1, 'calc_count_centers')
        for count in (None, k):
            r = ga_math.get_clusters_representation(a, count)
            require(r == [[i for i, g in enumerate(ch) if g == j] for j in range(max(ch) + 1 if count is None else count)], lambda: 'clusters %r of %r' % (r, ch))
    f = operator('_get_best_chromosome')
    best, ff, all_ff = f(c, numpy.array(data), k)
    want = [fitness(ch, data, k) for ch in chromosomes]
    require(all(abs(a - b) < 1e-9 for a, b in zip(all_ff, want)) and abs(ff - min(want)) < 1e-9, lambda: 'fitness %r, expected %r' % (all_ff, want))
    require(abs(fitness(list(map(int, best)), data, k) - min(want)) < 1e-9, lambda: 'best %r' % (best,))
    require(c.tolist() == [list(x) for x in chromosomes], 'chromosomes were changed')
    return ('maths', max(used)) if max(used) > 1 else None


def families(tier):
    deep = tier == 'thorough'

    def evolve_cases():
        full = dict(count_mutation_gens=1, coeff_mutation_count=0.5)
        for data in ([[0.0], [1.0]], [[0.1], [0.1], [0.9]], [[0.0, 1.0], [1.0, 0.0]]):
            yield data, 2, 1, 1, full, None
            yield data, 1, 2, 2, full, 4 if deep else 2
        yield [[0.0], [1.0]], 2, 2, 1, full, 5 if deep else 3
        for data in itertools.chain(dom.stride(dom.line_sets(3, [0.0, 0.3, 1.0]), 1 if deep else 3), dom.stride(dom.plane_sets(3, [0.0, 0.5]), 2 if deep else 5), [dom.blobs([2, 2], 0.5)]):
            for k in (1, 2, 3):
                for size, steps in ((1, 2), (2, 2), (3, 1), (4, 2), (5, 3)):
                    for options in ({}, dict(count_mutation_gens=3, coeff_mutation_count=0.6), dict(select_coeff=0.2, coeff_mutation_count=1.0, count_mutation_gens=1), dict(coeff_mutation_count=0.0)):
                        yield data, k, size, steps, options, 2 if deep else 1

    def populations(rows, n, k):
        return itertools.product(itertools.product(range(k), repeat=n), repeat=rows)

    def crossover_cases():
        for rows, n in ((1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (2, 4)):
            for p in dom.stride(populations(rows, n, 2), 1 if deep or rows * n < 6 else 3):
                yield p,
        for p in dom.stride(populations(4, 2, 3), 67 if deep else 499):
            yield p,
        yield [[0, 1, 2, 3], [4, 5, 6, 7]],
        yield [[0, 1], [2, 3], [4, 5], [6, 7]],
        yield [[0, 1], [2, 3], [4, 5], [6, 7], [8, 9]],

    def mutation_cases():
        for rows, n, k in ((1, 2, 2), (2, 2, 2), (3, 1, 2), (2, 1, 3), (3, 2, 2)):
            for p in dom.stride(populations(rows, n, k), 1 if deep else 3):
                for genes in (0, 1, 2):
                    for coefficient in (0.0, 0.25, 0.5, 1.0):
                        if (k * n) ** (genes * int(rows * coefficient)) <= (5000 if deep else 300):
                            yield p, k, genes, coefficient

    def selection_cases():
        for data in ([[0.0], [1.0]], [[0.0], [0.4], [1.0]], [[0.0, 0.2], [0.7, 0.1], [0.9, 1.0]]):
            for rows in (1, 2, 3):
                for k in (1, 2, 3):
                    for p in dom.stride(populations(rows, len(data), k), 1 if rows * len(data) * k < 10 else 7 if rows * len(data) < 7 else 1009 if deep else 4001):
                        for coefficient in (1.0, 0.3):
                            yield p, data, k, coefficient

    def maths_cases():
        for data in ([[0.0], [1.0]], [[0.0], [0.4], [1.0]], [[0.0, 0.2], [0.7, 0.1], [0.9, 1.0]], [[1.0], [1.0], [1.0], [5.0]]):
            for rows in (1, 2):
                for k in (1, 2, 3):
                    for p in dom.stride(populations(rows, len(data), k), 1 if rows == 1 else 3 if deep else 11):
                        yield data, p, k
    return [Family('evolution', evolve_cases, evolve), Family('crossover', crossover_cases, crossover), Family('mutation', mutation_cases, mutation),
            Family('selection', selection_cases, selection), Family('maths', maths_cases, maths)]
