"""Finite domains, simplest first."""
import itertools


def line(size, grid):
    """All sequences of `size` 1-D points over a grid (order matters, repetitions included)."""
    for c in itertools.product(grid, repeat=size):
        yield [[x] for x in c]


def line_sets(size, grid):
    """All multisets of `size` 1-D points, in increasing order."""
    for c in itertools.combinations_with_replacement(grid, size):
        yield [[x] for x in c]


def plane(size, xs, ys=None):
    """All sequences of 2-D points of a grid."""
    pts = [[x, y] for x in xs for y in (ys if ys is not None else xs)]
    for c in itertools.product(pts, repeat=size):
        yield [list(p) for p in c]


def plane_sets(size, xs, ys=None):
    pts = [[x, y] for x in xs for y in (ys if ys is not None else xs)]
    for c in itertools.combinations_with_replacement(pts, size):
        yield [list(p) for p in c]


def distinct(size, pts):
    for c in itertools.combinations(pts, size):
        yield [list(p) for p in c]


def canonical_first(seqs):
    """Drops the sequences that are not sorted at their first point: a cheap symmetry reduction for order-free tests."""
    for s in seqs:
        if s == sorted(s):
            yield s


def stride(seq, step, offset=0):
    for i, s in enumerate(seq):
        if i % step == offset:
            yield s


def lattice(n, a=7, b=3, m=11):
    """A fixed scattered family of n planar points (no randomness): used to reach sizes the full enumeration cannot."""
    return [[float((i * a) % m), float((i * i * b + i) % (m + 2))] for i in range(n)]


def blobs(counts, gap=10.0, dim=2, step=0.25):
    """Well separated groups: group k around (gap * k, ...), a deterministic spread inside."""
    out = []
    for k, c in enumerate(counts):
        for i in range(c):
            out.append([gap * k + step * ((i * (d + 2)) % 5) + step * d * (i % 2) for d in range(dim)])
    return out


def numpyfy(data, how):
    import numpy
    if how == 'list':
        return [list(p) for p in data]
    if how == 'tuple':
        return [tuple(p) for p in data]
    if how == 'numpy':
        return numpy.array(data, dtype=float)
    if how == 'int':
        return [[int(x) for x in p] for p in data]
    raise ValueError(how)


# scale (powers of two keep the arithmetic exact) and offset: finds behaviour that depends on absolute magnitudes
MAGNITUDES = ((2.0 ** -9, 0.0), (2.0 ** -6, -2.0), (2.0 ** 8, 0.0), (1.0, 1000.0))


def scaled(datas, scale, offset=0.0):
    for d in datas:
        yield [[x * scale + offset for x in p] for p in d]


def permuted(size, xs):
    for c in itertools.permutations(xs, size):
        yield [[x] for x in c]
