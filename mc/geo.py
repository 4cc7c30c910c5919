"""Reference geometry and partition helpers (plain Python, independent of the code under test)."""
import math

from mc.engine import require


def sq(a, b):
    return sum((x - y) * (x - y) for x, y in zip(a, b))


def euclid(a, b):
    return math.sqrt(sq(a, b))


def close(a, b, rel=1e-9, ab=1e-9):
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def close_vec(a, b, rel=1e-9, ab=1e-9):
    return len(a) == len(b) and all(close(x, y, rel, ab) for x, y in zip(a, b))


def ints(cluster):
    out = []
    for i in cluster:
        require(int(i) == i, 'an index is not an integer: %r' % (i,))
        out.append(int(i))
    return out


def partition(clusters, n, noise=None, empty_ok=False, what='clusters'):
    """Every index exactly once; returns plain lists."""
    cl = [ints(c) for c in clusters]
    no = ints(noise) if noise is not None else []
    seen = {}
    for k, c in enumerate(cl):
        if not empty_ok:
            require(len(c) > 0, '%s contain an empty cluster: %r' % (what, cl))
        for i in c:
            require(0 <= i < n, '%s contain index %d, outside of 0..%d' % (what, i, n - 1))
            require(i not in seen, 'point %d is reported twice: %s %r, noise %r' % (i, what, cl, no))
            seen[i] = k
    for i in no:
        require(0 <= i < n, 'noise contains index %d, outside of 0..%d' % (i, n - 1))
        require(i not in seen, 'point %d is reported twice: %s %r, noise %r' % (i, what, cl, no))
        seen[i] = -1
    missing = [i for i in range(n) if i not in seen]
    require(not missing, 'points %r are lost: %s %r, noise %r' % (missing, what, cl, no))
    return cl, no


def components(nodes, linked):
    """Connected components of `nodes` under the symmetric relation `linked`."""
    nodes = list(nodes)
    left = set(nodes)
    out = []
    for s in nodes:
        if s not in left:
            continue
        left.discard(s)
        comp, stack = [s], [s]
        while stack:
            a = stack.pop()
            for b in [x for x in left if linked(a, x)]:
                left.discard(b)
                comp.append(b)
                stack.append(b)
        out.append(sorted(comp))
    return out


def shape(clusters, noise=()):
    """Outcome label: sizes."""
    return tuple(sorted(len(c) for c in clusters)), len(noise)
