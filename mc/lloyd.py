"""Reference model of the assign / update iterations of K-Means and K-Medians."""
from mc import geo

EPS = 1e-9


def nearest(metric, p, centers):
    """(index of the first nearest center, whether the choice is tied)."""
    d = [metric(p, c) for c in centers]
    m = min(d)
    k = d.index(m)
    return k, any(i != k and x - m <= EPS * max(1.0, abs(m)) for i, x in enumerate(d))


def mean(pts):
    return [sum(c) / len(pts) for c in zip(*pts)]


def median(pts):
    out = []
    for c in zip(*pts):
        s = sorted(c)
        n = len(s)
        out.append(float(s[n // 2]) if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0)
    return out


def iterate(data, centers, metric, center_of, tolerance, itermax):
    """
    Returns dict(clusters, centers, tied, iterations, stopped): `tied` tells that an assignment or the stop decision was
    decided by rounding or by a tie, so that other results are legal too.
    """
    centers = [list(map(float, c)) for c in centers]
    tied = False
    trace = []
    change = float('inf')
    it = 0
    clusters = []
    while change > tolerance and it < itermax:
        groups = [[] for _ in centers]
        for i, p in enumerate(data):
            k, t = nearest(metric, p, centers)
            tied = tied or t
            groups[k].append(i)
        kept = [k for k, g in enumerate(groups) if g]
        clusters = [groups[k] for k in kept]
        new = [center_of([data[i] for i in g]) for g in clusters]
        change = max(metric(centers[k], c) for k, c in zip(kept, new))
        if len(kept) < len(centers):
            # a center without points disappears: whether this counts as a change is not specified
            moved = float('inf')
            if change <= tolerance + EPS:
                tied = True
            change = moved
        elif abs(change - tolerance) <= EPS and tolerance > 0:
            tied = True
        centers = new
        it += 1
        trace.append((clusters, centers))
    return dict(clusters=clusters, centers=centers, tied=tied, iterations=it, trace=trace)


def consistent(data, clusters, centers, wce, metric, center_of, n=None):
    """Clusters are a partition, the centers belong to them and the error is theirs."""
    from mc.engine import require
    cl, _ = geo.partition(clusters, len(data) if n is None else n)
    require(len(cl) == len(centers), lambda: '%d clusters but %d centers' % (len(cl), len(centers)))
    total = 0.0
    for c, x in zip(cl, centers):
        want = center_of([data[i] for i in c])
        require(geo.close_vec(list(map(float, x)), want), lambda: 'center %r of the points %r, expected %r' % (list(x), [data[i] for i in c], want))
        total += sum(metric(data[i], want) for i in c)
    if wce is not None:
        require(geo.close(wce, total, 1e-7, 1e-9), lambda: 'total error %r, expected %r for clusters %r' % (wce, total, cl))
    return cl


def check_predict(predicted, points, centers, metric):
    from mc.engine import require
    predicted = [int(x) for x in predicted]
    require(len(predicted) == len(points), lambda: '%d predictions for %d points' % (len(predicted), len(points)))
    for p, k in zip(points, predicted):
        require(0 <= k < len(centers), 'prediction %d is not a cluster' % k)
        d = [metric(p, c) for c in centers]
        require(d[k] <= min(d) + 1e-9 * max(1.0, min(d)), lambda: 'point %r is predicted to belong to center %r, nearer is %r' % (p, centers[k], centers[d.index(min(d))]))
