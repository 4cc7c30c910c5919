"""Reference formulas of the metrics, and construction of the metric objects of the code under test."""
import math

from pyclustering.utils.metric import distance_metric, type_metric


def formula(name, a, b, arg):
    d = [abs(x - y) for x, y in zip(a, b)]
    if name == 'EUCLIDEAN':
        return math.sqrt(sum(x * x for x in d))
    if name == 'EUCLIDEAN_SQUARE':
        return sum(x * x for x in d)
    if name == 'MANHATTAN':
        return sum(d)
    if name == 'CHEBYSHEV':
        return max(d)
    if name == 'MINKOWSKI':
        p = 2 if arg is None else arg
        return sum(x ** p for x in d) ** (1.0 / p)
    if name == 'CANBERRA':
        return sum(abs(x - y) / (abs(x) + abs(y)) for x, y in zip(a, b) if abs(x) + abs(y) != 0)
    if name == 'CHI_SQUARE':
        return sum((x - y) ** 2 / (abs(x) + abs(y)) for x, y in zip(a, b) if abs(x) + abs(y) != 0)
    if name == 'GOWER':
        return sum(x / r for x, r in zip(d, arg) if r != 0) / len(a)
    raise ValueError(name)


def make(name, arg, numpy_usage=False):
    kw = dict(numpy_usage=numpy_usage)
    if name == 'MINKOWSKI' and arg is not None:
        kw['degree'] = arg
    if name == 'GOWER':
        kw['max_range'] = arg
    return distance_metric(type_metric[name], **kw)


def user_function(p, q):
    """A user-defined metric whose coordinates weigh differently."""
    return sum(abs(x - y) * (k + 1) for k, (x, y) in enumerate(zip(p, q)))


def reference(name, arg=None):
    if name == 'USER_DEFINED':
        return user_function
    return lambda a, b: formula(name, a, b, arg)


def instance(name, arg=None):
    if name == 'USER_DEFINED':
        return distance_metric(type_metric.USER_DEFINED, func=user_function)
    return make(name, arg)
