"""
Ownership of randomness.

owned(seed)     inside, every "fresh entropy" request (random.seed(), random_device, clock seeds of the core) is
                deterministic, so that a case always runs the same way.
explore(run)    replaces the functions of `random` and `numpy.random` by choice points and runs `run` once for every
                sequence of answers (depth first): all the random choices the code under test can make. Continuous draws
                are answered from a finite alphabet.
"""
import contextlib
import ctypes
import random
import sys
from fractions import Fraction

import numpy

from mc.engine import Counters

UNIT = (0.0, 0.3, 0.62, 0.97)      # answers to a draw from [0, 1)

_real_seed = random.seed
_real_np_seed = numpy.random.seed


class Horizon(Exception):
    """The choice tree is deeper than the stated horizon."""


_current = []


def _guard(draw, default):
    def answer(*a):
        tape = _current[-1]
        try:
            return draw(tape, *a)
        except Horizon:
            tape.overflow = True
            return default
    return answer


_CHOOSE = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_long, ctypes.POINTER(ctypes.c_double))(
    _guard(lambda t, n, w: t.choose(n, [w[i] for i in range(n)] if w else None), 0))
_UNIT = ctypes.CFUNCTYPE(ctypes.c_double)(_guard(lambda t: t.random(), 0.0))
_NORMAL = ctypes.CFUNCTYPE(ctypes.c_double)(_guard(lambda t: t.gauss(), 0.0))


def attach(library):
    """Lets a harness that includes tape.hpp draw from the current tape."""
    library.mc_set_tape(_CHOOSE, _UNIT, _NORMAL)
    return library


class Tape:
    def __init__(self, horizon, unit):
        self.horizon = horizon
        self.unit = unit                # values of [0, 1), or (value, probability) pairs
        self.reset([])

    def reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.arity = []
        self.weight = Fraction(1)       # probability of the answers taken
        self.overflow = False
        self.mute = False               # answers are the first ones and not recorded

    def choose(self, n, weights=None):
        if n <= 0:
            raise ValueError('empty range for a random choice')
        if self.mute:
            return 0 if weights is None else [i for i in range(n) if weights[i] > 0][0]
        if weights is not None:
            total = sum(weights)
            live = [i for i in range(n) if weights[i] > 0]
            i = live[self._pick(len(live))]
            self.weight *= Fraction(weights[i]) / Fraction(total)
            return i
        self.weight /= n
        return self._pick(n)

    def _pick(self, n):
        if n == 1:
            return 0
        k = len(self.taken)
        if k >= self.horizon:
            raise Horizon()
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError('replay diverged: choice %d of %d' % (c, n))
        self.taken.append(c)
        self.arity.append(n)
        return c

    # -- random ---------------------------------------------------------------------------------------------------
    def seed(self, *a, **k):
        pass

    def random(self, *a, **k):
        if isinstance(self.unit[0], tuple):
            return self.unit[self.choose(len(self.unit), [w for _, w in self.unit])][0]
        return self.unit[self.choose(len(self.unit))]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * (-1.5, 0.0, 1.25)[self.choose(3)]

    def randint(self, a, b):
        return a + self.choose(b - a + 1)

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        return r[self.choose(len(r))]

    def getrandbits(self, k):
        return self.choose(1 << k)

    def choice(self, seq):
        return seq[self.choose(len(seq))]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        if cum_weights is not None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        return [population[self.choose(len(population), weights)] for _ in range(k)]

    def sample(self, population, k, **kw):
        pool = list(population)
        if not 0 <= k <= len(pool):
            raise ValueError('Sample larger than population or is negative')
        return [pool.pop(self.choose(len(pool))) for _ in range(k)]

    def shuffle(self, x, *a):
        for i in range(len(x) - 1, 0, -1):
            j = self.choose(i + 1)
            if isinstance(x, numpy.ndarray):
                x[[i, j]] = x[[j, i]]
            else:
                x[i], x[j] = x[j], x[i]

    # -- numpy.random ---------------------------------------------------------------------------------------------
    def _shape(self, size, draw):
        if size is None:
            return draw()
        n = int(numpy.prod(size))
        return numpy.array([draw() for _ in range(n)]).reshape(size)

    def np_rand(self, *shape):
        return self._shape(shape or None, self.random)

    def np_random(self, size=None):
        return self._shape(size, self.random)

    def np_randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._shape(size, lambda: int(low) + self.choose(int(high) - int(low)))

    def np_uniform(self, low=0.0, high=1.0, size=None):
        return self._shape(size, lambda: low + (high - low) * self.random())

    def np_normal(self, loc=0.0, scale=1.0, size=None):
        return self._shape(size, lambda: self.gauss(loc, scale))

    def np_choice(self, a, size=None, replace=True, p=None):
        pool = list(range(a)) if isinstance(a, (int, numpy.integer)) else list(a)
        if p is not None:
            if abs(float(numpy.sum(p)) - 1.0) > 1e-8 or min(p) < 0 or len(p) != len(pool):
                raise ValueError('probabilities do not sum to 1 / are negative')
            weights = [float(q) for q in p]
        n = 1 if size is None else int(numpy.prod(size))
        out = []
        for _ in range(n):
            i = self.choose(len(pool), weights if p is not None else None)
            out.append(pool[i] if replace else pool.pop(i))
            if p is not None and not replace:
                weights.pop(i)
        return out[0] if size is None else numpy.array(out).reshape(size)

    def np_permutation(self, x):
        out = numpy.array(list(range(x)) if isinstance(x, (int, numpy.integer)) else x)
        self.shuffle(out)
        return out


_RANDOM = ('seed', 'random', 'uniform', 'gauss', 'randint', 'randrange', 'getrandbits', 'choice', 'choices', 'sample',
           'shuffle')
_NUMPY = dict(seed='seed', rand='np_rand', random='np_random', random_sample='np_random', ranf='np_random',
              randint='np_randint', uniform='np_uniform', normal='np_normal', choice='np_choice', shuffle='shuffle',
              permutation='np_permutation')


def _targets():
    """(module, name, method of the tape) of everything to replace."""
    out = [(random, n, n) for n in _RANDOM] + [(random, 'normalvariate', 'gauss')]
    out += [(numpy.random, n, m) for n, m in _NUMPY.items()]
    known = {id(getattr(module, n)): m for module, n, m in out}
    for mod in list(sys.modules.values()):
        if getattr(mod, '__name__', '').startswith('pyclustering'):
            for n, v in list(vars(mod).items()):
                if callable(v) and id(v) in known:
                    out.append((mod, n, known[id(v)]))
    return out


_found = (0, None)


@contextlib.contextmanager
def taped(tape):
    global _found
    if _found[0] != len(sys.modules):
        _found = (len(sys.modules), _targets())
    saved = [(module, name, getattr(module, name)) for module, name, _ in _found[1]]
    _current.append(tape)
    try:
        for module, name, method in _found[1]:
            setattr(module, name, getattr(tape, method))
        yield
    finally:
        _current.pop()
        for module, name, value in saved:
            setattr(module, name, value)


@contextlib.contextmanager
def muted():
    """Draws inside take the first answer and are not explored."""
    tape = _current[-1]
    before, tape.mute = tape.mute, True
    try:
        yield
    finally:
        tape.mute = before


def explore(run, horizon=24, limit=200000, unit=UNIT, bound=None, weighted=False):
    """
    Calls run() for every sequence of random answers; yields (choices, result). Executions longer than `horizon` draws
    are cut (counted in Counters.notes). `bound` limits the number of non-default answers (deviations) per execution.
    With `weighted`, yields (choices, result, probability of these choices).
    """
    stack = [[]]
    done = 0
    tape = Tape(horizon, unit)
    while stack:
        prefix = stack.pop()
        tape.reset(prefix)
        try:
            with taped(tape):
                result = run()
            if tape.overflow:
                raise Horizon()
        except Horizon:
            Counters.notes['beyond_horizon'] = Counters.notes.get('beyond_horizon', 0) + 1
            result = None
            cut = True
        else:
            cut = False
        done += 1
        Counters.executions += 1
        Counters.transitions += len(tape.taken) - len(prefix) + (1 if prefix else 0)
        if not cut:
            Counters.states += 1
            yield (tuple(tape.taken), result, tape.weight) if weighted else (tuple(tape.taken), result)
        if done >= limit:
            Counters.notes['execution_limit'] = Counters.notes.get('execution_limit', 0) + 1
            return
        used = sum(1 for c in prefix if c)
        for i in range(len(tape.taken) - 1, len(prefix) - 1, -1):
            if bound is not None and used >= bound:
                continue
            for alt in range(tape.arity[i] - 1, 0, -1):
                stack.append(tape.taken[:i] + [alt])


_lib = None


def core_seed(seed):
    """Entropy and clock of the C++ core."""
    global _lib
    if _lib is None:
        from pyclustering.core.wrapper import ccore_library
        ccore_library.get()
        from pyclustering.core.definitions import PATH_PYCLUSTERING_CCORE_LIBRARY
        _lib = ctypes.CDLL(PATH_PYCLUSTERING_CCORE_LIBRARY)
    _lib.mc_set_seed(ctypes.c_uint(seed & 0xffffffff))


@contextlib.contextmanager
def owned(seed=1, core=True):
    def py_seed(a=None, version=2):
        _real_seed(seed if a is None else a, version)

    def np_seed(a=None):
        _real_np_seed(seed if a is None else a)
    random.seed, numpy.random.seed = py_seed, np_seed
    _real_seed(seed)
    _real_np_seed(seed)
    if core:
        core_seed(seed)
    try:
        yield
    finally:
        random.seed, numpy.random.seed = _real_seed, _real_np_seed
