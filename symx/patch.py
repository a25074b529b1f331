"""What the executor replaces while code runs symbolically, and the RNG stub.

Symbolic mode replaces numpy's array constructors (so that arrays can hold
symbolic cells), `math`/`statistics` functions, and the names `float`/`int`
inside chainerrl modules.  In both modes the random number generators are
replaced by a stub that returns an arbitrary value of the documented support
of the call (symbolic mode) or the recorded one (replay).
"""
import contextlib
import math
import random
import statistics
import sys

import numpy as np

from symx import engine as E
from symx import nparr as A

H = None            # the active harness handle


# ------------------------------------------------------------------------ rng

def _shape(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list)):
        return tuple(int(s) for s in size)
    return (int(size),)


def _many(size, one, dtype):
    shp = _shape(size)
    if shp is None:
        return one()
    n = 1
    for s in shp:
        n *= s
    vals = [one() for _ in range(n)]
    if any(E.is_sym(v) for v in vals):
        return A.wrap(vals, dtype).reshape(shp) if vals else \
            A.new(shp, dtype, 0)
    return A._real['array'](vals, dtype=dtype).reshape(shp)


def _bcast(args, size, one, dtype):
    """Array-valued distribution parameters."""
    arrs = [a for a in args if np.ndim(a)]
    if not arrs:
        return _many(size, lambda: one(*args), dtype)
    shp = _shape(size) or np.broadcast_shapes(*[np.shape(a) for a in args])
    bs = [np.broadcast_to(A.raw(A.wrap(a)) if A.has_sym(a) else
                          np.asarray(a), shp) for a in args]
    vals = [one(*[b[i] for b in bs]) for i in np.ndindex(*shp)]
    if any(E.is_sym(v) for v in vals):
        return A.wrap(vals, dtype).reshape(shp)
    return A._real['array'](vals, dtype=dtype).reshape(shp)


def u01():
    return H.draw_real(0, 1)


def _unif(lo, hi):
    if not E.is_sym(lo) and not E.is_sym(hi):
        lo, hi = A.unexact(lo), A.unexact(hi)
        if lo == hi:
            return float(lo)
        return H.draw_real(lo, hi)
    v = H.draw_real(None, None)
    H.assume_rng(v >= lo)
    H.assume_rng(E.lor(v < hi, E.land(v == lo, lo == hi)))
    return v


def _std():
    return H.draw_real(-4, 4, hi_open=False)


class RNG(object):
    """Mimics both the numpy.random module and RandomState objects."""

    def __init__(self, *a, **k):
        pass

    def seed(self, *a, **k):
        pass

    def get_state(self, *a, **k):
        return ('stub',)

    def set_state(self, *a, **k):
        pass

    def rand(self, *shape):
        return _many(shape or None, u01, 'f8')

    def random_sample(self, size=None):
        return _many(size, u01, 'f8')

    random = ranf = sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        return _bcast((low, high), size, _unif, 'f8')

    def randn(self, *shape):
        return _many(shape or None, _std, 'f8')

    def standard_normal(self, size=None):
        return _many(size, _std, 'f8')

    def normal(self, loc=0.0, scale=1.0, size=None):
        return _bcast((loc, scale), size,
                      lambda m, s: m + s * _std(), 'f8')

    def gumbel(self, loc=0.0, scale=1.0, size=None):
        return _bcast((loc, scale), size,
                      lambda m, s: m + s * _std(), 'f8')

    def randint(self, low, high=None, size=None, dtype='i8', endpoint=False):
        if high is None:
            low, high = 0, low
        if not endpoint:
            high = high - 1
        return _many(size, lambda: _rint(low, high, 'low >= high'),
                     np.dtype(dtype))

    integers = randint

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def choice(self, a, size=None, replace=True, p=None):
        n = a if isinstance(a, (int, np.integer)) or E.is_sym(a) else len(a)
        n = int(n)
        if n <= 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        shp = _shape(size)
        k = 1
        for s in shp or ():
            k *= s
        if not replace and k > n:
            raise ValueError("Cannot take a larger sample than population "
                             "when 'replace=False'")
        taken = []
        if p is not None:
            H.choice_p.append(p)
        for _ in range(k):
            i = H.draw_int(0, n - 1)
            if p is not None:
                H.assume_rng(_pick(p, i) > 0)
            if not replace:
                for t in taken:
                    H.assume_rng(i != t)
            taken.append(i)
        taken = [int(t) for t in taken]
        if isinstance(a, (int, np.integer)) or E.is_sym(a):
            out = A._real['array'](taken, dtype='i8')
        else:
            arr = a if isinstance(a, np.ndarray) else np.asarray(a)
            out = arr[A._real['array'](taken, dtype='i8')]
        if shp is None:
            return out[0]
        return out.reshape(shp + out.shape[1:])

    def permutation(self, x):
        n = int(x) if isinstance(x, (int, np.integer)) or E.is_sym(x) \
            else len(x)
        perm = draw_perm(n)
        if isinstance(x, (int, np.integer)) or E.is_sym(x):
            return A._real['array'](perm, dtype='i8')
        return np.asarray(x)[A._real['array'](perm, dtype='i8')]

    def shuffle(self, x):
        perm = draw_perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[A._real['array'](perm, dtype='i8')].copy()
        else:
            x[:] = [x[i] for i in perm]

    def exponential(self, scale=1.0, size=None):
        return _many(size, lambda: scale * H.draw_real(0, 8), 'f8')

    def binomial(self, n, p, size=None):
        return _many(size, lambda: H.draw_int(0, n), 'i8')

    def multinomial(self, n, pvals, size=None):
        raise E.Unsupported('multinomial')

    def beta(self, a, b, size=None):
        return _many(size, u01, 'f8')

    def tomaxint(self, size=None):
        return self.randint(0, 2 ** 31 - 1, size)


def _pick(p, i):
    i = int(i)
    return p[i]


def _rint(lo, hi, err):
    if E.is_sym(lo) or E.is_sym(hi):
        if lo > hi:
            raise ValueError(err)
        v = H.draw_int(None, None)
        H.assume_rng(v >= lo)
        H.assume_rng(v <= hi)
        return v
    if lo > hi:
        raise ValueError(err)
    return H.draw_int(int(lo), int(hi))


def draw_perm(n):
    if getattr(H, 'fixed_perm', False):
        return list(range(n))
    rest = list(range(n))
    perm = []
    while rest:
        i = int(H.draw_int(0, len(rest) - 1))
        perm.append(rest.pop(i))
    return perm


class PyRandom(object):
    """The functions of the `random` module."""

    def __init__(self, *a, **k):
        pass

    def seed(self, *a, **k):
        pass

    def random(self):
        return u01()

    def uniform(self, a, b):
        return _unif(a, b)

    def randint(self, a, b):
        return _rint(a, b, 'empty range for randrange()')

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        if step != 1:
            n = (stop - start + step - 1) // step
            return start + step * _rint(0, n - 1, 'empty range')
        return _rint(start, stop - 1, 'empty range for randrange()')

    def choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[int(H.draw_int(0, len(seq) - 1))]

    def choices(self, population, weights=None, cum_weights=None, k=1):
        out = []
        for _ in range(k):
            i = int(H.draw_int(0, len(population) - 1))
            if weights is not None:
                H.assume_rng(weights[i] > 0)
            out.append(population[i])
        return out

    def sample(self, population, k):
        n = len(population)
        if k > n or k < 0:
            raise ValueError('Sample larger than population or is negative')
        if not hasattr(population, '__getitem__'):
            raise TypeError('Population must be a sequence.')
        rest = list(range(n))
        out = []
        for _ in range(k):
            i = int(H.draw_int(0, len(rest) - 1))
            out.append(population[rest.pop(i)])
        return out

    def shuffle(self, x):
        perm = draw_perm(len(x))
        x[:] = [x[i] for i in perm]

    def gauss(self, mu=0.0, sigma=1.0):
        return mu + sigma * _std()

    normalvariate = gauss


_rng = RNG()
_py = PyRandom()
RNG_NAMES = [n for n in dir(RNG) if not n.startswith('_')
             and n not in ('integers',)]
PY_NAMES = [n for n in dir(PyRandom) if not n.startswith('_')]


# ----------------------------------------------------------- math / statistics

def _m1(name, symf):
    orig = getattr(math, name)

    def f(x, *a):
        if isinstance(x, A.SymArray):
            x = x.item()
        if E.is_sym(x):
            return symf(x, *a)
        return orig(x, *a)
    return f


def _mexp(x):
    return E.fn('exp')(x)


def _mlog(x, *base):
    r = E.fn('log')(x)
    return r / math.log(base[0]) if base else r


def _msqrt(x):
    if x < 0:
        raise ValueError('math domain error')
    return E.sqrt(x)


def _mpow(x, y):
    return E.power(x, y)


def _mean(data):
    data = list(data)
    if not data:
        raise statistics.StatisticsError('mean requires at least one data '
                                         'point')
    if not A.has_sym(data):
        return _ORIG_STAT['mean'](data)
    return sum(data) / len(data)


def _median(data):
    data = list(data)
    if not A.has_sym(data):
        return _ORIG_STAT['median'](data)
    return A._median(data)


def _stdev(data, xbar=None):
    data = list(data)
    if len(data) < 2:
        raise statistics.StatisticsError('stdev requires at least two data '
                                         'points')
    if not A.has_sym(data):
        return _ORIG_STAT['stdev'](data)
    m = _mean(data)
    return E.sqrt(sum((d - m) * (d - m) for d in data) / (len(data) - 1))


_ORIG_STAT = {n: getattr(statistics, n) for n in ('mean', 'median', 'stdev')}

MATH = {
    'exp': _m1('exp', _mexp), 'log': _m1('log', _mlog),
    'sqrt': _m1('sqrt', _msqrt), 'tanh': _m1('tanh', lambda x:
                                             E.fn('tanh')(x)),
    'sin': _m1('sin', lambda x: E.fn('sin')(x)),
    'cos': _m1('cos', lambda x: E.fn('cos')(x)),
    'isnan': _m1('isnan', lambda x: False),
    'isinf': _m1('isinf', lambda x: False),
    'isfinite': _m1('isfinite', lambda x: True),
    'fabs': _m1('fabs', abs),
    'log1p': _m1('log1p', lambda x: E.fn('log1p')(x)),
    'floor': _m1('floor', lambda x: x.__floor__()),
    'ceil': _m1('ceil', lambda x: x.__ceil__()),
}
_opow = math.pow


def _pow(x, y):
    if E.is_sym(x) or E.is_sym(y):
        return _mpow(x, y)
    return _opow(x, y)


MATH['pow'] = _pow


# ------------------------------------------------------------------- install

@contextlib.contextmanager
def rng_stub(h):
    """Random number generators -> values chosen by the harness."""
    global H
    saved = []

    def put(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    prev, H = H, h
    for n in RNG_NAMES:
        if hasattr(np.random, n):
            put(np.random, n, getattr(_rng, n))
    put(np.random, 'RandomState', RNG)
    put(np.random, 'default_rng', RNG)
    for n in PY_NAMES:
        put(random, n, getattr(_py, n))
    put(random, 'Random', PyRandom)
    try:
        yield
    finally:
        H = prev
        for o, n, v in reversed(saved):
            setattr(o, n, v)


@contextlib.contextmanager
def symbolic_mode():
    saved = []
    added = []

    def put(o, n, v):
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    for n, v in A.PATCHES.items():
        if hasattr(np, n):
            put(np, n, v)
    for n, v in MATH.items():
        put(math, n, v)
    put(statistics, 'mean', _mean)
    put(statistics, 'median', _median)
    put(statistics, 'stdev', _stdev)
    put(np.linalg, 'norm', A._listy_norm)
    bm = sys.modules.get('chainer.functions.math.basic_math')
    if bm is not None:
        pre = bm._preprocess_const
        put(bm, '_preprocess_const',
            lambda x, v: A.new((), x.dtype, v)
            if E.is_sym(v) or isinstance(x, A.SymArray) and
            isinstance(v, (int, float)) else pre(x, v))
        lab = bm._convert_value_to_string     # only labels nodes of graphs
        put(bm, '_convert_value_to_string',
            lambda v: '' if E.is_sym(v) else lab(v))
    for name, m in list(sys.modules.items()):
        if m is not None and (name == 'chainerrl' or
                              name.startswith('chainerrl.')):
            for n, v in (('float', A.sfloat), ('int', A.sint),
                         ('min', A.smin_), ('max', A.smax_)):
                if n not in m.__dict__:
                    m.__dict__[n] = v
                    added.append((m, n))
    try:
        yield
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)
        for m, n in added:
            m.__dict__.pop(n, None)


@contextlib.contextmanager
def unpatched():
    """Temporarily restore real numpy inside symbolic mode (model set-up)."""
    saved = []
    for n in A.PATCHES:
        if hasattr(np, n):
            saved.append((np, n, getattr(np, n)))
            setattr(np, n, ORIG[n])
    try:
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


ORIG = {n: getattr(np, n) for n in A.PATCHES if hasattr(np, n)}
