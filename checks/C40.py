"""Differentiable functions: values and gradients."""
from fractions import Fraction

import chainerrl.functions as CF
from chainerrl.functions.bound_by_tanh import bound_by_tanh
from chainerrl.functions.invert_gradients import invert_gradients
from chainerrl.functions.lower_triangular_matrix import \
    lower_triangular_matrix
from chainerrl.functions.mellowmax import mellowmax
from chainerrl.functions.scale_grad import scale_grad

from symx.api import *
from checks._agents import *
from checks._num import exp

BOUNDS = ('arrays of up to 2x3 elements (2 matrices of up to 3x3, up to 4 '
          'arrays in a sum); all values, weights, ranges and incoming '
          'gradients')
ASSUMPTIONS = ['reals stand for floats; exp, log, tanh and arctanh are '
               'uninterpreted functions with their algebraic laws']


def param(x, name, shape, lo=-2, hi=2):
    return chainer.Parameter(x.reals(name, shape, lo, hi))


def back(x, y, *ps):
    """Backpropagate an arbitrary gradient; returns it."""
    g = x.reals('gy', y.shape, -2, 2)
    for p in ps:
        p.cleargrad()
    y.grad = g
    y.backward()
    return g


@harness(quick=[dict(s=s) for s in ((1, 1), (2, 2))],
         thorough=[dict(s=(2, 3))])
def arctanh(x, s):
    p = param(x, 'p', s, -0.9, 0.9)
    y = CF.arctanh(p)
    x.eq(np.tanh(y.array), p.array, 'inverse of tanh')
    g = back(x, y, p)
    for i in np.ndindex(*s):
        x.eq(p.grad[i] * (1 - p.array[i] * p.array[i]), g[i], 'gradient')


@harness(quick=[dict(s=s) for s in ((1, 1), (2, 2))],
         thorough=[dict(s=(2, 3))])
def bounded(x, s):
    p = param(x, 'p', s)
    lo, w = x.reals('lo', s[1:], -2, 2), x.reals('w', s[1:], 0.1, 2)
    y = bound_by_tanh(p, lo, lo + w)
    t = np.tanh(p.array)
    for i in np.ndindex(*s):
        c = lo[i[1]] + w[i[1]] / 2
        x.eq(y.array[i], c + t[i] * w[i[1]] / 2, 'value')
        x.check(land(y.array[i] > lo[i[1]] - 1e-6,
                     y.array[i] < lo[i[1]] + w[i[1]] + 1e-6),
                'within the bounds')
    g = back(x, y, p)
    for i in np.ndindex(*s):
        x.eq(p.grad[i], g[i] * (1 - t[i] * t[i]) * w[i[1]] / 2, 'gradient')


@harness(quick=[dict(s=s) for s in ((1, 1), (2, 1), (1, 2), (2, 2))])
def inverted(x, s):
    """Gradients shrink towards the limit they push at, and turn round
    beyond it; values are unchanged."""
    p = param(x, 'p', s, -4, 4)
    lo, w = x.reals('lo', s[1:], -2, 2), x.reals('w', s[1:], 0.1, 2)
    hi = lo + w
    y = invert_gradients(p, lo, hi)
    x.eq(y.array, p.array, 'the value')
    g = back(x, y, p)
    for i in np.ndindex(*s):
        k = i[1]
        v = p.array[i]
        want = ite(g[i] < 0, g[i] * (hi[k] - v), g[i] * (v - lo[k]))
        x.eq(p.grad[i] * w[k], want, 'gradient')
        # one step of descent never increases the violation of a limit
        x.check(implies(v > hi[k], p.grad[i] >= 0), 'turned round above')
        x.check(implies(v < lo[k], p.grad[i] <= 0), 'turned round below')


@harness(quick=[dict(s=s) for s in ((1, 1), (2, 2))])
def scaled(x, s):
    p = param(x, 'p', s)
    k = x.real('scale', -2, 2)
    y = scale_grad(p, k)
    x.eq(y.array, p.array, 'the value')
    g = back(x, y, p)
    for i in np.ndindex(*s):
        x.eq(p.grad[i], k * g[i], 'gradient')


@harness(quick=[dict(n=n, s=s) for n in (1, 2, 4) for s in ((2,), (2, 2))])
def sums(x, n, s):
    ps = [param(x, 'p%d' % i, s) for i in range(n)]
    ws = [x.real('w%d' % i, -2, 2) for i in range(n)]
    for weights in (None, ws):
        y = CF.sum_arrays(ps) if weights is None else \
            CF.weighted_sum_arrays(ps, weights)
        x.check(y.shape == s, 'shape')
        for i in np.ndindex(*s):
            x.eq(y.array[i], sum(p.array[i] * (w if weights else 1)
                                 for p, w in zip(ps, ws)), 'sum')
        g = back(x, y, *ps)
        for p, w in zip(ps, ws):
            for i in np.ndindex(*s):
                x.eq(p.grad[i], g[i] * (w if weights else 1), 'gradient')


@harness(quick=[dict(s=s) for s in ((2,), (2, 2))])
def muladd(x, s):
    a, b, c = [param(x, n, s) for n in 'abc']
    y = CF.muladd(a, b, c)
    for i in np.ndindex(*s):
        x.eq(y.array[i], a.array[i] * b.array[i] + c.array[i], 'value')
    g = back(x, y, a, b, c)
    for i in np.ndindex(*s):
        x.eq(a.grad[i], b.array[i] * g[i], 'gradient')
        x.eq(b.grad[i], a.array[i] * g[i], 'gradient')
        x.eq(c.grad[i], g[i], 'gradient')


@harness(quick=[dict(B=b, n=n) for b in (1, 2) for n in (1, 2, 3)],
         thorough=[dict(B=2, n=4)])
def triangular(x, B, n):
    k = n * (n - 1) // 2
    d, o = param(x, 'd', (B, n)), param(x, 'o', (B, k))
    y = lower_triangular_matrix(d, o)
    x.check(y.shape == (B, n, n), 'shape')
    pos = {}
    for r in range(n):
        for c in range(r):
            pos[r, c] = len(pos)
    for i in range(B):
        for r in range(n):
            for c in range(n):
                e = d.array[i, r] if r == c else \
                    o.array[i, pos[r, c]] if c < r else 0
                x.eq(y.array[i, r, c], e, 'the matrix')
    g = back(x, y, d, o)
    for i in range(B):
        for r in range(n):
            x.eq(d.grad[i, r], g[i, r, r], 'gradient')
            for c in range(r):
                x.eq(o.grad[i, pos[r, c]], g[i, r, c], 'gradient')


@harness(quick=[dict(s=s, axis=a) for s, a in
                (((1, 2), 1), ((1, 3), 1), ((2, 2), 1), ((2, 1), 0))])
def mellow(x, s, axis):
    """omega mm = log of the mean of exp(omega v); between mean and max."""
    p = param(x, 'p', s)
    om = x.real('omega', 0.25, 8)
    y = mellowmax(p, omega=om, axis=axis)
    n = s[axis]
    rows = list(p.array) if axis == 1 else list(p.array.T)
    x.check(y.shape == (len(rows),), 'shape')
    for i, row in enumerate(rows):
        es = [exp(x, om * v) for v in row]
        x.eq(exp(x, om * y.array[i] + float(np.log(n))), sum(es),
             'log mean exp', tol=1e-5)
    g = back(x, y, p)
    gr = p.grad if axis == 1 else p.grad.T
    for i, row in enumerate(rows):
        es = [exp(x, om * v) for v in row]
        for k in range(n):
            x.eq(gr[i, k] * sum(es), g[i] * es[k], 'gradient')
