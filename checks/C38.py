"""Action values: greedy actions, maxima, evaluation."""
from fractions import Fraction

import chainerrl
from chainerrl import action_value as AV

from symx.api import *
from checks._agents import *
from checks._num import exp

BOUNDS = ('batches of 1..2, up to 4 actions, 1..3 atoms or quantiles, '
          'continuous actions of 1..2 dimensions; all values, supports, '
          'coefficient matrices, bounds and actions; gradients of every '
          'output')
ASSUMPTIONS = ['reals stand for floats; exp is an uninterpreted increasing '
               'positive function']


def param(x, name, shape, lo=-2, hi=2):
    return chainer.Parameter(x.reals(name, shape, lo, hi))


def make(x, kind, B, n):
    """(action value, the expected q table, its parameter, dq/dparam)."""
    if kind == 'discrete':
        p = param(x, 'q', (B, n))
        q = p.array.copy()
        return AV.DiscreteActionValue(p), q, p, \
            lambda i, a: {(i, a): 1}
    if kind == 'distributional':
        K = 3 if n < 3 else 2
        p = param(x, 'p', (B, n, K), 0, 1)
        z = x.reals('z', (K,), -2, 2)
        d = p.array.copy()
        q = [[sum(d[i, a, k] * z[k] for k in range(K)) for a in range(n)]
             for i in range(B)]
        return AV.DistributionalDiscreteActionValue(p, z), x.array(q), p, \
            lambda i, a: {(i, a, k): z[k] for k in range(K)}
    K = 2
    p = param(x, 't', (B, K, n))
    d = p.array.copy()
    q = [[sum(d[i, k, a] for k in range(K)) / K for a in range(n)]
         for i in range(B)]
    return AV.QuantileDiscreteActionValue(p), x.array(q), p, \
        lambda i, a: {(i, k, a): Fraction(1, K) for k in range(K)}





def grad_is(x, out, p, want, msg):
    p.cleargrad()
    F.sum(out).backward()
    for idx in np.ndindex(*p.shape):
        x.eq(p.grad[idx], want.get(idx, 0), msg)


def merge(ds, signs=None):
    r = {}
    for d, s in zip(ds, signs or [1] * len(ds)):
        for k, v in d.items():
            r[k] = r.get(k, 0) + s * v
    return r


@harness(quick=[dict(kind=k, B=b, n=n)
                for k in ('discrete', 'distributional', 'quantile')
                for b, n in ((1, 3), (2, 2))],
         thorough=[dict(kind=k, B=b, n=n)
                   for k in ('discrete', 'distributional', 'quantile')
                   for b, n in ((1, 4), (2, 3))])
def discrete(x, kind, B, n):
    av, q, p, dq = make(x, kind, B, n)
    g = av.greedy_actions
    x.check(g.dtype == np.int32 and g.shape == (B,), 'greedy actions')
    gs = [int(v) for v in g.array]
    for i in range(B):
        for a in range(n):
            x.le(q[i, a], q[i, gs[i]], 'greedy actions maximise')
    for i in range(B):
        x.eq(av.max.array[i], q[i, gs[i]], 'max')
    with chainer.no_backprop_mode():
        acts = [x.choice('a%d' % i, range(n)) for i in range(B)]
    acts2 = [(a + 1) % n for a in acts]
    A, A2 = [np.asarray(v, dtype=np.int32) for v in (acts, acts2)]
    grad_is(x, av.max, p, merge([dq(i, gs[i]) for i in range(B)]),
            'gradient of max')
    ev = av.evaluate_actions(A)
    x.check(ev.shape == (B,), 'shape')
    for i in range(B):
        x.eq(ev.array[i], q[i, acts[i]], 'evaluation')
    grad_is(x, ev, p, merge([dq(i, acts[i]) for i in range(B)]),
            'gradient of an evaluation')
    ad = av.compute_advantage(A)
    for i in range(B):
        x.eq(ad.array[i], q[i, acts[i]] - q[i, gs[i]], 'advantage')
        x.le(ad.array[i], 0, 'advantages are not positive')
    dd = av.compute_double_advantage(A, A2)
    for i in range(B):
        x.eq(dd.array[i], q[i, acts[i]] - q[i, acts2[i]],
             'double advantage')
    grad_is(x, dd, p, merge([dq(i, a) for i, a in enumerate(acts)] +
                            [dq(i, a) for i, a in enumerate(acts2)],
                            [1] * B + [-1] * B),
            'gradient of a double advantage')
    # rows are independent: a part of the batch is the batch's part
    sub = av[B - 1:]
    x.check(type(sub) is type(av), 'part of a batch')
    x.eq(sub.q_values.array, q[B - 1:], 'part of a batch')
    x.check(sub.n_actions == n, 'part of a batch')
    x.check([int(v) for v in sub.greedy_actions.array] == gs[B - 1:],
            'part of a batch')
    x.check(len(av.params) == 1 and av.params[0] is p, 'parameters')
    if kind == 'distributional':
        for out, which in ((av.max_as_distribution, gs),
                           (av.evaluate_actions_as_distribution(A), acts),
                           (av.evaluate_actions_as_distribution(
                               chainer.Variable(A)), acts)):
            x.eq(out.array, [p.array[i, which[i]] for i in range(B)],
                 'distribution of an action')
            grad_is(x, out, p, {(i, which[i], k): 1 for i in range(B)
                                for k in range(p.shape[2])},
                    'gradient of a distribution')
    if kind == 'quantile':
        for arg in (A, chainer.Variable(A)):
            out = av.evaluate_actions_as_quantiles(arg)
            x.eq(out.array, [p.array[i, :, acts[i]] for i in range(B)],
                 'quantiles of an action')
            grad_is(x, out, p, {(i, k, acts[i]): 1 for i in range(B)
                                for k in range(p.shape[1])},
                    'gradient of quantiles')


@harness(quick=[dict(kind=k, n=n) for k in ('discrete', 'distributional',
                                            'quantile') for n in (2, 3)])
def expectation(x, kind, n):
    """Expectation under the Boltzmann policy."""
    av, q, p, dq = make(x, kind, 1, n)
    beta = x.real('beta', 0, 4)
    out = av.compute_expectation(beta).array
    x.check(out.shape == (1,), 'shape')
    es = [exp(x, beta * q[0, a]) for a in range(n)]
    x.eq(out[0] * sum(es), sum(e * q[0, a] for a, e in enumerate(es)),
         'expectation')


@harness(quick=[dict(d=d, bound=b) for d in (1, 2)
                for b in ('no', 'both', 'min', 'max')] +
         [dict(d=1, bound='both', B=2)],
         thorough=[dict(d=2, bound='both', B=2), dict(d=3, bound='both')])
def quadratic(x, d, bound, B=1):
    mu, v = param(x, 'mu', (B, d)), param(x, 'v', (B, 1))
    mat = x.reals('P', (B, d, d), -2, 2)
    for i in range(B):      # positive definite: diagonally dominant
        for a in range(d):
            for b in range(a):
                mat[i, a, b] = mat[i, b, a]
            off = sum(sabs(mat[i, a, b]) for b in range(d) if b != a)
            x.assume(mat[i, a, a] > off)
    P = chainer.Parameter(mat)
    lo = x.reals('lo', (d,), -2, 2) if bound in ('both', 'min') else None
    hi = x.reals('hi', (d,), -2, 2) if bound in ('both', 'max') else None
    if bound == 'both':
        for k in range(d):
            x.assume(lo[k] < hi[k])
    av = AV.QuadraticActionValue(mu, P, v, lo, hi)
    m = mu.array

    def Q(i, u):
        w = [u[k] - m[i, k] for k in range(d)]
        return v.array[i, 0] - sum(w[a] * mat[i, a, b] * w[b] for a in range(d)
                                   for b in range(d)) / 2
    g = av.greedy_actions.array
    x.check(g.shape == (B, d), 'shape')
    u = x.reals('u', (B, d), -2, 2)
    ev = av.evaluate_actions(u)
    x.check(ev.shape == (B,), 'shape')
    for i in range(B):
        for k in range(d):
            e = m[i, k]
            if lo is not None:
                e = smax(lo[k], e)
            if hi is not None:
                e = smin(hi[k], e)
            x.eq(g[i, k], e, 'greedy action: within the bounds')
        x.eq(ev.array[i], Q(i, u[i]), 'evaluation')
        x.eq(av.max.array[i], Q(i, g[i]), 'max')
    ad = av.compute_advantage(u).array
    dbl = av.compute_double_advantage(u, u * 0).array
    for i in range(B):
        x.eq(ad[i], Q(i, u[i]) - Q(i, g[i]), 'advantage')
        x.eq(dbl[i], Q(i, u[i]) - Q(i, [0] * d), 'double advantage')
        if d == 1 or bound == 'no':
            inside = [u[i, k] >= lo[k] for k in range(d)
                      if lo is not None] + \
                     [u[i, k] <= hi[k] for k in range(d) if hi is not None]
            if d == 1:
                x.check(implies(land(True, *inside), ad[i] <= 0),
                        'no allowed action is better')
    mu.cleargrad(), P.cleargrad(), v.cleargrad()
    F.sum(ev).backward()
    for i in range(B):
        w = [u[i, k] - m[i, k] for k in range(d)]
        x.eq(v.grad[i, 0], 1, 'gradient')
        for a in range(d):
            x.eq(mu.grad[i, a], sum(mat[i, a, b] * w[b] for b in range(d)),
                 'gradient')
            for b in range(d):
                x.eq(P.grad[i, a, b], -w[a] * w[b] / 2, 'gradient')
    sub = av[B - 1:]
    x.eq(sub.evaluate_actions(u[B - 1:]).array[0], Q(B - 1, u[B - 1]),
         'part of a batch')
    x.eq(sub.greedy_actions.array, g[B - 1:], 'part of a batch')


def sabs(v):
    return ite(v >= 0, v, -v)


@harness(quick=[dict()])
def single(x):
    """SingleActionValue: a function and its maximiser."""
    p = param(x, 'p', (2,))

    def q(a):
        return F.sum(F.square(a), axis=1) * p[0:1] + p[1:2]
    best = param(x, 'best', (1, 2))
    av = AV.SingleActionValue(q, lambda: best * 2)
    u = x.reals('u', (1, 2), -2, 2)
    b = best.array * 2

    def Q(w):
        return (w[0, 0] * w[0, 0] + w[0, 1] * w[0, 1]) * p.array[0] + \
            p.array[1]
    x.eq(av.evaluate_actions(u).array[0], Q(u), 'evaluation')
    x.eq(av.greedy_actions.array, b, 'greedy action')
    x.eq(av.max.array[0], Q(b), 'max')
    x.eq(av.compute_advantage(u).array[0], Q(u) - Q(b), 'advantage')
    w = u + 1
    x.eq(av.compute_double_advantage(u, w).array[0], Q(u) - Q(w),
         'double advantage')
    best.cleargrad()
    with chainer.no_backprop_mode():
        av2 = AV.SingleActionValue(q, lambda: best * 2)
        mx = av2.max
    mx.backward()
    for k in range(2):
        x.eq(best.grad[0, k], 4 * b[0, k] * p.array[0],
             'gradient of the maximum')
