"""Probability distributions over actions."""
from fractions import Fraction
import math as _m

import scipy.optimize

import chainerrl
from chainerrl import distribution as D
from chainerrl.functions import mellowmax as mmx

from symx.api import *
from checks._agents import *
from checks._num import exp

BOUNDS = ('batches of 1..2 (the second row of categorical ones '
          'given), up to 3 actions or 2 dimensions; all logits, '
          'temperatures, minimum probabilities, means, variances and points')
ASSUMPTIONS = ['reals stand for floats; exp, log, tanh and arctanh are '
               'uninterpreted functions with their algebraic laws',
               'scipy\'s root finder returns a root of the function it is '
               'given, or raises ValueError',
               'what is drawn from NumPy\'s generators is arbitrary within '
               'their ranges: the probability of outcomes is not decided']


def param(x, name, shape, lo=-2, hi=2):
    return chainer.Parameter(x.reals(name, shape, lo, hi))


def rows(x, name, B, n):
    """Arbitrary first row, given others."""
    r = x.reals(name, (1, n), -2, 2)
    return chainer.Parameter(x.array(
        list(r) + [[Fraction(k, 2) - i for k in range(n)]
                   for i in range(1, B)], 'f4'))


def log(x, v):
    return np.log(x.array([v], 'f8'))[0]


def check_categorical(x, d, p, B, n, order):
    """p: expected probabilities, order: same order as the probabilities."""
    pr, lp = d.all_prob, d.all_log_prob
    x.check(pr.shape == (B, n) and lp.shape == (B, n), 'shapes')
    for i in range(B):
        for a in range(n):
            x.eq(pr.array[i, a], p[i][a], 'probabilities')
            x.eq(lp.array[i, a], log(x, p[i][a]), 'log probabilities')
        x.eq(sum(pr.array[i, a] for a in range(n)), 1, 'sum to one')
        x.eq(d.entropy.array[i],
             -sum(p[i][a] * log(x, p[i][a]) for a in range(n)), 'entropy')
    best = d.most_probable
    x.check(best.shape == (B,) and best.dtype == np.int32, 'most probable')
    for i in range(B):
        for a in range(n):
            x.le(order[i][a], order[i][int(best.array[i])], 'most probable')
    acts = [(i + 1) % n for i in range(B)]
    A = np.asarray(acts, dtype=np.int32)
    pa, la = d.prob(A).array, d.log_prob(A).array
    x.check(pa.shape == (B,) and la.shape == (B,), 'shapes')
    for i in range(B):
        x.eq(pa[i], p[i][acts[i]], 'probability of actions')
        x.eq(la[i], log(x, p[i][acts[i]]), 'log probability of actions')


@harness(quick=[dict(B=b, n=n, mp=m) for b, n in ((1, 2), (1, 3))
                for m in (False, True)] + [dict(B=2, n=2, mp=False)],
         thorough=[dict(B=2, n=2, mp=m) for m in (False, True)])
def softmax(x, B, n, mp):
    l = rows(x, 'l', B, n)
    beta = x.real('beta', 0.25, 4)
    m = x.real('min_prob', 0.01, Fraction(1, n)) if mp else 0
    d = D.SoftmaxDistribution(l, beta=beta, min_prob=m)
    es = [[exp(x, beta * l.array[i, a]) for a in range(n)] for i in range(B)]
    p = [[es[i][a] / sum(es[i]) * (1 - n * m) + m for a in range(n)]
         for i in range(B)]
    order = l.array
    if mp:
        x.assume(m <= Fraction(9, 10 * n))
    check_categorical(x, d, p, B, n, order)
    for i in range(B):
        for a in range(n):
            x.le(m, d.all_prob.array[i, a], 'at least the minimum')
    x.check(len(d.params) == 1 and d.params[0] is l, 'parameters')
    # the copy
    c = d.copy()
    x.eq(c.all_prob.array, d.all_prob.array, 'copy')
    l0 = l.array.copy()
    l.array[...] = l0 + 1
    x.eq(c.params[0].array if hasattr(c.params[0], 'array') else c.params[0],
         l0, 'the copy does not follow')
    l.array[...] = l0
    # parts
    s = d[B - 1:]
    x.eq(s.all_prob.array, d.all_prob.array[B - 1:], 'part of a batch')
    l.cleargrad()
    F.sum(c.entropy).backward()
    x.check(l.grad is None, 'the copy is not connected')


@harness(quick=[dict(n=2), dict(n=3)])
def softmax_gradients(x, n):
    """d log p(a) / dl = beta (1{a} - p)."""
    l = param(x, 'l', (1, n))
    beta = x.real('beta', 0.25, 4)
    d = D.SoftmaxDistribution(l, beta=beta)
    with chainer.no_backprop_mode():
        ent = d.entropy
    a = x.choice('a', range(n))
    F.sum(d.log_prob(np.asarray([a], dtype=np.int32))).backward()
    p = d.all_prob.array[0]
    for k in range(n):
        x.eq(l.grad[0, k], beta * ((1 if k == a else 0) - p[k]),
             'gradient of the log probability')
    l.cleargrad()
    F.sum(ent).backward()
    for k in range(n):
        x.eq(l.grad[0, k], -beta * p[k] * (log(x, p[k]) + ent.array[0]),
             'gradient of the entropy')


@harness(quick=[dict(mp=False, n=2), dict(mp=True, n=2),
                dict(mp=False, n=3)],
         thorough=[dict(mp=True, n=3)], time_limit=400)
def softmax_kl(x, mp, n):
    m = Fraction(1, 10) if mp else 0
    l, k = x.reals('l', (1, n), -2, 2), x.reals('k', (1, n), -2, 2)
    P, Q = [D.SoftmaxDistribution(chainer.Variable(v), min_prob=float(m))
            for v in (l, k)]
    kl = P.kl(Q)
    x.check(kl.shape == (1,), 'shape')
    ps, qs = [[e / sum(es) * (1 - n * m) + m for e in es] for es in
              ([exp(x, v[0, a]) for a in range(n)] for v in (l, k))]
    x.eq(kl.array[0], sum(p * (log(x, p) - log(x, q))
                          for p, q in zip(ps, qs)), 'divergence')
    x.eq(P.kl(P).array[0], 0, 'from itself')


@harness(quick=[dict(B=b, n=n) for b, n in ((1, 2), (2, 2), (1, 3))])
def sampling(x, B, n):
    """Samples are actions; sample_with_log_prob is consistent; the fixed
    cdf decides nothing else (probabilities are out of reach)."""
    l = param(x, 'l', (B, n), -1, 1)
    d = D.SoftmaxDistribution(l)
    a, lp = d.sample_with_log_prob()
    x.check(a.shape == (B,) and a.dtype == np.int32, 'actions')
    for i in range(B):
        k = int(a.array[i])
        x.check(0 <= k < n, 'an action')
        x.eq(lp.array[i], d.all_log_prob.array[i, k], 'its log probability')
    b = d.sample()
    x.check(all(0 <= int(v) < n for v in b.array), 'an action')


def brent(x, log_):
    """What a root finder returns satisfies f = 0; nothing below needs
    that, so any number stands for the root."""
    def brentq(f, a, b, args=(), **kw):
        if not isinstance(args, tuple):
            args = (args,)
        if x.flag('no_root%d' % len(log_)):
            log_.append((None, args))
            raise ValueError('f(a) and f(b) must have different signs')
        y = x.real('root%d' % len(log_), a, b)
        log_.append((y, args, f))
        return y
    return brentq


@harness(quick=[dict(n=2), dict(n=3), dict(n=2, B=2)])
def mellowmax(x, n, B=1):
    """The mellowmax policy is the Boltzmann policy whose expected value is
    the mellowmax (with the distribution's omega)."""
    v = rows(x, 'v', B, n)
    om = x.real('omega', 0.5, 8)
    d = D.MellowmaxDistribution(v, omega=om)
    found = []
    keep = scipy.optimize.brentq
    scipy.optimize.brentq = brent(x, found) if x.symbolic else keep
    try:
        p = d.all_prob.array
    finally:
        scipy.optimize.brentq = keep
    if x.symbolic:
        x.check(len(found) == B, 'one root per row')
        for i in range(B):
            if found[i][0] is None:
                for a in range(n):
                    x.eq(p[i, a], Fraction(1, n), 'no root: uniform')
                continue
            y, (adv,), f = found[i]
            es = [exp(x, om * v.array[i, a]) for a in range(n)]
            mm = (log(x, sum(es)) - float(np.log(n))) / om
            for a in range(n):
                x.eq(adv[a], v.array[i, a] - mm,
                     'values relative to the mellowmax')
                x.eq(p[i, a] * exp(x, y * v.array[i, 0]),
                     p[i, 0] * exp(x, y * v.array[i, a]), 'Boltzmann policy')
            t = x.real('t', -4, 4)
            x.eq(f(t, adv), sum(exp(x, t * adv[a]) * adv[a]
                                for a in range(n)), 'the root condition')
    else:
        for i in range(B):
            mm = _m.log(sum(_m.exp(om * w) for w in v.array[i]) / n) / om
            e = float(np.sum(p[i] * v.array[i]))
            uni = np.allclose(p[i], 1. / n, atol=1e-6)
            x.check(uni or abs(e - mm) < 1e-3, 'expected value')
            adv = v.array[i] - mm
            s = [float(np.sum(np.exp(b * adv) * adv)) for b in (-10, 10)]
            if s[0] * s[1] < 0:
                x.check(abs(e - mm) < 1e-3,
                        'values relative to the mellowmax')
    for i in range(B):
        x.eq(sum(p[i, a] for a in range(n)), 1, 'sum to one')


def gauss(x, u, m, v):
    return -(Fraction(1, 2) * float(np.log(2 * np.pi)) + log(x, v) / 2) - \
        (u - m) * (u - m) / (2 * v)


LOG2PI = float(np.log(2 * np.pi))


@harness(quick=[dict(B=b, d=d) for b, d in ((1, 1), (1, 2), (2, 1))],
         thorough=[dict(B=2, d=2)])
def gaussian(x, B, d):
    m, v = param(x, 'm', (B, d)), param(x, 'v', (B, d), 0.1, 4)
    g = D.GaussianDistribution(m, v)
    u = x.reals('u', (B, d), -2, 2)
    lp = g.log_prob(u)
    x.check(lp.shape == (B,), 'shape')
    for i in range(B):
        e = sum(-log(x, v.array[i, k]) / 2 -
                (u[i, k] - m.array[i, k]) * (u[i, k] - m.array[i, k]) /
                (2 * v.array[i, k]) for k in range(d))
        x.eq(lp.array[i], e - LOG2PI * d / 2, 'log density', tol=1e-5)
        x.eq(g.prob(u).array[i], exp(x, lp.array[i]), 'density')
        x.eq(g.entropy.array[i],
             sum(log(x, v.array[i, k]) for k in range(d)) / 2 +
             (LOG2PI + 1) * d / 2, 'entropy', tol=1e-5)
    x.eq(g.most_probable.array, m.array, 'most probable')
    x.check([p is q for p, q in zip(g.params, (m, v))] == [True, True],
            'parameters')
    m2, v2 = x.reals('m2', (B, d), -2, 2), x.reals('v2', (B, d), 0.1, 4)
    q = D.GaussianDistribution(chainer.Variable(m2), chainer.Variable(v2))
    kl = g.kl(q).array
    for i in range(B):
        x.eq(kl[i], sum(log(x, v2[i, k]) - log(x, v.array[i, k]) - 1 +
                        (v.array[i, k] + (m.array[i, k] - m2[i, k]) *
                         (m.array[i, k] - m2[i, k])) / v2[i, k]
                        for k in range(d)) / 2, 'divergence')
        x.eq(g.kl(g).array[i], 0, 'from itself')
    c = g.copy()
    x.eq(c.mean.array, m.array, 'copy')
    x.eq(c.var.array, v.array, 'copy')
    m0 = m.array.copy()
    m.array[...] = m0 + 1
    x.eq(c.mean.array, m0, 'the copy does not follow')
    m.array[...] = m0
    s = g[B - 1:]
    x.eq(s.log_prob(u[B - 1:]).array, lp.array[B - 1:], 'part of a batch')
    # gradients of the log density
    m.cleargrad(), v.cleargrad()
    F.sum(lp).backward()
    for i in range(B):
        for k in range(d):
            w, s2 = u[i, k] - m.array[i, k], v.array[i, k]
            x.eq(m.grad[i, k], w / s2, 'gradient')
            x.eq(v.grad[i, k], (w * w / s2 - 1) / (2 * s2), 'gradient')


@harness(quick=[dict(B=b, d=d) for b, d in ((1, 1), (1, 2), (2, 1))])
def gaussian_sample(x, B, d):
    """A sample is the mean plus the standard deviation times noise, and
    differentiable that way; the log probability returned with it is its
    own."""
    m, v = param(x, 'm', (B, d)), param(x, 'v', (B, d), 0.1, 4)
    g = D.GaussianDistribution(m, v)
    x.draws[:] = []
    y, lp = g.sample_with_log_prob()
    eps = np.reshape(x.array([t[2] for t in x.draws], 'f8'), (B, d))
    x.check(y.shape == (B, d) and lp.shape == (B,), 'shapes')
    for i in range(B):
        for k in range(d):
            w = y.array[i, k] - m.array[i, k]
            x.eq(w * w, v.array[i, k] * eps[i, k] * eps[i, k], 'scale')
            x.check(w * eps[i, k] >= 0, 'sign')
    lq = g.log_prob(y.array)
    x.eq(lp.array, lq.array, 'log probability of the sample')
    F.sum(y).backward()
    for i in range(B):
        for k in range(d):
            x.eq(m.grad[i, k], 1, 'gradient of the mean')
            w = y.array[i, k] - m.array[i, k]
            x.eq(v.grad[i, k] * 2 * v.array[i, k], w,
                 'gradient of the variance')


def log_jac(x, u):
    """log(1 - tanh(u)^2) = log 4 - 2u - 2 log(1 + exp(-2u))."""
    return -2 * u - 2 * log(x, 1 + exp(x, -2 * u))


@harness(quick=[dict(B=b, d=d) for b, d in ((1, 1), (1, 2), (2, 1))])
def squashed(x, B, d):
    m, v = param(x, 'm', (B, d)), param(x, 'v', (B, d), 0.1, 4)
    g = D.SquashedGaussianDistribution(m, v)
    n = D.GaussianDistribution(m, v)
    raw = x.reals('raw', (B, d), -2, 2)
    y = np.tanh(raw)
    lp = g.log_prob(y)
    x.check(lp.shape == (B,), 'shape')
    base = n.log_prob(raw).array
    for i in range(B):
        x.eq(lp.array[i], base[i] -
             sum(log_jac(x, raw[i, k]) + 2 * float(np.log(2.))
                 for k in range(d)), 'log density', tol=1e-5)
    x.eq(g.prob(y).array, np.exp(lp.array), 'density')
    x.eq(g.most_probable.array, np.tanh(m.array), 'squashed mean')
    x.draws[:] = []
    s, slp = g.sample_with_log_prob()
    for i in range(B):
        for k in range(d):
            x.check(land(s.array[i, k] > -1, s.array[i, k] < 1) if x.symbolic
                    else abs(s.array[i, k]) <= 1, 'within the bounds')
    if x.symbolic:
        x.eq(slp.array, g.log_prob(s.array).array,
             'log probability of the sample', tol=1e-5)
    t = g.sample()
    x.check(t.shape == (B, d), 'shape')
    c = g.copy()
    x.eq(c.mean.array, m.array, 'copy')
    x.eq(c.var.array, v.array, 'copy')
    m0 = m.array.copy()
    m.array[...] = m0 + 1
    x.eq(c.mean.array, m0, 'the copy does not follow')
    m.array[...] = m0
    z = g[B - 1:]
    x.eq(z.log_prob(y[B - 1:]).array, lp.array[B - 1:], 'part of a batch')
    x.check([p is q for p, q in zip(g.params, (m, v))] == [True, True],
            'parameters')


@harness(quick=[dict(B=1), dict(B=2)])
def deterministic(x, B):
    p = param(x, 'p', (B, 2))
    d = D.ContinuousDeterministicDistribution(p)
    x.eq(d.sample().array, p.array, 'the sample')
    x.eq(d.most_probable.array, p.array, 'the most probable')
    c = d.copy()
    p0 = p.array.copy()
    p.array[...] = p0 + 1
    x.eq(c.sample().array, p0, 'the copy does not follow')
    for f in (lambda: d.entropy, lambda: d.prob(p0), lambda: d.log_prob(p0),
              lambda: d.kl(d)):
        x.raises(RuntimeError, f, 'undefined')
    F.sum(d.sample()).backward()
    x.eq(p.grad, np.ones((B, 2)), 'gradient')
