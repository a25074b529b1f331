"""Running normalization of observations and filters of rewards."""
from fractions import Fraction

import chainerrl
from chainerrl.links import EmpiricalNormalization
from chainerrl.misc.reward_filter import AverageRewardFilter, \
    NormalizedRewardFilter

from symx.api import *
from checks._agents import *

BOUNDS = ('up to 3 batches of 1..2 values of up to 2 dimensions on either '
          'batch axis; all values, learning limits, clipping thresholds; '
          'reward filters: up to 3 rewards')
ASSUMPTIONS = ['reals stand for floats; sqrt is exact',
               'saving and loading goes through an in-memory serializer']
EPS = 0.25


def sq(v):
    return v * v


def stats(rows):
    n = len(rows)
    mean = sum(rows) / n
    return mean, sum(sq(r - mean) for r in rows) / n


@harness(quick=[dict(sizes=s, shape=(1,)) for s in
                ((1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 2))] +
         [dict(sizes=(1, 2), shape=(2,)), dict(sizes=(2, 1), shape=())],
         thorough=[dict(sizes=s, shape=(1,)) for s in
                   ((2, 1, 2), (1, 2, 1), (3, 2))])
def statistics(x, sizes, shape):
    """Mean and variance are those of everything experienced."""
    en = EmpiricalNormalization(shape, eps=EPS)
    seen = []
    for t, b in enumerate(sizes):
        v = x.reals('v%d' % t, (b,) + shape, -2, 2)
        v0 = v.copy()
        en.experience(v if t % 2 == 0 else chainer.Variable(v))
        x.eq(v, v0, 'inputs are not written to')
        seen.extend(list(v0))
        n = len(seen)
        x.check(int(en.count) == n, 'count')
        m = en.mean
        x.check(m.shape == shape, 'shape')
        s = en.std
        for i in np.ndindex(*shape):
            mean, var = stats([r[i] if shape else r for r in seen])
            x.eq(m[i], mean, 'mean', tol=1e-4)
            x.eq(s[i] * s[i], var, 'standard deviation', tol=1e-3)
    u = x.reals('u', (2,) + shape, -2, 2)
    m0 = en.mean
    y = en(u, update=False)
    x.check(y.shape == u.shape, 'shape')
    x.eq(en.mean, m0, 'normalizing without learning learns nothing')
    x.check(int(en.count) == len(seen), 'nor counts')
    for j in range(2):
        for i in np.ndindex(*shape):
            k = (j,) + i
            w = u[k] - m[i]
            x.eq(sq(y[k]) * (sq(s[i]) + EPS), sq(w), 'normalized values')
            x.check(y[k] * w >= 0, 'sign')
    z = en.inverse(y)
    for k in np.ndindex(*u.shape):
        x.eq(z[k], u[k], 'the inverse')


@harness(quick=[dict(axis=1)])
def batch_axis(x, axis):
    en = EmpiricalNormalization((2,), batch_axis=axis, eps=EPS)
    v = x.reals('v', (2, 3), -2, 2)
    en.experience(v)
    for i in range(2):
        mean, var = stats(list(v[i]))
        x.eq(en.mean[i], mean, 'mean', tol=1e-4)
        s = en.std
        x.eq(s[i] * s[i], var, 'standard deviation', tol=1e-3)
    y = en(v, update=False)
    m, s = en.mean, en.std
    for i in range(2):
        for j in range(3):
            x.eq(sq(y[i, j]) * (sq(s[i]) + EPS), sq(v[i, j] - m[i]),
                 'normalized values')


@harness(quick=[dict()])
def until(x):
    """Learning stops once as many values as given were seen."""
    lim = x.choice('until', [1, 2, 3, None])
    en = EmpiricalNormalization((1,), eps=EPS, until=lim)
    seen, on = [], True
    for t in range(3):
        b = x.choice('b%d' % t, [1, 2])
        v = x.reals('v%d' % t, (b, 1), -2, 2)
        if t == 1 and x.flag('call'):
            en(v)
        else:
            en.experience(v)
        if lim is None or len(seen) < lim:
            seen.extend(v[:, 0])
        mean, var = stats(seen)
        x.eq(en.mean[0], mean, 'mean', tol=1e-4)
        x.check(int(en.count) == len(seen), 'count')


@harness(quick=[dict(n=1), dict(n=2)])
def learning_call(x, n):
    """Normalizing with learning learns, and uses running statistics."""
    en = EmpiricalNormalization((1,), eps=EPS)
    before = [0, 1]
    if n:
        v = x.reals('v', (n, 1), -2, 2)
        en.experience(v)
        before = stats(list(v[:, 0]))
    u = x.reals('u', (1, 1), -2, 2)
    if n:
        # the cache is filled
        en(u, update=False)
    y = en(u)[0, 0]
    after = stats((list(v[:, 0]) if n else []) + [u[0, 0]])
    w = u[0, 0]
    # (which moment the mean and which the variance are from is not promised)
    if x.symbolic:
        x.check(lor(*[land(sq(y) * (s + EPS) == sq(w - m), y * (w - m) >= 0)
                      for m, _ in (before, after)
                      for _, s in (before, after)]),
                'normalized with the running statistics')
    else:
        x.check(any(abs(sq(y) * (s + EPS) - sq(w - m)) < 1e-4 and
                    y * (w - m) >= -1e-6 for m, _ in (before, after)
                    for _, s in (before, after)),
                'normalized with the running statistics')
    x.eq(en.mean[0], after[0], 'learned', tol=1e-4)


@harness(quick=[dict()])
def clipped(x):
    c = x.real('clip', 0.1, 2)
    en = EmpiricalNormalization((1,), eps=EPS, clip_threshold=c)
    v = x.reals('v', (2, 1), -2, 2)
    free = EmpiricalNormalization((1,), eps=EPS)
    en.experience(v)
    free.experience(v)
    u = x.reals('u', (1, 1), -4, 4)
    y, z = en(u, update=False)[0, 0], free(u, update=False)[0, 0]
    x.eq(y, smax(-c, smin(c, z)), 'clipped')


class Memory(chainer.serializer.Serializer):
    """Saves into / loads from a dictionary."""

    def __init__(self, d, load):
        self.d, self.loading = d, load

    def __getitem__(self, k):
        return Memory(self.d.setdefault(k, {}), self.loading)

    def __call__(self, key, value):
        if not self.loading:
            self.d[key] = value.copy() if hasattr(value, 'copy') else value
            return value
        v = self.d[key]
        if isinstance(value, np.ndarray):
            value[...] = v
            return value
        return v


class Writer(Memory, chainer.serializer.Serializer):
    pass


class Reader(Memory, chainer.serializer.Deserializer):
    pass


@harness(quick=[dict(used=u) for u in (False, True)])
def loading(x, used):
    """A loaded normalizer normalizes like the saved one, used before or
    not, and goes on learning like it."""
    en = EmpiricalNormalization((1,), eps=EPS)
    v = x.reals('v', (2, 1), -2, 2)
    en.experience(v)
    d = {}
    Writer(d, False).save(en)
    other = EmpiricalNormalization((1,), eps=EPS)
    # so that symbolic values can be loaded into its arrays
    w = x.reals('w', (2, 1), -2, 2)
    other.experience(w)
    u = x.reals('u', (1, 1), -2, 2)
    if used:
        other(u, update=False)
    Reader(d, True).load(other)
    x.check(int(other.count) == 2, 'count')
    x.eq(other.mean, en.mean, 'mean')
    x.eq(other(u, update=False), en(u, update=False), 'normalized values')
    for e in (en, other):
        e.experience(u)
    x.eq(other.mean, en.mean, 'learns on')
    x.eq(other(u, update=False), en(u, update=False), 'learns on')


@harness(quick=[dict(n=n) for n in (1, 2, 3)])
def average_filter(x, n):
    tau = x.real('tau', 0, 1)
    f = AverageRewardFilter(tau)
    avg = 0
    for t in range(n):
        r = x.real('r%d' % t, -2, 2)
        avg = (1 - tau) * avg + tau * r
        x.eq(f(r), r - avg, 'reward relative to the moving average')


@harness(quick=[dict(n=n) for n in (1, 2)], thorough=[dict(n=3)])
def normalized_filter(x, n):
    tau, sc = x.real('tau', 0, 1), x.real('scale', 0, 4)
    f = NormalizedRewardFilter(tau, sc, eps=0.125)
    a = q = 0
    for t in range(n):
        r = x.real('r%d' % t, -2, 2)
        a = (1 - tau) * a + tau * r
        q = (1 - tau) * q + tau * r * r
        var = smax(q - a * a, 0.125)
        y = f(r)
        x.eq(y * y * var, sq(sc * (r - a)), 'normalized reward')
        x.check(y * (r - a) >= 0, 'sign')
