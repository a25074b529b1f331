"""TRPO's policy and value steps; the conjugate gradient method."""
from fractions import Fraction

import chainerrl.misc
from chainerrl import agents as G
from chainerrl.agents import ppo, trpo
from chainerrl.misc import conjugate_gradient

from symx.api import *
from checks import _agents
from checks._agents import *
from checks._num import exp

BOUNDS = ('policy steps: 1..2 transitions, arbitrary policy parameters, '
          'advantages, lengths of the step in four directions, two dampings, '
          'KL limits, entropy coefficients; up to 2 backtracks; recurrent and '
          'not; value function: 1..3 transitions in minibatches of 1..2 and '
          '1..2 epochs, every order; conjugate gradient: 2x2 matrices with one arbitrary '
          'entry (diagonal or off-diagonal) for three right-hand '
          'sides, and zero')
ASSUMPTIONS = ['reals stand for floats; exp is an uninterpreted increasing '
               'positive function; sqrt is exact',
               'the policy\'s log density is linear in the action; its KL '
               'divergence is quadratic plus an arbitrary nonnegative multiple '
               'of a quartic; models are stand-ins']


class QDist(Dist):
    k4 = 0

    def copy(self):
        d = QDist(chainer.Variable(self.m.array),
                  chainer.Variable(self.c.array), self.noise)
        d.k4 = self.k4
        return d

    def kl(self, d):
        return super().kl(d) + self.k4 * F.sum(
            F.square(F.square(d.c - self.c)), axis=1)


def rig(x, n, rec, k4, bt, vb=1, ve=1, **kw):
    def dist(rows, hs):
        d = QDist(rows[:, 0:1], rows[:, 1:3],
                  lambda shape: np.zeros(shape, dtype=np.float32))
        d.k4 = k4
        return d
    Net = RecNet if rec else FlatNet
    pi = x.build(lambda: Net(n + 1, 3, dist))
    vf = x.build(lambda: Net(n + 1, 1, lambda r, hs: r, pi.rows))
    o = GradRec(vf)
    ag = G.TRPO(pi, vf, o, phi=phi, gamma=0.5, lambd=0.5, update_interval=n,
                vf_epochs=ve, vf_batch_size=vb, recurrent=rec, logger=LOG,
                line_search_max_backtrack=bt, **kw)
    return ag, pi, vf, o


def episode(ag, n, rs):
    acts = []
    for s in range(n):
        acts.append(ag.act_and_train(s, rs[s - 1] if s else 0)[0])
    ag.stop_episode_and_train(n, rs[n - 1], done=True)
    return acts


def advantages(n, rs, V):
    adv, r = 0, [None] * n
    for s in reversed(range(n)):
        adv = rs[s] + 0.5 * (V[s + 1] if s < n - 1 else 0) - V[s] + 0.25 * adv
        r[s] = adv
    return r


class patched(object):
    """The conjugate gradient step is a given vector; no statistics."""

    def __init__(self, x, f):
        self.x, self.f = x, f

    def __enter__(self):
        self.keep = chainerrl.misc.conjugate_gradient
        chainerrl.misc.conjugate_gradient = self.f
        self.x.fixed_perm = True
        self.ev = []
        for m in (ppo, trpo):
            if hasattr(m, '_compute_explained_variance'):
                self.ev.append((m, m._compute_explained_variance))
                m._compute_explained_variance = lambda tr: 0.

    def __exit__(self, *e):
        chainerrl.misc.conjugate_gradient = self.keep
        for m, f in self.ev:
            m._compute_explained_variance = f


def flat(n, T):
    return T.reshape(-1)


@harness(quick=[dict(n=1, rec=False, bt=0), dict(n=1, rec=True, bt=1),
                dict(n=1, rec=False, bt=2), dict(n=2, rec=False, bt=1),
                dict(n=2, rec=True, bt=1)],
         thorough=[dict(n=2, rec=r, bt=2) for r in (False, True)],
         time_limit=400)
def line_search(x, n, rec, bt):
    """The policy takes the largest of the halved steps along the natural
    gradient that neither lowers the gain nor exceeds the KL limit; else it
    keeps its parameters."""
    k4 = x.real('k4', 0, 2)
    # the KL limit is arbitrary, given by the length S of the full step
    S = x.real('S', 0.1, 2)
    damp = x.choice('damping', [0, Fraction(1, 4)])
    dirs = [(0, 1, 0), (0, 0, -1), (1, 1, -1), (1, -1, 2)]
    d = x.choice('direction', dirs)
    dd = sum(v * v for v in d)
    dId = Fraction(dd) / n + damp * dd
    max_kl = S * S * (dId + Fraction(1e-8)) / 2
    damp = float(damp)
    ce = x.real('entropy_coef', 0, 1)
    ag, pi, vf, o = rig(x, n, rec, k4, bt, max_kl=max_kl, entropy_coef=ce,
                        conjugate_gradient_damping=damp,
                        standardize_advantages=False)
    pi.T.array = x.reals('T', pi.T.shape, -1, 1)
    vf.T.array = x.reals('V', vf.T.shape, -1, 1)
    p0 = pi.T.array.copy()
    V = vf.T.array[:, 0].copy()
    rs = [x.real('r%d' % i, -2, 2) for i in range(n)]
    d = x.array([list(d)] + [[0, 0, 0]] * n, 'f4')
    calls = []

    def cg(A, b, tol=None, max_iter=None):
        calls.append((A(flat(n, d)), b))
        return flat(n, d)
    with patched(x, cg):
        acts = episode(ag, n, rs)
    x.check(len(calls) == 1, 'one policy step')
    Ad, b = [c.reshape(pi.T.shape) for c in calls[0]]
    adv = advantages(n, rs, V)
    B = Fraction(n)
    order = [pi.row(h) for h in
             ([tuple(range(i + 1)) for i in range(n)] if rec else
              [(i,) for i in range(n)])]
    for i, k in enumerate(order):
        x.eq(Ad[k], d[k] / B + damp * d[k], 'Fisher vector product')
        x.eq(b[k, 0], 0, 'gradient')
        x.eq(b[k, 1], (adv[i] + 2 * ce) / B, 'gradient')
        x.eq(b[k, 2], (adv[i] * acts[i] + 2 * ce) / B, 'gradient')

    def kl(c):
        u, w = d[0, 1], d[0, 2]
        return (c * c * dd / 2 + k4 * c * c * c * c *
                (u * u * u * u + w * w * w * w)) / B

    def gain(c):
        # only the row of the first transition moves
        lp = c * d[0, 1] + c * d[0, 2] * acts[0]
        e = exp(x, lp) if c is not 0 else 1
        h = 2 * (p0[0, 1] + p0[0, 2] + c * d[0, 1] + c * d[0, 2])
        return (e * adv[0] + ce * h) / B
    c = 0
    for i in reversed(range(bt + 1)):
        t = S * Fraction(1, 2 ** i)
        c = ite(land(gain(t) - gain(0) >= 0, kl(t) <= max_kl), t, c)
    x.eq(pi.T.array, p0 + c * d, 'the step taken')
    # the policy is never made worse or moved beyond the limit
    q = pi.T.array
    x.check(q.dtype == np.float32, 'dtype')


@harness(quick=[dict(n=2)], thorough=[dict(n=3)])
def standardized(x, n):
    """The advantages of a policy step are standardized."""
    ag, pi, vf, o = rig(x, n, False, 0, 0, max_kl=0.01, entropy_coef=0)
    pi.T.array = x.reals('T', pi.T.shape, -1, 1)
    vf.T.array = x.reals('V', vf.T.shape, -1, 1)
    V = vf.T.array[:, 0].copy()
    rs = [x.real('r%d' % i, -2, 2) for i in range(n)]
    adv = advantages(n, rs, V)
    mean = sum(adv) / n
    var = sum((a - mean) * (a - mean) for a in adv) / n
    x.assume(var >= 0.01)
    calls = []

    def cg(A, b, tol=None, max_iter=None):
        calls.append(b)
        return b * 0
    with patched(x, cg):
        episode(ag, n, rs)
    got = [calls[0].reshape(pi.T.shape)[s, 1] * n for s in range(n)]
    x.eq(sum(got), 0, 'zero mean')
    for s in range(n):
        x.check(implies(adv[s] > mean, got[s] > 0), 'sign')
        e = got[s] * got[s] * var - (adv[s] - mean) * (adv[s] - mean)
        x.check(land(e <= 1e-4, e >= -1e-4), 'unit variance')


@harness(quick=[dict(n=n, vb=b, ve=e) for n, b, e in
                ((1, 1, 1), (2, 1, 2), (3, 1, 1), (3, 3, 2), (2, 2, 2))],
         thorough=[dict(n=4, vb=2, ve=1), dict(n=3, vb=2, ve=2)])
def value_updates(x, n, vb, ve):
    """Value function: every epoch covers every transition once, minimising
    the squared error to its target."""
    ag, pi, vf, o = rig(x, n, False, 0, 0, vb=vb, ve=ve,
                        standardize_advantages=False)
    pi.T.array = x.reals('T', pi.T.shape, -1, 1)
    vf.T.array = x.reals('V', vf.T.shape, -1, 1)
    V = vf.T.array[:, 0].copy()
    rs = [x.real('r%d' % i, -2, 2) for i in range(n)]
    with patched(x, lambda A, b, **kw: b * 0):
        x.fixed_perm = False
        episode(ag, n, rs)
    adv = advantages(n, rs, V)
    seen = []
    for _, g in o.log:
        g = g['/T']
        rows = [s for s in range(n) if not E_zero(g[s, 0])]
        if n % vb == 0:
            for s in rows:
                x.eq(g[s, 0] * vb, -2 * adv[s], 'value gradient')
        seen.append(rows)
    total = sum(len(r) for r in seen)
    x.check(len(o.log) * vb >= n * ve, 'enough updates')
    x.check(len(o.log) * vb < n * ve + vb, 'not more than the epochs')
    for s in range(n):
        tot = sum(g['/T'][s, 0] for _, g in o.log)
        if n % vb == 0:
            x.eq(tot * vb, -2 * adv[s] * ve, 'every transition, every epoch')


def E_zero(v):
    return not sym_nonzero(v)


def sym_nonzero(v):
    from symx import engine as E
    return E.is_sym(v) or v != 0


class LinearOp(object):
    def __init__(self, rows):
        self.rows, self.n = rows, 0

    def __call__(self, v):
        self.n += 1
        r = v * 0
        for i, row in enumerate(self.rows):
            r[i] = sum(row[j] * v[j] for j in range(len(row)))
        return r


RHS = [(1, 0), (2, -1), (1, 1)]


@harness(quick=[dict(n=1, kind='diag'), dict(n=2, kind='diag'), dict(n=2, kind='a')],
         thorough=[dict(n=3, kind='diag')], time_limit=300)
def solves(x, n, kind):
    """With as many iterations as unknowns, A x = b."""
    b_ = x.real('b', -0.75, 0.75) if kind == 'a' else 0
    ds = [x.real('a%d' % i, 1, 3) if kind == 'diag' and i == n - 1
          else i + 1 for i in range(n)]
    rows = [[ds[i] if i == j else b_ for j in range(n)] for i in range(n)]
    rhs = x.array(list(x.choice('y', RHS) + (2,))[:n], 'f4')
    b0 = rhs.copy()
    A = LinearOp(rows)
    if n == 2:
        # not solved by the first step
        y = A(rhs)
        x.assume(y[0] * rhs[1] != y[1] * rhs[0])
    sol = conjugate_gradient(A, rhs, tol=0, max_iter=n)
    x.eq(rhs, b0, 'the right-hand side is not written to')
    for i in range(n):
        x.eq(sum(rows[i][j] * sol[j] for j in range(n)), b0[i], 'A x = b',
             tol=1e-4)


@harness(quick=[dict(n=1), dict(n=2)])
def stops(x, n):
    """An exact solution found early is returned as it is."""
    a = x.real('a', 1, 3)
    y = x.real('y', 0.1, 2)
    rhs = x.array([y, 0][:n], 'f4')
    A = LinearOp([[a, 0][:n], [0, 2 * a]][:n])
    sol = conjugate_gradient(A, rhs)
    x.eq(a * sol[0], y, 'A x = b')
    x.eq(sol[1:], [0] * (n - 1), 'A x = b')
    x.check(A.n <= 4, 'stops')


@harness(quick=[dict(n=1), dict(n=2)])
def zero(x, n):
    """A x = 0 has the solution 0."""
    ds = [x.real('a%d' % i, 0.5, 4) for i in range(n)]
    A = LinearOp([[ds[i] if i == j else 0 for j in range(n)]
                  for i in range(n)])
    sol = conjugate_gradient(A, np.zeros(n, dtype=np.float32))
    for i in range(n):
        x.check(sol[i] == 0, 'the solution is 0')
