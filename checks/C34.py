"""PPO: the clipped objective, minibatches, epochs, statistics."""
from fractions import Fraction

from chainerrl import agents as G
from chainerrl.agents import ppo

from symx.api import *
from checks._agents import *
from checks._num import exp

BOUNDS = ('objective: datasets of 1..2 transitions in one minibatch with '
          'arbitrary current and old log probabilities, values, advantages '
          'and targets; clip ranges in (0, 1), coefficients in [0, 2]; '
          'minibatches: datasets of 1..5 transitions (recurrent: up to three '
          'sequences of 1..4), minibatch sizes 1..4, 1..2 epochs, every '
          'order of shuffling')
ASSUMPTIONS = ['reals stand for floats; exp is an uninterpreted increasing '
               'positive function',
               'the policy\'s log density is linear in the action (arbitrary '
               'parameters per state); models are stand-ins']


def make(x, n, rec=False, **kw):
    noise = Noise(x)
    m = x.build(lambda: (RecNet if rec else FlatNet)(n + 2, 4, ac_of(noise)))
    o = GradRec(m)
    ag = G.PPO(m, o, gamma=0.5, lambd=0.5, phi=phi, recurrent=rec,
               update_interval=n, **kw)
    return ag, m, o


def drive(x, ag, m, n, rs=None):
    """One episode of n steps; the update comes with its end."""
    acts = []
    for s in range(n):
        acts.append(ag.act_and_train(s, 0 if s == 0 else rs[s - 1])[0])
    ag.stop_episode_and_train(n, rs[n - 1], done=True)
    return acts


class Shift(GradRec):
    """Moves the parameters by given amounts after an update."""

    def __init__(self, target, deltas):
        super().__init__(target)
        self.deltas = deltas

    def update(self, *a, **k):
        super().update(*a, **k)
        self.target.T.array[...] += self.deltas[self.t - 1]


@harness(quick=[dict(n=n, vf=v) for n in (1, 2) for v in (False, True)],
         thorough=[dict(n=3, vf=v) for v in (False, True)], time_limit=400)
def objective(x, n, vf):
    """The second epoch of an update sees probabilities and values that
    differ from the old ones in an arbitrary way."""
    eps = x.choice('clip_eps', [Fraction(1, 4), Fraction(3, 4)])
    eps = float(eps)
    evf = x.real('clip_eps_vf', 0.1, 1) if vf else None
    cv, ce = x.real('value_coef', 0, 2), x.real('entropy_coef', 0, 2)
    ag, m, o = make(x, n, value_func_coef=cv, entropy_coef=ce, clip_eps=eps,
                    clip_eps_vf=evf, minibatch_size=n, epochs=2,
                    standardize_advantages=False)
    m.T.array = x.reals('T', m.T.shape, -1, 1)
    # the terminal successor's row
    m = ag.model
    T0 = m.T.array
    d1 = x.reals('d', m.T.shape, -1, 1)
    ag.optimizer = o = Shift(m, [d1, np.zeros(m.T.shape)])
    x.fixed_perm = True
    rs = [x.real('r%d' % i, -2, 2) for i in range(n)]
    keep = ppo._compute_explained_variance
    ppo._compute_explained_variance = lambda tr: 0.
    try:
        t0 = T0.copy()
        acts = drive(x, ag, m, n, rs)
    finally:
        ppo._compute_explained_variance = keep
    x.check(len(o.log) == 2, 'one minibatch per epoch')
    adv, advs = 0, [None] * n
    for s in reversed(range(n)):
        v = t0[s, 3]
        nv = t0[s + 1, 3] if s < n - 1 else 0
        adv = rs[s] + 0.5 * nv - v + 0.25 * adv
        advs[s] = adv
    g = o.log[1][1]['/T']
    B = Fraction(n)
    lo, hi = 1 - eps, 1 + eps
    for s in range(n):
        a, A_ = acts[s], advs[s]
        dlp = d1[s, 1] + d1[s, 2] * a
        r = exp(x, dlp)
        cl = smax(lo, smin(hi, r))
        # the gradient of the pessimistic surrogate
        k = ite(r * A_ <= cl * A_, -r * A_ / B, 0) - 2 * ce / B
        x.eq(g[s, 1], k, 'policy gradient')
        k2 = ite(r * A_ <= cl * A_, -r * A_ / B, 0) * a - 2 * ce / B
        x.eq(g[s, 2], k2, 'policy gradient')
        vt = A_ + t0[s, 3]
        v = t0[s, 3] + d1[s, 3]
        if vf:
            vc = smax(t0[s, 3] - evf, smin(t0[s, 3] + evf, v))
            gv = ite((v - vt) * (v - vt) >= (vc - vt) * (vc - vt),
                     2 * (v - vt), 0) * cv / B
        else:
            gv = 2 * (v - vt) * cv / B
        x.eq(g[s, 3], gv, 'value gradient')
        x.eq(g[s, 0], 0, 'sampled actions are constants')


@harness(quick=[dict(n=2)], thorough=[dict(n=3)])
def standardized(x, n):
    """Advantages are standardized over the dataset."""
    ag, m, o = make(x, n, value_func_coef=0.5, entropy_coef=0.,
                    minibatch_size=n, epochs=1)
    m.T.array = x.reals('T', m.T.shape, -1, 1)
    t0 = m.T.array.copy()
    x.fixed_perm = True
    rs = [x.real('r%d' % i, -2, 2) for i in range(n)]
    keep = ppo._compute_explained_variance
    ppo._compute_explained_variance = lambda tr: 0.
    try:
        acts = drive(x, ag, m, n, rs)
    finally:
        ppo._compute_explained_variance = keep
    adv, advs = 0, [None] * n
    for s in reversed(range(n)):
        nv = t0[s + 1, 3] if s < n - 1 else 0
        adv = rs[s] + 0.5 * nv - t0[s, 3] + 0.25 * adv
        advs[s] = adv
    mean = sum(advs) / n
    var = sum((a - mean) * (a - mean) for a in advs) / n
    x.assume(var >= 0.01)
    g = o.log[0][1]['/T']
    got = [-g[s, 1] * n for s in range(n)]
    x.eq(sum(got), 0, 'zero mean')
    for s in range(n):
        # got = (adv - mean) / (std + 1e-8), up to the 1e-8
        x.check(implies(advs[s] > mean, got[s] > 0), 'sign')
        e = got[s] * got[s] * var - (advs[s] - mean) * (advs[s] - mean)
        x.check(land(e <= 1e-4, e >= -1e-4), 'unit variance')
        x.eq(g[s, 3] * n, -advs[s], 'value targets are not standardized')


@harness(quick=[dict(n=n, mb=b, epochs=e)
                for n, b, e in ((1, 1, 2), (2, 1, 2), (3, 1, 1), (4, 2, 1),
                                (3, 2, 2), (3, 2, 1))],
         thorough=[dict(n=n, mb=b, epochs=e) for n, b, e in
                   ((4, 2, 2), (5, 2, 1), (5, 3, 1), (4, 3, 2))])
def minibatches(x, n, mb, epochs):
    """Every epoch uses every transition once."""
    ag, m, o = make(x, n, value_func_coef=0.5, entropy_coef=0.,
                    minibatch_size=mb, epochs=epochs,
                    standardize_advantages=False)
    # concrete distinct values: v differs from its target everywhere
    m.T.array = np.asarray([[.1, .2, .3, 1 + .5 * i]
                            for i in range(len(m.T.array))], 'f4')
    drive(x, ag, m, n, [9. * (i + 1) for i in range(n)])
    used = []
    for _, g in o.log:
        rows = [s for s in range(n) if g['/T'][s, 3] != 0]
        # a minibatch that wraps around an epoch may hold one item twice
        x.check(len(rows) == mb or n % mb, 'size of the minibatch')
        used.append(rows)
    total = -(-n * epochs // mb)
    x.check(len(used) == total, 'number of minibatches')
    flat = [s for u in used for s in u]
    for s in range(n):
        x.check(flat.count(s) >= epochs if n % mb == 0 else
                flat.count(s) >= 1, 'every transition is used')
    if n % mb == 0:
        for e in range(epochs):
            k = n // mb
            part = [s for u in used[e * k:(e + 1) * k] for s in u]
            x.check(sorted(part) == list(range(n)), 'a partition per epoch')


@harness(quick=[dict(lens=l, mb=b, limit=k)
                for l, b, k in (((2, 1), 2, None), ((3,), 2, None),
                                ((1, 2, 1), 3, None), ((4, 1), 2, 2),
                                ((3, 2), 4, 2))],
         thorough=[dict(lens=l, mb=b, limit=k)
                   for l, b, k in (((2, 1, 2), 2, None), ((5,), 2, 3),
                                   ((1, 2, 3), 4, 2), ((4, 4), 3, 3))])
def sequences(x, lens, mb, limit):
    """Recurrent minibatches: pieces of episodes, each evaluated from its
    own recurrent state, together every transition once per epoch."""
    n = sum(lens)
    rows = n + len(lens)
    noise = Noise(x)
    m = x.build(lambda: RecNet(rows + 2, 4, ac_of(noise)))
    m.T.array = np.asarray([[.1, .2, .3, 1 + .5 * i]
                            for i in range(rows + 2)], 'f4')
    o = GradRec(m)
    ag = G.PPO(m, o, gamma=0.5, lambd=0.5, phi=phi, recurrent=True,
               update_interval=n, minibatch_size=mb, epochs=1,
               value_func_coef=0.5, entropy_coef=0.,
               standardize_advantages=False,
               max_recurrent_sequence_len=limit)
    s, real = 0, []
    for L in lens:
        h = ()
        for i in range(L):
            ag.act_and_train(s, 9.)
            h, s = h + (s,), s + 1
            real.append(h)
        ag.stop_episode_and_train(s, 9., done=True)
        s += 1
    x.check(len(o.log) == -(-n // mb), 'number of minibatches')
    want = {m.rows[h] for h in real}
    seen = []
    for i, (_, g) in enumerate(o.log):
        rows_ = [k for k in range(rows + 2) if g['/T'][k, 3] != 0]
        x.check(len(rows_) == (mb if i < n // mb else n % mb),
                'size of the minibatch')
        # log ratios are 0 at unchanged parameters: every piece starts from
        # the recurrent state its first step was made in
        for k in rows_:
            x.check(k in want, 'evaluated at the history of the episode')
        seen += rows_
    x.check(sorted(seen) == sorted(want), 'a partition of the transitions')


@harness(quick=[dict(n=2), dict(n=3)])
def explained_variance(x, n):
    """1 - Var[return - v] / Var[return]."""
    t = [x.real('t%d' % i, -2, 2) for i in range(n)]
    v = [x.real('v%d' % i, -2, 2) for i in range(n)]
    got = ppo._compute_explained_variance(
        [dict(v_teacher=a, v_pred=b) for a, b in zip(t, v)])

    def var(u):
        mu = sum(u) / n
        return sum((a - mu) * (a - mu) for a in u) / n
    vt = var(t)
    if bool(vt == 0):
        x.check(np.isnan(got), 'undefined without variance')
    else:
        x.eq((1 - got) * vt, var([a - b for a, b in zip(t, v)]),
             'explained variance')
