"""Distributional DQN variants: projection, cross entropy, quantile loss."""
from chainerrl import agents as G
from chainerrl.agents.categorical_dqn import _apply_categorical_projection
from chainerrl.action_value import (DistributionalDiscreteActionValue,
                                    QuantileDiscreteActionValue)

from symx.api import *
from checks._agents import *
from checks.C26 import Buf, amax

BOUNDS = ('projection: 1 distribution of 2..4 atoms on three grids, arbitrary '
          'atom values and probabilities; categorical updates: 1..2 '
          'experiences, 2 actions, 2 (thorough 3) atoms, arbitrary predicted '
          'probabilities in [0.1, 1], target probabilities in [0, 1], '
          'rewards and discount; IQN updates: 1 experience (1..2 '
          'transitions), 2 actions, N * N\' = 1..2 (thorough 4), K = 3 thresholds, arbitrary '
          'quantile values and thresholds')
ASSUMPTIONS = ['reals stand for floats',
               'the return quantile is an arbitrary function of the '
               'threshold (fresh value per evaluation)']

GRIDS = [(-1, 0, 1), (0, 0.5, 1, 1.5), (-2, 1)]


def project(z, ys, ps):
    """m_j = sum_i p_i * hat_j(clip(y_i))."""
    d = z[1] - z[0]
    out = []
    for zj in z:
        m = 0
        for y, p in zip(ys, ps):
            y = smax(z[0], smin(z[-1], y))
            u = (y - zj) / d
            m = m + p * smax(0, 1 - smax(u, -u))
        out.append(m)
    return out


@harness(quick=[dict(g=g) for g in range(len(GRIDS))])
def projection(x, g):
    """_apply_categorical_projection against the hat-function formula."""
    z = GRIDS[g]
    n = len(z)
    ys = [x.real('y%d' % i, -4, 4) if i < (3 if n < 4 else 2)
          else 0.25 * i for i in range(n)]
    ps = [x.real('p%d' % i, 0, 1) for i in range(n)]
    m = _apply_categorical_projection(
        x.array(ys).reshape(1, n), x.array(ps).reshape(1, n),
        x.array(list(z)))
    x.check(m.shape == (1, n), 'shape')
    want = project(z, ys, ps)
    for j in range(n):
        x.eq(m[0, j], want[j], 'projected probability')
    x.eq(sum(m[0, j] for j in range(n)), sum(ps), 'mass is conserved')


class TableCat(Table):
    def __init__(self, n, nA, z):
        super().__init__(n, nA, len(z))
        self.z = z

    def __call__(self, xs):
        return DistributionalDiscreteActionValue(
            self.row(xs), np.array(self.z, dtype=np.float32))


CATS = ('CategoricalDQN', 'CategoricalDoubleDQN')


@harness(quick=[dict(name=n, weights=w, acc=a) for n in CATS
                for w in (False, True) for a in ('mean', 'sum')] +
         [dict(name=n, two=True) for n in CATS],
         thorough=[dict(name=n, weights=w, acc=a, atoms=3)
                   for n in CATS for w in (False, True)
                   for a in ('mean', 'sum')] +
         [dict(name=n, two=True, atoms=3) for n in CATS], time_limit=400)
def categorical(x, name, weights=False, acc='mean', two=False, atoms=2):
    z, nA = GRIDS[0] if atoms == 3 else GRIDS[2], 2
    q = x.build(lambda: TableCat(4, nA, z))
    o = GradRec(q)
    gamma = x.real('gamma', 0, 1) if not two else x.choice(
        'gamma', [0.5, 1])
    buf = Buf()
    ag = getattr(G, name)(
        q, o, buf, gamma, None, replay_start_size=10, minibatch_size=1,
        phi=phi, batch_accumulator=acc, logger=LOG)
    x.link_params(q, 0.125, 1, 'q_')
    x.link_params(ag.target_model, 0, 1, 't_')
    P, T = q.T.array, ag.target_model.T.array
    term = x.flag('term')
    a = int(x.int('a', 0, nA - 1))
    r = x.real('r', -3, 3)
    e = [transition(0, a, r, 1, term)]
    R, d = r, gamma
    if two:
        r2 = x.real('r2', -3, 3)
        e[0].update(is_state_terminal=False, next_state=9)
        e.append(transition(9, 0, r2, 1, term))
        R, d = r + gamma * r2, gamma * gamma
    exps, w, B = [e], 1, 1
    if weights:
        w = x.real('w', 0, 1)
        e[0]['weight'] = w
        exps.append([dict(transition(2, 1, 10, 3, True), weight=0)])
        B = 2
    elif not two:
        exps.append([transition(2, 1, 10, 3, True)])
        B = 2
    errors = []
    ag.update(exps, None if weights else errors)
    sel = P if name == 'CategoricalDoubleDQN' else T
    j = amax([sum(z[k] * sel[1, b, k] for k in range(atoms))
              for b in range(nA)])[0]
    ys = [R + (d * zk if not term else 0) for zk in z]
    t = project(z, ys, [T[1, j, k] for k in range(atoms)])
    g = o.log[0][1]['/T']
    for b in range(nA):
        for k in range(atoms):
            want = -t[k] * w / (B if acc == 'mean' else 1) if b == a else 0
            x.eq(g[0, b, k] * P[0, b, k], want,
                 'gradient of the cross entropy')
    ce = 0
    for k in range(atoms):
        ce = ce - t[k] * np.log(x.array([P[0, a, k]], 'f8'))[0]
    got = buf.log[-1][1] if weights else errors
    x.check(len(got) == B, 'one error per experience')
    x.eq(got[0], ce, 'reported error is the cross entropy')


class TauQ(Table):
    """quantile(s, tau)[a] = T[s, a] + an arbitrary number per evaluation"""
    x = None

    def __init__(self, n, nA):
        super().__init__(n, nA)
        self.log = []

    def __call__(self, xs):
        i = ids(xs)

        def f(taus):
            B, n = taus.shape
            nA = self.T.shape[1]
            c = self.x.reals('{}c{}'.format(self.tag, len(self.log)),
                             (B, n, nA), -1, 1)
            self.log.append((tuple(int(v) for v in i), taus, c))
            return QuantileDiscreteActionValue(F.broadcast_to(
                F.expand_dims(self.T[i], 1), (B, n, nA)) + c)
        return f


@harness(quick=[dict(name=n, weights=w, acc=a, N=1 + w, Np=2 - w)
                for n in ('IQN', 'DoubleIQN')
                for w, a in ((False, 'mean'), (True, 'sum'))] +
         [dict(name='IQN', weights=True, acc='mean', Np=2),
          dict(name='IQN', weights=False, acc='sum', N=2),
          dict(name='IQN', two=True, N=2), dict(name='DoubleIQN', two=True)],
         thorough=[dict(name=n, weights=w, acc=a, N=2, Np=2)
                   for n in ('IQN', 'DoubleIQN') for w in (True, False)
                   for a in ('mean', 'sum')], time_limit=600)
def quantile(x, name, weights=False, acc='mean', two=False, N=1, Np=1):
    nA, K = 2, 3
    q = x.build(lambda: TauQ(4, nA))
    o = GradRec(q)
    gamma = x.choice('gamma', [0.5, 1])
    buf = Buf()
    ag = getattr(G, name)(
        q, o, buf, gamma, None, replay_start_size=10, minibatch_size=1,
        phi=phi, batch_accumulator=acc, quantile_thresholds_N=N,
        quantile_thresholds_N_prime=Np, quantile_thresholds_K=K, logger=LOG)
    q.x = ag.target_model.x = x
    q.tag, ag.target_model.tag = 'q', 't'
    q.log, ag.target_model.log = [], []
    x.link_params(q, -1, 1, 'q_')
    x.link_params(ag.target_model, -1, 1, 't_')
    P, T = q.T.array, ag.target_model.T.array
    term = x.flag('term')
    a = int(x.int('a', 0, nA - 1))
    r = x.real('r', -2, 2)
    e = [transition(0, a, r, 1, term)]
    R, d = r, gamma
    if two:
        r2 = x.real('r2', -2, 2)
        e[0].update(is_state_terminal=False, next_state=9)
        e.append(transition(9, 0, r2, 1, term))
        R, d = r + gamma * r2, gamma * gamma
    w = 1
    if weights:
        w = x.real('w', 0, 1)
        e[0]['weight'] = w
    errors = []
    ag.update([e], None if weights else errors)
    here = [v for v in q.log if v[0] == (0,)]
    x.check(len(here) == 1 and here[0][1].shape == (1, N),
            'N thresholds for the prediction')
    tg = ag.target_model.log
    sel = q.log if name == 'DoubleIQN' else tg
    sel = [v for v in sel if v[0] == (1,) and v[1].shape == (1, K)]
    val = [v for v in tg if v[0] == (1,) and v[1].shape == (1, Np)]
    x.check(len(sel) == 1 and len(val) == 1,
            'K thresholds select the action, N\' evaluate it')
    for _, taus, _ in here + sel + val:
        for tau in taus.ravel():
            x.check(land(tau >= 0, tau <= 1), 'thresholds in [0, 1]')
    M = P if name == 'DoubleIQN' else T
    j = amax([M[1, b] * K + sum(sel[0][2][0, k, b] for k in range(K))
              for b in range(nA)])[0]
    ts = [R + (d * (T[1, j] + val[0][2][0, k, j]) if not term else 0)
          for k in range(Np)]
    g, err = 0, 0
    for i in range(N):
        y = P[0, a] + here[0][2][0, i, a]
        tau = here[0][1][0, i]
        for t in ts:
            u = y - t
            c = 1 - tau if t > y else tau
            g = g + c * smax(-1, smin(1, u)) / Np
            au = smax(u, -u)
            err = err + c * ite(au <= 1, u * u / 2, au - 0.5) / (N * Np)
    G_ = o.log[0][1]['/T']
    for b in range(nA):
        x.eq(G_[0, b], g * w if b == a else 0,
             'gradient of the quantile Huber loss')
    x.eq(G_[1, 0], 0, 'no gradient through the target')
    got = buf.log[-1][1] if weights else errors
    x.check(len(got) == 1, 'one error per experience')
    x.eq(got[0], err, 'reported error is the mean loss')
