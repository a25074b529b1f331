"""Target networks: copies, interpolation, update intervals, gradients."""
from chainerrl import agents as G
from chainerrl.misc import copy_param as CP
import chainer.links as L

from symx.api import *
from checks._agents import *

BOUNDS = ('a chain of nested links (a table, a linear layer, batch '
          'normalization, a chain list) with arbitrary parameters, statistics '
          'and gradients (present or absent per parameter); tau in [0, 1]; '
          'two successive synchronizations; agents: <= 7 steps (single) or '
          '<= 4 batched steps of <= 3 environments, update intervals 1..5, '
          'model parameters changing arbitrarily before every step')
ASSUMPTIONS = ['reals stand for floats']


def net():
    m = chainer.Chain()
    with m.init_scope():
        m.a = Table(2, 1)
        m.fc = L.Linear(1, 2)
        m.bn = L.BatchNormalization(2, eps=0.5)
        m.sub = chainer.ChainList(
            L.Linear(2, 1, nobias=True),
            chainer.Sequential(L.BatchNormalization(1), L.Linear(1, 1)))
    return m


def bns(m):
    return {k: l for k, l in m.namedlinks()
            if isinstance(l, L.BatchNormalization)}


def fill(x, m, p):
    x.link_params(m, -2, 2, p)
    for k, b in bns(m).items():
        b.avg_mean = x.reals(p + 'mean' + k, b.avg_mean.shape, -2, 2)
        b.avg_var = x.reals(p + 'var' + k, b.avg_var.shape, 0, 2)


def values(m):
    d = {k: v.array.copy() for k, v in m.namedparams()}
    for k, b in bns(m).items():
        d['mean' + k] = b.avg_mean.copy()
        d['var' + k] = b.avg_var.copy()
    return d


def same(x, a, b, msg):
    x.check(sorted(a) == sorted(b), msg)
    for k in a:
        x.eq(a[k], b[k], msg)


@harness(quick=[dict(method=m) for m in ('hard', 'soft')])
def copies(x, method):
    src, dst = x.build(lambda: (net(), net()))
    fill(x, src, 's')
    fill(x, dst, 'd')
    tau = x.real('tau', 0, 1) if method == 'soft' else None
    want = values(dst)
    for i in range(2):
        s0 = values(src)
        ids_ = {k: id(v) for k, v in dst.namedparams()}
        CP.synchronize_parameters(src, dst, method, tau)
        c = 1 if tau is None else tau
        want = {k: want[k] * (1 - c) + s0[k] * c for k in want}
        same(x, values(dst), want, 'synchronized values')
        same(x, values(src), s0, 'the source is not modified')
        x.check(ids_ == {k: id(v) for k, v in dst.namedparams()},
                'the parameters stay the same objects')
        if i == 0:
            # a later training step of the source must not reach the target
            for k, p in src.namedparams():
                p.array[...] += x.real('upd' + k, -1, 1)
            for k, b in bns(src).items():
                b.avg_mean += x.real('updm' + k, -1, 1)
            same(x, values(dst), want, 'no aliasing with the source')
            s1 = values(src)
            for k, p in dst.namedparams():
                p.array[...] *= 2
            same(x, values(src), s1, 'no aliasing with the target')
            want = values(dst)


@harness(quick=[dict(method=m) for m in ('hard', 'soft')])
def uninitialized(x, method):
    src, dst = x.build(lambda: (L.Linear(2, 1), L.Linear(None, 1)))
    x.raises(TypeError,
             lambda: CP.synchronize_parameters(src, dst, method, 0.5),
             'uninitialized parameters are refused')


@harness(quick=[{}])
def grads_copied(x):
    src, dst = x.build(lambda: (L.Linear(1, 2), L.Linear(1, 2)))
    x.link_params(src, -1, 1, 's')
    x.link_params(dst, -1, 1, 'd')
    g, v0 = {}, {k: p.array.copy() for k, p in dst.namedparams()}
    for nm, l in (('src', src), ('dst', dst)):
        for k, p in sorted(l.namedparams()):
            if x.flag('has_{}{}'.format(nm, k)):
                p.grad = x.reals('g_{}{}'.format(nm, k), p.shape, -1, 1)
            else:
                p.cleargrad()
            g[nm, k] = None if p.grad is None else p.grad.copy()
    CP.copy_grad(dst, src)
    for k, p in dst.namedparams():
        w = g['src', k]
        x.check((p.grad is None) == (w is None), 'which gradients exist')
        if w is not None:
            x.eq(p.grad, w, 'copied gradient')
        x.eq(p.array, v0[k], 'parameters are left alone')
    for k, p in src.namedparams():
        if p.grad is not None:
            x.eq(p.grad, g['src', k], 'source gradient unchanged')
            p.grad[...] += 1
    for k, p in dst.namedparams():
        if p.grad is not None:
            x.eq(p.grad, g['src', k], 'the copy is independent')


class Marked(object):
    """Adds a parameter that does not affect the outputs: it shows which
    version of the model a target network is."""

    def __init__(self, *a):
        super().__init__(*a)
        with self.init_scope():
            self.u = chainer.Parameter(np.zeros(2, dtype=np.float32))


class MQ(Marked, TableQ):
    pass


class MChain(Marked, chainer.Chain):
    pass


def agent(x, name, k, method, tau):
    kw = dict(replay_start_size=100, minibatch_size=1, phi=phi,
              target_update_interval=k, target_update_method=method,
              soft_update_tau=tau, logger=LOG)
    if name in ('DQN', 'DoubleDQN', 'SARSA'):
        q = x.build(lambda: MQ(1, 2))
        return getattr(G, name)(
            q, opt(q), RecBuffer(), 0.9, Explorer(x, lambda s: 0), **kw)

    def mk():
        m = MChain()
        with m.init_scope():
            m.policy = TablePi(1) if name == 'DDPG' else \
                TableDist(1, Noise(x))
            m.q_function = LinQSA(1)
        return m
    m = x.build(mk)
    return getattr(G, name)(
        m, opt(m.policy), opt(m.q_function), RecBuffer(), 0.9,
        Explorer(x, lambda s: np.zeros(1, 'f4')), **kw)


class Track(object):
    """Which steps synchronized, deduced from the parameters."""

    def __init__(self, x, ag, method, tau):
        self.x, self.ag = x, ag
        self.c = 1 if method == 'hard' else tau
        self.n = 0
        ag.target_model.u.array = x.reals('u', 2, -1, 1)

    def before(self):
        self.t0 = self.ag.target_model.u.array.copy()
        # training moves the parameter by an unknown positive amount away
        # from its target
        self.ag.model.u.array = self.t0 + self.x.reals(
            'p%d' % self.n, 2, 1, 2)
        self.m0 = self.ag.model.u.array.copy()
        self.n += 1

    def after(self, times, msg):
        x = self.x
        f = (1 - self.c) ** times
        x.eq(self.ag.target_model.u.array, self.t0 * f + self.m0 * (1 - f),
             msg)
        x.eq(self.ag.model.u.array, self.m0, 'the model is not modified')


def synced(x, tr):
    """Did this step synchronize?"""
    return not bool(tr.ag.target_model.u.array[0] == tr.t0[0])


@harness(quick=[dict(name=n, T=7, method=m)
                for n in ('DQN', 'DDPG', 'PGT') for m in ('hard', 'soft')] +
         [dict(name=n, T=5, method='hard') for n in ('DoubleDQN', 'SARSA')],
         thorough=[dict(name=n, T=12, method=m)
                   for n in ('DQN', 'DDPG', 'PGT', 'SARSA')
                   for m in ('hard', 'soft')])
def interval(x, name, T, method):
    k = x.choice('interval', list(range(1, min(5, T - 2) + 1)))
    tau = x.choice('tau', [0.25, 1]) if method == 'soft' else 0.5
    ag = agent(x, name, k, method, tau)
    for kk, v in ag.target_model.namedparams():
        x.eq(v.array, dict(ag.model.namedparams())[kk].array,
             'the target starts as a copy')
    tr = Track(x, ag, method, tau)
    at = []
    for j in range(1, T + 1):
        tr.before()
        if j in (3, 5, 6) and x.flag('end%d' % j):
            ag.stop_episode_and_train(0, 0.5, done=j != 5)
            tr.after(0, 'ending an episode is not a step')
        if j == 2:
            ag.act(0)
            ag.stop_episode()
            tr.after(0, 'evaluation does not count')
        ag.act_and_train(0, x.real('r%d' % j, -1, 1))
        s = synced(x, tr)
        tr.after(1 if s else 0, 'target after the step')
        if s:
            at.append(j)
    x.check(at and at[0] <= k and T - at[-1] < k and
            all(b - a == k for a, b in zip(at, at[1:])),
            'synchronized once per interval')


@harness(quick=[dict(name=n, N=N, T=4, method=m) for n in ('DQN', 'DDPG')
                for N in (2, 3) for m in ('hard', 'soft')])
def batch_interval(x, name, N, T, method):
    k = x.choice('interval', [1, 2, 3, 4, 5])
    tau = x.choice('tau', [0.25, 1]) if method == 'soft' else 0.5
    ag = agent(x, name, k, method, tau)
    tr = Track(x, ag, method, tau)
    steps = 0
    for j in range(T):
        tr.before()
        ag.batch_act_and_train([0] * N)
        tr.after(0, 'choosing actions is not a step')
        done = [j == 1 and x.flag('d%d' % i) for i in range(N)]
        ag.batch_observe_and_train([0] * N, [0.5] * N, done, [False] * N)
        due = sum((steps + i) % k == 0 for i in range(1, N + 1))
        steps += N
        tr.after(due, 'every environment step counts')


@harness(quick=[dict(name='TD3', d=1), dict(name='TD3', d=2),
                dict(name='TD3', d=3), dict(name='SAC', d=1)],
         thorough=[dict(name='TD3', d=d, T=12) for d in (1, 2, 3, 4)])
def twins(x, name, d, T=6):
    """TD3 and SAC: each target follows its own source, once per (delayed)
    update, by tau."""
    noise = Noise(x)
    tau = x.choice('tau', [0.25, 1])
    pi = x.build(lambda: TablePi(2) if name == 'TD3' else
                 TableDist(2, noise))
    q1, q2 = x.build(lambda: (LinQSA(2), LinQSA(2)))
    kw = dict(policy_update_delay=d, explorer=None,
              target_policy_smoothing_func=lambda a: a) \
        if name == 'TD3' else {}
    ag = (G.TD3 if name == 'TD3' else G.SoftActorCritic)(
        pi, q1, q2, GradRec(pi), GradRec(q1), GradRec(q2), RecBuffer(), 0.5,
        phi=phi, replay_start_size=10, minibatch_size=1, logger=LOG,
        soft_update_tau=tau, **kw)
    src = [q1, q2] + ([pi] if name == 'TD3' else [])
    dst = [ag.target_q_func1, ag.target_q_func2] + (
        [ag.target_policy] if name == 'TD3' else [])
    for s, t in zip(src, dst):
        for k, v in t.namedparams():
            x.eq(v.array, dict(s.namedparams())[k].array,
                 'the target starts as a copy')
    for i, l in enumerate(src + dst):
        x.link_params(l, -1, 1, 'l%d' % i)
    a = np.zeros(1, 'f4')
    es = [[transition(0, a, 0.5, 1)]]
    for k in range(1, T + 1):
        for i, s in enumerate(src):
            for j, p in enumerate(s.params()):
                p.array[0, :] += x.real('d%d_%d_%d' % (k, i, j), 0.5, 1)
        want = []
        c = tau if k % d == 0 else 0
        for s, t in zip(src, dst):
            ps = dict(s.namedparams())
            want.append({n: v.array * (1 - c) + ps[n].array * c
                         for n, v in t.namedparams()})
        before = [{n: v.array.copy() for n, v in s.namedparams()}
                  for s in src]
        ag.update(es)
        for t, w in zip(dst, want):
            for n, v in t.namedparams():
                x.eq(v.array, w[n], 'every target follows its own source')
        for s, b in zip(src, before):
            for n, v in s.namedparams():
                x.eq(v.array, b[n], 'the source is not modified')
