"""Small complete agents of every class, with arbitrary parameters."""
import chainer.functions as F
import chainerrl
from chainerrl import agents as G
from chainerrl.agents import acer
from chainerrl.agents.a2c import A2CSeparateModel
from chainerrl.agents.a3c import A3CSeparateModel
from chainerrl.agents.residual_dqn import ResidualDQN

from symx.api import *
from checks._agents import *


class Const(object):
    """Explorer."""

    def __init__(self, a):
        self.a = a

    def select_action(self, t, greedy_func, action_value=None):
        return self.a


def quiet(shape, tag=None):
    return np.zeros(shape, dtype=np.float32)


class Full(RecBuffer):
    def __init__(self, e):
        super().__init__()
        self.e = e

    def __len__(self):
        return 10

    def sample(self, k):
        return [self.e] * k


N = 4
QS = dict(DQN=G.DQN, DoubleDQN=G.DoubleDQN, SARSA=G.SARSA, PAL=G.PAL,
          DPP=G.DPP, ResidualDQN=ResidualDQN)
AGENTS = ['DQN', 'ResidualDQN', 'DDPG', 'PGT', 'TD3', 'SAC', 'NSQ', 'A2C',
          'A3C', 'ACER', 'PCL', 'PCL-sync', 'PPO', 'TRPO', 'REINFORCE']


def x_array(v):
    return np.array([[v], [v + 1]], dtype=np.float32)


def mom(link, adam=False):
    o = chainer.optimizers.MomentumSGD(lr=0.5, momentum=0.5)
    if adam:
        o = chainer.optimizers.Adam(alpha=0.5)
    return o.setup(link) or o


class View(object):
    """How observations look: state number i is observed as ob(i)."""
    dtype = np.int32

    def ob(self, i):
        return i

    def phi(self, o):
        return np.array([o], dtype=self.dtype)

    def kw(self, name):
        if name in ('A2C', 'PPO', 'TRPO'):
            self.dtype = np.float32
        return dict(phi=self.phi)


class Rig(object):
    """An agent with arbitrary parameters."""

    def __init__(self, x, name, tag, r, view=None, explorer=Const):
        self.x, self.name, self.r = x, name, r
        self.view, self.explorer = view or View(), explorer
        ag = self.ag = self.make(x, name)
        self.links = []
        for a in ('model', 'shared_model', 'target_model', 'q_function',
                  'shared_q_function', 'target_q_function', 'policy', 'vf',
                  'q_func1', 'q_func2', 'target_q_func1', 'target_q_func2',
                  'target_policy', 'temperature_holder', 'obs_normalizer'):
            if name == 'ResidualDQN' and a == 'target_model':
                continue
            l = getattr(ag, a, None)
            if isinstance(l, chainer.Link):
                self.links.append((a, l))
        # learned parameters first, copies of them are made equal
        for a, l in self.links:
            if not a.startswith('shared') and a != 'obs_normalizer':
                x.link_params(l, -2, 2, tag + a)
        for a, l in self.links:
            if a.startswith('shared'):
                src = dict(getattr(ag, a[7:]).namedparams())
                for k, p in l.namedparams():
                    p.array = src[k].array.copy()
        if name == 'ACER':
            for k, p in ag.shared_average_model.namedparams():
                p.array = x.array([0.25] * p.array.size).reshape(
                    p.array.shape)

    def make(self, x, name):
        kw = self.view.kw(name)
        Const = self.explorer
        if name in QS:
            q = x.build(lambda: TableQ(N, 2))
            return QS[name](q, x.build(lambda: mom(q)), RecBuffer(), 0.5,
                            Const(1), minibatch_size=1, logger=LOG,
                            replay_start_size=100, **kw)
        if name in ('DDPG', 'PGT'):
            def mk():
                m = chainer.Chain()
                with m.init_scope():
                    m.policy = TablePi(N) if name == 'DDPG' else TableDist(
                        N, quiet)
                    m.q_function = LinQSA(N)
                return m, mom(m.policy), mom(m.q_function)
            m, ao, co = x.build(mk)
            return getattr(G, name)(
                m, ao, co, RecBuffer(), 0.5, Const(0.0), minibatch_size=1,
                replay_start_size=100, logger=LOG, **kw)
        if name in ('TD3', 'SAC'):
            pi, q1, q2 = x.build(lambda: (
                TablePi(N) if name == 'TD3' else TableDist(N, quiet),
                LinQSA(N), LinQSA(N)))
            os_ = x.build(lambda: [mom(l) for l in (pi, q1, q2)])
            if name == 'TD3':
                return G.TD3(pi, q1, q2, *os_, RecBuffer(), 0.5, Const(0.0),
                             replay_start_size=100, minibatch_size=1,
                             policy_update_delay=1,
                             target_policy_smoothing_func=lambda a: a,
                             logger=LOG, **kw)
            return G.SoftActorCritic(
                pi, q1, q2, *os_, RecBuffer(), 0.5, replay_start_size=100,
                minibatch_size=1, logger=LOG, entropy_target=-1,
                temperature_optimizer=chainer.optimizers.MomentumSGD(lr=0.5),
                **kw)
        if name == 'NSQ':
            q = x.build(lambda: TableQ(N, 2))
            return G.NSQ(q, x.build(lambda: mom(q)), 2, 0.5, 100, Const(1),
                         logger=LOG, **kw)
        if name in ('A2C', 'A3C', 'PCL', 'PCL-sync', 'REINFORCE'):
            cls = A2CSeparateModel if name == 'A2C' else A3CSeparateModel
            m = x.build(lambda: TableDist(N, quiet) if name == 'REINFORCE'
                        else cls(TableDist(N, quiet), TableV(N)))
            o = x.build(lambda: mom(m))
            if name == 'A2C':
                    return G.A2C(m, o, 0.5, 1, update_steps=2, **kw)
            if name == 'A3C':
                return G.A3C(m, o, 2, 0.5, **kw)
            if name == 'REINFORCE':
                return G.REINFORCE(m, o, batchsize=1, logger=LOG, **kw)
            return G.PCL(m, o, t_max=2, gamma=0.5, tau=0.5, logger=LOG,
                         train_async=name == 'PCL', **kw)
        if name == 'ACER':
            m = x.build(lambda: acer.ACERSDNSeparateModel(
                TableDist(N, quiet), TableV(N), LinQSA(N), n=1))
            return G.ACER(m, x.build(lambda: mom(m)), 2, 0.5, None,
                          logger=LOG, use_trust_region=False, **kw)
        norm = x.build(lambda: chainerrl.links.EmpiricalNormalization(1))
        pi, v = x.build(lambda: (LinPi(quiet), LinV()))
        if name == 'PPO':
            m = x.build(lambda: A3CSeparateModel(pi, v))
            return G.PPO(m, x.build(lambda: mom(m)), obs_normalizer=norm,
                         gamma=0.5, lambd=0.5, update_interval=2, epochs=1,
                         minibatch_size=2, standardize_advantages=False, **kw)
        return G.TRPO(pi, v, x.build(lambda: mom(v)), obs_normalizer=norm,
                      gamma=0.5, lambd=0.5, update_interval=2, vf_epochs=1,
                      vf_batch_size=2, standardize_advantages=False,
                      line_search_max_backtrack=0, logger=LOG, **kw)

    def update(self, k):
        ag, r, name, ob = self.ag, self.r[k], self.name, self.view.ob
        if name in QS or name in ('DDPG', 'PGT', 'TD3', 'SAC'):
            a = 1 if name in QS else np.zeros(1, 'f4')
            ag.update([[transition(ob(k % 2), a, r, ob(k % 2 + 1), na=a)]])
            return
        if name == 'A2C':
            for i in range(2):
                ag.batch_act_and_train([ob(i)])
                ag.batch_observe_and_train([ob(i + 1)], [r], [i == 1],
                                           [False])
            return
        if name == 'TRPO':
            # its own update is decided by C35
            v = x_array(k + 1)
            ag.obs_normalizer.experience(v)
            ag.vf_optimizer.update(lambda: F.sum(
                ag.vf(ag.obs_normalizer(v, update=False))) * r)
            return
        self.episode(k)

    def episode(self, k):
        ag, r, ob = self.ag, self.r[k], self.view.ob
        acts = [ag.act_and_train(ob(k % 2), 0),
                ag.act_and_train(ob(k % 2 + 1), r)]
        ag.stop_episode_and_train(ob(3), r, done=True)
        return acts

    def act(self):
        if self.name == 'A2C':
            return self.ag.batch_act([self.view.ob(1)])[0]
        a = self.ag.act(self.view.ob(1))
        self.ag.stop_episode()
        return a


class LinPi(chainer.Link):
    """Policy linear in the observation."""

    def __init__(self, noise):
        super().__init__()
        self.noise = noise
        with self.init_scope():
            self.w = chainer.Parameter(np.zeros((1, 3), dtype=np.float32))

    def __call__(self, xs):
        y = F.matmul(xs, self.w)
        return Dist(y[:, 0:1], y[:, 1:3], self.noise)


class LinV(chainer.Link):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.w = chainer.Parameter(np.zeros((1, 1), dtype=np.float32))

    def __call__(self, xs):
        return F.matmul(xs, self.w)
