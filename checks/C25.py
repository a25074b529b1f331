"""What off-policy agents write into the replay buffer."""
from chainerrl import agents as G

from symx.api import *
from checks._agents import *
from chainerrl.agents.residual_dqn import ResidualDQN

BOUNDS = ('<= 4 steps of one environment with an arbitrary continue / '
          'terminal / cut outcome after every step and arbitrary rewards and '
          'actions; 2..3 environments for <= 3 batched steps with arbitrary '
          'done / reset flags; evaluation calls in between; replay updates '
          'disabled (recording only)')
ASSUMPTIONS = ['the buffer is a recording stand-in; C01-C08 decide the real '
               'buffers']

QLIKE = ('DQN', 'SARSA', 'DoubleDQN', 'ResidualDQN')
ACLIKE = ('DDPG', 'TD3', 'SAC', 'PGT')


def make(x, name, buf, burnin=None):
    n = 40
    if name in QLIKE:
        q = x.build(lambda: TableQ(n, 3))
        ex = Explorer(x, lambda s: x.int(s, 0, 2))
        cls = dict(DQN=G.DQN, SARSA=G.SARSA, DoubleDQN=G.DoubleDQN,
                   ResidualDQN=ResidualDQN)[name]
        ag = cls(q, opt(q), buf, 0.9, ex, replay_start_size=100,
                 minibatch_size=1, phi=phi, target_update_interval=1000,
                 logger=LOG)
        return ag, ex
    noise = Noise(x)
    ex = Explorer(x, lambda s: x.reals(s, 1))
    if name in ('DDPG', 'PGT'):
        def mk():
            m = chainer.Chain()
            with m.init_scope():
                m.policy = TablePi(n) if name == 'DDPG' else \
                    TableDist(n, noise)
                m.q_function = LinQSA(n)
            return m
        m = x.build(mk)
        cls = G.DDPG if name == 'DDPG' else G.PGT
        kw = dict(burnin_action_func=burnin) if name == 'DDPG' else {}
        ag = cls(m, opt(m.policy), opt(m.q_function), buf, 0.9, ex,
                 replay_start_size=100, minibatch_size=1, phi=phi,
                 target_update_interval=1000, logger=LOG, **kw)
        x.link_params(m.policy, -2, 2)
        return ag, ex
    pi = x.build(lambda: TablePi(n) if name == 'TD3' else
                 TableDist(n, noise))
    q1, q2 = x.build(lambda: (LinQSA(n), LinQSA(n)))
    kw = dict(explorer=ex) if name == 'TD3' else {}
    cls = G.TD3 if name == 'TD3' else G.SoftActorCritic
    ag = cls(pi, q1, q2, opt(pi), opt(q1), opt(q2), buf, 0.9,
             replay_start_size=100, minibatch_size=1, phi=phi,
             burnin_action_func=burnin, logger=LOG, **kw)
    x.link_params(pi, -2, 2)
    return ag, None if name == 'SAC' else ex


def expect(x, got, want, msg):
    x.check([g[0] for g in got] == [w[0] for w in want],
            msg + ': calls on the buffer')
    for g, w in zip(got, want):
        if w[0] == 'stop':
            x.check(g[1] == w[1], msg + ': which episode is closed')
            continue
        for k, v in w[1].items():
            if k in ('state', 'next_state'):
                x.check(g[1][k] is v or g[1][k] == v, msg + ': ' + k)
            elif k == 'env_id':
                x.check(g[1].get(k, 0) == v, msg + ': ' + k)
            elif k == 'is_state_terminal':
                x.check(bool(g[1].get(k, False)) == bool(v), msg + ': ' + k)
            else:
                x.eq(g[1][k], v, msg + ': ' + k)


@harness(quick=[dict(name=n, T=4) for n in QLIKE + ACLIKE],
         thorough=[dict(name=n, T=6) for n in QLIKE + ACLIKE])
def single(x, name, T):
    """act_and_train / stop_episode_and_train histories."""
    buf = RecBuffer()
    burn = x.flag('burnin') if name in ('DDPG', 'TD3', 'SAC') else False
    nb = [0]

    def burnin():
        nb[0] += 1
        return x.reals('burn%d' % nb[0], 1)
    ag, ex = make(x, name, buf, burnin if burn else None)
    want = []
    s, t = 0, 0
    fresh = True
    last = None
    r = 0.0
    for k in range(T):
        if k == 2 and x.flag('eval'):
            ag.act(s)
        a = ag.act_and_train(s, r)
        if ex is not None and not burn:
            x.check(a is ex.log[-1][3], 'the explorer chooses the action')
            x.check(ex.log[-1][0] == k, 'the explorer sees the step count')
        if not fresh:
            w = dict(state=last[0], action=last[1], reward=r, next_state=s,
                     is_state_terminal=False, env_id=0)
            if name in ACLIKE:
                w['next_action'] = a
            want.append(('append', w))
        last = (s, a)
        fresh = False
        t += 1
        s = k + 1
        r = x.real('r%d' % k, -3, 3)
        end = int(x.int('end%d' % k, 0, 2))
        if end:
            ag.stop_episode_and_train(s, r, done=end == 1)
            want.append(('append', dict(
                state=last[0], action=last[1], reward=r, next_state=s,
                is_state_terminal=end == 1, env_id=0)))
            want.append(('stop', 0))
            if x.flag('evals%d' % k):   # evaluation between two episodes
                ag.act(30)
                ag.stop_episode()
                if name in ACLIKE:
                    want.append(('stop', 0))
            fresh = True
            s, r = k + 10, 0.0
    expect(x, buf.log, want, name)
    x.check(ag.t == T, 'steps are counted')


BATCH = QLIKE[:3] + ('DDPG', 'TD3', 'SAC')


@harness(quick=[dict(name=n, T=3, N=2) for n in BATCH],
         thorough=[dict(name=n, T=3, N=3) for n in BATCH])
def batch(x, name, T, N):
    """batch_act_and_train / batch_observe_and_train histories."""
    buf = RecBuffer()
    ag, ex = make(x, name, buf)
    want = []
    c = N
    obs = list(range(N))
    ev = x.flag('eval')
    for k in range(T):
        acts = ag.batch_act_and_train(obs)
        x.check(len(acts) == N, 'one action per environment')
        if ex is not None:
            for i in range(N):
                x.check(acts[i] is ex.log[k * N + i][3],
                        'the explorer chooses the actions')
        if ev:
            ag.batch_act([30, 31])
            ag.batch_observe([32, 33], [0., 0.], [True, False],
                             [False, True])
        nobs, rs, ds, rst = [], [], [], []
        stops = []
        for i in range(N):
            nobs.append(c)
            c += 1
            rs.append(x.real('r%d_%d' % (k, i), -3, 3))
            d = x.flag('d%d_%d' % (k, i))
            ds.append(d)
            rst.append(x.flag('s%d_%d' % (k, i)) if not d else False)
        ag.batch_observe_and_train(nobs, rs, ds, rst)
        for i in range(N):
            want.append(('append', dict(
                state=obs[i], action=acts[i], reward=rs[i],
                next_state=nobs[i], is_state_terminal=ds[i], env_id=i)))
            if ds[i] or rst[i]:
                want.append(('stop', i))
                nobs[i] = c
                c += 1
        obs = nobs
    expect(x, buf.log, want, name)
    x.check(ag.t == T * N, 'steps are counted')
