"""Updates of the off-policy actor-critic agents."""
from chainerrl import agents as G
from chainerrl.agents.td3 import default_target_policy_smoothing_func

from symx.api import *
from checks._agents import *

BOUNDS = ('minibatch of 2 experiences, each of 1..2 transitions, arbitrary '
          'rewards, actions, terminal flags, discount in [0, 1]; arbitrary '
          'linear-in-action Q tables, policies and target networks; <= 4 '
          'successive updates for the delays; tau in [0, 1]')
ASSUMPTIONS = ['reals stand for floats',
               'ties between the two Q-functions are excluded (the minimum '
               'has no gradient there)',
               'stochastic policies: sample = mean + noise, log p linear in '
               'the action (arbitrary parameters)']


def exps_(x, lens, gamma):
    es, spec = [], []
    for i, n in enumerate(lens):
        s, ns = 2 * i, 2 * i + 1
        a = x.reals('a%d' % i, 1, -1, 1)
        term = x.flag('term%d' % i)
        rs = [x.real('r%d_%d' % (i, k), -2, 2) for k in range(n)]
        ts = []
        for k in range(n):
            last = k == n - 1
            ts.append(transition(
                s if k == 0 else 9, a if k == 0 else np.zeros(1, 'f4'),
                rs[k], ns if last else 9, term and last))
        R, d = 0, 1
        for r in rs:
            R, d = R + d * r, d * gamma
        es.append(ts)
        spec.append((s, a[0], R, d, term, ns))
    return es, spec


def q(f, s, a):
    v, w = f.v.array, f.w.array
    return v[s, 0] + w[s, 0] * a


def grads(o, k=-1):
    return o.log[k][1]


def critic(x, g, spec, ys, f, c, msg):
    B = len(spec)
    for (s, a, *_), y in zip(spec, ys):
        d = c * (q(f, s, a) - y) / B
        x.eq(g['/v'][s, 0], d, msg)
        x.eq(g['/w'][s, 0], d * a, msg)


def synced(x, t, t0, src, tau, msg):
    p = dict(src.namedparams())
    for k, v in t.namedparams():
        x.eq(v.array, t0[k] * (1 - tau) + p[k].array * tau, msg)


def snap(link):
    return {k: v.array.copy() for k, v in link.namedparams()}


LENS = [(1, 1), (2, 1)]


@harness(quick=[dict(name=n, lens=l) for n in ('DDPG', 'PGT') for l in LENS],
         thorough=[dict(name=n, lens=l) for n in ('DDPG', 'PGT')
                   for l in LENS + [(3, 2)]])
def ddpg(x, name, lens):
    noise = Noise(x)

    def mk():
        m = chainer.Chain()
        with m.init_scope():
            m.policy = TablePi(4) if name == 'DDPG' else TableDist(4, noise)
            m.q_function = LinQSA(4)
        return m
    m = x.build(mk)
    ao, co = GradRec(m.policy), GradRec(m.q_function)
    gamma = x.real('gamma', 0, 1)
    beta = x.real('beta', 0, 1)
    kw = dict(beta=beta) if name == 'PGT' else {}
    ag = getattr(G, name)(m, ao, co, RecBuffer(), gamma, None, phi=phi,
                          replay_start_size=10, minibatch_size=1,
                          logger=LOG, **kw)
    x.link_params(m, -2, 2, 'm_')
    x.link_params(ag.target_model, -2, 2, 't_')
    t0 = snap(ag.target_model)
    es, spec = exps_(x, lens, gamma)
    ag.update(es)
    tpi, tq = ag.target_model.policy, ag.target_model.q_function
    nz = [None, None]
    if name == 'PGT':
        nz = noise.of(1, 3)
        x.check(len(nz) == 1, 'one sample of next actions')
        nz = nz[0][:, 0]
    ys = []
    for i, (s, a, R, d, term, ns) in enumerate(spec):
        mu = tpi.T.array[ns, 0] if name == 'DDPG' else \
            tpi.m.array[ns, 0] + nz[i]
        ys.append(R if term else R + d * q(tq, ns, mu))
    x.check(len(ao.log) == 1 and len(co.log) == 1, 'one step each')
    critic(x, grads(co), spec, ys, m.q_function, 2, 'critic gradient')
    B = len(spec)
    g = grads(ao)
    if name == 'PGT':
        nb = noise.of(0, 2)
        x.check(len(nb) == 1, 'one sample of actions')
    for i, (s, *_) in enumerate(spec):
        w = m.q_function.w.array[s, 0]
        if name == 'DDPG':
            x.eq(g['/T'][s, 0], -w / B, 'actor gradient')
        else:
            adv = w * nb[0][i, 0]
            a = m.policy.m.array[s, 0] + nb[0][i, 0]
            x.eq(g['/c'][s, 0], -(adv + 2 * beta) / B, 'actor gradient')
            x.eq(g['/c'][s, 1], -(adv * a + 2 * beta) / B, 'actor gradient')
    for k, v in ag.target_model.namedparams():
        x.eq(v.array, t0[k], 'update leaves the target alone')


def twin(x, name, gamma, tau, **kw):
    noise = Noise(x)
    pi = x.build(lambda: TablePi(4) if name == 'TD3' else
                 TableDist(4, noise))
    q1, q2 = x.build(lambda: (LinQSA(4), LinQSA(4)))
    os_ = GradRec(pi), GradRec(q1), GradRec(q2)
    if name == 'TD3':
        kw.setdefault('explorer', None)
    cls = G.TD3 if name == 'TD3' else G.SoftActorCritic
    buf = kw.pop('buf', None) or RecBuffer()
    ag = cls(pi, q1, q2, *os_, buf, gamma, phi=phi,
             replay_start_size=kw.pop('start', 10), minibatch_size=1,
             logger=LOG, soft_update_tau=tau, **kw)
    x.link_params(pi, -2, 2, 'pi_')
    x.link_params(q1, -2, 2, 'q1_')
    x.link_params(q2, -2, 2, 'q2_')
    x.link_params(ag.target_q_func1, -2, 2, 't1_')
    x.link_params(ag.target_q_func2, -2, 2, 't2_')
    if name == 'TD3':
        x.link_params(ag.target_policy, -2, 2, 'tpi_')
    return ag, pi, q1, q2, os_, noise


@harness(quick=[dict(lens=l) for l in LENS])
def td3(x, lens):
    """Clipped double-Q target with smoothed actions, actor loss, sync."""
    gamma = x.real('gamma', 0, 1)
    tau = x.choice('tau', [0.25, 1])
    seen = []

    def smooth(a):
        n = x.reals('sm', a.shape, -1, 1)
        seen.append((a, n))
        return a + n
    ag, pi, q1, q2, (po, o1, o2), _ = twin(
        x, 'TD3', gamma, tau, target_policy_smoothing_func=smooth,
        policy_update_delay=1)
    t = [ag.target_policy, ag.target_q_func1, ag.target_q_func2]
    t0 = [snap(v) for v in t]
    es, spec = exps_(x, lens, gamma)
    tpi = t0[0]['/T']
    ys = []
    ag.update(es)
    x.check(len(seen) == 1, 'smoothing is applied once')
    sm = seen[0][1]
    for i, (s, a, R, d, term, ns) in enumerate(spec):
        x.eq(seen[0][0][i, 0], tpi[ns, 0], 'smoothing of target actions')
        an = tpi[ns, 0] + sm[i, 0]
        v = [t0[k]['/v'][ns, 0] + t0[k]['/w'][ns, 0] * an for k in (1, 2)]
        ys.append(R if term else R + d * smin(*v))
    critic(x, grads(o1), spec, ys, q1, 2, 'first critic gradient')
    critic(x, grads(o2), spec, ys, q2, 2, 'second critic gradient')
    for s, *_ in spec:
        x.eq(grads(po)['/T'][s, 0], -q1.w.array[s, 0] / 2, 'actor gradient')
    for l, l0, src in zip(t, t0, (pi, q1, q2)):
        synced(x, l, l0, src, tau, 'soft update of the targets')


@harness(quick=[dict(d=d) for d in (1, 2, 3)])
def delay(x, d):
    """Policy and targets move once per `policy_update_delay` updates."""
    ag, pi, q1, q2, (po, o1, o2), _ = twin(
        x, 'TD3', 0.5, 0.5, target_policy_smoothing_func=lambda a: a,
        policy_update_delay=d)
    t = [ag.target_policy, ag.target_q_func1, ag.target_q_func2]
    a = x.reals('a', 1, -1, 1)
    es = [[transition(0, a, x.real('r', -1, 1), 1)]]
    n0 = [dict(v.namedparams()) for v in (pi, q1, q2)]
    for k in range(1, 5):
        before = [snap(v) for v in t]
        n = len(po.log)
        ag.update(es)
        x.check(len(o1.log) == k and len(o2.log) == k, 'critics every time')
        due = k % d == 0
        x.check(len(po.log) == n + due, 'delayed policy update')
        for l, l0, src in zip(t, before, (pi, q1, q2)):
            synced(x, l, l0, src, 0.5 if due else 0, 'delayed target update')


@harness(quick=[{}])
def smoothing(x):
    """The default smoothing: clipped noise, then clipped action."""
    a = x.reals('a', (2, 2), -2, 2)
    x.draws[:] = []
    y = default_target_policy_smoothing_func(a)
    x.check(len(x.draws) == 4, 'one noise value per component')
    for (_, _, u), v, w in zip(x.draws, a.ravel(), y.ravel()):
        n = smax(-0.5, smin(0.5, u * 0.2))
        x.eq(w, smax(-1, smin(1, v + n)), 'smoothed action')


@harness(quick=[dict(lens=l, auto=a) for l in LENS for a in (False, True)])
def sac(x, lens, auto):
    gamma = x.real('gamma', 0, 1)
    tau = x.choice('tau', [0.25, 1])
    kw = {}
    if auto:
        to = GradRec()
        H = x.real('target_entropy', -2, 2)
        kw = dict(entropy_target=H, temperature_optimizer=to)
        temp = None
    else:
        temp = kw['initial_temperature'] = x.real('temp', 0, 2)
    ag, pi, q1, q2, (po, o1, o2), noise = twin(x, 'SAC', gamma, tau, **kw)
    if auto:
        x.link_params(ag.temperature_holder, -1, 1, 'lt_')
        lt = ag.temperature_holder.log_temperature.array
        lt = lt.reshape(-1)[0]
        temp = np.exp(x.array([lt], 'f8'))[0]
        x.eq(ag.temperature, temp, 'temperature')
    t = [ag.target_q_func1, ag.target_q_func2]
    t0 = [snap(v) for v in t]
    es, spec = exps_(x, lens, gamma)
    m, c = pi.m.array, pi.c.array
    ag.update(es)
    nn, nb = noise.of(1, 3), noise.of(0, 2)
    x.check(len(nn) == 1 and len(nb) == 1, 'one sample each')
    ys = []
    for i, (s, a, R, d, term, ns) in enumerate(spec):
        an = m[ns, 0] + nn[0][i, 0]
        lp = c[ns, 0] + c[ns, 1] * an
        v = [t0[k]['/v'][ns, 0] + t0[k]['/w'][ns, 0] * an for k in (0, 1)]
        ys.append(R if term else R + d * (smin(*v) - temp * lp))
    critic(x, grads(o1), spec, ys, q1, 1, 'first critic gradient')
    critic(x, grads(o2), spec, ys, q2, 1, 'second critic gradient')
    g = grads(po)
    lps = []
    for i, (s, *_) in enumerate(spec):
        a = m[s, 0] + nb[0][i, 0]
        lps.append(c[s, 0] + c[s, 1] * a)
        v1, v2 = q(q1, s, a), q(q2, s, a)
        x.assume(v1 != v2)
        w = ite(v1 < v2, q1.w.array[s, 0], q2.w.array[s, 0])
        x.eq(g['/m'][s, 0], (temp * c[s, 1] - w) / 2, 'policy gradient')
        x.eq(g['/c'][s, 0], temp / 2, 'policy gradient')
        x.eq(g['/c'][s, 1], temp * a / 2, 'policy gradient')
    for l, l0, src in zip(t, t0, (q1, q2)):
        synced(x, l, l0, src, tau, 'soft update of the targets')
    if auto:
        x.check(len(to.log) == 1, 'temperature step')
        x.eq(grads(to)['/log_temperature'].reshape(-1)[0],
             -temp * ((lps[0] + lps[1]) / 2 + H), 'temperature gradient')


class Full(RecBuffer):
    """A buffer that always offers the same experience."""

    def __init__(self, e):
        super().__init__()
        self.e, self.n = e, 0

    def __len__(self):
        return 10

    def sample(self, k):
        self.n += 1
        return [self.e] * k


@harness(quick=[dict(name=n) for n in ('TD3', 'DDPG', 'DQN', 'PGT')])
def repeats(x, name):
    """n_times_update updates per due step, for every agent that has it."""
    k = x.choice('n_times_update', [1, 2, 3])
    iv = x.choice('update_interval', [1, 2])
    buf = Full([transition(0, np.zeros(1, 'f4') if name != 'DQN' else 0,
                           0.5, 1)])
    kw = dict(n_times_update=k, update_interval=iv)
    ex = Explorer(x, lambda s: np.zeros(1, 'f4') if name != 'DQN' else 0)
    if name == 'TD3':
        ag, *_ = twin(x, 'TD3', 0.5, 0.5, buf=buf, explorer=ex, start=2,
                      target_policy_smoothing_func=lambda a: a, **kw)
    elif name == 'DQN':
        qf = x.build(lambda: TableQ(20, 2))
        ag = G.DQN(qf, GradRec(qf), buf, 0.9, ex, replay_start_size=2,
                   minibatch_size=1, phi=phi, logger=LOG, **kw)
    else:
        noise = Noise(x)

        def mk():
            m = chainer.Chain()
            with m.init_scope():
                m.policy = TablePi(20) if name == 'DDPG' else TableDist(
                    20, noise)
                m.q_function = LinQSA(20)
            return m
        m = x.build(mk)
        ag = getattr(G, name)(
            m, GradRec(m.policy), GradRec(m.q_function), buf, 0.9, ex,
            replay_start_size=2, minibatch_size=1, phi=phi, logger=LOG, **kw)
    n = 0
    first = 0 if name == 'DQN' else 1
    for t in range(4):
        ag.act_and_train(t % 3, 0.0)
        n += k * ((t + first) % iv == 0)
        x.check(buf.n == n, 'number of updates after each step')
