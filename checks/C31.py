"""A3C, A2C and n-step Q-learning: returns, losses, gradients, syncing."""
from fractions import Fraction

from chainerrl import agents as G
from chainerrl.agents.a3c import A3CSeparateModel
from chainerrl.agents.a2c import A2CSeparateModel

from symx.api import *
from checks._agents import *
from checks._num import *

BOUNDS = ('<= 5 steps of one environment with t_max 1..3 and an arbitrary '
          'continue / terminal / cut outcome after every step, arbitrary '
          'rewards, sampled actions and model parameters; A2C: 2..3 '
          'environments, 1..3 update steps, two updates, arbitrary done and '
          'reset flags; discount, tau and coefficients in [0, 1]')
ASSUMPTIONS = ['reals stand for floats',
               'policy: sample = mean + noise, log p and entropy linear in '
               'their parameters (arbitrary parameters per state)']


def phif(s):
    return np.array([s], dtype=np.float32)


class Roll(object):
    """Drives an async agent; cuts its history into the segments after which
    it must have updated: (steps, bootstrap state or None)."""

    def __init__(self, x, ag, t_max, act=None):
        self.x, self.ag, self.t_max = x, ag, t_max
        self.cur, self.segs, self.s = [], [], 0
        self.last = None

    def step(self):
        x, s = self.x, self.s
        r = 0 if self.last is None else x.real('r%d' % s, -2, 2)
        if self.last is not None:
            self.cur[-1][2] = r
        if len(self.cur) == self.t_max:
            self.cut(s)
        a = self.ag.act_and_train(s, r)
        self.cur.append([s, a, None])
        self.last, self.s = s, s + 1
        return a

    def end(self, done):
        s, self.s = self.s, self.s + 1
        r = self.cur[-1][2] = self.x.real('r%d' % s, -2, 2)
        self.ag.stop_episode_and_train(s, r, done)
        self.cut(None if done else s)
        self.last = None

    def cut(self, boot):
        self.segs.append((self.cur, boot))
        self.cur = []

    def run(self, T, check):
        x = self.x
        for t in range(T):
            n = len(self.segs)
            self.step()
            if len(self.segs) > n:
                check()
            how = x.choice('out%d' % t, ['go', 'done', 'cut'])
            if how != 'go':
                self.end(how == 'done')
                check()


@harness(quick=[dict(T=4, t_max=2, idx=0, scale=False, norm=False, avg=False),
                dict(T=4, t_max=3, idx=1, scale=True, norm=False, avg=False,
                     pc=2, vc=1.0),
                dict(T=4, t_max=3, idx=1, scale=False, norm=True, avg=False),
                dict(T=3, t_max=2, idx=1, scale=False, norm=False, avg=True)],
         thorough=[dict(T=6, t_max=m, idx=1, scale=s, norm=n, avg=False)
                   for m in (1, 2, 4) for s in (False, True)
                   for n in (False, True)] +
         [dict(T=4, t_max=3, idx=0, scale=False, norm=False, avg=True)])
def a3c(x, T, t_max, idx, scale, norm, avg, pc=1.0, vc=0.5):
    noise = Noise(x)
    n = 2 * T + 2
    m = x.build(lambda: A3CSeparateModel(TableDist(n, noise), TableV(n)))
    o = GradRec(m)
    gamma = x.real('gamma', 0, 1)
    beta = x.real('beta', 0, 1)
    kw = dict(use_average_reward=True, average_reward_tau=0.25) if avg else {}
    ag = G.A3C(m, o, t_max, gamma, beta=beta, process_idx=idx, phi=phi,
               pi_loss_coef=pc, v_loss_coef=vc, keep_loss_scale_same=scale,
               normalize_grad_by_t_max=norm, **kw)
    x.link_params(ag.model, -2, 2, 'local')
    x.link_params(m, -2, 2)
    ag.sync_parameters()
    roll = Roll(x, ag, t_max)
    st = dict(done=0, avg=0)
    pi, v = ag.model.pi, ag.model.v

    def check():
        x.check(len(o.log) == len(roll.segs), 'one update per segment')
        g = o.log[-1][1]
        seg, boot = roll.segs[-1]
        R = 0 if boot is None else m.v.T.array[boot, 0]
        f = 1
        if scale and len(seg) < t_max:
            f = Fraction(t_max, len(seg))
        if norm:
            f = f / Fraction(len(seg))
        w = {k: {} for k in ('v', 'c0', 'c1')}
        for s, a, r in reversed(seg):
            R = gamma * R + r - st['avg']
            adv = R - m.v.T.array[s, 0]
            if avg:
                st['avg'] = st['avg'] + 0.25 * adv
            w['v'][s] = -adv * vc * f
            w['c0'][s] = -(adv + 2 * beta) * pc * f
            w['c1'][s] = -(adv * a[0] + 2 * beta) * pc * f
        for s in range(n):
            x.eq(g['/v/T'][s, 0], w['v'].get(s, 0), 'value gradient')
            x.eq(g['/pi/c'][s, 0], w['c0'].get(s, 0), 'policy gradient')
            x.eq(g['/pi/c'][s, 1], w['c1'].get(s, 0), 'policy gradient')
        x.check(g['/pi/m'] is None, 'no gradient through the sample')
    roll.run(T, check)
    for k, p in ag.model.namedparams():
        x.eq(p.array, dict(m.namedparams())[k].array, 'local model in sync')
    for (tag, nz), s in zip(noise.log, [s for s in range(n)
                                       if any(s == q[0] for sg, _ in roll.segs
                                              + [(roll.cur, 0)] for q in sg)]):
        x.check(tag == (s,), 'one sample per step')


@harness(quick=[{}])
def a3c_sync(x):
    """The shared model is updated with the local gradients and copied back;
    the local model is otherwise independent of it."""
    noise = Noise(x)
    m = x.build(lambda: A3CSeparateModel(TableDist(3, noise), TableV(3)))
    lr = x.real('lr', 0.1, 1)
    o = GradRec(m, lr=lr)
    ag = G.A3C(m, o, 1, 0.5, beta=0, process_idx=1, phi=phi)
    x.check(ag.model is not m and ag.shared_model is m, 'own model')
    x.link_params(m, -1, 1, 'shared')
    x.link_params(ag.model, -1, 1, 'local')
    s0 = {k: p.array.copy() for k, p in m.namedparams()}
    l0 = {k: p.array.copy() for k, p in ag.model.namedparams()}
    a = ag.act_and_train(0, 0)
    x.eq(a[0], l0['/pi/m'][0, 0] + noise.of(0)[0][0, 0],
         'acts with the local model')
    r = x.real('r', -1, 1)
    ag.act_and_train(1, r)
    adv = r + 0.5 * l0['/v/T'][1, 0] - l0['/v/T'][0, 0]
    x.eq(m.v.T.array[0, 0], s0['/v/T'][0, 0] + lr * adv * 0.5,
         'shared model moves by the local gradient')
    x.eq(m.pi.c.array[0, 0], s0['/pi/c'][0, 0] + lr * adv, 'shared policy')
    for k, p in ag.model.namedparams():
        x.eq(p.array, dict(m.namedparams())[k].array, 'local model in sync')
    m.v.T.array[...] += 1
    x.eq(ag.model.v.T.array, m.v.T.array - 1, 'no aliasing')


def huber_grad(d):
    return smax(-1, smin(1, d))


@harness(quick=[dict(T=4, t_max=2, k=3), dict(T=4, t_max=3, k=1)],
         thorough=[dict(T=6, t_max=m, k=k) for m in (1, 3, 5)
                   for k in (2, 4)])
def nsq(x, T, t_max, k):
    n = 2 * T + 2
    q = x.build(lambda: TableQ(n, 2))
    o = GradRec(q)
    gamma = x.real('gamma', 0, 1)
    flip = x.choice('actions', [0, 1])
    ex = Explorer(x, lambda s: (int(s[3:]) // 2 + flip) % 2, greedy=False)
    ag = G.NSQ(q, o, t_max, gamma, k, ex, phi=phi, logger=LOG)
    x.link_params(ag.q_function, -2, 2, 'local')
    q.T.array = x.reals('q', (n, 2), -2, 2)
    ag.sync_parameters()
    tgt = [x.reals('t', (n, 2), -2, 2)]
    ag.target_q_function.T.array = tgt[0].copy()
    roll = Roll(x, ag, t_max)
    steps = [0]

    def check():
        x.check(len(o.log) == len(roll.segs), 'one update per segment')
        g = o.log[-1][1]['/T']
        seg, boot = roll.segs[-1]
        R = 0
        if boot is not None:
            # the bootstrap of a full segment precedes the next step's sync
            R = smax(boots[-1][boot, 0], boots[-1][boot, 1])
        w = {}
        for s, a, r in reversed(seg):
            R = gamma * R + r
            w[s, int(a)] = huber_grad(q.T.array[s, int(a)] - R)
        for s in range(n):
            for i in range(2):
                x.eq(g[s, i], w.get((s, i), 0), 'gradient')
    boots = []
    orig = ag.update

    def update(sv):
        boots.append(ag.target_q_function.T.array.copy())
        orig(sv)
    ag.update = update
    roll.run(T, check)
    for j, (t, greedy, av, a) in enumerate(ex.log):
        x.check(t == j, 'the explorer sees the global step')


@harness(quick=[dict(k=k) for k in (1, 2, 3)])
def nsq_sync(x, k):
    """The target follows the (local) Q-function every i_target global
    steps, whoever makes them; the Q-function follows the shared one."""
    q = x.build(lambda: TableQ(8, 2))
    lr = x.real('lr', 0.5, 1)
    o = GradRec(q, lr=lr)
    ex = Explorer(x, lambda s: 1)
    ag = G.NSQ(q, o, 1, 0.5, k, ex, phi=phi, logger=LOG)
    v = np.full((8, 2), .5, 'f4')
    v[:, 0] = 2
    for l in (q, ag.q_function, ag.target_q_function):
        l.T.array = x.array(v.tolist(), 'f4')
    others = x.choice('other workers steps', [0, 1])
    g = 0
    for j in range(5):
        t0 = ag.target_q_function.T.array.copy()
        ag.act_and_train(j, x.real('r%d' % j, 3, 4))
        g += 1
        m = ag.q_function.T.array
        x.eq(m, q.T.array, 'local Q-function in sync')
        x.eq(ag.target_q_function.T.array, m if g % k == 0 else t0,
             'target synchronized every i_target global steps')
        if others:
            ag.t_global.value += 1
            g += 1


@harness(quick=[dict(N=2, U=u, gae=g) for u in (1, 2, 3)
                for g in (False, True)],
         thorough=[dict(N=3, U=3, gae=g) for g in (False, True)] +
         [dict(N=1, U=4, gae=g) for g in (False, True)])
def a2c(x, N, U, gae):
    noise = Noise(x)
    n = N * (1 + 4 * U)
    m = x.build(lambda: A2CSeparateModel(TableDist(n, noise), TableV(n)))
    o = GradRec(m)
    gamma, tau = x.real('gamma', 0, 1), x.real('tau', 0, 1)
    pc, vc, ec = (1.0, 0.5, 0.25) if U != 2 else (0.5, 2, 0)
    ag = G.A2C(m, o, gamma, N, update_steps=U, phi=phif, pi_loss_coef=pc,
               v_loss_coef=vc, entropy_coeff=ec, use_gae=gae, tau=tau)
    x.link_params(m, -2, 2)
    V = m.v.T.array
    fresh = iter(range(n))
    obs = [next(fresh) for _ in range(N)]
    for rnd in range(2):
        hist = []
        for t in range(U):
            x.check(len(o.log) == rnd, 'no early update')
            acts = ag.batch_act_and_train(obs)
            x.check(len(acts) == N, 'one action each')
            nxt = [next(fresh) for _ in range(N)]
            rs = [x.real('r%d_%d_%d' % (rnd, t, i), -2, 2) for i in range(N)]
            done, reset = [False] * N, [False] * N
            for i in range(N):
                how = ['go', 'done', 'reset'] if i == 0 and t >= U - 2 else \
                    ['go', 'done']
                if i != rnd % N and not (i == 1 and t == U - 1):
                    how = ['go']
                e = x.choice('e%d_%d_%d' % (rnd, t, i), how)
                done[i], reset[i] = e == 'done', e == 'reset'
            d0 = list(done)
            with np.testing.suppress_warnings() as sup:
                sup.filter(UserWarning)
                ag.batch_observe_and_train(nxt, rs, done, reset)
            x.check(done == d0, 'the caller\'s flags are not modified')
            end = [d or r for d, r in zip(done, reset)]
            hist.append((obs, acts, rs, end, nxt))
            obs = [next(fresh) if e else s for s, e in zip(nxt, end)]
        x.check(len(o.log) == rnd + 1, 'updated every update_steps')
        g = o.log[-1][1]
        w = {}
        for i in range(N):
            boot = V[hist[-1][4][i], 0]
            R, adv = boot, 0
            for t in reversed(range(U)):
                ss, acts, rs, end, nxt = hist[t]
                c = 0 if end[i] else gamma
                v = V[ss[i], 0]
                if gae:
                    # the value of a non-final successor within the rollout
                    # is that of the next step's observation
                    nv = boot if t == U - 1 else V[hist[t + 1][0][i], 0]
                    adv = rs[i] + c * nv - v + c * tau * adv
                    A_ = adv
                else:
                    R = rs[i] + c * R
                    A_ = R - v
                w[ss[i]] = (A_, acts[i][0])
        B = Fraction(1, U * N)
        for s in range(n):
            A_, a = w.get(s, (None, None))
            on = A_ is not None
            x.eq(g['/v/T'][s, 0], -2 * A_ * vc * B if on else 0,
                 'value gradient')
            x.eq(g['/pi/c'][s, 0], -(A_ * pc + 2 * ec) * B if on else 0,
                 'policy gradient')
            x.eq(g['/pi/c'][s, 1],
                 -(A_ * a * pc + 2 * ec) * B if on else 0,
                 'policy gradient')
        x.check(g['/pi/m'] is None, 'no gradient through the sample')


@harness(quick=[dict(name=n, det=d) for n in ('A3C', 'A2C')
                for d in (False, True)])
def acting(x, name, det):
    noise = Noise(x)
    if name == 'A3C':
        m = x.build(lambda: A3CSeparateModel(TableDist(3, noise), TableV(3)))
        ag = G.A3C(m, GradRec(m), 2, 0.5, phi=phi, act_deterministically=det)
    else:
        m = x.build(lambda: A2CSeparateModel(TableDist(3, noise), TableV(3)))
        ag = G.A2C(m, GradRec(m), 0.5, 2, phi=phif, update_steps=2,
                   act_deterministically=det)
    x.link_params(ag.model, -1, 1)
    M = ag.model.pi.m.array
    for s in (2, 1):
        a = ag.act(s)
        if det:
            x.check(not noise.log, 'no sampling')
            x.eq(a, M[s], 'most probable action')
        else:
            x.eq(a, M[s] + noise.of(s)[0][0], 'sampled action')
    if name == 'A2C':
        noise.log[:] = []
        a = ag.batch_act([0, 2])
        for i, s in enumerate((0, 2)):
            if det:
                x.check(not noise.log, 'no sampling')
                x.eq(a[i], M[s], 'most probable actions of a batch')
            else:
                x.eq(a[i], M[s] + noise.of(0, 2)[0][i], 'sampled actions')
