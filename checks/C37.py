"""ACER: Retrace targets, truncated importance weights with bias correction,
trust region, online and from replay."""
from fractions import Fraction

from chainerrl import agents as G
from chainerrl.agents import acer
from chainerrl.links import StatelessRecurrent  # NOQA

from symx.api import *
from checks._agents import *
from checks._num import exp

BOUNDS = ('segments of 1..3 steps, online (4 steps with t_max 1..3 and an '
          'arbitrary continue / terminal / cut outcome after every step) or '
          'replayed; two discrete actions or 1..2-dimensional continuous '
          'ones; all rewards, values, probabilities (not summing to 1), '
          'behaviour probabilities, average policies, thresholds and discounts')
ASSUMPTIONS = ['reals stand for floats; exp and log are uninterpreted '
               'functions with their algebraic laws',
               'policies and Q-functions: arbitrary parameters per state; '
               'continuous log density linear in its parameters']


class Probs(D.CategoricalDistribution):
    """Categorical stand-in parameterised by the (positive) probabilities."""

    def __init__(self, p, pick):
        self.p, self.pick = p, pick

    @property
    def params(self):
        return (self.p,)

    @property
    def all_prob(self):
        return self.p

    @property
    def all_log_prob(self):
        with chainer.force_backprop_mode():
            return F.log(self.p)

    @property
    def entropy(self):
        with chainer.force_backprop_mode():
            return F.sum(self.p, axis=1) * 2

    def kl(self, d):
        # any divergence from self to d will do
        return F.sum(F.square(d.p - self.p), axis=1) * 0.5

    def sample(self):
        return chainer.Variable(np.asarray(
            [self.pick() for _ in range(len(self.p.array))], dtype=np.int32))

    def copy(self):
        return Probs(chainer.Variable(self.p.array), self.pick)


class TableProbs(chainer.Link):
    def __init__(self, n, pick):
        super().__init__()
        self.pick = pick
        with self.init_scope():
            self.p = chainer.Parameter(np.ones((n, 2), dtype=np.float32))

    def __call__(self, xs):
        return Probs(self.p[ids(xs)], self.pick)


class CDist(Dist):
    """Dist whose only parameters are those of its density."""

    @property
    def params(self):
        return (self.c,)

    def kl(self, d):
        return F.sum(F.square(d.c - self.c), axis=1) * 0.5

    def copy(self):
        return CDist(self.m, chainer.Variable(self.c.array), self.noise)


class TableC(chainer.Link):
    def __init__(self, n, noise, d):
        super().__init__()
        self.noise, self.d = noise, d
        with self.init_scope():
            self.c = chainer.Parameter(np.zeros((n, d + 1),
                                                dtype=np.float32))

    def __call__(self, xs):
        i = ids(xs)
        t = tuple(int(v) for v in i)
        m = np.zeros((len(i), self.d), dtype=np.float32)
        return CDist(chainer.Variable(m), self.c[i],
                     lambda shape: self.noise(shape, t))


class Replay(object):
    def __init__(self, n=0, draw=None):
        self.n, self.draw, self.log = n, draw, []

    def __len__(self):
        return self.n

    def append(self, **kw):
        self.log.append(('append', kw))

    def stop_current_episode(self, env_id=0):
        self.log.append(('stop',))

    def sample_episodes(self, k, max_len=None):
        self.log.append(('sample', int(k), max_len))
        return self.draw()


def make(x, n, kind, d=1, **kw):
    """kind: 'd'iscrete or 'c'ontinuous."""
    picks, kw0 = [], dict(kw)
    fixed = kw.pop('fixed', False)

    def pick():
        picks.append(len(picks) % 2 if fixed else
                     x.choice('act%d' % len(picks), [0, 1]))
        return picks[-1]
    noise = Noise(x)
    if kind == 'd':
        m = x.build(lambda: acer.ACERSeparateModel(
            TableProbs(n, pick), TableQ(n, 2)))
    else:
        m = x.build(lambda: acer.ACERSDNSeparateModel(
            TableC(n, noise, d), TableV(n), LinQSA(n, d), n=1))
    o = GradRec(m)
    gamma = x.real('gamma', 0, 1)
    rb = kw.pop('rb', None)
    ag = G.ACER(m, o, kw.pop('t_max', 3), gamma, rb, phi=phif, logger=LOG,
                replay_start_size=4, **kw)
    if kind == 'd':
        for lk, nm in ((ag.model, 'pi'), (ag.shared_average_model, 'avg')):
            lk.pi.p.array = x.reals(nm, (n, 2), Fraction(1, 8), 1)
            lk.q.T.array = x.reals(nm + 'q', (n, 2), -2, 2)
        here, avg = ag.model.pi.p, ag.shared_average_model.pi.p
    else:
        x.link_params(ag.model, -2, 2, 'local')
        x.link_params(ag.shared_average_model, -2, 2, 'avg')
        here, avg = ag.model.pi.c, ag.shared_average_model.pi.c
    if kw0.get('use_trust_region'):
        # the average policy, relative to the policy
        k = x.real('k', Fraction(1, 8), Fraction(1, 2))
        how = x.choice('direction', ['same', '0', '1', 'both'])
        avg.array = here.array.copy()
        if how in ('0', 'both'):
            avg.array[:, 0] -= k
        if how in ('1', 'both'):
            avg.array[:, 1] += k
    else:
        avg.array = x.reals('avg', avg.shape, -2, 2)
    for (k, p), (_, q) in zip(sorted(m.namedparams()),
                              sorted(ag.model.namedparams())):
        p.array = q.array.copy()
    return ag, o, gamma, picks, noise


def phif(s):
    return np.array([s], dtype=np.int32)


class Ref(object):
    """Expected gradients of one update."""

    def __init__(self, x, ag, kind, gamma, noise=None, trunc=10, trust=None,
                 beta=0, pc=1.0, qc=0.5, opc=False, norm=True, d=1):
        self.__dict__.update(locals())
        self.g = {}
        self.P, self.A = ({k: p.array.copy() for k, p in m.namedparams()}
                          for m in (ag.model, ag.shared_average_model))

    def acc(self, k, v):
        self.g[k] = self.g.get(k, 0) + v

    # the model at state s
    def dist(self, s, P=None):
        P = P or self.P
        if self.kind == 'd':
            return [P['/pi/p'][s, i] for i in (0, 1)]
        return [P['/pi/c'][s, i] for i in range(self.d + 1)]

    def prob(self, c, a):
        if self.kind == 'd':
            return c[a]
        return exp(self.x, self.lp(c, a))

    def lp(self, c, a):
        return c[0] + sum(c[1 + i] * a[i] for i in range(self.d))

    def dlp(self, c, a):
        """Gradient of the log probability."""
        if self.kind == 'd':
            return [(1 / c[i] if i == a else 0) for i in (0, 1)]
        return [1] + [a[i] for i in range(self.d)]

    def q(self, s, a, z):
        """Q and V; z: the noise of the stochastic duelling network."""
        if self.kind == 'd':
            Q = self.P['/q/T']
            p = self.dist(s)
            return Q[s, a], p[0] * Q[s, 0] + p[1] * Q[s, 1]
        w = self.P['/adv/w']
        v = self.P['/v/T'][s, 0]
        return v + sum(w[s, i] * (a[i] - z[i]) for i in range(self.d)), v

    def update(self, steps, R, zs):
        """steps: (state, action, reward, behaviour policy or None) in order;
        zs: noise drawn per step: [of Q(s, a)], plus for off-policy
        continuous: the sampled action, its Q noise."""
        x, gamma = self.x, self.gamma
        Qret = Qopc = R
        W = Fraction(1, len(steps)) if self.norm else 1
        for (s, a, r, mu), z in reversed(list(zip(steps, zs))):
            c = self.dist(s)
            Q, v = self.q(s, a, z.get('q'))
            Qret, Qopc = r + gamma * Qret, r + gamma * Qopc
            adv = (Qopc if self.opc else Qret) - v
            rho = 1 if mu is None else self.prob(c, a) / self.prob(mu, a)
            # policy
            if mu is None:
                g = [-adv * t for t in self.dlp(c, a)]
            elif self.trunc is None:
                g = [-adv * rho * t for t in self.dlp(c, a)]
            else:
                f = smin(self.trunc, rho)
                g = [-adv * f * t for t in self.dlp(c, a)]
                if self.kind == 'd':
                    for b in (0, 1):
                        k = smax(1 - self.trunc * mu[b] / c[b], 0) * c[b]
                        k = k * (self.q(s, b, None)[0] - v)
                        g[b] = g[b] - k / c[b]
                else:
                    b = z['b']
                    k = smax(1 - self.trunc * self.prob(mu, b) /
                             self.prob(c, b), 0)
                    k = k * (self.q(s, b, z['bq'])[0] - v)
                    g = [gi - k * t for gi, t in zip(g, self.dlp(c, b))]
            if self.trust is not None:
                av = self.dist(s, self.A)
                k = [u - w for u, w in zip(c, av)]      # d KL / d param
                kk = sum(t * t for t in k)
                # z = g' - max(0, (k g' - delta) / kk) k for g' = -g
                dot = -sum(t * u for t, u in zip(k, g))
                fac = smax(0, (dot - self.trust) / kk) if truth(kk > 0) else 0
                g = [gi + fac * t for gi, t in zip(g, k)]
            ent = [2, 2] if self.kind == 'd' else [2] * (self.d + 1)
            for i, gi in enumerate(g):
                self.acc(('pi', s, i), W * self.pc * (gi - self.beta * ent[i]))
            # values
            e = W * self.qc
            dQ = -(Qret - Q) * e
            if self.kind == 'd':
                self.acc(('q', s, a), dQ)
                cc = smin(1, rho)
            else:
                self.acc(('v', s), dQ)
                for i in range(self.d):
                    self.acc(('w', s, i), dQ * (a[i] - z['q'][i]))
                self.acc(('v', s), -smin(1, rho) * (Qret - Q) * e)
                cc = smin(1, rho if self.d == 1 else root(rho))
            Qret, Qopc = cc * (Qret - Q) + v, Qopc - Q + v

    def compare(self, g, n):
        x, w = self.x, self.g
        for s in range(n):
            if self.kind == 'd':
                for i in (0, 1):
                    x.eq(at(g['/pi/p'], s, i), w.get(('pi', s, i), 0),
                         'policy gradient')
                    x.eq(at(g['/q/T'], s, i), w.get(('q', s, i), 0),
                         'Q gradient')
            else:
                for i in range(self.d + 1):
                    x.eq(at(g['/pi/c'], s, i), w.get(('pi', s, i), 0),
                         'policy gradient')
                x.eq(at(g['/v/T'], s, 0), w.get(('v', s), 0),
                     'value gradient')
                for i in range(self.d):
                    x.eq(at(g['/adv/w'], s, i), w.get(('w', s, i), 0),
                         'advantage gradient')
                x.eq(at(g['/adv/v'], s, 0), 0,
                     'the mean advantage is subtracted')


def at(g, *i):
    return 0 if g is None else g[i]


def truth(c):
    return bool(c)


def root(v):
    return np.sqrt(v) if not hasattr(v, 't') else v ** 0.5


@harness(quick=[dict(kind='d', L=1), dict(kind='d', L=2, trunc=2),
                dict(kind='d', L=2, trunc=None), dict(kind='d', L=1, tr=True, trunc=None),
                dict(kind='d', L=2, opc=True, norm=False, trunc=None),
                dict(kind='c', L=1), dict(kind='c', L=2, trunc=None),
                dict(kind='c', L=1, d=2, trunc=None),
                dict(kind='c', L=2, d=2, trunc=None),
                dict(kind='c', L=1, tr=True, trunc=None)],
         thorough=[dict(kind='d', L=2), dict(kind='d', L=3, trunc=2),
                   dict(kind='c', L=2),
                   dict(kind='d', L=2, tr=True)])
def replay(x, kind, L, trunc='sym', tr=False, opc=False, norm=True, d=1):
    """One replayed segment: gradients."""
    n = L + 4
    eps = []
    rb = Replay(4, lambda: [eps])
    kw = dict(beta=0.25, pi_loss_coef=0.5, Q_loss_coef=2.0) if opc else \
        dict(beta=0)
    if trunc == 'sym':
        trunc = x.real('trunc', Fraction(1, 2), 4)
    delta = x.real('delta', 0, 1) if tr else None
    ag, o, gamma, picks, noise = make(
        x, n, kind, d, rb=rb, n_times_replay=1, disable_online_update=True,
        truncation_threshold=trunc, use_trust_region=tr, use_Q_opc=opc,
        normalize_loss_by_steps=norm, trust_region_delta=delta, **kw)
    term = x.flag('term')
    steps = []
    for i in range(L):
        r = x.real('r%d' % i, -2, 2)
        if kind == 'd':
            # (the names of the actions are exchangeable)
            a = x.choice('a%d' % i, [0, 1]) if i else 0
            mu = x.reals('mu%d' % i, (2,), Fraction(1, 8), 1)
            mud = Probs(chainer.Variable(mu[None]), None)
        else:
            a = x.reals('a%d' % i, (d,), -2, 2)
            mu = x.reals('mu%d' % i, (d + 1,), -2, 2)
            mud = CDist(None, chainer.Variable(mu[None]))
        s = 3 + i
        eps.append(dict(state=s, action=np.int32(a) if kind == 'd' else a,
                        reward=r,
                        next_state=s + 1, next_action=None, mu=mud,
                        is_state_terminal=term and i == L - 1))
        steps.append((s, a, r, list(mu)))
    ref = Ref(x, ag, kind, gamma, trunc=trunc, trust=delta, opc=opc,
              norm=norm, d=d, beta=kw['beta'], pc=kw.get('pi_loss_coef', 1.0),
              qc=kw.get('Q_loss_coef', 0.5))
    ag.act_and_train(0, 0)
    before = len(noise.log)
    ag.stop_episode_and_train(1, 0, True)
    x.check(('sample', 1, 3) in rb.log, 'a segment of up to t_max steps')
    x.check(len(o.log) == 1, 'one update')
    zs = draws(noise.log[before:], steps, kind, trunc)
    # the model has not moved (the optimizer only records)
    sB = 3 + L
    R = 0 if term else ref.q(sB, 0 if kind == 'd' else [0] * d, [0] * d)[1]
    ref.update(steps, R, zs)
    ref.compare(o.log[0][1], n)


def draws(log, steps, kind, trunc):
    """Which noise was drawn for what (per step)."""
    if kind == 'd':
        return [{} for _ in steps]
    out = []
    for s, a, r, mu in steps:
        mine = [v[0] for t, v in log if t == (s,)]
        z = {}
        if mu is not None and trunc is not None:
            z['b'] = mine[0]
            if len(mine) == 3:
                z['bq'] = mine[1]
            else:
                # no correction was due: its weight is zero
                z['bq'] = mine[0]
        z['q'] = mine[-1]
        out.append(z)
    return out


@harness(quick=[dict(kind='d', T=3, t_max=2), dict(kind='c', T=3, t_max=2),
                dict(kind='d', T=1, t_max=1, tr=True),
                dict(kind='d', T=3, t_max=3, idx=0, opc=True),
                dict(kind='c', T=2, t_max=2, d=2)],
         thorough=[dict(kind='d', T=4, t_max=3),
                   dict(kind='d', T=2, t_max=1, tr=True), dict(kind='c', T=4, t_max=2),
                   dict(kind='c', T=3, t_max=3, opc=True)])
def online(x, kind, T, t_max, tr=False, idx=1, opc=False, d=1):
    """On-policy updates: every t_max steps and at the end of episodes."""
    n = 2 * T + 2
    beta = x.real('beta', 0, 1)
    delta = x.real('delta', 0, 1) if tr else None
    ag, o, gamma, picks, noise = make(
        x, n, kind, d, t_max=t_max, beta=beta, use_trust_region=tr,
        trust_region_delta=delta, use_Q_opc=opc, trust_region_alpha=1,
        pi_loss_coef=2.0, Q_loss_coef=1.0)
    ag.process_idx = idx
    cur, nup = [], [0]
    P0 = Ref(x, ag, kind, gamma)

    def cut(boot):
        nup[0] += 1
        x.check(len(o.log) == nup[0], 'one update per segment')
        ref = Ref(x, ag, kind, gamma, trust=delta, opc=opc, d=d, beta=beta,
                  pc=2.0, qc=1.0)
        R = 0 if boot is None else \
            ref.q(boot, 0 if kind == 'd' else [0] * d, [0] * d)[1]
        ref.update([(s, a, r, None) for s, a, r in cur], R,
                   draws(noise.log, [(s, a, r, None) for s, a, r in cur],
                         kind, None))
        ref.compare(o.log[-1][1], n)
        del cur[:]
    s, last = 0, None
    for t in range(T):
        r = 0
        if last is not None:
            r = x.real('r%d' % s, -2, 2)
            cur[-1][2] = r
        due = len(cur) == t_max
        a = ag.act_and_train(s, r)
        if due:
            cut(s)
        if kind == 'd':
            x.check(int(a) == picks[-1], 'acts as sampled')
            a = picks[-1]
        else:
            x.eq(a, noise.of(s)[0][0], 'acts as sampled')
        cur.append([s, a, None])
        last, s = s, s + 1
        x.check(len(o.log) == nup[0], 'no update at other times')
        how = x.choice('out%d' % t, ['go', 'done', 'cut'])
        if how != 'go':
            r = cur[-1][2] = x.real('r%d' % s, -2, 2)
            ag.stop_episode_and_train(s, r, how == 'done')
            cut(None if how == 'done' else s)
            last, s = None, s + 1
    for k, p in ag.model.namedparams():
        x.eq(p.array, P0.P[k], 'parameters only move by the optimizer')


@harness(quick=[dict(kind='d'), dict(kind='c')])
def sync(x, kind):
    """The local gradients move the shared model, which is copied back; the
    average model moves towards it by 1 - alpha."""
    alpha, lr = x.real('alpha', 0, 1), x.real('lr', Fraction(1, 8), 1)
    ag, o, gamma, picks, noise = make(
        x, 3, kind, t_max=1, beta=0, use_trust_region=False,
        trust_region_alpha=alpha)
    x.check(ag.model is not ag.shared_model and
            ag.shared_average_model is not ag.model and
            ag.shared_average_model is not ag.shared_model, 'own models')
    o.lr = lr
    for i, (k, p) in enumerate(sorted(ag.shared_model.namedparams())):
        p.array = x.reals('shared%d' % i, p.shape, Fraction(1, 8), 1)

    def copy(m):
        return {k: p.array.copy() for k, p in m.namedparams()}
    s0, a0 = copy(ag.shared_model), copy(ag.shared_average_model)
    ag.act_and_train(0, 0)
    ag.stop_episode_and_train(1, x.real('r', -2, 2), x.flag('done'))
    x.check(len(o.log) == 1, 'one update')
    g = o.log[0][1]
    s1, a1, l1 = (copy(m) for m in (ag.shared_model, ag.shared_average_model,
                                    ag.model))
    for k in s0:
        x.eq(s1[k], s0[k] if g[k] is None else s0[k] - lr * g[k],
             'the shared model is what is optimized')
        x.eq(l1[k], s1[k], 'local model in sync')
        x.eq(a1[k], alpha * a0[k] + (1 - alpha) * l1[k], 'average model')
    for p in ag.shared_model.params():
        p.array[...] += 1
    for k, p in ag.model.namedparams():
        x.eq(p.array, s1[k], 'no aliasing')
    for k, p in ag.shared_average_model.namedparams():
        x.eq(p.array, a1[k], 'no aliasing')


@harness(quick=[dict(nb=True, nr=2, on=True), dict(nb=True, nr=1, on=False),
                dict(nb=False, nr=1, on=True)])
def memory(x, nb, nr, on):
    """What is stored, and when it is replayed."""
    size = x.choice('size', [3, 4])
    one = np.ones((1, 2), dtype='f4')
    eps = [[dict(state=9, action=np.int32(1), reward=0, next_state=10,
                 next_action=None, is_state_terminal=True,
                 mu=Probs(chainer.Variable(one), None))]]
    rb = Replay(size, lambda: eps) if nb else None
    ag, o, gamma, picks, noise = make(
        x, 12, 'd', t_max=2, rb=rb, n_times_replay=nr, use_trust_region=False,
        disable_online_update=not on, fixed=True)
    want, s, last = [], 0, None
    segs = reps = steps = 0

    def boundary():
        nonlocal segs, reps
        segs += 1
        if nb and size >= 4:
            for _ in range(nr):
                want.append(('sample', 1, 2))
                reps += 1
    for t in range(3):
        r = 0 if last is None else x.real('r%d' % s, -2, 2)
        due = steps == 2
        a = ag.act_and_train(s, r)
        if due:
            boundary()
            steps = 0
        if last is not None:
            want.append(('append', dict(state=last[0], action=last[1],
                                        reward=r, next_state=s, next_action=a,
                                        is_state_terminal=False)))
        steps += 1
        last, s = (s, a), s + 1
        how = x.choice('out%d' % t, ['go', 'done', 'cut'])
        if how != 'go':
            r = x.real('r%d' % s, -2, 2)
            ag.stop_episode_and_train(s, r, how == 'done')
            boundary()
            steps = 0
            want += [('append', dict(state=last[0], action=last[1], reward=r,
                                     next_state=s,
                                     is_state_terminal=how == 'done')),
                     ('stop',)]
            last, s = None, s + 1
    x.check(len(o.log) == (segs if on else 0) + reps, 'updates')
    if not nb:
        return
    x.check(len(rb.log) == len(want), 'number of operations on the buffer')
    for got, w in zip(rb.log, want):
        x.check(got[0] == w[0], 'order of operations on the buffer')
        if w[0] == 'sample':
            x.check(got == w, 'what is sampled')
        elif w[0] == 'append':
            for k, v in w[1].items():
                x.same(got[1][k], v, k)
            mu, i = got[1]['mu'], w[1]['state']
            x.eq(mu.p.array[0], ag.model.pi.p.array[i], 'behaviour policy')
            x.check(mu.p.creator is None, 'detached')


@harness(quick=[dict(kind=k, det=d) for k in 'dc' for d in (False, True)])
def acting(x, kind, det):
    rb = Replay()
    ag, o, gamma, picks, noise = make(
        x, 3, kind, rb=rb, act_deterministically=det)
    P = Ref(x, ag, kind, gamma)
    for s in (2, 1):
        a = ag.act(s)
        if det:
            x.check(not noise.log and not picks, 'no sampling')
            if kind == 'd':
                p = P.dist(s)
                x.check(p[int(a)] >= p[1 - int(a)], 'most probable action')
            else:
                x.eq(a[0], 0, 'most probable action')
        elif kind == 'd':
            x.check(int(a) == picks[-1], 'sampled action')
        else:
            x.eq(a, noise.of(s)[0][0], 'sampled action')
    x.check(not o.log and not rb.log and ag.t == 0, 'acting is not training')
    ag.stop_episode()
    x.check(not o.log and not rb.log, 'stopping is not training')
