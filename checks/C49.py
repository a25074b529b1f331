"""Recurrent Q-learning: every Q value is that of the whole episode so far."""
from chainerrl import agents as G
from chainerrl.action_value import DiscreteActionValue
from chainerrl.agents.ddpg import DDPGModel

from symx.api import *
from checks._agents import *
from checks.C26 import CLS, rows, smax, smin, target

BOUNDS = ('1..2 environments, 1..2 episodes of 1..3 steps (ended by a '
          'terminal state or cut), evaluation acts anywhere between; updates '
          'from 1..2 sub-sequences of the recorded episodes; the model is an '
          'arbitrary function of the history of observations, values in '
          '[-2, 2]; arbitrary rewards; 7 agent classes')
ASSUMPTIONS = ['reals stand for floats; the model is a stand-in that '
               'implements StatelessRecurrent (the package\'s own models are '
               'decided by C42)']

NA = 2


class Acts(object):
    """Explorer that records the action values it is offered."""

    def __init__(self, x):
        self.x, self.log = x, []

    def select_action(self, t, greedy_func, action_value=None):
        a = len(self.log) % NA
        self.log.append((t, action_value.q_values.array[0].copy(),
                         greedy_func(), a))
        return a


def make(x, name, rows_, clip=False, acc='mean', par=None, order=False,
         **kw):
    gamma = x.real('gamma', 0, 1)
    q = x.build(lambda: RecNet(rows_, NA,
                               lambda r, hs: DiscreteActionValue(r)))
    extra = {}
    if name in ('AL', 'PAL', 'DoublePAL'):
        extra['alpha'] = par
    ex = Acts(x)
    o = GradRec(q)
    buf = RecBuffer()
    ag = CLS[name](q, o, buf, gamma, ex, replay_start_size=1000,
                   minibatch_size=1, phi=phi, clip_delta=clip,
                   batch_accumulator=acc, logger=LOG, recurrent=True,
                   target_update_interval=10 ** 6,
                   episodic_update_len=5, **dict(extra, **kw))
    q.T.array = x.reals('Q', q.T.shape, -2, 2)
    ag.target_model.T.array = x.reals('T', q.T.shape, -2, 2)
    if order:
        # which action is greedy is known, and tells the histories apart
        for i in range(rows_):
            k = i * (i + 1) // 2 % 2
            x.assume(q.T.array[i, k] > q.T.array[i, 1 - k])
    return ag, q, o, ex, buf, gamma


# observations of the episodes (the last one is the final next state)
EPS = [(0, 1, 2, 1), (0, 2, 2, 0), (1, 1, 0, 2)]


def best(row):
    """Index of the greedy action."""
    k = 0
    for j in range(1, len(row)):
        if row[j] > row[k]:
            k = j
    return k


class Play(object):
    """Drive the agent; what must have been recorded."""

    def __init__(self, x, ag, q, ex, buf):
        self.x, self.ag, self.q, self.ex, self.buf = x, ag, q, ex, buf
        self.eval_h = ()
        self.eval_n = 0

    def evaluate(self, s, end):
        """One evaluation step in an episode of its own."""
        x, ag, q = self.x, self.ag, self.q
        self.eval_h += (s,)
        a = ag.act(s)
        row = [q.value(self.eval_h, j) for j in range(NA)]
        x.check(a == best(row), 'greedy in the evaluation episode so far')
        if end:
            ag.stop_episode()
            self.eval_h = ()

    def single(self, k, n, done, r, evals=()):
        """Episode k with n transitions."""
        x, ag, q, ex = self.x, self.ag, self.q, self.ex
        acts = []
        for i in range(n):
            if i in evals:
                self.evaluate(EPS[k][i], x.flag('end%d_%d' % (k, i)))
            acts.append(ag.act_and_train(EPS[k][i], r[i - 1] if i else 0))
            h = EPS[k][:i + 1]
            x.eq(ex.log[-1][1], x.array([q.value(h, j) for j in range(NA)]),
                 'action values of the episode so far')
        ag.stop_episode_and_train(EPS[k][n], r[n - 1], done=done)
        return [dict(s=EPS[k][:i + 1], ns=EPS[k][:i + 2], a=acts[i], R=r[i],
                     term=done and i == n - 1) for i in range(n)]

    def recorded(self):
        """Recorded episodes of each environment, in order of their ends."""
        eps, cur = [], {}
        for kind, v in self.buf.log:
            if kind == 'append':
                v = dict(v)
                e = v.pop('env_id', 0)
                v.setdefault('next_action', None)
                cur.setdefault(e, []).append(v)
            else:
                if cur.get(v):
                    eps.append(cur.pop(v))
        return eps


def check_update(x, name, ag, q, o, ex, gamma, par, picked, clip, acc):
    Q, Tq = rows(q.T.array), rows(ag.target_model.T.array)
    ex.log[:] = []
    n0 = len(o.log)
    ag.update_from_episodes([d for d, _ in picked])
    x.check(len(o.log) == n0 + 1, 'one optimizer step')
    g = o.log[-1][1]['/T']
    flat = [e for _, es in picked for e in es]
    want = [[0] * NA for _ in Q]
    for i, e in enumerate(flat):
        e = dict(e, d=gamma, s=q.row(e['s']), ns=q.row(e['ns']))
        y = target(x, name, e, Q, Tq, par, ex, i)
        d = Q[e['s']][e['a']] - y
        if clip:
            d = smax(-1, smin(1, d))
        d = d / (len(flat) if acc == 'mean' else 1)
        want[e['s']][e['a']] = want[e['s']][e['a']] + d
    for s in range(len(Q)):
        for a in range(NA):
            x.eq(0 if g is None else g[s, a], want[s][a], 'gradient')
    x.eq(ag.target_model.T.array, x.array(
        [v for r in Tq for v in r]).reshape(len(Tq), NA),
        'the target network is left alone')


def sub(x, tag, ep, spec, cut=True):
    n = len(ep)
    i = x.choice('from' + tag, range(n)) if cut else 0
    j = x.choice('to' + tag, range(i + 1, n + 1)) if cut else n
    return ep[i:j], spec[i:j]


NAMES = ['DQN', 'DoubleDQN', 'SARSA', 'AL', 'PAL', 'DoublePAL', 'DPPGreedy']


@harness(quick=[dict(name=n, lens=(2,)) for n in NAMES] + [
    dict(name='DQN', lens=(2, 1), cut=False),
    dict(name='DQN', lens=(1, 2), cut=False),
    dict(name='DoubleDQN', lens=(2, 1), cut=False),
    dict(name='DQN', lens=(3,), clip=True, acc='sum')],
    thorough=[dict(name=n, lens=(3,)) for n in NAMES] +
    [dict(name=n, lens=(2, 2)) for n in ('DQN', 'SARSA')], time_limit=300)
def episodes(x, name, lens, cut=True, clip=False, acc='mean'):
    """Recording, then updating from parts of the recorded episodes."""
    par = x.real('par', 0, 1)
    ag, q, o, ex, buf, gamma = make(x, name, 8, clip, acc, par)
    p = Play(x, ag, q, ex, buf)
    specs = []
    for k, n in enumerate(lens):
        r = [x.real('r%d_%d' % (k, i), -2, 2) for i in range(n)]
        specs.append(p.single(k, n, x.flag('done%d' % k), r))
    eps = p.recorded()
    x.check([len(e) for e in eps] == list(lens), 'episodes recorded')
    picked = [sub(x, str(k), eps[k], specs[k], cut)
              for k in range(len(lens))]
    if len(lens) > 1 and x.flag('order'):
        picked.reverse()
    check_update(x, name, ag, q, o, ex, gamma, par, picked, clip, acc)


@harness(quick=[dict(n=2), dict(n=3)])
def evaluation(x, n):
    """Evaluation in the middle of training episodes keeps a history of its
    own and disturbs none."""
    ag, q, o, ex, buf, gamma = make(x, 'DQN', 12, order=n > 2)
    p = Play(x, ag, q, ex, buf)
    r = [x.real('r%d' % i, -2, 2) for i in range(n)]
    specs = p.single(0, n, True, r, evals=[
        i for i in range(n) if x.flag('eval%d' % i)])
    specs2 = p.single(2, 1, False, r, evals=[0])
    eps = p.recorded()
    check_update(x, 'DQN', ag, q, o, ex, gamma, None,
                 [(eps[0], specs), (eps[1], specs2)], False, 'mean')


@harness(quick=[dict(steps=2), dict(steps=2, ev=True)],
         thorough=[dict(steps=3)], time_limit=300)
def batch(x, steps, ev=False):
    """Two environments; each episode has its own history."""
    ag, q, o, ex, buf, gamma = make(x, 'DQN', 24, order=True)
    h = [(), ()]
    eh = [(), ()]
    spec, cur = [], [[], []]
    obs = [0, 1]
    for t in range(steps):
        if ev:
            acts = ag.batch_act([t, 2 - t])
            eh = [eh[0] + (t,), eh[1] + (2 - t,)]
            for i in range(2):
                x.check(acts[i] == best([q.value(eh[i], j)
                                         for j in range(NA)]),
                        'greedy in the evaluation episode')
            ends = [x.flag('ee%d%d' % (t, i)) for i in range(2)]
            which = [e and x.flag('er%d%d' % (t, i))
                     for i, e in enumerate(ends)]
            ag.batch_observe([0, 0], [0, 0],
                             [e and not w for e, w in zip(ends, which)],
                             which)
            eh = [() if e else v for e, v in zip(ends, eh)]
        n0 = len(ex.log)
        acts = ag.batch_act_and_train(list(obs))
        h = [h[i] + (obs[i],) for i in range(2)]
        for i in range(2):
            x.eq(ex.log[n0 + i][1],
                 x.array([q.value(h[i], j) for j in range(NA)]),
                 'action values of the episode so far')
        r = [x.real('r%d%d' % (t, i), -2, 2) for i in range(2)]
        done = [not ev and x.flag('done%d%d' % (t, i)) for i in range(2)]
        reset = [(not ev or i == t) and x.flag('reset%d%d' % (t, i))
                 for i in range(2)]
        new = [(t + 1 + i) % 3 for i in range(2)]
        ag.batch_observe_and_train(new, r, done, reset)
        for i in range(2):
            cur[i].append(dict(s=h[i], ns=h[i] + (new[i],), a=acts[i],
                               R=r[i], term=done[i]))
            if done[i] or reset[i]:
                spec.append(cur[i])
                cur[i] = []
                h[i] = ()
                new[i] = (t + i) % 3
        obs = new
    eps = Play(x, ag, q, ex, buf).recorded()
    x.check([len(e) for e in eps] == [len(e) for e in spec],
            'episodes recorded')
    if eps and not ev:
        # the last ones have the longest histories
        check_update(x, 'DQN', ag, q, o, ex, gamma, None,
                     list(zip(eps, spec))[-2:], False, 'mean')


class PiNet(StateNet):
    """Recurrent policy: any function of the states seen."""

    def __init__(self, n, rows_=None):
        super().__init__(n, 1, lambda r, hs:
                         D.ContinuousDeterministicDistribution(r), rows_)

    def __deepcopy__(self, memo):
        r = type(self)(self.T.shape[0], self.rows)
        r.T.array = self.T.array.copy()
        return r


class QNet(StateNet):
    """Recurrent Q function: v[states] + w[states] a + u[states] a', with a'
    the action seen before."""
    prev = None

    def __init__(self, n, rows_=None):
        super().__init__(n, 3, lambda r, hs: r, rows_)

    def __deepcopy__(self, memo):
        r = type(self)(self.T.shape[0], self.rows)
        r.T.array = self.T.array.copy()
        return r

    def get_state(self):
        return self.hs, self.prev

    def set_state(self, state):
        self.hs, self.prev = state

    def reset_state(self):
        self.hs = self.prev = None

    def __call__(self, xs, a):
        r = super().__call__(xs)
        a = chainer.as_variable(a)
        q = r[:, 0:1] + r[:, 1:2] * a
        if self.prev is not None:
            q = q + r[:, 2:3] * self.prev[:len(a)]
        self.prev = a
        return q


class FlatQ(HistNet):
    def __init__(self, n, rows_=None):
        super().__init__(n, 3, lambda r, hs: r, rows_)

    __deepcopy__ = QNet.__deepcopy__

    def __call__(self, xs, a):
        r = self._of([(int(i),) for i in ids(xs)])
        return r[:, 0:1] + r[:, 1:2] * a


class FlatPi(HistNet):
    def __init__(self, n, rows_=None):
        super().__init__(n, 1, lambda r, hs:
                         D.ContinuousDeterministicDistribution(r), rows_)

    __deepcopy__ = PiNet.__deepcopy__

    def __call__(self, xs):
        return self._of([(int(i),) for i in ids(xs)])


@harness(quick=[dict(lens=l, rp=rp, rq=rq) for l, rp, rq in (
    ((1,), 1, 1), ((2,), 1, 1), ((1, 2), 1, 1), ((2, 1), 1, 1),
    ((2, 2), 1, 1), ((3,), 1, 1), ((2, 1), 0, 1), ((2, 1), 1, 0))],
    thorough=[dict(lens=l, rp=1, rq=1) for l in ((3, 2), (1, 3, 2))])
def ddpg(x, lens, rp, rq):
    """DDPG through time: critic and actor see the episode so far, the target
    networks one step more."""
    n = 12
    gamma = x.real('gamma', 0, 1)
    pi = x.build(lambda: (PiNet if rp else FlatPi)(n))
    qf = x.build(lambda: (QNet if rq else FlatQ)(n))
    m = x.build(lambda: DDPGModel(pi, qf))
    oa, oc = GradRec(pi), GradRec(qf)
    ag = G.DDPG(m, oa, oc, RecBuffer(), gamma, Acts(x), phi=phi,
                minibatch_size=1, replay_start_size=10 ** 4, logger=LOG,
                target_update_interval=10 ** 6)
    M, Q = [x.reals(k, (n, w), -2, 2) for k, w in (('M', 1), ('Q', 3))]
    tM, tQ = [x.reals(k, (n, w), -2, 2) for k, w in (('tM', 1), ('tQ', 3))]
    pi.T.array, qf.T.array = M, Q
    ag.target_policy.T.array, ag.target_q_function.T.array = tM, tQ
    M, Q, tM, tQ = [v.copy() for v in (M, Q, tM, tQ)]
    # what the model remembers now must survive the update
    s0 = x.flag('mid')
    if s0:
        ag.act(1)
    eps, flat = [], []
    for k, L_ in enumerate(lens):
        ep, a = [], [x.reals('a%d_%d' % (k, i), (1,), -2, 2, dtype='f4')
                     for i in range(L_)]
        for i in range(L_):
            last = i == L_ - 1
            ep.append(transition(
                EPS[k][i], a[i], x.real('r%d_%d' % (k, i), -2, 2),
                EPS[k][i + 1], last and x.flag('term%d' % k),
                a[i] if last else a[i + 1]))
        eps.append(ep)

    def hist(net, rec, s):
        return net.row(tuple(s) if rec else tuple(s[-1:]))

    def qvalue(T, s, a, prev):
        row = hist(qf, rq, s)
        v = T[row, 0] + T[row, 1] * a
        if rq and prev is not None:
            v = v + T[row, 2] * prev
        return row, v
    T_ = max(lens)
    gq = [[0] * 3 for _ in range(n)]
    gm = [0] * n
    for k, ep in enumerate(eps):
        for i, e in enumerate(ep):
            B = sum(1 for l in lens if l > i)
            a, prev = e['action'][0], ep[i - 1]['action'][0] if i else None
            s, ns = EPS[k][:i + 1], EPS[k][:i + 2]
            row, q = qvalue(Q, s, a, prev)
            na = tM[hist(pi, rp, ns), 0]
            _, nq = qvalue(tQ, ns, na, a)
            y = e['reward'] + (0 if e['is_state_terminal'] else gamma * nq)
            d = 2 * (q - y) / (B * T_)
            for j, f in enumerate((1, a, prev if rq and i else 0)):
                gq[row][j] = gq[row][j] + d * f
            pr = hist(pi, rp, s)
            gm[pr] = gm[pr] - Q[row, 1] / (B * T_)
    ag.update_from_episodes([list(e) for e in eps])
    x.check(len(oc.log) == 1 and len(oa.log) == 1, 'one step of each')
    g = oc.log[0][1]['/T']
    for i in range(n):
        for j in range(3):
            x.eq(g[i, j], gq[i][j], 'critic gradient', tol=1e-4)
    g = oa.log[0][1]['/T']
    for i in range(n):
        x.eq(g[i, 0], gm[i], 'actor gradient', tol=1e-4)
    a = ag.act(2)
    x.eq(a, M[hist(pi, rp, (1, 2) if s0 else (2,))],
         'the episode goes on where it was')
    for l, v in ((ag.target_policy, tM), (ag.target_q_function, tQ)):
        x.eq(l.T.array, v, 'the target networks are left alone')
