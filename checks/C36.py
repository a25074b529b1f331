"""PCL: path consistency losses, online and from replay."""
from fractions import Fraction

from chainerrl import agents as G
from chainerrl.agents.a3c import A3CSeparateModel

from symx.api import *
from checks._agents import *

BOUNDS = ('<= 4 steps of one environment with t_max 1..3 or none, an '
          'arbitrary continue / terminal / cut outcome after every step; '
          'rollouts of 1..3 steps; replay of 1..2 episodes of 1..3 steps in '
          'any order, weighted or not; all rewards, parameters, weights, '
          'discounts and entropy coefficients; stateful recurrent models')
ASSUMPTIONS = ['reals stand for floats',
               'policy: sample = mean + noise, log p and entropy linear in '
               'their parameters (arbitrary parameters per state or history)']


class Replay(object):
    """Episodic buffer with arbitrary content."""

    def __init__(self, n=0, n_episodes=0, draw=None):
        self.n, self.n_episodes, self.draw = n, n_episodes, draw
        self.log = []

    def __len__(self):
        return self.n

    def append(self, **kw):
        self.log.append(('append', kw))

    def stop_current_episode(self, env_id=0):
        self.log.append(('stop',))

    def sample_episodes(self, k, max_len=None):
        self.log.append(('sample', int(k), max_len))
        return self.draw(int(k), max_len)


def losses(V, lp, boot, rs, ps, gamma, tau, d_max):
    """C_t of a path: (first index, last index, C) for each t.  V: values of
    its states, boot: value after it, lp: log probabilities."""
    n, out = len(rs), []
    for t in range(n):
        d = min(n - t, d_max)
        last = boot if t + d == n else V[t + d]
        C = -V[t] + gamma ** d * last
        for i in range(d):
            C = C + gamma ** i * (rs[t + i] - tau * lp[t + i])
        out.append((t, d, C))
    return out


class Grads(object):
    """Expected gradients by parameter row."""

    def __init__(self):
        self.v, self.c0, self.c1 = {}, {}, {}

    def add(self, rows, acts, bootrow, cs, gamma, pc, vc, w, back):
        """rows: parameter rows of the path's states; bootrow: that of the
        value after it or None if there is none."""
        def acc(d, k, v):
            d[k] = d.get(k, 0) + v
        for t, d, C in cs:
            acc(self.v, rows[t], -w * vc * C)
            last = rows[t + d] if t + d < len(rows) else bootrow
            if back and last is not None:
                acc(self.v, last, w * vc * C * gamma ** d)
            for i in range(d):
                g = -w * pc * C * gamma ** i
                acc(self.c0, rows[t + i], g)
                acc(self.c1, rows[t + i], g * acts[t + i])


def agent(x, n, rec, **kw):
    noise = Noise(x)
    if rec:
        m = x.build(lambda: StateNet(n, 4, ac_of(noise)))
    else:
        m = x.build(lambda: A3CSeparateModel(TableDist(n, noise), TableV(n)))
    o = GradRec(m)
    gamma, tau = x.real('gamma', 0, 1), x.real('tau', Fraction(1, 8), 1)
    ag = G.PCL(m, o, gamma=gamma, tau=tau, phi=phi, logger=LOG, **kw)
    x.link_params(m, -2, 2)
    return noise, m, o, ag, gamma, tau


def table(m, rec):
    """row -> (v, c0, c1); gradients likewise."""
    if rec:
        T = m.T.array
        return lambda r: (T[r, 3], T[r, 1], T[r, 2])
    return lambda r: (m.v.T.array[r, 0], m.pi.c.array[r, 0],
                      m.pi.c.array[r, 1])


def compare(x, m, rec, n, g, want):
    """The recorded gradients are the expected ones."""
    for r in range(n):
        if rec:
            gm, gv, g0, g1 = (g['/T'][r, c] for c in (0, 3, 1, 2))
            x.eq(gm, 0, 'no gradient through the sample')
        else:
            gv = g['/v/T'][r, 0]
            g0, g1 = g['/pi/c'][r, 0], g['/pi/c'][r, 1]
        x.eq(gv, want.v.get(r, 0), 'value gradient')
        x.eq(g0, want.c0.get(r, 0), 'policy gradient')
        x.eq(g1, want.c1.get(r, 0), 'policy gradient')
    if not rec:
        x.check(g['/pi/m'] is None, 'no gradient through the sample')


@harness(quick=[dict(T=3, t_max=2, d=2), dict(T=3, t_max=None, d=2),
                dict(T=3, t_max=3, d=10, norm=False, back=False),
                dict(T=3, t_max=2, d=1, B=2),
                dict(T=3, t_max=2, d=2, rec=True)],
         thorough=[dict(T=4, t_max=t, d=d, norm=nm, back=b)
                   for t in (1, 3, None) for d in (2, 3)
                   for nm in (True, False) for b in (True, False)] +
         [dict(T=4, t_max=2, d=3, rec=True), dict(T=4, t_max=1, d=2, B=3)])
def online(x, T, t_max, d, norm=True, back=True, B=1, rec=False):
    n = 4 * T + 4
    pc, vc = (1.0, 0.5) if norm else (0.5, 2)
    rb = Replay()
    noise, m, o, ag, gamma, tau = agent(
        x, n, rec, t_max=t_max, rollout_len=d, batchsize=B,
        pi_loss_coef=pc, v_loss_coef=vc, normalize_loss_by_steps=norm,
        backprop_future_values=back, replay_buffer=rb)
    at = table(m, rec)
    hist, cur, nup = [], [], [0]
    pend = []

    def row(s):
        return m.row(tuple(hist) + (s,)) if rec else s

    def cut(boot):
        """The segment in cur ends, followed by state boot."""
        b = None if boot is None else row(boot)
        pend.append((list(cur), b))
        del cur[:]
        if len(pend) < B:
            return
        nup[0] += 1
        x.check(len(o.log) == nup[0], 'one update per segment')
        want = Grads()
        for seg, b in pend:
            rows = [r for r, _, _ in seg]
            vals = [at(r) for r in rows]
            lp = [v[1] + v[2] * a for v, (_, a, _) in zip(vals, seg)]
            cs = losses([v[0] for v in vals], lp, 0 if b is None else at(b)[0],
                        [r for _, _, r in seg], None, gamma, tau, d)
            w = Fraction(1, B * (len(seg) if norm else 1))
            want.add(rows, [a for _, a, _ in seg], b, cs, gamma, pc, vc, w,
                     back)
        compare(x, m, rec, n, o.log[-1][1], want)
        if rec:
            x.check(m.log.count('unchain') == nup[0],
                    'the history is cut from the graph after an update')
        del pend[:]

    s, last = 0, None
    for t in range(T):
        r = 0
        if last is not None:
            r = x.real('r%d' % s, -2, 2)
            cur[-1][2] = r
        due = len(cur) == t_max
        a = ag.act_and_train(s, r)
        if due:
            cut(s)
        cur.append([row(s), a[0], None])
        hist.append(s)
        last, s = s, s + 1
        x.check(len(o.log) == nup[0], 'no update at other times')
        how = x.choice('out%d' % t, ['go', 'done', 'cut'])
        if how != 'go':
            r = cur[-1][2] = x.real('r%d' % s, -2, 2)
            ag.stop_episode_and_train(s, r, how == 'done')
            cut(None if how == 'done' else s)
            last, s = None, s + 1
            del hist[:]
            if rec:
                x.check(m.hs is None, 'history reset after the episode')


def episode(x, name, L, s, term, rec_mu=None):
    """An episode of L transitions of states s, s + 1, ..."""
    ep = []
    for i in range(L):
        ep.append(dict(
            state=s + i, action=x.reals('%sa%d' % (name, i), (1,), -2, 2),
            reward=x.real('%sr%d' % (name, i), -2, 2), next_state=s + i + 1,
            next_action=None, is_state_terminal=term and i == L - 1, mu=None))
    return ep


@harness(quick=[dict(lens=l, weighted=w) for l in ((1,), (2,), (1, 2), (2, 2))
                for w in (False, True)] +
         [dict(lens=(1, 2), weighted=False, rec=True),
          dict(lens=(3,), weighted=False, d=2, norm=False)],
         thorough=[dict(lens=l, weighted=True, d=2)
                   for l in ((2, 3), (3, 1), (1, 2, 1), (3, 2))] +
         [dict(lens=(2, 1, 3), weighted=False, rec=True)])
def replay(x, lens, weighted, d=2, norm=True, rec=False):
    """The weighted mean of the sampled episodes' losses."""
    K = len(lens)
    n = 2 * sum(lens) + 3 * K + 8
    pc, vc = 1.0, 0.5
    eps, w, s = [], [], 2
    for k, L in enumerate(lens):
        eps.append(episode(x, 'e%d' % k, L, s, x.flag('term%d' % k)))
        w.append(x.real('w%d' % k, 0, 1) if weighted else 1)
        s += L + 1
    order = list(range(K))
    if K > 1 and x.flag('swap'):
        order.reverse()

    def draw(k, max_len):
        e = [eps[i] for i in order]
        return (e, [w[i] for i in order]) if weighted else e
    rb = Replay(8, K, draw)
    noise, m, o, ag, gamma, tau = agent(
        x, n, rec, t_max=4, rollout_len=d, batchsize=K, pi_loss_coef=pc,
        v_loss_coef=vc, normalize_loss_by_steps=norm, replay_buffer=rb,
        disable_online_update=True, replay_start_size=8)
    at = table(m, rec)
    ag.act_and_train(0, 0)
    st = m.hs if rec else None
    ag.stop_episode_and_train(1, 0, True)
    x.check(('sample', K, 4) in rb.log, 'episodes of up to t_max steps')
    x.check(len(o.log) == 1, 'one update per replay')
    want = Grads()
    for ep, wt in zip(eps, w):
        h, rows = (), []
        for e in ep:
            h = h + (e['state'],)
            rows.append(m.row(h) if rec else e['state'])
        end = ep[-1]
        h = h + (end['next_state'],)
        b = None if end['is_state_terminal'] else \
            (m.row(h) if rec else end['next_state'])
        acts = [e['action'][0] for e in ep]
        vals = [at(r) for r in rows]
        lp = [v[1] + v[2] * a for v, a in zip(vals, acts)]
        cs = losses([v[0] for v in vals], lp, 0 if b is None else at(b)[0],
                    [e['reward'] for e in ep], None, gamma, tau, d)
        want.add(rows, acts, b, cs, gamma, pc, vc,
                 wt * Fraction(1, K * (len(ep) if norm else 1)), True)
    compare(x, m, rec, n, o.log[-1][1], want)


@harness(quick=[dict(nb=nb, B=B, nr=nr) for nb, B, nr in
                ((True, 1, 1), (True, 2, 2), (False, 1, 1), (True, 1, 0))])
def memory(x, nb, B, nr):
    """What is stored, and when it is replayed."""
    n = 12
    size, neps = x.choice('size', [3, 4]), x.choice('episodes', [1, 2])
    ep = [episode(x, 'e', 1, 9, True), episode(x, 'f', 1, 10, True)]
    rb = Replay(size, neps, lambda k, m: ep[:k]) if nb else None
    noise, m, o, ag, gamma, tau = agent(
        x, n, False, t_max=2, rollout_len=2, batchsize=B, replay_buffer=rb,
        n_times_replay=nr, replay_start_size=4)
    want, s, last = [], 0, None
    segs = reps = steps = 0

    def boundary():
        nonlocal segs, reps
        segs += 1
        if segs % B == 0 and nb and size >= 4 and neps >= B:
            for _ in range(nr):
                want.append(('sample', B, 2))
                reps += 1
    for t in range(3):
        r = 0 if last is None else x.real('r%d' % s, -2, 2)
        due = steps == 2
        a = ag.act_and_train(s, r)
        if due:
            boundary()
            steps = 0
        if last is not None:
            want.append(('append', dict(state=last[0], action=last[1],
                                        reward=r, next_state=s, next_action=a,
                                        is_state_terminal=False)))
        steps += 1
        last, s = (s, a), s + 1
        how = x.choice('out%d' % t, ['go', 'done', 'cut'])
        if how != 'go':
            r = x.real('r%d' % s, -2, 2)
            ag.stop_episode_and_train(s, r, how == 'done')
            boundary()
            steps = 0
            want += [('append', dict(state=last[0], action=last[1], reward=r,
                                     next_state=s,
                                     is_state_terminal=how == 'done')),
                     ('stop',)]
            last, s = None, s + 1
    x.check(len(o.log) == segs // B + reps, 'updates')
    if not nb:
        return
    x.check(len(rb.log) == len(want), 'number of operations on the buffer')
    for got, w in zip(rb.log, want):
        x.check(got[0] == w[0], 'order of operations on the buffer')
        if w[0] == 'sample':
            x.check(got == w, 'what is sampled')
        elif w[0] == 'append':
            for k, v in w[1].items():
                x.same(got[1][k], v, k)
            mu, i = got[1]['mu'], w[1]['state']
            x.eq(mu.c.array[0], m.pi.c.array[i], 'behaviour policy')
            x.check(mu.c.creator is None, 'detached')


@harness(quick=[dict(det=d) for d in (False, True)])
def acting(x, det):
    noise, m, o, ag, gamma, tau = agent(
        x, 4, False, t_max=2, replay_buffer=Replay(),
        act_deterministically=det)
    M = m.pi.m.array
    for s in (2, 1):
        a = ag.act(s)
        if det:
            x.check(not noise.log, 'no sampling')
            x.eq(a, M[s], 'most probable action')
        else:
            x.eq(a, M[s] + noise.of(s)[0][0], 'sampled action')
    x.check(not o.log and not ag.replay_buffer.log and ag.t == 0,
            'acting is not training')
    ag.stop_episode()


@harness(quick=[dict()])
def explored(x):
    """The explorer chooses; what it chose is learned from."""
    ex = Explorer(x, lambda s: x.reals(s, (1,), -2, 2))
    noise, m, o, ag, gamma, tau = agent(
        x, 4, False, t_max=1, rollout_len=1, replay_buffer=Replay(),
        explorer=ex)
    a = ag.act_and_train(0, 0)
    t, greedy, _, b = ex.log[0]
    x.check(t == 0, 'step')
    x.eq(greedy, m.pi.m.array[0] + noise.of(0)[0][0], 'offered action')
    x.eq(a, b, 'the explorer\'s action')
    r = x.real('r', -2, 2)
    ag.stop_episode_and_train(1, r, True)
    at = table(m, False)
    v = at(0)
    want = Grads()
    want.add([0], [b[0]], None,
             losses([v[0]], [v[1] + v[2] * b[0]], 0, [r], None, gamma, tau, 1),
             gamma, 1.0, 0.5, 1, True)
    compare(x, m, False, 4, o.log[-1][1], want)


@harness(quick=[dict()])
def sync(x):
    """Asynchronous training: local gradients move the shared model, which is
    copied back."""
    noise = Noise(x)
    m = x.build(lambda: A3CSeparateModel(TableDist(3, noise), TableV(3)))
    lr = x.real('lr', 0.1, 1)
    o = GradRec(m, lr=lr)
    ag = G.PCL(m, o, gamma=0.5, tau=0.5, phi=phi, logger=LOG, t_max=1,
               replay_buffer=Replay(), train_async=True)
    x.check(ag.model is not m and ag.shared_model is m, 'own model')
    x.link_params(m, -1, 1, 'shared')
    x.link_params(ag.model, -1, 1, 'local')
    s0 = {k: p.array.copy() for k, p in m.namedparams()}
    l0 = {k: p.array.copy() for k, p in ag.model.namedparams()}
    a = ag.act_and_train(0, 0)
    x.eq(a[0], l0['/pi/m'][0, 0] + noise.of(0)[0][0, 0],
         'acts with the local model')
    r = x.real('r', -1, 1)
    ag.stop_episode_and_train(1, r, True)
    lp = l0['/pi/c'][0, 0] + l0['/pi/c'][0, 1] * a[0]
    C = -l0['/v/T'][0, 0] + r - 0.5 * lp
    x.eq(m.v.T.array[0, 0], s0['/v/T'][0, 0] + lr * C * 0.5,
         'shared model moves by the local gradient')
    x.eq(m.pi.c.array[0, 0], s0['/pi/c'][0, 0] + lr * C, 'shared policy')
    for k, p in ag.model.namedparams():
        x.eq(p.array, dict(m.namedparams())[k].array, 'local model in sync')
    m.v.T.array[...] += 1
    x.eq(ag.model.v.T.array, m.v.T.array - 1, 'no aliasing')
