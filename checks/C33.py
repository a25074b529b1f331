"""PPO and TRPO: which rollouts an update uses, advantages and targets."""
from fractions import Fraction

import chainerrl.misc
from chainerrl import agents as G
from chainerrl.agents import ppo, trpo

from symx.api import *
from checks._agents import *

BOUNDS = ('<= 5 steps of one environment with an arbitrary continue / '
          'terminal / cut outcome after every step, or <= 3 batched steps of '
          '2 environments with arbitrary done / reset flags; update interval '
          '2..4; arbitrary rewards, sampled actions, value and policy '
          'functions (of the current observation, or of the whole history of '
          'the episode for recurrent models); gamma, lambda in [0, 1]; with '
          'and without observation normalization')
ASSUMPTIONS = ['reals stand for floats',
               'the policy\'s log density is linear in the action (arbitrary '
               'parameters per history); models are stand-ins',
               'for TRPO the conjugate gradient step is a recorder returning '
               'a zero step (C35 decides the policy step)']


class Rig(object):
    def __init__(self, x, name, rec, interval, batch, gamma, lambd, norm,
                 rows, seqlen=None, act_det=False):
        self.x, self.name, self.rec = x, name, rec
        self.noise = noise = Noise(x)
        self.norm = None
        if norm:
            self.norm = Norm(0, 100) if rec else Norm(100)
        kw = dict(obs_normalizer=self.norm, gamma=gamma, lambd=lambd, phi=phi,
                  update_interval=interval, standardize_advantages=False,
                  recurrent=rec, act_deterministically=act_det,
                  max_recurrent_sequence_len=seqlen)
        Net = RecNet if rec else FlatNet
        self.gains = []
        if name == 'PPO':
            m = x.build(lambda: Net(rows + 3, 4, ac_of(noise)))
            self.pi = self.vf = m
            self.o = GradRec(m)
            self.ag = G.PPO(m, self.o, value_func_coef=0.5, entropy_coef=0.25,
                            minibatch_size=batch, epochs=1, clip_eps=0.2,
                            **kw)
            self.vcol = 3
        else:
            self.pi = x.build(lambda: Net(rows + 3, 3, dist_of(noise)))
            self.vf = x.build(lambda: Net(rows + 3, 1, lambda r, hs: r,
                                          self.pi.rows))
            self.o = GradRec(self.vf)
            self.ag = G.TRPO(self.pi, self.vf, self.o, entropy_coef=0.25,
                             vf_epochs=1, vf_batch_size=batch, logger=LOG,
                             line_search_max_backtrack=0, **kw)
            self.vcol = 0
        x.link_params(self.pi, -2, 2, 'pi')
        if name == 'TRPO':
            x.link_params(self.vf, -2, 2, 'vf')
        if norm and not rec:
            # shifted observations have the same policy (so that probability
            # ratios stay 1) but their own values
            S = rows // 3
            for off in (0, 100, 200):
                for i in range(S):
                    k = self.pi.row((i + off,))
                    self.pi.T.array[k, :3] = self.pi.T.array[i, :3]
        self.p0 = self.pi.T.array.copy()
        self.hist = {}
        self.pend, self.n = [], 0     # episodes' parts waiting, their size
        self.cur = {}                 # per env: the running part
        self.ups = 0
        self.interval, self.gamma, self.lambd = interval, gamma, lambd


def cg(rig):
    def conjugate_gradient(A, b, tol=1e-10, max_iter=10):
        rig.gains.append(b)
        return np.zeros_like(b)
    return conjugate_gradient


class with_cg(object):
    def __init__(self, rig):
        self.rig = rig

    def __enter__(self):
        self.old = chainerrl.misc.conjugate_gradient
        chainerrl.misc.conjugate_gradient = cg(self.rig)
        # the order within the (only) minibatch is irrelevant, and so are
        # the statistics; C34 covers both
        self.rig.x.fixed_perm = True
        self.ev = []
        for m in (ppo, trpo):
            if hasattr(m, '_compute_explained_variance'):
                self.ev.append((m, m._compute_explained_variance))
                m._compute_explained_variance = lambda tr: 0.

    def __exit__(self, *e):
        chainerrl.misc.conjugate_gradient = self.old
        for m, f in self.ev:
            m._compute_explained_variance = f


def expect_update(x, rig, parts, off0):
    """One update from these parts of episodes: lists of
    (history, action, reward, next history, nonterminal)."""
    g, lam = rig.gamma, rig.lambd
    rig.ups += 1
    x.check(len(rig.o.log) == rig.ups, 'one update')
    if rig.name == 'TRPO':
        x.check(len(rig.gains) == rig.ups, 'one policy step')
    B = Fraction(sum(len(p) for p in parts))
    rows = rig.pi.T.shape[0]
    want = {}
    norm = rig.norm
    off1 = norm.off if norm else 0

    def key(h, off):
        h = h if rig.rec else h[-1:]
        return tuple(s + off for s in h)
    for part in parts:
        adv = 0
        for h, a, r, nh, nonterm in reversed(part):
            v = rig.vf.T.array[rig.vf.row(key(h, off0)), rig.vcol]
            nv = rig.vf.T.array[rig.vf.row(key(nh, off0)), rig.vcol]
            adv = r + (g * nv if nonterm else 0) - v + g * lam * adv
            v1 = rig.vf.T.array[rig.vf.row(key(h, off1)), rig.vcol]
            want[rig.pi.row(key(h, off1))] = (adv, a, v1 - v - adv)
    vg = rig.o.log[-1][1]['/T']
    pg = vg if rig.name == 'PPO' else -rig.gains[-1].reshape(rows, 3)
    vc = Fraction(1, 2) if rig.name == 'PPO' else 1
    for k in range(rows):
        adv, a, dv = want.get(k, (0, 0, 0))
        e = Fraction(1, 2) if k in want else 0
        x.eq(vg[k, rig.vcol], 2 * dv * vc / B, 'value target')
        x.eq(pg[k, 1], -(adv + e) / B, 'advantage')
        x.eq(pg[k, 2], -(adv * a + e) / B, 'advantage and action')
        x.eq(pg[k, 0], 0, 'no gradient through the sample')
    if norm:
        log = norm.log
        ex = [i for i, l in enumerate(log) if l[0] == 'experience']
        x.check(len(ex) == rig.ups, 'statistics updated once per update')
        seen = sorted(log[ex[-1]][1])
        x.check(seen == sorted(t[0][-1] for p in parts for t in p),
                'with the observations of the rollouts')
        x.check(all(l[2] is False for l in log if l[0] == 'call'),
                'normalizing does not learn')


@harness(quick=[dict(name=n, rec=r, T=5, interval=i, norm=False)
                for n in ('PPO', 'TRPO') for r in (False, True)
                for i in (3,)] +
         [dict(name=n, rec=True, T=4, interval=2, norm=False, seqlen=1)
          for n in ('PPO', 'TRPO')] +
         [dict(name=n, rec=r, T=4, interval=2, norm=True)
          for n in ('PPO', 'TRPO') for r in (False, True)],
         thorough=[dict(name=n, rec=r, T=6, interval=i, norm=False)
                   for n in ('PPO', 'TRPO') for r in (False, True)
                   for i in (1, 2, 4)])
def single(x, name, rec, T, interval, norm, seqlen=None):
    gamma, lam = x.real('gamma', 0, 1), x.real('lambda', 0, 1)
    rows = 3 * (2 * T + 2)
    rig = Rig(x, name, rec, interval, interval, gamma, lam, norm, rows,
              seqlen)
    ag, noise = rig.ag, rig.noise
    s, h, cur, pend, a = 0, (), [], [], None
    with with_cg(rig):
        for t in range(T):
            r = x.real('r%d' % t, -2, 2)
            if h:
                cur.append((h, a[0], r, h + (s,), True))
            off0 = rig.norm.off if norm else 0
            due = sum(map(len, pend + [cur])) >= interval
            if t == 2:
                # evaluation in between leaves no trace
                ag.act(99)
                ag.stop_episode()
            a = ag.act_and_train(s, r)
            if due:
                expect_update(x, rig, pend + [cur] if cur else pend, off0)
                pend, cur = [], []
            x.check(len(rig.o.log) == rig.ups, 'updates only when due')
            h = h + (s,)
            k = tuple(v + (rig.norm.off if norm else 0)
                      for v in (h if rec else h[-1:]))
            x.eq(a[0], rig.p0[rig.pi.row(k), 0] +
                 noise.of(k)[-1][0, 0], 'sampled from the policy')
            s += 1
            off0 = rig.norm.off if norm else 0
            how = x.choice('out%d' % t, ['go', 'done', 'cut'])
            if how == 'go':
                continue
            r = x.real('f%d' % t, -2, 2)
            cur.append((h, a[0], r, h + (s,), how == 'cut'))
            ag.stop_episode_and_train(s, r, done=how == 'done')
            pend.append(cur)
            s, h, cur = s + 1, (), []
            if sum(map(len, pend)) >= interval:
                expect_update(x, rig, pend, off0)
                pend = []
            x.check(len(rig.o.log) == rig.ups, 'updates only when due')


@harness(quick=[dict(name=n, rec=r, T=4, norm=False)
                for n in ('PPO', 'TRPO') for r in (False, True)] +
         [dict(name=n, rec=False, T=3, norm=True) for n in ('PPO', 'TRPO')],
         thorough=[dict(name=n, rec=r, T=5, norm=False, full=True)
                   for n in ('PPO', 'TRPO') for r in (False, True)])
def batch(x, name, rec, T, norm, full=False):
    N, interval = 2, 4
    gamma, lam = x.real('gamma', 0, 1), x.real('lambda', 0, 1)
    rows = 3 * (4 * T + 2)
    rig = Rig(x, name, rec, interval, interval, gamma, lam, norm, rows)
    ag, noise = rig.ag, rig.noise
    fresh = iter(range(rows))
    obs = [next(fresh) for _ in range(N)]
    hs, cur, pend = [()] * N, [[] for _ in range(N)], []
    with with_cg(rig):
        for t in range(T):
            if t == 1 and not norm:
                # evaluation has recurrent states of its own
                ag.batch_act([90, 91])
                ag.batch_observe([92, 93], [0, 0], [True, False],
                                 [False, False])
                ag.batch_act([94, 95])
                for a, k in zip((94, 95), ((94,), (91, 95))):
                    k = k if rec else k[-1:]
                    x.check(any(k in (tag or ()) for tag, _ in noise.log),
                            'evaluation histories')
                noise.log[:] = []
            off0 = rig.norm.off if norm else 0
            acts = ag.batch_act_and_train(list(obs))
            hs = [h + (s,) for h, s in zip(hs, obs)]
            ks = tuple(tuple(v + off0 for v in (h if rec else h[-1:]))
                       for h in hs)
            nz = noise.of(*ks)
            x.check(len(nz) >= 1, 'sampled from the policy at the histories')
            for i in range(N):
                x.eq(acts[i][0], rig.p0[rig.pi.row(ks[i]), 0] +
                     nz[-1][i, 0], 'sampled actions')
            nxt = [next(fresh) for _ in range(N)]
            rs = [x.real('r%d_%d' % (t, i), -2, 2) for i in range(N)]
            how = [x.choice('out%d' % t, ['go', 'done', 'reset'])
                   if t != 2 or full else 'go',
                   x.choice('out%d_1' % t, ['go', 'done', 'reset'])
                   if t == 1 or full else 'go']
            ag.batch_observe_and_train(
                nxt, rs, [e == 'done' for e in how],
                [e == 'reset' for e in how])
            for i in range(N):
                cur[i].append((hs[i], acts[i][0], rs[i], hs[i] + (nxt[i],),
                               how[i] != 'done'))
                obs[i] = nxt[i]
                if how[i] != 'go':
                    pend.append(cur[i])
                    cur[i], hs[i], obs[i] = [], (), next(fresh)
            if sum(map(len, pend + cur)) >= interval:
                expect_update(x, rig, pend + [c for c in cur if c], off0)
                pend, cur = [], [[] for _ in range(N)]
            x.check(len(rig.o.log) == rig.ups, 'updates only when due')
    x.check(rig.ups >= 1, 'updated')
