"""REINFORCE: the score-function gradient of whole episodes."""
from fractions import Fraction

from chainerrl import agents as G

from symx.api import *
from checks._agents import *

BOUNDS = ('up to three episodes of 1..3 steps, each ended by a terminal state '
          'or thrown away, batches of 1..3 episodes, backward per batch or '
          'per episode, arbitrary rewards, sampled actions and policy '
          'parameters, entropy coefficient in [0, 1]')
ASSUMPTIONS = ['reals stand for floats',
               'policy: sample = mean + noise, log p and entropy linear in '
               'their parameters (arbitrary parameters per state)']


@harness(quick=[dict(batch=b, sep=s, lens=l) for s in (False, True)
                for b, l in ((1, (2, 3)), (2, (1, 2, 2, 1)),
                             (3, (1, 2, 1, 1)))],
         thorough=[dict(batch=b, sep=s, lens=l) for s in (False, True)
                   for b, l in ((1, (4, 1, 3)), (2, (3, 3, 2, 1, 1)),
                                (3, (2, 2, 3, 1, 1)))])
def updates(x, batch, sep, lens):
    noise = Noise(x)
    n = sum(lens) + len(lens)
    m = x.build(lambda: TableDist(n, noise))
    o = GradRec(m)
    beta = x.real('beta', 0, 1)
    ag = G.REINFORCE(m, o, beta=beta, phi=phi, batchsize=batch,
                     backward_separately=sep, logger=LOG,
                     average_entropy_decay=0.5)
    x.link_params(m, -2, 2)
    s, pend, avg, ups = 0, [], 0, 0
    for e, L in enumerate(lens):
        ep, r = [], x.real('pre%d' % e, -1, 1)
        for i in range(L):
            a = ag.act_and_train(s, r)
            avg = avg * 0.5 + sum(m.c.array[s]) * 2 * 0.5
            nz = noise.of(s)
            x.check(len(nz) == 1, 'one sample per step')
            x.eq(a[0], m.m.array[s, 0] + nz[0][0, 0], 'sampled action')
            if ep:
                ep[-1][2] = r
            ep.append([s, a[0], None])
            s += 1
            r = x.real('r%d_%d' % (e, i), -2, 2)
        ep[-1][2] = r
        done = x.flag('done%d' % e)
        x.check(len(o.log) == ups, 'no update inside an episode')
        with np.testing.suppress_warnings() as sup:
            sup.filter(UserWarning)
            ag.stop_episode_and_train(s, r, done=done)
        s += 1
        if done:
            pend.append(ep)
        if len(pend) < batch:
            x.check(len(o.log) == ups, 'updates need a full batch')
            continue
        ups += 1
        x.check(len(o.log) == ups, 'one update per batch of episodes')
        g = o.log[-1][1]
        want = {}
        for ep in pend:
            R = 0
            for (st, a, rw) in reversed(ep):
                R = R + rw
                want[st] = (R, a)
        B = Fraction(batch)
        for st in range(n):
            R, a = want.get(st, (None, 0))
            on = R is not None
            x.eq(g['/c'][st, 0], -(R + 2 * beta) / B if on else 0,
                 'policy gradient')
            x.eq(g['/c'][st, 1], -(R * a + 2 * beta) / B if on else 0,
                 'policy gradient')
        x.check(g['/m'] is None, 'no gradient through the sample')
        pend = []
    x.eq(dict(ag.get_statistics())['average_entropy'], avg,
         'average entropy')
    x.check(ag.t == sum(lens), 'steps counted')


@harness(quick=[dict(det=d) for d in (False, True)])
def acting(x, det):
    noise = Noise(x)
    m = x.build(lambda: TableDist(3, noise))
    ag = G.REINFORCE(m, GradRec(m), phi=phi, act_deterministically=det,
                     logger=LOG)
    x.link_params(m, -1, 1)
    for s in (2, 1):
        a = ag.act(s)
        x.check(len(noise.log) == (0 if det else len(noise.of(1)) +
                                   len(noise.of(2))), 'sampling')
        x.eq(a, m.m.array[s] + (0 if det else noise.of(s)[0][0]), 'action')
    # acting leaves no trace in the training data
    ag.stop_episode()
    ag.act_and_train(0, 0)
    ag.act(1)
    r = x.real('r', -1, 1)
    ag.stop_episode_and_train(1, r, done=True)
    x.check(len(ag.optimizer.log) == 1, 'one update')
    g = ag.optimizer.log[0][1]
    x.eq(g['/c'][0, 0], -r, 'gradient')
    x.eq(g['/c'][1, 0], 0, 'acting is not trained on')
