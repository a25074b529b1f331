from symx.api import *
from chainerrl.misc import env_modifiers as M
from chainerrl.misc.reward_filter import (AverageRewardFilter,
                                          NormalizedRewardFilter)

BOUNDS = ('<= 4 operations after the first reset, limits and repetitions '
          '1..3, reward filters over 3 rewards; arbitrary numbers')
ASSUMPTIONS = ['numbers are reals']


class MEnv(object):
    def __init__(self, x):
        self.x, self.n, self.log = x, 0, []

    def reset(self):
        self.n += 1
        self.log.append(('reset', 'o%d' % self.n))
        return 'o%d' % self.n

    def step(self, a):
        self.n += 1
        e = ('step', 'o%d' % self.n, a, self.x.real('r%d' % self.n, -9, 9),
             self.x.bool('d%d' % self.n), {'n': self.n})
        self.log.append(e)
        return e[1], e[3], e[4], e[5]

    def render(self, *a, **k):
        self.log.append(('render', a, k))

    def close(self):
        self.log.append(('close',))


def passed(x, e, res, what=('r', 'd')):
    x.check(res[0] == e[1] and res[3] is e[5], 'observation and info')
    if 'r' in what:
        x.eq(res[1], e[3], 'reward')
    if 'd' in what:
        x.check(res[2] == e[4], 'terminal flag')


@harness(quick=[dict(steps=5)], thorough=[dict(steps=7)])
def timestep_limited(x, steps):
    env = MEnv(x)
    lim = x.int('limit', 1, 3)
    M.make_timestep_limited(env, lim)
    env.reset()
    n = 0
    for t in range(steps):
        if x.flag('reset%d' % t):
            x.check(env.reset() == env.log[-1][1], 'reset observation')
            n = 0
            continue
        res = env.step(t)
        n += 1
        e = env.log[-1]
        x.check(e[2] == t, 'action')
        passed(x, e, res, 'r')
        x.check(res[2] == lor(e[4], lim <= n), 'done from the limit on')


@harness(quick=[dict(n=1), dict(n=3)])
def action_repeated(x, n):
    env = MEnv(x)
    M.make_action_repeated(env, n)
    for t in range(2):
        del env.log[:]
        res = env.step(t)
        log = env.log
        x.check(all(e[2] == t for e in log), 'the action is repeated')
        for e in log[:-1]:
            x.check(lnot(e[4]), 'stopped when the episode ends')
        x.check(lor(len(log) == n, land(len(log) < n, log[-1][4])),
                'repeated n times')
        x.eq(res[1], sum(e[3] for e in log), 'accumulated reward')
        passed(x, log[-1], res, 'd')


@harness(quick=[dict()])
def filtered(x):
    env = MEnv(x)
    k = x.real('k', -4, 4)
    M.make_action_filtered(env, lambda a: ('f', a))
    M.make_reward_filtered(env, lambda r: r * k + 1)
    res = env.step(1)
    e = env.log[-1]
    x.check(e[2] == ('f', 1), 'filtered action')
    x.eq(res[1], e[3] * k + 1, 'filtered reward')
    passed(x, e, res, 'd')
    env = MEnv(x)
    lo, hi = x.real('lo', -5, 5), x.real('hi', -5, 5)
    x.assume(lo <= hi)
    M.make_reward_clipped(env, lo, hi)
    res = env.step(2)
    e = env.log[-1]
    x.eq(res[1], smin(hi, smax(lo, e[3])), 'clipped reward')
    passed(x, e, res, 'd')


@harness(quick=[dict()])
def rendered(x):
    env = MEnv(x)
    M.make_rendered(env, 'a', k=2)
    for t in range(2):
        del env.log[:]
        res = env.step(t)
        x.check(len(env.log) == 2 and env.log[1] ==
                ('render', ('a',), {'k': 2}), 'rendered once after the step')
        passed(x, env.log[0], res)
    del env.log[:]
    env.close()
    x.check(env.log == [('render', ('a',), {'k': 2, 'close': True}),
                        ('close',)], 'window and environment closed')


@harness(quick=[dict(kind='average', n=3), dict(kind='normalized', n=2)],
         thorough=[dict(kind='normalized', n=3)])
def reward_filters(x, kind, n):
    tau = x.real('tau', 0, 1)
    avg, sq = 0, 0
    if kind == 'average':
        f = AverageRewardFilter(tau)
    else:
        scale = x.real('scale', 0, 4)
        eps = x.real('eps', 0.0625, 2)
        f = NormalizedRewardFilter(tau, scale, eps)
    for t in range(n):
        r = x.real('r%d' % t, -4, 4)
        avg = (1 - tau) * avg + tau * r
        sq = (1 - tau) * sq + tau * r * r
        out = f(r)
        x.eq(f.average_reward, avg, 'moving average')
        if kind == 'average':
            x.eq(out, r - avg, 'reward minus its moving average')
        else:
            var = smax(sq - avg * avg, eps)
            sd = E.sqrt(var) if is_sym(var) else var ** 0.5
            x.eq(out * sd, scale * (r - avg),
                 'normalized by the moving deviation, at least sqrt(eps)')
