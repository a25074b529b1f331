from symx.api import *
from checks._num import softmax
from chainerrl import explorers as X
from chainerrl.action_value import DiscreteActionValue
from chainerrl.experiments.hooks import LinearInterpolationHook

BOUNDS = ('actions of 1..2 dimensions, 2..3 discrete actions, <= 3 '
          'selections, arbitrary parameters, step numbers, action values and '
          'random draws')
ASSUMPTIONS = ['a normal draw is mean + deviation * z with an arbitrary z in '
               '[-4, 4]', 'numbers are reals']


class Funcs(object):
    def __init__(self):
        self.log = []

    def random(self):
        self.log.append('random')
        return ('random', len(self.log))

    def greedy(self):
        self.log.append('greedy')
        return ('greedy', len(self.log))


def one(x, f, ex, t, eps):
    """One epsilon-greedy selection with the given exact epsilon."""
    k = len(x.draws)
    del f.log[:]
    a = ex.select_action(t, f.greedy)
    x.check(len(f.log) == 1 and a == (f.log[0], 1), 'one action is computed')
    new = x.draws[k:]
    x.check(implies(eps <= 0, f.log[0] == 'greedy'), 'epsilon 0 is greedy')
    x.check(implies(eps >= 1, f.log[0] == 'random'), 'epsilon 1 is random')
    if new:
        x.check((new[0][2] < eps) == (f.log[0] == 'random'),
                'random with probability epsilon')
    return a


@harness(quick=[dict()])
def constant_epsilon(x):
    f = Funcs()
    eps = x.real('eps', 0, 1)
    ex = X.ConstantEpsilonGreedy(eps, f.random)
    for t in range(2):
        one(x, f, ex, x.int('t%d' % t, 0, 1000), eps)
    for bad in (-0.1, 1.1):
        x.raises(AssertionError,
                 lambda: X.ConstantEpsilonGreedy(bad, f.random), 'bad epsilon')


@harness(quick=[dict()])
def decayed_epsilon(x):
    f = Funcs()
    s, e = x.real('start', 0, 1), x.real('end', 0, 1)
    n = x.int('decay_steps', 0, 1000)
    ex = X.LinearDecayEpsilonGreedy(s, e, n, f.random)
    ts = [x.int('t%d' % i, 0, 3000) for i in range(2)]
    x.assume(ts[0] <= ts[1])
    vals = []
    for t in ts:
        v = ex.compute_epsilon(t)
        if t >= n:
            x.eq(v, e, 'final value after decay_steps')
        else:
            x.eq((v - s) * n, (e - s) * t, 'linear interpolation')
        x.check(land(v >= smin(s, e), v <= smax(s, e)), 'between the ends')
        one(x, f, ex, t, v)
        x.eq(ex.epsilon, v, 'current epsilon')
        vals.append(v)
    x.le(implies_lt(s, e, vals[0] - vals[1], 0), 0, 'monotone')
    x.le(implies_lt(e, s, vals[1] - vals[0], 0), 0, 'monotone')


def implies_lt(a, b, v, other):
    return ite(a <= b, v, other)


@harness(quick=[dict(n=2), dict(n=3)])
def boltzmann(x, n):
    T = x.real('T', 0.25, 4)
    q = x.reals('q', (1, n), -3, 3)
    ex = X.Boltzmann(T)
    a = ex.select_action(0, lambda: x.check(False, 'greedy not used'),
                         DiscreteActionValue(chainer.Variable(q)))
    x.check(land(0 <= a, a < n), 'valid action')
    x.check(len(x.choice_p) == 1, 'one random choice')
    p = x.choice_p[0]
    softmax(x, p, [q[0, i] / T for i in range(n)], 'softmax of the action '
            'values over T')


@harness(quick=[dict(n=1), dict(n=2)])
def gaussian(x, n):
    kind = x.choice('clip', ('none', 'low', 'high', 'both'))
    lo = x.real('lo', -2, 0) if kind in ('low', 'both') else None
    hi = x.real('hi', 0, 2) if kind in ('high', 'both') else None
    scale = x.reals('scale', n, 0, 2) if x.flag('vec') else \
        x.real('scale', 0, 2)
    ex = X.AdditiveGaussian(scale, low=lo, high=hi)
    a = x.reals('a', n, -2, 2)
    keep = a.copy()
    k = len(x.draws)
    out = ex.select_action(0, lambda: a)
    z = [d[2] for d in x.draws[k:]]
    x.check(len(z) == n, 'independent noise for every dimension')
    x.eq(a, keep, 'the greedy action is not modified')
    for i in range(n):
        s = scale[i] if np.ndim(scale) else scale
        v = keep[i] + s * z[i]
        if lo is not None:
            v = smax(lo, v)
        if hi is not None:
            v = smin(hi, v)
        x.eq(out[i], v, 'action plus scaled noise, clipped')


@harness(quick=[dict(n=1, start=True), dict(n=1, start=False),
                dict(n=2, start=True)])
def ou(x, n, start):
    mu, th, sg = x.real('mu', -1, 1), x.real('theta', 0.125, 1), \
        x.real('sigma', 0, 2)
    ex = X.AdditiveOU(mu, th, sg, start_with_mu=start)
    state = None
    outs = []
    for t in range(3):
        a = x.reals('a%d' % t, n, -2, 2)
        keep = a.copy()
        k = len(x.draws)
        out = ex.select_action(t, lambda: a)
        z = [d[2] for d in x.draws[k:]]
        x.eq(a, keep, 'the greedy action is not modified')
        if state is None:
            if start:
                state = [mu] * n
            else:
                x.check(len(z) == n, 'random start')
                v = 2 * th - th * th
                sd = E.sqrt(v) if is_sym(v) else v ** 0.5
                state = [None] * n
                for i in range(n):
                    x.eq((out[i] - keep[i] - mu) * sd, sg * z[i],
                         'start in the stationary distribution')
                    state[i] = out[i] - keep[i]
        else:
            x.check(len(z) == n, 'noise for every dimension')
            state = [s + th * (mu - s) + sg * z[i]
                     for i, s in enumerate(state)]
        for i in range(n):
            x.eq(out[i], keep[i] + state[i], 'action plus process state')
        outs.append((out, out.copy()))
    for o, ref in outs:
        x.eq(o, ref, 'earlier actions never change')


@harness(quick=[dict()])
def greedy(x):
    f = Funcs()
    a = X.Greedy().select_action(0, f.greedy)
    x.check(a == ('greedy', 1) and f.log == ['greedy'], 'greedy action')


@harness(quick=[dict(total=2), dict(total=5), dict(total=1000)])
def interpolation_hook(x, total):
    s, e = x.real('start', -4, 4), x.real('stop', -4, 4)
    got = []
    hook = LinearInterpolationHook(total, s, e,
                                   lambda env, ag, v: got.append((env, ag, v)))
    t = x.int('t', 1, 2 * total)
    hook('env', 'agent', t)
    x.check(len(got) == 1 and got[0][:2] == ('env', 'agent'), 'setter called')
    v = got[0][2]
    if t >= total:
        x.eq(v, e, 'final value')
    else:
        x.eq((v - s) * (total - 1), (e - s) * (t - 1),
             'linear interpolation from step 1 to total_steps')
