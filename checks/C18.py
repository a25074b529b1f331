from symx.api import *
import gym
import gym.spaces
from chainerrl import wrappers as W

BOUNDS = ('<= 4 operations (step or reset) after the first reset, limits '
          '1..4, action spaces of 1..2 dimensions / 2..4 actions with '
          'arbitrary bounds, arbitrary actions, observations, rewards, flags, '
          'scales and replacement fractions')
ASSUMPTIONS = ['numbers are reals']


class WEnv(gym.Env):
    def __init__(self, x, needs=True, obs=(2,), space=None):
        self.x, self.n, self.needs, self.obs_shape = x, 0, needs, obs
        self.log = []
        self.action_space = space or gym.spaces.Discrete(3)
        self.observation_space = gym.spaces.Box(-9, 9, obs)
        self.dtype = 'f8'

    def ob(self):
        self.n += 1
        return self.x.reals('o%d' % self.n, self.obs_shape, -9, 9,
                            dtype=self.dtype)

    def reset(self, **k):
        o = self.ob()
        self.log.append(('reset', o, k))
        return o

    def step(self, a):
        o = self.ob()
        r = self.x.real('r%d' % self.n, -9, 9)
        d = self.x.bool('d%d' % self.n)
        info = {'n': self.n}
        self.nr = None
        if self.needs:
            c = self.x.choice('nr%d' % self.n, (None, False, True))
            if c is not None:
                info['needs_reset'] = c
            self.nr = bool(c)
        self.log.append(('step', o, a, r, d, info))
        return o, r, d, info

    def render(self, **k):
        self.log.append(('render', k))
        return 'frame'


def drive(x, w, env, steps, act, on_reset, on_step):
    on_reset(w.reset())
    for t in range(steps):
        if x.flag('reset%d' % t):
            on_reset(w.reset())
        else:
            a = act(t)
            on_step(a, w.step(a))


@harness(quick=[dict(steps=4)], thorough=[dict(steps=6)])
def time_limit(x, steps):
    env = WEnv(x)
    lim = x.int('limit', 1, steps)
    w = W.ContinuingTimeLimit(env, lim)
    x.raises(AssertionError, lambda: w.step(0), 'step before reset')
    n = [0]

    def on_reset(o):
        n[0] = 0
        x.check(env.log[-1][0] == 'reset' and o is env.log[-1][1],
                'reset goes to the environment')

    def on_step(a, res):
        n[0] += 1
        _, o, a0, r, d, info = env.log[-1]
        x.check(a0 is a and res[0] is o, 'action and observation')
        x.eq(res[1], r, 'reward')
        x.check(res[2] == d, 'the limit is not a terminal state')
        x.check(res[3].get('n') == info['n'], 'info')
        x.check(lor(env.nr, lim <= n[0]) == bool(
            res[3].get('needs_reset', False)),
            'reset requested exactly from the limit on')
    env.log[:] = []
    env.n = 0
    drive(x, w, env, steps, lambda t: 't%d' % t, on_reset, on_step)


@harness(quick=[dict(kind=k) for k in ('f4', 'i4', 'float32')])
def cast(x, kind):
    env = WEnv(x, needs=False)
    w = W.CastObservationToFloat32(env) if kind == 'float32' else \
        W.CastObservation(env, np.dtype(kind))
    dt = np.dtype('f4' if kind == 'float32' else kind)

    def same(o):
        ref = env.log[-1][1]
        x.check(o.dtype == dt, 'dtype')
        for i in range(2):
            v = ref[i]
            if dt.kind == 'i':
                v = ite(v >= 0, A.sint(v), -A.sint(-v)) if is_sym(v) \
                    else int(v)
            x.eq(o[i], v, 'observation value')
        x.check(w.original_observation is ref, 'original observation kept')

    def on_step(a, res):
        _, o, a0, r, d, info = env.log[-1]
        same(res[0])
        x.check(a0 is a and res[3] is info, 'action and info')
        x.eq(res[1], r, 'reward')
        x.check(res[2] == d, 'terminal flag')
    drive(x, w, env, 2, lambda t: 't%d' % t, same, on_step)


@harness(quick=[dict(n=1), dict(n=2)])
def normalize_action(x, n):
    env = WEnv(x, needs=False,
               space=gym.spaces.Box(-np.ones(n, 'f'), np.ones(n, 'f')))
    w = W.NormalizeActionSpace(env)
    sp = w.action_space
    x.check(isinstance(sp, gym.spaces.Box) and sp.shape == (n,) and
            (np.asarray(sp.low) == -1).all() and
            (np.asarray(sp.high) == 1).all(), 'normalized space')
    lo = x.reals('lo', n, -9, 9)
    hi = x.reals('hi', n, -9, 9)
    for i in range(n):
        x.assume(lo[i] <= hi[i])
    env.action_space.low, env.action_space.high = lo, hi
    w.reset()
    a = x.reals('a', n, -1, 1)
    keep = a.copy()
    res = w.step(a)
    _, o, got, r, d, info = env.log[-1]
    x.eq(a, keep, 'the caller\'s action is not modified')
    for i in range(n):
        x.eq(got[i], lo[i] + (keep[i] + 1) / 2 * (hi[i] - lo[i]),
             'affine map of [-1, 1] onto the original bounds')
        x.le(lo[i], got[i], 'not below the original bound')
        x.le(got[i], hi[i], 'not above the original bound')
    x.check(res[0] is o and res[3] is info, 'observation and info')
    x.eq(res[1], r, 'reward')
    x.check(res[2] == d, 'terminal flag')


@harness(quick=[dict(n=2), dict(n=4)])
def randomize_action(x, n):
    env = WEnv(x, needs=False, space=gym.spaces.Discrete(n))
    f = x.real('fraction', 0, 1)
    w = W.RandomizeAction(env, f)
    w.reset()
    for t in range(2):
        a = x.int('a%d' % t, 0, n - 1)
        k = len(x.draws)
        res = w.step(a)
        new = x.draws[k:]
        us = [d for d in new if d[:2] == (0, 1) and n != 2 or
              (d[:2] == (0, 1) and not isinstance(d[2], (int, E.SymInt)))]
        idx = [d for d in new if isinstance(d[2], (int, E.SymInt)) or
               isinstance(d[2], np.integer)]
        _, o, got, r, d, info = env.log[-1]
        x.check(land(0 <= got, got < n), 'a valid action')
        x.check(lor(got == a, f > 0), 'fraction 0 never replaces')
        if us:
            x.check(implies(us[0][2] >= f, got == a),
                    'replaced only with the given probability')
            for i in idx:
                x.check(implies(us[0][2] < f, got == i[2]),
                        'replaced by a uniformly random action')
                x.check(i[:2] == (0, n - 1), 'uniform over all actions')
            x.check(lor(us[0][2] >= f, bool(idx)),
                    'replaced with the given probability')
        x.check(res[0] is o and res[3] is info, 'observation and info')
        x.eq(res[1], r, 'reward')
        x.check(res[2] == d, 'terminal flag')
    x.raises(AssertionError, lambda: W.RandomizeAction(env, -0.1),
             'negative fraction')
    x.raises(AssertionError, lambda: W.RandomizeAction(env, 1.1),
             'fraction above 1')


@harness(quick=[dict()])
def scale_reward(x):
    env = WEnv(x, needs=False)
    s = x.real('scale', -4, 4)
    w = W.ScaleReward(env, s)

    def on_reset(o):
        x.check(o is env.log[-1][1], 'observation')

    def on_step(a, res):
        _, o, a0, r, d, info = env.log[-1]
        x.check(res[0] is o and a0 is a and res[3] is info, 'passed through')
        x.eq(res[1], s * r, 'scaled reward')
        x.eq(w.original_reward, r, 'original reward kept')
        x.check(res[2] == d, 'terminal flag')
    drive(x, w, env, 3, lambda t: 't%d' % t, on_reset, on_step)


@harness(quick=[dict()])
def render(x):
    env = WEnv(x, needs=False)
    w = W.Render(env, mode='human', k=1)
    n = [0]

    def rendered(kind):
        new = env.log[n[0]:]
        n[0] = len(env.log)
        x.check(len(new) == 2 and new[0][0] == kind and
                new[1] == ('render', dict(mode='human', k=1)),
                'one %s, then rendered once' % kind)
        return new[0]

    def on_reset(o):
        x.check(o is rendered('reset')[1], 'observation')

    def on_step(a, res):
        _, o, a0, r, d, info = rendered('step')
        x.check(res[0] is o and a0 is a and res[3] is info, 'passed through')
        x.eq(res[1], r, 'reward')
        x.check(res[2] == d, 'terminal flag')
    drive(x, w, env, 3, lambda t: 't%d' % t, on_reset, on_step)
