from symx.api import *
import gym
import gym.spaces
from chainerrl.wrappers import atari_wrappers as W

BOUNDS = ('<= 4 wrapper operations per history, <= 3 no-ops, skips of 1..4, '
          'arbitrary rewards, lives 0..3, terminal flags and reset requests; '
          'frames of 1x2 pixels')
ASSUMPTIONS = ['the image resizing of WarpFrame (OpenCV) is not encoded: in '
               'the composition harness it is replaced by a stub',
               'the observation of a frame skip cut short by the end of the '
               'episode is not specified (the source says so)']


class Ale(object):
    def __init__(self, env):
        self.env = env

    def lives(self):
        return self.env.lives


class AEnv(gym.Env):
    """Records operations; complains about steps after the end."""

    def __init__(self, x, end='done', max_lives=0, pixels=False,
                 rewards=True):
        self.x, self.n, self.end, self.max_lives = x, 0, end, max_lives
        self.pixels, self.rewards = pixels, rewards
        self.action_space = gym.spaces.Discrete(4)
        self.observation_space = gym.spaces.Box(0, 255, (1, 2),
                                                dtype=np.uint8)
        self.np_random = np.random.RandomState(0)
        self.ale = Ale(self)
        self.lives = 0
        self.over = True
        self.log = []

    def get_action_meanings(self):
        return ['NOOP', 'FIRE', 'UP', 'DOWN']

    def _new(self):
        self.n += 1
        if self.max_lives:
            self.lives = self.x.int('lives%d' % self.n, 0, self.max_lives)
        self.lives_log = self.lives
        if self.pixels:
            return self.x.ints('p%d' % self.n, (1, 2), 0, 255, dtype='u1')
        return 'o%d' % self.n

    def reset(self, **k):
        self.over = False
        o = self._new()
        self.log.append(dict(op='reset', o=o, lives=self.lives, k=k))
        return o

    def step(self, a):
        self.x.check(not self.over, 'no step after the end of the game')
        o = self._new()
        r = self.x.real('r%d' % self.n, -4, 4) if self.rewards else 1.0
        info = {'n': self.n}
        if self.end == 'never':
            d = self.over = False
        elif self.end == 'done':
            d = self.x.bool('d%d' % self.n)
            self.over = d
        else:
            e = self.x.choice('e%d' % self.n, (0, 1, 2, 3))
            d = bool(e & 1)
            if e & 2:
                info['needs_reset'] = True
            self.over = e != 0
        self.log.append(dict(op='step', a=a, o=o, r=r, d=d, info=info,
                             over=self.over, lives=self.lives))
        return o, r, d, info


def passed(x, e, res, r=True):
    x.check(res[0] is e['o'] and res[3] is e['info'], 'observation and info')
    if r:
        x.eq(res[1], e['r'], 'reward')


@harness(quick=[dict(m=1), dict(m=2), dict(m=2, end='any'),
                dict(m=3, override=True)],
         thorough=[dict(m=4), dict(m=3, end='any')])
def noop_reset(x, m, end='done', override=False):
    env = AEnv(x, end=end)
    w = W.NoopResetEnv(env, noop_max=m)
    if override:
        w.override_num_noops = x.choice('k', range(1, m + 1))
    for ep in range(2):
        k = len(x.draws)
        del env.log[:]
        o = w.reset()
        steps = [e for e in env.log if e['op'] == 'step']
        x.check(env.log[0]['op'] == 'reset', 'the environment is reset first')
        if override:
            x.check(len(steps) == w.override_num_noops, 'number of no-ops')
        else:
            n = len(steps)
            x.check(1 <= n <= m, 'between 1 and noop_max no-ops')
            new = x.draws[k:]
            x.check(len(new) == 1 and tuple(new[0][:2]) == (1, m) or m == 1,
                    'number of no-ops uniform in 1..noop_max')
            if new:
                x.check(new[0][2] == n, 'the drawn number of no-ops')
        for e in steps:
            x.check(e['a'] == 0, 'only no-ops')
        for i, e in enumerate(env.log):
            if e['op'] == 'step':
                nxt = env.log[i + 1]['op'] if i + 1 < len(env.log) else None
                x.check(implies(e['over'], nxt == 'reset'),
                        'reset after the game ended')
                x.check(implies(nxt == 'reset', e['over']),
                        'no other reset')
        x.check(o is env.log[-1]['o'],
                'the observation of the current state is returned')
        x.check(lnot(env.over), 'the game is running after reset')
        if ep == 0:
            res = w.step('act')
            x.check(env.log[-1]['a'] == 'act', 'action')
            passed(x, env.log[-1], res)
            x.check(res[2] == env.log[-1]['d'], 'terminal flag')


@harness(quick=[dict(end='any')])
def fire_reset(x, end):
    env = AEnv(x, end=end)
    w = W.FireResetEnv(env)
    for ep in range(2):
        del env.log[:]
        o = w.reset(mode='m')
        ops = ['reset']
        pend = [e for e in env.log if e['op'] == 'step']
        x.check(len(pend) == 2, 'two steps')
        for a, e in zip((1, 2), pend):
            ops.append(a)
            if e['over']:
                ops.append('reset')
        x.check([e['a'] if e['op'] == 'step' else 'reset'
                 for e in env.log] == ops,
                'reset, fire, second action, with resets after game ends')
        x.check(all(e['k'] == {'mode': 'm'} for e in env.log
                    if e['op'] == 'reset'), 'reset arguments')
        x.check(o is env.log[-1]['o'],
                'the observation of the current state is returned')
        x.check(not env.over, 'the game is running after reset')
        if ep == 0:
            res = w.step('act')
            passed(x, env.log[-1], res)
            x.check(res[2] == env.log[-1]['d'], 'terminal flag')


@harness(quick=[dict(steps=3), dict(steps=2, end='any')],
         thorough=[dict(steps=4), dict(steps=3, end='any')])
def episodic_life(x, steps, end='done'):
    env = AEnv(x, end=end, max_lives=3, rewards=False)
    w = W.EpisodicLifeEnv(env)
    prev = None         # lives when the agent last looked

    def reset(real):
        del env.log[:]
        o = w.reset()
        log = env.log
        if real:
            x.check([e['op'] for e in log] == ['reset'],
                    'real reset when the game is over')
        else:
            x.check(log[0]['op'] == 'step' and log[0]['a'] == 0,
                    'a no-op instead of a reset while lives are left')
            if log[0]['over']:
                x.check([e['op'] for e in log] == ['step', 'reset'],
                        'real reset when the no-op ends the game')
            else:
                x.check(len(log) == 1, 'only a no-op')
        x.check(o is log[-1]['o'], 'the current observation is returned')
        return log[-1]['lives']
    prev = reset(True)
    for t in range(steps):
        del env.log[:]
        res = w.step('a%d' % t)
        e = env.log[-1]
        x.check(len(env.log) == 1 and e['a'] == 'a%d' % t, 'one step')
        passed(x, e, res)
        lost = land(e['lives'] < prev, e['lives'] > 0)
        x.check(res[2] == lor(e['d'], lost),
                'terminal on game end and on the loss of a life')
        prev = e['lives']
        if t + 1 < steps and (e['over'] or res[2] or x.flag('early%d' % t)):
            prev = reset(bool(e['over']))


@harness(quick=[dict(skip=1), dict(skip=2), dict(skip=4),
                dict(skip=3, end='any')])
def max_and_skip(x, skip, end='done'):
    env = AEnv(x, end=end, pixels=True)
    w = W.MaxAndSkipEnv(env, skip=skip)
    w.reset()
    seen = []
    for t in range(2):
        del env.log[:]
        res = w.step(t + 1)
        log = env.log
        x.check(all(e['a'] == t + 1 for e in log), 'the action is repeated')
        cut = bool(log[-1]['over'])
        x.check(len(log) == skip or (cut and len(log) < skip),
                'repeated until the skip or the end of the episode')
        x.eq(res[1], sum(e['r'] for e in log), 'rewards are summed')
        x.check(res[2] == log[-1]['d'], 'terminal flag of the last frame')
        x.check(res[3] is log[-1]['info'], 'info of the last frame')
        if len(log) == skip:
            fr = [e['o'] for e in log[-2:]]
            ref = fr[0].copy() if skip > 1 else fr[-1].copy()
            for i in range(2):
                ref[0, i] = smax(fr[0][0, i], fr[-1][0, i])
            x.eq(res[0], ref, 'pixelwise maximum of the last two frames')
            seen.append((res[0], ref))
        if cut:
            o = w.reset()
            x.check(o is env.log[-1]['o'], 'reset observation')
    for o, ref in seen:
        x.eq(o, ref, 'earlier observations never change')


@harness(quick=[dict()])
def pixel_and_reward(x):
    env = AEnv(x, pixels=True)
    w = W.ClipRewardEnv(env)
    w.reset()
    res = w.step(1)
    e = env.log[-1]
    x.eq(res[1], ite(e['r'] > 0, 1, ite(e['r'] < 0, -1, 0)),
         'reward clipped to its sign')
    x.check(res[0] is e['o'], 'observation')
    x.check(res[2] == e['d'], 'terminal flag')

    env = AEnv(x, pixels=True)
    w = W.ScaledFloatFrame(env)
    sp = w.observation_space
    x.check(sp.dtype == np.float32 and (np.asarray(sp.low) == 0).all() and
            (np.asarray(sp.high) == 1).all() and sp.shape == (1, 2),
            'scaled observation space')
    o = w.reset()
    ref = env.log[-1]['o']
    x.check(o.dtype == np.float32, 'dtype')
    for i in range(2):
        x.eq(o[0, i], ref[0, i] / 255, 'scaled pixel')
    x.check(ref.dtype == np.uint8, 'the frame itself is not modified')
    keep = ref.copy()
    res = w.step(1)
    x.eq(res[1], env.log[-1]['r'], 'reward')
    x.eq(ref, keep, 'the frame itself is not modified')

    env = AEnv(x, pixels=True)
    w = W.FlickerFrame(env)
    k = len(x.draws)
    o = w.reset()
    ref = env.log[-1]['o']
    us = x.draws[k:]
    x.check(len(us) == 1 and tuple(us[0][:2]) == (0, 1), 'one random draw')
    for i in range(2):
        x.eq(o[0, i], ite(us[0][2] < 0.5, 0, ref[0, i]),
             'blanked with probability one half, otherwise unchanged')
    x.check(o.dtype == np.uint8, 'dtype')


class CV(object):
    """Stand-in for OpenCV."""
    COLOR_RGB2GRAY = 'gray'
    INTER_AREA = 'area'

    def __init__(self, x):
        self.x = x

    def cvtColor(self, f, mode):
        self.x.check(mode == 'gray', 'grayscale')
        return ('gray', f)

    def resize(self, f, size, interpolation=None):
        self.x.check(f[0] == 'gray' and tuple(size) == (84, 84), 'size')
        out = np.zeros((84, 84), dtype=np.uint8)
        out[0, 0] = f[1]
        return out


class GEnv(AEnv):
    """Frames are the numbers of the observations."""

    def _new(self):
        self.n += 1
        self.lives = self.x.choice('lives%d' % self.n, (1, 2)) \
            if self.max_lives else 1
        return self.n


@harness(quick=[dict(order=o, scale=s) for o in ('chw', 'hwc')
                for s in (False, True)])
def compose(x, order, scale):
    """wrap_deepmind: the composition of the wrappers asked for."""
    old = W.cv2 if hasattr(W, 'cv2') else None
    avail = W._is_cv2_available
    W.cv2, W._is_cv2_available = CV(x), True
    try:
        env = GEnv(x, end='never', max_lives=2)
        life, clip, stack, fire = [
            not scale and x.flag(n) for n in ('life', 'clip', 'stack',
                                              'fire')]
        w = W.wrap_deepmind(env, episode_life=life, clip_rewards=clip,
                            frame_stack=stack, scale=scale, fire_reset=fire,
                            channel_order=order)
        o = w.reset()
        x.check(env.log[0]['op'] == 'reset' and
                [e['a'] for e in env.log if e['op'] == 'step' and
                 e['a'] != 0] == ([1, 2] if fire else []),
                'fire on reset if asked')
        lives = env.log[-1]['lives']
        want = [env.log[-1]['o']] * 4
        frames(x, o, want, order, stack, scale)
        for a in (3,):
            o, r, d, info = w.step(a)
            e = env.log[-1]
            want = want[1:] + [e['o']]
            frames(x, o, want, order, stack, scale)
            x.eq(r, ite(e['r'] > 0, 1, ite(e['r'] < 0, -1, 0)) if clip
                 else e['r'], 'reward clipped if asked')
            x.check(d == (life and e['lives'] < lives),
                    'life loss ends the episode if asked')
    finally:
        W.cv2, W._is_cv2_available = old, avail


def frames(x, o, want, order, stack, scale):
    o = np.array(o)
    k = 4 if stack else 1
    x.check(o.shape == ((k, 84, 84) if order == 'chw' else (84, 84, k)),
            'observation shape')
    vals = o[:, 0, 0] if order == 'chw' else o[0, 0, :]
    ref = want[-k:]
    for v, n in zip(vals, ref):
        x.eq(v, n / 255 if scale else n, 'frame')


@harness(quick=[dict(lim=2), dict(lim=0)], thorough=[dict(lim=3)])
def make_atari(x, lim):
    """Time limit in raw frames, no-ops included; no-op starts; skip 4."""
    env = AEnv(x, end=('done'), pixels=True)

    class Spec(object):
        id = 'GameNoFrameskip-v4'
    env.spec = Spec
    tl = gym.wrappers.TimeLimit(env, max_episode_steps=10 ** 6)
    old = gym.make
    gym.make = lambda i: tl
    # few no-ops, whatever number was drawn, keep the harness small
    x.max_draws = 1
    try:
        w = W.make_atari('GameNoFrameskip-v4', max_frames=lim)
        y = w
        while not isinstance(y, W.NoopResetEnv):
            y = y.env
        x.check(y.noop_max == 30, '30 no-ops')
        y.override_num_noops = 1
        w.reset()
        n0 = 1
        if bool(env.log[1]['over']) or lim == 1:
            n0 = 0
        x.check(len([e for e in env.log if e['op'] == 'step']) == 1,
                'no-op start')
        del env.log[:]
        o, r, d, info = w.step(2)
        k = len(env.log)
        over = bool(env.log[-1]['over'])
        left = lim - n0 if lim else 4
        x.check(k == min(4, left) or (over and k < min(4, left)),
                'four frames, fewer at the end of the episode or limit')
        x.check(bool(info.get('needs_reset', False)) ==
                bool(lim and n0 + k >= lim), 'time limit in raw frames')
        x.check(d == env.log[-1]['d'], 'the time limit is not terminal')
        x.eq(r, sum(e['r'] for e in env.log), 'sum of rewards')
    finally:
        gym.make = old
