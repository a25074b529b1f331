import tempfile
import shutil

from symx.api import *
import gym
import gym.spaces
from gym.wrappers.monitoring import stats_recorder as sr
from gym.wrappers import monitor as gm
from chainerrl.wrappers import Monitor

BOUNDS = ('<= 6 operations (step, reset, reset on request), then close; '
          'arbitrary rewards and terminal flags; all monitor modes')
ASSUMPTIONS = ['files are written by gym; their content is captured before '
               'it is serialized', 'video recording is disabled']


class MEnv(gym.Env):
    metadata = {'render.modes': []}

    def __init__(self, x):
        self.x, self.n = x, 0
        self.action_space = gym.spaces.Discrete(2)
        self.observation_space = gym.spaces.Box(0, 1, (1,))
        self.spec = None

    def reset(self, **k):
        self.n += 1
        return 'o%d' % self.n

    def step(self, a):
        self.n += 1
        self.last = ('o%d' % self.n, self.x.real('r%d' % self.n, -4, 4),
                     self.x.flag('d%d' % self.n), {'a': a})
        return self.last


class Json(object):
    def __init__(self):
        self.out = []

    def dump(self, d, f, **k):
        self.out.append(d)


@harness(quick=[dict(steps=6, mode=None), dict(steps=4, mode='evaluation'),
                dict(steps=2, mode='training')],
         thorough=[dict(steps=8, mode=None)])
def stats(x, steps, mode):
    j = Json()
    d = tempfile.mkdtemp()
    saved = (sr.json, gm.json)
    sr.json = gm.json = j
    if x.symbolic:
        sr.float = A.sfloat
    try:
        env = MEnv(x)
        m = Monitor(env, d, video_callable=False, mode=mode, uid='u')
        x.raises(gym.error.ResetNeeded, lambda: m.step(0),
                 'step before reset')
        kinds, lens, rets = [], [], []
        cur, done = None, True
        for t in range(steps):
            if t == 0 or x.flag('reset%d' % t):
                # also in the middle of an episode: needs_reset
                if cur and cur[0] and not done:
                    lens.append(cur[0])
                    rets.append(cur[1])
                o = m.reset()
                x.check(o == 'o%d' % env.n, 'reset observation')
                cur, done = [0, 0], False
                kinds.append('e' if mode == 'evaluation' else 't')
                continue
            if done:
                x.raises(gym.error.ResetNeeded, lambda: m.step(0),
                         'step after the end')
                continue
            res = m.step(t)
            x.check(res[0] == env.last[0] and res[3] is env.last[3] and
                    res[3]['a'] == t, 'observation, info and action')
            x.eq(res[1], env.last[1], 'reward')
            x.check(res[2] == env.last[2], 'terminal flag')
            cur[0] += 1
            cur[1] = cur[1] + env.last[1]
            done = env.last[2]
            if done:
                lens.append(cur[0])
                rets.append(cur[1])
        if cur and cur[0] and not done:
            lens.append(cur[0])
            rets.append(cur[1])
        m.close()
        out = [o for o in j.out if 'episode_lengths' in o][-1]
        x.check(list(out['episode_lengths']) == lens,
                'every episode is recorded once with its length')
        x.check(len(out['episode_rewards']) == len(rets),
                'one return per episode')
        x.eq(out['episode_rewards'], rets, 'returns of the episodes')
        x.check(list(out['episode_types']) == kinds, 'episode types')
        x.check(len(out['timestamps']) == len(lens), 'one time per episode')
    finally:
        sr.json, gm.json = saved
        sr.__dict__.pop('float', None)
        shutil.rmtree(d)
