from symx.api import *
import gym
import gym.spaces
from chainerrl.wrappers.atari_wrappers import FrameStack, LazyFrames
from chainerrl.wrappers import VectorFrameStack
from checks.C16 import TEnv
from chainerrl.envs import SerialVectorEnv

BOUNDS = ('stacks of 1..3 frames with arbitrary contents, <= 3 operations '
          '(step, reset, masked reset), 1..2 environments, both channel '
          'orders')
ASSUMPTIONS = ['frames are 1-channel 1x2 images of arbitrary reals']


class FEnv(gym.Env):
    def __init__(self, x, i, order):
        self.x, self.i, self.n = x, i, 0
        self.shape = (1, 1, 2) if order == 'chw' else (1, 2, 1)
        self.action_space = gym.spaces.Discrete(2)
        self.observation_space = gym.spaces.Box(
            0, 255, self.shape, dtype=np.float32)
        self.frames = []

    def frame(self):
        self.n += 1
        f = self.x.reals('f%d_%d' % (self.i, self.n), self.shape, 0, 255)
        self.frames.append(f)
        return f

    def reset(self):
        del self.frames[:]
        return self.frame()

    def step(self, a):
        r = self.x.real('r%d_%d' % (self.i, self.n), -1, 1)
        d = self.x.bool('d%d_%d' % (self.i, self.n))
        self.last = (r, d)
        return self.frame(), r, d, {'a': a}


def want(frames, k, axis):
    fs = ([frames[0]] * k + frames)[-k:]
    # all frames, oldest first, along the channel axis
    return np.concatenate(fs, axis=axis)


@harness(quick=[dict(k=k, order=o) for k in (1, 2, 3)
                for o in ('hwc', 'chw')])
def single(x, k, order):
    axis = {'hwc': 2, 'chw': 0}[order]
    env = FEnv(x, 0, order)
    w = FrameStack(env, k, channel_order=order)
    shape = list(env.shape)
    shape[axis] *= k
    x.check(w.observation_space.shape == tuple(shape), 'observation space')
    o = w.reset()
    seen = []
    for t in range(4):
        ref = want(env.frames, k, axis)
        a = np.array(o)
        x.check(a.shape == tuple(shape), 'observation shape')
        x.eq(a, ref, 'last k frames of the episode, oldest first')
        seen.append((o, ref))
        if t == 3:
            break
        if x.flag('reset%d' % t):
            o = w.reset()
        else:
            o, r, d, info = w.step(t)
            x.eq(r, env.last[0], 'reward')
            x.eq(d, env.last[1], 'terminal flag')
            x.check(info == {'a': t}, 'info and action')
    for o, ref in seen:
        x.eq(np.array(o), ref, 'earlier observations never change')


@harness(quick=[dict(k=2, n=1, order='chw'), dict(k=2, n=2, order='chw'),
                dict(k=3, n=2, order='chw'), dict(k=2, n=2, order='hwc')],
         thorough=[dict(k=3, n=2, order='hwc'), dict(k=2, n=3, order='chw'),
                   dict(k=4, n=2, order='chw')])
def vector(x, k, n, order):
    axis = {'hwc': 2, 'chw': 0}[order]
    envs = [FEnv(x, i, order) for i in range(n)]
    w = VectorFrameStack(SerialVectorEnv(envs), k, stack_axis=axis)
    x.check(w.num_envs == n, 'number of environments')
    shape = list(envs[0].shape)
    shape[axis] *= k
    x.check(w.observation_space.shape == tuple(shape), 'observation space')
    o = w.reset()
    seen = []
    for t in range(3):
        x.check(len(o) == n, 'one observation per environment')
        for i in range(n):
            ref = want(envs[i].frames, k, axis)
            x.eq(np.array(o[i]), ref,
                 'last k frames of the episode, oldest first')
            seen.append((o[i], ref))
        if t == 2:
            break
        if x.flag('reset%d' % t):
            m = [x.flag('m%d_%d' % (t, i)) for i in range(n)]
            before = [list(e.frames) for e in envs]
            o = w.reset(mask=x.array(m, '?')) if any(m) else w.reset()
            for i in range(n):
                if m[i]:
                    x.check(len(envs[i].frames) == len(before[i]),
                            'masked environments are not touched')
        else:
            o, r, d, info = w.step([t] * n)
            for i in range(n):
                x.eq(r[i], envs[i].last[0], 'reward')
                x.eq(d[i], envs[i].last[1], 'terminal flag')
    for o, ref in seen:
        x.eq(np.array(o), ref, 'earlier observations never change')


@harness(quick=[{}])
def lazy(x):
    """Lazy frames: same content each time, dtype on request."""
    fs = [x.reals('f%d' % i, (1, 2), -3, 3) for i in range(2)]
    l = LazyFrames(list(fs), stack_axis=0)
    for _ in range(2):
        a = np.asarray(l)
        x.eq(a, np.concatenate(fs, axis=0), 'content')
    b = l.__array__(np.float64)
    x.check(b.dtype == np.float64, 'dtype')
    x.eq(b, np.concatenate(fs, axis=0), 'content')
    c = LazyFrames(list(fs), stack_axis=1)
    x.eq(np.asarray(c), np.concatenate(fs, axis=1), 'content, other axis')
