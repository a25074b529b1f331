"""Scripted environments and recording agents for the experiment checks."""
import logging

from symx.api import *

LOG = logging.getLogger('symx.null')
LOG.addHandler(logging.NullHandler())
LOG.propagate = False
LOG.setLevel(logging.CRITICAL)


class Fault(Exception):
    pass


class Faults(object):
    """Raises at the k-th instrumented call (k symbolic; 0: never)."""

    def __init__(self, k, exc=Fault):
        self.k, self.n, self.exc, self.hit = k, 0, exc, False

    def __call__(self):
        self.n += 1
        if not self.hit and self.n == self.k:
            self.hit = True
            raise self.exc()


class Env(object):
    """Each step yields a fresh observation, a symbolic reward, and symbolic
    done / needs_reset flags; everything is logged."""

    def __init__(self, x, log, name='env', fault=None, needs_reset=True,
                 dones=True, rewards=True):
        self.x, self.log, self.name = x, log, name
        self.t = 0
        self.n = 0
        self.live = False
        self.fault = fault or (lambda: None)
        self.nr, self.dones, self.rewards = needs_reset, dones, rewards
        self.closed = 0

    def obs(self):
        self.n += 1
        return (self.name, self.n)

    def reset(self):
        self.fault()
        self.live = True
        o = self.obs()
        self.log.append(('reset', self.name, o))
        return o

    def step(self, action):
        self.x.check(self.live, 'step only after a reset')
        self.fault()
        self.t += 1
        i = self.t
        o = self.obs()
        r = self.x.real('{}_r{}'.format(self.name, i), -4, 4) \
            if self.rewards else 0.0
        d = self.x.flag('{}_done{}'.format(self.name, i)) if self.dones \
            else False
        info = {}
        if self.nr and self.x.flag('{}_nr{}'.format(self.name, i)):
            info = {'needs_reset': True}
        if d or info:
            self.live = False
        self.log.append(('step', self.name, action, o, r, d, info))
        return o, r, d, info

    def close(self):
        self.closed += 1
        self.log.append(('close', self.name))


class Agent(object):
    def __init__(self, log, fault=None, name='agent'):
        self.log, self.fault, self.name = log, fault or (lambda: None), name
        self.n = 0

    def _a(self):
        self.n += 1
        return ('a', self.n)

    def act_and_train(self, obs, r):
        self.fault()
        a = self._a()
        self.log.append(('act_and_train', obs, r, a))
        return a

    def act(self, obs):
        self.fault()
        a = self._a()
        self.log.append(('act', obs, a))
        return a

    def stop_episode_and_train(self, obs, r, done=False):
        self.fault()
        self.log.append(('stop_and_train', obs, r, done))

    def stop_episode(self):
        self.log.append(('stop',))

    def save(self, dirname):
        self.log.append(('save', dirname))

    def get_statistics(self):
        return [('stat', 1.5)]


def names(log):
    return [e[0] for e in log]


class VecEnv(object):
    """`n` scripted environments; obs are (name, i, count) tuples."""

    def __init__(self, x, log, n, name='env', fault=None, dones=True,
                 needs_reset=True, rewards=True):
        self.x, self.log, self.num_envs, self.name = x, log, n, name
        self.fault = fault or (lambda: None)
        self.dones, self.nr, self.rewards = dones, needs_reset, rewards
        self.t = 0
        self.c = 0
        self.last = [None] * n
        self.live = [False] * n

    def fresh(self, i):
        self.c += 1
        self.last[i] = (self.name, i, self.c)

    def reset(self, mask=None):
        self.fault()
        m = [False] * self.num_envs if mask is None else [
            bool(v) for v in mask]
        self.x.check(len(m) == self.num_envs, 'mask length')
        for i in range(self.num_envs):
            if not m[i]:
                self.fresh(i)
                self.live[i] = True
        self.log.append(('reset', self.name, m, list(self.last)))
        return list(self.last)

    def step(self, actions):
        self.fault()
        self.t += 1
        rs, ds, infos = [], [], []
        for i in range(self.num_envs):
            self.x.check(self.live[i], 'no step past the end of an episode')
            p = '{}{}_{}'.format(self.name, i, self.t)
            rs.append(self.x.real('r' + p, -4, 4) if self.rewards else 0.0)
            ds.append(self.x.flag('done' + p) if self.dones else False)
            info = {}
            if self.nr and self.x.flag('nr' + p):
                info = {'needs_reset': True}
            infos.append(info)
            if ds[-1] or info:
                self.live[i] = False
            self.fresh(i)
        self.log.append(('step', self.name, list(actions), list(self.last),
                         list(rs), list(ds), infos))
        return list(self.last), rs, ds, infos

    def close(self):
        self.log.append(('close', self.name))


class VecAgent(Agent):
    def _as(self, obss):
        self.n += 1
        return [('a', self.n, i) for i in range(len(obss))]

    def batch_act_and_train(self, obss):
        self.fault()
        a = self._as(obss)
        self.log.append(('act_and_train', list(obss), a))
        return a

    def batch_act(self, obss):
        self.fault()
        a = self._as(obss)
        self.log.append(('act', list(obss), a))
        return a

    def batch_observe_and_train(self, obss, rs, dones, resets):
        self.fault()
        self.log.append(('observe_and_train', list(obss), list(rs),
                         [bool(d) for d in dones], [bool(r) for r in resets]))

    def batch_observe(self, obss, rs, dones, resets):
        self.log.append(('observe', list(obss), list(rs),
                         [bool(d) for d in dones], [bool(r) for r in resets]))
