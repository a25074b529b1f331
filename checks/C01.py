from symx.api import *
from chainerrl.replay_buffers import ReplayBuffer, PrioritizedReplayBuffer

BOUNDS = ('histories of <= 5 operations (append / append terminal / stop '
          'episode) over <= 2 environments, num_steps 1..3, capacity 1..5 or '
          'unbounded; states, actions and rewards arbitrary')
ASSUMPTIONS = ['one environment is never stopped and appended concurrently',
               'reals stand for floats']


def contents(buf):
    m = buf.memory
    return list(m.data) if hasattr(m, 'data') else [
        m[i] for i in range(len(m))]


class Model(object):
    """Episodes as lists; stored windows in insertion order."""

    def __init__(self, n, cap):
        self.n, self.cap = n, cap
        self.cur = {}
        self.out = []

    def put(self, w):
        self.out.append(w)
        if self.cap is not None and len(self.out) > self.cap:
            self.out.pop(0)

    def append(self, env, t, terminal):
        ep = self.cur.setdefault(env, [])
        ep.append(t)
        if len(ep) >= self.n:
            self.put(ep[len(ep) - self.n:])
        if terminal:
            self.stop(env)

    def stop(self, env):
        ep = self.cur.pop(env, [])
        for i in range(max(0, len(ep) - self.n + 1), len(ep)):
            self.put(ep[i:])


def compare(x, buf, model, msg):
    got = contents(buf)
    x.check(len(got) == len(model.out) and len(buf) == len(got),
            msg + ': number of stored transitions')
    for g, w in zip(got, model.out):
        x.check(len(g) == len(w), msg + ': window length')
        for a, b in zip(g, w):
            for k in b:
                x.check(k in a, msg + ': field ' + k)
                if b[k] is None or k in ('tag',):
                    x.check(a[k] is b[k], msg + ': field ' + k)
                else:
                    x.eq(a[k], b[k], msg + ': field ' + k)


@harness(quick=[dict(cls=c, n=n, envs=e, T=T)
                for c in ('plain', 'prio')
                for n, e, T in ((1, 1, 4), (2, 1, 5), (3, 1, 5), (2, 2, 4),
                                (3, 2, 4))],
         thorough=[dict(cls=c, n=n, envs=e, T=T)
                   for c in ('plain', 'prio')
                   for n, e, T in ((1, 1, 6), (2, 1, 7), (3, 1, 7),
                                   (4, 1, 7), (1, 2, 5), (2, 2, 5),
                                   (3, 2, 5), (2, 3, 5))])
def windows(x, cls, n, envs, T):
    cap = x.int('cap', 1, 5) if n > 1 or envs == 1 else None
    C = ReplayBuffer if cls == 'plain' else PrioritizedReplayBuffer
    bounded = x.flag('bounded')
    cap = int(cap) if bounded and cap is not None else None
    buf = C(capacity=cap, num_steps=n)
    model = Model(n, cap)
    for t in range(T):
        env = int(x.int('env%d' % t, 0, envs - 1))
        op = x.choice('op%d' % t, ['append', 'stop'])
        if op == 'append':
            term = x.bool('term%d' % t)
            tr = dict(state=x.real('s%d' % t), action=x.int('a%d' % t, 0, 3),
                      reward=x.real('r%d' % t),
                      next_state=x.real('ns%d' % t),
                      next_action=None, is_state_terminal=term,
                      extra=x.real('x%d' % t))
            buf.append(env_id=env, **tr)
            model.append(env, tr, bool(term))
        else:
            buf.stop_current_episode(env_id=env)
            model.stop(env)
        if t >= T - 2:
            compare(x, buf, model, 'after a history')


@harness(quick=[dict(cls='plain', n=2), dict(cls='prio', n=2)],
         thorough=[dict(cls=c, n=n) for c in ('plain', 'prio')
                   for n in (1, 2, 3)])
def default_env(x, cls, n):
    """Without env_id: one stream; windows never cross an episode end."""
    C = ReplayBuffer if cls == 'plain' else PrioritizedReplayBuffer
    buf = C(capacity=None, num_steps=n)
    model = Model(n, None)
    for t in range(5):
        term = x.bool('term%d' % t)
        tr = dict(state=x.real('s%d' % t), action=t, reward=x.real('r%d' % t),
                  next_state=x.real('ns%d' % t), next_action=t + 1,
                  is_state_terminal=term)
        buf.append(**tr)
        model.append(0, tr, bool(term))
        if t == 2 and not term:
            if x.flag('stop'):
                buf.stop_current_episode()
                model.stop(0)
    compare(x, buf, model, 'single stream')
    for w in contents(buf):
        for a in w[:-1]:
            x.check(lnot(a['is_state_terminal']),
                    'a window continues past a terminal transition')
        for a, b in zip(w[:-1], w[1:]):
            x.check(a['action'] + 1 == b['action'],
                    'a window skips a step')
