from symx.api import *
from chainerrl.replay_buffers import EpisodicReplayBuffer
from chainerrl.replay_buffers import PrioritizedEpisodicReplayBuffer

BOUNDS = ('histories of <= 5 appends with arbitrary terminal flags and '
          'explicit episode ends over <= 2 environments, capacity 1..5 or '
          'unbounded; sampling of <= 2 episodes, subsequences of length <= 3')
ASSUMPTIONS = ['one environment is never stopped and appended concurrently']


class Model(object):
    def __init__(self, cap):
        self.cap = cap
        self.cur = {}
        self.eps = []

    def append(self, env, t, term):
        self.cur.setdefault(env, []).append(t)
        if term:
            self.stop(env)

    def stop(self, env):
        ep = self.cur.pop(env, [])
        if ep:
            self.eps.append(ep)
            while self.cap is not None and \
                    sum(len(e) for e in self.eps) > self.cap:
                self.eps.pop(0)


def episodes(buf):
    m = buf.episodic_memory
    return list(m.data) if hasattr(m, 'data') else [
        m[i] for i in range(len(m))]


def build(x, cls, envs, T, cap):
    buf = EpisodicReplayBuffer(capacity=cap) if cls == 'plain' else \
        PrioritizedEpisodicReplayBuffer(capacity=cap)
    model = Model(cap)
    for t in range(T):
        env = int(x.int('env%d' % t, 0, envs - 1))
        if x.flag('stop%d' % t):
            buf.stop_current_episode(env_id=env)
            model.stop(env)
            continue
        term = x.bool('term%d' % t)
        tr = dict(state=x.real('s%d' % t), action=t, reward=x.real('r%d' % t),
                  next_state=x.real('ns%d' % t), next_action=None,
                  is_state_terminal=term)
        buf.append(env_id=env, **tr)
        model.append(env, tr, bool(term))
    return buf, model


def same_tr(x, a, b, msg):
    x.check(set(b) <= set(a), msg + ': fields')
    for k in b:
        if b[k] is None:
            x.check(a[k] is None, msg + ': field ' + k)
        else:
            x.eq(a[k], b[k], msg + ': field ' + k)


@harness(quick=[dict(cls=c, envs=e, T=T) for c in ('plain', 'prio')
                for e, T in ((1, 5), (2, 4))],
         thorough=[dict(cls=c, envs=e, T=T) for c in ('plain', 'prio')
                   for e, T in ((1, 7), (2, 5), (3, 5))])
def history(x, cls, envs, T):
    cap = int(x.int('cap', 1, 4)) if x.flag('bounded') else None
    buf, model = build(x, cls, envs, T, cap)
    eps = episodes(buf)
    x.check(buf.n_episodes == len(model.eps), 'number of episodes')
    x.check(len(eps) == len(model.eps), 'stored episodes')
    for e, w in zip(eps, model.eps):
        x.check(len(e) == len(w), 'episode length')
        for a, b in zip(e, w):
            same_tr(x, a, b, 'episode content')
    if cap is not None:
        x.check(sum(len(e) for e in eps) <= cap, 'capacity')
        x.check(len(buf) <= cap, 'capacity in transitions')
    if cls == 'plain':
        flat = [t for e in model.eps for t in e]
        x.check(len(buf) == len(flat), 'transition count')
        mem = [buf.memory[i] for i in range(len(buf.memory))]
        for g, w in zip(mem, flat):
            x.check(len(g) == 1, 'sampled experience is one transition')
            same_tr(x, g[0], w, 'flat view')


@harness(quick=[dict(cls='plain'), dict(cls='prio')])
def sampling(x, cls):
    """sample_episodes: distinct episodes, contiguous bounded subsequences."""
    buf = EpisodicReplayBuffer() if cls == 'plain' else \
        PrioritizedEpisodicReplayBuffer()
    eps = []
    for e, n in enumerate((1, 3, 4)):
        ep = []
        for t in range(n):
            last = t == n - 1
            ep.append((e, t))
            buf.append(state=(e, t), action=None, reward=0, next_state=None,
                       is_state_terminal=last and e != 1)
        if e == 1:
            buf.stop_current_episode()
        eps.append(ep)
    k = int(x.int('k', 1, 2))
    lim = x.choice('limit', [None, 1, 2, 3])
    r = buf.sample_episodes(k, lim)
    if cls == 'prio':
        r, w = r
        x.check(len(w) == k, 'one weight per episode')
    x.check(len(r) == k, 'number of sampled episodes')
    ids = [ep[0]['state'][0] for ep in r]
    x.check(len(set(ids)) == k, 'episodes sampled twice')
    for ep in r:
        e, t0 = ep[0]['state']
        full = eps[e]
        n = len(full) if lim is None else min(lim, len(full))
        x.check(len(ep) == n, 'subsequence length')
        x.check([s['state'] for s in ep] == full[t0:t0 + n],
                'subsequence is not contiguous')
