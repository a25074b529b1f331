from symx.api import *
from checks._stubs import *
import chainerrl.experiments.evaluator as evmod
from chainerrl.env import VectorEnv

BOUNDS = ('<= 4 environment steps (2 per environment for 2 environments); '
          '1..3 episodes or 1..4 steps requested; arbitrary rewards, '
          'done/needs_reset flags and length limits')
ASSUMPTIONS = ['environment and agent are recording stand-ins; with a number '
               'of episodes requested, episodes end within 2 steps']


class End(Env):
    """Ends every episode after at most `most` steps."""
    most = 2

    def reset(self):
        self.len = 0
        return Env.reset(self)

    def step(self, a):
        self.len += 1
        o, r, d, i = Env.step(self, a)
        if self.len >= self.most and not d and not i:
            d = True
            self.live = False
            self.log[-1] = self.log[-1][:5] + (True, i)
        return o, r, d, i


def total(rs):
    s = 0
    for r in rs:
        s = s + r
    return s


def walk(x, log, lim):
    """-> (list of finished returns, partial return, steps); checks the
    interaction protocol."""
    it = iter(log)
    done_eps, cur, n, steps, obs = [], None, 0, 0, None
    last = None
    for e in it:
        if e[0] == 'reset':
            x.check(cur is None, 'reset only between episodes')
            cur, n, obs = 0, 0, e[2]
        elif e[0] == 'act':
            x.check(cur is not None and e[1] == obs,
                    'agent sees the latest observation')
        elif e[0] == 'step':
            x.check(last[0] == 'act' and e[2] == last[2],
                    'the agent\'s action is executed')
            cur = cur + e[4]
            n += 1
            steps += 1
            obs = e[3]
            if e[5] or e[6] or n == lim:
                done_eps.append(cur)
                cur = None
        elif e[0] == 'stop':
            x.check(last[0] == 'step', 'episode stopped after a step')
        else:
            x.check(False, 'unexpected ' + e[0])
        if last is not None and last[0] == 'step' and cur is None:
            x.check(e[0] == 'stop', 'agent is told about the episode end')
        last = e
    x.check(last[0] == 'stop', 'agent is told about the final end')
    return done_eps, cur, steps


@harness(quick=[dict(n=1), dict(n=2)], thorough=[dict(n=1), dict(n=2),
                                                 dict(n=3)])
def episodes(x, n):
    log = []
    lim = x.choice('limit', [None, 1, 2])
    r = evmod.run_evaluation_episodes(End(x, log), Agent(log), None, n,
                                      max_episode_len=lim, logger=LOG)
    eps, cur, steps = walk(x, log, lim)
    x.check(len(eps) == n and cur is None, 'exactly n episodes are run')
    x.eq(r, eps, 'returns of the episodes')


@harness(quick=[dict(n=2), dict(n=3)], thorough=[dict(n=3), dict(n=4)])
def steps(x, n):
    log = []
    lim = x.choice('limit', [None, 1, 2])
    r = evmod.run_evaluation_episodes(Env(x, log), Agent(log), n, None,
                                      max_episode_len=lim, logger=LOG)
    eps, cur, k = walk(x, log, lim)
    x.check(k == n, 'exactly n steps are run')
    x.eq(r, eps if eps else [cur],
         'returns of finished episodes (or the unfinished one)')


class VE(VecEnv, VectorEnv):
    num_envs = 0

    def seed(self, s):
        pass


def batch_ref(x, log, n_envs, lim):
    """Episodes in the order they were started: (length, return, end step,
    start step), end step None if unfinished; + number of batch steps."""
    eps = []
    cur = [None] * n_envs
    t = 0
    obs = None
    acts = None
    for k, e in enumerate(log):
        if e[0] == 'reset':
            ended = [c is None for c in cur]
            x.check([not m for m in e[2]] == ended,
                    'exactly the ended environments are reset')
            for i in range(n_envs):
                if ended[i]:
                    cur[i] = [0, 0, None, t]
                    # started in environment order
                    eps.append(cur[i])
            obs = e[3]
        elif e[0] == 'act':
            x.check(e[1] == obs, 'agent sees the current observations')
            acts = e[2]
        elif e[0] == 'step':
            t += 1
            x.check(e[2] == acts, 'the agent\'s actions are executed')
            obs = e[3]
            resets = []
            for i in range(n_envs):
                c = cur[i]
                c[0] += 1
                c[1] = c[1] + e[4][i]
                rs = bool(e[6][i]) or c[0] == lim
                resets.append(rs)
                if e[5][i] or rs:
                    c[2] = t
            o = log[k + 1]
            x.check(o[0] == 'observe' and o[1] == obs and o[3] == e[5],
                    'agent observes the step')
            for i in range(n_envs):
                x.eq(o[2][i], e[4][i], 'observed reward')
            if k + 2 < len(log):
                x.check(o[4] == resets, 'observed reset flags')
            else:
                x.check(all(o[4]), 'all environments reset at the end')
            for i in range(n_envs):
                if cur[i][2] is not None:
                    cur[i] = None
    return eps, t


@harness(quick=[dict(envs=1, n=2), dict(envs=2, n=2), dict(envs=2, n=3), dict(envs=3, n=2)],
         thorough=[dict(envs=1, n=3), dict(envs=2, n=2), dict(envs=2, n=3),
                   dict(envs=3, n=2)])
def batch_episodes(x, envs, n):
    log = []
    lim = x.choice('limit', [1, 2])
    r = evmod.batch_run_evaluation_episodes(
        VecEnv(x, log, envs, needs_reset=envs == 1), VecAgent(log), None, n,
        max_episode_len=lim, logger=LOG)
    eps, t = batch_ref(x, log, envs, lim)
    x.check(len(eps) >= n and all(e[2] is not None for e in eps[:n]),
            'the first n episodes are finished')
    x.check(max(e[2] for e in eps[:n]) == t, 'no step more than needed')
    x.eq(r, [e[1] for e in eps[:n]],
         'returns of the first n episodes in order of their start')


@harness(quick=[dict(envs=1, n=3), dict(envs=2, n=3), dict(envs=2, n=4)],
         thorough=[dict(envs=1, n=3), dict(envs=2, n=3), dict(envs=2, n=4)])
def batch_steps(x, envs, n):
    log = []
    lim = x.choice('limit', [None, 1, 2])
    r = evmod.batch_run_evaluation_episodes(
        VecEnv(x, log, envs, needs_reset=envs == 1), VecAgent(log), n, None,
        max_episode_len=lim, logger=LOG)
    eps, t = batch_ref(x, log, envs, lim)
    want, tot = [], 0
    for e in eps:
        if e[2] is None or tot + e[0] > n:
            break
        tot += e[0]
        want.append(e[1])
    if not want and eps[0][2] is None:
        want = [eps[0][1]]
    x.eq(r, want, 'returns of the episodes that fit in the steps')
    # it ran until the episodes in order of start covered n steps
    def cover(at):
        c = 0
        for e in eps:
            if e[3] >= at:
                break
            c += min(e[2] or t, at) - e[3]
            if e[2] is None or e[2] > at:
                break
        return c
    x.check(cover(t) >= n, 'enough steps are run')
    x.check(cover(t - 1) < n, 'no step more than needed')


@harness(quick=[dict(vec=False, n=1), dict(vec=False, n=3), dict(vec=True,
                                                                 n=2)])
def statistics(x, vec, n):
    log = []
    o1, o2 = evmod.run_evaluation_episodes, evmod.batch_run_evaluation_episodes
    scores = [x.real('s%d' % i, -4, 4) for i in range(n)]
    used = []

    def fake(kind):
        def f(env, agent, n_steps, n_episodes, max_episode_len=None,
              logger=None):
            used.append((kind, n_steps, n_episodes, max_episode_len))
            return list(scores)
        return f
    evmod.run_evaluation_episodes = fake('serial')
    evmod.batch_run_evaluation_episodes = fake('batch')
    try:
        if vec:
            env = VE.__new__(VE)
        else:
            env = Env(x, log)
        st = evmod.eval_performance(env, VecAgent(log), 7, None,
                                    max_episode_len=5, logger=LOG)
    finally:
        evmod.run_evaluation_episodes = o1
        evmod.batch_run_evaluation_episodes = o2
    x.check(used == [('batch' if vec else 'serial', 7, None, 5)],
            'vector environments are evaluated as a batch')
    x.check(st['episodes'] == n, 'number of episodes')
    m = total(scores) / n
    x.eq(st['mean'], m, 'mean')
    mn, mx = scores[0], scores[0]
    for s in scores[1:]:
        mn, mx = smin(mn, s), smax(mx, s)
    x.eq(st['max'], mx, 'max')
    x.eq(st['min'], mn, 'min')
    if n == 1:
        x.eq(st['median'], scores[0], 'median')
        x.eq(st['stdev'], 0, 'stdev')
    else:
        sd = st['stdev']
        x.check(sd >= 0, 'stdev is not negative')
        x.eq(sd * sd, total([(s - m) * (s - m) for s in scores]) / (n - 1),
             'stdev')
        if n == 2:
            x.eq(st['median'], m, 'median')
        else:
            x.eq(st['median'], total(scores) - mn - mx, 'median')
