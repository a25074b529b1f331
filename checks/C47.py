"""The feature extractor and the batching function given to an agent are what
it sees the world through; evaluation changes nothing."""
import chainerrl.misc
from chainerrl.agents import ppo, trpo

from symx.api import *
from checks._agents import *
from checks._rigs import *

BOUNDS = ('15 agent classes; two agents with the same arbitrary parameters, '
          'one with plain observations, one with opaque observations, a '
          'feature extractor and a batching function; 1..2 updates, single '
          'and batched actions in training and evaluation, arbitrary rewards')
ASSUMPTIONS = ['reals stand for floats; TRPO\'s conjugate gradient is a '
               'given vector; models are stand-ins']


class Obs(object):
    """An observation only the given feature extractor understands."""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'Obs(%d)' % self.i


class Feature(object):
    """A feature only the given batching function understands."""

    def __init__(self, i):
        self.i = i


class Opaque(View):
    """State i is seen as 3 - i, in three steps."""

    def __init__(self, x, batching):
        self.x, self.batching = x, batching
        self.xp = set()

    def ob(self, i):
        return Obs(i + 10)

    def phi(self, o):
        self.x.check(isinstance(o, Obs), 'phi is applied to observations')
        if self.batching:
            return Feature(o.i)
        return np.array([13 - o.i], dtype=self.dtype)

    def batch(self, states, xp, phi):
        self.x.check(xp is np, 'array module')
        fs = [phi(s) for s in states]
        self.x.check(all(isinstance(f, Feature) for f in fs),
                     'the batching function gets phi')
        return np.array([[13 - f.i] for f in fs], dtype=self.dtype)

    def kw(self, name):
        kw = super().kw(name)
        if self.batching:
            kw['batch_states'] = self.batch
        return kw


class Plain(View):
    def ob(self, i):
        return 3 - i


class Greedy(object):
    """Explorer that follows the agent."""

    def __init__(self, a):
        pass

    def select_action(self, t, greedy_func, action_value=None):
        return greedy_func()


def same(x, A, B, msg):
    for (a, la), (b, lb) in zip(A.links, B.links):
        pa, pb = dict(la.namedparams()), dict(lb.namedparams())
        for k in sorted(pa):
            x.eq(pb[k].array, pa[k].array, '%s: %s%s' % (msg, a, k))


class given_step(object):
    """TRPO's conjugate gradient is a given vector; no statistics."""

    def __enter__(self):
        self.keep = chainerrl.misc.conjugate_gradient
        chainerrl.misc.conjugate_gradient = lambda A, b, **kw: np.full(
            b.shape, 0.25, dtype=np.float32)
        self.ev = []
        for m in (ppo, trpo):
            if hasattr(m, '_compute_explained_variance'):
                self.ev.append((m, m._compute_explained_variance))
                m._compute_explained_variance = lambda tr: 0.

    def __exit__(self, *e):
        chainerrl.misc.conjugate_gradient = self.keep
        for m, f in self.ev:
            m._compute_explained_variance = f


def pair(x, name, batching):
    r = [x.real('r%d' % i, -2, 2) for i in range(4)]
    A = Rig(x, name, 'p', r, Plain(), Greedy)
    B = Rig(x, name, 'q', r, Opaque(x, batching), Greedy)
    for (a, la), (b, lb) in zip(A.links, B.links):
        assert a == b
        pb = dict(lb.namedparams())
        for k, p in la.namedparams():
            pb[k].array = p.array.copy()
    if name == 'TRPO':
        # small values: the step is taken in one region of the line search
        for R in (A, B):
            R.ag.line_search_max_backtrack = 0
    return A, B


def batching(name):
    return (False,) if name == 'ACER' else (False, True)


CASES = [dict(name=n, batching=b) for n in AGENTS for b in batching(n)]


@harness(quick=CASES, time_limit=300)
def views(x, name, batching):
    """Whatever the observations look like: same actions, same updates."""
    x.fixed_perm = True
    A, B = pair(x, name, batching)
    with given_step():
        for k in range(1):
            if name == 'TRPO':
                for R in (A, B):
                    R.acts = R.episode(k)
                x.eq(B.acts, A.acts, 'actions in training')
            else:
                A.update(k)
                B.update(k)
    same(x, A, B, 'after an update')
    x.eq(B.act(), A.act(), 'action')


BATCHED = ['DQN', 'ResidualDQN', 'DDPG', 'TD3', 'SAC', 'A2C', 'PPO', 'TRPO']


@harness(quick=[dict(name=n, batching=b) for n in BATCHED
                for b in batching(n)])
def batched(x, name, batching):
    """The same for batches of environments."""
    x.fixed_perm = True
    A, B = pair(x, name, batching)
    with given_step():
        batch_steps(name, A, B)
    for a in ('e', 't', 't2'):
        if hasattr(A, a):
            x.check(len(getattr(B, a)) == len(getattr(A, a)), 'batch size')
            for p, q in zip(getattr(B, a), getattr(A, a)):
                x.eq(p, q, 'batched actions')


def batch_steps(name, A, B):
    for R in (A, B):
        ob = R.view.ob
        if name != 'A2C':
            R.e = R.ag.batch_act([ob(0), ob(2)])
        if name == 'A2C':
            R.t = R.ag.batch_act_and_train([ob(1)])
            R.ag.batch_observe([ob(0)], [0], [False], [False])
            continue
        R.t = R.ag.batch_act_and_train([ob(1), ob(0)])
        R.ag.batch_observe_and_train([ob(0), ob(1)], R.r[:2], [False, True],
                                     [False, False])
        R.t2 = R.ag.batch_act_and_train([ob(0), ob(1)])


SINGLE = [n for n in AGENTS if n != 'A2C']


@harness(quick=[dict(name=n, batching=b) for n in SINGLE
                for b in batching(n)])
def single(x, name, batching):
    """Actions in training."""
    x.fixed_perm = True
    A, B = pair(x, name, batching)
    for R in (A, B):
        R.acts = [R.ag.act_and_train(R.view.ob(i), R.r[i]) for i in range(1)]
        R.ag.stop_episode()
        R.acts.append(R.ag.act(R.view.ob(1)))
        R.ag.stop_episode()
    for p, q in zip(B.acts, A.acts):
        x.eq(p, q, 'actions')
