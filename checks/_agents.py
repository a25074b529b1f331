"""Stub models, buffers, explorers for the agent checks.

Observations are state numbers; every Q-function, policy and value function
is a table over (state, ...) of symbolic parameters, i.e. an arbitrary
function on the states that occur."""
import chainer.functions as F
from chainerrl.action_value import DiscreteActionValue
from chainerrl import distribution as D

from symx.api import *
from checks._stubs import LOG


def phi(s):
    """Feature: the state number as a one-element array."""
    return np.array([s], dtype=np.int32)


def ids(xs):
    xs = xs.array if isinstance(xs, chainer.Variable) else xs
    return np.asarray([int(v) for v in np.asarray(xs).reshape(-1)],
                      dtype=np.int32)


class Table(chainer.Link):
    """Rows of a parameter table, selected by the state number."""

    def __init__(self, n, *shape):
        super().__init__()
        with self.init_scope():
            self.T = chainer.Parameter(
                np.zeros((n,) + shape, dtype=np.float32))

    def row(self, xs):
        return self.T[ids(xs)]


class TableQ(Table):
    """Discrete-action Q function."""

    def __call__(self, xs):
        return DiscreteActionValue(self.row(xs))


class TableV(Table):
    def __init__(self, n):
        super().__init__(n, 1)

    def __call__(self, xs):
        return self.row(xs)


class TablePi(Table):
    """Deterministic policy."""

    def __init__(self, n, d=1):
        super().__init__(n, d)

    def __call__(self, xs):
        return D.ContinuousDeterministicDistribution(self.row(xs))


class LinQSA(chainer.Link):
    """q(s, a) = v[s] + w[s] . a"""

    def __init__(self, n, d=1):
        super().__init__()
        with self.init_scope():
            self.v = chainer.Parameter(np.zeros((n, 1), dtype=np.float32))
            self.w = chainer.Parameter(np.zeros((n, d), dtype=np.float32))

    def __call__(self, xs, a):
        i = ids(xs)
        return self.v[i] + F.sum(self.w[i] * a, axis=1, keepdims=True)


class Dist(D.Distribution):
    """Stochastic policy output with simple algebra: sample = m + noise,
    log p(a) = c0 + c1 * a  (a stand-in: any differentiable log density)."""

    def __init__(self, m, c, noise=None):
        self.m, self.c, self.noise = m, c, noise

    @property
    def params(self):
        return self.m, self.c

    @property
    def entropy(self):
        with chainer.force_backprop_mode():
            return F.sum(self.c, axis=1) * 2

    def sample(self):
        return self.m + self.noise(self.m.shape)

    def sample_with_log_prob(self):
        a = self.sample()
        return a, self.log_prob(a)

    @property
    def most_probable(self):
        return self.m

    def log_prob(self, a):
        return self.c[:, 0] + F.sum(self.c[:, 1:] * a, axis=1)

    def prob(self, a):
        return F.exp(self.log_prob(a))

    def copy(self):
        return Dist(chainer.Variable(self.m.array),
                    chainer.Variable(self.c.array), self.noise)

    def kl(self, d):
        return (F.sum(F.square(d.m - self.m), axis=1) +
                F.sum(F.square(d.c - self.c), axis=1)) * 0.5

    def __getitem__(self, i):
        return Dist(self.m[i], self.c[i], self.noise)


class TableDist(chainer.Link):
    def __init__(self, n, noise, d=1):
        super().__init__()
        self.noise = noise
        with self.init_scope():
            self.m = chainer.Parameter(np.zeros((n, d), dtype=np.float32))
            self.c = chainer.Parameter(np.zeros((n, d + 1),
                                                dtype=np.float32))

    def __call__(self, xs):
        i = ids(xs)
        t = tuple(int(v) for v in i)
        return Dist(self.m[i], self.c[i], lambda shape: self.noise(shape, t))


class Noise(object):
    """Fresh symbolic noise; what was drawn is logged."""

    def __init__(self, x):
        self.x, self.log = x, []

    def __deepcopy__(self, memo):
        return self

    def __call__(self, shape, tag=None):
        v = self.x.reals('noise%d' % len(self.log), shape, -2, 2)
        self.log.append((tag, v))
        return v

    def of(self, *states):
        """The noise drawn for this batch of states."""
        r = [v for t, v in self.log if t == states]
        return r


class RecBuffer(object):
    """Records every call."""

    def __init__(self, capacity=None):
        self.capacity = capacity
        self.log = []

    def append(self, **kw):
        self.log.append(('append', kw))

    def stop_current_episode(self, env_id=0):
        self.log.append(('stop', env_id))

    def __len__(self):
        return 0


class Explorer(object):
    """Returns an arbitrary action; remembers what it was offered."""

    def __init__(self, x, mk, name='act', greedy=True):
        self.x, self.mk, self.n, self.name = x, mk, 0, name
        self.greedy = greedy
        self.log = []

    def select_action(self, t, greedy_func, action_value=None):
        self.n += 1
        a = self.mk('{}{}'.format(self.name, self.n))
        self.log.append((t, greedy_func() if self.greedy else None,
                         action_value, a))
        return a

    def __repr__(self):
        return 'Explorer'


def opt(link, cls=None, **kw):
    o = (cls or chainer.optimizers.SGD)(**(kw or dict(lr=0)))
    o.setup(link)
    return o


class GradRec(object):
    """Optimizer that records gradients instead of applying them."""

    def __init__(self, target=None, lr=0):
        self.target, self.t, self.log, self.lr = target, 0, [], lr

    def setup(self, link):
        self.target = link
        return self

    def update(self, lossfun=None, *args, **kw):
        if lossfun is not None:
            self.target.cleargrads()
            loss = lossfun(*args, **kw)
            loss.backward()
            self.loss = loss
        else:
            self.loss = None
        self.t += 1
        self.log.append((
            None if self.loss is None else self.loss.array,
            {k: None if p.grad is None else p.grad.copy()
             for k, p in sorted(self.target.namedparams())}))
        if self.lr:
            for p in self.target.params():
                if p.grad is not None:
                    p.array[...] -= self.lr * p.grad


def transition(s, a, r, ns, term=False, na=None):
    return dict(state=s, action=a, reward=r, next_state=ns,
                next_action=na, is_state_terminal=term)


class HistNet(chainer.Link):
    """A (recurrent) network whose output is an arbitrary function of the
    history of inputs since the last reset: one row of parameters per
    history.  Non-recurrent use: a history is a single input."""

    def __init__(self, n, width, out, rows=None):
        super().__init__()
        self.out, self.rows = out, {} if rows is None else rows
        with self.init_scope():
            self.T = chainer.Parameter(np.zeros((n, width),
                                                dtype=np.float32))

    def __deepcopy__(self, memo):
        r = type(self)(self.T.shape[0], self.T.shape[1], self.out, self.rows)
        r.T.array = self.T.array.copy()
        return r

    def row(self, h):
        if h not in self.rows:
            self.rows[h] = len(self.rows)
        assert self.rows[h] < len(self.T.array), 'too few rows'
        return self.rows[h]

    def value(self, h, col):
        return self.T.array[self.row(tuple(h)), col]

    def _of(self, hs):
        idx = np.asarray([self.row(h) for h in hs], dtype=np.int32)
        return self.out(self.T[idx], hs)


class FlatNet(HistNet):
    def __call__(self, xs):
        return self._of([(int(i),) for i in ids(xs)])


class RecNet(HistNet, chainerrl.links.StatelessRecurrent):
    def n_step_forward(self, seqs, recurrent_state, output_mode):
        hs = []
        rs = recurrent_state
        rs = [()] * len(seqs) if rs is None else list(rs)
        assert len(rs) == len(seqs)
        for b, seq in enumerate(seqs):
            part = []
            for i in ids(seq):
                rs[b] = rs[b] + (int(i),)
                part.append(rs[b])
            hs.append(part)
        if output_mode == 'concat':
            return self._of([h for p in hs for h in p]), rs
        assert output_mode == 'split'
        return [self._of(p) for p in hs], rs

    def mask_recurrent_state_at(self, recurrent_state, indices):
        if recurrent_state is None:
            return None
        rs = list(recurrent_state)
        for i in np.asarray(indices).reshape(-1):
            rs[int(i)] = ()
        return rs

    def get_recurrent_state_at(self, recurrent_state, indices,
                               unwrap_variable):
        if recurrent_state is None:
            return None
        if np.ndim(indices):
            return [recurrent_state[int(i)] for i in indices]
        return recurrent_state[int(indices)]

    def concatenate_recurrent_states(self, split_recurrent_states):
        r = []
        for s in split_recurrent_states:
            if s is None:
                r.append(())
            elif isinstance(s, list):
                r.extend(s)
            else:
                r.append(s)
        return r


def dist_of(noise):
    """Rows (m, c0, c1) -> a Dist."""
    return lambda rows, hs: Dist(rows[:, 0:1], rows[:, 1:3],
                                 lambda shape: noise(shape, tuple(hs)))


def ac_of(noise):
    """Rows (m, c0, c1, v) -> (policy output, value)."""
    return lambda rows, hs: (
        Dist(rows[:, 0:1], rows[:, 1:3],
             lambda shape: noise(shape, tuple(hs))), rows[:, 3:4])


class Norm(object):
    """Observation normalizer: shifts state numbers by an offset that changes
    with every call of `experience`."""
    xp = np

    def __init__(self, shift, off=0):
        self.shift, self.off, self.log = shift, off, []

    def __call__(self, x, update=True):
        x = x.array if isinstance(x, chainer.Variable) else x
        self.log.append(('call', tuple(int(v) for v in ids(x)), update,
                         self.off))
        return x + np.asarray(self.off, dtype=x.dtype)

    def experience(self, x):
        self.log.append(('experience', tuple(int(v) for v in ids(x))))
        self.off += self.shift


class StateNet(HistNet, chainerrl.recurrent.Recurrent):
    """Stateful recurrent network: its state is the list of histories; a
    smaller batch uses (and keeps) the first of them, as chainer's LSTM."""
    hs = None

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.log = []

    def get_state(self):
        return self.hs

    def set_state(self, state):
        self.hs = state

    def reset_state(self):
        self.hs = None

    def unchain_backward(self):
        self.log.append('unchain')

    def __call__(self, xs):
        i = ids(xs)
        old = self.hs if self.hs is not None else [()] * len(i)
        new = [h + (int(k),) for h, k in zip(old, i)]
        assert len(new) == len(i), 'batch grew'
        self.hs = new + list(old[len(i):])
        return self._of(new)
