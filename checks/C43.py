"""Stateful recurrent models: saving, restoring, resetting, cutting."""
import chainer.functions as F
import chainer.links as L
from chainerrl import recurrent as R
from chainerrl.links import Branched, Sequence

from symx.api import *

BOUNDS = ('models of one to three LSTMs and hand-written recurrent links, one '
          'unit each (sequential, in chains, chain lists and branches, nested '
          'up to three deep); 4 operations (quick), 5 (thorough) in any '
          'order; two models with nested contexts; batches of 1..2; all '
          'weights and inputs')
ASSUMPTIONS = ['reals stand for floats; exp, tanh are uninterpreted functions '
               'with their algebraic laws',
               'chainer.functions.lstm, linear and differentiation by '
               'Chainer\'s backward are the reference']


class Cell(chainer.Link, R.Recurrent):
    """A user's recurrent link: h' = w x + u h."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.w = chainer.Parameter(np.zeros((1, 1), dtype=np.float32))
            self.u = chainer.Parameter(np.zeros((1, 1), dtype=np.float32))
        self.h = None

    def get_state(self):
        return self.h

    def set_state(self, s):
        self.h = s

    def reset_state(self):
        self.h = None

    def new(self, v, h):
        y = F.linear(v, self.w)
        return y if h is None else y + F.linear(h, self.u)

    def __call__(self, v):
        self.h = self.new(v, self.h)
        return self.h


class Net(chainer.Chain, R.RecurrentChainMixin):
    """A user's model: its children one after another."""

    def __init__(self, *links):
        super().__init__()
        self.n = len(links)
        with self.init_scope():
            for i, l in enumerate(links):
                setattr(self, 'c%d' % i, l)

    def __call__(self, v):
        for i in range(self.n):
            v = getattr(self, 'c%d' % i)(v)
        return v


class Plain(chainer.ChainList):
    """The same, a container without a state interface."""

    def __init__(self, *links):
        super().__init__(*links)

    def __call__(self, v):
        for l in self:
            v = l(v)
        return v


def double(v):
    return v * 2


def add(v):
    return v[0] + v[1]


# ('kind', parts...) is a container
SHAPES = {
    'lstm': lambda: ('net', L.LSTM(1, 1)),
    'cell': lambda: Cell(),
    'mixed': lambda: ('seq', L.Linear(1, 1), L.LSTM(1, 1), double),
    'deep': lambda: ('seq', L.LSTM(1, 1), Cell(), L.Linear(1, 1)),
    'nested': lambda: ('net', ('plain', L.Linear(1, 1),
                               ('seq', double, Cell())), Cell()),
    'branch': lambda: ('seq', ('branch', ('plain', Cell()), L.Linear(1, 1)),
                       add, Cell()),
    'order': lambda: ('net', L.Linear(1, 1), ('net', Cell(), L.Linear(1, 1)),
                      ('plain', ('plain', L.LSTM(1, 1)))),
}
KIND = {'net': Net, 'seq': Sequence, 'branch': Branched, 'plain': Plain}


def build(p):
    return KIND[p[0]](*[build(q) for q in p[1:]]) if isinstance(p, tuple) \
        else p


def run(p, v, st, new):
    """The model as a function of input and state; st: one entry per
    recurrent link in order."""
    if isinstance(p, tuple):
        if p[0] == 'branch':
            return tuple(run(q, v, st, new) for q in p[1:])
        for q in p[1:]:
            v = run(q, v, st, new)
        return v
    if isinstance(p, Cell):
        h = p.new(v, st.pop(0))
        new.append(h)
        return h
    if isinstance(p, L.LSTM):
        s = st.pop(0)
        z = p.upward(v)
        if s is not None:
            z = z + p.lateral(s[1])
        c = s[0] if s is not None else chainer.Variable(
            np.zeros((v.shape[0], 1), dtype=np.float32))
        c, h = F.lstm(c, z)
        new.append((c, h))
        return h
    return p(v)


def count(p):
    if isinstance(p, tuple):
        return sum(count(q) for q in p[1:])
    return int(isinstance(p, (Cell, L.LSTM)))


class Model(object):
    """The real model and its reference."""

    def __init__(self, x, shape):
        self.x = x
        self.parts = x.build(SHAPES[shape])
        self.m = x.build(lambda: build(self.parts))
        x.link_params(self.m, -1, 1)
        self.st = [None] * count(self.parts)
        self.k = 0

    def ref(self, v):
        st, new = list(self.st), []
        y = run(self.parts, v, st, new)
        self.st = new
        return y

    def call(self, name, B=1):
        v = self.x.reals(name, (B, 1), -1, 1)
        y, w = self.m(chainer.Variable(v)), self.ref(chainer.Variable(v))
        self.x.eq(y.array, w.array, 'output')
        return y, w

    def cut(self):
        def f(s):
            if s is None:
                return None
            if isinstance(s, tuple):
                return tuple(f(t) for t in s)
            return chainer.Variable(s.array)
        self.st = [f(s) for s in self.st]


OPS = ['call', 'reset', 'save', 'load', 'unchain', 'kept', 'fresh', 'stale']


@harness(quick=[dict(shape=s, n=4) for s in
                ('lstm', 'cell', 'nested', 'branch')] +
         [dict(shape=s, n=3) for s in ('mixed', 'order', 'deep')],
         thorough=[dict(shape=s, n=5) for s in SHAPES])
def history(x, shape, n):
    """Calls, resets, saves, restores and contexts in any order: every output
    is that of the inputs the state stands for."""
    M = Model(x, shape)
    saved = (M.m.get_state(), list(M.st))
    for i in range(n):
        op = 'call' if i == n - 1 else x.choice('op%d' % i, OPS)
        if op == 'call':
            M.call('x%d' % i)
        elif op == 'reset':
            M.m.reset_state()
            M.st = [None] * len(M.st)
        elif op == 'save':
            saved = (M.m.get_state(), list(M.st))
        elif op == 'load':
            M.m.set_state(saved[0])
            M.st = list(saved[1])
        elif op == 'unchain':
            M.m.unchain_backward()
        elif op in ('kept', 'fresh'):
            old = list(M.st)
            with (R.state_kept if op == 'kept' else R.state_reset)(M.m):
                if op == 'fresh':
                    M.st = [None] * len(M.st)
                M.call('x%d' % i)
            M.st = old
        else:
            # the state survives any use in between
            s, old = M.m.get_state(), list(M.st)
            M.call('x%d' % i)
            M.m.reset_state()
            M.m.set_state(s)
            M.st = old


def use(x, models, names, i):
    for m, nm in zip(models, names):
        m.call('%s%d' % (nm, i))


@harness(quick=[dict(a='lstm', b='cell'), dict(a='cell', b='deep')])
def contexts(x, a, b):
    """Nested contexts over two models: each gets back its own state; both
    forms, of functions and of methods."""
    ms = [Model(x, a), Model(x, b)]
    for i in range(2):
        if x.flag('used%d' % i):
            ms[i].call('u%d' % i)
    olds = []

    def enter(depth):
        if depth == 3:
            use(x, ms, 'ab', 0)
            return
        i = depth if depth < 2 else int(x.flag('who'))
        m = ms[i]
        reset = x.flag('reset%d' % depth)
        if depth == 1 and x.flag('method'):
            cm = m.m.state_reset() if reset else m.m.state_kept()
        else:
            cm = R.state_reset(m.m) if reset else R.state_kept(m.m)
        olds.append((m, list(m.st)))
        with cm:
            if reset:
                m.st = [None] * len(m.st)
            if depth == 1:
                use(x, ms, 'cd', depth)
            enter(depth + 1)
        m, m.st = olds.pop()
        if depth == 2:
            use(x, ms, 'ef', depth)

    enter(0)
    use(x, ms, 'gh', 9)


@harness(quick=[dict(shape='lstm', n=2), dict(shape='deep', n=2),
                dict(shape='cell', n=3), dict(shape='nested', n=3),
                dict(shape='branch', n=2)],
         thorough=[dict(shape=s, n=2) for s in SHAPES] +
         [dict(shape='branch', n=3), dict(shape='cell', n=4)])
def cutting(x, shape, n):
    """Gradients flow through time up to the last cut and no further;
    restored states included."""
    M = Model(x, shape)
    loss = wloss = 0
    for i in range(n):
        y, w = M.call('x%d' % i)
        if i:
            loss, wloss = loss + F.sum(y), wloss + F.sum(w)
        if i < n - 1:
            op = x.choice('op%d' % i, ['none', 'cut', 'kept', 'set'])
            if op == 'cut':
                M.m.unchain_backward()
                M.cut()
                loss = wloss = 0  # what is cut is no longer differentiated
            elif op == 'kept':
                with R.state_kept(M.m):
                    old = list(M.st)
                    M.call('k%d' % i)
                M.st = old
            elif op == 'set':
                s = M.m.get_state()
                M.m.reset_state()
                M.m.set_state(s)
    M.m.cleargrads()
    loss.backward()
    got = [(k, p.grad) for k, p in sorted(M.m.namedparams())]
    M.m.cleargrads()
    wloss.backward()
    for (k, g), (_, p) in zip(got, sorted(M.m.namedparams())):
        g = 0 if g is None else g
        w = np.zeros(p.shape) if p.grad is None else p.grad
        x.eq(g + 0 * w, w, 'gradient')


@harness(quick=[dict(shape=s) for s in ('lstm', 'deep', 'branch')])
def batch(x, shape):
    """A batch of sequences, the state restored in between."""
    M = Model(x, shape)
    M.call('a', 2)
    s, old = M.m.get_state(), list(M.st)
    if x.flag('other'):
        M.call('b', 2)
        M.m.set_state(s)
        M.st = old
    M.call('c', 2)


@harness(quick=[dict(shape=s) for s in ('mixed', 'nested', 'branch')])
def updating(x, shape):
    """update_state has the effect of a call; stateful_links are the
    recurrent links."""
    M = Model(x, shape)
    v = x.reals('v', (1, 1), -1, 1)
    M.m.update_state(chainer.Variable(v))
    M.ref(chainer.Variable(v))
    M.call('x')
    x.check(len(list(R.stateful_links(M.m))) ==
            sum(1 for c in M.m.children() if isinstance(
                c, (L.LSTM, R.Recurrent))) + sum(
                len(list(R.stateful_links(c))) for c in M.m.children()
                if not isinstance(c, R.Recurrent)
                and isinstance(c, (chainer.Chain, chainer.ChainList))),
            'links')


@harness()
def stateless(x):
    """Contexts around models without a state do nothing."""
    m = x.build(lambda: L.Linear(1, 1))
    x.link_params(m, -1, 1)
    v = x.reals('v', (1, 1), -1, 1)
    w = m(v).array
    with R.state_kept(m):
        x.eq(m(v).array, w, 'kept')
    with R.state_reset(m):
        x.eq(m(v).array, w, 'reset')


class Oops(Exception):
    pass


@harness(quick=[dict(shape='lstm'), dict(shape='nested')])
def failing(x, shape):
    """A context left by an exception restores the state as well, also with
    contexts of another model around it."""
    M, O = Model(x, shape), Model(x, 'cell')
    M.call('a')
    O.call('b')
    oldO = list(O.st)
    f, method = x.choice('kind', ['kept', 'reset']), x.flag('method')
    with R.state_reset(O.m) if x.flag('outer') else R.state_kept(O.m):
        cm = getattr(M.m, 'state_' + f)() if method else \
            getattr(R, 'state_' + f)(M.m)
        old = list(M.st)
        try:
            with cm:
                if f == 'reset':
                    M.st = [None] * len(M.st)
                if x.flag('early'):
                    raise Oops
                M.call('c')
                raise Oops
        except Oops:
            pass
        M.st = old
        M.call('d')
    O.st = oldO
    O.call('e')
    M.call('f')
