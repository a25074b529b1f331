"""Stateless recurrent models: batching, masking, splitting, joining."""
import chainer.links as L
from chainerrl.links import StatelessRecurrentBranched as Branched
from chainerrl.links import StatelessRecurrentSequential as Seq

from symx.api import *
from checks._agents import *

BOUNDS = ('models of one to three recurrent layers (ReLU and tanh RNN, LSTM, '
          'GRU; sequential, branched, nested) with one unit each; batches of '
          '1..3 sequences of 1..3 steps; all weights, inputs and states')
ASSUMPTIONS = ['reals stand for floats; exp, tanh are uninterpreted functions '
               'with their algebraic laws',
               'Chainer\'s recurrent links fed one sequence at a time are '
               'the reference']

RNN = {'relu': L.NStepRNNReLU, 'tanh': L.NStepRNNTanh, 'lstm': L.NStepLSTM,
       'gru': L.NStepGRU}


def double(v):
    return v * 2


class One(object):
    """Reference: the links of a model applied to one sequence at a time.
    parts: a list of layers; a layer is a function, a link, a recurrent link,
    a list (sequential) or a tuple (branched)."""

    def __init__(self, parts):
        self.parts = parts

    def link(self):
        return _link(self.parts)

    def run(self, seq, state):
        """(outputs, new state) for one sequence from one state; a state is a
        flat list, None for the initial one."""
        if state is None:
            state = [None] * _count(self.parts)
        st, new = list(state), []
        y = _run(self.parts, chainer.Variable(seq), st, new)
        return y, new


def _rec(p):
    return isinstance(p, tuple(RNN.values()))


def _count(p):
    if isinstance(p, (list, tuple)):
        return sum(_count(q) for q in p)
    return int(_rec(p))


def _link(p):
    if isinstance(p, list):
        return Seq(*[_link(q) for q in p])
    if isinstance(p, tuple):
        return Branched(*[_link(q) for q in p])
    return p


def _run(p, v, st, new):
    if isinstance(p, list):
        for q in p:
            v = _run(q, v, st, new)
        return v
    if isinstance(p, tuple):
        return tuple(_run(q, v, st, new) for q in p)
    if _rec(p):
        s = st.pop(0)
        if isinstance(p, L.NStepLSTM):
            h, c = (None, None) if s is None else s
            h, c, ys = p(h, c, [v])
            new.append((h, c))
        else:
            h, ys = p(s, [v])
            new.append(h)
        return ys[0]
    return p(v)


def model(x, kind, shape):
    R = RNN[kind]
    parts = {
        'plain': lambda: [R(1, 1, 1, 0)],
        'mixed': lambda: [L.Linear(1, 1), R(1, 1, 1, 0), double,
                          L.Linear(1, 1)],
        'deep': lambda: [R(1, 1, 1, 0), L.Linear(1, 1), R(1, 1, 1, 0)],
        'layers': lambda: [R(2, 1, 1, 0)],
        'branched': lambda: ([L.Linear(1, 1), R(1, 1, 1, 0)],
                             [R(1, 1, 1, 0), double]),
        'nested': lambda: [L.Linear(1, 1), [R(1, 1, 1, 0), double],
                           ([R(1, 1, 1, 0)], R(1, 1, 1, 0))],
    }[shape]
    one = One(x.build(parts))
    m = x.build(one.link)
    x.link_params(m, -1, 1)
    return one, m


def flat(y):
    return list(y) if isinstance(y, tuple) else [y]


def arr(v):
    return v.array if isinstance(v, chainer.Variable) else v


def leaves(st):
    """All arrays of a recurrent state."""
    if st is None:
        return []
    if isinstance(st, (tuple, list)):
        return [a for s in st for a in leaves(s)]
    return [arr(st)]


def same_state(x, got, wants, msg):
    """got: batched state; wants: one state per sequence."""
    ws = [leaves(w) for w in wants]
    gs = leaves(got)
    x.check(all(len(w) == len(gs) for w in ws), msg + ' (number)')
    for j, g in enumerate(gs):
        x.check(g.shape[1] == len(ws), msg + ' (batch size)')
        for b, w in enumerate(ws):
            x.eq(g[:, b], w[j][:, 0], msg)


def seqs(x, name, lens):
    return [x.reals('%s%d' % (name, i), (n, 1), -1, 1)
            for i, n in enumerate(lens)]


def outputs(y, mode, lens):
    """Per sequence and branch: output array."""
    if mode == 'split':
        return [[arr(t) for t in flat(s)] for s in y]
    r, k = [], 0
    for n in lens:
        r.append([arr(t)[k:k + n] for t in flat(y)])
        k += n
    return r


CASES = [('relu', 'plain', (1, 2)), ('relu', 'mixed', (2, 1)),
         ('tanh', 'mixed', (1, 2)), ('lstm', 'mixed', (2, 1)),
         ('gru', 'mixed', (1, 2)), ('relu', 'deep', (1, 2)),
         ('lstm', 'deep', (1, 1)), ('tanh', 'layers', (2, 1)),
         ('tanh', 'branched', (1, 2)), ('lstm', 'branched', (1, 1)),
         ('tanh', 'nested', (1, 2)), ('lstm', 'nested', (2,)),
         ('tanh', 'mixed', (1, 2, 1))]


@harness(quick=[dict(kind=k, shape=s, lens=l, mode=m) for k, s, l in CASES
                for m in ('split', 'concat')],
         thorough=[dict(kind=k, shape=s, lens=(2, 3, 1), mode=m)
                   for k in ('tanh', 'lstm') for s in
                   ('mixed', 'deep', 'branched', 'nested', 'layers')
                   for m in ('split', 'concat')])
def batched(x, kind, shape, lens, mode):
    """Sequences processed together come out as processed alone, twice in a
    row (the state is carried over)."""
    one, m = model(x, kind, shape)
    st, alone = None, [None] * len(lens)
    for rnd, ls in enumerate((lens, [1] * len(lens))):
        xs = seqs(x, 'x%d_' % rnd, ls)
        if rnd:
            y, st = m(np.concatenate(xs), st)
            got = outputs(y, 'concat', ls)
        else:
            y, st = m.n_step_forward(xs, st, output_mode=mode)
            got = outputs(y, mode, ls)
        for i, v in enumerate(xs):
            w, alone[i] = one.run(v, alone[i])
            w = flat(w)
            x.check(len(got[i]) == len(w), 'branches')
            for g, t in zip(got[i], w):
                x.eq(g, t.array, 'output')
        same_state(x, st, alone, 'state')


def started(x, one, m, B):
    xs = seqs(x, 'h', [1] * B)
    _, st = m(np.concatenate(xs), None)
    return st, [one.run(v, None)[1] for v in xs]


KS = [('tanh', 'deep'), ('lstm', 'mixed'), ('gru', 'layers'),
      ('relu', 'plain'), ('tanh', 'branched'), ('lstm', 'nested'),
      ('lstm', 'layers')]


@harness(quick=[dict(kind=k, shape=s) for k, s in KS])
def masked(x, kind, shape):
    """Masking resets the given sequences only."""
    one, m = model(x, kind, shape)
    B = 3
    st, alone = started(x, one, m, B)
    which = [x.flag('mask%d' % i) for i in range(B)]
    idx = [i for i in range(B) if which[i]]
    if len(idx) == 1 and x.flag('scalar'):
        idx = idx[0]
    st2 = m.mask_recurrent_state_at(st, idx)
    same_state(x, st, alone, 'the masked state is another object')
    xs = seqs(x, 'x', [1] * B)
    y, st2 = m(np.concatenate(xs), st2)
    got = outputs(y, 'concat', [1] * B)
    for i in range(B):
        w, _ = one.run(xs[i], None if which[i] else alone[i])
        for g, t in zip(got[i], flat(w)):
            x.eq(g, t.array, 'reset' if which[i] else 'unaffected')
    x.check(m.mask_recurrent_state_at(None, [0]) is None, 'initial state')


@harness(quick=[dict(kind=k, shape=s) for k, s in KS])
def taken(x, kind, shape):
    """States taken out and joined in another order (with initial ones)
    behave as before."""
    one, m = model(x, kind, shape)
    st, alone = started(x, one, m, 2)
    unwrap = x.flag('unwrap')
    parts, want = [], []
    for j in range(2):
        i = x.choice('pick%d' % j, [0, 1, None, 'fresh'])
        if i is None:
            parts.append(None)
            want.append(None)
        elif i == 'fresh':
            parts.append(m.get_recurrent_state_at(None, 0, unwrap))
            want.append(None)
        else:
            parts.append(m.get_recurrent_state_at(st, i, unwrap))
            want.append(alone[i])
            if unwrap:
                x.check(not any(isinstance(v, chainer.Variable)
                                for v in vars_of(parts[-1])), 'unwrapped')
    st2 = m.concatenate_recurrent_states(parts)
    xs = seqs(x, 'x', [1, 1])
    y, st2 = m(np.concatenate(xs), st2)
    got = outputs(y, 'concat', [1, 1])
    for i in range(2):
        w, _ = one.run(xs[i], want[i])
        for g, t in zip(got[i], flat(w)):
            x.eq(g, t.array, 'output')
    same_state(x, st, alone, 'the original state is unaffected')


def vars_of(st):
    if isinstance(st, (tuple, list)):
        return [v for s in st for v in vars_of(s)]
    return [st]


@harness(quick=[dict(kind='tanh', shape='mixed'),
                dict(kind='lstm', shape='deep')])
def several(x, kind, shape):
    """Taking several states at once."""
    one, m = model(x, kind, shape)
    st, alone = started(x, one, m, 3)
    idx = x.choice('idx', [[0, 2], [2, 1], [1]])
    part = m.get_recurrent_state_at(st, np.asarray(idx), True)
    same_state(x, part, [alone[i] for i in idx], 'state')


class Sum(chainer.Link):
    def __call__(self, a, b):
        return a + 2 * b


@harness(quick=[dict(lens=l) for l in ((1, 2), (2, 1), (3, 1), (2, 2))])
def pairs(x, lens):
    """Sequences of tuples."""
    rec, lin = x.build(lambda: L.NStepRNNTanh(1, 1, 1, 0)), Sum()
    m = x.build(lambda: Seq(lin, rec))
    x.link_params(m, -1, 1)
    a, b = seqs(x, 'a', lens), seqs(x, 'b', lens)
    ys, st = m.n_step_forward(list(zip(a, b)), None, output_mode='split')
    for i in range(len(lens)):
        _, w = rec(None, [chainer.Variable(a[i] + 2 * b[i])])
        x.eq(arr(ys[i]), w[0].array, 'output')
