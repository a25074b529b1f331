"""One update of the DQN family: the gradient is the TD gradient."""
from chainerrl import agents as G
from chainerrl.agents.residual_dqn import ResidualDQN
from chainerrl.agents.dpp import DPPGreedy, DPPL

from symx.api import *
from checks._agents import *

BOUNDS = ('minibatch of 2 experiences over 4 states (coinciding states '
          'included) and 2 or 3 actions, each made of 1..2 transitions with '
          'arbitrary rewards and terminal flag, arbitrary Q and target-Q '
          'tables with values in [-2, 2], discount in [0, 1], importance '
          'weights, alpha/eta/grad_scale; both losses and accumulators')
ASSUMPTIONS = ['reals stand for floats; exp/log are uninterpreted functions '
               'with their algebraic laws']

CLS = dict(DQN=G.DQN, SARSA=G.SARSA, DoubleDQN=G.DoubleDQN, AL=G.AL,
           PAL=G.PAL, DoublePAL=G.DoublePAL, DPP=G.DPP,
           DPPL=DPPL, DPPGreedy=DPPGreedy, Residual=ResidualDQN)


def amax(row):
    """(index, value) of the first largest value."""
    k, v = 0, row[0]
    for j in range(1, len(row)):
        if row[j] > v:
            k, v = j, row[j]
    return k, v


def logsum(x, vs):
    e = 0
    for v in vs:
        e = e + np.exp(x.array([v], 'f8'))[0]
    return e


class Buf(RecBuffer):
    def update_errors(self, errors):
        self.log.append(('errors', list(errors)))


def experiences(x, lens, nA, same, weights):
    exps, spec = [], []
    states = [(0, 1), (0, 1)] if same == 'both' else \
        [(0, 1), (1, 0)] if same == 'swap' else [(0, 1), (2, 3)]
    gamma = x.real('gamma', 0, 1)
    for i, n in enumerate(lens):
        s, ns = states[i]
        a = int(x.int('a%d' % i, 0, nA - 1))
        rs = [x.real('r%d_%d' % (i, k), -2, 2) for k in range(n)]
        term = x.flag('term%d' % i)
        ts = []
        for k in range(n):
            ts.append(transition(
                s if k == 0 else 50, a if k == 0 else 0, rs[k],
                ns if k == n - 1 else 50, term and k == n - 1))
        R, d = 0, 1
        for r in rs:
            R = R + d * r
            d = d * gamma
        if weights:
            w = x.real('w%d' % i, 0, 1)
            for t in ts:
                t['weight'] = w
        else:
            w = 1
        exps.append(ts)
        spec.append(dict(s=s, a=a, R=R, d=d, term=term, ns=ns, w=w))
    return exps, spec, gamma


def target(x, name, e, Q, Tq, par, ex, i):
    s, a, ns = e['s'], e['a'], e['ns']
    if name == 'Residual':
        f = amax(Q[ns])[1]
    elif name == 'SARSA':
        f = Tq[ns][int(ex.log[i][3])]
    elif name in ('DoubleDQN', 'DoublePAL'):
        f = Tq[ns][amax(Q[ns])[0]]
    elif name == 'DPP':
        f = expect(x, Tq[ns], par)
    elif name == 'DPPL':
        f = np.log(x.array([logsum(x, [par * q for q in Tq[ns]])],
                           'f8'))[0] / par
    else:
        f = amax(Tq[ns])[1]
    y = e['R'] + (e['d'] * f if not e['term'] else 0)
    if name in ('AL', 'PAL', 'DoublePAL'):
        adv = Tq[s][a] - amax(Tq[s])[1]
        if name != 'AL':
            adv = smax(adv, Tq[ns][a] - amax(Tq[ns])[1])
        y = y + par * adv
    if name == 'DPP':
        y = y + Tq[s][a] - expect(x, Tq[s], par)
    if name == 'DPPL':
        y = y + Tq[s][a] - np.log(x.array([logsum(
            x, [par * q for q in Tq[s]])], 'f8'))[0] / par
    if name == 'DPPGreedy':
        y = y + Tq[s][a] - amax(Tq[s])[1]
    return y


def expect(x, row, beta):
    es = [np.exp(x.array([beta * q], 'f8'))[0] for q in row]
    z, n = 0, 0
    for e, q in zip(es, row):
        z = z + e
        n = n + e * q
    return n / z


def rows(T):
    return [[T[i, j] for j in range(T.shape[1])] for i in range(T.shape[0])]


def setup(x, name, nA, gamma, clip, acc, par, buf, **kw):
    q = x.build(lambda: TableQ(4, nA))
    ex = Explorer(x, lambda s: int(x.int(s, 0, nA - 1)))
    o = GradRec(q)
    extra = {}
    if name in ('AL', 'PAL', 'DoublePAL'):
        extra['alpha'] = par
    if name in ('DPP', 'DPPL'):
        extra['eta'] = par
    if name == 'Residual':
        extra['grad_scale'] = par
    extra.update(kw)
    ag = CLS[name](q, o, buf, gamma, ex, replay_start_size=10,
                   minibatch_size=1, phi=phi, clip_delta=clip,
                   batch_accumulator=acc, logger=LOG, **extra)
    x.link_params(q, -2, 2, 'q_')
    if name != 'Residual':
        x.link_params(ag.target_model, -2, 2, 't_')
    return ag, q, o, ex


def _update(x, name, lens, same='no', clip=False, acc='mean', nA=2,
            weights=False):
    exps, spec, gamma = experiences(x, lens, nA, same, weights)
    par = x.real('par', 0, 1) if name not in ('DPP', 'DPPL') else \
        x.choice('eta', [1, 2])
    buf = Buf()
    ag, q, o, ex = setup(x, name, nA, gamma, clip, acc, par, buf)
    Q = rows(q.T.array)
    Tq = rows(ag.target_model.T.array) if name != 'Residual' else None
    errors = []
    soft = name in ('DPP', 'DPPL')
    ag.update(exps, errors if not weights and not soft else None)
    x.check(len(o.log) == 1, 'one optimizer step')
    loss, grads = o.log[0]
    g = grads['/T']
    B = len(lens)
    want = [[0] * nA for _ in range(4)]
    terrs = []
    if name == 'SARSA' and len(ex.log) == B:
        for e, (t, greedy, av, a) in zip(spec, ex.log):
            x.eq(Tq[e['ns']][int(greedy)], amax(Tq[e['ns']])[1],
                 'the explorer is offered the greedy next action')
            if av is not None:
                x.eq(av.evaluate_actions(np.asarray([nA - 1])).array[0],
                     Tq[e['ns']][nA - 1],
                     'the explorer is offered the next action values')
    for i, e in enumerate(spec):
        y = target(x, name, e, Q, Tq, par, ex, i)
        d = Q[e['s']][e['a']] - y
        terrs.append(smax(d, -d))
        if clip:
            d = smax(-1, smin(1, d))
        d = d * e['w'] / (B if acc == 'mean' else 1)
        want[e['s']][e['a']] = want[e['s']][e['a']] + d
        if name == 'Residual' and not e['term']:
            j = amax(Q[e['ns']])[0]
            want[e['ns']][j] = want[e['ns']][j] - d * e['d'] * par
    for s in range(4):
        for a in range(nA):
            x.eq(g[s, a], want[s][a], 'gradient of the TD loss')
    if name != 'Residual':
        x.check(ag.target_model.T.grad is None or not any(
            E.is_sym(v) or v == v and v != 0
            for v in np.asarray(ag.target_model.T.grad).ravel()),
            'no gradient reaches the target network')
        x.eq(ag.target_model.T.array, x.array(
            [v for r in Tq for v in r]).reshape(4, nA),
            'update leaves the target network alone')
    if soft:
        return
    got = errors if not weights else buf.log[-1][1]
    x.check(len(got) == B, 'one error per experience')
    for u, v in zip(got, terrs):
        x.eq(u, v, 'reported TD error')


PLAIN = [dict(name=n, lens=l, same=s)
         for n in ('DQN', 'DoubleDQN', 'SARSA', 'AL', 'PAL', 'DoublePAL',
                   'DPPGreedy', 'Residual')
         for l, s in (((1, 2), 'no'), ((1, 1), 'swap'))]


@harness(quick=PLAIN + [dict(name='DQN', lens=(2, 1), same='both', nA=3)],
         thorough=PLAIN + [dict(name=n, lens=(2, 1), same='both', nA=3)
                           for n in CLS if n not in ('DPP', 'DPPL')] +
         [dict(name=n, lens=(3, 2), same='no') for n in ('DQN', 'AL',
                                                         'DoubleDQN')])
def gradient(x, **kw):
    """Plain squared-error loss: every variant's target."""
    _update(x, **kw)


@harness(quick=[dict(name=n, lens=(1, 1), same='swap')
                for n in ('DPP', 'DPPL')],
         thorough=[dict(name=n, lens=(1, 1), same=s)
                   for n in ('DPP', 'DPPL') for s in ('no', 'swap')])
def softened(x, **kw):
    """DPP and DPPL (softmax / log-sum-exp operators)."""
    _update(x, **kw)


@harness(quick=[dict(name='DQN', lens=(1, 1), clip=c, acc=a, weights=w)
                for c in (True, False) for a in ('mean', 'sum')
                for w in (True, False) if c or w or a == 'sum'])
def losses(x, **kw):
    """Huber loss, accumulators, importance weights and TD errors."""
    _update(x, **kw)
