from symx.api import *
from chainerrl.replay_buffers import PrioritizedReplayBuffer

BOUNDS = ('buffers of <= 4 transitions, samples of <= 2, <= 3 rounds; '
          'arbitrary errors, error bounds, eps and beta; alpha in {0, 1/2, '
          '1, 2} or arbitrary (power as an uninterpreted monotone function)')
ASSUMPTIONS = ['x ** y for symbolic y is an uninterpreted function with the '
               'monotonicity and sign facts of the real power',
               'reals stand for floats']


def total(vs):
    s = 0
    for v in vs:
        s = s + v
    return s


def buffer(x, n, **kw):
    buf = PrioritizedReplayBuffer(capacity=None, **kw)
    for i in range(n):
        buf.append(state=i, action=0, reward=0.0)
    return buf


@harness(quick=[dict(alpha=a, lo=lo, hi=hi) for a in (0, 1, 2)
                for lo, hi in ((True, True), (False, False), (True, False),
                               (False, True))] + [
                                   dict(alpha=None, lo=True, hi=True)])
def priorities(x, alpha, lo, hi):
    """update_errors: priority = (clip(|error|) + eps) ** alpha."""
    a = x.real('alpha', 0, 2) if alpha is None else alpha
    emin = x.real('emin', 0, 1) if lo else None
    emax = x.real('emax', 1, 2) if hi else None
    eps = x.real('eps', 0, 1)
    x.assume(eps > 0)
    buf = buffer(x, 2, alpha=a, beta0=0.5, eps=eps, error_min=emin,
                 error_max=emax)
    s = buf.sample(2)
    ids = [t[0]['state'] for t in s]
    es = [x.real('e%d' % i, 0, 4) for i in range(2)]
    buf.update_errors(es)
    want = {}
    for i, e in zip(ids, es):
        if lo:
            e = smax(e, emin)
        if hi:
            e = smin(e, emax)
        want[i] = E.power(e + eps, a)
    x.eq(buf.memory.priority_sums.sum(), want[0] + want[1],
         'total priority after the update')
    mn = buf.memory.priority_mins.min()
    x.eq(mn, smin(want[0], want[1]), 'smallest priority after the update')
    x.check(mn > 0, 'priorities stay positive')
    buf.memory.popleft()
    x.eq(buf.memory.priority_sums.sum(), want[1],
         'each error belongs to its own transition')


@harness(quick=[dict(norm=nm, beta=b) for nm in (True, 'batch', 'memory',
                                                 False)
                for b in (1, None)] + [
                    dict(norm=nm, beta='anneal')
                    for nm in (True, 'memory', False)])
def weights(x, norm, beta):
    """weight_i = (P(i)/min P) ** -beta, max 1 (or (N P(i)) ** -beta)."""
    n, k = 3, 2
    anneal = beta == 'anneal'
    b0 = x.real('beta0', 0, 1) if beta is None else 0 if anneal else beta
    buf = buffer(x, n, alpha=1, beta0=b0, betasteps=2 if anneal else None,
                 eps=0.5,
                 normalize_by_max=norm, error_min=None, error_max=None)
    for t in buf.sample(n):
        x.eq(t[0]['weight'], 1, 'weights of equal priorities')
    if anneal:
        b0 = 0.5        # the second of two annealing steps from 0 to 1
    es = [x.real('e%d' % i, 0, 3) for i in range(n)]
    # restore order: priorities by transition
    order = [i for i in buf.memory.sampled_indices]
    buf.update_errors([es[i] for i in order])
    ps = [e + 0.5 for e in es]
    s = buf.sample(k)
    tot = total(ps)
    ids = [t[0]['state'] for t in s]
    sel = [ps[i] / tot for i in ids]
    if norm in (True, 'batch'):
        ref = smin(sel[0], sel[1])
    elif norm == 'memory':
        ref = smin(smin(ps[0], ps[1]), ps[2]) / tot
    for t, p in zip(s, sel):
        w = t[0]['weight']
        if norm is False:
            want = E.power(n * p, -b0)
        else:
            want = E.power(p / ref, -b0)
        x.eq(w, want, 'importance weight')
        if norm is not False:
            x.le(w, 1, 'weights are at most 1')
            x.check(w > 0, 'weights are positive')
    if norm in (True, 'batch'):
        x.eq(smax(s[0][0]['weight'], s[1][0]['weight']), 1,
             'largest weight of a batch is 1')


@harness(quick=[{}])
def annealing(x):
    """beta goes from beta0 to 1 in betasteps samples and stays there."""
    b0 = x.real('beta0', 0, 1)
    steps = int(x.int('steps', 1, 3))
    buf = buffer(x, 2, alpha=1, beta0=b0, betasteps=steps)
    x.eq(buf.beta, b0, 'initial beta')
    for t in range(4):
        buf.sample(1)
        buf.update_errors([0.5])
        want = smin(1, b0 + (1 - b0) * (t + 1) / steps)
        x.eq(buf.beta, want, 'beta after a sample')
        x.le(buf.beta, 1, 'beta is at most 1')


@harness(quick=[{}])
def nstep_weights(x):
    """With n-step transitions each sampled window carries its own weight."""
    buf = PrioritizedReplayBuffer(capacity=None, alpha=1, beta0=1,
                                  betasteps=None, eps=1, error_min=None,
                                  error_max=None, normalize_by_max='memory',
                                  num_steps=2)
    for i in range(4):
        buf.append(state=i, action=0, reward=0.0, is_state_terminal=i == 3)
    s = buf.sample(4)
    order = [t[0]['state'] for t in s]
    es = [x.real('e%d' % i, 0, 3) for i in range(4)]
    buf.update_errors([es[i] for i in order])
    ps = [e + 1 for e in es]
    s = buf.sample(2)
    mn = smin(smin(ps[0], ps[1]), smin(ps[2], ps[3]))
    for t in s:
        x.check(len(t) == (1 if t[0]['state'] == 3 else 2), 'window')
        x.eq(t[0]['weight'] * ps[t[0]['state']], mn, 'weight of a window')
