from symx.api import *
from chainerrl.misc.prioritized import PrioritizedBuffer
from chainerrl.replay_buffers import PrioritizedReplayBuffer
from chainerrl.replay_buffers import PrioritizedEpisodicReplayBuffer

BOUNDS = ('buffers of <= 4 items with arbitrary positive priorities, <= 2 '
          'rounds of sample(1..3) / update, capacity 3, <= 5 appends, '
          'arbitrary random draws, uniform_ratio 0 or arbitrary in (0, 1)')
ASSUMPTIONS = ['a random draw from [lo, hi) may return any value in it',
               'reals stand for floats']


def total(vs):
    s = 0
    for v in vs:
        s = s + v
    return s


def prios(x, n, tag='p'):
    ps = []
    for i in range(n):
        p = x.real(tag + str(i), 0, 4)
        x.assume(p > 0)
        ps.append(p)
    return ps


@harness(quick=[dict(n=n, wait=w, rounds=2) for w in (True, False)
                for n in (1, 2, 3)],
         thorough=[dict(n=n, wait=w, rounds=2) for w in (True, False)
                   for n in (1, 2, 3, 4)], time_limit=200)
def rounds(x, n, wait, rounds):
    """Distinct items, reported probabilities, updates, max priority."""
    buf = PrioritizedBuffer(capacity=None, wait_priority_after_sampling=wait)
    ps = prios(x, n)
    for i, p in enumerate(ps):
        buf.append('item%d' % i, priority=p)
    maxp = 1.0
    for r in range(rounds):
        k = int(x.int('k%d' % r, 1, 2))
        if k > n:
            raise PathAbort()
        got, probs, min_prob = buf.sample(k)
        x.check(len(got) == k and len(set(got)) == k, 'distinct items')
        tot = total(ps)
        mn = ps[0]
        for p in ps[1:]:
            mn = smin(mn, p)
        x.eq(min_prob * tot, mn, 'smallest probability')
        idx = [int(g[4:]) for g in got]
        for i, pr in zip(idx, probs):
            x.eq(pr * tot, ps[i], 'probability is priority / total')
        new = prios(x, k, 'q%d_' % r)
        buf.set_last_priority(new)
        for i, q in zip(idx, new):
            ps[i] = q
            maxp = smax(maxp, q)
    # everything can be drawn again, with the updated priorities
    x.eq(buf.priority_sums.sum(), total(ps), 'priorities after updates')
    # default priority of a new item is the largest priority ever set
    buf.append('new')
    x.eq(buf.priority_sums.sum() - total(ps), maxp,
         'default priority is the largest so far')


@harness(quick=[dict(wait=w, n=3) for w in (True, False)])
def mixture(x, wait, n):
    """uniform_ratio: probabilities are the stated mixture."""
    buf = PrioritizedBuffer(wait_priority_after_sampling=wait)
    ps = prios(x, n)
    for i, p in enumerate(ps):
        buf.append(i, priority=p)
    ratio = x.choice('ratio', [0.25, 0.5, 1])
    k = int(x.int('k', 1, 2))
    got, probs, min_prob = buf.sample(k, uniform_ratio=ratio)
    x.check(len(got) == k, 'number of samples')
    if wait:
        x.check(len(set(got)) == k, 'distinct items')
    tot = total(ps)
    mn = ps[0]
    for p in ps[1:]:
        mn = smin(mn, p)
    for i, pr in zip(got, probs):
        x.eq((pr - ratio / n) * tot, (1 - ratio) * ps[i],
             'probability is the mixture')
    x.eq((min_prob - ratio / n) * tot, (1 - ratio) * mn,
         'smallest probability under the mixture')
    if wait:
        new = prios(x, k, 'q')
        buf.set_last_priority(new)
        for i, q in zip(got, new):
            ps[i] = q
    x.eq(buf.priority_sums.sum(), total(ps), 'priorities afterwards')


@harness(quick=[dict(T=5)], thorough=[dict(T=7)])
def eviction(x, T):
    """Bounded buffer: oldest out first, priorities follow their items."""
    cap = int(x.int('cap', 1, 3))
    buf = PrioritizedBuffer(capacity=cap)
    m = []
    ps = prios(x, T)
    for t in range(T):
        buf.append(t, priority=ps[t])
        m.append(t)
        m = m[-cap:]
        x.check(len(buf) == len(m), 'length')
        x.eq(buf.priority_sums.sum(), total([ps[i] for i in m]),
             'total priority of the stored items')
        if t >= 1 and x.flag('sample%d' % t):
            got, probs, _ = buf.sample(1)
            x.check(got[0] in m, 'sampled item is stored')
            x.eq(probs[0] * total([ps[i] for i in m]), ps[got[0]],
                 'probability of the sampled item')
            q = prios(x, 1, 'q%d_' % t)[0]
            buf.set_last_priority([q])
            ps[got[0]] = q


@harness(quick=[{}])
def protocol(x):
    """With wait_priority_after_sampling, sample and update alternate."""
    buf = PrioritizedReplayBuffer(capacity=4)
    for i in range(3):
        buf.append(state=i, action=0, reward=0)
    waiting = False
    for t in range(3):
        if x.flag('update%d' % t):
            if waiting:
                buf.update_errors([x.real('e%d' % t, 0, 1)])
                waiting = False
            else:
                x.raises(AssertionError, lambda: buf.update_errors([0.5]),
                         'update without a sample')
        else:
            if waiting:
                x.raises(AssertionError, lambda: buf.sample(1),
                         'sample before the priorities are updated')
            else:
                s = buf.sample(1)
                x.check(len(s) == 1 and s[0][0]['state'] in (0, 1, 2),
                        'sample')
                waiting = True


@harness(quick=[dict(n=n) for n in (2, 3)], thorough=[dict(n=n) for n in
                                                      (2, 3, 4)])
def law(x, n):
    """A single uniform draw u*total selects the item whose interval of
    length p_i contains it: selection probability is p_i / total."""
    buf = PrioritizedBuffer()
    ps = prios(x, n)
    for i, p in enumerate(ps):
        buf.append(i, priority=p)
    x.draws[:] = []
    got, probs, _ = buf.sample(1)
    i = got[0]
    if len(x.draws) == 1:
        lo, hi, u = x.draws[0]
        if (lo, hi) == (None, None) or not x.symbolic:
            x.le(total(ps[:i]), u, 'draw inside the interval of the item')
            x.le(u, total(ps[:i + 1]), 'draw inside the interval')


@harness(quick=[{}])
def episodic(x):
    """Episode-level priorities of PrioritizedEpisodicReplayBuffer."""
    buf = PrioritizedEpisodicReplayBuffer(
        default_priority_func=lambda ep: total([s['reward'] for s in ep]),
        error_min=None, error_max=None, alpha=1, eps=0, beta0=1,
        betasteps=None, normalize_by_max='memory')
    ps = []
    for e, n in enumerate((1, 2, 1)):
        tot = 0
        for t in range(n):
            r = x.real('r%d_%d' % (e, t), 0, 4)
            x.assume(r > 0)
            tot = tot + r
            buf.append(state=e, action=t, reward=r,
                       is_state_terminal=t == n - 1)
        ps.append(tot)
    x.eq(buf.episodic_memory.priority_sums.sum(), total(ps),
         'default priorities')
    eps, w = buf.sample_episodes(2)
    ids = [ep[0]['state'] for ep in eps]
    x.check(len(set(ids)) == 2, 'distinct episodes')
    mn = smin(smin(ps[0], ps[1]), ps[2])
    for i, wi in zip(ids, w):
        x.eq(wi * ps[i], mn, 'importance weight')
    es = prios(x, 2, 'e')
    buf.update_errors(es)
    for i, e in zip(ids, es):
        ps[i] = e
    x.eq(buf.episodic_memory.priority_sums.sum(), total(ps),
         'updated priorities')
