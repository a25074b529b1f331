from symx.api import *
from chainerrl.replay_buffer import batch_experiences
from chainerrl.replay_buffer import batch_recurrent_experiences
from chainerrl.replay_buffer import random_subseq
from chainerrl.replay_buffers import EpisodicReplayBuffer
from chainerrl.links import StatelessRecurrentSequential
import chainer.links as L

BOUNDS = ('batches of 2 n-step windows of 1..3 transitions (episodes of 1..2 '
          'for the recurrent form); arbitrary gamma, rewards, states, '
          'terminal flags')
ASSUMPTIONS = ['within a window only the last transition can be terminal '
               '(what the replay buffers store)',
               'reals stand for floats']


def phi(s):
    return np.asarray(s, dtype=np.float32) * 2


def window(x, tag, n, na):
    w = []
    for t in range(n):
        term = x.bool('%s_term%d' % (tag, t)) if t == n - 1 else False
        w.append(dict(
            state=x.reals('%s_s%d' % (tag, t), 2),
            action=x.real('%s_a%d' % (tag, t)),
            reward=x.real('%s_r%d' % (tag, t)),
            next_state=x.reals('%s_n%d' % (tag, t), 2),
            next_action=x.real('%s_na%d' % (tag, t)) if na else None,
            is_state_terminal=term))
    return w


@harness(quick=[dict(lens=l, na=na) for l in ((1, 1), (2, 1), (3, 2), (1, 3))
                for na in (True, False)],
         thorough=[dict(lens=l, na=na) for l in ((1, 1, 2), (4, 3), (5, 1))
                   for na in (True, False)])
def nstep(x, lens, na):
    """R = sum gamma^i r_i, discount = gamma^n, last next_state."""
    gamma = x.real('gamma', 0, 1)
    ws = [window(x, 'w%d' % i, n, na) for i, n in enumerate(lens)]
    if not na or x.flag('all'):
        partial = False
    else:
        ws[0][-1]['next_action'] = None
        partial = True
    b = batch_experiences(ws, np, phi, gamma)
    for i, w in enumerate(ws):
        x.eq(b['state'][i], 2 * w[0]['state'], 'state is the first one')
        x.eq(b['next_state'][i], 2 * w[-1]['next_state'],
             'next state is the last one')
        x.eq(b['action'][i], w[0]['action'], 'action is the first one')
        R, g = 0, 1
        for t in w:
            R = R + g * t['reward']
            g = g * gamma
        x.eq(b['reward'][i], R, 'n-step discounted reward')
        x.eq(b['discount'][i], g, 'bootstrap discount')
        x.eq(b['is_state_terminal'][i],
             ite(w[-1]['is_state_terminal'], 1.0, 0.0), 'terminal flag')
    if na and not partial:
        for i, w in enumerate(ws):
            x.eq(b['next_action'][i], w[-1]['next_action'], 'next action')
    else:
        x.check('next_action' not in b, 'next_action without a value')
    x.check(b['reward'].dtype == np.float32 and
            b['discount'].dtype == np.float32 and
            b['is_state_terminal'].dtype == np.float32 and
            b['state'].dtype == np.float32, 'float32 batch')


@harness(quick=[dict(lens=l, na=na) for l in ((1, 1), (2, 1), (2, 2))
                for na in (True, False)])
def recurrent(x, lens, na):
    """Episodes flattened in order; recurrent states of the first steps."""
    gamma = x.real('gamma', 0, 1)
    model = x.build(lambda: StatelessRecurrentSequential(
        L.NStepRNNTanh(1, 2, 2, 0)))
    eps = []
    for i, n in enumerate(lens):
        ep = window(x, 'e%d' % i, n, na)
        for t, tr in enumerate(ep):
            for k in ('recurrent_state', 'next_recurrent_state'):
                none = k == 'recurrent_state' and t == 0 and i == 0
                h = None if none else x.reals('%s%d_%d' % (k, i, t), (1, 2))
                tr[k] = None if none else (h,)
        eps.append(ep)
    b = batch_recurrent_experiences(eps, model, np, phi, gamma)
    flat = [t for e in eps for t in e]
    x.eq(b['reward'], [t['reward'] for t in flat], 'rewards in order')
    x.eq(b['action'], [t['action'] for t in flat], 'actions in order')
    x.eq(b['discount'], [gamma for t in flat], 'discount')
    for i, t in enumerate(flat):
        x.eq(b['is_state_terminal'][i], ite(t['is_state_terminal'], 1.0, 0.0),
             'terminal flags in order')
    for i, e in enumerate(eps):
        x.eq(b['state'][i], [2 * t['state'] for t in e], 'states')
        x.eq(b['next_state'][i], [2 * t['next_state'] for t in e],
             'next states')
    if na:
        x.eq(b['next_action'], [t['next_action'] for t in flat],
             'next actions')
    else:
        x.check('next_action' not in b, 'next_action without a value')
    for key in ('recurrent_state', 'next_recurrent_state'):
        got = b[key][0]
        got = got[0] if isinstance(got, tuple) else got
        got = getattr(got, 'array', got)
        x.check(got.shape == (1, len(eps), 2), 'recurrent state shape')
        for i, e in enumerate(eps):
            h = e[0][key]
            want = np.zeros((1, 2), 'f4') if h is None else h[0]
            x.eq(got[:, i], want, 'recurrent state of the first step')


@harness(quick=[dict(n=n, k=k) for n, k in ((1, 1), (2, 1), (3, 2), (2, 3),
                                            (4, 2), (5, 1))],
         thorough=[dict(n=n, k=k) for n in range(1, 7) for k in range(1, 7)])
def subsequences(x, n, k):
    """random_subseq: consecutive steps, every start equally likely."""
    seq = ['t%d' % i for i in range(n)]
    m = len(x.draws)
    got = random_subseq(seq, k)
    ds = x.draws[m:]
    x.check(len(got) == min(n, k), 'length of the piece')
    i = seq.index(got[0])
    x.check(list(got) == seq[i:i + k], 'consecutive steps in order')
    if n > k and len(ds) == 1 and isinstance(ds[0][0], int):
        x.check(ds[0][1] - ds[0][0] + 1 == n - k + 1,
                'one of all the possible starts')
        x.check(i == ds[0][2] - ds[0][0] or i == ds[0][1] - ds[0][2],
                'each start corresponds to one outcome')
    buf = EpisodicReplayBuffer()
    for i in range(n):
        buf.append(state=i, action=0, reward=0, is_state_terminal=i == n - 1)
    m = len(x.draws)
    ep = buf.sample_episodes(1, max_len=k)[0]
    ds = x.draws[m:]
    j = ep[0]['state']
    x.check([t['state'] for t in ep] == list(range(j, j + min(n, k))),
            'piece of the episode')
    if n > k and ds and isinstance(ds[-1][0], int):
        x.check(ds[-1][1] - ds[-1][0] + 1 == n - k + 1,
                'all the possible starts of an episode')
