import collections
import os
import pickle
import shutil
import tempfile

from symx.api import *
from chainerrl.replay_buffers import (
    ReplayBuffer, PrioritizedReplayBuffer, EpisodicReplayBuffer,
    PrioritizedEpisodicReplayBuffer)

BOUNDS = ('histories of <= 4 appends with arbitrary terminal flags (and one '
          'sample/priority update) before save, load into a fresh buffer, '
          'then 2 more appends to both; capacity 2..3 or unbounded; '
          'num_steps 1..2')
ASSUMPTIONS = ['saving happens between episodes or mid-episode; only the '
               'stored memory (not the unfinished episode) is persisted',
               'files live in a scratch directory made by the harness']

CLS = {'plain': ReplayBuffer, 'prio': PrioritizedReplayBuffer,
       'ep': EpisodicReplayBuffer, 'prioep': PrioritizedEpisodicReplayBuffer}


def make(cls, cap, n):
    if cls in ('ep', 'prioep'):
        return CLS[cls](capacity=cap)
    return CLS[cls](capacity=cap, num_steps=n)


def items(m):
    return list(m.data) if hasattr(m, 'data') else [
        m[i] for i in range(len(m))]


def same_tr(x, a, b, msg):
    if isinstance(b, (list, tuple)):
        x.check(len(a) == len(b), msg + ': length')
        for u, v in zip(a, b):
            same_tr(x, u, v, msg)
        return
    x.check(set(a) == set(b), msg + ': fields')
    for k in b:
        if b[k] is None:
            x.check(a[k] is None, msg + ': field ' + k)
        else:
            x.eq(a[k], b[k], msg + ': field ' + k)


def same(x, a, b, cls, msg):
    x.check(len(a) == len(b), msg + ': length')
    ia, ib = items(a.memory), items(b.memory)
    x.check(len(ia) == len(ib), msg + ': stored items')
    for u, v in zip(ia, ib):
        same_tr(x, u, v, msg)
    if cls in ('ep', 'prioep'):
        x.check(a.n_episodes == b.n_episodes, msg + ': episodes')
        for u, v in zip(items(a.episodic_memory), items(b.episodic_memory)):
            same_tr(x, u, v, msg + ' (episode)')
    pa = a.memory if cls == 'prio' else \
        a.episodic_memory if cls == 'prioep' else None
    if pa is not None:
        pb = b.memory if cls == 'prio' else b.episodic_memory
        x.eq(pa.priority_sums.sum(), pb.priority_sums.sum(),
             msg + ': total priority')
        if pb.priority_mins.length:
            x.eq(pa.priority_mins.min(), pb.priority_mins.min(),
                 msg + ': least priority')
        x.eq(pa.max_priority, pb.max_priority, msg + ': default priority')


@harness(quick=[dict(cls='plain', n=1), dict(cls='plain', n=2),
                dict(cls='prio', n=1), dict(cls='prio', n=2),
                dict(cls='ep', n=1), dict(cls='prioep', n=1)])
def roundtrip(x, cls, n):
    cap = x.choice('cap', [None, 2, 3] if cls != 'prioep' else [None])
    a = make(cls, cap, n)

    def put(bufs, t, term):
        tr = dict(state=x.real('s%d' % t), action=x.int('a%d' % t, 0, 2),
                  reward=x.real('r%d' % t), next_state=x.real('ns%d' % t),
                  next_action=None, is_state_terminal=term)
        for b in bufs:
            b.append(**dict(tr))
    for t in range(4):
        put([a], t, x.flag('term%d' % t) if cls != 'plain' or t < 3 else True)
    if cls == 'prio' and len(a) and x.flag('sampled'):
        a.sample(1)
        a.update_errors([x.real('err', 0, 2)])
    if cls == 'prioep' and a.n_episodes and x.flag('sampled'):
        a.sample_episodes(1)
        e = x.real('err', 0, 2)
        a.update_errors([e])
    a.stop_current_episode()
    d = tempfile.mkdtemp(prefix='symx_c08_')
    try:
        f = os.path.join(d, 'rb.pkl')
        a.save(f)
        b = make(cls, cap, n)
        b.load(f)
        os.remove(f)
    finally:
        shutil.rmtree(d)
    same(x, b, a, cls, 'right after load')
    x.check(b.memory is not a.memory, 'loaded buffer is independent')
    # and it behaves the same from here on
    put([a, b], 5, False)
    put([a, b], 6, True)
    same(x, b, a, cls, 'after further appends')


@harness(quick=[dict(cls=c) for c in CLS])
def independent(x, cls):
    """A loaded buffer shares nothing with the one that was saved."""
    a = make(cls, None, 1)
    for t in range(2):
        a.append(state=x.real('s%d' % t), action=t, reward=0,
                 is_state_terminal=t == 1)
    d = tempfile.mkdtemp(prefix='symx_c08_')
    try:
        f = os.path.join(d, 'rb.pkl')
        a.save(f)
        b = make(cls, None, 1)
        b.append(state=-1, action=-1, reward=0, is_state_terminal=True)
        b.load(f)
    finally:
        shutil.rmtree(d)
    n = len(a)
    a.append(state=7, action=2, reward=0, is_state_terminal=True)
    x.check(len(b) == n, 'load replaces the content')
    same_tr(x, items(b.memory), items(a.memory)[:n], 'content')


@harness(quick=[dict(cls=c) for c in ('plain', 'ep')])
def old_format(x, cls):
    """Files of v0.2 (a deque of transitions) can be loaded and used."""
    n = int(x.int('n', 1, 3))
    cap = x.choice('cap', [None, 3, 5])
    trs = []
    for t in range(n):
        trs.append(dict(
            state=x.real('s%d' % t), action=x.int('a%d' % t, 0, 2),
            reward=x.real('r%d' % t), next_state=x.real('ns%d' % t),
            next_action=None,
            is_state_terminal=x.flag('term%d' % t) if cls == 'ep' else
            t == n - 1))
    old = [[t] for t in trs]
    a = make(cls, cap, 1)
    d = tempfile.mkdtemp(prefix='symx_c08_')
    try:
        f = os.path.join(d, 'rb.pkl')
        with open(f, 'wb') as fh:
            pickle.dump(collections.deque(
                trs, maxlen=cap if cls == 'plain' else None), fh)
        a.load(f)
    finally:
        shutil.rmtree(d)
    b = make(cls, cap, 1)
    if cls == 'plain':
        same_tr(x, items(a.memory), old, 'stored transitions')
        for t in trs:
            b.append(**dict(t))
        b.stop_current_episode()
    else:
        same_tr(x, items(a.memory), old, 'stored transitions')
        eps, ep = [], []
        for t in trs:
            ep.append(t)
            if t['is_state_terminal']:
                eps.append(ep)
                ep = []
        got = items(a.episodic_memory)
        same_tr(x, got[:len(eps)], eps, 'complete episodes')
        x.check(a.n_episodes == len(got), 'number of episodes')
        b = a
    for t in range(5, 9):
        for buf in ([a] if b is a else [a, b]):
            buf.append(state=t, action=0, reward=0, next_state=t + 1,
                       next_action=None, is_state_terminal=True)
    if b is not a:
        same(x, a, b, cls, 'after further appends')
    else:
        x.check([t[0]['state'] for t in items(a.memory)][-2:] == [7, 8],
                'newest transitions')
        if cap is not None:
            x.check(len(a) <= cap, 'capacity')
