from symx.api import *
from chainerrl.replay_buffer import ReplayUpdater
from chainerrl.replay_buffers import ReplayBuffer, EpisodicReplayBuffer

BOUNDS = ('<= 5 calls with arbitrary step numbers in 0..12, '
          'replay_start_size 1..3, update_interval 1..4, n_times_update '
          '1..2, batch sizes 1..2, episode lengths <= 2')
ASSUMPTIONS = ['batchsize <= replay_start_size (asserted by the code)']


@harness(quick=[{}])
def transitions(x):
    start = int(x.int('start', 1, 3))
    bs = int(x.int('batch', 1, min(2, start)))
    interval = x.int('interval', 1, 4)
    times = int(x.int('times', 1, 2))
    buf = ReplayBuffer(10)
    calls = []
    up = ReplayUpdater(buf, calls.append, batchsize=bs,
                       episodic_update=False, n_times_update=times,
                       replay_start_size=start, update_interval=interval)
    for t in range(3):
        if x.flag('grow%d' % t):
            buf.append(state=t, action=0, reward=0)
        step = x.int('step%d' % t, 0, 12)
        n0 = len(calls)
        up.update_if_necessary(step)
        due = len(buf) >= start and bool(step % interval == 0)
        x.check(len(calls) - n0 == (times if due else 0),
                'updates exactly when due')
        for c in calls[n0:]:
            x.check(len(c) == bs, 'batch size')
            ids = [e[0]['state'] for e in c]
            x.check(len(set(ids)) == bs, 'distinct transitions')


@harness(quick=[{}])
def episodes(x):
    start = int(x.int('start', 1, 3))
    bs = int(x.int('batch', 1, min(2, start)))
    interval = x.int('interval', 1, 3)
    lim = x.choice('len', [None, 1])
    buf = EpisodicReplayBuffer(10)
    calls = []
    up = ReplayUpdater(buf, calls.append, batchsize=bs, episodic_update=True,
                       n_times_update=1, replay_start_size=start,
                       update_interval=interval, episodic_update_len=lim)
    for t in range(3):
        buf.append(state=t, action=0, reward=0,
                   is_state_terminal=x.flag('term%d' % t))
        step = x.int('step%d' % t, 0, 6)
        n0 = len(calls)
        up.update_if_necessary(step)
        due = len(buf) >= start and buf.n_episodes >= bs and \
            bool(step % interval == 0)
        x.check(len(calls) - n0 == (1 if due else 0),
                'updates exactly when due')
        for c in calls[n0:]:
            x.check(len(c) == bs, 'number of episodes')
            x.check(lim is None or all(len(e) <= lim for e in c),
                    'subsequence length')
