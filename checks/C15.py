import os
import shutil
import tempfile

from symx.api import *
from checks._stubs import *
from checks.C13 import End, total
import chainer
import chainerrl.experiments.collect_demos  # noqa
import sys
mod = sys.modules['chainerrl.experiments.collect_demos']

BOUNDS = ('1..4 steps or 1..2 episodes of demonstrations; arbitrary rewards, '
          'done/needs_reset flags and length limits 1..3')
ASSUMPTIONS = ['the pickle dataset writer is a recording stand-in in the '
               'symbolic runs']


class Writer(object):
    def __init__(self):
        self.items, self.closed = [], False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def write(self, t):
        assert not self.closed
        self.items.append(t)


def run(x, steps, episodes, env_cls):
    log = []
    lim = x.choice('limit', [None, 1, 2])
    w = Writer()
    paths = []
    orig = chainer.datasets.open_pickle_dataset_writer

    def opener(path, *a, **k):
        paths.append(path)
        return w
    chainer.datasets.open_pickle_dataset_writer = opener
    try:
        mod.collect_demonstrations(Agent(log), env_cls(x, log), steps,
                                   episodes, '/out', max_episode_len=lim,
                                   logger=LOG)
    finally:
        chainer.datasets.open_pickle_dataset_writer = orig
    x.check(paths == ['/out/demos.pickle'] and w.closed, 'dataset file')
    eps, cur, n, obs, k = 0, None, 0, None, 0
    last = None
    for e in log:
        if last is not None and last[0] == 'step' and cur is None:
            x.check(e[0] == 'stop', 'agent is told about the episode end')
        if e[0] == 'reset':
            x.check(cur is None, 'reset only between episodes')
            cur, n, obs = 0, 0, e[2]
        elif e[0] == 'act':
            x.check(cur is not None and e[1] == obs,
                    'agent sees the latest observation')
        elif e[0] == 'step':
            n += 1
            x.check(k < len(w.items), 'every step is written')
            it = w.items[k]
            k += 1
            x.check(it[0] == obs and it[1] == last[2] and it[3] == e[3] and
                    it[4] == e[5] and it[5] == e[6] and e[2] == last[2],
                    'written transition')
            x.eq(it[2], e[4], 'written reward')
            obs = e[3]
            if e[5] or e[6] or n == lim:
                cur = None
                eps += 1
        last = e
    x.check(last[0] == 'stop', 'agent is told about the final end')
    x.check(k == len(w.items), 'nothing else is written')
    return k, eps, cur


@harness(quick=[dict(n=1), dict(n=3)], thorough=[dict(n=3), dict(n=4)])
def steps(x, n):
    k, eps, cur = run(x, n, None, Env)
    x.check(k == n, 'exactly n steps are collected')


@harness(quick=[dict(n=1, m=3), dict(n=2, m=2)],
         thorough=[dict(n=1, m=4), dict(n=2, m=3), dict(n=3, m=2)])
def episodes(x, n, m):
    class C(End):
        most = m
    k, eps, cur = run(x, None, n, C)
    x.check(eps == n and cur is None, 'exactly n episodes are collected')


@harness(quick=[{}])
def real_file(x):
    """Through the real dataset writer and reader."""
    n = int(x.int('n', 1, 3))
    log = []
    d = tempfile.mkdtemp(prefix='symx_c15_')
    try:
        mod.collect_demonstrations(
            Agent(log), Env(x, log), n, None, d, logger=LOG)
        with chainer.datasets.open_pickle_dataset(
                os.path.join(d, 'demos.pickle')) as ds:
            items = [ds[i] for i in range(len(ds))]
    finally:
        shutil.rmtree(d)
    st = [e for e in log if e[0] == 'step']
    x.check(len(items) == len(st) == n, 'one item per step')
    for it, e in zip(items, st):
        x.check(it[1] == e[2] and it[3] == e[3] and it[4] == e[5] and
                it[5] == e[6], 'item')
        x.eq(it[2], e[4], 'reward')
