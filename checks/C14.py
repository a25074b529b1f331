import os
import shutil
import tempfile

from symx.api import *
from checks._stubs import *
import chainerrl.experiments.evaluator as evmod

BOUNDS = ('<= 4 calls with arbitrary increasing step numbers up to 40, '
          'intervals 1..5, offsets 0..6, arbitrary scores')
ASSUMPTIONS = ['evaluation episodes are replaced by an arbitrary score',
               'single process (schedules of several: see C12)']


def fake_perf(x, seen):
    def perf(env, agent, n_steps, n_episodes, max_episode_len=None,
             logger=None):
        s = x.real('score%d' % len(seen), -4, 4)
        seen.append((env, agent, n_steps, n_episodes, max_episode_len, s))
        return dict(mean=s, median=11, stdev=22, max=33, min=44)
    return perf


@harness(quick=[dict(kind='serial'), dict(kind='async')])
def schedule(x, kind):
    interval = int(x.int('interval', 1, 5))
    off = x.int('offset', 0, 6)
    best = x.flag('save_best')
    log, seen = [], []
    x.opaque_str()
    agent, env = Agent(log), object()
    d = tempfile.mkdtemp(prefix='symx_c14_')
    orig = evmod.eval_performance
    evmod.eval_performance = fake_perf(x, seen)
    omp = evmod.mp
    if kind == 'async' and x.symbolic:
        evmod.mp = FakeMP
    try:
        kw = dict(n_steps=None, n_episodes=3, eval_interval=interval,
                  outdir=d, max_episode_len=9, step_offset=off,
                  save_best_so_far_agent=best, logger=LOG)
        if kind == 'serial':
            ev = evmod.Evaluator(agent=agent, env=env, **kw)
        else:
            ev = evmod.AsyncEvaluator(**kw)
        t = off
        nxt = (off // interval + 1) * interval
        top = None
        want_lines = 0
        for k in range(3):
            t = t + x.int('dt%d' % k, 0, 7)
            n0, l0 = len(seen), len(log)
            if kind == 'serial':
                r = ev.evaluate_if_necessary(t=t, episodes=k + 5)
            else:
                r = ev.evaluate_if_necessary(t, k + 5, env, agent)
            due = bool(t >= nxt)
            x.check(len(seen) - n0 == (1 if due else 0),
                    'evaluates exactly when a multiple of the interval was '
                    'passed since the last evaluation')
            new = log[l0:]
            if not due:
                x.check(r is None and not new, 'nothing happens in between')
                continue
            want_lines += 1
            e = seen[-1]
            x.check(e[0] is env and e[1] is agent and
                    e[2:5] == (None, 3, 9), 'evaluation arguments')
            x.eq(r, e[5], 'the score is returned')
            better = True if top is None else bool(e[5] > top)
            if better:
                top = e[5]
            saves = [os.path.basename(v[1]) for v in new if v[0] == 'save']
            x.check(saves == (['best'] if better and best else []),
                    'exactly an improvement saves the best agent')
            x.eq(ev.max_score, top, 'best score so far')
            if kind == 'serial':
                nxt = (t // interval + 1) * interval
            else:
                nxt = nxt + interval
        with open(os.path.join(d, 'scores.txt')) as f:
            lines = f.read().splitlines()
        if kind == 'serial' or want_lines:
            x.check(lines[0].split('\t') == [
                'steps', 'episodes', 'elapsed', 'mean', 'median', 'stdev',
                'max', 'min', 'stat'], 'header of the score table')
            x.check(len(lines) == 1 + want_lines,
                    'one line per evaluation')
            for ln in lines[1:]:
                c = ln.split('\t')
                x.check(len(c) == 9 and c[4:] == ['11', '22', '33', '44',
                                                  '1.5'],
                        'columns of the score table')
                x.check(5 <= int(c[1]) <= 7, 'episode column')
    finally:
        evmod.eval_performance = orig
        evmod.mp = omp
        shutil.rmtree(d)


class _V(object):
    def __init__(self, v):
        self.value = v

    def get_lock(self):
        return self

    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


class FakeMP(object):
    @staticmethod
    def Value(t, v=0):
        x = int(v) if t == 'l' else v
        return _V(x) if t != 'f' else _V32(x)


class _V32(_V):
    """single precision: not modelled for symbolic values"""


@harness(quick=[{}])
def precision(x):
    """The best score of an asynchronous evaluator is not rounded: a score
    equal to the best so far is no improvement."""
    m = x.choice('score', [0.1, 0.7, 1.3, -0.7, 200.1])
    d = tempfile.mkdtemp(prefix='symx_c14_')
    log = []
    orig = evmod.eval_performance
    evmod.eval_performance = lambda *a, **k: dict(
        mean=m, median=m, stdev=0, max=m, min=m)
    try:
        ev = evmod.AsyncEvaluator(None, 1, 1, d, logger=LOG)
        agent = Agent(log)
        ev.evaluate_if_necessary(1, 1, None, agent)
        ev.evaluate_if_necessary(2, 1, None, agent)
    finally:
        evmod.eval_performance = orig
        shutil.rmtree(d)
    x.check(ev.max_score == m, 'best score is exact')
    x.check(names(log).count('save') == 1, 'an equal score is no improvement')


@harness(quick=[{}])
def arguments(x):
    """Exactly one of n_steps and n_episodes must be given."""
    d = tempfile.mkdtemp(prefix='symx_c14_')
    ns = x.choice('n_steps', [None, 0, 3])
    ne = x.choice('n_episodes', [None, 0, 3])
    try:
        for mk in (lambda: evmod.Evaluator(Agent([]), None, ns, ne, 1, d),
                   lambda: evmod.AsyncEvaluator(ns, ne, 1, d)):
            if (ns is None) == (ne is None):
                x.raises(AssertionError, mk, 'both or none given')
            else:
                mk()
    finally:
        shutil.rmtree(d)
