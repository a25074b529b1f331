import os
import shutil
import tempfile

from symx.api import *
from checks._stubs import *
import chainerrl.experiments.train_agent  # noqa
import sys
mod = sys.modules['chainerrl.experiments.train_agent']

BOUNDS = ('runs of <= 4 training steps; arbitrary rewards, done/needs_reset '
          'flags, episode length limits, step offsets, checkpoint '
          'frequencies, target scores; one exception at any instrumented '
          'call')
ASSUMPTIONS = ['environment, agent and evaluator are recording stand-ins; '
               'the training loop is the real code']


class Ev(object):
    def __init__(self, x, log, fault=lambda: None):
        self.x, self.log, self.fault = x, log, fault
        self.max_score = -10
        self.n = 0

    def evaluate_if_necessary(self, t, episodes):
        self.fault()
        self.n += 1
        s = self.x.real('score%d' % self.n, -4, 4)
        self.max_score = smax(self.max_score, s)
        self.log.append(('eval', t, episodes))
        return s


def base(p):
    return os.path.basename(p)


def expected(x, log, steps, offset, lim, ev, target, freq, hooks):
    """Check a finished run's log event by event."""
    it = iter(log)

    def nxt(kind):
        e = next(it, None)
        x.check(e is not None and e[0] == kind,
                'expected {} but got {}'.format(kind, e and e[0]))
        return e
    obs = nxt('reset')[2]
    r = 0
    t = offset
    ep = 0
    n = 0
    best = -10
    k = 0
    while t < steps:
        a = nxt('act_and_train')
        x.check(a[1] == obs, 'agent sees the latest observation')
        x.eq(a[2], r, 'agent sees the latest reward')
        s = nxt('step')
        x.check(s[2] == a[3], 'the agent\'s action is executed')
        obs, r, done, info = s[3:]
        t += 1
        n += 1
        for _ in range(hooks):
            h = nxt('hook')
            x.check(h[1] == t, 'hook gets the step number')
        end = done or n == lim or bool(info) or t == steps
        if end:
            e = nxt('stop_and_train')
            x.check(e[1] == obs and e[3] == done,
                    'episode end: last observation and terminal flag')
            x.eq(e[2], r, 'episode end: last reward')
            if ev:
                e = nxt('eval')
                x.check(e[1] == t and e[2] == ep + 1, 'evaluation arguments')
                k += 1
                best = smax(best, x_score(x, k))
                if target is not None and best >= target:
                    break
            if t == steps:
                break
            obs = nxt('reset')[2]
            r = 0
            n = 0
            ep += 1
        if freq and t % freq == 0:
            e = nxt('save')
            x.check(base(e[1]) == '{}_checkpoint'.format(t), 'checkpoint')
    e = nxt('save')
    x.check(base(e[1]) == '{}_finish'.format(t), 'final save')
    x.check(next(it, None) is None, 'nothing after the final save')


def x_score(x, k):
    return x.scores[k - 1]


@harness(quick=[dict(steps=3, ev=False, freq=False, off=0),
                dict(steps=3, ev=True, freq=False, off=0),
                dict(steps=3, ev=False, freq=True, off=0),
                dict(steps=4, ev=False, freq=True, off=2)],
         thorough=[dict(steps=4, ev=False, freq=False, off=0),
                   dict(steps=4, ev=True, freq=False, off=0),
                   dict(steps=4, ev=False, freq=True, off=0),
                   dict(steps=5, ev=True, freq=True, off=2)])
def protocol(x, steps, ev, freq, off):
    log = []
    lim = x.choice('limit', [None, 1, 2])
    target = x.real('target', -4, 4) if ev and x.flag('has_target') else None
    f = int(x.int('freq', 1, 3)) if freq else None
    env, agent = Env(x, log), Agent(log)
    agent.t = -1
    e = Ev(x, log) if ev else None
    x.scores = []
    if ev:
        o = e.evaluate_if_necessary

        def wrapped(t, episodes):
            s = o(t, episodes)
            x.scores.append(s)
            return s
        e.evaluate_if_necessary = wrapped
    hooks = int(x.int('hooks', 0, 1))
    hs = [lambda env_, ag, t: (
        x.check(env_ is env and ag is agent, 'hook arguments'),
        log.append(('hook', t)))] * hooks
    mod.train_agent(agent, env, steps, '/nonexistent', checkpoint_freq=f,
                    max_episode_len=lim, step_offset=off, evaluator=e,
                    successful_score=target, step_hooks=hs, logger=LOG)
    x.check(agent.t == off, 'the agent starts from the step offset')
    expected(x, log, steps, off, lim, ev, target, f, hooks)


@harness(quick=[dict(exc='err'), dict(exc='kbd')])
def crash(x, exc):
    """An exception at any point saves the agent once and propagates."""
    log = []
    E_ = Fault if exc == 'err' else KeyboardInterrupt
    k = x.int('k', 1, 9)
    fault = Faults(k, E_)
    env, agent = Env(x, log, fault=fault, needs_reset=False), \
        Agent(log, fault)
    # the very first reset is outside the protection
    fault.n = -1
    ev = Ev(x, log, fault)
    hooks = [lambda e, a, t: fault()]
    try:
        mod.train_agent(agent, env, 2, '/nonexistent', evaluator=ev,
                        step_hooks=hooks, logger=LOG)
        x.check(not fault.hit, 'the exception propagates')
    except E_:
        x.check(fault.hit, 'fault')
        steps = names(log).count('step')
        saves = [base(e[1]) for e in log if e[0] == 'save']
        x.check(saves == ['{}_except'.format(steps)],
                'saved once, labelled with the step reached: %s' % saves)
        return
    saves = [base(e[1]) for e in log if e[0] == 'save']
    x.check(saves == ['2_finish'], 'saves of a run without fault')


@harness(quick=[dict(steps=3, ep=True, own=True),
                dict(steps=3, ep=False, own=True),
                dict(steps=2, ep=True, own=False),
                dict(steps=2, ep=False, own=False)],
         thorough=[dict(steps=4, ep=True, own=True),
                   dict(steps=4, ep=False, own=True),
                   dict(steps=3, ep=True, own=False),
                   dict(steps=3, ep=False, own=False)])
def with_evaluation(x, steps, ep, own):
    """The whole stack: training, evaluation schedule, best model, stop."""
    log = []
    d = tempfile.mkdtemp(prefix='symx_c10_')
    try:
        interval = int(x.int('interval', 1, 2))
        off = int(x.int('offset', 0, 1)) if own else 0
        target = x.real('target', -4, 4) if x.flag('has_target') else None
        best = x.flag('save_best') if own else True
        env = Env(x, log, needs_reset=False)
        ee = Env(x, log, 'eval', dones=False, needs_reset=False) if own \
            else None
        agent = Agent(log)
        mod.train_agent_with_evaluation(
            agent, env, steps, None if ep else 2, 1 if ep else None, interval,
            d, train_max_episode_len=2, step_offset=off,
            eval_max_episode_len=None if not own else 1, eval_env=ee,
            successful_score=target, save_best_so_far_agent=best, logger=LOG)
    finally:
        shutil.rmtree(d)
    # replay the log: training steps, evaluation runs
    t = off
    prev = off - off % interval
    top = None
    i = 0
    ended = False
    name = 'eval' if own else 'env'
    while i < len(log):
        e = log[i]
        if e[0] == 'act_and_train':
            x.check(not ended, 'no training after the target is reached')
        if e[0] == 'step':
            t += 1
        if e[0] == 'stop_and_train':
            due = t >= prev + interval
            j = i + 1
            seg = []
            while j < len(log) and log[j][0] in ('act', 'stop') or (
                    j < len(log) and log[j][0] in ('reset', 'step') and
                    in_eval(log, j)):
                seg.append(log[j])
                j += 1
            x.check(bool(seg) == due, 'evaluated exactly when due')
            if due:
                prev = t - t % interval
                x.check(all(s[1] == name for s in seg
                            if s[0] in ('step', 'reset')),
                        'evaluation uses the evaluation environment')
                rs = [s[4] for s in seg if s[0] == 'step']
                resets = [k for k, s in enumerate(seg) if s[0] == 'reset']
                if ep:
                    lim = 1 if own else 2
                    x.check(len(resets) == 1 and len(rs) <= lim,
                            'one evaluation episode')
                    score = total(rs)
                else:
                    x.check(len(rs) == 2, 'two evaluation steps')
                    score = mean_of_finished(seg, 1 if own else 2)
                x.check(seg[-1][0] == 'stop', 'evaluation ends the episode')
                better = True if top is None else score > top
                if better:
                    top = score
                if better and best:
                    x.check(j < len(log) and log[j][0] == 'save' and
                            base(log[j][1]) == 'best', 'best agent saved')
                    j += 1
                else:
                    x.check(j >= len(log) or log[j][0] != 'save' or
                            base(log[j][1]) != 'best', 'only the best is '
                            'saved')
            if target is not None and top is not None and top >= target:
                ended = True
            i = j
            continue
        i += 1
    saves = [base(e[1]) for e in log if e[0] == 'save' and
             base(e[1]) != 'best']
    x.check(saves == ['{}_finish'.format(t)], 'final save')
    x.check(t == steps or ended, 'training goes on until the end')


def total(rs):
    s = 0
    for r in rs:
        s = s + r
    return s


def in_eval(log, j):
    """Is this reset/step part of an evaluation run (no act_and_train)?"""
    for e in log[j + 1:]:
        if e[0] in ('act', 'stop'):
            return True
        if e[0] in ('act_and_train', 'save'):
            return False
    return False


def mean_of_finished(seg, lim):
    scores, cur, n = [], 0, 0
    for s in seg:
        if s[0] == 'step':
            cur = cur + s[4]
            n += 1
            if s[5] or s[6] or n == lim:
                scores.append(cur)
                cur, n = 0, 0
    if not scores:
        scores = [cur]
    return total(scores) / len(scores)
