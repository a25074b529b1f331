import os
import shutil
import tempfile

from symx.api import *
from checks._stubs import *
from checks.C10 import Ev, base
import chainerrl.experiments.train_agent_batch  # noqa
import sys
mod = sys.modules['chainerrl.experiments.train_agent_batch']
from chainerrl.experiments.evaluator import Evaluator

BOUNDS = ('1..2 environments, <= 3 batch steps; arbitrary rewards, '
          'done/needs_reset flags, episode limits, offsets, checkpoint '
          'frequencies, scores and targets; one exception at any call')
ASSUMPTIONS = ['environments, agent and evaluator are recording stand-ins; '
               'the training loop is the real code']


@harness(quick=[dict(n=1, steps=3, ev=False, off=0),
                dict(n=2, steps=4, ev=False, off=0),
                dict(n=2, steps=3, ev=True, off=0),
                dict(n=2, steps=5, ev=False, off=2)],
         thorough=[dict(n=1, steps=4, ev=False, off=0),
                   dict(n=1, steps=4, ev=True, off=1),
                   dict(n=2, steps=6, ev=False, off=0),
                   dict(n=3, steps=6, ev=False, off=2),
                   dict(n=2, steps=4, ev=True, off=0)])
def protocol(x, n, steps, ev, off):
    log = []
    lim = x.choice('limit', [None, 1, 2])
    freq = int(x.int('freq', 1, 3)) if not ev else None
    target = x.real('target', -4, 4) if ev else None
    env, agent = VecEnv(x, log, n, needs_reset=not ev or n == 1), VecAgent(log)
    agent.t = -1
    e = None
    scores = []
    if ev:
        e = Ev(x, log)
        o = e.evaluate_if_necessary

        def wrapped(t, episodes):
            if x.flag('due%d' % t):
                s = o(t, episodes)
                scores.append(s)
                return s
            log.append(('eval', t, episodes))
            scores.append(None)
        e.evaluate_if_necessary = wrapped
    hs = [lambda env_, ag, t: log.append(('hook', t))]
    mod.train_agent_batch(
        agent, env, steps, '/nonexistent', checkpoint_freq=freq,
        max_episode_len=lim, step_offset=off, evaluator=e, log_interval=2,
        successful_score=target, step_hooks=hs, logger=LOG)
    x.check(agent.t == off, 'agent step counter starts at the offset')
    it = iter(log)

    def nxt(kind):
        ev_ = next(it, None)
        x.check(ev_ is not None and ev_[0] == kind,
                'expected {} but got {}'.format(kind, ev_ and ev_[0]))
        return ev_
    obs = nxt('reset')
    x.check(not any(obs[2]), 'all environments start fresh')
    obs = obs[3]
    t = off
    lens = [0] * n
    eps = 0
    best = -10
    while True:
        a = nxt('act_and_train')
        x.check(a[1] == obs, 'agent sees the current observations')
        s = nxt('step')
        x.check(s[2] == a[2], 'the agent\'s actions are executed')
        lens = [v + 1 for v in lens]
        resets = [bool(i) or v == lim for i, v in zip(s[6], lens)]
        o = nxt('observe_and_train')
        x.check(o[1] == s[3], 'agent observes the resulting observations')
        for i in range(n):
            x.eq(o[2][i], s[4][i], 'observed reward')
        x.check(o[3] == s[5], 'observed terminal flags')
        x.check(o[4] == resets, 'observed reset flags')
        end = [d or r for d, r in zip(s[5], resets)]
        eps += sum(end)
        for _ in range(n):
            t += 1
            if freq and t % freq == 0:
                c = nxt('save')
                x.check(base(c[1]) == '{}_checkpoint'.format(t), 'checkpoint')
            h = nxt('hook')
            x.check(h[1] == t, 'hook step number')
        if ev:
            c = nxt('eval')
            x.check(c[1] == t and c[2] == eps, 'evaluation arguments')
            sc = scores.pop(0)
            if sc is not None:
                best = smax(best, sc)
                if best >= target:
                    break
        if t >= steps:
            break
        rs = nxt('reset')
        x.check(rs[2] == [not v for v in end],
                'exactly the ended environments are reset')
        obs = rs[3]
        lens = [0 if v else k for v, k in zip(end, lens)]
    c = nxt('save')
    x.check(base(c[1]) == '{}_finish'.format(t), 'final save')
    x.check(next(it, None) is None, 'nothing after the final save')


@harness(quick=[dict(exc='err'), dict(exc='kbd')])
def crash(x, exc):
    log = []
    E_ = Fault if exc == 'err' else KeyboardInterrupt
    k = x.int('k', 1, 9)
    fault = Faults(k, E_)
    fault.n = -1            # the very first reset is not protected
    env = VecEnv(x, log, 2, fault=fault, needs_reset=False)
    agent = VecAgent(log, fault)
    hooks = [lambda e, a, t: fault()]
    try:
        mod.train_agent_batch(agent, env, 4, '/nonexistent',
                              step_hooks=hooks, logger=LOG)
        x.check(not fault.hit, 'the exception propagates')
    except E_:
        x.check(fault.hit, 'fault')
        saves = [base(e[1]) for e in log if e[0] == 'save']
        obs = names(log).count('observe_and_train')
        x.check(len(saves) == 1 and saves[0].endswith('_except') and
                2 * obs - 2 <= int(saves[0].split('_')[0]) <= 2 * obs,
                'saved once, labelled with the step reached: %s' % saves)
        return
    saves = [base(e[1]) for e in log if e[0] == 'save']
    x.check(saves == ['4_finish'], 'saves of a run without fault')


@harness(quick=[dict(own=True)], thorough=[dict(own=True)])
def with_evaluation(x, own):
    """Wiring of the evaluator: schedule, environment, limits, stop."""
    log = []
    n = 2
    d = tempfile.mkdtemp(prefix='symx_c11_')
    interval = int(x.int('interval', 1, 4))
    off = int(x.int('offset', 0, 2))
    lim = x.choice('eval_len', [None, 1])
    calls = []
    orig = Evaluator.evaluate_and_update_max_score
    score = []

    def fake(self, t, episodes):
        calls.append((self, t, episodes))
        s = x.real('score', -1, 1)
        score.append(s)
        self.max_score = smax(self.max_score, s) if len(score) > 1 else s
        return s
    target = x.real('target', -1, 1)
    env, ee = VecEnv(x, log, n, needs_reset=False, dones=False), \
        VecEnv(x, log, n, 'eval')
    Evaluator.evaluate_and_update_max_score = fake
    try:
        mod.train_agent_batch_with_evaluation(
            VecAgent(log), env, 6, None, 3, interval, d, max_episode_len=2,
            step_offset=off, eval_max_episode_len=lim, eval_env=ee,
            successful_score=target, logger=LOG)
    finally:
        Evaluator.evaluate_and_update_max_score = orig
        shutil.rmtree(d)
    ts = [c[1] for c in calls]
    t, prev, want, ended = off, off - off % interval, [], False
    best = None
    for i in range(10):
        t += n
        if t >= prev + interval:
            want.append(t)
            prev = t - t % interval
            if len(want) > len(score):
                break
            s = score[len(want) - 1]
            best = s if best is None else smax(best, s)
            if best >= target:
                ended = True
                break
        if t >= 6:
            break
    x.check(ts == want, 'evaluation schedule {} vs {}'.format(ts, want))
    x.check(names(log).count('step') == (t - off) // n,
            'training ends at the target score or the step limit')
    for c in calls:
        x.check(c[0].env is ee and c[0].n_episodes == 3 and
                c[0].n_steps is None and
                c[0].max_episode_len == (2 if lim is None else 1),
                'evaluator configuration')
