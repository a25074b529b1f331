import os
import sys

from symx.api import *
from checks._stubs import *
from checks._sched import Sched, Value
from checks.C10 import base
import chainerrl.experiments.train_agent_async  # noqa
import chainerrl.experiments.evaluator as evmod
mod = sys.modules['chainerrl.experiments.train_agent_async']

BOUNDS = ('2 worker processes, <= 3 global steps, every interleaving of '
          'their accesses to the shared counters, flags and the evaluator; '
          'arbitrary done/needs_reset flags, scores and target; one fault '
          'at any call of one worker; <= 2-3 preemptive switches where the '
          'evaluator takes part (unbounded otherwise)')
ASSUMPTIONS = ['processes are modelled as threads that switch only at '
               'accesses to shared objects (multiprocessing.Value); '
               'accesses under the value\'s lock are atomic',
               'agents and environments are recording stand-ins']


class World(object):
    def __init__(self, x, n, dones=True, nr=False, faulty=None,
                 exc=Fault, preempt=None):
        self.x = x
        self.s = Sched(x, preempt)
        self.counter = Value(self.s, 0)
        self.eps = Value(self.s, 0)
        self.training_done = Value(self.s, False)
        self.logs = [[] for _ in range(n)]
        self.hooked = []
        self.envs, self.agents = [], []
        self.fault = Faults(x.int('k', 1, 6), exc) if faulty is not None \
            else None
        if faulty is not None:
            self.fault.n = -1
        for i in range(n):
            f = self.fault if faulty == i else None
            self.envs.append(Env(x, self.logs[i], 'env%d' % i, fault=f,
                                 dones=dones is True or dones == i,
                                 needs_reset=nr == i and nr is not False,
                                 rewards=False))
            self.agents.append(Agent(self.logs[i], fault=f))

    def loops(self, steps, **kw):
        def mk(i):
            return lambda: mod.train_loop(
                process_idx=i, env=self.envs[i], agent=self.agents[i],
                steps=steps, outdir='/nonexistent', counter=self.counter,
                episodes_counter=self.eps,
                training_done=self.training_done,
                logger=LOG, global_step_hooks=[
                    lambda e, a, t: self.hooked.append((i, e, a, t))], **kw)
        return [mk(i) for i in range(len(self.envs))]


def worker_protocol(x, log, lim):
    """One worker's own view is an ordinary training loop."""
    obs, r, live, n = None, 0, False, 0
    for k, e in enumerate(log):
        if e[0] == 'reset':
            x.check(not live, 'reset only between episodes')
            obs, r, live, n = e[2], 0, True, 0
        elif e[0] == 'act_and_train':
            x.check(live and e[1] == obs, 'agent sees the latest observation')
            x.eq(e[2], r, 'agent sees the latest reward')
        elif e[0] == 'step':
            x.check(log[k - 1][0] == 'act_and_train' and
                    e[2] == log[k - 1][3], 'the agent\'s action is executed')
            obs, r, done, info = e[3:]
            n += 1
            must = done or bool(info) or n == lim
            nx = log[k + 1][0] if k + 1 < len(log) else None
            x.check(nx == 'stop_and_train' or not must,
                    'episode ends when it must')
        elif e[0] == 'stop_and_train':
            x.check(live and e[1] == obs and e[3] == done,
                    'episode end: last observation and terminal flag')
            x.eq(e[2], r, 'episode end: last reward')
            live = False
    x.check(not live, 'every episode is ended')


@harness(quick=[dict(steps=2, dones=True, nr=False),
                dict(steps=3, dones=False, nr=False),
                dict(steps=2, dones=False, nr=0)],
         thorough=[dict(steps=3, dones=True, nr=False),
                   dict(steps=3, dones=False, nr=0),
                   dict(steps=4, dones=False, nr=False)])
def schedule(x, steps, dones, nr):
    w = World(x, 2, dones, nr)
    lim = x.choice('limit', [None, 1]) if not dones else None
    w.s.run(w.loops(steps, max_episode_len=lim))
    n = w.counter.v
    taken = sum(names(g).count('step') for g in w.logs)
    x.check(n == taken, 'the counter counts every step exactly once')
    x.check(steps <= n <= steps + 1, 'training stops at the step limit')
    x.check(sorted(h[3] for h in w.hooked) == list(range(1, n + 1)),
            'the hooks see every global step number once')
    x.check(all(h[1] is w.envs[h[0]] and h[2] is w.agents[h[0]]
                for h in w.hooked), 'hook arguments')
    saves = [base(e[1]) for g in w.logs for e in g if e[0] == 'save']
    x.check(saves == ['%d_finish' % steps],
            'the final agent is saved exactly once')
    ends = sum(names(g).count('stop_and_train') for g in w.logs)
    x.check(w.eps.v == ends, 'every finished episode is counted once')
    for g in w.logs:
        worker_protocol(x, g, lim)


@harness(quick=[dict(steps=1, interval=1, tgt=False, pre=3),
                dict(steps=1, interval=1, tgt=True, pre=3),
                dict(steps=3, interval=2, tgt=True, pre=2),
                dict(steps=2, interval=1, tgt=False, pre=2)],
         thorough=[dict(steps=1, interval=1, tgt=False, pre=None),
                   dict(steps=1, interval=1, tgt=True, pre=None),
                   dict(steps=3, interval=1, tgt=True, pre=3),
                   dict(steps=4, interval=2, tgt=True, pre=3)])
def evaluation(x, steps, interval, tgt, pre):
    """Evaluation slots are used at most once; best and success."""
    w = World(x, 2, dones=False, preempt=pre)
    target = x.real('target', -4, 4) if tgt else None
    evals, saves = [], []

    class A2(Agent):
        def save(self, dirname):
            saves.append((base(dirname), evals[-1][2] if evals else None))
    w.agents = [A2(g) for g in w.logs]

    def perf(env, agent, *a, **k):
        s = x.real('score', -4, 4)
        evals.append((agent, env, s))
        w.s.point()
        return dict(mean=s, median=s, stdev=0, max=s, min=s)
    put = []

    def patch(o, n, v):
        put.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    import tempfile
    import shutil
    d = tempfile.mkdtemp(prefix='symx_c12_')

    class MP(object):
        @staticmethod
        def Value(t, v=0):
            return Value(w.s, v)
    patch(evmod, 'mp', MP)
    patch(evmod, 'eval_performance', perf)
    try:
        ev = evmod.AsyncEvaluator(
            n_steps=None, n_episodes=1, eval_interval=interval, outdir=d,
            logger=LOG)
        w.s.run(w.loops(steps, max_episode_len=1, evaluator=ev,
                        successful_score=target))
        with open(os.path.join(d, 'scores.txt')) as f:
            lines = f.read().splitlines()
    finally:
        for o, n, v in reversed(put):
            setattr(o, n, v)
        shutil.rmtree(d)
    n = w.counter.v
    x.check(len(evals) <= n // interval, 'no interval is evaluated twice')
    hit = [e for e in evals if target is not None and e[2] >= target]
    if not hit:
        x.check(len(evals) >= min(1, n // interval),
                'evaluated once an interval has passed')
        x.check(n >= steps, 'training runs to the step limit')
    x.check(len(lines) == (len(evals) + 1 if evals else 0),
            'one line of scores per evaluation, after one header')
    if lines:
        x.check(lines[0].startswith('steps\tepisodes'), 'header')
    fin = [s[0] for s in saves]
    x.check(fin.count('successful') == (1 if hit else 0),
            'the successful agent is saved exactly once')
    if evals:
        top = evals[0][2]
        for e in evals[1:]:
            top = smax(top, e[2])
        x.check(1 <= fin.count('best') <= len(evals), 'best agent saved')
        x.eq(ev.max_score, top, 'best score')
        ts = sorted(int(v.split('\t')[0]) for v in lines[1:])
        x.check(all(t >= (k + 1) * interval for k, t in enumerate(ts)),
                'no evaluation before its interval has passed')
    if len(evals) == 2 and evals[0][0] is evals[1][0]:
        x.check((fin.count('best') == 2) == bool(evals[1][2] > evals[0][2]),
                'only an improvement is saved as best')
    x.check(fin.count('%d_finish' % steps) <= 1, 'finish saved once')


@harness(quick=[dict(who=0), dict(who=1)])
def crash(x, who):
    E_ = x.choice('exc', [Fault, KeyboardInterrupt])
    w = World(x, 2, dones=False, faulty=who, exc=E_)
    w.s.ok = (Fault, KeyboardInterrupt)
    exc = w.s.run(w.loops(2))
    x.check(exc[1 - who] is None, 'the other worker is not disturbed')
    x.check((exc[who] is not None) == w.fault.hit,
            'the exception propagates')
    saves = [base(e[1]) for e in w.logs[who] if e[0] == 'save']
    if w.fault.hit:
        if who == 0:
            x.check(len(saves) == 1 and saves[0].endswith('_except'),
                    'worker 0 saves the agent')
        else:
            x.check(not any(s.endswith('_finish') for s in saves),
                    'a failed worker saves no final agent')


@harness(quick=[{}])
def wiring(x):
    """train_agent_async sets up workers, environments and the evaluator."""
    log = []
    runs = []
    procs = int(x.int('procs', 1, 2))
    steps = int(x.int('steps', 1, 2))
    ev = x.choice('eval_interval', [None, 2])
    ml = x.choice('max_len', [None, 1])
    own = x.flag('make_agent')
    made = []

    class AG(Agent):
        shared_attributes = ()
        process_idx = None

    def make_agent(i):
        a = AG(log)
        made.append((i, a))
        return a
    envs = []

    def make_env(i, test):
        e = Env(x, log, 'e', rewards=False, needs_reset=False, dones=False)
        envs.append((i, test, e))
        return e
    loops = []
    o_run, o_loop, o_ev, o_mp = (mod.async_.run_async, mod.train_loop,
                                 mod.AsyncEvaluator, mod.mp)
    evs = []

    class FakeEv(object):
        def __init__(self, **k):
            evs.append(k)

    class MP(object):
        @staticmethod
        def Value(t, v=0):
            return ('value', t, v, object())

    def run_async(n, f):
        x.check(n == procs, 'number of processes')
        for i in range(n):
            f(i)
    mod.async_.run_async = run_async
    mod.train_loop = lambda **k: loops.append(k)
    mod.AsyncEvaluator = FakeEv
    mod.mp = MP
    omp = os.environ.get('OMP_NUM_THREADS')
    agent = None if own else AG(log)
    try:
        res = mod.train_agent_async(
            '/nonexistent', procs, make_env, steps=steps, eval_interval=ev,
            eval_n_steps=None, eval_n_episodes=3, max_episode_len=ml,
            successful_score=1.5, agent=agent,
            make_agent=make_agent if own else None, logger=LOG)
    finally:
        mod.async_.run_async, mod.train_loop = o_run, o_loop
        mod.AsyncEvaluator, mod.mp = o_ev, o_mp
        if omp is not None:
            os.environ['OMP_NUM_THREADS'] = omp
    x.check(len(loops) == procs, 'one loop per process')
    x.check(res is (made[0][1] if own else agent), 'returns the agent')
    x.check((len(evs) == 1) == (ev is not None), 'evaluator made if wanted')
    if evs:
        k = evs[0]
        x.check(k['eval_interval'] == ev and k['n_episodes'] == 3 and
                k['n_steps'] is None and k['max_episode_len'] == ml,
                'evaluator configuration')
    for i, k in enumerate(loops):
        x.check(k['process_idx'] == i and k['steps'] == steps and
                k['max_episode_len'] == ml and
                k['successful_score'] == 1.5, 'loop arguments')
        a = k['agent']
        if own:
            x.check(any(a is m and j == i for j, m in made),
                    'each process uses its own agent')
        else:
            x.check(a is agent, 'the given agent')
        x.check(a.process_idx == i or not own, 'process index')
        e = [v for v in envs if v[2] is k['env']]
        x.check(e and e[0][:2] == (i, False), 'training environment')
        if ev is not None:
            e = [v for v in envs if v[2] is k['eval_env']]
            x.check(e and e[0][:2] == (i, True), 'evaluation environment')
        for nme in ('counter', 'episodes_counter', 'training_done'):
            x.check(k[nme] is loops[0][nme], 'shared counters are shared')
    cs = [loops[0][n] for n in ('counter', 'episodes_counter',
                                'training_done')]
    x.check(len(set(id(c) for c in cs)) == 3, 'counters are separate')
    x.check(all(c[2] == 0 for c in cs), 'counters start at zero')
    x.check(all(e.closed == 1 for _, _, e in envs),
            'environments are closed once')
