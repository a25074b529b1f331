import multiprocessing
import threading

from symx.api import *
import gym
import gym.spaces
from chainerrl.envs import SerialVectorEnv, MultiprocessVectorEnv
import chainerrl.envs.multiprocess_vector_env as mpv

BOUNDS = ('1..3 environments, <= 4 operations (step, reset with an arbitrary '
          'mask) with arbitrary actions, rewards and terminal flags')
ASSUMPTIONS = ['worker processes of the multiprocess variant run the real '
               'worker loop over in-process pipes; their environments are '
               'independent, so their relative order does not matter']


class TEnv(gym.Env):
    def __init__(self, x, i, log):
        self.x, self.i, self.log, self.n = x, i, log, 0
        self.action_space = gym.spaces.Discrete(3 + i)
        self.observation_space = gym.spaces.Box(0, 1 + i, (2,))
        self.spec = 'spec%d' % i

    def reset(self):
        self.n += 1
        self.log.append(('reset', self.i))
        return (self.i, self.n)

    def step(self, a):
        self.n += 1
        r = self.x.real('r%d_%d' % (self.i, self.n), -4, 4)
        d = self.x.bool('d%d_%d' % (self.i, self.n))
        info = {'n': self.n}
        self.log.append(('step', self.i, a, (self.i, self.n), r, d, info))
        return (self.i, self.n), r, d, info

    def seed(self, s=None):
        self.log.append(('seed', self.i, s))
        return [s]

    def close(self):
        self.log.append(('close', self.i))


class _Stop(BaseException):
    pass


class Conn(object):
    """One end of a pipe.  Reading in the main thread runs the worker."""

    def __init__(self):
        self.q, self.peer, self.worker, self.closed = [], None, None, False

    def send(self, m):
        if self.closed:
            raise OSError('handle is closed')
        self.peer.q.append(m)

    def recv(self):
        w = self.worker or self.peer.worker
        if w is not None and threading.current_thread() is not w.thread:
            if not self.q:
                w.resume()
            if not self.q:
                raise EOFError()
        else:
            while not self.q:
                if self.peer.closed:
                    raise EOFError()
                w.park()
        return self.q.pop(0)

    def poll(self, *a):
        return bool(self.q)

    def close(self):
        self.closed = True


def pipe(*a):
    p, q = Conn(), Conn()
    p.peer, q.peer = q, p
    return p, q


class Proc(object):
    all = []
    pid, exitcode, daemon = 0, 0, False

    def __init__(self, target=None, args=(), kwargs=None, **k):
        self.f = lambda: target(*args, **(kwargs or {}))
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.dead = self.finished = False
        self.err = None
        self.thread = threading.Thread(target=self.body, daemon=True)
        for c in args:
            if isinstance(c, Conn):
                c.worker = self
        Proc.all.append(self)

    def body(self):
        self.go.acquire()
        try:
            if not self.dead:
                self.f()
        except _Stop:
            pass
        except BaseException as e:
            self.err = e
        self.finished = True
        self.back.release()

    def start(self):
        self.thread.start()

    def is_alive(self):
        return not self.finished

    def resume(self):
        if not self.finished:
            self.go.release()
            self.back.acquire()
            if self.err is not None:
                e, self.err = self.err, None
                raise e

    def park(self):
        self.back.release()
        self.go.acquire()
        if self.dead:
            raise _Stop()

    def join(self, *a):
        self.resume()
        assert self.finished, 'join would hang'

    def terminate(self):
        self.kill()

    def kill(self):
        self.dead = True
        if not self.finished and self.thread.ident is not None:
            self.go.release()
            self.back.acquire()


class Patched(object):
    def __enter__(self):
        self.saved = []
        Proc.all = []
        for o in (mpv, multiprocessing):
            for n, v in (('Pipe', pipe), ('Process', Proc)):
                if hasattr(o, n):
                    self.saved.append((o, n, getattr(o, n)))
                    setattr(o, n, v)
        import signal
        self.saved.append((signal, 'signal', signal.signal))
        signal.signal = lambda *a: None

    def __exit__(self, *a):
        for p in Proc.all:
            p.kill()
        for o, n, v in self.saved:
            setattr(o, n, v)


def make(kind, envs):
    if kind == 'serial':
        return SerialVectorEnv(envs)
    return MultiprocessVectorEnv([(lambda e=e: e) for e in envs])


@harness(quick=[dict(kind=k, n=n, ops=o) for k in ('serial', 'multi')
                for n, o in ((1, 3), (2, 3), (3, 2))],
         thorough=[dict(kind=k, n=n, ops=o) for k in ('serial', 'multi')
                   for n, o in ((1, 5), (2, 4), (3, 3))])
def operations(x, kind, n, ops):
    log = []
    envs = [TEnv(x, i, log) for i in range(n)]
    with Patched():
        v = make(kind, envs)
        x.check(v.num_envs == n, 'number of environments')
        log[:] = []
        o = v.reset()
        x.check(log == [('reset', i) for i in range(n)], 'all are reset')
        last = [(i, 1) for i in range(n)]
        x.check(list(o) == last, 'initial observations')
        for t in range(ops):
            log[:] = []
            if x.flag('step%d' % t):
                acts = [('act', t, i) for i in range(n)]
                o, r, d, info = v.step(acts)
                x.check(len(log) == n, 'every environment steps once')
                x.check(sorted(e[1] for e in log) == list(range(n)),
                        'every environment steps once')
                x.check(len(o) == len(r) == len(d) == len(info) == n,
                        'lengths')
                for e in log:
                    i = e[1]
                    x.check(e[0] == 'step' and e[2] == acts[i],
                            'action i goes to environment i')
                    x.check(o[i] == e[3] and info[i] == e[6],
                            'result i comes from environment i')
                    x.eq(r[i], e[4], 'reward')
                    x.eq(d[i], e[5], 'terminal flag')
                last = list(o)
            else:
                m = [x.flag('m%d_%d' % (t, i)) for i in range(n)]
                arg = x.array(m, '?') if x.flag('np%d' % t) else m
                o = v.reset(arg) if any(m) else v.reset()
                x.check(sorted(e[1] for e in log) ==
                        [i for i in range(n) if not m[i]] and
                        all(e[0] == 'reset' for e in log),
                        'exactly the unmasked environments are reset')
                want = [last[i] if m[i] else (i, envs[i].n)
                        for i in range(n)]
                x.check(list(o) == want,
                        'masked environments keep their observation')
                last = want
        log[:] = []
        v.close()
        x.check(sorted(log) == [('close', i) for i in range(n)],
                'every environment is closed once')
        if kind == 'multi':
            for f in (v.reset, lambda: v.step([0] * n), v.close, v.seed):
                x.raises(AssertionError, f, 'no use after close')


@harness(quick=[dict(kind='serial'), dict(kind='multi')])
def attributes(x, kind):
    log = []
    n = int(x.int('n', 1, 3))
    envs = [TEnv(x, i, log) for i in range(n)]
    with Patched():
        v = make(kind, envs)
        x.check(v.action_space == envs[0].action_space and
                v.observation_space == envs[0].observation_space, 'spaces')
        x.check(v.spec == 'spec0', 'spec')
        log[:] = []
        seeds = [int(x.int('s%d' % i, 0, 1)) + 2 * i for i in range(n)]
        v.seed(list(seeds))
        x.check(sorted(log) == [('seed', i, seeds[i]) for i in range(n)],
                'each environment gets its seed')
        if kind == 'multi':
            log[:] = []
            v.seed(7)
            x.check(sorted(log) == [('seed', i, 7) for i in range(n)],
                    'one seed for all')
            log[:] = []
            v.seed()
            x.check(sorted(log) == [('seed', i, None) for i in range(n)],
                    'seeding without a seed')
            x.raises(ValueError, lambda: v.seed([1] * (n + 1)),
                     'wrong number of seeds')
            x.raises(TypeError, lambda: v.seed('a'), 'bad seeds')
        v.close()
