"""Worker processes: each runs once, with random numbers of its own."""
import multiprocessing as mp
import os
import random
import warnings
from unittest import mock

from chainerrl.misc import async_
from chainerrl.misc import random_seed

from symx.api import *

BOUNDS = ('1..4 worker processes, arbitrary exit codes, arbitrary (distinct) '
          'random numbers drawn by the parent, every worker drawing 1..2 '
          'random numbers, workers finishing in any order; seeds in '
          '[0, 2**32)')
ASSUMPTIONS = ['multiprocessing.Process has fork semantics (a stand-in runs '
               'the target on a copy of the random state); a generator seeded '
               'with different numbers gives different streams']


class World(object):
    """Random generators: a state is (seed, position); what they draw is an
    arbitrary function of it.  A process owns its state."""

    def __init__(self, x):
        self.x = x
        self.rng = ('parent', 0)
        self.drawn = []
        self.seeds = []
        self.env = {}

    def draw(self, lo, hi):
        self.rng = self.rng[0], self.rng[1] + 1
        for k, v in self.drawn:
            # a seed may be symbolic: the same number gives the same stream
            if k[1] == self.rng[1] and type(k[0]) is type(self.rng[0]) and \
                    (k[0] is self.rng[0] or k[0] == self.rng[0]):
                return v
        v = self.x.int('draw%d' % len(self.drawn), int(lo), int(hi) - 1)
        for k, w in self.drawn:
            self.x.assume(v != w)
        self.drawn.append((self.rng, v))
        return v

    # stand-ins
    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if size is None:
            return self.draw(low, high)
        vs = [self.draw(low, high) for _ in range(int(np.prod(size)))]
        return self.x.array(vs, 'i8').reshape(size)

    def np_seed(self, s=None):
        self.seeds.append(('numpy', s))
        self.rng = s, 0

    def py_seed(self, s=None, *a):
        self.seeds.append(('random', s))


class Boom(Exception):
    pass


class Process(object):
    world = None

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs=None, daemon=None):
        w = self.world
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.no = len(w.procs)
        self.pid, self.exitcode = None, None
        self.started = self.joined = False
        w.procs.append(self)

    def start(self):
        w = self.world
        assert not self.started
        self.started = True
        self.pid = 1000 + self.no
        w.log.append(('start', self.no))
        parent = w.rng, w.seeds, w.where
        w.seeds, w.where = [], self.no
        self.code = w.codes[self.no]
        try:
            self.target(*self.args, **self.kwargs)
        except Boom:
            self.code = 1
        finally:
            self.final = w.seeds
            w.rng, w.seeds, w.where = parent

    def join(self, timeout=None):
        assert self.started
        self.joined = True
        self.world.log.append(('join', self.no))
        self.exitcode = self.code

    def is_alive(self):
        return self.started and not self.joined


class stand_ins(object):
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        w = self.w
        Process.world = w
        w.procs, w.log, w.where = [], [], 'parent'
        self.ps = [mock.patch.object(mp, 'Process', Process),
                   mock.patch.object(np.random, 'randint', w.randint),
                   mock.patch.object(np.random, 'seed', w.np_seed),
                   mock.patch.object(random, 'seed', w.py_seed),
                   mock.patch.dict(os.environ)]
        for p in self.ps:
            p.start()

    def __exit__(self, *a):
        for p in reversed(self.ps):
            p.stop()


@harness(quick=[dict(n=n, draws=d) for n in (1, 2, 3) for d in (1, 2)],
         thorough=[dict(n=4, draws=2)])
def workers(x, n, draws):
    """Every worker runs its function once, with its index and with a random
    stream no other worker has; all run at once; all are waited for."""
    x.opaque_str()
    w = World(x)
    w.codes = [0] * n
    ran, got = [], {}
    with stand_ins(w):
        def f(*a):
            assert len(a) == 1
            i = a[0]
            ran.append((w.where, i))
            got[i] = [np.random.randint(0, 100 + 2 ** 32)
                      for _ in range(draws)]
        async_.run_async(n, f)
    x.check(sorted(ran) == [(i, i) for i in range(n)],
            'each worker runs once, in its own process')
    first = [e[0] for e in w.log]
    x.check(sorted(w.log) == sorted(
        [(k, i) for k in ('start', 'join') for i in range(n)]),
        'each process is started and waited for once')
    x.check('start' not in first[n:], 'all are started before any is awaited')
    for i in range(n):
        for j in range(i):
            for p, q in zip(got[i], got[j]):
                x.check(p != q, 'different random numbers in each worker')
    seeds = []
    for p in w.procs:
        kinds = dict(p.final)
        x.check(sorted(k for k, _ in p.final) == ['numpy', 'random'],
                'both generators are seeded')
        x.check(kinds['numpy'] == kinds['random'], 'with one seed')
        x.check(kinds['numpy'] >= 0, 'valid seed')
        x.check(kinds['numpy'] < 2 ** 32, 'valid seed')


@harness(quick=[dict(n=n) for n in (1, 2, 3)])
def exits(x, n):
    """A warning for each abnormally ended worker and for no other."""
    x.opaque_str()
    w = World(x)
    w.codes = [x.int('code%d' % i, -64, 255) for i in range(n)]
    fails = x.choice('fails', [-1, 0])
    with stand_ins(w), warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        def f(i):
            if fails == i:
                raise Boom
        async_.run_async(n, f)
    ws = [str(m.message) for m in ws
          if issubclass(m.category, async_.AbnormalExitWarning)]
    if fails == 0:
        w.codes[0] = 1
    bad = [i for i in range(n) if w.codes[i] != 0]
    x.check(len(ws) == len(bad), 'one warning for each abnormal exit')
    for i, m in zip(bad, ws):
        x.check('#%d ' % i in m and str(1000 + i) in m, 'which process')
        x.check(('signal' in m) == bool(w.codes[i] < 0),
                'killed or failed')


@harness(quick=[{}])
def seeding(x):
    """One call seeds every random source with the given seed."""
    x.opaque_str()
    w = World(x)
    s = x.int('seed', 0, 2 ** 32 - 1)
    gpus = x.choice('gpus', [(), (-1,), (-1, -1)])
    old = os.environ.get('CHAINER_SEED')
    with stand_ins(w):
        if gpus:
            random_seed.set_random_seed(s, gpus)
        else:
            random_seed.set_random_seed(s)
        env = os.environ.get('CHAINER_SEED')
    x.check(sorted(k for k, _ in w.seeds) == ['numpy', 'random'],
            'both generators')
    for _, v in w.seeds:
        x.check(v == s, 'the seed given')
    x.check(env == str(s), 'chainer\'s seed')
    x.check(os.environ.get('CHAINER_SEED') == old, 'restored')
