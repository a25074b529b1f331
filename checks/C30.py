"""Sharing parameters and optimizer states between asynchronous workers."""
import contextlib
import multiprocessing as mp
import multiprocessing.sharedctypes  # noqa

import sys

import chainer.links as L
import chainerrl.experiments.train_agent_async  # noqa
from chainerrl.misc import async_
from chainerrl.misc.namedpersistent import namedpersistent
from chainerrl.optimizers import rmsprop_async

from symx.api import *
from checks._agents import *
from checks._rigs import Rig

BOUNDS = ('two or three workers with the same network (nested chains, chain '
          'lists, batch normalization and scalar persistents) with arbitrary '
          'parameters, statistics and optimizer states; <= 6 successive '
          'in-place writes by arbitrary workers')
ASSUMPTIONS = ['reals stand for floats',
               'multiprocessing.RawArray and numpy.frombuffer are stand-ins '
               'with the documented behaviour (a flat array in shared memory '
               'and views of it)']


class Raw(object):
    """multiprocessing.RawArray"""

    def __init__(self, typecode, init):
        self.char = typecode
        a = np.zeros(init, typecode) if isinstance(init, int) else \
            np.array(init, copy=True)
        assert a.ndim == 1, 'RawArray takes flat sequences'
        self.a = a

    def __len__(self):
        return len(self.a)

    def __getitem__(self, i):
        return self.a[i]


_frombuffer = np.frombuffer


def frombuffer(buf, dtype=float, count=-1, offset=0):
    if isinstance(buf, Raw):
        assert np.dtype(dtype).itemsize == np.dtype(buf.char).itemsize
        return buf.a[:]
    return _frombuffer(buf, dtype, count, offset)


@contextlib.contextmanager
def shared_memory():
    old = mp.RawArray, np.frombuffer
    mp.RawArray, np.frombuffer = Raw, frombuffer
    try:
        yield
    finally:
        mp.RawArray, np.frombuffer = old


class Scalar(chainer.Link):
    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.p = chainer.Parameter(np.zeros((2, 1), dtype=np.float32))
        self.add_persistent('scale', 1.5)
        self.add_persistent('count', np.zeros((), dtype=np.int32))


def net():
    m = chainer.Chain()
    with m.init_scope():
        m.s = Scalar()
        m.sub = chainer.ChainList(
            L.Linear(1, 2), chainer.Chain(bn=L.BatchNormalization(2)))
    return m


def fill(x, m, p):
    x.link_params(m, -2, 2, p)
    m.s.scale = x.real(p + 'scale', 1, 2)
    m.s.count = x.ints(p + 'count', (), 0, 5)
    bn = m.sub[1].bn
    bn.avg_mean = x.reals(p + 'mean', 2, -1, 1)
    bn.avg_var = x.reals(p + 'var', 2, 0, 1)
    bn.N = x.int(p + 'N', 0, 3)


def cells(m):
    """name -> array or scalar of everything to be shared."""
    d = {k: p.array for k, p in m.namedparams()}
    d['scale'], d['count'] = m.s.scale, m.s.count
    bn = m.sub[1].bn
    d['mean'], d['var'], d['N'] = bn.avg_mean, bn.avg_var, bn.N
    return d


def vals(m):
    return {k: v.copy() if hasattr(v, 'copy') else v
            for k, v in cells(m).items()}


def same(x, a, b, msg):
    x.check(sorted(a) == sorted(b), msg)
    for k in a:
        x.eq(a[k], b[k], msg + ' ' + k)


@harness(quick=[dict(workers=2, tup=False), dict(workers=3, tup=True)])
def params(x, workers, tup):
    ms = x.build(lambda: [net() for _ in range(workers)])
    for i, m in enumerate(ms):
        with m.init_scope():
            m.z = chainer.Parameter(np.zeros((), 'f4'))
        fill(x, m, 'w%d_' % i)
    want = vals(ms[0])
    with shared_memory():
        if tup:
            shared, = async_.as_shared_objects((ms[0],))
            for m in ms[1:]:
                r, = async_.synchronize_to_shared_objects((m,), (shared,))
                x.check(r is m, 'returns the link')
        else:
            shared = async_.share_params_as_shared_arrays(ms[0])
            for m in ms[1:]:
                async_.set_shared_params(m, shared)
    for m in ms:
        same(x, vals(m), want, 'initial shared values')
    # a write by anyone is seen by everyone, and by nobody else's neighbour
    names = sorted(want)
    for j, k in enumerate(names):
        w = x.choice('writer%d' % j, [0, workers - 1]) if j % 2 else \
            j // 2 % workers
        c = cells(ms[w])[k]
        new = x.ints('new' + k, c.shape, 6, 9) if k in ('count', 'N') else \
            x.reals('new' + k, c.shape, 3, 4)
        c[...] = new
        want[k] = new
        for m in ms:
            same(x, vals(m), want, 'writes are shared:')
    for p in ms[0].params():
        x.check(p.array.dtype == np.float32, 'dtype kept')
    async_.make_params_not_shared(ms[0])
    for k, p in ms[0].namedparams():
        x.eq(p.array, want[k], 'value kept when unsharing')
        p.array[...] += 1
    for k, p in ms[1].namedparams():
        x.eq(p.array, want[k], 'no longer shared')


@harness(quick=[{}])
def refused(x):
    """Arrays that match no parameter are an error, not ignored."""
    a, b = x.build(lambda: (net(), chainer.Chain(s=Scalar())))
    with shared_memory():
        sh = async_.extract_params_as_shared_arrays(a)
        x.raises(AssertionError, lambda: async_.set_shared_params(b, sh),
                 'left-over shared arrays')
    x.raises(ValueError, lambda: async_.as_shared_objects('x'),
             'unknown objects')
    x.raises(ValueError,
             lambda: async_.synchronize_to_shared_objects('x', None),
             'unknown objects')


@harness(quick=[dict(kind=k, tup=t) for k in ('rmsprop', 'adam', 'momentum')
                for t in (False, True)])
def states(x, kind, tup):
    """Optimizer states (moments) are shared; workers keep their own
    parameters' identity."""
    mk = dict(rmsprop=lambda: rmsprop_async.RMSpropAsync(lr=0.1),
              adam=lambda: chainer.optimizers.Adam(),
              momentum=lambda: chainer.optimizers.MomentumSGD())[kind]

    def build():
        r = []
        for _ in range(2):
            m = chainer.Chain(a=Table(2, 1), l=L.Linear(1, 1))
            with m.init_scope():
                m.z = chainer.Parameter(np.zeros((), 'f4'))
            o = mk()
            o.setup(m)
            r.append((m, o))
        return r
    (m0, o0), (m1, o1) = x.build(build)
    for m in (m0, m1):
        x.link_params(m, -1, 1, 'p%d' % (m is m1))
    want = {}
    for k, p in sorted(m0.namedparams()):
        async_.ensure_initialized_update_rule(p)
        st = p.update_rule.state
        for n in sorted(st):
            st[n] = x.reals('st{}{}'.format(k, n), p.shape, 0, 1)
            want[k, n] = st[n].copy()
    with shared_memory():
        if tup:
            sh = async_.as_shared_objects((o0, m0))
            async_.synchronize_to_shared_objects((o1, m1), sh)
        else:
            sh = async_.share_states_as_shared_arrays(o0)
            async_.set_shared_states(o1, sh)

    def look(msg):
        for o in (o0, o1):
            got = {(k, n): v for k, p in o.target.namedparams()
                   for n, v in p.update_rule.state.items()}
            x.check(sorted(got) == sorted(want), msg)
            for kn, v in got.items():
                x.eq(v, want[kn], msg)
    look('initial states')
    for j, (o, o_) in enumerate([(o0, o1), (o1, o0)]):
        for k, p in sorted(o.target.namedparams()):
            for n, v in sorted(p.update_rule.state.items()):
                # in place, as update rules write
                new = x.reals('new{}{}{}'.format(j, k, n), v.shape, 1, 2)
                v[...] = new
                want[k, n] = new
        look('states are shared')
    if tup:
        for k, p in m0.namedparams():
            p.array[...] = 7
        for p in m1.params():
            x.eq(p.array, np.full(p.shape, 7.), 'links in tuples are shared')


@harness(quick=[{}])
def persistents(x):
    """namedpersistent lists every persistent value once, by path."""
    m = x.build(net)
    fill(x, m, 'p_')
    got = list(namedpersistent(m))
    names = [k for k, _ in got]
    x.check(sorted(names) == sorted(
        ['/s/count', '/s/scale', '/sub/1/bn/N', '/sub/1/bn/avg_mean',
         '/sub/1/bn/avg_var']), 'paths')
    d = dict(got)
    x.check(d['/s/count'] is m.s.count, 'value')
    x.eq(d['/s/scale'], m.s.scale, 'value')
    x.check(d['/sub/1/bn/avg_mean'] is m.sub[1].bn.avg_mean, 'value')
    x.check(d['/sub/1/bn/avg_var'] is m.sub[1].bn.avg_var, 'value')
    x.eq(d['/sub/1/bn/N'], m.sub[1].bn.N, 'value')


TA = sys.modules['chainerrl.experiments.train_agent_async']
LOCAL = dict(A3C=['model'], NSQ=['q_function'], ACER=['model'], PCL=['model'])


def cells_of(ag):
    """All numbers the worker has in the shared memory."""
    r = {}
    for a in ag.shared_attributes:
        o = getattr(ag, a)
        if isinstance(o, chainer.Link):
            for k, p in o.namedparams():
                r[a + k] = p.array
        elif isinstance(o, mp.sharedctypes.Synchronized):
            r[a] = np.asarray(o.value)
        else:
            for k, p in o.target.namedparams():
                for n, v in (p.update_rule.state or {}).items():
                    r[a + k + '.' + n] = v
    return r


@harness(quick=[dict(name=n) for n in LOCAL],
         thorough=[dict(name=n, updates=3) for n in LOCAL], time_limit=300)
def agents(x, name, updates=2):
    """Workers of an asynchronous agent: every update of a worker is an
    update of everyone's shared parameters and moments, and reaches no other
    worker's own model before that worker synchronizes."""
    r = [x.real('r%d' % i, -2, 2) for i in range(4)]
    R = [Rig(x, name, 'w%d' % i, r) for i in range(2)]
    o = R[0].ag.optimizer
    for k, p in sorted(o.target.namedparams()):
        async_.ensure_initialized_update_rule(p)
        for n, v in sorted(p.update_rule.state.items()):
            p.update_rule.state[n] = x.reals('st' + k + n, v.shape, 0, 1)
    first = {k: v.copy() for k, v in cells_of(R[0].ag).items()}
    with shared_memory():
        sh = TA.extract_shared_objects_from_agent(R[0].ag)
        for q in R:
            TA.set_shared_objects(q.ag, sh)
    ag = [q.ag for q in R]

    def own(i):
        d = {}
        for a in LOCAL[name]:
            l = getattr(ag[i], a)
            if a == 'model' or name == 'NSQ':
                for k, p in l.namedparams():
                    d[a + k] = p.array.copy()
        return d

    def agree(msg):
        a, b = cells_of(ag[0]), cells_of(ag[1])
        x.check(sorted(a) == sorted(b), msg)
        for k in a:
            x.eq(a[k], b[k], msg + ': ' + k)
        return {k: v.copy() for k, v in a.items()}
    now = agree('same shared values')
    for k in first:
        x.eq(now[k], first[k], 'sharing changes nothing: ' + k)
    for t in range(updates):
        w = x.choice('w%d' % t, [0, 1])
        before = own(1 - w)
        R[w].update(t)
        agree('an update is everyone\'s')
        same(x, own(1 - w), before, 'models are the workers\' own')
        # the next thing a worker does with its model, it does in sync
        ag[1 - w].sync_parameters()
        loc, glob = own(1 - w), cells_of(ag[w])
        for k, v in loc.items():
            x.eq(v, glob['shared_' + k], 'synchronized: ' + k)
