"""Saving and loading: agents, their models and optimizers."""
import os
import pickle
import shutil
import tempfile
from unittest import mock

import chainer.functions as F
import chainerrl
from chainerrl.agent import AttributeSavingMixin

from symx.api import *
from checks._agents import *
from checks._rigs import *

BOUNDS = ('trees of up to 5 savable objects, 3 deep, attributes absent or '
          'present, saved once or twice (over an older save); every agent '
          'class: 0..2 updates before saving, 0..1 in the loading agent, one '
          'update and evaluation after; arbitrary parameters, rewards and '
          'optimizer states (momentum SGD, and Adam on one model)')
ASSUMPTIONS = ['numpy.savez and numpy.load store arrays faithfully (replaced '
               'by a stand-in that keeps real files); reals stand for floats']


class Npz(dict):
    """What numpy.load returns."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    @property
    def files(self):
        return list(self)


class Disk(object):
    """A scratch directory; archives hold symbolic arrays."""

    def __init__(self, x):
        self.x = x
        self.ps = []

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='symx_c44_')
        if self.x.symbolic:
            def save(file, **kw):
                pickle.dump({k: np.array(v, copy=True) for k, v in
                             kw.items()}, file)

            def load(file, **kw):
                with open(file, 'rb') as f:
                    return Npz(pickle.load(f))
            self.ps = [mock.patch.object(np, 'savez_compressed', save),
                       mock.patch.object(np, 'savez', save),
                       mock.patch.object(np, 'load', load)]
            for p in self.ps:
                p.start()
        return self

    def __exit__(self, *a):
        for p in reversed(self.ps):
            p.stop()
        shutil.rmtree(self.d)

    def path(self, *names):
        return os.path.join(self.d, *names)


class Node(AttributeSavingMixin):
    saved_attributes = ()

    def __init__(self, **kw):
        self.saved_attributes = tuple(kw)
        self.__dict__.update(kw)
        self.unsaved = 'kept'


def link(x, name):
    l = x.build(lambda: Table(2, 1))
    l.T.array = x.reals(name, (2, 1), -2, 2)
    return l


def tree(x, tag, bits):
    """A tree of savable objects and its links by path."""
    links = {}

    def lk(path):
        links[path] = link(x, tag + '_'.join(path))
        return links[path]
    kw = dict(a=lk(('a',)))
    if bits['none']:
        kw['b'] = None
    if bits['sub']:
        s = dict(a=lk(('s', 'a')))
        if bits['deep']:
            s['t'] = Node(a=lk(('s', 't', 'a')), b=lk(('s', 't', 'b')))
        kw['s'] = Node(**s)
        if bits['shared']:
            kw['u'] = kw['s']
    kw['z'] = lk(('z',))
    return Node(**kw), links


@harness(quick=[{}])
def trees(x):
    """Every saved attribute, at any depth, comes back; the last save
    counts; nothing else changes."""
    bits = {k: x.flag(k) for k in ('none', 'sub', 'deep', 'shared')}
    n, links = tree(x, 'p', bits)
    with Disk(x) as disk:
        if x.flag('twice'):
            n.save(disk.path('dir', 'agent'))
            for k, l in links.items():
                l.T.array = x.reals('new' + '_'.join(k), (2, 1), -2, 2)
        want = {k: l.T.array.copy() for k, l in links.items()}
        n.save(disk.path('dir', 'agent'))
        for k, l in links.items():
            x.eq(l.T.array, want[k], 'saving changes nothing')
        m, got = tree(x, 'q', bits)
        m.load(disk.path('dir', 'agent'))
        for k, l in got.items():
            x.eq(l.T.array, want[k], 'loaded: ' + '/'.join(k))
        x.check(m.unsaved == 'kept', 'other attributes')
        # loading does not tie the copies together
        for l in links.values():
            l.T.array[...] = 0
        for k, l in got.items():
            x.eq(l.T.array, want[k], 'independent: ' + '/'.join(k))


@harness(quick=[dict(depth=d) for d in (0, 1, 2)])
def loops(x, depth):
    """A cyclic structure is refused, not followed forever; one object at two
    places is fine."""
    top = Node(a=link(x, 'a'))
    n = top
    for i in range(depth):
        n.child = Node(a=link(x, 'a%d' % i))
        n.saved_attributes += ('child',)
        n = n.child
    n.saved_attributes += ('back',)
    cyclic = x.flag('cyclic')
    n.back = top if cyclic else Node(a=link(x, 'b'))
    with Disk(x) as disk:
        if cyclic:
            x.raises(AssertionError, lambda: top.save(disk.path('d')), 'cycle')
        else:
            top.save(disk.path('d'))
            top.save(disk.path('d'))
            top.load(disk.path('d'))


def same(x, A, B, msg):
    for (a, la), (b, lb) in zip(A.links, B.links):
        pa, pb = dict(la.namedparams()), dict(lb.namedparams())
        x.check(pa.keys() == pb.keys(), msg + ': parameters')
        for k in sorted(pa):
            x.eq(pb[k].array, pa[k].array, '%s: %s%s' % (msg, a, k))


@harness(quick=[dict(name=n, before=b) for n in AGENTS for b in (0, 1)
                if (n, b) != ('PPO', 1)],
         thorough=[dict(name=n, before=b) for n in AGENTS for b in (1, 2)],
         time_limit=300)
def agents(x, name, before):
    """An agent loaded from a save acts and learns on as the saved one
    would."""
    x.fixed_perm = True
    r = [x.real('r%d' % i, -2, 2) for i in range(4)]
    A = Rig(x, name, 'p', r)
    for k in range(before):
        A.update(k)
    with Disk(x) as disk:
        A.ag.save(disk.path('agent'))
        B = Rig(x, name, 'q', r)
        if x.flag('used'):
            B.update(3)
        B.ag.load(disk.path('agent'))
    same(x, A, B, 'loaded')
    x.eq(B.act(), A.act(), 'action')
    A.update(2)
    B.update(2)
    same(x, A, B, 'after the next update')


OPT = dict(momentum=lambda: chainer.optimizers.MomentumSGD(lr=0.5),
           adam=lambda: chainer.optimizers.Adam(alpha=0.5),
           rmsprop=lambda: chainer.optimizers.RMSprop(lr=0.5),
           async_=lambda: chainerrl.optimizers.rmsprop_async.RMSpropAsync(
               lr=0.5))


@harness(quick=[dict(kind=k) for k in ('momentum', 'adam', 'async_')],
         thorough=[dict(kind=k, n=2) for k in OPT])
def optimizers(x, kind, n=1):
    """An optimizer whose parameters were updated, partly or not at all,
    goes on where it was."""
    def mk(tag):
        a, b = link(x, tag + 'a'), link(x, tag + 'b')
        m = x.build(lambda: chainer.ChainList(a, b))
        o = x.build(lambda: OPT[kind]().setup(m))
        return Node(model=m, optimizer=o)

    def step(node, i, which):
        def loss():
            y = 0
            for j in (0, 1):
                if which[j]:
                    y = y + F.sum(node.model[j].T) * g[i]
            return y
        if any(which):
            node.optimizer.update(loss)
    g = [x.real('g%d' % i, 1, 2) for i in range(n + 2)]
    A = mk('p')
    for i in range(n):
        step(A, i, [x.flag('up%d_%d' % (i, j)) for j in (0, 1)])
    B = mk('q')
    if x.flag('used'):
        step(B, n, (True, True))
    with Disk(x) as disk:
        A.save(disk.path('d'))
        B.load(disk.path('d'))
    x.check(B.optimizer.t == A.optimizer.t, 'number of updates')
    for N_ in (A, B):
        step(N_, n + 1, (True, True))
    for j in (0, 1):
        x.eq(B.model[j].T.array, A.model[j].T.array, 'next update')
