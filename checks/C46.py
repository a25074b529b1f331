"""The optimizer, the weight decay hook, and initializers."""
import chainer.links as L
from chainerrl import initializers as IN
from chainerrl import optimizers as OP
from chainerrl.misc import async_
from chainerrl.misc import init_like_torch as ILT

from symx.api import *

BOUNDS = ('networks of <= 4 linear and convolution layers (with and without '
          'bias, nested), <= 3 updates with each gradient arbitrary or absent; '
          'lr, eps, alpha, decay rate in (0, 1); initializers: '
          'shapes of 0 to 4 dimensions, arbitrary draws')
ASSUMPTIONS = ['reals stand for floats; sqrt is exact',
               'LAPACK QR: a stand-in returns any Q with orthonormal columns '
               'and any upper triangular R (numpy.linalg.qr in the '
               'orthogonal harness)']


def net():
    m = chainer.Chain()
    with m.init_scope():
        m.fc = L.Linear(1, 1)
        m.sub = chainer.ChainList(L.Linear(1, 1, nobias=True), L.Bias(1, (1,)))
    return m


def setup(x, opt, m):
    x.link_params(m, -2, 2)
    opt.setup(m)
    return opt


def hyper(x, name):
    return x.real(name, 0.0625, 1)


def grads(x, m, t, some=''):
    for k, p in m.namedparams():
        if k.startswith(some) and x.flag('none%d%s' % (t, k)):
            p.grad = None
        else:
            p.grad = x.reals('g%d%s' % (t, k), p.shape, -2, 2)


@harness(quick=[dict(steps=1), dict(steps=2), dict(steps=2, change=True)],
         thorough=[dict(steps=3), dict(steps=3, change=True)])
def rmsprop(x, steps, change=False):
    """ms = alpha ms + (1 - alpha) g^2;  p -= lr g / sqrt(ms + eps)."""
    hp = {k: hyper(x, k) for k in ('lr', 'eps')}
    hp['alpha'] = hyper(x, 'alpha') if steps == 1 else 0.75
    m = x.build(lambda: chainer.ChainList(L.Linear(1, 2)))
    opt = setup(x, OP.RMSpropAsync(**hp), m)
    ms = {k: np.zeros(p.shape) for k, p in m.namedparams()}
    for t in range(steps):
        if change and t:
            # learning rates are decayed by hooks while training
            hp['lr'] = opt.lr = hyper(x, 'lr%d' % t)
            hp['eps'] = opt.eps = hyper(x, 'eps%d' % t)
        grads(x, m, t)
        want, ids = {}, {}
        for k, p in m.namedparams():
            g = p.grad
            if g is None:       # chainer turns these into zeros
                g = np.zeros(p.shape)
            ms[k] = ms[k] * hp['alpha'] + (1 - hp['alpha']) * g * g
            want[k] = p.array - hp['lr'] * g / np.sqrt(ms[k] + hp['eps'])
        opt.update()
        for k, p in m.namedparams():
            x.eq(p.array, want[k], 'parameter after the update')
            x.eq(p.update_rule.state['ms'], ms[k], 'mean square')
    x.check(opt.t == steps, 'number of updates')


@harness(quick=[dict()])
def rmsprop_step(x):
    """The same from any state (hence after any number of updates)."""
    lr, alpha, eps = [hyper(x, k) for k in ('lr', 'alpha', 'eps')]
    m = x.build(lambda: chainer.ChainList(L.Linear(1, 2)))
    opt = setup(x, OP.RMSpropAsync(lr=lr, alpha=alpha, eps=eps), m)
    want = {}
    for k, p in m.namedparams():
        async_.ensure_initialized_update_rule(p)
        ms = p.update_rule.state['ms'] = x.reals('ms' + k, p.shape, 0, 4)
        g = p.grad = x.reals('g' + k, p.shape, -2, 2)
        new = ms * alpha + (1 - alpha) * g * g
        want[k] = p.array - lr * g / np.sqrt(new + eps), new
    ids = {k: (p.array, p.update_rule.state['ms'])
           for k, p in m.namedparams()}
    opt.update()
    for k, p in m.namedparams():
        x.eq(p.array, want[k][0], 'parameter after the update')
        x.eq(p.update_rule.state['ms'], want[k][1], 'mean square')
        # these may be views of memory shared with other processes
        x.eq(ids[k][0], want[k][0], 'the parameter is updated in place')
        x.eq(ids[k][1], want[k][1], 'the state is updated in place')


@harness(quick=[dict()])
def rmsprop_bounded(x):
    """No step is longer than lr / sqrt(1 - alpha), whatever the gradients."""
    lr, alpha, eps = hyper(x, 'lr'), x.real('alpha', 0.0625, 0.9375), \
        hyper(x, 'eps')
    m = x.build(lambda: chainer.ChainList(L.Bias(1, (1,))))
    opt = setup(x, OP.RMSpropAsync(lr=lr, alpha=alpha, eps=eps), m)
    p, = m.params()
    for t in range(2):
        p.grad = x.reals('g%d' % t, (1,), -100, 100)
        old = p.array.copy()
        opt.update()
        d = (p.array - old)[0]
        x.le(d * d * (1 - alpha), lr * lr, 'bounded step')
        x.check((d * p.grad[0] <= 0), 'against the gradient')


@harness(quick=[dict()])
def rmsprop_independent(x):
    """Two optimizers and two parameters never share hyperparameters or
    states."""
    a, b = hyper(x, 'lr_a'), hyper(x, 'lr_b')
    m, n = x.build(lambda: (net(), net()))
    oa = setup(x, OP.RMSpropAsync(lr=a), m)
    ob = setup(x, OP.RMSpropAsync(lr=b), n)
    oc = OP.RMSpropAsync()
    x.check((oa.lr, oa.alpha, oa.eps) == (a, 0.99, 1e-8), 'hyperparameters')
    x.check((ob.lr, ob.alpha, ob.eps) == (b, 0.99, 1e-8), 'hyperparameters')
    x.check((oc.lr, oc.alpha, oc.eps) == (0.01, 0.99, 1e-8), 'defaults')
    grads(x, m, 0)
    oa.update()
    for k, p in n.namedparams():
        s = p.update_rule.state
        if s is not None:
            x.eq(s['ms'], np.zeros(p.shape), 'states are separate')


class Shared(chainer.Link):
    """Names that merely contain 'b', and the bias of an LSTM-like layer."""

    def __init__(self):
        super().__init__()
        with self.init_scope():
            self.b = chainer.Parameter(0, (2,))
            self.bw = chainer.Parameter(0, (2,))
            self.W = chainer.Parameter(0, (1, 2))
            self.log_std = chainer.Parameter(0, ())


@harness(quick=[dict(opt='sgd'), dict(opt='rms'), dict(opt='twice')])
def weight_decay(x, opt):
    rate = hyper(x, 'rate')
    lr = hyper(x, 'lr')
    m = x.build(lambda: chainer.ChainList(net(), Shared()))
    if opt == 'rms':
        o = setup(x, OP.RMSpropAsync(lr=lr, alpha=0.5, eps=0.25), m)
    else:
        o = setup(x, chainer.optimizers.SGD(lr=lr), m)
    if opt == 'twice':
        # the hook of one parameter's rule only
        k0, p0 = sorted(m.namedparams())[x.choice('which', range(4))]
        p0.update_rule.add_hook(OP.NonbiasWeightDecay(rate))
        hooked = {k0}
    else:
        o.add_hook(OP.NonbiasWeightDecay(rate))
        hooked = {k for k, _ in m.namedparams()}
    grads(x, m, 0, '/0/')
    want = {}
    for k, p in m.namedparams():
        g = p.grad
        want[k] = p.array.copy()
        if g is None:           # chainer turns these into zeros
            g = np.zeros(p.shape)
        if k in hooked and not k.endswith('/b'):
            g = g + rate * p.array
        if opt == 'rms':
            want[k] = want[k] - lr * g / np.sqrt(0.5 * g * g + 0.25)
        else:
            want[k] = want[k] - lr * g
    o.update()
    for k, p in m.namedparams():
        x.eq(p.array, want[k], 'biases are not decayed, all others are')


SHAPES = [(3,), (2, 3), (3, 2), (1, 1), (2, 3, 1, 2), (1, 2, 2, 2)]


@harness(quick=[dict(shape=s) for s in SHAPES])
def variance_scaling(x, shape):
    """scale / sqrt(fan in), everywhere."""
    scale = x.real('scale', -2, 2)
    fan_in = shape[0] if len(shape) == 1 else int(np.prod(shape[1:]))
    a = x.reals('old', shape, -1, 1, dtype='f4')
    IN.VarianceScalingConstant(scale)(a)
    for i in np.ndindex(shape):
        x.eq(a[i] * a[i] * fan_in, scale * scale, 'magnitude', tol=1e-4)
        x.check(a[i] * scale >= 0, 'sign')


ORTHO = [(1, 1), (2, 2), (2, 3), (3, 2), (2, 1, 2), (1, 3), (3, 1)]


@harness(quick=[dict(shape=s, mode=m) for s in ORTHO
                for m in ('auto', 'projection', 'embedding', 'basis')])
def orthogonal(x, shape, mode):
    """Rows (or columns) are orthogonal and of length ``scale``."""
    scale = x.real('scale', 0.125, 2)
    out, in_ = shape[0], int(np.prod(shape[1:]))
    a = x.reals('old', shape, -1, 1)
    init = IN.Orthogonal(scale, mode=mode)
    if (in_ > out and mode in ('embedding', 'basis')) or (
            in_ < out and mode in ('projection', 'basis')):
        x.raises(ValueError, lambda: init(a), 'impossible shapes are refused')
        return
    q_ = {}

    def qr(m, *args, **kw):
        n, k = m.shape
        assert n >= k
        q = x.reals('q', (n, k), -1, 1)
        r = x.reals('rr', (k, k), -2, 2)
        for i in range(k):
            for j in range(i + 1):
                x.assume((q[:, i] * q[:, j]).sum() == (1 if i == j else 0))
            x.assume(r[i, i] != 0)
        q_['q'], q_['r'] = q.copy(), r
        return q, r
    old = np.linalg.qr
    np.linalg.qr = qr
    try:
        init(a)
    finally:
        np.linalg.qr = old
    w = a.reshape(out, in_)
    n = min(out, in_)
    for i in range(n):
        for j in range(i + 1):
            d = (w[i] * w[j]).sum() if out <= in_ else \
                (w[:, i] * w[:, j]).sum()
            x.eq(d, scale * scale if i == j else 0, 'orthogonal system')
    # the unique one: the diagonal of R made positive
    q, r = q_['q'], q_['r']
    for i in range(n):
        col = w[i] if out < in_ else w[:, i]
        s = 1 if r[i, i] > 0 else -1
        x.eq(col, q[:, i] * s * scale, 'sign convention')


@harness(quick=[dict(kind=k) for k in ('linear', 'nobias', 'conv', 'chain')])
def torch_init(x, kind):
    """Uniform in +-1/sqrt(fan in) for weights and biases of all linear and
    convolution layers."""
    def build():
        if kind == 'linear':
            return L.Linear(4, 2)
        if kind == 'nobias':
            return L.Linear(4, 2, nobias=True)
        if kind == 'conv':
            return L.Convolution2D(1, 1, ksize=(2, 2))
        return chainer.ChainList(
            chainer.Sequential(L.Linear(1, 1)),
            L.Convolution2D(2, 1, ksize=(2, 1), nobias=True), L.Bias(1, (1,)))
    m = x.build(build)
    x.link_params(m, 10, 20)
    before = {k: p.array.copy() for k, p in m.namedparams()}
    ILT.init_like_torch(m)
    n = {'linear': 4, 'nobias': 4, 'conv': 4}.get(kind)
    for k, p in m.namedparams():
        if kind == 'chain':
            n = {'/0/0/W': 1, '/0/0/b': 1, '/1/W': 4}.get(k)
        if n is None:
            x.eq(p.array, before[k], 'other links are left alone')
            continue
        for i in np.ndindex(p.shape):
            x.le(p.array[i] * p.array[i] * n, 1, 'within the bounds')
    x.check(len(x.draws) == sum(
        p.size for k, p in m.namedparams() if not (
            kind == 'chain' and k.startswith('/2'))),
        'every value has a draw of its own')
