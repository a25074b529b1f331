"""Ready-made networks: what they compute."""
from fractions import Fraction

import chainer.functions as F
import chainer.links as L

import chainerrl
from chainerrl import links as CL
from chainerrl import policies as PO
from chainerrl import q_functions as QF
from chainerrl import v_functions as VF
from chainerrl.links.mlp_bn import MLPBN

from symx.api import *

BOUNDS = ('0..3 hidden layers of 1..2 units, 1..2 inputs, actions and '
          'atoms, batches of 1..2; all weights, biases, inputs, actions, '
          'action bounds, noise and normalization statistics (test mode)')
ASSUMPTIONS = ['reals stand for floats; exp, tanh, log are uninterpreted '
               'functions with their algebraic laws; sqrt is exact',
               'chainer.functions (linear, relu, tanh, softmax, softplus, '
               'lstm, fixed_batch_normalization) are the reference']

ACT = {'relu': F.relu, 'tanh': F.tanh, 'twice': lambda v: v * 2 + 1}


class Ref(object):
    """Functional evaluation from the (saved) names of the parameters."""

    def __init__(self, x, link, lo=-2, hi=2):
        x.link_params(link, lo, hi)
        self.p = {k: v.array for k, v in link.namedparams()}
        self.used = set()

    def get(self, name):
        self.used.add(name)
        return self.p[name]

    def linear(self, pre, v):
        return F.linear(v, self.get(pre + '/W'), self.get(pre + '/b'))

    def mlp(self, pre, v, n, act):
        for i in range(n):
            v = act(self.linear('%s/hidden_layers/%d' % (pre, i), v))
        return self.linear(pre + '/output', v)

    def lstm(self, pre, v, st):
        z = F.linear(v, self.get(pre + '/upward/W'),
                     self.get(pre + '/upward/b'))
        if st is not None:
            z = z + F.linear(st[1], self.get(pre + '/lateral/W'))
        else:
            self.get(pre + '/lateral/W')
        c = st[0] if st is not None else chainer.Variable(
            np.zeros((v.shape[0], z.shape[1] // 4), dtype=np.float32))
        return F.lstm(c, z)

    def done(self, x):
        x.check(self.used == set(self.p), 'every parameter takes part')


def var(x, name, shape, lo=-2, hi=2):
    return chainer.Variable(x.reals(name, shape, lo, hi))


def bounds(x, d):
    """min and max action."""
    lo = x.reals('min', (d,), -2, 0)
    hi = x.reals('max', (d,), 0, 2)
    return lo, hi


def tanh_into(v, lo, hi):
    return F.tanh(v) * ((hi - lo) / 2)[None] + ((hi + lo) / 2)[None]


HID = [(), (1,), (2, 1), (1, 2, 1)]


@harness(quick=[dict(hid=h, act=a, d=d) for h, a, d in
                zip(HID, ('relu', 'twice', 'relu', 'tanh'), (2, 2, 1, 1))],
         thorough=[dict(hid=h, act=a, d=2) for h in HID for a in ACT])
def mlp(x, hid, act, d):
    m = x.build(lambda: CL.MLP(d, 2, hid, nonlinearity=ACT[act]))
    r = Ref(x, m)
    sizes = [d] + list(hid) + [2]
    x.check(sorted(v.shape for v in r.p.values()) == sorted(
        [(b, a) for a, b in zip(sizes, sizes[1:])] +
        [(b,) for b in sizes[1:]]), 'sizes')
    v = var(x, 'v', (2, d))
    x.eq(m(v).array, r.mlp('', v, len(hid), ACT[act]).array, 'output')
    r.done(x)


class BN(object):
    """Batch normalization with arbitrary statistics (test mode)."""

    def __init__(self, x, m):
        self.s = {}
        for name, l in sorted(m.namedlinks()):
            if isinstance(l, L.BatchNormalization):
                n = l.avg_mean.shape
                x.eq(l.avg_var, np.ones(n), 'initial variance')
                x.eq(l.avg_mean, np.zeros(n), 'initial mean')
                l.avg_mean = x.reals('mean' + name, n, -1, 1)
                l.avg_var = x.reals('var' + name, n, Fraction(1, 4), 2)
                self.s[name] = l
        self.used = set()

    def __call__(self, r, name, v):
        self.used.add(name)
        l = self.s[name]
        return F.fixed_batch_normalization(
            v, r.get(name + '/gamma'), r.get(name + '/beta'), l.avg_mean,
            l.avg_var, eps=l.eps)

    def mlp(self, r, pre, v, n, act, inp, out):
        if inp:
            v = self(r, pre + '/input_bn', v)
        for i in range(n):
            p = '%s/hidden_layers/%d' % (pre, i)
            v = act(self(r, p + '/bn', r.linear(p + '/linear', v)))
        v = r.linear(pre + '/output', v)
        return self(r, pre + '/output_bn', v) if out else v

    def done(self, x):
        x.check(self.used == set(self.s), 'every normalization takes part')


@harness(quick=[dict(hid=h, inp=i, out=o) for h in ((), (1,), (1, 1))
                for i, o in ((True, False), (False, True), (True, True))])
def mlpbn(x, hid, inp, out):
    m = x.build(lambda: MLPBN(1, 1, hid, normalize_input=inp,
                              normalize_output=out))
    bn = BN(x, m)
    r = Ref(x, m)
    v = var(x, 'v', (2, 1))
    with chainer.using_config('train', False):
        x.eq(m(v).array, bn.mlp(r, '', v, len(hid), F.relu, inp, out).array,
             'output')
    r.done(x)
    bn.done(x)


@harness(quick=[dict(n=n) for n in (0, 1, 2)])
def q_discrete(x, n):
    act = 'tanh' if n == 1 else 'relu'
    m = x.build(lambda: QF.FCStateQFunctionWithDiscreteAction(
        2, 2, 1 + n % 2, n, nonlinearity=ACT[act]))
    r = Ref(x, m)
    v = var(x, 'v', (2, 2))
    y = m(v)
    w = r.mlp('/model', v, n, ACT[act])
    x.check(isinstance(y, chainerrl.action_value.DiscreteActionValue), 'type')
    x.eq(y.q_values.array, w.array, 'Q values')
    r.done(x)


@harness(quick=[dict(n=n, atoms=k) for n, k in ((0, 2), (1, 3))])
def q_distributional(x, n, atoms):
    m = x.build(
        lambda: QF.DistributionalFCStateQFunctionWithDiscreteAction(
            1, 2, atoms, -1, 2, 1, n))
    r = Ref(x, m)
    v = var(x, 'v', (2, 1))
    y = m(v)
    h = F.reshape(r.mlp('/model/0', v, n, F.relu), (2, 2, atoms))
    w = F.softmax(h, axis=2)
    x.eq(y.q_dist.array, w.array, 'probabilities')
    z = [-1 + 3 * Fraction(i, atoms - 1) for i in range(atoms)]
    for b in range(2):
        for a in range(2):
            x.eq(y.q_values.array[b, a],
                 sum(w.array[b, a, i] * z[i] for i in range(atoms)),
                 'expected return')
    r.done(x)


@harness(quick=[dict(sa=s, n=n, steps=k) for s in (False, True)
                for n, k in ((0, 2), (1, 2))])
def q_lstm(x, sa, n, steps):
    """LSTM Q-functions over several steps."""
    if sa:
        m = x.build(lambda: QF.FCLSTMSAQFunction(1, 1, 1, n,
                                                 nonlinearity=ACT['twice']))
        act = ACT['twice']
    else:
        m = x.build(lambda: QF.FCLSTMStateQFunction(1, 2, 1, n))
        act = F.relu
    r = Ref(x, m, -1, 1)
    st = None
    for t in range(steps):
        v = var(x, 'v%d' % t, (1, 1), -1, 1)
        if sa:
            a = var(x, 'a%d' % t, (1, 1), -1, 1)
            y = m(v, a)
            v = F.concat((v, a), axis=1)
            # the LSTM's input layer has no hidden layers' activation
            h = act(r.mlp('/fc', v, n, act))
        else:
            y = m(v).q_values
            h = F.relu(r.mlp('/fc', v, n, F.relu))
        st = r.lstm('/lstm', h, st)
        x.eq(y.array, r.linear('/out', st[1]).array, 'output')
    r.done(x)


@harness(quick=[dict(d=1, n=1, bn=False, scale=True),
                dict(d=1, n=2, bn=False, scale=False),
                dict(d=2, n=1, bn=False, scale=False),
                dict(d=1, n=1, bn=True, scale=True)],
         thorough=[dict(d=2, n=1, bn=True, scale=False),
                   dict(d=2, n=2, bn=False, scale=True)])
def q_quadratic(x, d, n, bn, scale):
    """NAF: q(a) = v - (a - mu)' L L' (a - mu) / 2."""
    from gym.spaces import Box
    lo, hi = np.array([-1, -2.])[:d], np.array([1, 0.5])[:d]
    space = x.build(lambda: Box(lo.astype('f4'), hi.astype('f4'),
                                dtype=np.float32))
    cls = QF.FCBNQuadraticStateQFunction if bn else \
        QF.FCQuadraticStateQFunction
    m = x.build(lambda: cls(1, d, 1, n, space, scale_mu=scale))
    if bn:
        norm = BN(x, m)
    r = Ref(x, m, -1, 1)
    v = var(x, 's', (1, 1), -1, 1)
    a = x.reals('a', (1, d), -2, 2)
    with chainer.using_config('train', False):
        av = m(v)
        q = av.evaluate_actions(chainer.Variable(a)).array
        if bn:
            h = norm.mlp(r, '/hidden_layers', v, n - 1, F.relu, True, False)
        else:
            h = v
            for i in range(n):
                h = F.relu(r.linear('/hidden_layers/%d' % i, h))
    mu = r.linear('/mu', h)
    if scale:
        mu = tanh_into(mu, hi * 0 + lo, hi)
    D = F.exp(r.linear('/mat_diag', h)).array[0]
    Lt = [[D[0]]]
    if d == 2:
        nd = r.linear('/mat_non_diag', h).array[0]
        Lt = [[D[0], 0], [nd[0], D[1]]]
    u = [a[0, i] - mu.array[0, i] for i in range(d)]
    w = 0
    for j in range(d):
        c = sum(Lt[i][j] * u[i] for i in range(j, d))
        w = w + c * c
    x.eq(q.reshape(-1)[0], r.linear('/v', h).array[0, 0] - w / 2, 'Q value',
         tol=1e-4)
    x.eq(av.max.array.reshape(-1)[0], r.linear('/v', h).array[0, 0] - (
        0 if scale else av_gap(x, r, mu, Lt, lo, hi, d)), 'best value',
        tol=1e-4)
    r.done(x)


def av_gap(x, r, mu, Lt, lo, hi, d):
    """Loss of value by clipping the best action into the bounds."""
    u = []
    for i in range(d):
        m = mu.array[0, i]
        u.append(smax(float(lo[i]), smin(float(hi[i]), m)) - m)
    w = 0
    for j in range(d):
        c = sum(Lt[i][j] * u[i] for i in range(j, d))
        w = w + c * c
    return w / 2


@harness(quick=[dict(kind='fc', n=0), dict(kind='fc', n=2),
                dict(kind='late', n=1), dict(kind='late', n=2),
                dict(kind='bn', n=1), dict(kind='latebn', n=1),
                dict(kind='latebn', n=2)])
def q_sa(x, kind, n):
    """State-action Q-functions."""
    cls = dict(fc=QF.FCSAQFunction, late=QF.FCLateActionSAQFunction,
               bn=QF.FCBNSAQFunction, latebn=QF.FCBNLateActionSAQFunction)
    act = 'twice' if n == 2 else 'relu'
    act = ACT[act]
    m = x.build(lambda: cls[kind](2 if kind == 'fc' else 1, 1, 1, n,
                                  nonlinearity=act))
    bn = BN(x, m)
    r = Ref(x, m, -1, 1)
    s = var(x, 's', (2, 2 if kind == 'fc' else 1), -1, 1)
    a = var(x, 'a', (2, 1), -1, 1)
    with chainer.using_config('train', False):
        y = m(s, a)
        if kind == 'fc':
            w = r.mlp('', F.concat((s, a), axis=1), n, act)
        elif kind == 'bn':
            w = bn.mlp(r, '', F.concat((s, a), axis=1), n, act, True, False)
        else:
            if kind == 'late':
                h = r.mlp('/obs_mlp', s, 0, act)
            else:
                h = bn.mlp(r, '/obs_mlp', s, 0, act, True, True)
            w = r.mlp('/mlp', F.concat((act(h), a), axis=1), n - 1, act)
    x.eq(y.array, w.array, 'Q value')
    r.done(x)
    bn.done(x)


@harness(quick=[dict(kind=k, n=n, bound=b) for k, n, b in
                (('fc', 0, True), ('fc', 2, True), ('fc', 1, False),
                 ('bn', 1, True), ('lstm', 0, True), ('lstm', 1, False))])
def deterministic(x, kind, n, bound):
    """Deterministic policies, bounded by tanh or not."""
    d = 2 if kind == 'fc' else 1
    lo, hi = bounds(x, d) if bound else (None, None)
    act = ACT['twice'] if n == 2 else F.relu
    cls = dict(fc=PO.FCDeterministicPolicy, bn=PO.FCBNDeterministicPolicy,
               lstm=PO.FCLSTMDeterministicPolicy)[kind]
    m = x.build(lambda: cls(1, n, 1, d, min_action=lo, max_action=hi,
                            bound_action=bound, nonlinearity=act))
    bn = BN(x, m)
    r = Ref(x, m, -1, 1)
    st = None
    for t in range(2 if kind == 'lstm' else 1):
        v = var(x, 'v%d' % t, (2, 1) if kind != 'lstm' else (1, 1), -1, 1)
        with chainer.using_config('train', False):
            y = m(v)
            if kind == 'fc':
                w = r.mlp('/model', v, n, act)
            elif kind == 'bn':
                w = bn.mlp(r, '/model', v, n, act, True, False)
            else:
                st = r.lstm('/model/lstm', act(r.mlp('/model/fc', v, n,
                                                     act)), st)
                w = r.linear('/model/out', st[1])
        if bound:
            w = tanh_into(w, lo, hi)
        for z in (y.sample(), y.most_probable):
            x.eq(z.array, w.array, 'action')
            if bound:
                for i in range(z.shape[0]):
                    for j in range(d):
                        x.le(lo[j], z.array[i, j], 'lower bound')
                        x.le(z.array[i, j], hi[j], 'upper bound')
    r.done(x)
    bn.done(x)


@harness(quick=[dict(n=n, t=t, bound=b) for n, t, b in
                ((0, 'spherical', True), (0, 'diagonal', False),
                 (1, 'diagonal', True), (2, 'spherical', False))])
def gaussian(x, n, t, bound):
    """Gaussian policies: mean and variance."""
    d = 2
    lo, hi = bounds(x, d) if bound else (None, None)
    mv = x.real('min_var', 0, 1)
    act = ACT['twice'] if n == 2 else F.relu
    m = x.build(lambda: PO.FCGaussianPolicy(
        1, d, n, 1, min_action=lo, max_action=hi, bound_mean=bound,
        var_type=t, nonlinearity=act, min_var=mv))
    r = Ref(x, m, -1, 1)
    v = var(x, 'v', (2, 1), -1, 1)
    y = m(v)
    h = v
    for i in range(n):
        h = act(r.linear('/%d' % (i + 2), h))
    mean = r.linear('/0', h)
    if bound:
        mean = tanh_into(mean, lo, hi)
    s = F.softplus(r.linear('/1', h)).array
    x.eq(y.mean.array, mean.array, 'mean')
    for i in range(2):
        for j in range(d):
            x.eq(y.var.array[i, j],
                 s[i, j if t == 'diagonal' else 0] + mv, 'variance')
    r.done(x)


@harness(quick=[dict(kind=k, n=n, t=t, bound=b) for k, n, t, b in
                (('independent', 1, 'spherical', True),
                 ('independent', 2, 'diagonal', False),
                 ('independent', 0, 'diagonal', True),
                 ('fixed', 0, 'scalar', True), ('fixed', 2, 'array', False),
                 ('head', 0, 'spherical', False),
                 ('head', 0, 'diagonal', False))])
def covariance(x, kind, n, t, bound):
    """Gaussian policies whose variance doesn't depend on the state."""
    d = 2
    lo, hi = bounds(x, d) if bound else (None, None)
    act = ACT['twice'] if n == 2 else F.relu
    kw = dict(n_hidden_layers=n, n_hidden_channels=1, min_action=lo,
              max_action=hi, bound_mean=bound, nonlinearity=act)
    if kind == 'fixed':
        vr = x.real('var', Fraction(1, 4), 2) if t == 'scalar' else \
            x.reals('var', (d,), Fraction(1, 4), 2)
        if t == 'scalar':
            # a Python number
            vr = x.choice('scalar_var', [0.5, 2.0])
        m = x.build(lambda: PO.FCGaussianPolicyWithFixedCovariance(
            1, d, vr, **kw))
        pre = ''
    elif kind == 'independent':
        m = x.build(lambda: PO.FCGaussianPolicyWithStateIndependentCovariance(
            1, d, var_type=t, **kw))
        pre = '/hidden_layers'
    else:
        m = x.build(lambda: PO.GaussianHeadWithStateIndependentCovariance(
            d, var_type=t))
    r = Ref(x, m, -1, 1)
    if kind == 'head':
        h = var(x, 'mean', (2, d))
        y = m(h)
    else:
        v = var(x, 'v', (2, 1), -1, 1)
        y = m(v)
        h = v
        for i in range(n):
            h = act(r.linear('%s/%d' % (pre, i), h))
        h = r.linear('%s/%d' % (pre, n), h)
        if bound:
            h = tanh_into(h, lo, hi)
    x.eq(y.mean.array, h.array, 'mean')
    for j in range(d):
        if kind == 'fixed':
            w = vr if t == 'scalar' else vr[j]
        else:
            w = F.softplus(chainer.Variable(r.get('/var_param'))).array
            w = w[j if t == 'diagonal' else 0]
        for i in range(2):
            x.eq(y.var.array[i, j], w, 'variance')
    r.done(x)


@harness(quick=[dict(n=0, mp=0), dict(n=1, mp=0.125)])
def softmax(x, n, mp):
    """Softmax policies: inverse temperature and least probability."""
    beta = x.real('beta', Fraction(1, 4), 2)
    m = x.build(lambda: PO.FCSoftmaxPolicy(1, 2, n, 1, beta=beta,
                                           min_prob=mp))
    r = Ref(x, m, -1, 1)
    v = var(x, 'v', (2, 1), -1, 1)
    y = m(v)
    h = r.mlp('/model', v, n, F.relu)
    w = F.softmax(h * beta) * (1 - 2 * mp) + mp
    x.eq(y.all_prob.array, w.array, 'probabilities', tol=1e-4)
    r.done(x)


@harness(quick=[dict(n=0), dict(n=2)])
def values(x, n):
    act = ACT['tanh'] if n else F.relu
    m = x.build(lambda: VF.FCVFunction(2, n, 1, nonlinearity=act))
    r = Ref(x, m)
    v = var(x, 'v', (2, 2))
    x.eq(m(v).array, r.mlp('/model', v, n, act).array, 'value')
    r.done(x)


def noise_ok(x, draws, n):
    x.check(len(draws) == n, 'one draw per input and output')
    r = x.array([d[2] for d in draws])
    return np.copysign(np.sqrt(np.abs(r)), r)


@harness(quick=[dict(bias=b, i=i, o=o) for b in (True, False)
                for i, o in ((1, 1), (2, 1), (1, 2))])
def noisy(x, bias, i, o):
    """Factorized noise: one per input and output, shared by the batch."""
    m = x.build(lambda: CL.FactorizedNoisyLinear(
        L.Linear(i, o, nobias=not bias)))
    r = Ref(x, m, -1, 1)
    v = x.reals('v', (2, i), -1, 1)
    x.draws[:] = []
    y = m(chainer.Variable(v)).array
    e = noise_ok(x, x.draws, i + o)
    ex, ey = e[:i], e[i:]
    mw, sw = r.get('/mu/W'), r.get('/sigma/W')
    for b in range(2):
        for k in range(o):
            w = sum(v[b, j] * (mw[k, j] + sw[k, j] * ey[k] * ex[j])
                    for j in range(i))
            if bias:
                w = w + r.get('/mu/b')[k] + r.get('/sigma/b')[k] * ey[k]
            x.eq(y[b, k], w, 'output', tol=1e-4)
    r.done(x)


@harness(quick=[dict(kind=k) for k in ('mlp', 'seq', 'nested', 'nobias')])
def to_noisy(x, kind):
    """Every linear layer becomes noisy, the rest stays; the converted model
    computes with the new layers."""
    mk = dict(
        mlp=lambda: CL.MLP(1, 1, (1,)),
        seq=lambda: CL.Sequence(L.Linear(1, 1), F.relu, L.Linear(1, 1)),
        nested=lambda: QF.SingleModelStateQFunctionWithDiscreteAction(
            CL.Sequence(CL.MLP(1, 1, (1,)), F.relu, L.Scale(1, (1,)),
                        L.Linear(1, 1))),
        nobias=lambda: CL.Sequence(L.Linear(1, 1, nobias=True)))
    m = x.build(mk[kind])
    n = sum(isinstance(l, L.Linear) for l in m.links())
    x.build(lambda: CL.to_factorized_noisy(m))
    noisies = [l for l in m.links()
               if isinstance(l, CL.FactorizedNoisyLinear)]
    x.check(len(noisies) == n, 'every linear layer')
    x.check(sum(isinstance(l, L.Linear) for l in m.links()) == 2 * n,
            'no other linear layer is left')
    r = Ref(x, m, -1, 1)
    x.draws[:] = []
    v = var(x, 'v', (1, 1), -1, 1)
    y = m(v)
    if kind == 'nested':
        y = y.q_values
    e = noise_ok(x, x.draws, 2 * n)

    def lin(pre, u, k):
        ex, ey = e[2 * k], e[2 * k + 1]
        u = u * (r.get(pre + '/mu/W')[0, 0] +
                 r.get(pre + '/sigma/W')[0, 0] * ey * ex)
        if kind != 'nobias':
            u = u + r.get(pre + '/mu/b')[0] + r.get(pre + '/sigma/b')[0] * ey
        return u

    def relu(u):
        return smax(u, 0)
    u = v.array[0, 0]
    if kind == 'mlp':
        w = lin('/output', relu(lin('/hidden_layers/0', u, 0)), 1)
    elif kind == 'seq':
        w = lin('/1', relu(lin('/0', u, 0)), 1)
    elif kind == 'nobias':
        w = lin('/0', u, 0)
    else:
        w = lin('/model/0/output', relu(lin('/model/0/hidden_layers/0', u,
                                            0)), 1)
        w = relu(w) * r.get('/model/1/W')[0]
        w = lin('/model/2', w, 2)
    x.eq(y.array[0, 0], w, 'output', tol=1e-4)
    r.done(x)


@harness()
def sequence(x):
    """Keyword arguments go to the layers that take them, only."""
    log = []

    class Scaled(chainer.Link):
        def __call__(self, v, scale=1):
            log.append(('scaled', scale))
            return v * scale

    def both(v, **kw):
        log.append(('both', dict(kw)))
        return v

    def shift(v, shift):
        return v + shift
    s = x.build(lambda: CL.Sequence(Scaled(), shift, both, L.Linear(1, 1),
                                    Scaled()))
    r = Ref(x, s)
    v = var(x, 'v', (2, 1))
    k, d = x.real('k', -2, 2), x.real('d', -2, 2)
    kw = dict(shift=d)
    if x.flag('scale'):
        kw['scale'] = k
    else:
        k = 1
    y = s(v, **kw)
    x.check([l[0] for l in log] == ['scaled', 'both', 'scaled'], 'order')
    x.check(set(log[1][1]) == set(kw), 'all keyword arguments')
    x.eq(y.array, (r.linear('/1', v * k + d) * k).array, 'output')


@harness()
def branched(x):
    """Every branch sees the same arguments."""
    b = x.build(lambda: CL.Branched(L.Linear(1, 2), CL.MLP(1, 1, (1,)),
                                    L.Linear(1, 1)))
    r = Ref(x, b)
    v = var(x, 'v', (2, 1))
    y = b(v)
    x.check(isinstance(y, tuple) and len(y) == 3, 'one output per branch')
    x.eq(y[0].array, r.linear('/0', v).array, 'first')
    x.eq(y[1].array, r.mlp('/1', v, 1, F.relu).array, 'second')
    x.eq(y[2].array, r.linear('/2', v).array, 'third')
    r.done(x)


def replace(m, **kw):
    with m.init_scope():
        for k, v in kw.items():
            delattr(m, k)
            setattr(m, k, v)


@harness(quick=[dict(n=2), dict(n=3)])
def dueling(x, n):
    """Advantages are centred over the actions (the convolutions replaced by
    none, streams of small size)."""
    m = x.build(lambda: QF.DuelingDQN(n))
    x.build(lambda: replace(m, conv_layers=chainer.ChainList(),
                            a_stream=CL.MLP(1, n, [1]),
                            v_stream=CL.MLP(1, 1, [1])))
    r = Ref(x, m)
    v = var(x, 'v', (2, 1))
    q = m(v).q_values.array
    a = r.mlp('/a_stream', v, 1, F.relu).array
    s = r.mlp('/v_stream', v, 1, F.relu).array
    for b in range(2):
        mean = sum(a[b, i] for i in range(n)) / n
        for i in range(n):
            x.eq(q[b, i], s[b, 0] + a[b, i] - mean, 'Q value')
    r.done(x)


@harness(quick=[dict(n=2, atoms=2)], thorough=[dict(n=3, atoms=3)])
def dueling_dist(x, n, atoms):
    """The same for distributions: centred logits, softmax over the atoms."""
    m = x.build(lambda: QF.DistributionalDuelingDQN(n, atoms, -1, 2))
    x.build(lambda: replace(m, conv_layers=chainer.ChainList(),
                            main_stream=L.Linear(1, 2),
                            a_stream=L.Linear(1, n * atoms),
                            v_stream=L.Linear(1, atoms)))
    r = Ref(x, m)
    v = var(x, 'v', (2, 1))
    y = m(v)
    h = F.relu(r.linear('/main_stream', v))
    a = F.reshape(r.linear('/a_stream', h[:, 0:1]), (2, n, atoms)).array
    s = r.linear('/v_stream', h[:, 1:2]).array
    z = np.stack([np.stack([np.stack([
        s[b, k] + a[b, i, k] - sum(a[b, j, k] for j in range(n)) / n
        for k in range(atoms)]) for i in range(n)]) for b in range(2)])
    w = F.softmax(chainer.Variable(z), axis=2).array
    x.eq(y.q_dist.array, w, 'probabilities', tol=1e-4)
    zv = [-1 + 3 * Fraction(i, atoms - 1) for i in range(atoms)]
    for b in range(2):
        for i in range(n):
            x.eq(y.q_values.array[b, i],
                 sum(y.q_dist.array[b, i, k] * zv[k] for k in range(atoms)),
                 'expected return')
    r.done(x)
