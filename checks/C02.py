from symx.api import *
from chainerrl.misc.collections import RandomAccessQueue

BOUNDS = ('<= 3 operations (thorough: 4) (append, extend of <= 2, popleft, read and write '
          'at any integer index in [-6, 6], iterate) from an initial content '
          'of <= 3 elements, maxlen 0..3 or none; element values arbitrary')
ASSUMPTIONS = []


def same(x, q, m, msg):
    x.check(len(q) == len(m), msg + ': length')
    got = list(q)
    x.check(len(got) == len(m), msg + ': iteration length')
    for a, b in zip(got, m):
        x.eq(a, b, msg + ': iteration order')
    for i in range(len(m)):
        x.eq(q[i], m[i], msg + ': indexing')
        x.eq(q[i - len(m)], m[i - len(m)], msg + ': negative indexing')


@harness(quick=[dict(T=3, bounded=b, init=i) for b, i in (
                    (True, 0), (True, 2), (False, 3))],
         thorough=[dict(T=4, bounded=b, init=i) for b in (True, False)
                   for i in (0, 1, 3)],
         time_limit=200)
def ops(x, T, bounded, init):
    maxlen = int(x.int('maxlen', 0, 3)) if bounded else None
    first = [x.real('i%d' % i) for i in range(init)]
    q = RandomAccessQueue(first, maxlen=maxlen) if init else \
        RandomAccessQueue(maxlen=maxlen)
    m = list(first)

    def trim():
        while maxlen is not None and len(m) > maxlen:
            m.pop(0)
    trim()
    same(x, q, m, 'initial')
    for t in range(T):
        op = x.choice('op%d' % t, ['append', 'extend', 'popleft', 'set'])
        v = x.real('v%d' % t)
        if op == 'append':
            q.append(v)
            m.append(v)
            trim()
        elif op == 'extend':
            k = int(x.int('k%d' % t, 0, 2))
            vs = [x.real('v%d_%d' % (t, i)) for i in range(k)]
            q.extend(vs)
            m.extend(vs)
            trim()
        elif op == 'popleft':
            if m:
                x.eq(q.popleft(), m.pop(0), 'popleft')
            else:
                x.raises(IndexError, q.popleft, 'popleft of an empty queue')
        elif m:
            i = int(x.int('ix%d' % t, -1, 0))
            q[i] = v
            m[i] = v
    same(x, q, m, 'after operations')
    # any read or write at any index
    i = x.int('ix', -6, 6)
    ok = land(i >= -len(m), i < len(m))
    if not ok:
        x.raises(IndexError, lambda: q[i], 'read out of range')

        def put():
            q[i] = 0
        x.raises(IndexError, put, 'write out of range')
    else:
        x.eq(q[i], m[int(i)], 'read')
        w = x.real('w')
        q[i] = w
        m[int(i)] = w
    same(x, q, m, 'after a write')


@harness(quick=[dict(n=4), dict(n=7)], thorough=[dict(n=n) for n in
                                                 range(1, 9)])
def sample(x, n):
    """sample(k): k elements at k distinct positions."""
    k = int(x.int('k', 0, min(n, 3) if n < 7 else 2))
    x.max_draws = 6
    vs = list(range(100, 100 + n))
    q = RandomAccessQueue(vs[:2])
    q.popleft()
    q.append(vs[0])
    q.extend(vs[2:])
    got = q.sample(k)
    x.check(len(got) == k and len(set(got)) == k and
            all(g in vs for g in got), 'distinct stored elements')
    x.check(list(q) == [vs[1], vs[0]] + vs[2:], 'content untouched')
    if n > 1:
        x.raises(ValueError, lambda: q.sample(n + 1), 'larger than content')
