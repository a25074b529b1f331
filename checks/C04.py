from symx.api import *
from chainerrl.misc.prioritized import SumTreeQueue, MinTreeQueue

BOUNDS = ('<= 6 operations (thorough: 8; append, popleft, overwrite at any valid index) '
          'on trees of <= 6 elements (bigger: <= 9 appends, <= 7 removals, '
          'then <= 2 operations); arbitrary positive priorities')
ASSUMPTIONS = ['priorities are positive reals; reals stand for floats']


def total(vs):
    s = 0
    for v in vs:
        s = s + v
    return s


def check(x, st, mt, m, msg):
    x.check(st.length == len(m) and mt.length == len(m), msg + ': length')
    x.eq(st.sum(), total(m), msg + ': sum')
    if m:
        lo = mt.min()
        for v in m:
            x.le(lo, v, msg + ': min is a lower bound')
        x.check(lor([lo == v for v in m]), msg + ': min is attained')
    else:
        x.check(mt.min() == float('inf'), msg + ': min of nothing')


def step(x, t, st, mt, m):
    op = x.choice('op%d' % t, ['append', 'pop', 'set'])
    v = x.real('v%d' % t, 0)
    x.assume(v > 0)
    if op == 'append':
        st.append(v)
        mt.append(v)
        m.append(v)
    elif op == 'pop':
        if m:
            w = m.pop(0)
            x.eq(st.popleft(), w, 'popleft value')
            x.eq(mt.popleft(), w, 'popleft value (min tree)')
        else:
            x.raises(AssertionError, st.popleft, 'popleft of nothing')
    else:
        if m:
            i = int(x.int('i%d' % t, 0, len(m) - 1))
            st[i] = v
            mt[i] = v
            m[i] = v


@harness(quick=[dict(T=6)], thorough=[dict(T=8)], time_limit=200)
def small(x, T):
    st, mt, m = SumTreeQueue(), MinTreeQueue(), []
    for t in range(T):
        step(x, t, st, mt, m)
        check(x, st, mt, m, 'after a history') if t >= 3 else None


@harness(quick=[dict(n=n, pops=p, T=t) for n, p, t in ((5, 2, 3), (9, 5, 3), (7, 7, 4), (17, 9, 2))],
         thorough=[dict(n=n, pops=p, T=3) for n in (4, 5, 8, 9, 17)
                   for p in (0, 1, 3, 4)])
def grown(x, n, pops, T):
    """Past several capacity doublings and left shifts."""
    st, mt, m = SumTreeQueue(), MinTreeQueue(), []
    for i in range(n):
        v = x.real('p%d' % i, 0)
        x.assume(v > 0)
        st.append(v)
        mt.append(v)
        m.append(v)
    for i in range(pops):
        x.eq(st.popleft(), m[0], 'popleft value')
        mt.popleft()
        m.pop(0)
        check(x, st, mt, m, 'while shrinking') if i == 1 else None
    for t in range(T):
        step(x, t, st, mt, m)
        check(x, st, mt, m, 'after growth')
    # every element is still addressable: reading via overwrite
    for i in range(len(m)):
        x.eq(st._write(i, m[i]), m[i], 'element value') \
            if hasattr(st, '_write') else None


@harness(quick=[dict(n=n, pops=p) for n, p in ((1, 0), (3, 0), (4, 1),
                                               (5, 2))],
         thorough=[dict(n=n, pops=p) for n in range(1, 8)
                   for p in range(0, n)])
def draw(x, n, pops):
    """A draw u in [0, sum) picks i with prefix_i <= u < prefix_i + p_i."""
    st, m = SumTreeQueue(), []
    for i in range(n):
        v = x.real('p%d' % i, 0)
        x.assume(v > 0)
        st.append(v)
        m.append(v)
    for i in range(pops):
        st.popleft()
        m.pop(0)
    k = int(x.int('k', 1, min(2, len(m))))
    remove = x.flag('remove')
    x.draws[:] = []
    ixs, vals = st.prioritized_sample(k, remove=remove)
    x.check(len(ixs) == k and len(set(ixs)) == k, 'distinct indices')
    left = list(m)
    us = [d for d in x.draws]
    for j, i in enumerate(ixs):
        x.check(0 <= i < len(m), 'index in range')
        x.eq(vals[j], m[i], 'reported priority')
        if len(us) == k:
            lo, hi, u = us[j]
            if lo is not None and lo == 0 and hi == 1 and not x.symbolic:
                u = u * total(left)
            if lo is None or hi is None or x.symbolic is False:
                pre = total(left[:i])
                x.le(pre, u, 'draw below the chosen interval')
                x.le(u, pre + left[i], 'draw above the chosen interval')
        left[i] = 0
    x.eq(st.sum(), total(left) if remove else total(m),
         'sum after sampling')
