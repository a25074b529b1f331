"""Reference formulas shared by the numeric checks."""
from symx.api import *


def exp(x, v):
    return np.exp(x.array([v], 'f8'))[0]


def softmax(x, p, logits, msg):
    """p is the softmax of the logits (stated without divisions)."""
    es = [exp(x, v) for v in logits]
    n = len(es)
    x.eq(sum(p[i] for i in range(n)), 1, msg + ' (sums to 1)')
    for i in range(n):
        j = (i + 1) % n
        if n > 1:
            x.eq(p[i] * es[j], p[j] * es[i], msg)
