"""What check modules import."""
import numpy as np  # noqa: F401
import chainer  # noqa: F401
import chainerrl  # noqa: F401

from symx import engine as E  # noqa: F401
from symx import nparr as A  # noqa: F401
from symx.engine import ite, land, lnot, lor, implies, smax, smin  # noqa
from symx.engine import PathAbort, Unsupported, is_sym  # noqa: F401
from symx.harness import Base as _B
from symx import patch as _P
from symx.runner import harness  # noqa: F401


def _build(self, f):
    """Run model construction on real numpy, seeded; -> its result."""
    h = _Seeded()
    with _P.unpatched(), _P.rng_stub(h):
        return f()


class _Seeded(object):
    def __init__(self):
        import random
        self.choice_p = []
        self.r = type(random._inst)(0) if not isinstance(
            random._inst, type) else random._inst

    def draw_real(self, lo, hi, hi_open=True):
        return self.r.getrandbits(20) / float(1 << 20) * (hi - lo) + lo

    def draw_int(self, lo, hi):
        return lo + self.r.getrandbits(30) % (hi - lo + 1)

    def assume_rng(self, c):
        pass


_B.build = _build
