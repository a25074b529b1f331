"""Harness handle (`x`), the path explorer, and concrete replay."""
from fractions import Fraction
import os
import math
import gc
import random as _random
import sys
import time
import traceback

import numpy as np
import z3

from symx import engine as E
from symx.nf import NF
from symx import nparr as A
from symx import patch as P
from symx.engine import CheckFailed, PathAbort, Unsupported

MARGIN = Fraction(1, 64)


def to_plain(v):
    """Model value -> JSON-able."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return int(v) if v.denominator == 1 else [v.numerator, v.denominator]
    return v


def from_plain(v):
    return Fraction(v[0], v[1]) if isinstance(v, list) else v


class Base(object):
    """API shared by the symbolic and the concrete handle."""
    rng_count = 0
    max_draws = None        # bound on random draws per path

    def _draw(self):
        self.rng_count += 1
        if self.max_draws is not None and self.rng_count > self.max_draws:
            raise PathAbort()

    def draw_real(self, lo, hi, hi_open=True):
        self._draw()
        v = self.real('rng{}'.format(self.rng_count), lo, hi,
                      hi_open=hi_open)
        self.draws.append((lo, hi, v))
        return v

    def draw_int(self, lo, hi):
        self._draw()
        v = self.int('rng{}'.format(self.rng_count), lo, hi)
        self.draws.append((lo, hi, v))
        return v

    def assume_rng(self, c):
        self.assume(c)

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[int(self.int(name, 0, len(seq) - 1))]

    def flag(self, name):
        """A boolean split into its two concrete values."""
        return bool(self.bool(name))

    def reals(self, name, shape, lo=None, hi=None, dtype='f4'):
        if isinstance(shape, int):
            shape = (shape,)
        vals = []
        for i in np.ndindex(*shape):
            vals.append(self.real(name + ''.join('_%d' % j for j in i), lo,
                                  hi))
        return self.array(vals, dtype).reshape(shape)

    def ints(self, name, shape, lo, hi, dtype='i4'):
        if isinstance(shape, int):
            shape = (shape,)
        vals = []
        for i in np.ndindex(*shape):
            vals.append(self.int(name + ''.join('_%d' % j for j in i), lo,
                                 hi))
        return self.array(vals, dtype).reshape(shape)

    def bools(self, name, shape):
        if isinstance(shape, int):
            shape = (shape,)
        vals = [self.bool(name + ''.join('_%d' % j for j in i))
                for i in np.ndindex(*shape)]
        return self.array(vals, '?').reshape(shape)

    replaying = False

    def opaque_str(self):
        pass

    def eq(self, a, b, msg, tol=None):
        """a == b elementwise (scalars, arrays, nested lists)."""
        if E.is_sym(a) and E.is_sym(b):
            return self._eq1(a, b, msg, tol)
        if self.replaying:
            return
        a, b = _arr(a), _arr(b)
        if a.shape != b.shape:
            return self.check(False, msg + ': shapes {} vs {}'.format(
                a.shape, b.shape))
        for i in np.ndindex(*a.shape):
            self._eq1(a[i], b[i], msg + (str(list(i)) if i else ''), tol)

    def le(self, a, b, msg):
        a, b = np.broadcast_arrays(_arr(a), _arr(b))
        for i in np.ndindex(*a.shape):
            self._le1(a[i], b[i], msg + (str(list(i)) if i else ''))

    def same(self, a, b, msg):
        """Discrete equality of concrete structures."""
        self.check(a == b, '{}: {!r} != {!r}'.format(msg, a, b)
                   if not _hassym(a) and not _hassym(b) else msg)

    def raises(self, exc, f, msg):
        try:
            f()
        except exc:
            return
        self.check(False, msg)

    def link_params(self, link, lo=None, hi=None, prefix=''):
        for name, p in sorted(link.namedparams()):
            p.array = self.reals(prefix + name.strip('/').replace('/', '_'),
                                 p.shape, lo, hi)


def _hassym(v):
    return E.is_sym(v) or A.has_sym(v)


def _arr(v):
    if hasattr(v, 'array') and hasattr(v, 'backward'):
        v = v.array
    if isinstance(v, np.ndarray) and not isinstance(v, A.SymArray) and \
            v.dtype != object:
        return A.to_obj(v)
    if isinstance(v, (list, tuple)):
        v = [_arr(u) for u in v]
        if not v:
            return A._real['empty']((0,), dtype=object)
        if any(u.shape != v[0].shape for u in v):
            # ragged: flatten
            return A._real['concatenate']([u.ravel() for u in v])
        return A._real['stack'](v)
    return A.raw(A.wrap(v))


_BOUNDS = {}


class Sym(Base):
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.rng_count = 0
        self.draws = []
        self.choice_p = []

    @property
    def replaying(self):
        return self.ctx.pos < len(self.ctx.prefix)

    # -- inputs
    def _new(self, name, sort, lo, hi, hi_open=False):
        if name in self.ctx.inputs:
            n = 2
            while '{}#{}'.format(name, n) in self.ctx.inputs:
                n += 1
            name = '{}#{}'.format(name, n)
        v = E.const(name, sort)
        self.ctx.inputs[name] = v
        if isinstance(lo, (int, float, Fraction)) and \
                isinstance(hi, (int, float, Fraction)):
            self.ctx.mags[v.get_id()] = max(abs(Fraction(lo)),
                                            abs(Fraction(hi)))
            self.ctx.ranges[v.get_id()] = (lo, hi, hi_open)
        if (lo is None and hi is None) or \
                self.ctx.pos < len(self.ctx.prefix):
            return v
        key = (name, sort.name(), lo, hi, hi_open)
        t = _BOUNDS.get(key)
        if t is None:
            cs = []
            if lo is not None:
                cs.append(v >= _num(lo))
            if hi is not None:
                cs.append(v < _num(hi) if hi_open else v <= _num(hi))
            t = _BOUNDS[key] = z3.And(cs)
        self.ctx.add_input(v, t, lo)
        return v

    def int(self, name, lo, hi):
        if lo is not None and lo == hi:
            return lo
        if lo is not None and hi is not None and lo > hi:
            raise PathAbort()
        return E.SymInt(self._new(name, E._I, lo, hi))

    def real(self, name, lo=None, hi=None, hi_open=False):
        return E.SymReal(self._new(name, E._R, lo, hi, hi_open))

    def bool(self, name):
        return E.SymBool(self._new(name, E._B, None, None))

    def array(self, vals, dtype='f4'):
        return A.wrap(list(vals), dtype)

    def assume(self, c):
        self.ctx.assume(c)

    # -- checks
    def check(self, c, msg):
        self.ctx.oblige(c, msg)

    def _eq1(self, a, b, msg, tol):
        if self.replaying:
            return
        if a is b or (E.is_sym(a) and E.is_sym(b) and a.e.eq(b.e)):
            self.ctx.stats.obligations += 1
            self.ctx.stats.trivial += 1
            return
        if not E.is_sym(a) and not E.is_sym(b):
            if isinstance(a, bool) or isinstance(b, bool):
                return self.check(bool(a) == bool(b), msg)
            if a is None or b is None or isinstance(a, (str, bytes)):
                return self.check(a == b, msg)
            fa, fb = float(a), float(b)
            ok = fa == fb or (fa != fa and fb != fb) or \
                abs(fa - fb) <= float(tol or 1e-6) * (1 + abs(fb))
            return self.check(ok, '{} ({} != {})'.format(msg, fa, fb))
        for p in (a, b):
            if isinstance(p, float) and not math.isfinite(p):
                # inf/nan against finite symbolic
                return self.check(False, '{} ({} vs finite)'.format(msg, p))
        if isinstance(a, (bool, E.SymBool)) and isinstance(
                b, (bool, E.SymBool)):
            return self.check(a == b, msg)
        ta, tb = E._two(E.to_num(a), E.to_num(b))
        if ta.sort() == E._I:
            return self.ctx.oblige(E.mk(z3.simplify(ta == tb)), msg)
        self.ctx.oblige_eq(ta, tb, msg, tol)

    def _le1(self, a, b, msg):
        if not E.is_sym(a) and not E.is_sym(b):
            return self.check(float(a) <= float(b) + 1e-6, msg)
        sp = [v for v in (a, b) if isinstance(v, float)]
        if sp:
            return self.check(a <= b, msg)
        ta, tb = E._two(E.to_num(a), E.to_num(b))
        self.ctx.oblige(E.mk(z3.simplify(ta <= tb)), msg,
                        strong=ta > tb + z3.RealVal(MARGIN)
                        if ta.sort() == E._R else None)

    def note(self, msg):
        pass

    def opaque_str(self):
        """str(symbolic integer) gives a placeholder instead of forking."""
        self.ctx.opaque_str = True


def _num(v):
    return z3.RealVal(v) if isinstance(v, Fraction) else v


class Conc(Base):
    """Concrete handle: the harness runs on ordinary numbers."""
    symbolic = False

    def __init__(self, values, rnd=None):
        self.values = values
        self.rng_count = 0
        self.used = {}
        self.draws = []
        self.choice_p = []
        self.rnd = rnd
        self.checks = 0

    def _get(self, name, lo, hi, kind):
        n, base = 1, name
        while name in self.used:
            n += 1
            name = '{}#{}'.format(base, n)
        self.used[name] = True
        if name in self.values:
            v = from_plain(self.values[name])
        elif kind == 'b':
            v = False
        else:
            v = lo if lo is not None else (hi if hi is not None and hi < 0
                                           else 0)
        return v

    def int(self, name, lo, hi):
        if lo is not None and lo == hi:
            return lo
        if lo is not None and hi is not None and lo > hi:
            raise PathAbort()
        v = int(self._get(name, lo, hi, 'i'))
        if lo is not None and not (lo <= v <= hi):
            v = min(max(v, lo), hi)
        return v

    def real(self, name, lo=None, hi=None, hi_open=False):
        return float(self._get(name, lo, hi, 'f'))

    def draw_real(self, lo, hi, hi_open=True):
        v = super().draw_real(lo, hi, hi_open)
        if lo is not None and hi is not None and not (
                lo <= v < hi if hi_open else lo <= v <= hi):
            # the bounds depend on functions whose values differ here
            raise PathAbort()
        return v

    def bool(self, name):
        return bool(self._get(name, None, None, 'b'))

    def array(self, vals, dtype='f4'):
        return np.array(list(vals), dtype=dtype)

    def assume(self, c):
        if not c:
            raise PathAbort()

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise CheckFailed(msg)

    def _eq1(self, a, b, msg, tol):
        self.checks += 1
        if isinstance(a, (str, bytes)) or a is None or b is None:
            if a != b:
                raise CheckFailed('{} ({!r} != {!r})'.format(msg, a, b))
            return
        fa, fb = float(a), float(b)
        if fa == fb or (fa != fa and fb != fb):
            return
        t = max(float(tol or 0), 2e-3)
        if not abs(fa - fb) <= t * (1 + min(abs(fb), 64.0)):
            raise CheckFailed('{} ({} != {})'.format(msg, fa, fb))

    def _le1(self, a, b, msg):
        self.checks += 1
        if not float(a) <= float(b) + 2e-3 * (1 + min(abs(float(b)), 64.0)):
            raise CheckFailed('{} ({} > {})'.format(msg, float(a), float(b)))

    def note(self, msg):
        pass


class Violation(object):
    def __init__(self, msg, values, detail=''):
        self.msg, self.values, self.detail = msg, values, detail


# ------------------------------------------------------- Ctx: obligations etc.

class Explorer(E.Ctx):
    def __init__(self, **k):
        E.Ctx.__init__(self, **k)
        self.violations = []
        self.violated = set()
        self.witnesses = []
        self.unknown = set()
        self.concolic = []
        self.weak = []

    def add_input(self, v, t, lo):
        self.add(t)
        if self.pos >= len(self.prefix) and self.model is not None and \
                not self._model_ok(t):
            self.model = None

    @property
    def replaying(self):
        # obligations met while re-running a prefix were decided by the path
        # this one was forked from, under the same path condition
        return self.pos < len(self.prefix)

    def oblige(self, c, msg, strong=None):
        if self.replaying:
            return
        self.stats.obligations += 1
        key = msg
        if not E.is_sym(c):
            if c:
                self.stats.trivial += 1
                return
            if key not in self.violated:
                self._record(msg, z3.BoolVal(True))
            raise CheckFailed(msg)
        t = E.to_bool_term(c)
        self._decide(z3.Not(t), msg, key, strong)

    nf = None

    def is_zero(self, t):
        if t.sort() == E._R and E.has_div(t):
            if self.nf is None:
                self.nf = NF(self.sqrts, self.mags)
            n = self.nf.numerator(t)
            if n is not None:
                return n == 0
        return t == 0

    def square_root(self, t):
        if self.nf is None:
            self.nf = NF(self.sqrts, self.mags)
        return self.nf.root(t)

    def oblige_eq(self, ta, tb, msg, tol=None):
        if self.replaying:
            return
        self.stats.obligations += 1
        key = msg
        d = z3.simplify(ta - tb)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            self.stats.trivial += 1
            return
        d2 = z3.simplify(ta - tb, som=True, hoist_mul=False, flat=True)
        if z3.is_rational_value(d2) and d2.numerator_as_long() == 0:
            self.stats.trivial += 1
            return
        if self.nf is None:
            self.nf = NF(self.sqrts, self.mags)
        if self.nf.zero(d, tol):
            self.stats.trivial += 1
            return
        if tol:
            tl = z3.RealVal(Fraction(tol)) * (1 + z3.If(tb >= 0, tb, -tb))
            neg = z3.Or(ta - tb > tl, tb - ta > tl)
        else:
            neg = ta != tb
        m = z3.RealVal(MARGIN) * (1 + z3.If(tb >= 0, tb, -tb))
        self._decide(neg, msg, key, z3.Or(ta - tb > m, tb - ta > m),
                     d, tol)

    def _solve(self, neg):
        r = self.z3check(neg)
        if r != z3.unknown:
            return r, (self.solver.model() if r == z3.sat else None)
        # nonlinear fall-backs
        for mkS in (lambda: z3.SolverFor('QF_NRA'),
                    lambda: z3.Then('simplify', 'purify-arith',
                                    'propagate-values', 'solve-eqs',
                                    'qfnra-nlsat').solver()):
            try:
                s = mkS()
                s.set('timeout', self.timeout_ms)
                s.add(self.pc)
                s.add(neg)
                t0 = time.time()
                self.stats.queries += 1
                r = s.check()
                self.stats.solver_s += time.time() - t0
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        return z3.unknown, None

    def _decide(self, neg, msg, key, strong=None, diff=None, tol=None):
        self.pending.append((neg, msg, key, strong, diff, tol))
        if len(self.pending) >= 64:
            self.flush()

    def flush(self):
        self.weak = []
        self._flush()
        if self.weak:
            raise CheckFailed(self.weak[0])

    def _flush(self):
        pend, self.pending = self.pending, []
        # nonlinear equations with if-then-else terms: split the cases,
        # compare normal forms at the leaves
        hard = [p for p in pend if p[4] is not None and
                _ite_cond([p[4]]) is not None and _nonlin(p[4])]
        if hard:
            self.nsplit = 0
            try:
                self._split([(p[4], p) for p in hard], [])
                done = {id(p) for p in hard}
                pend = [p for p in pend if id(p) not in done]
                self.stats.discharged += len(hard)
            except _GiveUp:
                pass
        if len(pend) > 1:
            r = self.z3check(z3.Or([p[0] for p in pend]))
            if r == z3.unsat:
                self.stats.discharged += len(pend)
                return
        for p in pend:
            self._decide1(*p)

    def _split(self, items, asm):
        live, c = [], None
        for d, p in items:
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                continue
            ci = _ite_cond([d])
            if ci is None and self.nf.zero(d, p[5]):
                continue
            live.append((d, p))
            if c is None:
                c = ci
        if not live:
            return
        self.nsplit += 1
        if self.nsplit > 4000:
            raise _GiveUp()
        if c is None:
            for d, p in live:
                neg = p[0] if p[5] else d != 0
                self.pc.extend(asm)
                try:
                    r, m = self._solve(neg)
                finally:
                    del self.pc[len(self.pc) - len(asm):]
                if r == z3.unknown:
                    raise _GiveUp()
                if r == z3.sat:
                    self._failed(p[1], p[2], neg, p[3], m)
            return
        for v in (True, False):
            lit = c if v else z3.Not(c)
            self.solver.push()
            try:
                self.solver.add(lit)
                self.solver.set('timeout', 1000)
                r = self.z3check()
                self.solver.set('timeout', self.timeout_ms)
                if r != z3.unsat:
                    self._split([(z3.simplify(z3.substitute(
                        d, (c, z3.BoolVal(v)))), p) for d, p in live],
                        asm + [lit])
            finally:
                self.solver.set('timeout', self.timeout_ms)
                self.solver.pop()

    def _decide1(self, neg, msg, key, strong=None, diff=None, tol=None):
        r, m = self._solve(neg)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.sat:
            self._failed(msg, key, neg, strong, m)
            return
        self.stats.inconclusive.append((msg, 'solver: unknown'))
        if msg not in self.unknown and len(self.unknown) < 8:
            # not decided: try some models of the path anyway
            self.unknown.add(msg)
            rnd = _Lcg(len(self.unknown))
            self.concolic += [v for v in (
                self.scattered(rnd) for _ in range(4)) if v]

    def scattered(self, rnd):
        """A model of the path condition with as many reals as possible at
        pseudo-random values."""
        full, self.solver = self.solver, self.light()
        reals = [v for v in self.inputs.values() if v.sort() == E._R]
        eqs = [v == z3.RealVal(Fraction(
            rnd.randint(4, 16) * (2 * rnd.randint(0, 1) - 1), 16))
               for v in reals]
        try:
            self.solver.set('timeout', 2000)
            todo, end = [eqs], time.time() + 10
            self.solver.push()
            try:
                while todo and time.time() < end:
                    part = todo.pop()
                    self.solver.push()
                    self.solver.add(part)
                    if self.z3check() == z3.sat:
                        self.solver.pop()
                        self.solver.add(part)
                        continue
                    self.solver.pop()
                    if len(part) > 1:
                        h = len(part) // 2
                        todo += [part[h:], part[:h]]
                if self.z3check() == z3.sat:
                    return self.values(self.solver.model())
            finally:
                self.solver.pop()
        except E.Budget:
            pass
        finally:
            self.solver.set('timeout', self.timeout_ms)
            self.solver = full

    def _failed(self, msg, key, neg, strong, model):
        if key in self.violated:
            raise CheckFailed(msg)
        if self._record(msg, neg, strong, model):
            raise CheckFailed(msg)
        # only by a margin that may be lost in rounding: look at the other
        # obligations of the path first
        self.weak.append(msg)

    # -- models
    def values(self, m):
        out = {}
        for n, v in self.inputs.items():
            c = m.eval(v, model_completion=True)
            w = E.const_of(c)
            if w is None and z3.is_algebraic_value(c):
                ap = c.approx(20)
                w = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
            if w is None:
                w = 0
            out[n] = to_plain(w)
        return out

    def nice_models(self, extra, n=3, rnd=None):
        """Several models of pc /\\ extra, dyadic and small if possible."""
        reals = [v for v in self.inputs.values() if v.sort() == E._R]
        out = []
        if not extra and (self.ufs or self.sqrts):
            full = self.solver
            self.solver = self.light()
            try:
                return self._nice_models(extra, n, rnd, reals)
            finally:
                self.solver = full
        return self._nice_models(extra, n, rnd, reals)

    def _nice_models(self, extra, n, rnd, reals):
        out = []
        tries = [(4, 4), (16, 16), (64, 64), (None, None)]
        if len(reals) > 400:
            tries = [(None, None)]
        for den, mag in tries:
            self.solver.push()
            try:
                for t in extra:
                    self.solver.add(t)
                if den:
                    for i, v in enumerate(reals):
                        if i < 60:
                            k = z3.Int('nice!%d' % i)
                            self.solver.add(v * den == z3.ToReal(k))
                        self.solver.add(v <= mag, v >= -mag)
                self.solver.set('timeout', min(self.timeout_ms, 3000))
                if rnd is not None and reals and den:
                    # randomised preferences, dropped if they do not fit
                    for v in rnd.sample(reals, min(len(reals), 12)):
                        w = Fraction(rnd.randint(-2 * den, 2 * den), den)
                        self.solver.push()
                        self.solver.add(v == z3.RealVal(w))
                        if self.z3check() != z3.sat:
                            self.solver.pop()
                            self.solver.push()
                        self._npush = getattr(self, '_npush', 0) + 1
                r = self.z3check()
                if r == z3.sat:
                    out.append(self.values(self.solver.model()))
            except E.Budget:
                pass
            finally:
                for _ in range(getattr(self, '_npush', 0)):
                    self.solver.pop()
                self._npush = 0
                self.solver.pop()
                self.solver.set('timeout', self.timeout_ms)
            if len(out) >= n:
                break
        return out

    def _record(self, msg, neg, strong=None, model=None):
        cands = []
        weak = False
        if strong is not None:
            cands += self.nice_models([neg, strong], 3)
            weak = not cands
        if weak and msg + ' (weak)' in self.violated:
            return False
        self.violated.add(msg + ' (weak)' if weak else msg)
        cands += self.nice_models([neg], 2)
        if model is not None:
            cands.append(self.values(model))
        if self.ufs:
            cands += self.refined([neg] + ([strong] if strong is not None
                                           else []))
        self.violations.append(Violation(msg, cands))
        return not weak

    def refined(self, extra, rounds=16, seconds=20):
        """Models in which the uninterpreted functions come ever closer to
        the real ones (facts about their values at the points the previous
        models chose).  Only for finding counterexamples that replay."""
        out, facts = [], []
        end = time.time() + seconds
        reals = [v for v in self.inputs.values() if v.sort() == E._R]
        for k in range(rounds):
            if time.time() > end:
                break
            self.solver.push()
            try:
                for t in extra + facts:
                    self.solver.add(t)
                for v in reals:
                    self.solver.add(v <= 16, v >= -16)
                self.solver.set('timeout', min(self.timeout_ms, 4000))
                if self.z3check() != z3.sat:
                    break
                m = self.solver.model()
            except E.Budget:
                break
            finally:
                self.solver.pop()
                self.solver.set('timeout', self.timeout_ms)
            out.append(self.values(m))
            new = self._uf_facts(m)
            if not new:
                break
            facts += new
        return out[::-1][:4]

    def _uf_facts(self, m):
        def num(t):
            c = m.eval(t, model_completion=True)
            w = E.const_of(c)
            if w is None and z3.is_algebraic_value(c):
                ap = c.approx(20)
                w = Fraction(ap.numerator_as_long(), ap.denominator_as_long())
            return None if w is None else Fraction(w)

        def q(f):
            return z3.RealVal(Fraction(f).limit_denominator(10 ** 9))
        out = []
        for name, args, v in self.ufs.values():
            a0 = [num(a) for a in args]
            v0 = num(v)
            if v0 is None or None in a0:
                continue
            try:
                x = [float(a) for a in a0]
                f0 = (x[0] ** x[1]) if name == 'pow' else getattr(
                    math, {'arctanh': 'atanh'}.get(name, name))(*x)
            except (AttributeError, ValueError, OverflowError,
                    ZeroDivisionError):
                continue
            if isinstance(f0, complex) or abs(f0 - float(v0)) <= \
                    1e-4 * (1 + abs(f0)):
                continue
            d = q(1e-6 * (1 + abs(f0)))
            f = q(f0)
            a, b = args[0], q(a0[0])
            near = z3.And([z3.And(t - q(w) <= z3.Q(1, 10 ** 6),
                                  q(w) - t <= z3.Q(1, 10 ** 6))
                           for t, w in zip(args, a0)])
            e = q(1e-4 * (1 + abs(f0)))
            out.append(z3.Implies(near, z3.And(v <= f + e, v >= f - e)))
            if name in ('exp', 'log', 'tanh', 'arctanh'):
                out.append(z3.Implies(a <= b, v <= f + d))
                out.append(z3.Implies(a >= b, v >= f - d))
            if name == 'exp':
                out.append(v >= f + f * (a - b) - d)
                # chords up to points on either side
                for h in (-1, Fraction(-1, 4), Fraction(1, 4), 1):
                    g = q((math.exp(x[0] + h) - f0) / h)
                    lo, hi = min(h, 0), max(h, 0)
                    out.append(z3.Implies(
                        z3.And(a >= b + q(lo), a <= b + q(hi)),
                        v <= f + g * (a - b) + d))
            elif name == 'log' and x[0] > 0:
                out.append(z3.Implies(a > 0, v <= f + (a - b) / b + d))
            elif name in ('sin', 'cos', 'tanh'):
                g = {'sin': math.cos(x[0]), 'cos': -math.sin(x[0]),
                     'tanh': 1 - math.tanh(x[0]) ** 2}[name]
                t = f + q(g) * (a - b)
                for h in (Fraction(1, 16), Fraction(1, 4)):
                    k = q(h * h) + d
                    out.append(z3.Implies(
                        z3.And(a - b <= q(h), b - a <= q(h)),
                        z3.And(v <= t + k, v >= t - k)))
            elif name == 'pow':
                y, y0 = args[1], a0[1]
                if y0 >= 0:
                    out.append(z3.Implies(
                        z3.And(y == q(y0), a > 0, a <= b), v <= f + d))
                    out.append(z3.Implies(
                        z3.And(y == q(y0), a >= b), v >= f - d))
                else:
                    out.append(z3.Implies(
                        z3.And(y == q(y0), a > 0, a <= b), v >= f - d))
                    out.append(z3.Implies(
                        z3.And(y == q(y0), a >= b), v <= f + d))
        return out

    def record_exception(self, msg, detail):
        """Exception escaping the harness: replay decides what it is."""
        if msg in self.violated:
            return
        self.violated.add(msg)
        self.violations.append(Violation(
            msg, self.nice_models([], 3), detail))


class _Lcg(object):
    """Pseudo-random numbers (the random module is a stand-in here)."""

    def __init__(self, seed):
        self.s = seed * 7919 + 1

    def randint(self, a, b):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) % 2**64
        return a + (self.s >> 33) % (b - a + 1)

    def sample(self, seq, k):
        seq = list(seq)
        return [seq.pop(self.randint(0, len(seq) - 1)) for _ in range(k)]


class _GiveUp(Exception):
    pass


def _nonlin(t):
    """t contains a product or quotient of non-constants, or a function."""
    seen = set()
    stack = [t]
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen or not z3.is_app(t):
            continue
        seen.add(k)
        kd = t.decl().kind()
        cs = t.children()
        if kd == z3.Z3_OP_MUL and sum(
                not z3.is_rational_value(c) for c in cs) > 1:
            return True
        if kd == z3.Z3_OP_DIV and not z3.is_rational_value(cs[1]):
            return True
        if kd == z3.Z3_OP_UNINTERPRETED and cs:
            return True
        stack.extend(cs)
    return False


def _ite_cond(ts):
    """An if-then-else condition in ts that contains no other one."""
    seen = set()
    found = None
    stack = list(ts)
    while stack:
        t = stack.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        if not z3.is_app(t):
            continue
        if t.decl().kind() == z3.Z3_OP_ITE:
            found = t.arg(0)
            stack = [found]     # descend into the condition
            continue
        stack.extend(t.children())
    return found


class FnMonitor(object):
    """Which functions of the code under test ran (sys.monitoring)."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.seen = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 3
        mon.use_tool_id(self.tool, 'symx')
        mon.register_callback(self.tool, mon.events.PY_START, self._cb)
        events = mon.events.PY_START
        self.lines = set()
        if os.environ.get('SYMX_LINES'):
            mon.register_callback(self.tool, mon.events.LINE, self._line)
            events |= mon.events.LINE
        mon.set_events(self.tool, events)
        return self

    def _line(self, code, line):
        if code.co_filename.startswith(self.prefix):
            self.lines.add((code.co_filename[len(self.prefix):], line))
        return sys.monitoring.DISABLE

    def _cb(self, code, off):
        if code.co_filename.startswith(self.prefix):
            self.seen.add(code.co_filename[len(self.prefix):] + ':' +
                          code.co_qualname)
        return sys.monitoring.DISABLE

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.register_callback(self.tool, mon.events.PY_START, None)
        mon.register_callback(self.tool, mon.events.LINE, None)
        mon.free_tool_id(self.tool)
        if self.lines:
            # development aid: lines executed, one file per harness run
            with open(os.path.join(os.environ['SYMX_LINES'], '%d-%d' % (
                    os.getpid(), id(self))), 'a') as f:
                for n, i in sorted(self.lines):
                    f.write('%s:%d\n' % (n, i))


def run_concrete(fn, kw, values):
    """-> ('ok'|'fail'|'exc'|'skip', message)"""
    h = Conc(values)
    try:
        with P.rng_stub(h):
            fn(h, **kw)
    except PathAbort:
        return 'skip', '', h
    except CheckFailed as e:
        return 'fail', e.msg, h
    except Unsupported as e:
        return 'skip', str(e), h
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, AttributeError) and tb and \
                '/checks/' in tb[-1].filename and \
                type(getattr(e, 'obj', None)).__module__.startswith(
                    'chainerrl'):
            # the harness names an attribute that no longer exists
            return 'skip', 'harness out of date: {}'.format(e), h
        where = ''
        for fr in reversed(tb):
            if '/chainerrl/' in fr.filename:
                where = ' at {}:{}'.format(
                    fr.filename.split('/chainerrl/', 1)[1], fr.name)
                break
        return 'exc', '{}: {}{}'.format(type(e).__name__, e, where), h
    return 'ok', '', h


def explore(fn, kw, timeout_ms=10000, max_paths=20000, time_limit=240,
            seed=1, witnesses=4, max_violations=3):
    """Explore every path of harness fn; -> Explorer."""
    ctx = Explorer(timeout_ms=timeout_ms, max_paths=max_paths,
                   time_limit=time_limit, seed=seed)
    rnd = _random.Random(seed)
    rnd_sample = rnd
    ctx.concolic = []
    ctx.work = [E.Item([], None)]
    ctx.complete = True
    ctx.errors = {}
    ngc = 0
    mon = FnMonitor('/repo/')
    gc.collect()
    gc.freeze()
    gc.disable()
    with mon:
        with P.symbolic_mode():
            while ctx.work:
                if ctx.stats.paths >= ctx.max_paths or \
                        time.time() > ctx.deadline:
                    ctx.complete = False
                    break
                item = ctx.work.pop()
                ngc += 1
                if ngc % 500 == 0:
                    gc.collect()
                ctx.start_path(item)
                x = Sym(ctx)
                E.CUR = ctx
                status = 'ok'
                try:
                    with P.rng_stub(x):
                        try:
                            fn(x, **kw)
                        except (PathAbort, Unsupported):
                            ctx.flush()
                            raise
                        except Exception:
                            ctx.flush()
                            raise
                        ctx.flush()
                except PathAbort:
                    status = 'abort'
                    ctx.stats.aborted += 1
                except CheckFailed:
                    status = 'violated'
                except E.Budget:
                    status = 'budget'
                    ctx.complete = False
                    ctx.work.append(item)
                except Unsupported as e:
                    status = 'unsupported'
                    ctx.stats.inconclusive.append(
                        ('path not followed', str(e)))
                    ctx.concolic += ctx.nice_models([], 2)
                except Exception as e:
                    status = 'exception'
                    detail = traceback.format_exc()
                    msg = 'unexpected {}: {}'.format(
                        type(e).__name__, str(e)[:200])
                    try:
                        ctx.record_exception(msg, detail)
                    except E.Budget:
                        pass
                if status == 'budget':
                    E.CUR = None
                    break
                if status == 'ok':
                    ctx.stats.paths += 1
                    # sample witnesses (reservoir)
                    if len(ctx.witnesses) < witnesses or \
                            rnd.random() < witnesses / ctx.stats.paths:
                        try:
                            ws = ctx.nice_models([], 1, rnd)
                        except E.Budget:
                            ws = []
                        if ws:
                            if len(ctx.witnesses) < witnesses:
                                ctx.witnesses.append(ws[0])
                            else:
                                ctx.witnesses[rnd.randrange(
                                    witnesses)] = ws[0]
                E.CUR = None
                if len(ctx.violations) >= max_violations:
                    ctx.complete = False
                    break
    gc.enable()
    ctx.stats.unexplored = len(ctx.work)
    ctx.functions = sorted(mon.seen)
    return ctx
