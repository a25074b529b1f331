"""Normal form of real terms: rational functions over atoms.

An atom is an input, an exponential of an irreducible summand (exp(a - 2b) is
E_a / E_b^2), a logarithm of a reduced polynomial, or any other term.  Two
terms with the same normal form are equal wherever their denominators do not
vanish.  Used to discharge equalities before asking the solver; everything
that is not recognised here goes to the solver.
"""
import math
from fractions import Fraction

import z3

LIMIT = 4000


class TooBig(Exception):
    pass


ONE = {(): Fraction(1)}


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        e2 = d.get(k, 0) + e
        if e2:
            d[k] = e2
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        c2 = r.get(m, 0) + s * c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 8:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mulmono(m1, m2)
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def _isconst(p):
    return not p or (len(p) == 1 and () in p)


class NF(object):
    def __init__(self, sqrts=None, mags=None):
        self.mags = mags if mags is not None else {}
        self.memo = {}
        self.keep = []
        self.terms = {}
        self.sq = {}        # id of a square root -> its radicand
        self.sqrts = sqrts if sqrts is not None else {}
        self.expid = {}     # frozen rational function -> atom id
        self.logid = {}

    # -- atoms: (kind, id)
    def atom(self, t):
        self.keep.append(t)
        self.terms[t.get_id()] = t
        return {(((0, t.get_id()), 1),): Fraction(1)}

    def frac(self, t):
        """t as (numerator, denominator)."""
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            self.keep.append(t)
            r = self.memo[k] = self._frac(t)
        return r

    def _frac(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = t.as_fraction() if z3.is_rational_value(t) else \
                Fraction(t.as_long())
            return ({(): v} if v else {}), ONE
        if not z3.is_app(t):
            return self.atom(t), ONE
        kd = t.decl().kind()
        cs = t.children()
        if kd == z3.Z3_OP_ADD:
            # group equal denominators
            r = self.frac(cs[0])
            for c in cs[1:]:
                r = self.add(r, self.frac(c))
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.frac(cs[0])
            for c in cs[1:]:
                r = self.add(r, self.frac(c), -1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            n, d = self.frac(cs[0])
            return {m: -c for m, c in n.items()}, d
        if kd == z3.Z3_OP_MUL:
            r = self.frac(cs[0])
            for c in cs[1:]:
                r = self.mul(r, self.frac(c))
            return r
        if kd == z3.Z3_OP_DIV:
            n, d = self.frac(cs[1])
            if not n:
                return self.atom(t), ONE
            return self.mul(self.frac(cs[0]), (d, n))
        if kd == z3.Z3_OP_TO_REAL:
            return self.frac(cs[0])
        if kd == z3.Z3_OP_POWER and z3.is_rational_value(cs[1]):
            e = cs[1].as_fraction()
            if e.denominator == 1 and 0 <= e.numerator <= 8:
                r = (ONE, ONE)
                for _ in range(e.numerator):
                    r = self.mul(r, self.frac(cs[0]))
                return r
        if kd == z3.Z3_OP_UNINTERPRETED and len(cs) == 1:
            name = t.decl().name()
            if name == 'uf_exp':
                return self.exp(self.frac(cs[0]))
            if name == 'uf_log':
                return self.log(self.frac(cs[0]))
        return self.atom(t), ONE

    def add(self, a, b, s=1):
        if a[1] == b[1]:
            return padd(a[0], b[0], s), a[1]
        if _isconst(b[1]) and _isconst(a[1]) or len(a[1]) == len(b[1]) == 1:
            return self.mono_add(a, b, s)
        return (padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s),
                pmul(a[1], b[1]))

    def mono_add(self, a, b, s):
        """Single-term denominators: keep a common one small."""
        (m1, c1), = a[1].items()
        (m2, c2), = b[1].items()
        d1, d2 = dict(m1), dict(m2)
        lcm = dict(d1)
        for k, e in d2.items():
            lcm[k] = max(lcm.get(k, 0), e)
        f1 = tuple(sorted((k, e - d1.get(k, 0)) for k, e in lcm.items()
                          if e != d1.get(k, 0)))
        f2 = tuple(sorted((k, e - d2.get(k, 0)) for k, e in lcm.items()
                          if e != d2.get(k, 0)))
        return (padd(pmul(a[0], {f1: 1 / c1}), pmul(b[0], {f2: 1 / c2}), s),
                {tuple(sorted(lcm.items())): Fraction(1)})

    def mul(self, a, b):
        n1, d1 = a
        n2, d2 = b
        # cancel equal factors across
        if n1 == d2:
            return self.reduce(n2, d1)
        if n2 == d1:
            return self.reduce(n1, d2)
        return self.reduce(pmul(n1, n2), pmul(d1, d2))

    def reduce(self, n, d):
        """Cancel the monomial content of d (all atoms nonzero there)."""
        if len(d) == 1 and n:
            (m, c), = d.items()
            if not m:
                return (n if c == 1 else
                        {k: v / c for k, v in n.items()}), ONE
        return n, d

    def _split(self, f):
        """Content: f = monomial * coefficient * primitive fraction."""
        out = []
        for p in f:
            ms = [dict(m) for m in p]
            com = dict(ms[0])
            for m in ms[1:]:
                for k in list(com):
                    e = min(com[k], m.get(k, 0))
                    if e:
                        com[k] = e
                    else:
                        del com[k]
                for k, e in m.items():
                    if k not in com and e < 0:
                        com[k] = e
            inv = tuple(sorted((k, -e) for k, e in com.items()))
            q = pmul(p, {inv: Fraction(1)}) if inv else p
            lead = q[min(q)]
            q = {m: c / lead for m, c in q.items()}
            out.append((com, lead, q))
        return out

    def exp(self, f):
        n, d = f
        if not n:
            return ONE, ONE
        num, den = [], []
        extra = (ONE, ONE)
        back = None
        for m, c in n.items():
            if len(d) == 1:
                (md, cd), = d.items()
                unit = _mulmono(m, tuple((k, -e) for k, e in md))
                key = ('u', unit)
                co = c / cd
                if len(unit) == 1 and unit[0][0][0] == 2 and unit[0][1] == 1:
                    # exp(co log t) = t^co
                    if back is None:
                        back = {v: k for k, v in self.logid.items()}
                    w = self._power(back[unit[0][0][1]], co)
                    if w is not None:
                        extra = self.mul(extra, w)
                        continue
            else:
                key = ('f', m, tuple(sorted(d.items())))
                co = c
            (num if co > 0 else den).append((self._expatom(key), abs(co)))
        # constants: exp(c) as exp(1)^c
        r = ({tuple(sorted(num)): Fraction(1)},
             {tuple(sorted(den)): Fraction(1)})
        return r if extra == (ONE, ONE) else self.mul(r, extra)

    def _power(self, key, co):
        if key[0] == 'a':
            m = {((key[1], abs(co)),): Fraction(1)}
            return (m, ONE) if co > 0 else (ONE, m)
        if co.denominator != 1 or abs(co) > 4:
            return None
        q = {(): key[1]} if key[0] == 'c' else dict(key[1])
        p = ONE
        for _ in range(abs(int(co))):
            p = pmul(p, q)
        return (p, ONE) if co > 0 else (ONE, p)

    def _expatom(self, key):
        i = self.expid.setdefault(key, len(self.expid))
        return (1, i)

    def log(self, f):
        """log(c * prod E_t^k * N / D) = log c + sum k t + L(N) - L(D)."""
        n, d = f
        if not n:
            raise TooBig()
        (cn, ln, qn), (cd, ld, qd) = self._split((n, d))
        back = {v: k for k, v in self.expid.items()}
        r = ({}, ONE)
        rest = {}
        for com, s in ((cn, 1), (cd, -1)):
            for (kind, i), e in com.items():
                if kind == 1:
                    key = back[i]
                    if key[0] == 'u':
                        t = ({_pos(key[1]): Fraction(1)},
                             {_neg(key[1]): Fraction(1)})
                    else:
                        t = ({key[1]: Fraction(1)}, dict(key[2]))
                    r = self.add(r, self.mul(t, ({(): Fraction(e) * s},
                                                 ONE)))
                else:
                    rest[(kind, i)] = rest.get((kind, i), 0) + s * e
        for a, e in rest.items():
            if e:
                r = self.add(r, ({((self._logatom(('a', a)), 1),):
                                  Fraction(e)}, ONE))
        c = ln / ld
        if c != 1:
            r = self.add(r, ({((self._logatom(('c', c)), 1),): Fraction(1)},
                             ONE))
        for q, s in ((qn, 1), (qd, -1)):
            if q != ONE:
                key = ('p', tuple(sorted(q.items())))
                r = self.add(r, ({((self._logatom(key), 1),): Fraction(s)},
                                 ONE))
        return r

    def _logatom(self, key):
        i = self.logid.setdefault(key, len(self.logid))
        return (2, i)

    def _sqrts(self, p):
        """Replace even powers of square roots."""
        for _ in range(6):
            hit = None
            for m in p:
                for (kind, i), e in m:
                    if kind == 0 and i in self.sq and e >= 2 and \
                            all(f == int(f) for k2, f in m):
                        hit = i
            if hit is None:
                return p, True
            n, d = self.frac(self.sq[hit])
            if d != ONE:
                top = max(int(dict(m).get((0, hit), 0)) // 2 for m in p)
            else:
                top = 0
            out = {}
            for m, c in p.items():
                dm = dict(m)
                e = int(dm.pop((0, hit), 0))
                h = e // 2
                if e % 2:
                    dm[(0, hit)] = 1
                q = {tuple(sorted(dm.items())): c}
                for _i in range(h):
                    q = pmul(q, n)
                for _i in range(top - h):
                    q = pmul(q, d)
                out = padd(out, q)
            p = out
        return p, False

    def numerator(self, t):
        """A polynomial that is zero where t is (its divisors are not), or
        None."""
        try:
            n, d = self.frac(t)
        except (TooBig, RecursionError):
            return None
        if len(n) > 60:
            return None
        s = []
        for m, c in n.items():
            p = [z3.RealVal(c)]
            for (kind, i), e in m:
                if kind != 0 or e != int(e) or e < 0 or i not in self.terms:
                    return None
                p += [self.terms[i]] * int(e)
            s.append(z3.Product(p))
        return z3.Sum(s) if s else z3.RealVal(0)

    def root(self, t):
        """A term whose square is t, if t is visibly a perfect square."""
        try:
            n, d = self.frac(t)
        except (TooBig, RecursionError):
            return None
        if not n:
            return z3.RealVal(0)
        parts = []
        for p in (n, d):
            if len(p) != 1:
                return None
            (m, c), = p.items()
            q = []
            for v in (Fraction(c).numerator, Fraction(c).denominator):
                if v < 0 or math.isqrt(v) ** 2 != v:
                    return None
                q.append(math.isqrt(v))
            r = z3.RealVal(Fraction(*q))
            for (kind, i), e in m:
                if kind != 0 or e % 2 or e < 0 or i not in self.terms:
                    return None
                for _ in range(e // 2):
                    r = r * self.terms[i]
            parts.append(r)
        return z3.simplify(parts[0] / parts[1])

    def zero(self, t, tol=None):
        """True if t is identically zero (or a constant up to tol)."""
        try:
            n, d = self.frac(t)
            if len(self.sq) != len(self.sqrts):
                for r, v in self.sqrts.values():
                    self.sq[v.get_id()] = r
            if self.sq:
                n, _ = self._sqrts(n)
            if tol and _isconst(n) and _isconst(d):
                return abs(n.get((), 0)) <= abs(d[()]) * Fraction(tol) / 2
            if tol and n and _isconst(d):
                # bounded by the bounds of the inputs
                b = 0
                for m, c in n.items():
                    for (kind, i), e in m:
                        if kind or e < 0 or i not in self.mags:
                            return False
                        c = c * self.mags[i] ** e
                    b += abs(c)
                return b <= abs(d[()]) * Fraction(tol) / 2
            return not n
        except (TooBig, RecursionError):
            return False


def _pos(m):
    return tuple((k, e) for k, e in m if e > 0)


def _neg(m):
    return tuple((k, -e) for k, e in m if e < 0)
