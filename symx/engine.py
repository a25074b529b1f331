r"""Path-exploring symbolic executor for Python.

The code under test is *run*, by the ordinary interpreter, on symbolic scalars
(`SymInt`, `SymReal`, `SymBool`: each wraps a z3 term).  Every time the program
asks for the truth value of a symbolic condition, the executor asks z3 which
outcomes the path condition allows, takes one and queues the other; every
integer used as an index or a hash is split into all its feasible values.
An assertion is decided by asking z3 for a model of
`path condition /\ not assertion`.
"""
import functools
import math
import time
from fractions import Fraction

import z3

CUR = None          # the active Ctx, or None


class PathAbort(BaseException):
    """This path is infeasible or an assumption failed."""


class Budget(BaseException):
    """The harness ran out of its path/time budget."""


class Unsupported(BaseException):
    """The executor cannot follow the code here (not a verdict)."""


class CheckFailed(BaseException):
    def __init__(self, msg):
        self.msg = msg
        super().__init__(msg)


# --------------------------------------------------------------------- values

_INF = float('inf')


def is_sym(x):
    return isinstance(x, Sym)


@functools.lru_cache(maxsize=65536)
def rat(v):
    """The number meant by a float literal: the rational with a denominator
    up to 1000 it is nearest to (0.1 is 1/10, 1/3 is 1/3), else itself."""
    f = Fraction(v)
    if f.denominator <= 1024:
        return f
    g = f.limit_denominator(1000)
    return g if float(g) == v else f


def frac(v):
    """Exact rational of a Python/numpy number."""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    return rat(float(v))


def const_of(e):
    """Python value of a constant z3 term, or None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


class Sym(object):
    __slots__ = ('e',)
    __array_priority__ = 150
    kind = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e):
        self.e = e

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (CUR.register(self),))

    # numpy-scalar like API
    def item(self):
        return self

    def copy(self):
        return self

    def ravel(self):
        from symx import nparr
        return nparr.wrap([self])

    def reshape(self, *shape):
        from symx import nparr
        return nparr.wrap(self).reshape(*shape)

    def astype(self, dtype, copy=True):
        from symx import nparr
        return nparr.cast_scalar(self, dtype)

    @property
    def dtype(self):
        from symx import nparr
        return nparr.scalar_dtype(self)

    @property
    def T(self):
        return self

    def sum(self, *a, **k):
        return self

    def mean(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def __getitem__(self, key):
        from symx import nparr
        return nparr.wrap(self)[key]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx import nparr
        return nparr.apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from symx import nparr
        return nparr.apply_function(func, types, args, kwargs)

    def __bool__(self):
        c = self if isinstance(self, SymBool) else (self != 0)
        return c if isinstance(c, bool) else CUR.branch(c.e)

    def __hash__(self):
        return hash(CUR.concretize(self))

    def __str__(self):
        if isinstance(self, (SymInt, SymBool)) and not CUR.opaque_str:
            return str(CUR.concretize(self))
        return repr(self)

    def __repr__(self):
        return 'Sym<{}>'.format(str(self.e).replace('\n', ' ')[:200])

    def __format__(self, spec):
        if isinstance(self, (SymInt, SymBool)) and (
                spec or not CUR.opaque_str):
            return format(CUR.concretize(self), spec)
        return repr(self)

    def __float__(self):
        v = const_of(z3.simplify(self.e))
        if v is not None:
            return float(v)
        return float(CUR.realize(self))

    def __complex__(self):
        return complex(float(self))


def _unpickle(i):
    return CUR.registry[i]


_CONSTS = {}
_INTS = {}


def const(name, sort):
    k = (name, sort.name())
    v = _CONSTS.get(k)
    if v is None:
        v = _CONSTS[k] = z3.Const(name, sort)
    return v


def ival(n):
    v = _INTS.get(n)
    if v is None:
        v = z3.IntVal(n)
        if -1000 < n < 1000:
            _INTS[n] = v
    return v


def mkb(e):
    """Wrap a Bool term."""
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mk(e):
    """Wrap a z3 term (folding constants)."""
    s = e.sort()
    if s == _B:
        c = const_of(e)
        return SymBool(e) if c is None else c
    if s == _I:
        c = const_of(e)
        return SymInt(e) if c is None else c
    return SymReal(e)


_B = z3.BoolSort()
_I = z3.IntSort()
_R = z3.RealSort()
_ONE, _ZERO = z3.IntVal(1), z3.IntVal(0)


def to_num(x):
    """-> z3 arithmetic term, or None if x is not a finite number."""
    if isinstance(x, SymBool):
        return z3.If(x.e, _ONE, _ZERO)
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, bool):
        return _ONE if x else _ZERO
    if isinstance(x, int):
        return ival(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return z3.RealVal(rat(float(x)))
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return to_num(x.item())
    return None


def to_bool_term(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, Sym):
        return x.e != 0
    return z3.BoolVal(bool(x))


def _two(a, b):
    """Bring two terms to a common arithmetic sort."""
    if a.sort() != b.sort():
        if a.sort() == _I:
            a = z3.ToReal(a)
        else:
            b = z3.ToReal(b)
    return a, b


def _special(x):
    """inf/nan float (or numpy scalar)?  returns the float or None."""
    if hasattr(x, '_ldt'):
        x = x.item()
    if isinstance(x, Sym) or isinstance(x, (bool, int, Fraction)):
        return None
    try:
        f = float(x)
    except (TypeError, ValueError):
        return None
    return f if (math.isinf(f) or math.isnan(f)) else None


def _is_scalar_other(o):
    if isinstance(o, (Sym, bool, int, float, Fraction)):
        return True
    return getattr(o, 'shape', None) == () and hasattr(o, 'item') and \
        not hasattr(o, 'backward')


def _arr_other(o):
    import numpy as np
    return isinstance(o, (np.ndarray,)) and o.shape != ()


_RAT = {}


def _fast(self, o):
    """(a, b, is_int) for the common operand kinds, else None."""
    to = type(o)
    ts = type(self)
    if ts is SymReal:
        if to is SymReal:
            return self.e, o.e, False
        if to is int or to is Fraction:
            v = _RAT.get(o)
            if v is None:
                v = _RAT[o] = z3.RealVal(o)
                if len(_RAT) > 20000:
                    _RAT.clear()
            return self.e, v, False
    elif ts is SymInt:
        if to is SymInt:
            return self.e, o.e, True
        if to is int:
            return self.e, ival(o), True
    return None


def _arith(op, rop, np_name):
    simple = np_name in ('add', 'subtract', 'multiply')

    def f(self, o):
        if simple:
            p = _fast(self, o)
            if p is not None:
                r = op(p[0], p[1])
                if not p[2]:
                    return SymReal(r)
                return SymInt(r)
        if _arr_other(o):
            import numpy as np
            return getattr(np, np_name)(self, o)
        if not _is_scalar_other(o):
            return NotImplemented
        if hasattr(o, '_ldt'):
            o = o.item()
        sp = _special(o)
        if sp is not None:
            return _inf_arith(np_name, self, sp)
        a, b = _two(to_num(self), to_num(o))
        return mk(op(a, b))

    def r(self, o):
        if _arr_other(o):
            import numpy as np
            return getattr(np, np_name)(o, self)
        if not _is_scalar_other(o):
            return NotImplemented
        if hasattr(o, '_ldt'):
            o = o.item()
        sp = _special(o)
        if sp is not None:
            return _inf_arith(np_name, sp, self)
        a, b = _two(to_num(o), to_num(self))
        return mk(op(a, b))
    return f, r


def _inf_arith(name, a, b):
    sp = a if not isinstance(a, Sym) else b
    if math.isnan(sp):
        return sp
    if name == 'add':
        return sp
    if name == 'subtract':
        return sp if sp is a else -sp
    if name == 'true_divide' and sp is b:
        return 0.0
    if name == 'multiply':
        s = a if isinstance(a, Sym) else b
        if s > 0:
            return sp
        if s < 0:
            return -sp
        return float('nan')
    raise Unsupported('arithmetic with ' + str(sp))


def _div(a, b):
    a, b = [z3.ToReal(t) if t.sort() == _I else t for t in (a, b)]
    bv = const_of(z3.simplify(b))
    if bv is not None:
        if bv == 0:
            raise ZeroDivisionError('division by zero')
        return a / b
    if CUR.branch(CUR.is_zero(b)):
        raise ZeroDivisionError('division by zero')
    return a / b


_FN = {}


def mentions_fn(t):
    """t contains one of the functions or a constant made for a root."""
    k = t.get_id()
    if k not in _FN:
        r = False
        if z3.is_app(t):
            n = t.decl().name()
            r = n.startswith('uf_') or '!' in n or \
                any(mentions_fn(c) for c in t.children())
        if len(_FN) > 200000:
            _FN.clear()
        _FN[k] = (r, t)
    return _FN[k][0]


_VARS = {}


def inputs_of(t):
    """Names of the constants in t."""
    k = t.get_id()
    if k not in _VARS:
        r = frozenset()
        if z3.is_app(t):
            cs = t.children()
            if not cs and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = frozenset([t.decl().name()])
            for c in cs:
                r = r | inputs_of(c)
        if len(_VARS) > 200000:
            _VARS.clear()
        _VARS[k] = (r, t)
    return _VARS[k][0]


def has_div(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen or not z3.is_app(t):
        return False
    seen.add(t.get_id())
    return t.decl().kind() == z3.Z3_OP_DIV or \
        any(has_div(c, seen) for c in t.children())


def _int_divmod(a, b):
    """Python floor division/modulo on Int terms."""
    bv = const_of(z3.simplify(b))
    if bv is not None:
        if bv == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if bv > 0:
            return a / b, a % b
        q = (-a) / (-b)     # floor(a/b) == floor((-a)/(-b))
        return q, a - q * b
    if CUR.branch(b == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if CUR.branch(b > 0):
        return a / b, a % b
    q = (-a) / (-b)
    return q, a - q * b


def _floordiv(a, b):
    if a.sort() == _I and b.sort() == _I:
        return _int_divmod(a, b)[0]
    return z3.ToReal(z3.ToInt(_div(a, b)))


def _mod(a, b):
    if a.sort() == _I and b.sort() == _I:
        return _int_divmod(a, b)[1]
    a, b = _two(a, b)
    return a - b * z3.ToReal(z3.ToInt(_div(a, b)))


def _cmp(op, name):
    def f(self, o):
        if CUR is not None and type(o) in (int, float) and o == o:
            r = CUR.ranges.get(self.e.get_id())
            if r is not None:
                # decided by the declared range of the input
                lo, hi, op_ = r
                if o < lo or (o == lo and name in ('less', 'greater_equal')):
                    return name in ('greater', 'greater_equal', 'not_equal')
                if o > hi or (o == hi and (op_ or name in (
                        'greater', 'less_equal'))):
                    return name in ('less', 'less_equal', 'not_equal')
        p = _fast(self, o)
        if p is not None:
            return mkb(op(p[0], p[1]))
        if _arr_other(o):
            import numpy as np
            return getattr(np, name)(self, o)
        if o is None or isinstance(o, str):
            return NotImplemented
        if not _is_scalar_other(o):
            return NotImplemented
        if hasattr(o, '_ldt'):
            o = o.item()
        sp = _special(o)
        if sp is not None:
            if math.isnan(sp):
                return name == 'not_equal'
            return {'less': sp > 0, 'less_equal': sp > 0,
                    'greater': sp < 0, 'greater_equal': sp < 0,
                    'equal': False, 'not_equal': True}[name]
        a, b = _two(to_num(self), to_num(o))
        return mkb(op(a, b))
    return f


class SymNum(Sym):
    __slots__ = ()
    __add__, __radd__ = _arith(lambda a, b: a + b, None, 'add')
    __sub__, __rsub__ = _arith(lambda a, b: a - b, None, 'subtract')
    __mul__, __rmul__ = _arith(lambda a, b: a * b, None, 'multiply')
    __truediv__, __rtruediv__ = _arith(_div, None, 'true_divide')
    __floordiv__, __rfloordiv__ = _arith(_floordiv, None, 'floor_divide')
    __mod__, __rmod__ = _arith(_mod, None, 'remainder')
    __lt__ = _cmp(lambda a, b: a < b, 'less')
    __le__ = _cmp(lambda a, b: a <= b, 'less_equal')
    __gt__ = _cmp(lambda a, b: a > b, 'greater')
    __ge__ = _cmp(lambda a, b: a >= b, 'greater_equal')
    __eq__ = _cmp(lambda a, b: a == b, 'equal')
    __ne__ = _cmp(lambda a, b: a != b, 'not_equal')
    __hash__ = Sym.__hash__

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return mk(-to_num(self))

    def __pos__(self):
        return self

    def __abs__(self):
        a = to_num(self)
        return mk(z3.If(a >= 0, a, -a))

    def __pow__(self, o, mod=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __round__(self, n=None):
        if isinstance(self, SymInt):
            return self
        raise Unsupported('round of a symbolic real')

    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


class SymInt(SymNum):
    __slots__ = ()
    kind = 'i'

    def __index__(self):
        return CUR.concretize(self)

    __int__ = __index__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, n):
        return CUR.concretize(self) << int(n)

    def __rshift__(self, n):
        return self // (1 << int(n))

    def __or__(self, o):
        return CUR.concretize(self) | int(o)

    __ror__ = __or__

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __and__(self, o):
        return CUR.concretize(self) & (CUR.concretize(o) if is_sym(o) else o)

    __rand__ = __and__


class SymReal(SymNum):
    __slots__ = ()
    kind = 'f'

    def __floor__(self):
        return mk(z3.ToInt(self.e))

    def __ceil__(self):
        return mk(-z3.ToInt(-self.e))

    def __trunc__(self):
        return mk(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __int__(self):
        return CUR.concretize(self.__trunc__())

    def is_integer(self):
        return mk(z3.IsInt(self.e))


class SymBool(SymNum):
    __slots__ = ()
    kind = 'b'

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)) or _np_bool(o):
            return mk(z3.simplify(z3.And(self.e, to_bool_term(o))))
        if _arr_other(o):
            import numpy as np
            return np.logical_and(self, o)
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)) or _np_bool(o):
            return mk(z3.simplify(z3.Or(self.e, to_bool_term(o))))
        if _arr_other(o):
            import numpy as np
            return np.logical_or(self, o)
        return int(self) | o

    __ror__ = __or__

    def __xor__(self, o):
        return mk(z3.simplify(z3.Xor(self.e, to_bool_term(o))))

    __rxor__ = __xor__

    def __invert__(self):
        # numpy semantics: the flags here stand for bool values
        return mk(z3.Not(self.e))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk(z3.simplify(self.e == to_bool_term(o)))
        return SymNum.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mk(z3.simplify(self.e != to_bool_term(o)))
        return SymNum.__ne__(self, o)

    __hash__ = Sym.__hash__


def _np_bool(o):
    return type(o).__name__ in ('bool_', 'bool')


# ------------------------------------------------------------ pure operations

def lnot(a):
    return mk(z3.simplify(z3.Not(to_bool_term(a))))


def land(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    ts = []
    for x in xs:
        if is_sym(x):
            ts.append(to_bool_term(x))
        elif not x:
            return False
    if not ts:
        return True
    return mk(z3.simplify(z3.And(ts)))


def lor(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    ts = []
    for x in xs:
        if is_sym(x):
            ts.append(to_bool_term(x))
        elif x:
            return True
    if not ts:
        return False
    return mk(z3.simplify(z3.Or(ts)))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if not is_sym(c):
        return a if c else b
    if a is b:
        return a
    if _special(a) is not None or _special(b) is not None:
        return a if c else b        # fork
    if (isinstance(a, (bool, SymBool)) or _np_bool(a)) and \
            (isinstance(b, (bool, SymBool)) or _np_bool(b)):
        return mk(z3.If(to_bool_term(c), to_bool_term(a), to_bool_term(b)))
    ta, tb = to_num(a), to_num(b)
    if ta is None or tb is None:
        return a if c else b
    ta, tb = _two(ta, tb)
    return mk(z3.simplify(z3.If(to_bool_term(c), ta, tb)))


def smax(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a >= b else b
    return ite(a >= b, a, b)


def smin(a, b):
    if not is_sym(a) and not is_sym(b):
        return a if a <= b else b
    return ite(a <= b, a, b)


def sign(a):
    if not is_sym(a):
        return (a > 0) - (a < 0)
    return ite(a > 0, 1, ite(a < 0, -1, 0))


def power(a, b):
    if is_sym(b):
        s = z3.simplify(b.e)
        c = const_of(s)
        if c is not None:
            b = int(c) if c == int(c) else c
        elif isinstance(b, (SymInt, SymBool)):
            b = CUR.concretize(b)
        else:
            return uf2('pow', a, b)
    if hasattr(b, 'item') and not is_sym(b):
        b = b.item()
    if isinstance(b, (float, Fraction)) and b == int(b):
        b = int(b)
    if not is_sym(a):
        if isinstance(a, Fraction):
            return a ** b
        return a ** b
    if isinstance(b, int):
        if b == 0:
            return 1 if a.kind in 'ib' else 1.0
        r = a
        for _ in range(abs(b) - 1):
            r = r * a
        return r if b > 0 else 1 / r
    if frac(b) == Fraction(1, 2):
        return sqrt(a)
    if frac(b) == Fraction(-1, 2):
        return 1 / sqrt(a)
    return uf2('pow', a, b)


def sqrt(a):
    if not is_sym(a):
        return math.sqrt(a)
    return CUR.sqrt(a)


def _real_term(x):
    t = to_num(x)
    if t is None:
        raise Unsupported('transcendental of ' + repr(x))
    return z3.ToReal(t) if t.sort() == _I else t


def uf1(name, x):
    return CUR.uf(name, (_real_term(x),))


def uf2(name, x, y):
    return CUR.uf(name, (_real_term(x), _real_term(y)))


def fn(name):
    """Elementwise transcendental `name`."""
    conc = {'exp': math.exp, 'log': math.log, 'tanh': math.tanh,
            'sin': math.sin, 'cos': math.cos, 'arctanh': math.atanh,
            'log1p': math.log1p, 'expm1': math.expm1,
            'erf': math.erf, 'arctan': math.atan}.get(name)

    def f(x):
        if not is_sym(x):
            sp = _special(x)
            if sp is not None:
                import numpy as np
                return float(getattr(np, name)(sp))
            v = const_uf(name, conc, x)
            return v
        if name == 'log1p':
            return CUR.uf('log', (_real_term(1 + x),))
        if name == 'expm1':
            return CUR.uf('exp', (_real_term(x),)) - 1
        return uf1(name, x)
    return f


def const_uf(name, conc, x):
    x = x.item() if hasattr(x, 'item') else x
    if name == 'exp' and x == 0:
        return 1.0
    if name == 'log' and x == 1:
        return 0.0
    if name == 'log' and x <= 0:
        raise Unsupported('log of a nonpositive constant')
    if name in ('tanh', 'sin', 'arctanh', 'arctan') and x == 0:
        return 0.0
    if CUR is not None and name in ('exp', 'log', 'tanh'):
        return uf1(name, x)
    return conc(float(x))


_INV = z3.Function('uf_inv', _R, _R)


def no_div(t, memo=None):
    """a / b as a * inv(b), for comparing terms syntactically."""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k not in memo:
        r = t
        if z3.is_app(t) and t.num_args():
            cs = [no_div(c, memo) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_DIV and \
                    not z3.is_rational_value(cs[1]):
                r = cs[0] * _INV(cs[1])
            elif any(not a.eq(b) for a, b in zip(cs, t.children())):
                r = t.decl()(*cs)
        memo[k] = (t, r)
    return memo[k][1]


def sum_key(t):
    """A key of a sum of monomials that ignores their order."""
    out = []
    for c in (t.children() if z3.is_add(t) else [t]):
        co, fs = Fraction(1), []
        for f in (c.children() if z3.is_mul(c) else [c]):
            v = const_of(f)
            if v is None:
                fs.append(f.get_id())
            else:
                co *= v
        out.append((tuple(sorted(fs)), co))
    return tuple(sorted(out))


# ------------------------------------------------------------------ execution

class Item(object):
    __slots__ = ('prefix', 'model', 'pc')

    def __init__(self, prefix, model, pc=()):
        self.prefix = prefix
        self.model = model
        self.pc = pc        # path condition at the end of the prefix


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.trivial = 0
        self.discharged = 0
        self.unknown_branch = 0
        self.realized = 0
        self.inconclusive = []      # (msg, detail)
        self.unexplored = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d['solver_s'] = round(self.solver_s, 3)
        return d


class Ctx(object):
    """State of one symbolic path plus the exploration worklist."""
    symbolic = True

    def __init__(self, timeout_ms=10000, max_paths=20000, time_limit=300,
                 seed=1):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = time.time() + time_limit
        self.stats = Stats()
        self.work = []
        self.seed = seed

    # -- one path
    def start_path(self, item):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.pc = list(item.pc)
        if self.pc:
            self.solver.add(self.pc)
        self.prefix = item.prefix
        self.pos = 0
        self.trace = []
        self.model = item.model
        self.inputs = {}
        self.pending = []
        self.registry = []
        self.ufs = {}
        self.exps = []
        self.expsums = {}
        self.sqrts = {}
        self.ranges = {}    # id of an input -> (lo, hi, hi is open)
        self.mags = {}      # id of an input -> bound of its magnitude
        self.fresh_n = 0
        self.concretized = False
        self.opaque_str = False     # str() of a symbolic int forks
        self.rng_n = 0

    def register(self, s):
        self.registry.append(s)
        return len(self.registry) - 1

    def add(self, t):
        if self.pos < len(self.prefix) or z3.is_true(t):
            return      # (already in the prefix's path condition)
        self.pc.append(t)
        self.solver.add(t)

    def z3check(self, *extra):
        t0 = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        if t0 > self.deadline:
            raise Budget()
        return r

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const('{}!{}'.format(base, self.fresh_n), sort)

    def ensure_model(self):
        if self.model is None:
            r = self.z3check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.sat:
                self.model = self.solver.model()
            elif self.ufs or self.sqrts:
                # a model of the conditions on inputs alone: what it selects
                # is explored, feasible or not
                r = self.light()
                if r.check() == z3.sat:
                    self.model = r.model()
        return self.model

    def light(self):
        """A solver for the part of the path condition that mentions no
        functions and roots (an over-approximation)."""
        s = z3.Solver()
        s.set('timeout', 2000)
        for t in self.pc:
            if not mentions_fn(t):
                s.add(t)
        return s

    def branch(self, c):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            assert isinstance(d, bool), 'decision trace out of step'
            self.pos += 1
            self.trace.append(d)
            return d
        c = z3.simplify(c)
        d = z3.is_true(c)
        self.pos += 1
        if d or z3.is_false(c):
            self.trace.append(d)
            return d
        self.stats.branches += 1
        if time.time() > self.deadline:
            raise Budget()
        if (self.ufs or self.sqrts) and self.independent(c):
            return self.branch_light(c)
        m = self.ensure_model()
        d = True
        if m is not None:
            mv = m.eval(c, model_completion=True)
            if z3.is_true(mv):
                d = True
            elif z3.is_false(mv):
                d = False
            else:
                m = None
        if m is None:
            r = self.z3check(c)
            if r == z3.unsat:
                d = False
                self.model = None
            elif r == z3.sat:
                self.model = self.solver.model()
            else:
                self.stats.unknown_branch += 1
        other = z3.Not(c) if d else c
        r = self.z3check(other)
        if r != z3.unsat and self.pending:
            m2 = self.solver.model() if r == z3.sat else None
            self.flush()
        else:
            m2 = None
        if r == z3.sat:
            self.work.append(Item(self.trace + [not d],
                                  m2 or self.solver.model(),
                                  self.pc + [other]))
        elif r == z3.unknown:
            self.stats.unknown_branch += 1
            self.work.append(Item(self.trace + [not d], None,
                                  self.pc + [other]))
        self.trace.append(d)
        self.pc.append(c if d else z3.Not(c))
        self.solver.add(self.pc[-1])
        return d

    def independent(self, c):
        """c shares no input with the conditions that mention functions."""
        if mentions_fn(c):
            return False
        v = inputs_of(c)
        return not any(mentions_fn(t) and v & inputs_of(t) for t in self.pc)

    def branch_light(self, c):
        s = self.light()
        m = None
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v) or z3.is_false(v):
                m, d = self.model, z3.is_true(v)
        if m is None:
            s.push()
            s.add(c)
            self.stats.queries += 1
            d = s.check() != z3.unsat
            if d:
                self.model = s.model()
            s.pop()
        other = z3.Not(c) if d else c
        s.add(other)
        self.stats.queries += 1
        r = s.check()
        if r != z3.unsat:
            m2 = s.model() if r == z3.sat else None
            self.flush()
            self.work.append(Item(self.trace + [not d], m2,
                                  self.pc + [other]))
        self.trace.append(d)
        self.pc.append(c if d else z3.Not(c))
        self.solver.add(self.pc[-1])
        return d

    def concretize(self, s):
        """Split a symbolic int/bool into all its feasible values."""
        if isinstance(s, bool) or isinstance(s, int):
            return s
        if isinstance(s, SymBool):
            return bool(s)
        e = z3.simplify(s.e)
        c = const_of(e)
        if c is not None:
            return c
        if not isinstance(s, SymInt):
            return self.realize(s)
        for _ in range(200):
            if self.pos < len(self.prefix):
                # candidate values are replayed through a fixed order:
                v = self._prefix_value(e)
            else:
                m = self.ensure_model()
                if m is None:
                    raise Unsupported('no model to concretize from')
                v = const_of(m.eval(e, model_completion=True))
            self._note_value(v)
            if self.branch(e == v):
                return v
            self.model = self.model if self._model_ok(e != v) else None
        raise Unsupported('too many values for ' + str(e))

    # The candidate values tried by concretize() are part of the decision
    # trace (as ints), so that a replayed prefix tries the same ones.
    def _prefix_value(self, e):
        v = self.prefix[self.pos]
        self.pos += 1
        assert isinstance(v, tuple), 'decision trace out of step'
        self._prefixed = True
        self.trace.append(v)
        return v[0]

    def _note_value(self, v):
        if getattr(self, '_prefixed', False):
            self._prefixed = False
            return
        self.pos += 1
        self.trace.append((v,))

    def _model_ok(self, t):
        return self.model is not None and z3.is_true(
            self.model.eval(t, model_completion=True))

    def realize(self, s):
        """Fix a symbolic value to one feasible constant (loses coverage)."""
        self.stats.realized += 1
        self.concretized = True
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
            self.pos += 1
            self.trace.append((v,))
            return v
        m = self.ensure_model()
        if m is None:
            raise Unsupported('cannot realize')
        v = const_of(m.eval(s.e, model_completion=True))
        if v is None:
            raise Unsupported('irrational value')
        self.pos += 1
        self.trace.append((v,))
        self.add(s.e == (z3.RealVal(v) if isinstance(v, Fraction) else v))
        return v

    # -- derived terms
    def square_root(self, t):
        return None

    def is_zero(self, t):
        return t == 0

    def sqrt(self, a):
        t = _real_term(a)
        t = z3.simplify(t)
        k = t.get_id()
        if k in self.sqrts:
            return SymReal(self.sqrts[k][1])
        if self.branch(t < 0):
            return float('nan')
        r = self.square_root(t)
        if r is not None:
            return SymReal(r if self.branch(r >= 0) else -r)
        v = self.fresh('sqrt', _R)
        self.sqrts[k] = (t, v)
        self.add_def(z3.And(v >= 0, v * v == t))
        return SymReal(v)

    def add_def(self, t):
        """A definitional (always satisfiable) constraint."""
        self.add(t)
        if self.pos >= len(self.prefix) and self.model is not None and \
                not self._model_ok(t):
            self.model = None

    def uf(self, name, args):
        args = tuple(z3.simplify(a) for a in args)
        if len(args) == 1:
            a = args[0]
            inner = {'log': 'exp', 'exp': 'log', 'arctanh': 'tanh',
                     'tanh': 'arctanh'}.get(name)
            if inner and z3.is_app(a) and a.decl().name() == 'uf_' + inner:
                return mk(a.arg(0))
            c = const_of(a)
            if c == 0 and name in ('tanh', 'sin', 'arctanh'):
                return 0.0
            if (name, c) in (('exp', 0), ('cos', 0)):
                return 1.0
            if name == 'log' and c == 1:
                return 0.0
        key = (name,) + tuple(a.get_id() for a in args)
        if key in self.ufs:
            return SymReal(self.ufs[key][2])
        f = z3.Function('uf_' + name, *([_R] * (len(args) + 1)))
        v = f(*args)
        prev = [u for k, u in self.ufs.items() if k[0] == name]
        self.ufs[key] = (name, args, v)
        ax = [self._axioms(name, args, v, prev)]
        if name == 'exp':
            ax += self._exp_sums(args[0], v)
        if self.pos >= len(self.prefix):
            self.add_def(z3.And(ax) if len(ax) > 1 else ax[0])
        return SymReal(v)

    def _exp_sums(self, x, v):
        """exp(x) exp(y) = exp(x') exp(y') wherever x + y = x' + y' holds
        syntactically (exp(0) = 1 takes part)."""
        ax = []
        if len(self.exps) > 40:
            return ax
        self.exps.append((x, v))
        for y, w in [(None, None)] + self.exps:
            s = z3.simplify(no_div(x if y is None else x + y), som=True)
            t = v if y is None else v * w
            k = sum_key(s)
            if k in self.expsums:
                ax.append(t == self.expsums[k][1])
            else:
                self.expsums[k] = (s, t)
            if const_of(s) == 0:
                ax.append(t == 1)
        return ax

    def _axioms(self, name, args, v, prev):
        ax = []
        x = args[0]
        c = const_of(x)
        if name == 'exp':
            ax += [v > 0, v >= 1 + x, z3.Implies(x == 0, v == 1),
                   z3.Implies(x != 0, v > 1 + x)]
        elif name == 'log':
            # defined for x > 0 only
            ax += [z3.Implies(x > 0, v <= x - 1),
                   z3.Implies(x > 0, (v == 0) == (x == 1)),
                   z3.Implies(x > 0, (v > 0) == (x > 1))]
        elif name == 'tanh':
            ax += [v > -1, v < 1, (v == 0) == (x == 0), (v > 0) == (x > 0)]
        elif name in ('sin', 'cos'):
            ax += [v >= -1, v <= 1]
        elif name == 'pow':
            y = args[1]
            ax += [z3.Implies(x > 0, v > 0), z3.Implies(y == 1, v == x),
                   z3.Implies(z3.And(y == 0), v == 1),
                   z3.Implies(x == 1, v == 1),
                   z3.Implies(z3.And(x == 0, y > 0), v == 0),
                   z3.Implies(z3.And(x > 1, y > 0), v > 1),
                   z3.Implies(z3.And(x > 1, y < 0), v < 1),
                   z3.Implies(z3.And(x > 0, x < 1, y > 0), v < 1),
                   z3.Implies(z3.And(x > 0, x < 1, y < 0), v > 1)]
        if c is not None and name in ('exp', 'log', 'tanh', 'cos', 'sin') \
                and (name != 'log' or c > 0):
            w = Fraction(getattr(math, name)(float(c)))
            d = abs(w) / 10 ** 9 + Fraction(1, 10 ** 12)
            ax += [v >= z3.RealVal(w - d), v <= z3.RealVal(w + d)]
        for (_, a2, v2) in prev:
            x2 = a2[0]
            if name in ('exp', 'tanh'):
                ax += [(x < x2) == (v < v2), (x == x2) == (v == v2)]
            elif name == 'log':
                ax += [z3.Implies(z3.And(x > 0, x2 > 0),
                                  z3.And((x < x2) == (v < v2),
                                         (x == x2) == (v == v2)))]
            elif name == 'pow':
                y, y2 = args[1], a2[1]
                ax += [z3.Implies(z3.And(y == y2, y > 0, x > 0, x2 > 0),
                                  z3.And((x < x2) == (v < v2),
                                         (x == x2) == (v == v2))),
                       z3.Implies(z3.And(y == y2, y < 0, x > 0, x2 > 0),
                                  z3.And((x < x2) == (v > v2),
                                         (x == x2) == (v == v2)))]
        return z3.And(ax) if ax else z3.BoolVal(True)

    # -- harness API helpers
    def assume(self, c):
        if not is_sym(c):
            if not c:
                raise PathAbort()
            return
        if self.pos < len(self.prefix):
            return
        t = to_bool_term(c)
        if z3.is_false(z3.simplify(t)):
            raise PathAbort()
        if self.model is not None and not self._model_ok(t):
            self.model = None
        self.add(t)
        if self.model is None:
            self.ensure_model()
