"""Core of the symbolic executor: symbolic scalars and path exploration.

The real code of /repo is executed by the ordinary Python interpreter; the
values flowing through it are SNum / SBool proxies which carry z3 terms.  Every
`bool()` of an undecided SBool is a decision point: the executor asks z3 which
outcomes are feasible under the current path condition and explores all of
them, by re-executing the harness with a decision prefix.
"""
import hashlib
import math
import operator
import sys
import time
from fractions import Fraction

import numpy as np
import z3

# ---------------------------------------------------------------- exceptions


class SymxError(BaseException):
    """Base of engine exceptions (BaseException: code under test that catches
    Exception must not swallow them)."""


class PathInfeasible(SymxError):
    pass


class PathBudget(SymxError):
    pass


class Unsupported(SymxError):
    pass


class Violation(SymxError):
    """Raised when a check's negation is satisfiable on the current path."""

    def __init__(self, msg, model=None):
        SymxError.__init__(self, msg)
        self.msg = msg
        self.model = model


# ---------------------------------------------------------------- statistics


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.simplified = 0
        self.paths = 0
        self.branches = 0
        self.checks = 0
        self.concretized = 0
        self.domain = set()
        self.validated = 0
        self.replayed = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d['domain'] = sorted(self.domain)
        return d


INF = float('inf')


def is_const(v):
    return not isinstance(v, z3.ExprRef)


_NICE = {}


def nice(x):
    """The real number a float stands for: floats are idealised to reals, so
    the float nearest to 5/3 or to 1e-6 stands for that number."""
    f = _NICE.get(x)
    if f is None:
        f = Fraction(x)
        if f.denominator > 1024:
            g = f.limit_denominator(1000)
            if g != 0 and g.denominator & (g.denominator - 1) and \
                    abs(float(g) - x) <= 3e-16 * abs(x):
                pass        # a fraction, up to the last two bits
            elif float(g) != x or g == 0:
                r = repr(x)
                g = Fraction(r)
                if sum(c.isdigit() for c in r.split('e')[0].strip('-0.')) > 12:
                    g = f
            f = g
        if len(_NICE) < 100000:
            _NICE[x] = f
    return f


def frac(x):
    """Exact rational of a python/numpy number (None when not finite)."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x if x.denominator != 1 else x
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            return x
        return nice(x)
    raise TypeError('not a number: %r' % (x,))


def toz3(v, want=None):
    """z3 term of a constant or a term."""
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v) if want != 'real' else z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    raise Unsupported('no z3 term for %r' % (v,))


def zreal(v):
    if is_const(v):
        if isinstance(v, float):
            raise Unsupported('non-finite value in a symbolic expression')
        return z3.RealVal(v)
    if v.is_int():
        return z3.ToReal(v)
    return v


# ---------------------------------------------------------------- SBool


class SBool(object):
    """Lazy symbolic boolean (always a z3 BoolRef; constants are python bools)"""
    __slots__ = ('t',)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.cur.branch(self.t)

    __nonzero__ = __bool__

    def __repr__(self):
        return 'SBool'

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def _bin(self, other, f):
        o = boolterm(other)
        if o is None:
            return NotImplemented
        return mkbool(f(self.t, o))

    def __and__(self, o):
        return self._bin(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)
    __rxor__ = __xor__

    def __eq__(self, o):
        b = boolterm(o)
        if b is None:
            return num(self) == o
        return mkbool(self.t == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    # arithmetic on booleans
    def __add__(self, o):
        return num(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return num(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return num(self) - o

    def __rsub__(self, o):
        return num(o) - num(self)

    def __lt__(self, o):
        return num(self) < o

    def __gt__(self, o):
        return num(self) > o

    def __le__(self, o):
        return num(self) <= o

    def __ge__(self, o):
        return num(self) >= o

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (_unpickle_term, (_pickle_term(self.t), 'b'))

    shape = ()
    ndim = 0
    dtype = np.dtype(bool)


_PICKLED = {}


def _pickle_term(t):
    k = 't%d' % t.get_id()
    _PICKLED[k] = t
    return k


def _unpickle_term(k, kind):
    t = _PICKLED[k]
    return SBool(t) if kind == 'b' else SNum(t)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def boolterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    return None


def truth(x):
    """lazy truth value of any scalar"""
    if isinstance(x, (SBool, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, SNum):
        return x != 0
    return bool(x)


def sand(xs):
    ts = []
    for x in xs:
        x = truth(x)
        if x is False:
            return False
        if x is not True:
            ts.append(x.t)
    return mkbool(z3.And(ts)) if ts else True


def sor(xs):
    ts = []
    for x in xs:
        x = truth(x)
        if x is True:
            return True
        if x is not False:
            ts.append(x.t)
    return mkbool(z3.Or(ts)) if ts else False


def snot(x):
    x = truth(x)
    return (not x) if isinstance(x, bool) else ~x


# ---------------------------------------------------------------- SNum


class SNum(object):
    """Symbolic number: v is int | Fraction | +-inf/nan float | z3 ArithRef."""
    __slots__ = ('v',)
    __array_priority__ = 1000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, v):
        self.v = v

    # -- numpy scalar look-alike
    @property
    def dtype(self):
        return np.dtype('int64') if self.isint else np.dtype('float64')

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SNum(0)

    @property
    def isint(self):
        v = self.v
        if isinstance(v, z3.ExprRef):
            return v.is_int()
        return isinstance(v, int)

    def astype(self, dtype):
        from . import arr
        return arr.cast(self, np.dtype(dtype))

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self
    mean = sum

    def conj(self):
        return self
    conjugate = conj

    def max(self, *a, **k):
        return self
    min = max

    def ravel(self):
        from . import arr
        return arr.mk([self], self.dtype)
    flatten = ravel

    def reshape(self, *a):
        return self.ravel().reshape(*a)

    def any(self, *a, **k):
        return truth(self)
    all = any

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)

    def __getitem__(self, k):
        if k == ():
            return self
        if k is Ellipsis or k is None or (isinstance(k, tuple) and all(
                e is None or e is Ellipsis for e in k)):
            return self.ravel().reshape(())[k]
        raise IndexError('invalid index to scalar variable.')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        if is_const(self.v):
            return (SNum, (self.v,))
        return (_unpickle_term, (_pickle_term(self.v), 'n'))

    def __repr__(self):
        if is_const(self.v):
            return repr(float(self.v)) if not self.isint else repr(self.v)
        return '<sym>'
    __str__ = __repr__

    def __format__(self, spec):
        if is_const(self.v):
            return format(float(self.v) if not self.isint else self.v, spec)
        return '<sym>'

    # -- arithmetic
    def __add__(self, o):
        return _arith(self, o, 'add')

    def __radd__(self, o):
        return _arith(o, self, 'add')

    def __sub__(self, o):
        return _arith(self, o, 'sub')

    def __rsub__(self, o):
        return _arith(o, self, 'sub')

    def __mul__(self, o):
        return _arith(self, o, 'mul')

    def __rmul__(self, o):
        return _arith(o, self, 'mul')

    def __truediv__(self, o):
        return _arith(self, o, 'div')

    def __rtruediv__(self, o):
        return _arith(o, self, 'div')
    __div__ = __truediv__
    __rdiv__ = __rtruediv__

    def __floordiv__(self, o):
        return _arith(self, o, 'fdiv')

    def __rfloordiv__(self, o):
        return _arith(o, self, 'fdiv')

    def __mod__(self, o):
        return _arith(self, o, 'mod')

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return _arith(o, self, 'mod')

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        return spow(num(o), self)

    def __neg__(self):
        v = self.v
        return SNum(-v)

    def __pos__(self):
        return self

    def __abs__(self):
        v = self.v
        if is_const(v):
            return SNum(abs(v))
        return SNum(z3.If(v >= 0, v, -v))

    # -- comparisons
    def __lt__(self, o):
        return _cmp(self, o, operator.lt)

    def __le__(self, o):
        return _cmp(self, o, operator.le)

    def __gt__(self, o):
        return _cmp(self, o, operator.gt)

    def __ge__(self, o):
        return _cmp(self, o, operator.ge)

    def __eq__(self, o):
        return _cmp(self, o, operator.eq)

    def __ne__(self, o):
        r = _cmp(self, o, operator.ne)
        return True if r is NotImplemented else r

    def __hash__(self):
        if is_const(self.v):
            return hash(self.v)
        if self.isint:
            return hash(int(self))
        return hash(Fraction(self.pin()))

    # -- conversions
    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def pin(self):
        """concolic concretisation of a real value"""
        if is_const(self.v):
            return self.v
        ENG.stats.concretized += 1
        return ENG.cur.pin(self.v)

    def __float__(self):
        if not is_const(self.v) and _formatting():
            return 0.0
        return float(self.pin())

    def __index__(self):
        v = self.v
        if not is_const(v) and _formatting():
            return 0
        if is_const(v):
            if isinstance(v, int):
                return v
            raise TypeError('non-integer index')
        if not v.is_int():
            raise TypeError('symbolic real used as an index')
        return ENG.cur.enum_int(v)

    def __int__(self):
        v = self.v
        if is_const(v):
            return int(v)
        if _formatting():
            return 0
        if v.is_int():
            return ENG.cur.enum_int(v)
        t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return ENG.cur.enum_int(t)
    __long__ = __int__

    def __trunc__(self):
        return self.__int__()

    def __round__(self, n=None):
        v = self.v
        if is_const(v):
            return SNum(round(v)) if n is None else SNum(frac(round(v, n)))
        if v.is_int():
            return self
        raise Unsupported('round of a symbolic real')

    def __ceil__(self):
        return scal_ceil(self)

    def __floor__(self):
        return scal_floor(self)

    def is_integer(self):
        return self.isint


_REM = None


def _formatting():
    """is the caller evaluating  'text %d' % (..., symbolic, ...) ?  The text
    of a message never influences control flow: no value is enumerated."""
    global _REM
    f = sys._getframe(2)
    co = f.f_code
    if co.co_filename == __file__:
        return False
    i = f.f_lasti
    b = co.co_code
    if _REM is None:
        import dis
        _REM = (dis.opmap['BINARY_OP'],
                [k for k, v in enumerate(dis._nb_ops)
                 if v[1] in ('%', '%=')])
    return b[i] == _REM[0] and b[i + 1] in _REM[1]


def num(x):
    """lift any scalar to SNum"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return SNum(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x[()] if x.dtype != object else x.item())
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return SNum(frac(x.real))
        raise Unsupported('complex value')
    return SNum(frac(x))


def isscal(x):
    return isinstance(x, (SNum, SBool, int, float, Fraction, bool,
                          np.number, np.bool_))


def _coerce2(a, b):
    """z3 terms of the same sort"""
    if is_const(a) and is_const(b):
        return a, b
    ai = a.is_int() if not is_const(a) else isinstance(a, int)
    bi = b.is_int() if not is_const(b) else isinstance(b, int)
    if ai and bi:
        return (toz3(a), toz3(b))
    return zreal(a), zreal(b)


def _arith(x, y, op):
    if not (isscal(x) and isscal(y)):
        return NotImplemented
    a, b = num(x).v, num(y).v
    ca, cb = is_const(a), is_const(b)
    if ca and cb:
        if isinstance(a, float) or isinstance(b, float):
            # non-finite arithmetic: use IEEE
            fa, fb = float(a), float(b)
            with np.errstate(all='ignore'):
                r = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply,
                     'div': np.divide, 'fdiv': np.floor_divide,
                     'mod': np.mod}[op](fa, fb)
            return SNum(frac(float(r)))
        if op == 'add':
            return SNum(a + b)
        if op == 'sub':
            return SNum(a - b)
        if op == 'mul':
            return SNum(a * b)
        if b == 0:
            ENG.stats.domain.add('division by a constant zero')
            if op in ('div',):
                if a == 0:
                    return SNum(float('nan'))
                return SNum(INF if a > 0 else -INF)
            return SNum(0)
        if op == 'div':
            return SNum(Fraction(a) / b)
        if op == 'fdiv':
            r = a // b
            return SNum(r if isinstance(a, int) and isinstance(b, int)
                        else Fraction(r))
        return SNum(a % b)
    # constant folding with neutral elements
    if op == 'add':
        if ca and a == 0:
            return SNum(b if not isinstance(a, Fraction) or not b.is_int()
                        else z3.ToReal(b))
        if cb and b == 0:
            return SNum(a if not isinstance(b, Fraction) or not a.is_int()
                        else z3.ToReal(a))
    elif op == 'sub':
        if cb and b == 0:
            return SNum(a if not isinstance(b, Fraction) or not a.is_int()
                        else z3.ToReal(a))
    elif op == 'mul':
        if (ca and a == 0) or (cb and b == 0):
            return SNum(0 if (isinstance(a, int) or (not ca and a.is_int()))
                        and (isinstance(b, int) or (not cb and b.is_int()))
                        else Fraction(0))
        if ca and a == 1:
            return SNum(b if not isinstance(a, Fraction) else zreal(b))
        if cb and b == 1:
            return SNum(a if not isinstance(b, Fraction) else zreal(a))
    elif op == 'div':
        if cb and not isinstance(b, float):
            if b == 0:
                ENG.stats.domain.add('division by a constant zero')
                raise Unsupported('symbolic value divided by zero')
            if b == 1:
                return SNum(zreal(a))
            return SNum(zreal(a) * z3.RealVal(Fraction(1) / b))
    if (ca and isinstance(a, float)) or (cb and isinstance(b, float)):
        inf = a if ca else b
        if math.isnan(inf):
            return SNum(inf)
        if op == 'add':
            return SNum(inf)
        if op == 'sub':
            return SNum(inf if ca else -inf)
        if op == 'div' and cb:
            return SNum(Fraction(0))
        if op == 'mul':
            o = SNum(b if ca else a)
            if o > 0:
                return SNum(inf)
            if o < 0:
                return SNum(-inf)
            return SNum(float('nan'))
        raise Unsupported('arithmetic with inf')
    za, zb = _coerce2(a, b)
    if op == 'add':
        return SNum(za + zb)
    if op == 'sub':
        return SNum(za - zb)
    if op == 'mul':
        return SNum(za * zb)
    if op == 'div':
        za, zb = zreal(za), zreal(zb)
        ENG.cur.domain(zb != 0, 'denominators are non-zero')
        return SNum(za / zb)
    # floor div / mod
    if za.is_int():
        ENG.cur.domain(zb != 0, 'integer divisors are non-zero')
        # z3 div/mod: euclidean; python: floor
        q, r = za / zb, za % zb
        if is_const(b) and b > 0:
            return SNum(q if op == 'fdiv' else r)
        fl = z3.If(z3.And(zb < 0, r != 0), q - 1, q)
        return SNum(fl if op == 'fdiv' else za - zb * fl)
    ENG.cur.domain(zb != 0, 'denominators are non-zero')
    q = z3.ToReal(z3.ToInt(za / zb))
    return SNum(q if op == 'fdiv' else za - zb * q)


def _cmp(x, y, op):
    if not (isscal(x) and isscal(y)):
        return NotImplemented
    a, b = num(x).v, num(y).v
    ca, cb = is_const(a), is_const(b)
    if ca and cb:
        return bool(op(a, b))
    if ca and isinstance(a, float):
        return bool(op(a, 0.0))
    if cb and isinstance(b, float):
        return bool(op(0.0, b))
    za, zb = _coerce2(a, b)
    return mkbool(op(za, zb))


def spow(x, y):
    x, y = num(x), num(y)
    if is_const(y.v):
        e = y.v
        if is_const(x.v):
            if isinstance(e, int) or e.denominator == 1:
                e = int(e)
                if e >= 0:
                    return SNum(x.v ** e)
                return SNum(Fraction(1) / (Fraction(x.v) ** -e))
            if e == Fraction(1, 2):
                return ssqrt(x)
            return SNum(frac(float(x.v) ** float(e)))
        if isinstance(e, int) or e.denominator == 1:
            e = int(e)
            if e == 0:
                return SNum(1 if x.isint else Fraction(1))
            r = x
            for _ in range(abs(e) - 1):
                r = r * x
            return r if e > 0 else 1 / r
        if e.denominator == 2:
            return spow(ssqrt(x), int(e.numerator))
        return uf('pow', x, y)
    if is_const(x.v) and x.isint and y.isint:
        # integer power with symbolic exponent: enumerate
        return spow(x, int(y))
    return uf('pow', x, y)


def scal_floor(x):
    x = num(x)
    if x.isint:
        return x
    if is_const(x.v):
        return SNum(Fraction(math.floor(x.v)))
    return SNum(z3.ToReal(z3.ToInt(x.v)))


def scal_ceil(x):
    x = num(x)
    if x.isint:
        return x
    if is_const(x.v):
        return SNum(Fraction(math.ceil(x.v)))
    return SNum(-z3.ToReal(z3.ToInt(-x.v)))


def scal_trunc(x):
    x = num(x)
    if x.isint:
        return x
    if is_const(x.v):
        return SNum(Fraction(math.trunc(x.v)))
    return ite(x >= 0, scal_floor(x), scal_ceil(x))


def toint(x):
    """C-style cast to int (lazy)"""
    x = num(x)
    if x.isint:
        return x
    if is_const(x.v):
        return SNum(math.trunc(x.v))
    return SNum(z3.If(x.v >= 0, z3.ToInt(x.v), -z3.ToInt(-x.v)))


def ite(c, a, b):
    c = truth(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (SBool, bool, np.bool_)) and \
            isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(z3.If(c.t, boolterm(a), boolterm(b)))
    na, nb = num(a).v, num(b).v
    if (is_const(na) and isinstance(na, float)) or \
            (is_const(nb) and isinstance(nb, float)):
        return a if bool(c) else b
    if is_const(na) and is_const(nb):
        if na == nb:
            return num(a)
        if isinstance(na, int) and isinstance(nb, int):
            za, zb = z3.IntVal(na), z3.IntVal(nb)
        else:
            za, zb = z3.RealVal(na), z3.RealVal(nb)
    else:
        za, zb = _coerce2(na, nb)
    if z3.eq(za, zb):
        return SNum(za)
    return SNum(z3.If(c.t, za, zb))


def smax(a, b):
    return ite(num(a) >= b, a, b)


def smin(a, b):
    return ite(num(a) <= b, a, b)


def ssign(x):
    x = num(x)
    if is_const(x.v):
        return SNum((x.v > 0) - (x.v < 0) if x.isint
                    else Fraction(int(x.v > 0) - int(x.v < 0)))
    one, zero = (1, 0) if x.isint else (Fraction(1), Fraction(0))
    return ite(x > 0, SNum(one), ite(x < 0, SNum(-one), SNum(zero)))


def ssqrt(x):
    x = num(x)
    if is_const(x.v):
        if isinstance(x.v, float):
            return SNum(math.sqrt(x.v))
        if x.v < 0:
            return SNum(float('nan'))
        f = Fraction(x.v)
        p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if p * p == f.numerator and q * q == f.denominator:
            return SNum(Fraction(p, q))
    t = z3.simplify(zreal(x.v), som=False)
    p = ENG.cur
    k = ('sqrt', t.get_id())
    r = p.memo.get(k)
    if r is None and len(p.sqrts) < 40:
        for u, s in p.sqrts:
            if same_term(t, u):
                r = p.memo[k] = (s, t)
                break
    if r is None:
        s = z3.Real('sqrt!%d' % len(p.memo))
        p.sqrts.append((t, s))
        if p.eng.opaque_sqrt:
            # some positive number, the same for equal arguments
            p.axiom(s > 0)
        else:
            p.domain(t >= 0, 'arguments of square roots are non-negative')
            a = z3.And(s >= 0, s * s == t)
            if is_const(x.v):
                q = Fraction(math.sqrt(x.v))
                e = q / 10 ** 12
                p.axiom(z3.And(s >= zreal(q - e), s <= zreal(q + e)))
            p.axiom(a)
            p.sqrtax[a.get_id()] = a
        p.defs.append((s, 'sqrt', t))
        r = p.memo[k] = (s, t)   # keep t alive (ids)
    return SNum(r[0])


_UF = {}


def find_ite(t, seen):
    if t.get_id() in seen:
        return None
    seen.add(t.get_id())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return t.arg(0)
    for i in range(t.num_args()):
        c = find_ite(t.arg(i), seen)
        if c is not None:
            return c
    return None


def decide_ites(t):
    """fork on the conditions of a term"""
    while True:
        c = find_ite(t, set())
        if c is None:
            return t
        v = bool(SBool(c))
        t = z3.simplify(z3.substitute(t, (c, z3.BoolVal(v))), som=True,
                        som_blowup=100000)


def uf(name, *args):
    """uninterpreted real function (congruence only, plus simple axioms)"""
    args = [num(a) for a in args]
    if all(is_const(a.v) for a in args):
        f = CONC_UF.get(name)
        vals = [float(a.v) for a in args]
        if name in ('exp',) and vals[0] == 0:
            return SNum(Fraction(1))
        if name == 'exp' and math.isinf(vals[0]):
            return SNum(Fraction(0)) if vals[0] < 0 else SNum(INF)
        if name in ('sin', 'tan', 'tanh', 'arctan', 'arcsin', 'sinh') \
                and vals[0] == 0:
            return SNum(Fraction(0))
        if name in ('cos', 'cosh') and vals[0] == 0:
            return SNum(Fraction(1))
        if name in ('log', 'log1p', 'log2', 'log10') and vals[0] <= 0:
            if name != 'log1p' or vals[0] <= -1:
                return SNum(-INF)
        if name == 'pow' and f is not None:
            return SNum(frac(f(*vals)))
    if any(is_const(a.v) and isinstance(a.v, float) for a in args):
        raise Unsupported('non-finite argument of %s' % name)
    key = (name, len(args))
    if key not in _UF:
        _UF[key] = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    ts = [z3.simplify(zreal(a.v), som=True, som_blowup=100000) for a in args]
    p = ENG.cur
    if p.eng.opaque_exp:
        ts = [decide_ites(t) for t in ts]
    hist = p.ufapps.setdefault(key, [])
    if len(hist) < 40:
        # the same function of (identically) the same arguments
        for us, r in hist:
            if all(same_term(u, t) for u, t in zip(us, ts)):
                return SNum(r)
        if name == 'exp' and p.eng.opaque_exp:
            for us, r in hist:
                if same_term(-us[0], ts[0]):
                    return SNum(1 / r)
    if name == 'exp' and p.eng.opaque_exp:
        # some positive number, the same for equal arguments
        s = z3.Real('exp!%d' % len(hist))
        p.axiom(s > 0)
        p.defs.append((s, 'exp', ts[0]))
        hist.append((ts, s))
        return SNum(s)
    r = _UF[key](*ts)
    hist.append((ts, r))
    k = ('uf', r.get_id())
    if k not in p.memo:
        p.memo[k] = r
        if name == 'exp':
            t = ts[0]
            p.axiom(z3.And(r > 0, z3.Implies(t > 0, r > 1),
                           z3.Implies(t < 0, r < 1),
                           z3.Implies(t == 0, r == 1)))
        elif name in ('sin', 'cos', 'tanh'):
            p.axiom(z3.And(r <= 1, r >= -1))
        elif name == 'log':
            p.domain(ts[0] > 0, 'arguments of logarithms are positive')
    return SNum(r)


CONC_UF = {'exp': math.exp, 'sin': math.sin, 'cos': math.cos,
           'tan': math.tan, 'tanh': math.tanh, 'log': math.log,
           'pow': math.pow, 'arctan': math.atan, 'arcsin': math.asin,
           'arccos': math.acos, 'sinh': math.sinh, 'cosh': math.cosh,
           'log1p': math.log1p, 'log2': math.log2, 'log10': math.log10,
           'expm1': math.expm1, 'arctan2': math.atan2}


# ------------------------------------------------- rational normal form

def ratform(t, cache):
    """(numerator, denominator) terms without division (denominator None: 1);
    divisions below if-then-else or functions stay atoms"""
    i = t.get_id()
    r = cache.get(i)
    if r is None:
        r = cache[i] = (_ratform(t, cache), t)
    return r[0]


def _ratform(t, cache):
    k = t.decl().kind()
    if k == z3.Z3_OP_DIV:
        n, d = ratform(t.arg(0), cache)
        n2, d2 = ratform(t.arg(1), cache)
        if d2 is not None:
            n = n * d2
        return n, (n2 if d is None else d * n2)
    if k == z3.Z3_OP_UMINUS:
        n, d = ratform(t.arg(0), cache)
        return -n, d
    if k == z3.Z3_OP_MUL:
        n, d = None, None
        for j in range(t.num_args()):
            a, b = ratform(t.arg(j), cache)
            n = a if n is None else n * a
            if b is not None:
                d = b if d is None else d * b
        return n, d
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        groups = {}
        order = []
        for j in range(t.num_args()):
            a, b = ratform(t.arg(j), cache)
            if k == z3.Z3_OP_SUB and j:
                a = -a
            key = None if b is None else z3.simplify(b, som=True, som_blowup=100000).get_id()
            if key is not None:
                cache.setdefault(('keep', key), z3.simplify(b, som=True, som_blowup=100000))
            if key in groups:
                groups[key][0].append(a)
            else:
                groups[key] = ([a], b)
                order.append(key)
        N, D = None, None
        for key in order:
            as_, b = groups[key]
            a = z3.Sum(as_) if len(as_) > 1 else as_[0]
            if N is None:
                N, D = a, b
            elif b is None:
                N = N + (a * D if D is not None else a)
            elif D is None:
                N, D = N * b + a, b
            else:
                N, D = N * b + a * D, D * b
        return N, D
    if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) or \
            k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
        n, d = ratform(t.arg(0), cache)
        if d is not None:
            return n ** t.arg(1), d ** t.arg(1)
    return t, None


def has_div(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_DIV:
            return True
        st.extend(x.children())
    return False


def consts_of(t):
    """uninterpreted constants (and function applications) of a term"""
    seen, out, todo = set(), [], [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            todo.extend(x.children())
    return out


_PRIME = (1 << 61) - 1
_MODVAL = {}


class _NoValue(Exception):
    pass


def _fracmod(f):
    f = Fraction(f)
    return f.numerator % _PRIME * pow(f.denominator, -1, _PRIME) % _PRIME


def modval(t):
    """value of a real term modulo a prime, at one random point (everything
    that is no rational operation counts as a variable)"""
    todo = [t]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in _MODVAL:
            todo.pop()
            continue
        k = x.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DIV,
                 z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            ch = x.children()
            new = [c for c in ch if c.get_id() not in _MODVAL]
            if new:
                todo.extend(new)
                continue
            v = [_MODVAL[c.get_id()][0] for c in ch]
            if k == z3.Z3_OP_ADD:
                r = sum(v) % _PRIME
            elif k == z3.Z3_OP_MUL:
                r = 1
                for a in v:
                    r = r * a % _PRIME
            elif k == z3.Z3_OP_SUB:
                r = (v[0] - sum(v[1:])) % _PRIME
            elif k == z3.Z3_OP_DIV:
                if v[1] == 0:
                    raise _NoValue()
                r = v[0] * pow(v[1], -1, _PRIME) % _PRIME
            elif k == z3.Z3_OP_UMINUS:
                r = -v[0] % _PRIME
            else:
                r = v[0]
        elif z3.is_rational_value(x) or z3.is_int_value(x):
            r = _fracmod(x.as_fraction() if z3.is_rational_value(x)
                         else x.as_long())
        elif k == z3.Z3_OP_POWER and (z3.is_int_value(x.arg(1)) or (
                z3.is_rational_value(x.arg(1)) and
                x.arg(1).as_fraction().denominator == 1)) and \
                float(x.arg(1).as_fraction() if
                      z3.is_rational_value(x.arg(1))
                      else x.arg(1).as_long()) >= 0:
            c = x.arg(0)
            if c.get_id() not in _MODVAL:
                todo.append(c)
                continue
            e = x.arg(1)
            e = int(e.as_fraction()) if z3.is_rational_value(e) else \
                e.as_long()
            r = pow(_MODVAL[c.get_id()][0], e, _PRIME)
        elif x.num_args() == 0:
            r = int.from_bytes(hashlib.sha256(
                x.decl().name().encode()).digest()[:7], 'big') % _PRIME
        else:
            # if-then-else, functions: the same form may be simplified to
            # another atom, so nothing is known
            raise _NoValue()
        _MODVAL[i] = (r, x)
        todo.pop()
    return _MODVAL[t.get_id()][0]


def surely_different(x, y):
    """as rational functions"""
    if len(_MODVAL) > 400000:
        _MODVAL.clear()
    try:
        return modval(x) != modval(y)
    except (_NoValue, ValueError):
        return False


def same_term(x, y):
    if x.eq(y):
        return True
    if surely_different(x, y):
        return False
    d = x - y
    if has_div(d):
        return same_rational(d)
    d = z3.simplify(d, som=True, som_blowup=100000)
    return z3.is_rational_value(d) and d.numerator_as_long() == 0


def same_rational(d):
    """True if the real term d is identically zero where it is defined"""
    if not has_div(d) or surely_different(d, z3.RealVal(0)):
        return False
    n, _ = ratform(d, {})
    n = z3.simplify(n, som=True, som_blowup=100000)
    return z3.is_rational_value(n) and n.numerator_as_long() == 0


# ---------------------------------------------------------------- engine


class Path(object):
    """one execution: decision prefix, path condition, solver"""

    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.decisions = []     # list of (choice, has_alternative)
        self.solver = z3.Solver()
        self.solver.set('timeout', eng.timeout_ms)
        self.pc = []
        self.memo = {}
        self.defs = []
        self.sqrts = []
        self.sqrtax = {}
        self.ufapps = {}
        self.decided = {}
        self.keep = []
        self.nfresh = 0
        self.checks_done = 0

    # -- facts
    def axiom(self, t):
        self.pc.append(t)
        self.solver.add(t)

    def assume(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathInfeasible()
        self.axiom(t)
        self.decided[t.get_id()] = True
        self.keep.append(t)

    def domain(self, t, why):
        s = z3.simplify(t)
        if z3.is_true(s):
            return
        self.eng.stats.domain.add(why)
        if z3.is_false(s):
            raise PathInfeasible()
        i = s.get_id()
        if i in self.decided:
            if not self.decided[i]:
                raise PathInfeasible()
            return
        self.axiom(s)
        self.decided[i] = True
        self.keep.append(s)

    def fresh(self, name, sort='real'):
        self.nfresh += 1
        n = '%s!%d' % (name, self.nfresh)
        return {'real': z3.Real, 'int': z3.Int, 'bool': z3.Bool}[sort](n)

    # -- queries
    def check(self, *extra):
        return self.eng.query(self.solver, self.pc, extra)

    # -- decisions
    def branch(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = c.get_id()
        if i in self.decided:
            return self.decided[i]
        nc = z3.simplify(z3.Not(c))
        k = len(self.decisions)
        if k < len(self.prefix):
            d, alt = self.prefix[k]
        else:
            self.eng.tick()
            t = self.check(c)
            if t == 'unsat':
                d, alt = False, False
            else:
                f = self.check(nc)
                if f == 'unsat':
                    d, alt = True, False
                else:
                    d, alt = True, True
        self.decisions.append((d, alt))
        self.axiom(c if d else nc)
        self.decided[i] = d
        self.decided[nc.get_id()] = not d
        self.keep.extend((c, nc))
        return d

    def enum_int(self, t):
        """fork over the feasible values of an integer term"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        n = 0
        while True:
            n += 1
            if n > self.eng.max_enum:
                raise PathBudget('more than %d values for an integer' % n)
            k = len(self.decisions)
            key = ('enum', t.get_id(), n)
            v = None
            if k < len(self.prefix):
                v = self.eng.enum_values.get((tuple(
                    d for d, _ in self.decisions), n))
            if v is None:
                m = self.model()
                if m is None:
                    raise PathInfeasible()
                v = m.eval(t, model_completion=True).as_long()
                self.eng.enum_values[(tuple(
                    d for d, _ in self.decisions), n)] = v
            if self.branch(t == v):
                return v

    def pin(self, t):
        m = self.model()
        if m is None:
            raise PathInfeasible()
        v = m.eval(t, model_completion=True)
        f = algebraic_to_fraction(v)
        if z3.is_rational_value(v) or z3.is_int_value(v):
            self.axiom(t == v)
        return int(f) if z3.is_int_value(v) else f

    def model(self, *extra):
        r = self.check(*extra)
        if r != 'sat':
            return None
        return self.eng.last_model


def algebraic_to_fraction(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


class Engine(object):
    opaque_sqrt = False
    opaque_exp = False
    fork_bool_cast = False

    def __init__(self):
        self.cur = None
        self.stats = Stats()
        self.timeout_ms = 5000
        self.max_paths = 20000
        self.max_enum = 200
        self.deadline = None
        self.last_model = None
        self.enum_values = {}
        self.sym = False

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise PathBudget('time budget exhausted')

    def query(self, solver, pc, extra):
        """sat / unsat / unknown of pc + extra; sets last_model"""
        st = self.stats
        st.queries += 1
        t0 = time.time()
        solver.push()
        for e in extra:
            solver.add(e)
        r = str(solver.check())
        if r == 'sat':
            self.last_model = solver.model()
        solver.pop()
        if r == 'unknown':
            # retry with the non-linear real solver, then plain smt
            for mk in (lambda: z3.Then('simplify', 'solve-eqs',
                                       'qfnra-nlsat').solver(),
                       lambda: z3.SimpleSolver()):
                s = mk()
                s.set('timeout', self.timeout_ms * 2)
                s.add(*pc)
                s.add(*extra)
                try:
                    r = str(s.check())
                except z3.Z3Exception:
                    r = 'unknown'
                if r == 'sat':
                    self.last_model = s.model()
                if r != 'unknown':
                    break
        st.solver_s += time.time() - t0
        setattr(st, r, getattr(st, r) + 1)
        return r

    def explore(self, fn, on_path):
        """DFS over all paths of fn(); on_path(path, outcome) per path.
        outcome: ('ok', value) | ('exc', exception) | ('violation', v) |
        ('unsupported', e).  Returns True if the exploration was exhaustive."""
        prefix = []
        n = 0
        self.enum_values = {}
        while True:
            p = Path(self, prefix)
            self.cur = p
            n += 1
            try:
                out = ('ok', fn())
            except PathInfeasible:
                out = ('infeasible', None)
            except Violation as v:
                out = ('violation', v)
            except PathBudget as e:
                out = ('budget', e)
            except Unsupported as e:
                out = ('unsupported', e)
            except Exception as e:
                out = ('exc', e)
            self.stats.branches += max(0, len(p.decisions) - len(prefix)) \
                if prefix else len(p.decisions)
            if out[0] != 'infeasible':
                self.stats.paths += 1
            stop = on_path(p, out)
            if stop:
                return False
            # backtrack
            dec = p.decisions
            while dec and not (dec[-1][0] is True and dec[-1][1]):
                dec = dec[:-1]
            if not dec:
                return out[0] != 'budget'
            prefix = dec[:-1] + [(False, False)]
            if n >= self.max_paths or (self.deadline and
                                       time.time() > self.deadline):
                return False


ENG = Engine()
