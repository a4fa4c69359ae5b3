"""Harness contexts: the same harness runs symbolically (SymCtx) or on concrete
values against the untouched numpy-backed code (ConcCtx)."""
import importlib
import math
import os
import random as _random
import sys
import types
from fractions import Fraction

import numpy as np
import z3

from . import arr, core
from .core import (ENG, SBool, SNum, PathInfeasible, Violation, boolterm,
                   is_const, num, sand, truth, zreal)

_real_random = np.random


class AssumeFailed(core.SymxError):
    pass


class ConcViolation(core.SymxError):
    def __init__(self, msg, detail=''):
        core.SymxError.__init__(self, msg)
        self.msg = msg
        self.detail = detail


# ------------------------------------------------------------ patching

def _modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and n.split('.')[0] in ('mdp', 'bimdp')
            and isinstance(m, types.ModuleType)]


_FUNC_MAP = None


def _funcmap():
    global _FUNC_MAP
    if _FUNC_MAP is None:
        d = {}
        for name, f in arr.SHIM.__dict__.items():
            r = getattr(np, name, None)
            if r is not None and callable(f):
                d[id(r)] = f
        for name in arr.LINALG:
            r = getattr(np.linalg, name, None)
            if r is not None:
                d[id(r)] = getattr(arr.LINALG_SHIM, name)
        for name in dir(type(arr.RAND_SHIM)):
            r = getattr(np.random, name, None)
            if r is not None and not name.startswith('_') and \
                    name in vars(arr.RandShim) and name not in (
                        'RandomState', 'mtrand'):
                d[id(r)] = getattr(arr.RAND_SHIM, name)
        d[id(np)] = arr.SHIM
        d[id(np.linalg)] = arr.LINALG_SHIM
        d[id(np.random)] = arr.RAND_SHIM
        _FUNC_MAP = d
    return _FUNC_MAP


class _TypeMeta(type):
    """`type` inside the code under test: the type of an array is ndarray"""
    def __call__(cls, *a, **k):
        r = type(*a, **k)
        if len(a) == 1 and issubclass(r, np.ndarray):
            return arr.NDArray
        return r

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)

    def __getattr__(cls, name):
        return getattr(type, name)


class TypeShim(metaclass=_TypeMeta):
    pass


class Patcher(object):
    """substitute numpy by the shim in every global of the code under test"""

    def __init__(self):
        self.sites = None
        self.types = []

    def scan(self):
        fm = _funcmap()
        self.sites = []
        for m in _modules():
            for k, v in list(vars(m).items()):
                if id(v) in fm and not k.startswith('__'):
                    self.sites.append((m, k, v, fm[id(v)]))

    def sym(self):
        self.scan()
        for m, k, v, s in self.sites:
            setattr(m, k, s)
        self.types = [m for m in _modules() if 'type' not in vars(m)]
        for m in self.types:
            m.type = TypeShim

    def conc(self):
        """only the random number source"""
        self.scan()
        for m, k, v, s in self.sites:
            if v is np.random or \
                    getattr(s, '__self__', None) is arr.RAND_SHIM:
                setattr(m, k, s)

    def restore(self):
        for m, k, v, s in self.sites or []:
            setattr(m, k, v)
        self.sites = None
        for m in self.types:
            del m.type
        self.types = []


# ------------------------------------------------------------ contexts

class Base(object):
    sym = False

    def __init__(self, opts=None):
        self.names = {}
        self.reached = set()
        self.opts = opts or {}
        self.ops = []       # human readable history
        self.known = set()
        self.cleanups = []
        self.nrand = 0
        self.draws = []
        self.ranges = {}
        self.obs = []

    def _uniq(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else '%s#%d' % (name, k)

    def log(self, *a):
        self.ops.append(' '.join(str(x) for x in a))

    def reach(self, tag):
        self.reached.add(tag)

    def add_cleanup(self, f):
        self.cleanups.append(f)

    def cleanup(self):
        for f in reversed(self.cleanups):
            try:
                f()
            except Exception:
                pass
        self.cleanups = []

    def patch(self, obj, name, value):
        """attribute substitution for the duration of one path"""
        had = name in getattr(obj, '__dict__', {})
        old = getattr(obj, name, None)
        setattr(obj, name, value)
        if had:
            self.add_cleanup(lambda: setattr(obj, name, old))
        else:
            self.add_cleanup(lambda: delattr(obj, name))

    def choose(self, name, options):
        """symbolic choice among a list of alternatives"""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def raises(self, exc, f, *a, **k):
        try:
            f(*a, **k)
        except exc as e:
            return e
        return None

    def must_raise(self, exc, msg, f, *a, **k):
        try:
            f(*a, **k)
        except exc as e:
            return e
        except Exception as e:
            self.fail('%s: raised %s instead' % (msg, type(e).__name__),
                      key=msg)
            return None
        self.fail(msg)

    def fail(self, msg, key=None):
        self.check(False, msg, key)

    def known_eigh(self, a, w, z):
        """a == z diag(w) z^T with z orthogonal and w ascending"""
        if self.sym:
            from . import arr
            arr.known_result('eigh', a, (w, z))
            arr.known_result('svd', a, (z[:, ::-1], w[::-1],
                                        z[:, ::-1].T))

    def rotation(self, name):
        """2-D rotation by any angle but pi (rational parametrisation), or
        such a rotation followed by a reflection"""
        t = self.real(name)
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        r = self.zeros((2, 2))
        r[0, 0], r[0, 1], r[1, 0], r[1, 1] = c, -s, s, c
        return r

    def vec(self, name, n, **k):
        return self.array(name, (n,), **k)


class SymCtx(Base):
    sym = True

    def __init__(self, opts=None):
        Base.__init__(self, opts)
        self.vars = []     # (name, kind, z3var, meta)

    # -- inputs
    def real(self, name, lo=None, hi=None):
        n = self._uniq(name)
        v = z3.Real(n)
        self.vars.append((n, 'real', v))
        if lo is not None:
            ENG.cur.axiom(v >= zreal(num(lo).v))
        if hi is not None:
            ENG.cur.axiom(v <= zreal(num(hi).v))
        return SNum(v)

    def square(self, name, lo=0, hi=None):
        """s*s for a fresh s >= 0 (its square root is known to be s)"""
        s = self.real(name, lo=lo, hi=hi)
        r = s * s
        t = z3.simplify(zreal(r.v), som=False)
        ENG.cur.memo[('sqrt', t.get_id())] = (s.v, t)
        return r

    def known_sqrt(self, value, root):
        """the harness knows that root >= 0 is the square root of value"""
        v, r = (zreal(getattr(q, 'v', q)) for q in (value, root))
        t = z3.simplify(v, som=False)
        ENG.cur.memo[('sqrt', t.get_id())] = (r, t)

    def int(self, name, lo=None, hi=None):
        n = self._uniq(name)
        v = z3.Int(n)
        self.vars.append((n, 'int', v))
        if lo is not None:
            ENG.cur.axiom(v >= lo)
        if hi is not None:
            ENG.cur.axiom(v <= hi)
        return SNum(v)

    def bool(self, name):
        n = self._uniq(name)
        v = z3.Bool(n)
        self.vars.append((n, 'bool', v))
        return SBool(v)

    def array(self, name, shape, dtype='float64', lo=None, hi=None):
        dt = np.dtype(dtype)
        name = self._uniq(name)
        o = np.empty(shape, dtype=object)
        for p in np.ndindex(*o.shape):
            nm = name + '[' + ','.join(map(str, p)) + ']'
            if dt.kind in 'iu':
                o[p] = self.int(nm, lo, hi)
            elif dt.kind == 'b':
                o[p] = self.bool(nm)
            else:
                o[p] = self.real(nm, lo, hi)
        return arr.wrap(o, dt)

    def const(self, x, dtype=None):
        return arr.s_array(np.array(x, dtype=dtype or float))

    def zeros(self, shape, dtype=float):
        return arr.s_zeros(shape, dtype)

    def np(self):
        return arr.SHIM
    np = property(np)

    def rand(self, kind, size, *a, **k):
        """a random draw (logged in draws)"""
        r = self._rand(kind, size, *a, **k)
        self.draws.append((kind, r.copy() if hasattr(r, 'copy') else r))
        return r

    def _rand(self, kind, size, lo=None, hi=None, strict=True,
              integer=False):
        self.nrand += 1
        nm = 'rand%d' % self.nrand
        if size is None:
            shape = ()
        elif isinstance(size, (int, np.integer, SNum)):
            shape = (int(size),)
        else:
            shape = tuple(int(s) for s in size)
        o = np.empty(shape, dtype=object)
        for p in np.ndindex(*shape):
            n = nm + ('[' + ','.join(map(str, p)) + ']' if p else '')
            if integer:
                e = self.int(n, int(lo), int(hi) - 1)
            else:
                e = self.real(n)
                if lo is not None:
                    self.ranges[n] = (lo, hi)
                    ENG.cur.axiom(e.v >= lo)
                    ENG.cur.axiom(e.v < hi)
            o[p] = e
        if size is None:
            return o[()]
        return arr.wrap(o, np.dtype('int64') if integer else arr.F64)

    # -- logic
    def assume(self, c):
        c = truth(c)
        if c is True:
            return
        if c is False:
            raise PathInfeasible()
        ENG.cur.assume(c.t)
        if ENG.cur.check() == 'unsat':
            raise PathInfeasible()

    def implies(self, a, b):
        return core.sor([core.snot(truth(a)), truth(b)])

    def all(self, xs):
        return sand([truth(x) for x in xs])

    def any(self, xs):
        return core.sor([truth(x) for x in xs])

    def check(self, cond, msg, key=None):
        ENG.stats.checks += 1
        ENG.cur.checks_done += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        c = truth(cond)
        if c is True:
            ENG.stats.simplified += 1
            return
        key = key or msg
        if c is False:
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(c.t)
        self._refute(neg, None, msg, key)

    def _refute(self, neg, diffs, msg, key):
        r = ENG.cur.check(neg)
        if r == 'unsat':
            return
        if r == 'unknown':
            ENG.undecided.append('%s' % msg)
            return
        v = Violation(msg, ENG.last_model)
        v.key = key
        v.neg = neg
        v.diffs = diffs
        ENG.on_violation(self, v)

    def eq(self, a, b, msg, key=None, tol=None):
        """a == b elementwise, for every value"""
        ENG.stats.checks += 1
        ENG.cur.checks_done += 1
        key = key or msg
        a = arr.from_nested(a)
        b = arr.from_nested(b)
        if a.shape != b.shape:
            if a.size == 1 and b.size == 1:
                a, b = a.reshape(()), b.reshape(())
            else:
                return self.check(False, '%s: shape %s != %s' % (
                    msg, a.shape, b.shape), key)
        ao, bo = arr.obj(a), arr.obj(b)
        self.obs.append(('eq', msg, ao, bo))
        pend = []
        for p in np.ndindex(*ao.shape):
            x, y = ao[p], bo[p]
            if isinstance(x, (SBool, bool)) and isinstance(y, (SBool, bool)):
                e = z3.simplify(boolterm(x) == boolterm(y))
                if z3.is_true(e):
                    continue
                pend.append((z3.Not(e), None))
                continue
            vx, vy = num(x).v, num(y).v
            if is_const(vx) and is_const(vy):
                if vx == vy or (vx != vx and vy != vy):
                    continue
                if not isinstance(vx, float) and not isinstance(vy, float):
                    # constants coming from float computations
                    if abs(vx - vy) <= Fraction(1, 10**9) * (
                            1 + abs(vx) + abs(vy)):
                        continue
                pend.append((z3.BoolVal(True), None))
                continue
            if isinstance(vx, float) or isinstance(vy, float):
                pend.append((z3.BoolVal(True), None))
                continue
            zx, zy = zreal(vx), zreal(vy)
            if zx.eq(zy) or z3.simplify(zx).eq(z3.simplify(zy)):
                continue
            if core.surely_different(zx, zy):
                d = z3.simplify(zx - zy)
                pend.append((d != 0 if tol is None else
                             z3.Or(d > tol, d < -tol), d))
                continue
            d = z3.simplify(zx - zy, som=True, som_blowup=100000)
            if z3.is_rational_value(d) and d.numerator_as_long() == 0:
                continue
            if tol is not None:
                pend.append((z3.Or(d > tol, d < -tol), d))
            else:
                if core.same_rational(zreal(vx) - zreal(vy)):
                    continue
                pend.append((d != 0, d))
        if not pend:
            ENG.stats.simplified += 1
            return
        for neg, d in pend:
            self._refute(neg, [d] if d is not None else None, msg, key)

    def le(self, a, b, msg, key=None):
        self.check(num(a) <= num(b), msg, key)

    def same(self, a, b, msg, key=None):
        """python-level equality of concrete things"""
        self.check(bool(a == b), '%s' % msg, key)

    def close(self, f):
        pass


class ConcCtx(Base):
    sym = False

    def __init__(self, values, opts=None, default=None, seed=0):
        Base.__init__(self, opts)
        self.values = values
        self.used = {}
        self.rng = _random.Random(seed)
        self.maxerr = 0.0

    def _get(self, n, kind, lo, hi):
        if n in self.values:
            v = self.values[n]
        elif kind == 'real':
            v = Fraction(self.rng.randint(-24, 24), 8)
            if lo is not None and v < lo:
                v = Fraction(lo) + abs(v) / 4
            if hi is not None and v > hi:
                v = Fraction(hi) - Fraction(1, 8)
                if lo is not None and v < lo:
                    v = (Fraction(lo) + Fraction(hi)) / 2
        elif kind == 'int':
            l = -3 if lo is None else lo
            h = max(3, l + 4) if hi is None else hi
            v = self.rng.randint(l, h)
        else:
            v = self.rng.random() < 0.5
        self.used[n] = v
        return v

    def real(self, name, lo=None, hi=None):
        lo = None if lo is None else num(lo).v
        hi = None if hi is None else num(hi).v
        n = self._uniq(name)
        v = self._get(n, 'real', lo, hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed(n)
        return np.float64(float(v))

    def known_sqrt(self, value, root):
        pass

    def square(self, name, lo=0, hi=None):
        return self.real(name, lo, hi) ** 2

    def int(self, name, lo=None, hi=None):
        n = self._uniq(name)
        v = int(self._get(n, 'int', lo, hi))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed(n)
        return v

    def bool(self, name):
        return bool(self._get(self._uniq(name), 'bool', None, None))

    def array(self, name, shape, dtype='float64', lo=None, hi=None):
        dt = np.dtype(dtype)
        name = self._uniq(name)
        a = np.zeros(shape, dtype=dt)
        for p in np.ndindex(*a.shape):
            nm = name + '[' + ','.join(map(str, p)) + ']'
            if dt.kind in 'iu':
                a[p] = self.int(nm, lo, hi)
            elif dt.kind == 'b':
                a[p] = self.bool(nm)
            else:
                a[p] = self.real(nm, lo, hi)
        return a

    def const(self, x, dtype=None):
        return np.array(x, dtype=dtype or float)

    def zeros(self, shape, dtype=float):
        return np.zeros(shape, dtype)

    np = np

    def rand(self, kind, size, *a, **k):
        """a random draw (logged in draws)"""
        r = self._rand(kind, size, *a, **k)
        self.draws.append((kind, r.copy() if hasattr(r, 'copy') else r))
        return r

    def _rand(self, kind, size, lo=None, hi=None, strict=True,
              integer=False):
        self.nrand += 1
        nm = 'rand%d' % self.nrand
        shape = () if size is None else (
            (int(size),) if isinstance(size, (int, np.integer)) else
            tuple(size))
        o = np.zeros(shape, dtype=int if integer else float)
        for p in np.ndindex(*shape):
            n = nm + ('[' + ','.join(map(str, p)) + ']' if p else '')
            if integer:
                o[p] = self.int(n, int(lo), int(hi) - 1)
            elif kind == 'u':
                v = self._get(n, 'real', 0, 1)
                o[p] = min(max(float(v), 0.0), 1 - 1e-12)
            else:
                o[p] = float(self._get(n, 'real', None, None))
        return o[()] if size is None else o

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            raise AssumeFailed()

    def implies(self, a, b):
        return (not a) or bool(b)

    def all(self, xs):
        return all(bool(x) for x in xs)

    def any(self, xs):
        return any(bool(x) for x in xs)

    def check(self, cond, msg, key=None):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            if (key or msg) in self.known:
                return
            v = ConcViolation(msg)
            v.key = key or msg
            raise v

    def eq(self, a, b, msg, key=None, tol=None):
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            if a.size == 1 and b.size == 1:
                a, b = a.reshape(()), b.reshape(())
            else:
                return self.check(False, '%s: shape %s != %s' % (
                    msg, a.shape, b.shape), key)
        self.obs.append(('eq', msg, a, b))
        if a.dtype == object or b.dtype == object:
            return self.check(bool(np.all(a == b)), msg, key)
        f32 = np.float32 in (a.dtype.type, b.dtype.type)
        rt = 1e-3 if f32 else 1e-6
        a = a.astype(float)
        b = b.astype(float)
        an, bn = np.isnan(a), np.isnan(b)
        if (an != bn).any():
            return self._bad(msg, key, a, b)
        ai, bi = np.isinf(a), np.isinf(b)
        if (ai != bi).any() or (a[ai] != b[bi]).any():
            return self._bad(msg, key, a, b)
        m = ~(an | ai)
        a, b = a[m], b[m]
        if a.size:
            scale = 1 + max(np.abs(a).max(), np.abs(b).max())
            err = np.abs(a - b)
            lim = rt * scale * self.opts.get('tolscale', 1)
            if tol is not None:
                lim = max(lim, tol)
            if (err > lim).any():
                return self._bad(msg, key, a, b)

    def _bad(self, msg, key, a, b):
        if (key or msg) in self.known:
            return
        v = ConcViolation(msg, 'got %s expected %s' % (
            np.array2string(np.asarray(a), precision=6, threshold=20),
            np.array2string(np.asarray(b), precision=6, threshold=20)))
        v.key = key or msg
        raise v

    def le(self, a, b, msg, key=None):
        self.check(a <= b + 1e-7 * (1 + abs(a) + abs(b)), msg, key)

    def same(self, a, b, msg, key=None):
        self.check(bool(a == b), msg, key)


# -------------------------------------------------- numeric term evaluation

class NoValue(Exception):
    pass


def evalf(t, env, cache):
    """float value of a z3 term (inputs from env; sqrt/exp/... interpreted)"""
    i = t.get_id()
    if i in cache:
        return cache[i][0]
    r = _evalf(t, env, cache)
    cache[i] = (r, t)
    return r


def _evalf(t, env, cache):
    if z3.is_int_value(t):
        return float(t.as_long())
    if z3.is_rational_value(t):
        return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    k = t.decl().kind()
    n = t.num_args()
    if n == 0:
        nm = t.decl().name()
        if nm in env:
            v = env[nm]
            return evalf(v, env, cache) if isinstance(v, z3.ExprRef) else v
        raise NoValue(nm)
    a = [evalf(t.arg(j), env, cache) for j in range(n)] \
        if k != z3.Z3_OP_ITE else None
    if k == z3.Z3_OP_ADD:
        return math.fsum(a)
    if k == z3.Z3_OP_MUL:
        r = 1.0
        for x in a:
            r *= x
        return r
    if k == z3.Z3_OP_SUB:
        r = a[0]
        for x in a[1:]:
            r -= x
        return r
    if k == z3.Z3_OP_UMINUS:
        return -a[0]
    if k == z3.Z3_OP_DIV:
        if a[1] == 0:
            raise NoValue('div')
        return a[0] / a[1]
    if k == z3.Z3_OP_IDIV:
        return float(math.floor(a[0] / a[1]))
    if k == z3.Z3_OP_MOD:
        return a[0] - a[1] * math.floor(a[0] / a[1])
    if k == z3.Z3_OP_POWER:
        return a[0] ** a[1]
    if k == z3.Z3_OP_TO_REAL:
        return a[0]
    if k == z3.Z3_OP_TO_INT:
        return float(math.floor(a[0]))
    if k == z3.Z3_OP_ITE:
        c = evalf(t.arg(0), env, cache)
        return evalf(t.arg(1 if c else 2), env, cache)
    if k == z3.Z3_OP_LE:
        return a[0] <= a[1]
    if k == z3.Z3_OP_GE:
        return a[0] >= a[1]
    if k == z3.Z3_OP_LT:
        return a[0] < a[1]
    if k == z3.Z3_OP_GT:
        return a[0] > a[1]
    if k == z3.Z3_OP_EQ:
        return a[0] == a[1]
    if k == z3.Z3_OP_DISTINCT:
        return len(set(a)) == len(a)
    if k == z3.Z3_OP_NOT:
        return not a[0]
    if k == z3.Z3_OP_AND:
        return all(a)
    if k == z3.Z3_OP_OR:
        return any(a)
    if k == z3.Z3_OP_XOR:
        return a[0] != a[1]
    if k == z3.Z3_OP_UNINTERPRETED:
        f = core.CONC_UF.get(t.decl().name())
        if f is None:
            raise NoValue(t.decl().name())
        try:
            return f(*a)
        except (ValueError, OverflowError):
            raise NoValue('domain')
    raise NoValue('op %d' % k)
