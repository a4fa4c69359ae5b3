"""SymArray: an ndarray subclass (object storage, dtype tag) whose elements are
symbolic scalars, and the numpy stand-in that makes the real code allocate
SymArrays.  numpy itself does all the indexing / broadcasting / shape work."""
import builtins
import functools
import itertools
import types
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import (ENG, SBool, SNum, Unsupported, frac, ite, mkbool, num,
                   sand, snot, sor, truth)

F64 = np.dtype('float64')
BOOL = np.dtype(bool)
INT = np.dtype('int64')


def _lift(x):
    """scalar -> element object"""
    if isinstance(x, (SNum, SBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)):
        return SNum(frac(x))
    if isinstance(x, (complex, np.complexfloating)):
        return num(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _lift(x.item())
    raise Unsupported('element %r' % (type(x),))


def cast(x, dt):
    """cast a scalar to a dtype kind"""
    k = dt.kind
    if k == 'b':
        return truth(x)
    if ENG.fork_bool_cast and isinstance(x, SBool):
        x = bool(x)
    if k in 'iu':
        if isinstance(x, (bool, np.bool_)):
            return SNum(int(x))
        return core.toint(x)
    if k == 'f':
        n = num(x)
        if core.is_const(n.v):
            if isinstance(n.v, int):
                return SNum(Fraction(n.v))
            return n
        return SNum(z3.ToReal(n.v)) if n.v.is_int() else n
    if k == 'O':
        return x
    if k == 'c':
        return num(x)
    raise Unsupported('cast to %s' % dt)


_ulift = np.frompyfunc(_lift, 1, 1)


def obj(x):
    """plain object ndarray view/conversion of anything array-like"""
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind in 'biufc':
            r = np.empty(x.shape, dtype=object)
            if x.size:
                r[...] = _ulift(x)
            return r
        return x
    if isinstance(x, (SNum, SBool)):
        r = np.empty((), dtype=object)
        r[()] = x
        return r
    if isinstance(x, (bool, int, float, Fraction, np.number, np.bool_)):
        r = np.empty((), dtype=object)
        r[()] = _lift(x)
        return r
    return obj(from_nested(x))


def tagof(x):
    if isinstance(x, SymArray):
        return x._tag
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return _infer(x)
        return x.dtype
    if isinstance(x, SBool):
        return BOOL
    if isinstance(x, SNum):
        return x.dtype
    return None


def restag(args):
    """numpy result type of operands (python scalars are weak)"""
    ts, weak = [], []
    for a in args:
        if isinstance(a, (bool, np.bool_)):
            ts.append(BOOL)
        elif isinstance(a, (int, float, complex, Fraction)) and \
                not isinstance(a, np.generic):
            weak.append('b' if isinstance(a, bool) else
                        'i' if isinstance(a, int) else 'f')
        elif isinstance(a, SNum):
            weak.append('i' if a.isint else 'f')
        elif isinstance(a, np.ndarray) and a.ndim == 0:
            weak.append(tagof(a).kind)
        elif isinstance(a, np.generic):
            weak.append(a.dtype.kind)
        else:
            t = tagof(a)
            if t is None:
                t = tagof(from_nested(a))
            ts.append(t)
    if not ts:
        if 'f' in weak:
            return F64
        if 'i' in weak or 'u' in weak:
            return INT
        return BOOL
    r = ts[0]
    for t in ts[1:]:
        r = np.promote_types(r, t) if 'O' not in (r.kind, t.kind) else F64
    if 'f' in weak and r.kind in 'biu':
        r = F64
    if ('i' in weak or 'u' in weak) and r.kind == 'b':
        r = INT
    return r


def _infer(a):
    k = 'b'
    for e in a.ravel():
        if isinstance(e, SNum):
            if not e.isint:
                return F64
            k = 'i'
        elif isinstance(e, (SBool, bool, np.bool_)):
            pass
        elif isinstance(e, (int, np.integer)):
            k = 'i'
        elif isinstance(e, (float, Fraction, np.floating)):
            return F64
        else:
            return np.dtype(object)
    if not a.size:
        return F64
    return BOOL if k == 'b' else INT


def wrap(o, tag):
    """object ndarray -> SymArray (scalars are returned bare)"""
    if isinstance(o, np.ndarray):
        r = o.view(SymArray)
        r._tag = np.dtype(tag)
        return r
    return o


def mk(seq, tag=F64):
    a = np.empty(len(seq), dtype=object)
    for i, e in enumerate(seq):
        a[i] = e
    return wrap(a, tag)


def has_sym(x, depth=0):
    if isinstance(x, (SymArray, SNum, SBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e) for e in x.ravel()[:64])
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(e, depth + 1) for e in x)
    return False


def from_nested(x):
    """nested sequences with symbolic scalars / arrays -> SymArray"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return wrap(obj(x), tagof(x))
    if isinstance(x, (SNum, SBool, bool, int, float, Fraction, np.number,
                      np.bool_)):
        return wrap(obj(x), tagof(x) or np.asarray(
            x if not isinstance(x, Fraction) else float(x)).dtype)
    if isinstance(x, (set, dict)) or x is None:
        raise Unsupported('array of %r' % type(x))
    if not hasattr(x, '__iter__'):
        raise Unsupported('array of %r' % type(x))
    items = [from_nested(e) for e in x]
    if not items:
        return wrap(np.empty((0,), dtype=object), F64)
    shp = items[0].shape
    for it in items:
        if it.shape != shp:
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
    r = np.empty((len(items),) + shp, dtype=object)
    for i, it in enumerate(items):
        r[i, ...] = obj(it) if shp else it.view(np.ndarray)[()]
    tags = [it._tag for it in items]
    t = tags[0]
    for u in tags[1:]:
        t = np.promote_types(t, u)
    return wrap(r, t)


def castarr(o, dt):
    """cast an object ndarray elementwise to dtype kind"""
    r = np.empty(o.shape, dtype=object)
    rf, of = r.reshape(-1), np.ascontiguousarray(o).reshape(-1)
    for i in range(of.shape[0]):
        rf[i] = cast(of[i], dt)
    return rf.reshape(o.shape)


def plain(a):
    """concrete numpy array of a SymArray (forks / pins symbolic elements)"""
    a = a if isinstance(a, SymArray) else from_nested(a)
    o = obj(a)
    k = a._tag.kind
    if k == 'b':
        f, dt = bool, bool
    elif k in 'iu':
        f, dt = (lambda e: int(e)), np.intp
    else:
        f, dt = float, float
    r = np.empty(o.shape, dtype=dt)
    rf = r.reshape(-1)
    for i, e in enumerate(o.reshape(-1)):
        rf[i] = f(e)
    return r.reshape(o.shape)


def allconst(a):
    for e in obj(a).reshape(-1):
        if isinstance(e, SBool) or (isinstance(e, SNum)
                                    and not core.is_const(e.v)):
            return False
    return True


def _key(k):
    """index expression -> plain index expression"""
    if isinstance(k, tuple):
        return tuple(_key(e) for e in k)
    if isinstance(k, SymArray):
        if k._tag.kind == 'f':
            raise IndexError('arrays used as indices must be of integer '
                             '(or boolean) type')
        return plain(k)
    if isinstance(k, (SNum,)):
        return int(k.__index__())
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, slice):
        f = lambda e: int(e) if isinstance(e, SNum) else e
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list):
        if has_sym(k):
            return plain(from_nested(k))
        return k
    return k


def _symidx(k):
    """does the key contain symbolic integers (not yet decided)?"""
    ks = k if isinstance(k, tuple) else (k,)
    for e in ks:
        if isinstance(e, SymArray) and e._tag.kind in 'iu' and \
                not allconst(e):
            return True
        if isinstance(e, SNum) and e.isint and not core.is_const(e.v):
            return True
    return False


def _lookup(o, idx, axis):
    """symbolic gather along an axis: ite chains (bounds are decided first)"""
    n = o.shape[axis]
    om = np.moveaxis(o, axis, 0)
    idx = idx if isinstance(idx, SymArray) else wrap(obj(idx), INT)
    out = np.empty(idx.shape + om.shape[1:], dtype=object)
    for pos in np.ndindex(*idx.shape):
        i = num(idx.view(np.ndarray)[pos])
        if core.is_const(i.v):
            out[pos] = om[i.v]
            continue
        if not bool(sand([i >= -n, i < n])):
            raise IndexError('index out of bounds for axis %d with size %d'
                             % (axis, n))
        acc = om[n - 1]
        for j in range(n - 2, -1, -1):
            c = sor([i == j, i == j - n])
            if om.ndim == 1:
                acc = ite(c, om[j], acc)
            else:
                acc = np.frompyfunc(lambda a, b, c=c: ite(c, a, b), 2, 1)(
                    om[j], acc)
        out[pos] = acc
    # move index axes to position `axis`
    if idx.ndim:
        src = list(range(idx.ndim))
        out = np.moveaxis(out, src, [axis + s for s in src])
    return out


def _scalar_key(k, ndim):
    k = k if isinstance(k, tuple) else (k,)
    return len(k) == ndim and all(isinstance(i, (int, np.integer)) for i in k)


class IdxArray(np.ndarray):
    """concrete indices that can be selected by a symbolic mask"""

    def __getitem__(self, k):
        if isinstance(k, SymArray):
            k = plain(k)
        return np.ndarray.__getitem__(self, k)


class SymArray(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, o):
        t = getattr(o, '_tag', None)
        self._tag = t if t is not None else F64

    @property
    def dtype(self):
        return self._tag

    @dtype.setter
    def dtype(self, t):
        raise Unsupported('assignment to .dtype')

    @property
    def itemsize(self):
        return self._tag.itemsize

    @property
    def nbytes(self):
        return self._tag.itemsize * self.size

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SHIM.zeros(self.shape, self._tag)

    # -- conversions
    def astype(self, dtype, order='K', casting='unsafe', subok=True,
               copy=True):
        dt = np.dtype(dtype)
        return wrap(castarr(obj(self), dt), dt)

    def view(self, *a, **k):
        if a and not isinstance(a[0], type):
            raise Unsupported('view with dtype')
        return np.ndarray.view(self, *a, **k)

    def copy(self, order='C'):
        return wrap(obj(self).copy(), self._tag)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        o = obj(self)
        return (_unpickle_arr, (list(o.reshape(-1)), self.shape,
                                self._tag.str))

    def __reduce_ex__(self, proto):
        return self.__reduce__()

    def tolist(self):
        return obj(self).tolist()

    def item(self, *args):
        return obj(self).item(*args)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return iter([self[i] for i in range(self.shape[0])])

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one '
                             'element is ambiguous. Use a.any() or a.all()')
        return bool(truth(obj(self).reshape(-1)[0]))

    def __float__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return float(num(obj(self).reshape(-1)[0]))

    def __int__(self):
        if self.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return int(num(obj(self).reshape(-1)[0]))

    def __index__(self):
        if self.ndim == 0 and self._tag.kind in 'iu':
            return int(num(obj(self).reshape(-1)[0]))
        raise TypeError('only integer scalar arrays can be converted to a '
                        'scalar index')

    def tobytes(self, *a, **k):
        return repr([(e.v if core.is_const(e.v) else e.v.get_id())
                     if isinstance(e, SNum) else
                     (e if isinstance(e, bool) else e.t.get_id())
                     for e in obj(self).reshape(-1)]).encode()
    tostring = tobytes

    def __repr__(self):
        return 'SymArray(shape=%s, dtype=%s)' % (self.shape, self._tag)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    # -- indexing
    def __getitem__(self, k):
        o = obj(self)
        if _symidx(k):
            if not isinstance(k, tuple):
                return self._w(_lookup(o, k, 0))
            nsym = [i for i, e in enumerate(k) if _symidx(e)]
            others_ok = all(isinstance(e, slice) or i in nsym
                            for i, e in enumerate(k))
            if len(nsym) == 1 and others_ok:
                ax = nsym[0]
                base = o[tuple(slice(None) if i in nsym else _key(e)
                               for i, e in enumerate(k))]
                return self._w(_lookup(base, k[ax], ax))
            if len(nsym) >= 1 and all(isinstance(e, (SNum, int, np.integer))
                                      for e in k) and len(k) <= o.ndim:
                r = self
                for e in k:
                    r = r[e]
                return r
        if isinstance(k, SymArray) and k._tag.kind == 'b' and \
                not allconst(k):
            k = plain(k)
        r = o[_key(k)]
        return self._w(r)

    def _w(self, r):
        if isinstance(r, np.ndarray) and r.dtype == object:
            return wrap(r, self._tag)
        return r

    def __setitem__(self, k, v):
        o = obj(self)
        if isinstance(k, SymArray) and k._tag.kind == 'b' and not allconst(k):
            vo = obj(v)
            if vo.ndim == 0 and k.shape == self.shape:
                val = cast(vo.item(), self._tag)
                kf = obj(k)
                for pos in np.ndindex(*self.shape):
                    o[pos] = ite(kf[pos], val, o[pos])
                return
            k = plain(k)
        if isinstance(k, SNum) and k.isint and not core.is_const(k.v):
            k = int(k)
        vo = castarr(obj(v), self._tag)
        kk = _key(k)
        if vo.ndim == 0 or (vo.size == 1 and isinstance(kk, (int, tuple)) and
                            _scalar_key(kk, o.ndim)):
            o[kk] = vo.item()
        else:
            o[kk] = vo

    def take(self, indices, axis=None, out=None, mode='raise'):
        return np.take(self, indices, axis=axis)

    def fill(self, v):
        self[...] = v

    # -- methods (route everything through the function table)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SHIM.sum(self, axis=axis, dtype=dtype, out=out,
                        keepdims=keepdims, **k)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return SHIM.mean(self, axis=axis, out=out, keepdims=keepdims, **k)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **k):
        return F['var'](self, axis=axis, ddof=ddof, out=out,
                        keepdims=keepdims, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **k):
        return F['std'](self, axis=axis, ddof=ddof, out=out,
                        keepdims=keepdims, **k)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return F['prod'](self, axis=axis, out=out, keepdims=keepdims, **k)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return F['max'](self, axis=axis, out=out, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return F['min'](self, axis=axis, out=out, keepdims=keepdims, **k)

    def ptp(self, axis=None, out=None, keepdims=False):
        r = self.max(axis=axis, keepdims=keepdims) - self.min(
            axis=axis, keepdims=keepdims)
        if out is not None:
            out[...] = r
            return out
        return r

    def any(self, axis=None, out=None, keepdims=False, **k):
        return F['any'](self, axis=axis, out=out, keepdims=keepdims, **k)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return F['all'](self, axis=axis, out=out, keepdims=keepdims, **k)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return F['argsort'](self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return F['argmax'](self, axis=axis, out=out, **k)

    def argmin(self, axis=None, out=None, **k):
        return F['argmin'](self, axis=axis, out=out, **k)

    def sort(self, axis=-1, kind=None, order=None, **k):
        obj(self)[...] = obj(F['sort'](self, axis=axis))

    def cumsum(self, axis=None, dtype=None, out=None):
        return F['cumsum'](self, axis=axis, dtype=dtype, out=out)

    def cumprod(self, axis=None, dtype=None, out=None):
        return F['cumprod'](self, axis=axis, dtype=dtype, out=out)

    def nonzero(self):
        return tuple(i.view(IdxArray) for i in
                     np.nonzero(plain(self.astype(bool))))

    def dot(self, b, out=None):
        return np.dot(self, b) if out is None else np.dot(self, b, out)

    def conj(self):
        return self
    conjugate = conj

    def clip(self, min=None, max=None, out=None, **k):
        return F['clip'](self, min, max, out=out, **k)

    def round(self, decimals=0, out=None):
        return F['around'](self, decimals)

    def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
        return self.diagonal(offset, axis1, axis2).sum(-1)

    def argpartition(self, kth, axis=-1, **k):
        return F['argsort'](self, axis=axis)

    def searchsorted(self, v, side='left', sorter=None):
        return F['searchsorted'](self, v, side, sorter)

    # -- numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)


def _unpickle_arr(elems, shape, tag):
    return wrap(obj(mk(elems)).reshape(shape), np.dtype(tag))


# ------------------------------------------------------------------ ufuncs

def _b(f):
    return np.frompyfunc(f, 2, 1)


def _u(f):
    return np.frompyfunc(f, 1, 1)


def _isfin(x):
    v = num(x).v
    return not isinstance(v, float)


def _isnan(x):
    v = num(x).v
    return isinstance(v, float) and v != v


def _isinf(x):
    v = num(x).v
    return isinstance(v, float) and v == v


def _land(a, b):
    return sand([truth(a), truth(b)])


def _lor(a, b):
    return sor([truth(a), truth(b)])


def _lxor(a, b):
    a, b = truth(a), truth(b)
    return mkbool(z3.Xor(core.boolterm(a), core.boolterm(b)))


def _bitand(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return _land(a, b)
    return SNum(int(num(a)) & int(num(b)))


def _bitor(a, b):
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return _lor(a, b)
    return SNum(int(num(a)) | int(num(b)))


def _invert(a):
    if isinstance(a, (SBool, bool)):
        return snot(a)
    return SNum(-num(a).v - 1)


def _fmod(a, b):
    return num(a) - core.scal_trunc(num(a) / num(b)) * num(b)


def _uf1(name):
    return lambda x: core.uf(name, x)


def _lt(a, b):
    return num(a) < num(b)


def _eq(a, b):
    return (num(a) == num(b))


UF = {
    'add': (_b(lambda a, b: num(a) + num(b)), None),
    'subtract': (_b(lambda a, b: num(a) - num(b)), None),
    'multiply': (_b(lambda a, b: num(a) * num(b)), None),
    'divide': (_b(lambda a, b: num(a) / num(b)), 'f'),
    'true_divide': (_b(lambda a, b: num(a) / num(b)), 'f'),
    'floor_divide': (_b(lambda a, b: num(a) // num(b)), None),
    'remainder': (_b(lambda a, b: num(a) % num(b)), None),
    'mod': (_b(lambda a, b: num(a) % num(b)), None),
    'fmod': (_b(_fmod), None),
    'power': (_b(core.spow), None),
    'float_power': (_b(core.spow), 'f'),
    'negative': (_u(lambda a: -num(a)), None),
    'positive': (_u(lambda a: num(a)), None),
    'absolute': (_u(lambda a: abs(num(a))), None),
    'fabs': (_u(lambda a: abs(num(a))), 'f'),
    'sign': (_u(core.ssign), None),
    'square': (_u(lambda a: num(a) * num(a)), None),
    'reciprocal': (_u(lambda a: 1 / num(a)), None),
    'conjugate': (_u(lambda a: num(a)), None),
    'sqrt': (_u(core.ssqrt), 'f'),
    'maximum': (_b(core.smax), None),
    'minimum': (_b(core.smin), None),
    'fmax': (_b(core.smax), None),
    'fmin': (_b(core.smin), None),
    'less': (_b(_lt), 'b'),
    'greater': (_b(lambda a, b: num(a) > num(b)), 'b'),
    'less_equal': (_b(lambda a, b: num(a) <= num(b)), 'b'),
    'greater_equal': (_b(lambda a, b: num(a) >= num(b)), 'b'),
    'equal': (_b(_eq), 'b'),
    'not_equal': (_b(lambda a, b: snot(_eq(a, b))), 'b'),
    'logical_and': (_b(_land), 'b'),
    'logical_or': (_b(_lor), 'b'),
    'logical_xor': (_b(_lxor), 'b'),
    'logical_not': (_u(lambda a: snot(truth(a))), 'b'),
    'bitwise_and': (_b(_bitand), None),
    'bitwise_or': (_b(_bitor), None),
    'bitwise_xor': (_b(_lxor), None),
    'invert': (_u(_invert), None),
    'isfinite': (_u(_isfin), 'b'),
    'isnan': (_u(_isnan), 'b'),
    'isinf': (_u(_isinf), 'b'),
    'floor': (_u(core.scal_floor), 'f'),
    'ceil': (_u(core.scal_ceil), 'f'),
    'rint': (_u(lambda a: num(round(num(a)))), 'f'),
    'trunc': (_u(core.scal_trunc), 'f'),
    'hypot': (_b(lambda a, b: core.ssqrt(num(a) * num(a) +
                                         num(b) * num(b))), 'f'),
    'exp2': (_u(lambda a: core.spow(2, a)), 'f'),
    'cbrt': (_u(_uf1('cbrt')), 'f'),
    'arctan2': (_b(lambda a, b: core.uf('arctan2', a, b)), 'f'),
    'deg2rad': (_u(lambda a: num(a) * SNum(frac(np.pi / 180))), 'f'),
    'radians': (_u(lambda a: num(a) * SNum(frac(np.pi / 180))), 'f'),
}
for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'tanh', 'arctan', 'arcsin',
           'arccos', 'sinh', 'cosh', 'log1p', 'expm1', 'log2', 'log10'):
    UF[_n] = (_u(_uf1(_n)), 'f')

_REDUCE_ID = {'add': 0, 'multiply': 1, 'logical_and': True,
              'logical_or': False}


def rettag(name, kind, inputs):
    if kind == 'b':
        return BOOL
    t = restag(inputs)
    if kind == 'f' and t.kind in 'biu':
        return F64
    if name in ('add', 'subtract', 'multiply') and t.kind == 'b' \
            and name != 'multiply':
        return BOOL if name == 'add' else t
    return t


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    if name in ('matmul',):
        r = matmul(*inputs)
        out = kw.get('out')
        if out:
            out[0][...] = r
            return out[0]
        return r
    if name == 'isnat' or (name not in UF):
        # concolic fallback on an operation outside the table
        if name.startswith('_') or not inputs:
            raise Unsupported('ufunc %s' % name)
        args = [plain(from_nested(a)) if has_sym(a) else a for a in inputs]
        return getattr(ufunc, method)(*args, **kw)
    f, kind = UF[name]
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    dtype = kw.pop('dtype', None)
    casting = kw.pop('casting', 'same_kind')
    kw.pop('subok', None)
    kw.pop('order', None)
    if method == '__call__':
        ins = [obj(a) for a in inputs]
        tag = rettag(name, kind, inputs) if dtype is None else np.dtype(dtype)
        isint = tag.kind in 'iu'
        r = f(*ins)
        if where is not True:
            w = obj(where)
            base = obj(out[0]) if out else obj(SHIM.zeros(
                np.shape(r), tag))
            r = np.frompyfunc(ite, 3, 1)(w, r, base)
        if out is not None:
            o = out[0]
            if o is None:
                out = None
            else:
                ot = o.dtype if not isinstance(o, SymArray) else o._tag
                if ot.kind != 'O' and not np.can_cast(tag, ot, casting):
                    raise np.core._exceptions._UFuncOutputCastingError(
                        ufunc, casting, np.dtype(tag), np.dtype(ot), 0)
                if not isinstance(o, SymArray) and o.dtype != object:
                    # writing symbolic values into a real numpy buffer
                    o[...] = plain(wrap(np.asarray(r, dtype=object), tag))
                    return o
                ob = obj(o)
                ra = r if isinstance(r, np.ndarray) else obj(r)
                if ra.shape != ob.shape:
                    bs = np.broadcast_shapes(ra.shape, ob.shape)
                    if bs != ob.shape:
                        raise ValueError(
                            'non-broadcastable output operand with shape %s '
                            'doesn\'t match the broadcast shape %s'
                            % (ob.shape, bs))
                ob[...] = castarr(ra, ot) if ot.kind != 'O' else ra
                return o
        if isinstance(r, np.ndarray):
            return wrap(r, tag)
        return r
    if method == 'reduce':
        a = inputs[0]
        axis = kw.get('axis', inputs[1] if len(inputs) > 1 else 0)
        keep = kw.get('keepdims', False)
        r = reduce_(name, a, axis, keep)
        if out is not None and out[0] is not None:
            out[0][...] = r
            return out[0]
        return r
    if method == 'outer':
        a, b = obj(inputs[0]), obj(inputs[1])
        r = f.outer(a, b)
        return wrap(r, rettag(name, kind, inputs))
    if method == 'accumulate':
        a = inputs[0]
        axis = kw.get('axis', 0)
        r = f.accumulate(obj(a), axis=axis)
        return wrap(np.asarray(r, dtype=object), rettag(name, kind, [a]))
    if method == 'at':
        a, idx, b = inputs
        raise Unsupported('ufunc.at')
    raise Unsupported('ufunc method %s' % method)


def reduce_(name, a, axis=None, keepdims=False, tag=None):
    a = from_nested(a) if not isinstance(a, SymArray) else a
    f, kind = UF[name]
    o = obj(a)
    t = rettag(name, kind, [a])
    if name in ('add', 'multiply') and t.kind == 'b':
        t = INT
    if name in ('add', 'multiply') and a._tag.kind == 'b':
        o = np.frompyfunc(num, 1, 1)(o) if o.size else o
    if name in ('logical_and', 'logical_or'):
        o = np.frompyfunc(truth, 1, 1)(o) if o.size else o
    if axis is None:
        axes = tuple(range(o.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(ax % o.ndim for ax in axis)
    else:
        axis = int(axis)
        if o.ndim == 0:
            axes = ()
        else:
            if not -o.ndim <= axis < o.ndim:
                raise np.AxisError(axis, o.ndim)
            axes = (axis % o.ndim,)
    for ax in sorted(axes, reverse=True):
        if o.shape[ax] == 0:
            if name not in _REDUCE_ID:
                raise ValueError('zero-size array to reduction operation %s '
                                 'which has no identity' % name)
            i = _REDUCE_ID[name]
            shp = o.shape[:ax] + o.shape[ax + 1:]
            e = i if isinstance(i, bool) else (
                SNum(i) if t.kind in 'iu' else SNum(Fraction(i)))
            o = np.full(shp, None, dtype=object)
            for p in np.ndindex(*shp):
                o[p] = e
        else:
            o = f.reduce(o, axis=ax)
            if not isinstance(o, np.ndarray):
                o = obj(o)
    if keepdims:
        shp = tuple(1 if i in axes else s for i, s in enumerate(a.shape))
        return wrap(o.reshape(shp), t)
    if o.ndim == 0:
        return o.item()
    return wrap(o, t)


def _dot2(a, b, tag=F64):
    """2-D (n,k)x(k,m) product of object arrays"""
    n, k = a.shape
    k2, m = b.shape
    if k != k2:
        raise ValueError('shapes %s and %s not aligned: %d (dim 1) != %d '
                         '(dim 0)' % (a.shape, b.shape, k, k2))
    r = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            acc = _num0(tag)
            for l in range(k):
                acc = acc + num(a[i, l]) * num(b[l, j])
            r[i, j] = acc
    return r


def _num0(t):
    return SNum(0) if t.kind in 'iub' else SNum(Fraction(0))


def dot(a, b, out=None):
    if np.ndim(a) == 0 or np.ndim(b) == 0:
        return np.multiply(a if hasattr(a, 'shape') else from_nested(a), b) \
            if has_sym(a) or has_sym(b) else np.multiply(a, b)
    tag = restag([a, b])
    ao, bo = obj(a), obj(b)
    if ao.ndim == 1 and bo.ndim == 1:
        if ao.shape != bo.shape:
            raise ValueError('shapes %s and %s not aligned' % (ao.shape,
                                                               bo.shape))
        acc = _num0(tag)
        for x, y in zip(ao, bo):
            acc = acc + num(x) * num(y)
        return acc
    a2 = ao.reshape(int(np.prod(ao.shape[:-1])), ao.shape[-1])
    if bo.ndim == 1:
        if ao.shape[-1] != bo.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (ao.shape,
                                                               bo.shape))
        r = _dot2(a2, bo.reshape(-1, 1), tag).reshape(ao.shape[:-1])
    else:
        bm = np.moveaxis(bo, -2, 0)
        if ao.shape[-1] != bm.shape[0]:
            raise ValueError('shapes %s and %s not aligned: %d (dim %d) != %d'
                             ' (dim %d)' % (ao.shape, bo.shape, ao.shape[-1],
                                            ao.ndim - 1, bm.shape[0],
                                            bo.ndim - 2))
        r = _dot2(a2, bm.reshape(bm.shape[0], int(np.prod(bm.shape[1:]))), tag)
        r = r.reshape(ao.shape[:-1] + bm.shape[1:])
    if tag.kind == 'f' and not ao.shape[-1]:
        r[...] = SNum(Fraction(0))
    r = wrap(castarr(r, tag) if tag.kind != 'b' else
             castarr(r, BOOL), tag)
    if out is not None:
        out[...] = r
        return out
    return r


def matmul(a, b):
    if np.ndim(a) <= 2 and np.ndim(b) <= 2:
        return dot(a, b)
    raise Unsupported('stacked matmul')


# ------------------------------------------------------------- functions

F = {}


_HARMLESS = {'order', 'kind', 'casting', 'subok', 'like', 'stable', 'copy',
             'assume_unique', 'validate'}


def strict(f):
    """arguments a model does not know are refused, never ignored; an output
    array the model does not handle itself is filled afterwards"""
    import inspect
    ps = inspect.signature(f).parameters
    names = {n for n, q in ps.items()
             if q.kind in (q.POSITIONAL_OR_KEYWORD, q.KEYWORD_ONLY)}
    varkw = any(q.kind == q.VAR_KEYWORD for q in ps.values())
    if f.__name__ in ('_fallback',):
        return f

    @functools.wraps(f)
    def g(*a, **k):
        out = k.get('out')
        if out is not None:
            k.pop('out')
            if isinstance(out, tuple):
                out, = out
        if varkw:
            for n in list(k):
                if n not in names and n not in _HARMLESS:
                    v = k[n]
                    if v is None or v is np._NoValue or (
                            n == 'where' and v is True) or (
                            n in ('keepdims', 'correction') and not v):
                        k.pop(n)
                        continue
                    raise Unsupported('argument %s of %s' % (n, f.__name__))
        r = f(*a, **k)
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def reg(*names):
    def deco(f):
        f = strict(f)
        for n in names:
            F[n] = f
        return f
    return deco


def _ax(a):
    return a if isinstance(a, SymArray) else from_nested(a)


@reg('sum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    r = reduce_('add', a, axis, keepdims)
    if dtype is not None and isinstance(r, SymArray):
        r = r.astype(dtype)
    if out is not None:
        out[...] = r
        return out
    return r


@reg('prod', 'product')
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_('multiply', a, axis, keepdims)


@reg('max', 'amax', 'nanmax')
def _max(a, axis=None, out=None, keepdims=False, **k):
    return reduce_('maximum', a, axis, keepdims)


@reg('min', 'amin', 'nanmin')
def _min(a, axis=None, out=None, keepdims=False, **k):
    return reduce_('minimum', a, axis, keepdims)


@reg('any', 'sometrue')
def _any(a, axis=None, out=None, keepdims=False, **k):
    return reduce_('logical_or', a, axis, keepdims)


@reg('all', 'alltrue')
def _all(a, axis=None, out=None, keepdims=False, **k):
    return reduce_('logical_and', a, axis, keepdims)


def _count(shape, axis):
    if axis is None:
        n = 1
        for s in shape:
            n *= s
        return n
    if isinstance(axis, (tuple, list)):
        n = 1
        for x in axis:
            n *= shape[x]
        return n
    return shape[axis]


@reg('mean', 'average', 'nanmean')
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, weights=None,
          **k):
    a = _ax(a)
    if weights is not None:
        w = from_nested(weights)
        if w.ndim != a.ndim:
            shp = [1] * a.ndim
            shp[axis] = -1
            w = w.reshape(shp)
        return reduce_('add', a * w, axis) / reduce_('add', w * (a * 0 + 1),
                                                     axis)
    n = _count(a.shape, axis)
    if n == 0:
        raise Unsupported('mean of an empty array')
    return reduce_('add', a, axis, keepdims) / Fraction(n) if not isinstance(
        reduce_('add', a, axis, keepdims), SymArray) else \
        np.true_divide(reduce_('add', a, axis, keepdims), n)


@reg('var')
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = _ax(a)
    m = _mean(a, axis, keepdims=True)
    n = _count(a.shape, axis) - ddof
    d = a - m
    r = reduce_('add', d * d, axis, keepdims)
    return r / SNum(Fraction(n)) if not isinstance(r, SymArray) else r / n


@reg('std')
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return np.sqrt(_var(a, axis, ddof=ddof, keepdims=keepdims))


@reg('cov')
def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    m = _ax(m)
    if m.ndim == 1:
        m = m.reshape(1, -1)
    if not rowvar and m.shape[0] != 1:
        m = m.T
    if y is not None:
        y = _ax(y)
        if y.ndim == 1:
            y = y.reshape(1, -1)
        if not rowvar and y.shape[0] != 1:
            y = y.T
        m = np.concatenate([m, y], axis=0)
    n = m.shape[1]
    ddof = (0 if bias else 1) if ddof is None else ddof
    c = m - _mean(m, axis=1, keepdims=True)
    r = dot(c, c.T) / (n - ddof)
    return r.reshape(()) if r.shape == (1, 1) and False else r


@reg('dot')
def _dot(a, b, out=None):
    return dot(a, b, out)


@reg('vdot', 'inner')
def _inner(a, b):
    a, b = _ax(a), _ax(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, np.swapaxes(b, -1, -2) if b.ndim > 1 else b)


@reg('outer')
def _outer(a, b, out=None):
    a, b = _ax(a).reshape(-1), _ax(b).reshape(-1)
    r = a[:, np.newaxis] * b[np.newaxis, :]
    if out is not None:
        out[...] = r
        return out
    return r


@reg('tensordot')
def _tensordot(a, b, axes=2):
    tag = restag([a, b])
    ao, bo = obj(a), obj(b)
    if isinstance(axes, int):
        if axes == 0:
            return np.multiply.outer(wrap(ao, tag), wrap(bo, tag))
        aa, ba = list(range(ao.ndim - axes, ao.ndim)), list(range(axes))
    else:
        aa, ba = axes
        aa = [aa] if isinstance(aa, int) else list(aa)
        ba = [ba] if isinstance(ba, int) else list(ba)
    aa = [x % ao.ndim for x in aa]
    ba = [x % bo.ndim for x in ba]
    na = [i for i in range(ao.ndim) if i not in aa]
    nb = [i for i in range(bo.ndim) if i not in ba]
    k = 1
    for x in aa:
        k *= ao.shape[x]
    at = ao.transpose(na + aa).reshape(-1, k)
    bt = bo.transpose(ba + nb).reshape(k, -1)
    r = _dot2(at, bt, tag).reshape([ao.shape[i] for i in na] +
                              [bo.shape[i] for i in nb])
    if r.ndim == 0:
        return r.item()
    return wrap(r, tag)


@reg('einsum')
def _einsum(spec, *ops, **k):
    tag = restag(ops)
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        allc = ''.join(ins.split(','))
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ins = ins.split(',')
    os_ = [obj(o) for o in ops]
    dims = {}
    for s, o in zip(ins, os_):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for pos in np.ndindex(*r.shape):
        env = dict(zip(out, pos))
        acc = _num0(tag)
        for sp in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sp))
            t = None
            for s, o in zip(ins, os_):
                e = num(o[tuple(env[c] for c in s)])
                t = e if t is None else t * e
            acc = acc + t
        r[pos] = acc
    return r.item() if r.ndim == 0 else wrap(r, tag)


@reg('where')
def _where(c, *xy):
    if not xy:
        return np.nonzero(plain(_ax(c).astype(bool)))
    x, y = xy
    tag = restag([x, y])
    r = np.frompyfunc(ite, 3, 1)(obj(_ax(c).astype(bool)), obj(x), obj(y))
    if isinstance(r, np.ndarray):
        return wrap(castarr(r, tag), tag)
    return wrap(castarr(obj(r), tag), tag)


@reg('nonzero', 'flatnonzero')
def _nonzero(a):
    return _ax(a).nonzero()


@reg('argwhere')
def _argwhere(a):
    return np.argwhere(plain(_ax(a).astype(bool)))


@reg('count_nonzero')
def _cnz(a, axis=None, **k):
    return reduce_('add', _ax(a).astype(bool), axis)


def _sorted_idx(lst):
    """stable argsort by merge (forks on comparisons)"""
    idx = list(range(len(lst)))
    res = []
    for i in idx:
        p = len(res)
        while p > 0 and bool(num(lst[i]) < num(lst[res[p - 1]])):
            p -= 1
        res.insert(p, i)
    return res


@reg('argsort')
def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = _ax(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    o = np.moveaxis(obj(a), axis, -1)
    r = np.empty(o.shape, dtype=np.intp)
    for pos in np.ndindex(*o.shape[:-1]):
        r[pos] = _sorted_idx(list(o[pos]))
    return np.moveaxis(r, -1, axis)


@reg('sort')
def _sort(a, axis=-1, kind=None, order=None, **k):
    a = _ax(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    o = np.moveaxis(obj(a), axis, -1)
    r = np.empty(o.shape, dtype=object)
    for pos in np.ndindex(*o.shape[:-1]):
        ix = _sorted_idx(list(o[pos]))
        for j, i in enumerate(ix):
            r[pos + (j,)] = o[pos + (i,)]
    return wrap(np.moveaxis(r, -1, axis), a._tag)


@reg('lexsort')
def _lexsort(keys, axis=-1):
    ks = [obj(k) for k in keys]
    n = ks[0].shape[0]
    idx = list(range(n))
    for k in ks:
        s = _sorted_idx([k[i] for i in idx])
        idx = [idx[i] for i in s]
    return np.array(idx, dtype=np.intp)


@reg('unique')
def _unique(a, return_index=False, return_inverse=False, return_counts=False,
            axis=None, **k):
    if axis is not None:
        raise Unsupported('unique with axis')
    a = _ax(a)
    o = obj(a).reshape(-1)
    ix = _sorted_idx(list(o))
    u, first, inv, cnt = [], [], [0] * len(ix), []
    for i in ix:
        if not u or not bool(num(u[-1]) == num(o[i])):
            u.append(o[i])
            first.append(i)
            cnt.append(0)
        cnt[-1] += 1
        inv[i] = len(u) - 1
    r = [mk(u, a._tag)]
    if return_index:
        r.append(np.array(first))
    if return_inverse:
        r.append(np.array(inv))
    if return_counts:
        r.append(np.array(cnt))
    return r[0] if len(r) == 1 else tuple(r)


def _argext(lt):
    def f(a, axis=None, out=None, **k):
        a = _ax(a)
        o = obj(a)
        if axis is None:
            o, ax = o.reshape(-1), 0
        else:
            ax = axis
        o = np.moveaxis(o, ax, -1)
        r = np.empty(o.shape[:-1], dtype=object)
        if o.shape[-1] == 0:
            raise ValueError('attempt to get argmax of an empty sequence')
        for pos in np.ndindex(*r.shape):
            best, bi = o[pos + (0,)], SNum(0)
            for j in range(1, o.shape[-1]):
                c = lt(num(o[pos + (j,)]), num(best))
                best = ite(c, o[pos + (j,)], best)
                bi = ite(c, SNum(j), bi)
            r[pos] = bi
        if r.ndim == 0:
            v = r.item()
            return v.v if core.is_const(v.v) else v
        return wrap(r, INT)
    return f


F['argmax'] = _argext(lambda x, y: x > y)
F['argmin'] = _argext(lambda x, y: x < y)


@reg('cumsum')
def _cumsum(a, axis=None, dtype=None, out=None):
    a = _ax(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    r = UF['add'][0].accumulate(np.frompyfunc(num, 1, 1)(obj(a)), axis=axis)
    return wrap(r, INT if a._tag.kind == 'b' else a._tag)


@reg('cumprod', 'cumproduct')
def _cumprod(a, axis=None, dtype=None, out=None):
    a = _ax(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return wrap(UF['multiply'][0].accumulate(obj(a), axis=axis), a._tag)


@reg('diff')
def _diff(a, n=1, axis=-1, **k):
    a = _ax(a)
    for _ in range(n):
        o = np.moveaxis(obj(a), axis, 0)
        d = UF['subtract'][0](o[1:], o[:-1])
        a = wrap(np.moveaxis(d, 0, axis), a._tag)
    return a


@reg('clip')
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    r = _ax(a)
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    tag = r._tag
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@reg('around', 'round', 'round_')
def _around(a, decimals=0, out=None):
    raise Unsupported('round')


@reg('allclose')
def _allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = from_nested(a), from_nested(b)
    d = abs(a - b) <= (atol + rtol * abs(b))
    return _all(d)


@reg('array_equal')
def _array_equal(a, b, **k):
    a, b = from_nested(a), from_nested(b)
    if a.shape != b.shape:
        return False
    return _all(a == b)


@reg('isclose')
def _isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = from_nested(a), from_nested(b)
    return abs(a - b) <= (atol + rtol * abs(b))


@reg('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    a = obj(_ax(a))

    def one(x):
        acc = SNum(0)
        for e in a:
            c = (num(e) < num(x)) if side == 'left' else (num(e) <= num(x))
            acc = acc + num(c)
        return acc
    vv = from_nested(v)
    if vv.ndim == 0:
        return one(vv.item())
    return wrap(np.frompyfunc(one, 1, 1)(obj(vv)), INT)


@reg('histogram')
def _histogram(a, bins=10, range=None, density=None, weights=None, **k):
    a = _ax(a).reshape(-1)
    if not isinstance(bins, (int, np.integer, SNum)):
        edges = from_nested(bins)
        nb = len(edges) - 1
    else:
        nb = int(bins)
        if range is None:
            lo, hi = _min(a), _max(a)
        else:
            lo, hi = num(range[0]), num(range[1])
        edges = mk([lo + (hi - lo) * Fraction(i, nb)
                    for i in builtins.range(nb + 1)], F64)
    eo = obj(edges)
    h = []
    for i in builtins.range(nb):
        acc = SNum(0)
        for e in obj(a):
            hi_ok = (num(e) <= eo[i + 1]) if i == nb - 1 else \
                (num(e) < eo[i + 1])
            acc = acc + num(sand([num(e) >= eo[i], hi_ok]))
        h.append(acc)
    return mk(h, INT), edges


@reg('real', 'real_if_close')
def _real(a, *x, **k):
    return a


@reg('imag')
def _imag(a):
    return SHIM.zeros(np.shape(a))


@reg('isreal')
def _isreal(a):
    return np.ones(np.shape(a), bool)


@reg('iscomplexobj')
def _iscomplexobj(a):
    return False


@reg('isrealobj')
def _isrealobj(a):
    return True


@reg('iscomplex')
def _iscomplex(a):
    return np.zeros(np.shape(a), bool)


@reg('zeros_like')
def _zl(a, dtype=None, **k):
    return SHIM.zeros(np.shape(a), dtype or a.dtype)


@reg('ones_like')
def _ol(a, dtype=None, **k):
    return SHIM.ones(np.shape(a), dtype or a.dtype)


@reg('empty_like')
def _el(a, dtype=None, **k):
    return SHIM.empty(np.shape(a), dtype or a.dtype)


@reg('full_like')
def _fl(a, v, dtype=None, **k):
    return SHIM.full(np.shape(a), v, dtype or a.dtype)


@reg('copyto')
def _copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[...] = _where(where, src, dst)


@reg('put')
def _put(a, ind, v, mode='raise'):
    flat = np.unravel_index(plain(from_nested(ind)) if has_sym(ind) else
                            np.asarray(ind), a.shape)
    a[flat] = v


@reg('putmask', 'place')
def _putmask(a, mask, v):
    a[mask] = v


@reg('linspace')
def _linspace(a, b, n=50, endpoint=True, **k):
    d = (n - 1) if endpoint else n
    return mk([num(a) + (num(b) - num(a)) * Fraction(i, d or 1)
               for i in range(n)], F64)


@reg('array2string', 'array_str', 'array_repr')
def _a2s(a, *x, **k):
    return repr(a)


@reg('cross')
def _cross(a, b, **k):
    a, b = obj(a), obj(b)
    return mk([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
               a[0] * b[1] - a[1] * b[0]])


@reg('convolve')
def _convolve(a, v, mode='full'):
    a, v = obj(_ax(a)), obj(_ax(v))
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        acc = SNum(Fraction(0))
        for i in range(n):
            if 0 <= k - i < m:
                acc = acc + num(a[i]) * num(v[k - i])
        full.append(acc)
    if mode == 'full':
        return mk(full)
    if n < m:
        n, m = m, n
    if mode == 'valid':
        return mk(full[m - 1:n])
    s = (m - 1) // 2
    return mk(full[s:s + n])


@reg('trace')
def _trace(a, *x, **k):
    return _ax(a).trace(*x, **k)


@reg('issubdtype', 'result_type', 'can_cast')
def _rt(*a):
    raise Unsupported('result_type on symbolic arrays')


F['result_type'] = lambda *a: restag([x for x in a])
F['shape'] = lambda a: a.shape
F['ndim'] = lambda a: a.ndim
F['size'] = lambda a, axis=None: (a.size if axis is None else a.shape[axis])


@reg('take')
def _take(a, indices, axis=None, out=None, mode='raise'):
    a = _ax(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    axis = axis % a.ndim
    if has_sym(indices):
        idx = from_nested(indices)
    else:
        idx = indices
    return a[(slice(None),) * axis + (idx,)]


@reg('choose')
def _choose(a, choices, **k):
    raise Unsupported('choose')


@reg('apply_along_axis')
def _aaa(f, axis, a, *args, **k):
    a = _ax(a)
    o = np.moveaxis(obj(a), axis, -1)
    first = None
    res = None
    for pos in np.ndindex(*o.shape[:-1]):
        v = from_nested(f(wrap(o[pos], a._tag), *args, **k))
        if res is None:
            res = np.empty(o.shape[:-1] + v.shape, dtype=object)
            tag = v._tag
        res[pos] = obj(v) if v.ndim else v.item()
    r = wrap(res, tag)
    return np.moveaxis(r, -1, axis) if v.ndim else r


_SHAPE_OK = {
    'reshape', 'transpose', 'ravel', 'concatenate', 'vstack', 'hstack',
    'dstack', 'column_stack', 'row_stack', 'stack', 'split', 'array_split',
    'hsplit', 'vsplit', 'repeat', 'tile', 'squeeze', 'expand_dims',
    'moveaxis', 'swapaxes', 'rollaxis', 'roll', 'flip', 'fliplr', 'flipud',
    'diag', 'diagonal', 'tril', 'triu', 'atleast_1d', 'atleast_2d',
    'atleast_3d', 'broadcast_to', 'broadcast_arrays', 'append', 'delete',
    'insert', 'resize', 'diagflat', 'rot90', 'pad', 'meshgrid', 'ix_',
    'copy', 'block', 'compress', 'extract', 'fill_diagonal', 'kron',
    'take_along_axis', 'unravel_index', 'shares_memory',
    'may_share_memory', 'trim_zeros', 'iterable', 'sliding_window_view',
    'as_strided', 'broadcast_shapes', 'array_split', 'select', 'trapz',
    'vander', 'indices', 'nditer'}

_BOOLFILL = object()


def array_function(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if mod.endswith('linalg') and name in LINALG:
        return LINALG[name](*args, **kwargs)
    if name in F:
        return F[name](*args, **kwargs)
    if name in _SHAPE_OK:
        tags = []

        def conv(x):
            if isinstance(x, SymArray):
                tags.append(x._tag)
                return obj(x)
            if isinstance(x, (SNum, SBool)):
                tags.append(x.dtype)
                return obj(x) if name not in ('reshape', 'repeat', 'tile') \
                    else int(x)
            if isinstance(x, np.ndarray) and x.dtype != object and name in (
                    'concatenate', 'vstack', 'hstack', 'stack',
                    'column_stack', 'row_stack', 'append', 'kron', 'insert',
                    'dstack', 'block', 'broadcast_arrays', 'select', 'pad'):
                tags.append(x.dtype)
                return obj(x)
            if isinstance(x, (list, tuple)):
                return type(x)(conv(e) for e in x) if type(x) in (
                    list, tuple) else x
            return x
        # index-like arguments stay concrete
        if name in ('delete', 'insert', 'compress', 'extract',
                    'take_along_axis', 'repeat', 'roll'):
            a0 = list(args)
            if name in ('compress', 'extract'):
                a0[0] = plain(from_nested(a0[0])) if has_sym(a0[0]) else a0[0]
                pos = 1
            else:
                if len(a0) > 1 and has_sym(a0[1]):
                    a0[1] = _key(a0[1])
                pos = 0
            args = tuple(conv(e) if i == pos or (name == 'insert' and i == 2)
                         else e for i, e in enumerate(a0))
        else:
            args = conv(tuple(args))
        kwargs = dict((k, conv(v)) for k, v in kwargs.items())
        impl = getattr(func, '__wrapped__', func)
        r = func(*args, **kwargs)
        tag = tags[0] if tags else F64
        for t in tags[1:]:
            tag = np.promote_types(tag, t)

        def back(x):
            if isinstance(x, np.ndarray) and x.dtype == object:
                # fillers such as the integer 0 of diag/tril become elements
                if name in ('diag', 'tril', 'triu', 'diagflat', 'pad',
                            'kron', 'select', 'trapz', 'vander'):
                    return wrap(castarr(obj_lift(x), tag), tag)
                return wrap(x, tag)
            if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
                return type(x)(back(e) for e in x)
            return x
        return back(r)
    # concolic fallback: pin the symbolic arguments
    return _fallback(func, args, kwargs)


def obj_lift(x):
    r = np.empty(x.shape, dtype=object)
    for pos in np.ndindex(*x.shape):
        r[pos] = _lift(x[pos])
    return r


def _fallback(func, args, kwargs):
    ENG.stats.domain.add('pinned arguments of numpy.%s' % func.__name__)

    def conv(x):
        if isinstance(x, (SymArray, SNum, SBool)):
            p = plain(from_nested(x))
            return p if p.ndim else p.item()
        if isinstance(x, (list, tuple)):
            return type(x)(conv(e) for e in x)
        return x
    return func(*conv(tuple(args)), **dict((k, conv(v))
                                           for k, v in kwargs.items()))


# ------------------------------------------------------------ linear algebra

LINALG = {}
LINALG_LOG = []


def _same_term(x, y):
    x, y = num(x).v, num(y).v
    if x is y:
        return True
    cx, cy = core.is_const(x), core.is_const(y)
    if cx and cy:
        return x == y
    if isinstance(x, float) or isinstance(y, float):
        return False
    x, y = core.zreal(x), core.zreal(y)
    if x.eq(y):
        return True
    d = z3.simplify(x - y, som=True, som_blowup=100000)
    if z3.is_rational_value(d):
        return d.numerator_as_long() == 0
    return core.same_rational(x - y)


def same_arrays(a, b):
    if a.shape != b.shape:
        return False
    return all(_same_term(x, y) for x, y in zip(obj(a).reshape(-1),
                                                obj(b).reshape(-1)))


def pure(f):
    """LAPACK routines are functions: equal arguments give equal results"""
    @functools.wraps(f)
    def g(a, *args, **k):
        a = _ax(a)
        if any(isinstance(x, np.ndarray) for x in args):
            return f(a, *args, **k)
        key = (f.__name__, repr(args), repr(sorted(k.items())))
        for kk, b, r in LINALG_MEMO:
            if (kk == key or kk == ('known', f.__name__)) and \
                    same_arrays(a, b):
                return tuple(x.copy() for x in r) if isinstance(r, tuple) \
                    else r.copy()
        b = a.copy()
        r = f(a, *args, **k)
        LINALG_MEMO.append((key, b, tuple(x.copy() for x in r) if isinstance(
            r, tuple) else r.copy()))
        return r
    return g


LINALG_MEMO = []


def known_result(name, a, r):
    """tell the LAPACK model a decomposition the harness knows to be right
    (its input was built from it)"""
    a = _ax(a)
    r = tuple(_ax(x) for x in r) if isinstance(r, tuple) else _ax(r)
    LINALG_MEMO.append((('known', name), a, r))


def regl(*names):
    def deco(f):
        for n in names:
            LINALG[n] = f
        return f
    return deco


def fresh_real(name='r'):
    return SNum(ENG.cur.fresh(name))


def fresh_arr(name, shape, tag=F64):
    o = np.empty(shape, dtype=object)
    for p in np.ndindex(*shape):
        o[p] = SNum(ENG.cur.fresh('%s_%s' % (name, '_'.join(map(str, p)))))
    return wrap(o, tag)


class LinalgPolicy(object):
    """how the contract stubs constrain their results"""
    full = True       # assert the defining equations
    order = True


POLICY = LinalgPolicy()


def _assume_eq(a, b):
    for x, y in zip(obj(a).reshape(-1), obj(b).reshape(-1)):
        e = (num(x) == num(y))
        t = core.boolterm(e)
        ENG.cur.axiom(t)


def _isdiag(a):
    o = obj(a)
    for i in range(o.shape[0]):
        for j in range(o.shape[1]):
            e = num(o[i, j])
            if i != j and not (core.is_const(e.v) and e.v == 0):
                return False
    return True


@regl('eigh')
@pure
def eigh(a, UPLO='L', **k):
    a = _ax(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                    'square')
    n = a.shape[0]
    tag = a._tag if a._tag.kind == 'f' else F64
    if allconst(a):
        w, v = np.linalg.eigh(plain(a))
        LINALG_LOG.append(('eigh', a, from_nested(w), from_nested(v)))
        return from_nested(w), from_nested(v)
    w = fresh_arr('eigval', (n,), tag)
    v = fresh_arr('eigvec', (n, n), tag)
    if POLICY.order:
        for i in range(n - 1):
            ENG.cur.axiom(core.boolterm(w[i] <= w[i + 1]))
    if POLICY.full:
        _assume_eq(dot(v.T, v), SHIM.eye(n))
        av = dot(a, v)
        _assume_eq(av, v * w)
        if n <= 3:
            # consequences of the two equations above, spelled out for z3
            _assume_eq(dot(v, v.T), SHIM.eye(n))
            _assume_eq(dot(v.T, av), SHIM.eye(n) * w)
            _assume_eq(dot(v * w, v.T), a)
    LINALG_LOG.append(('eigh', a, w, v))
    return w, v


@regl('eigvalsh')
def eigvalsh(a, UPLO='L'):
    return eigh(a)[0]


@regl('inv')
def inv(a):
    a = _ax(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                    'square')
    n = a.shape[0]
    tag = a._tag if a._tag.kind == 'f' else F64
    if n == 0:
        return a
    # exact adjugate/determinant for small sizes
    if n <= 3 and not POLICY_INV_STUB[0]:
        d = det(a)
        if core.is_const(d.v) and d.v == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        ENG.cur.domain(zneq0(d), 'inverted matrices are non-singular')
        o = obj(a)
        r = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                r[j, i] = cofactor(o, i, j) / d
        res = wrap(r, tag)
    else:
        for kk, b, r in LINALG_MEMO:
            if kk in ('inv', ('known', 'inv')) and same_arrays(a, b):
                return r.copy()
        res = fresh_arr('inv', (n, n), tag)
        if same_arrays(a, a.T):
            o = obj(res)
            for i in range(n):
                for j in range(i):
                    o[i, j] = o[j, i]
        LINALG_MEMO.append(('inv', a.copy(), res.copy()))
        if POLICY.full:
            _assume_eq(dot(a, res), SHIM.eye(n))
            _assume_eq(dot(res, a), SHIM.eye(n))
    LINALG_LOG.append(('inv', a, res))
    return res


POLICY_INV_STUB = [False]


def zneq0(d):
    if core.is_const(d.v):
        return z3.BoolVal(d.v != 0)
    return d.v != 0


def cofactor(o, i, j):
    n = o.shape[0]
    sub = np.delete(np.delete(o, i, 0), j, 1)
    d = _det(sub)
    return d if (i + j) % 2 == 0 else -d


def _det(o):
    n = o.shape[0]
    if n == 0:
        return SNum(Fraction(1))
    if n == 1:
        return num(o[0, 0])
    acc = SNum(Fraction(0))
    for j in range(n):
        e = num(o[0, j])
        if core.is_const(e.v) and e.v == 0:
            continue
        t = e * _det(np.delete(o[1:], j, 1))
        acc = acc + t if j % 2 == 0 else acc - t
    return acc


@regl('det')
def det(a):
    a = _ax(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be '
                                    'square')
    return _det(obj(a))


@regl('slogdet')
def slogdet(a):
    d = det(a)
    return core.ssign(d), core.uf('log', abs(d))


@regl('pinv')
@pure
def pinv(a, rcond=1e-15, **k):
    a = _ax(a)
    n, m = a.shape
    tag = a._tag if a._tag.kind == 'f' else F64
    if n == m and n <= 3 and PINV_REGULAR[0]:
        return inv(a)
    r = fresh_arr('pinv', (m, n), tag)
    ar = dot(a, r)
    ra = dot(r, a)
    if POLICY.full:
        _assume_eq(dot(ar, a), a)
        _assume_eq(dot(ra, r), r)
        _assume_eq(ar, ar.T)
        _assume_eq(ra, ra.T)
    LINALG_LOG.append(('pinv', a, r))
    return r


PINV_REGULAR = [True]


@regl('solve')
def solve(a, b):
    a, b = _ax(a), _ax(b)
    if a.shape[0] <= 3:
        return dot(inv(a), b)
    tag = restag([a, b])
    x = fresh_arr('solve', b.shape, tag)
    _assume_eq(dot(a, x), b)
    return x


@regl('svd')
@pure
def svd(a, full_matrices=True, compute_uv=True, hermitian=False, **k):
    a = _ax(a)
    n, m = a.shape
    q = min(n, m)
    tag = a._tag if a._tag.kind == 'f' else F64
    s = fresh_arr('sv', (q,), tag)
    for i in range(q):
        ENG.cur.axiom(core.boolterm(s[i] >= 0))
        if i + 1 < q:
            ENG.cur.axiom(core.boolterm(s[i] >= s[i + 1]))
    un = n if full_matrices else q
    vn = m if full_matrices else q
    u = fresh_arr('svu', (n, un), tag)
    v = fresh_arr('svv', (vn, m), tag)
    if POLICY.full:
        _assume_eq(dot(u.T, u), SHIM.eye(un))
        _assume_eq(dot(v, v.T), SHIM.eye(vn))
        _assume_eq(dot(u[:, :q] * s, v[:q]), a)
    LINALG_LOG.append(('svd', a, u, s, v))
    if not compute_uv:
        return s
    return u, s, v


@regl('qr')
@pure
def qr(a, mode='reduced', **k):
    a = _ax(a)
    n, m = a.shape
    q = min(n, m)
    tag = a._tag if a._tag.kind == 'f' else F64
    Q = fresh_arr('qrq', (n, q), tag)
    R = fresh_arr('qrr', (q, m), tag)
    o = obj(R)
    for i in range(q):
        for j in range(m):
            if i > j:
                o[i, j] = SNum(Fraction(0))
    if POLICY.full:
        _assume_eq(dot(Q.T, Q), SHIM.eye(q))
        _assume_eq(dot(Q, R), a)
    LINALG_LOG.append(('qr', a, Q, R))
    return Q, R


@regl('norm')
def norm(x, ord=None, axis=None, keepdims=False):
    x = _ax(x)
    if ord in (None, 2, 'fro') and (axis is not None or x.ndim == 1 or
                                    ord != 2):
        return np.sqrt(reduce_('add', x * x, axis, keepdims))
    if ord == 1 and x.ndim == 1:
        return reduce_('add', abs(x), axis, keepdims)
    if ord in (np.inf, float('inf')) and x.ndim == 1:
        return reduce_('maximum', abs(x), axis, keepdims)
    raise Unsupported('norm')


@regl('eig')
def eig(a):
    a = _ax(a)
    if a.ndim == 2 and not allconst(a) and same_arrays(a, a.T):
        return LINALG['eigh'](a)
    if allconst(a):
        w, v = np.linalg.eig(plain(a))
        if w.dtype.kind == 'f':
            return from_nested(w), from_nested(v)
    raise Unsupported('eig')


@regl('matrix_rank')
def matrix_rank(a, *x, **k):
    raise Unsupported('matrix_rank')


@regl('lstsq')
def lstsq(a, b, rcond=None):
    a, b = _ax(a), _ax(b)
    return dot(inv(dot(a.T, a)), dot(a.T, b)), None, None, None


# ------------------------------------------------------------------- shims

class Shim(types.ModuleType):
    """stand-in for the numpy module inside the code under test"""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['_np'] = np

    def __getattr__(self, name):
        if name in ('linalg',):
            return LINALG_SHIM
        if name == 'random':
            return RAND_SHIM
        return getattr(np, name)


SHIM = Shim()


def _dt(dtype, default='float64'):
    if dtype is None:
        return np.dtype(default)
    return np.dtype(dtype)


def _filled(shape, v, dt):
    if isinstance(shape, (SNum, int, np.integer)):
        shape = (int(shape),)
    elif isinstance(shape, SymArray):
        shape = tuple(int(s) for s in plain(shape))
    else:
        shape = tuple(int(s) for s in shape)
    e = cast(v, dt)
    o = np.empty(shape, dtype=object)
    o[...] = e
    if o.size and not isinstance(o.reshape(-1)[0], (SNum, SBool, bool)):
        for p in np.ndindex(*shape):
            o[p] = e
    return wrap(o, dt)


def _useobj(dt):
    return dt.kind in 'biuf'


def s_zeros(shape, dtype=None, order='C', **k):
    dt = _dt(dtype)
    if not _useobj(dt):
        return np.zeros(shape, dtype=dt)
    return _filled(shape, 0, dt)


def s_ones(shape, dtype=None, order='C', **k):
    dt = _dt(dtype)
    if not _useobj(dt):
        return np.ones(shape, dtype=dt)
    return _filled(shape, 1, dt)


def s_empty(shape, dtype=None, order='C', **k):
    dt = _dt(dtype)
    if not _useobj(dt):
        return np.empty(shape, dtype=dt)
    # uninitialised memory: arbitrary values
    r = _filled(shape, 0, dt)
    o = obj(r)
    if ENG.cur is not None and dt.kind == 'f':
        for p in np.ndindex(*o.shape):
            o[p] = SNum(ENG.cur.fresh('uninit'))
    return r


def s_full(shape, v, dtype=None, order='C', **k):
    if dtype is None:
        dtype = tagof(v) or np.asarray(
            v if not isinstance(v, Fraction) else float(v)).dtype
    r = _filled(shape, 0, np.dtype(dtype))
    r[...] = v
    return r


def s_eye(N, M=None, k=0, dtype=None, order='C', **kw):
    M = N if M is None else M
    N, M = int(N), int(M)
    return from_nested(np.eye(N, M, k)).astype(_dt(dtype))


def s_identity(n, dtype=None, **k):
    return s_eye(n, dtype=dtype)


def s_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0, **k):
    if isinstance(x, np.matrix):
        return np.array(x, dtype=dtype)
    if isinstance(x, SymArray):
        r = x.copy() if copy else x
        if dtype is not None and np.dtype(dtype) != r._tag:
            r = r.astype(dtype)
    elif has_sym(x):
        r = from_nested(x)
        if isinstance(x, np.ndarray) and copy:
            r = r.copy()
        if dtype is not None:
            dt = np.dtype(dtype)
            if dt.kind == 'O':
                return np.array(x, dtype=object)
            r = r.astype(dt)
    else:
        a = np.array(x, dtype=dtype, copy=copy, ndmin=ndmin)
        if a.dtype.kind == 'f':
            return from_nested(a)
        return a
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def s_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and (
            dtype is None or np.dtype(dtype) == x.dtype) and \
            x.dtype != object:
        return x
    return s_array(x, dtype=dtype, copy=False)


def s_arange(*a, **k):
    if has_sym(a):
        a = [int(x) if isinstance(x, SNum) and x.isint else x for x in a]
        if has_sym(a):
            raise Unsupported('arange over symbolic reals')
    r = np.arange(*a, **k)
    return from_nested(r) if r.dtype.kind == 'f' else r


def s_linspace(a, b, num_=50, *x, **k):
    n = k.pop('num', num_)
    if has_sym([a, b]):
        return _linspace(a, b, int(n), **k)
    return from_nested(np.linspace(a, b, int(n), *x, **k))


def s_isscalar(x):
    return isinstance(x, (SNum, SBool)) or np.isscalar(x)


def s_float(x=0.0):
    if has_sym(x):
        return cast(x if not isinstance(x, SymArray) else x.item(), F64)
    return np.float64(x)


def s_vectorize(f, *a, **k):
    def g(*args):
        os_ = [obj(x) for x in args]
        r = np.frompyfunc(f, len(args), 1)(*os_)
        if isinstance(r, np.ndarray):
            return wrap(r, _infer(r))
        return r
    return g


def s_fromiter(it, dtype=None, count=-1):
    return s_array(list(it), dtype=dtype)


def s_alltrue(a, *x, **k):
    return SHIM.all(a, *x, **k)


def s_matrix(*a, **k):
    raise Unsupported('matrix')


def _via(name):
    """function that accepts nested lists of symbolic scalars"""
    realf = getattr(np, name)

    def f(*args, **kw):
        if has_sym(args) or has_sym(list(kw.values())):
            if name in F:
                return F[name](*args, **kw)
            if name in _SHAPE_OK:
                return array_function(realf, args, kw)
        r = realf(*args, **kw)
        return r
    f.__name__ = name
    return f


for _n, _f in dict(zeros=s_zeros, ones=s_ones, empty=s_empty, full=s_full,
                   eye=s_eye, identity=s_identity, array=s_array,
                   asarray=s_asarray, asanyarray=s_asarray,
                   ascontiguousarray=s_asarray, asfarray=s_asarray,
                   arange=s_arange, linspace=s_linspace,
                   isscalar=s_isscalar, vectorize=s_vectorize,
                   fromiter=s_fromiter, copy=lambda a, *x, **k: s_array(a),
                   fromfunction=None, asarray_chkfinite=s_asarray,
                   require=s_asarray).items():
    if _f is not None:
        setattr(SHIM, _n, _f)
for _n in list(F) + list(_SHAPE_OK):
    if hasattr(np, _n) and _n not in SHIM.__dict__ and callable(
            getattr(np, _n)):
        setattr(SHIM, _n, _via(_n))


def _finfo(dt):
    return np.finfo(np.dtype(dt))


class _NDMeta(type):
    """numx.ndarray inside the code under test: every array type"""
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __eq__(cls, o):
        return o is cls or o is np.ndarray or o is SymArray

    def __ne__(cls, o):
        return not _NDMeta.__eq__(cls, o)

    def __hash__(cls):
        return hash(np.ndarray)

    def __call__(cls, *a, **k):
        return s_empty(*a, **k)


class NDArray(metaclass=_NDMeta):
    pass


SHIM.ndarray = NDArray


class _LinalgShim(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        real = getattr(np.linalg, name)
        if name in LINALG:
            def f(*a, **k):
                if has_sym(a):
                    return LINALG[name](*a, **k)
                return real(*a, **k)
            f.__name__ = name
            f.__wrapped__ = real
            return f
        return real


LINALG_SHIM = _LinalgShim('numpy.linalg')


# ------------------------------------------------------------------ random

class RandSource(object):
    """supplies every random draw: symbolic (fresh, range-constrained) or, in
    a replay, the values of the counterexample"""

    def draw(self, name, shape, lo=None, hi=None, integer=False):
        raise NotImplementedError


class RandShim(types.ModuleType):
    src = None

    def _d(self, kind, size, lo=None, hi=None, strict_hi=True, integer=False):
        return self.src(kind, size, lo, hi, strict_hi, integer)

    def random(self, size=None):
        return self._d('u', size, 0, 1)
    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self._d('u', shape or None, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast_shapes(np.shape(low), np.shape(high))
        return low + (high - low) * self._d('u', size, 0, 1)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast_shapes(np.shape(loc), np.shape(scale))
        return loc + scale * self._d('g', size)

    def standard_normal(self, size=None):
        return self._d('g', size)

    def randn(self, *shape):
        return self._d('g', shape or None)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._d('i', size, low, high, True, True)
    random_integers = randint

    def _perm(self, n):
        rest = list(range(n))
        out = []
        while rest:
            i = self._d('i', None, 0, len(rest), True, True) \
                if len(rest) > 1 else 0
            out.append(rest.pop(int(i)))
        return out

    def permutation(self, x):
        if isinstance(x, (int, np.integer, SNum)):
            return np.array(self._perm(int(x)), dtype=np.intp)
        x = from_nested(x) if has_sym(x) else np.asarray(x)
        return x[self._perm(len(x))]

    def shuffle(self, x):
        p = self._perm(len(x))
        c = [x[i] for i in p]
        if isinstance(x, np.ndarray):
            c = [e.copy() if isinstance(e, np.ndarray) else e for e in c]
        for i, e in enumerate(c):
            x[i] = e

    def seed(self, *a):
        pass

    def multinomial(self, n, pvals, size=None):
        if size is not None or not (isinstance(n, (int, np.integer)) and
                                    n == 1):
            raise Unsupported('random.multinomial')
        pvals = list(pvals)
        i = int(self.randint(0, len(pvals)))
        S = getattr(self.src, '__self__', None)
        if S is not None:
            S.draws.append(('m', (pvals, i)))
        return np.array([int(j == i) for j in range(len(pvals))])

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None or size is not None:
            raise Unsupported('random.choice')
        if isinstance(a, (int, np.integer)):
            return self.randint(0, a)
        return a[int(self.randint(0, len(a)))]

    @property
    def RandomState(self):
        return np.random.RandomState

    @property
    def mtrand(self):
        return np.random.mtrand

    def __getattr__(self, name):
        raise Unsupported('random.%s' % name)


RAND_SHIM = RandShim('numpy.random')
