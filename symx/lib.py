"""Reference definitions (oracles) written with plain loops over scalars; they
work on symbolic and on concrete values alike."""
from fractions import Fraction

import numpy as np

from . import arr
from .core import SNum, num


def rows(x):
    return [[x[i, j] for j in range(x.shape[1])] for i in range(x.shape[0])]


def ssum(xs, start=0):
    acc = start
    for x in xs:
        acc = acc + x
    return acc


def mean(r):
    n = len(r)
    return [ssum(row[j] for row in r) / n for j in range(len(r[0]))]


def cov(rx, ry=None, ddof=1, centered=True):
    """two-pass covariance of rows"""
    ry = rx if ry is None else ry
    n = len(rx)
    mx, my = mean(rx), mean(ry)
    if not centered:
        mx = [0] * len(mx)
        my = [0] * len(my)
    return [[ssum((rx[t][i] - mx[i]) * (ry[t][j] - my[j])
                  for t in range(n)) / (n - ddof)
             for j in range(len(my))] for i in range(len(mx))]


def matmul(a, b):
    return [[ssum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def transpose(a):
    return [list(c) for c in zip(*a)]


def A(S, nested, dtype=None):
    """nested list -> array of the current context"""
    if S.sym:
        return arr.from_nested(nested)
    return np.array(nested, dtype=dtype or float)


def splits(n, kmax=3, minlen=1):
    """all compositions of n into at most kmax parts of at least minlen"""
    out = []

    def rec(rest, acc):
        if rest == 0:
            out.append(tuple(acc))
            return
        if len(acc) == kmax:
            return
        for k in range(minlen, rest + 1):
            rec(rest - k, acc + [k])
    rec(n, [])
    return out


def chunks(x, sizes):
    i = 0
    for s in sizes:
        yield x[i:i + s]
        i += s


def snapshot(x):
    return x.copy()


def dtype_of(x):
    return np.dtype(x.dtype)


class ShapeArray(object):
    """An array of which only rank, shape and dtype exist; every entry of the
    shape may be symbolic."""

    def __init__(self, shape, dtype, tag='x'):
        self.shape = tuple(shape)
        self.ndim = len(self.shape)
        self.dtype = np.dtype(dtype)
        self.tag = tag

    def astype(self, dtype, *a, **k):
        return ShapeArray(self.shape, dtype, self.tag)

    def copy(self, *a, **k):
        return ShapeArray(self.shape, self.dtype, self.tag)

    @property
    def T(self):
        return ShapeArray(self.shape[::-1], self.dtype, self.tag)

    def __len__(self):
        return int(self.shape[0])

    def __array_function__(self, func, types, args, kwargs):
        n = func.__name__
        if n == 'shape':
            return self.shape
        if n == 'ndim':
            return self.ndim
        if n == 'asarray' or n == 'array':
            return self
        from .core import Unsupported
        raise Unsupported('%s on a shape-only array' % n)


def shaped(S, shape, dtype='float64'):
    """array with a (symbolic) shape and unspecified contents"""
    if S.sym:
        return ShapeArray(shape, dtype)
    return np.zeros([int(s) for s in shape], dtype=dtype)


def same_value(S, a, b, msg, depth=0):
    """deep comparison of two states (arrays, numbers, containers, objects)"""
    if a is b and not isinstance(a, (int, float, np.number, np.ndarray, SNum,
                                     list, tuple, dict)):
        return
    if isinstance(a, dict) and isinstance(b, dict):
        S.check(set(a) == set(b), '%s: keys' % msg)
        for k in a:
            same_value(S, a[k], b[k], msg, depth + 1)
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        S.check(len(a) == len(b), '%s: length' % msg)
        for x, y in zip(a, b):
            same_value(S, x, y, msg, depth + 1)
        return
    num_t = (int, float, np.number, np.ndarray, SNum)
    if isinstance(a, num_t) and isinstance(b, num_t):
        if isinstance(a, np.ndarray) and a.dtype.kind in 'SUO' and not isinstance(a, arr.SymArray):
            S.check(a.shape == b.shape and bool((a == b).all()), msg)
            return
        if np.ndim(a) != np.ndim(b) or (np.ndim(a) and a.shape != b.shape):
            S.check(False, '%s: shape' % msg)
            return
        if np.size(a):
            S.eq(a, b, msg)
        return
    if a is None or b is None or isinstance(a, (str, bytes, bool, type)):
        S.check(type(a) == type(b) and a == b, msg)
        return
    if callable(a) and not hasattr(a, '__dict__'):
        return
    if hasattr(a, '__dict__') and hasattr(b, '__dict__') and depth < 4:
        S.check(type(a) is type(b), '%s: type' % msg)
        if callable(a) and not hasattr(a, 'is_trainable'):
            return
        same_state(S, a, b, msg, depth=depth + 1)


def same_state(S, a, b, msg, ignore=(), depth=0):
    da = {k: v for k, v in a.__dict__.items() if k not in ignore}
    db = {k: v for k, v in b.__dict__.items() if k not in ignore}
    S.check(set(da) == set(db), '%s: attributes' % msg)
    for k in sorted(da):
        same_value(S, da[k], db[k], '%s: %s' % (msg, k), depth)


def outcome(f, *a):
    """None, or the class of the library's own exception f raised"""
    import mdp
    try:
        f(*a)
    except mdp.MDPException as e:
        return type(e)
    return None


def tied(S, xs):
    """some two of the values are equal"""
    xs = list(xs)
    return S.any([xs[i] == xs[j] for i in range(len(xs))
                  for j in range(i)])
