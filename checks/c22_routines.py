"""C22: the utility routines compute their documented formulas."""
import itertools
import math
import random
import sys

from symx import lib

BOUNDS = ('matrices up to 4x3 (decompositions and random rotations up to '
          '2x2/3x3), binomials and sizes for all arguments up to 8 and 2^70, '
          'dictionaries up to 3 keys, iterables up to 3 elements; all real '
          'values')
ASSUMPTIONS = ['sine, cosine and exponential are uninterpreted functions',
               'the random vectors of random_rot have a non-zero first '
               'component and are no multiples of a unit vector (true with '
               'probability one)']


def H(name, fn, **o):
    return (name, fn, o)


def eqm(S, a, nested, msg):
    nested = [list(r) for r in nested]
    S.check(tuple(a.shape) == (len(nested), len(nested[0])), msg + ' (shape)')
    for i, r in enumerate(nested):
        for j, v in enumerate(r):
            S.eq(a[i, j], v, msg)


def columns_h():
    def f(S):
        from mdp import utils
        T, n = 3, 3
        x = S.array('x', (T, n))
        x0 = x.copy()
        i, j = S.choose('ij', [(0, 1), (1, 0), (0, 2), (2, 1), (-1, 0)])
        ang = S.real('angle')
        mode = S.choose('mode', ['rad', 'deg', 'default'])
        np = S.np
        if mode == 'rad':
            utils.rotate(x, ang, [i, j])
            c, s = np.cos(ang), np.sin(ang)
        elif mode == 'deg':
            utils.rotate(x, ang, (i, j), units='degrees')
            c, s = np.cos(ang / 180. * math.pi), np.sin(ang / 180. * math.pi)
        else:
            utils.rotate(x, ang)
            i, j = 0, 1
            c, s = np.cos(ang), np.sin(ang)
        want = lib.rows(x0)
        for t in range(T):
            want[t][i] = c * x0[t, i] - s * x0[t, j]
            want[t][j] = s * x0[t, i] + c * x0[t, j]
        eqm(S, x, want, 'rotation of two columns in place')
        S.reach('end')
    return f


def permute_h():
    def f(S):
        from mdp import utils
        x = S.array('x', (3, 3))
        x0 = x.copy()
        i = int(S.int('i', 0, 2))
        j = int(S.int('j', 0, 2))
        kw = S.choose('kw', [{}, dict(rows=1), dict(rows=1, cols=0),
                             dict(rows=0, cols=0), dict(rows=0, cols=1)])
        utils.permute(x, (i, j), **kw)
        p = [0, 1, 2]
        p[i], p[j] = p[j], p[i]
        pr = p if kw.get('rows') else [0, 1, 2]
        pc = p if kw.get('cols', 1) else [0, 1, 2]
        eqm(S, x, [[x0[a, b] for b in pc] for a in pr],
            'two rows and/or columns swapped in place')
        S.reach('end')
    return f


def algebra_h():
    def f(S):
        from mdp import utils
        np = S.np
        x, y = S.array('x', (3, 2)), S.array('y', (3, 3))
        x0, y0 = x.copy(), y.copy()
        rx, ry = lib.rows(x), lib.rows(y)
        eqm(S, utils.timediff(x), [[rx[t + 1][k] - rx[t][k] for k in range(2)]
                                   for t in range(2)], 'time difference')
        eqm(S, utils.cov2(x, y), lib.cov(rx, ry), 'cov2')
        eqm(S, utils.cov2(x, x), lib.cov(rx), 'cov2 with itself')
        eqm(S, utils.hermitian(x), lib.transpose(rx), 'hermitian')
        d = S.vec('d', 3)
        eqm(S, utils.mult_diag(d, y), [[d[i] * ry[i][j] for j in range(3)]
                                       for i in range(3)], 'diag(d) M')
        eqm(S, utils.mult_diag(d, y, left=False),
            [[d[j] * ry[i][j] for j in range(3)] for i in range(3)],
            'M diag(d)')
        eqm(S, utils.mult_diag(d, x), [[d[i] * rx[i][j] for j in range(2)]
                                       for i in range(3)], 'diag(d) M')
        for m in (utils.mult, utils.matmult):
            eqm(S, m(y, x), lib.matmul(ry, rx), 'matrix product')
        n2 = utils.norm2(d)
        S.check(n2 >= 0, 'a norm')
        S.eq(n2 * n2, lib.ssum(v * v for v in d), 'norm2')
        S.eq(x, x0, 'arguments unchanged')
        S.eq(y, y0, 'arguments unchanged')
        S.reach('end')
    return f


def repeat_h():
    def f(S):
        from mdp import utils
        n = int(S.int('n', 0, 3))
        x = S.choose('nd', [S.vec('v', 2), S.array('x', (3, 2))])
        x0 = x.copy()
        l, r = utils.lrep(x, n), utils.rrep(x, n)
        S.check(tuple(l.shape) == (n,) + tuple(x.shape), 'shape of lrep')
        S.check(tuple(r.shape) == tuple(x.shape) + (n,), 'shape of rrep')
        for k in range(n):
            S.eq(l[k], x0, 'lrep')
            S.eq(r[..., k], x0, 'rrep')
        for d in range(x.ndim + 1):
            m = utils.irep(x, n, d)
            sh = tuple(x.shape)
            S.check(tuple(m.shape) == sh[:d] + (n,) + sh[d:],
                    'shape of irep')
            for k in range(n):
                S.eq(m[(slice(None),) * d + (k,)], x0, 'irep')
        S.eq(x, x0, 'argument unchanged')
        S.reach('end')
    return f


def cast_h():
    def f(S):
        from mdp import utils
        a = S.choose('a', ['d', 'f', 'i'])
        b = S.choose('b', ['d', 'f', 'i'])
        if a == 'i':
            x = S.zeros((2, 2), dtype='i')
            x[0, 1] = int(S.int('k', -3, 3))
        elif b == 'i':
            x = S.zeros((2, 2), dtype=a)
            x[1, 0] = 2
        else:
            x = S.array('x', (2, 2), dtype=a)
        x0 = x.copy()
        y = utils.refcast(x, b)
        S.check(str(y.dtype) == str(S.zeros(1, dtype=b).dtype), 'type')
        S.check((y is x) == (a == b), 'only cast (and copied) if needed')
        for p in range(2):
            for q in range(2):
                S.eq(y[p, q], x0[p, q], 'values')
        S.check(str(utils.scast(3, b).dtype) == str(y.dtype), 'scast')
        S.reach('end')
    return f


def maxima_h(n):
    def f(S):
        from mdp import utils
        c = S.array('c', (n, n))
        c0 = c.copy()
        got = utils.cov_maxima(c)
        S.eq(c, c0, 'argument unchanged')
        S.check(len(got) == n, 'one maximum per row')
        # greedy: the largest absolute value of what is left
        left = [(i, j) for i in range(n) for j in range(n)]
        ab = lambda v: v if v >= 0 else -v
        A = dict(((i, j), ab(c0[i, j])) for i, j in left)
        for k in range(n):
            cand = [p for p in left if all(A[p] >= A[q] for q in left)]
            S.check(len(cand) > 0, 'maximum')
            S.eq(got[k], A[cand[0]], 'maximum of the rest')
            if len(cand) > 1:
                S.assume(False)     # ties: any of them
            left = [(i, j) for i, j in left if i != cand[0][0] and
                    j != cand[0][1]]
        S.check(list(utils.cov_maxima(S.zeros((0, 0)))) == [], 'empty')
        S.reach('end')
    return f


def comb_h():
    def f(S):
        from mdp import utils
        N = int(S.int('N', 0, 8))
        k = int(S.int('k', 0, 8))
        w = len(list(itertools.combinations(range(N), k)))
        S.check(utils.comb(N, k) == w, 'binomial coefficient')
        S.check(utils.comb(70, 35) == 112186277816662845432, 'exact integers')
        S.reach('end')
    return f


def size_h():
    """formatting of sizes: a symbolic size"""
    def f(S):
        from mdp.utils.introspection import _memory_size_str
        si = S.choose('si', [False, True])
        e = int(S.int('e', 0, 6))
        base = 1000 if si else 1024
        m = S.choose('m', [1, 2, 7, 500, 999, 1000])
        size = m * base ** e
        if e == 0 and m == 1000 and si:
            S.assume(False)
        if m == 1000 and si and e == 6:
            S.assume(False)
        out = _memory_size_str(size, si_units=si)
        S.check(out.count(' ') == 1, 'number and unit')
        v, u = out.split(' ')
        pre = ['', 'k', 'M', 'G', 'T', 'P', 'E'] if si else \
            ['', 'Ki', 'Mi', 'Gi', 'Ti', 'Pi', 'Ei']
        S.check(u.endswith('B') and u[:-1] in pre, 'unit')
        back = float(v) * base ** pre.index(u[:-1])
        S.check(abs(back - size) <= 0.051 * base ** pre.index(u[:-1]),
                'the printed size is the size')
        S.check(float(v) <= base, 'unit fits')
        S.reach('end')
    return f


def dict_h():
    def f(S):
        from mdp import utils
        ks = ['a', 'b', 'c'][:int(S.int('nk', 0, 3))]
        d = {}
        for i, k in enumerate(ks):
            n = int(S.int('n%d' % i, 0, 2))
            d[k] = ['%s%d' % (k, m) for m in range(n)]
        d0 = dict((k, list(v)) for k, v in d.items())
        got = list(utils.orthogonal_permutations(d))
        want = [dict(zip(ks, p)) for p in itertools.product(
            *[d[k] for k in ks])]
        key = lambda q: sorted(q.items())
        S.check(sorted(map(key, got)) == sorted(map(key, want)),
                'every combination exactly once')
        S.check(d == d0, 'argument unchanged')
        S.reach('end')
    return f


def zip_h():
    def f(S):
        from mdp import utils
        kinds = []
        for i in range(int(S.int('n', 1, 3))):
            kinds.append(S.choose('k%d' % i, ['s', 0, 1, 2, 3, 'it']))
        S.assume(any(k != 's' for k in kinds))
        args, cols = [], []
        for i, k in enumerate(kinds):
            if k == 's':
                v = 10 * (i + 1)    # (a symbolic number is a sequence here)
                args.append(v)
                cols.append(itertools.repeat(v))
            else:
                n = 2 if k == 'it' else k
                e = [S.real('e%d_%d' % (i, j)) for j in range(n)]
                args.append(iter(e) if k == 'it' else e)
                cols.append(list(e))
        got = list(utils.izip_stretched(*args))
        want = list(zip(*cols))
        S.check(len(got) == len(want), 'as long as the shortest')
        for g, w in zip(got, want):
            S.check(type(g) is tuple and len(g) == len(w), 'tuples')
            for a, b in zip(g, w):
                S.eq(a, b, 'elements')
        S.reach('end')
    return f


def weighted_h():
    def f(S):
        from mdp import utils
        n = int(S.int('n', 1, 3))
        ks = 'xyz'[:n]
        w = dict((k, S.real('w' + k, lo=0)) for k in ks)
        tot = lib.ssum(w[k] for k in ks)
        norm = S.choose('normalize', [True, False])
        S.assume(tot > 0)
        if not norm:
            S.assume(tot <= 1)
        r = S.real('r', lo=0)
        S.assume(r < 1)
        S.patch(random, 'random', lambda: r)
        w0 = dict(w)
        got = utils.weighted_choice(w, **(S.choose('kw', [
            dict(), dict(normalize=True)]) if norm else
            dict(normalize=False)))
        for k in ks:
            S.eq(w[k], w0[k], 'weights unchanged')
        # the key whose interval of the cumulated weights contains r
        acc, want = 0, None
        for k in ks:
            p = w0[k] / tot if norm else w0[k]
            if want is None and acc + p > r:
                want = k
            acc = acc + p
        S.check(got == want, 'a key is drawn with the probability of its '
                'weight')
        if norm:
            S.check(got is not None, 'some key is drawn')
        S.reach('end')
    return f


def sign_h():
    def f(S):
        from mdp import utils
        n = 3
        b = [S.choose('b%d' % i, [False, True]) for i in range(n)]
        import numpy
        sg = utils.bool_to_sign(numpy.array(b))
        S.check([float(v) for v in sg] == [1. if v else -1. for v in b],
                'False is -1 and True is 1')
        x = S.vec('x', n)
        for kw, zero in (({}, True), (dict(zero=True), True),
                         (dict(zero=False), False)):
            g = utils.sign_to_bool(x, **kw)
            for i in range(n):
                want = x[i] >= 0 if zero else x[i] > 0
                S.check(bool(g[i]) == bool(want), 'sign to boolean')
        S.check([bool(v) for v in utils.sign_to_bool(sg)] == b, 'inverse')
        S.reach('end')
    return f


def gabor_h():
    def f(S):
        from mdp import utils
        np = S.np
        w, h = S.choose('size', [(2, 4), (4, 2), (3, 3)])
        alpha, phi, freq = S.real('alpha'), S.real('phi'), S.real('freq')
        sg = [S.real('s0'), S.real('s1')]
        S.assume(sg[0] > 0)
        S.assume(sg[1] > 0)
        kw, x0, y0, res, ampl = {}, w // 2, h // 2, 1, 1
        if S.choose('args', [False, True]):
            y0, x0, res, ampl = 1, 0, S.real('res'), S.real('ampl')
            kw = dict(x0=(y0, x0), res=res, ampl=ampl)
        im = utils.gabor((w, h), alpha, phi, freq, sg, **kw)
        S.check(tuple(im.shape) == (w, h), 'size')
        ca, sa = np.cos(alpha), np.sin(alpha)
        fr = freq * res
        for i in range(w):
            for j in range(h):
                # first coordinate along the first axis
                u, v = i - x0, j - y0
                a, b = u * ca - v * sa, u * sa + v * ca
                e = -0.5 * (a * a / (sg[0] * sg[0]) +
                            b * b / (sg[1] * sg[1]))
                c = -2. * math.pi * (fr * sa * u + fr * ca * v) - phi
                S.eq(im[i, j], ampl * np.exp(e) * np.cos(c),
                     'Gabor function')
        S.reach('end')
    return f


def svd_h(n, m):
    """a matrix built from its singular value decomposition"""
    def f(S):
        from mdp import utils
        k = 2
        r1, r2 = S.rotation('r1'), S.rotation('r2')
        d = [S.real('d1', lo=0), S.real('d0', lo=0)]
        S.assume(d[0] < d[1])
        d = d[::-1]

        def big(r, q):
            o = S.zeros((q, q))
            o[:2, :2] = r
            for i in range(2, q):
                o[i, i] = 1.
            return o
        u, v = big(r1, n)[:, :k], big(r2, m)[:, :k]
        D = S.zeros((k, k))
        D[0, 0], D[1, 1] = d
        s = S.np.diag(D)
        a = S.np.dot(S.np.dot(u, D), v.T)
        if S.sym:
            from symx import arr
            arr.known_result('svd', a, (u, s, v.T))
        a0 = a.copy()
        w, Z = utils.nongeneral_svd(a)
        S.eq(a, a0, 'argument unchanged')
        S.check(len(w) == k and tuple(Z.shape) == (m, k), 'shape')
        S.eq(w[0], d[1], 'ascending singular values')
        S.eq(w[1], d[0], 'ascending singular values')
        for c in range(k):
            # right singular vectors: unique up to the sign
            p = lib.ssum(Z[i, c] * v[i, k - 1 - c] for i in range(m))
            S.eq(p * p, 1, 'right singular vectors')
            S.eq(lib.ssum(Z[i, c] * Z[i, c] for i in range(m)), 1, 'norm')
        lo = int(S.int('lo', 1, k))
        hi = int(S.int('hi', lo, k))
        w2, Z2 = utils.nongeneral_svd(a, range=(lo, hi))
        S.check(len(w2) == hi - lo + 1 and Z2.shape[1] == hi - lo + 1,
                'range')
        for q in range(hi - lo + 1):
            S.eq(w2[q], w[lo - 1 + q], 'range')
            for i in range(m):
                S.eq(Z2[i, q], Z[i, lo - 1 + q], 'range')
        S.reach('end')
    return f


def sqrtm_h():
    def f(S):
        from mdp import utils
        r = S.rotation('t')
        d = [S.square('d0', lo=0), S.square('d1', lo=0)]
        S.assume(d[0] <= d[1])
        D = S.zeros((2, 2))
        D[0, 0], D[1, 1] = d
        a = S.np.dot(S.np.dot(r, D), r.T)
        S.known_eigh(a, S.np.diag(D), r)
        a0 = a.copy()
        q = utils.sqrtm(a)
        S.eq(a, a0, 'argument unchanged')
        qq = lib.matmul(lib.rows(q), lib.rows(q))
        for i in range(2):
            for j in range(2):
                S.eq(qq[i][j], a0[i, j], 'square of the square root')
                S.eq(q[i, j], q[j, i], 'symmetric')
        S.reach('end')
    return f


def draws(S, xs):
    it = iter(xs)

    class R(object):
        def normal(self, loc=0., scale=1., size=None):
            x = next(it)
            S.check(tuple(size) == tuple(x.shape), 'size of the draw')
            return x.copy()

        def random(self, size=None):
            return next(it).copy()
    import mdp
    r = R()
    S.patch(mdp, 'numx_rand', r)
    S.patch(sys.modules['mdp.utils.routines'], 'numx_rand', r)


# integer vectors and their lengths
PAIRS = [(3, 4, 5), (-5, 12, 13), (-4, -3, 5), (15, -8, 17)]
TRIPLES = [(1, 2, 2, 3), (-2, -1, 2, 3), (3, -4, 12, 13), (-2, 3, 6, 7)]


def rot_h(dim, quick=True):
    def f(S):
        import mdp
        from mdp import utils
        xs = []
        for n in range(1, dim):
            k = dim - n + 1
            x = S.zeros((k,))
            # a vector of known length
            # (s > 0 times a vector with a rational length)
            s = S.real('s%d' % n) if n == dim - 1 and (quick or dim == 3) \
                else S.const([1.])[0]
            S.assume(s > 0)
            if k == 2 and dim == 2 and not quick:
                t = S.real('t%d' % n)
                S.assume(t != 0)
                S.assume(t * t != 1)
                x[0], x[1] = s * (1 - t * t), s * 2 * t
                root = s * (1 + t * t)
            else:
                v = S.choose('p%d' % n, TRIPLES if k == 3 else PAIRS)
                for i in range(k):
                    x[i] = s * v[i]
                root = s * v[k]
            S.known_sqrt((x * x).sum(), root)
            xs.append(x)
        draws(S, xs)
        q = utils.random_rot(dim)
        qq = lib.matmul(lib.rows(q), lib.transpose(lib.rows(q)))
        for i in range(dim):
            for j in range(dim):
                S.eq(qq[i][j], 1 if i == j else 0, 'orthogonal')
        r = lib.rows(q)
        if dim == 1:
            det = r[0][0]
        elif dim == 2:
            det = r[0][0] * r[1][1] - r[0][1] * r[1][0]
        else:
            det = lib.ssum(r[0][i] * (r[1][(i + 1) % 3] * r[2][(i + 2) % 3] -
                                      r[1][(i + 2) % 3] * r[2][(i + 1) % 3])
                           for i in range(3))
        S.eq(det, 1, 'a rotation')
        S.reach('end')
    return f


def symrand_h():
    def f(S):
        import mdp
        from mdp import utils
        s = S.real('s')
        S.assume(s > 0)
        v = S.choose('p', PAIRS)
        x = S.zeros((2,))
        x[0], x[1] = s * v[0], s * v[1]
        S.known_sqrt((x * x).sum(), s * v[2])
        by = S.choose('by', ['dim', 'eig', 'bad'])
        if by == 'bad':
            S.must_raise(mdp.MDPException, 'other arguments are refused',
                         utils.symrand, S.zeros((2, 2)))
            S.reach('end')
            return
        if by == 'dim':
            u = S.vec('u', 2)
            draws(S, [u, x])
            m = utils.symrand(2)
            d = [2 * u[0] - 1, 2 * u[1] - 1]
        else:
            e = S.vec('e', 2)
            draws(S, [x])
            m = utils.symrand(e)
            d = [e[0], e[1]]
        S.check(tuple(m.shape) == (2, 2), 'shape')
        S.eq(m[0, 1], m[1, 0], 'symmetric')
        S.eq(m[0, 0] + m[1, 1], d[0] + d[1], 'eigenvalues (trace)')
        S.eq(m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0], d[0] * d[1],
             'eigenvalues (determinant)')
        S.reach('end')
    return f


def harnesses(tier):
    quick = tier == 'quick'
    R = ['end']
    hs = [H('rotate', columns_h(), reach=R), H('permute', permute_h(),
                                               reach=R),
          H('algebra', algebra_h(), reach=R), H('repeat', repeat_h(),
                                                reach=R),
          H('cast', cast_h(), reach=R),
          H('cov_maxima/1', maxima_h(1), reach=R),
          H('cov_maxima/2', maxima_h(2), reach=R),
          H('comb', comb_h(), reach=R), H('size', size_h(), reach=R),
          H('dict', dict_h(), reach=R), H('zip', zip_h(), reach=R),
          H('weighted', weighted_h(), reach=R), H('sign', sign_h(), reach=R),
          H('gabor', gabor_h(), reach=R),
          H('svd/22', svd_h(2, 2), reach=R),
          H('svd/32', svd_h(3, 2), reach=R),
          H('sqrtm', sqrtm_h(), reach=R),
          H('rot/1', rot_h(1), reach=R), H('rot/2', rot_h(2), reach=R),
          H('rot/3', rot_h(3), reach=R),
          H('symrand', symrand_h(), reach=R)]
    if not quick:
        hs += [H('rot/2t', rot_h(2, False), reach=R),
               H('cov_maxima/3', maxima_h(3), reach=R, max_paths=50000,
                 budget_s=400)]
    return hs
