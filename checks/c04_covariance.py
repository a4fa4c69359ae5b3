"""C04: the incremental covariance estimators equal the textbook definitions
for every data set and every way of cutting it into chunks."""
from fractions import Fraction

from symx import lib
from symx.lib import A

BOUNDS = ('T<=6 samples, <=3 variables, every composition of T into <=3 chunks'
          ', lags 0..3, both normalisations, centred or not; all real data '
          'values')


def H(name, fn, **o):
    return (name, fn, o)


def feed(S, c, *data, **kw):
    """update with arrays that are overwritten afterwards"""
    bufs = [d.copy() for d in data]
    dt = kw.get('dt')
    if getattr(dt, 'ndim', 0):
        kw['dt'] = dt.copy()
    c.update(*bufs, **kw)
    for d, b in zip(data, bufs):
        S.eq(b, d, 'input unchanged')
        b[...] = 77
    if getattr(dt, 'ndim', 0):
        S.eq(kw['dt'], dt, 'increments unchanged')
        kw['dt'][...] = 77


def cov_h(T, n, dtype, kmax=3):
    def f(S):
        from mdp.utils import CovarianceMatrix
        x = S.array('x', (T, n), dtype=dtype)
        x0 = x.copy()
        bias = S.choose('bias', [False, True])
        center = S.choose('center', [True, False])
        explicit = S.choose('explicit', [False, True])
        c = CovarianceMatrix(dtype=dtype if explicit else None, bias=bias)
        sizes = S.choose('sizes', lib.splits(T, kmax))
        for rnd in range(2):
            for ch in lib.chunks(x, sizes):
                feed(S, c, ch)
            got, avg, tlen = c.fix(center=center)
            r = lib.rows(x)
            S.eq(got, A(S, lib.cov(r, ddof=0 if bias else 1,
                                   centered=center)), 'covariance')
            S.eq(avg, A(S, lib.mean(r)), 'average')
            S.check(tlen == T, 'number of observations')
            S.same(lib.dtype_of(got), lib.dtype_of(x), 'dtype')
            S.reach('fixed')
        S.eq(x, x0, 'input unchanged')
    return f


def delay_h(T, n, lag, kmax=2):
    def f(S):
        import mdp
        from mdp.utils import DelayCovarianceMatrix
        x = S.array('x', (T, n))
        x0 = x.copy()
        bias = S.choose('bias', [False, True])
        sizes = S.choose('sizes', lib.splits(T, kmax, lag + 1))
        withA = S.choose('A', [False, True])
        c = DelayCovarianceMatrix(lag, bias=bias)
        a, b = [], []
        for ch in lib.chunks(x, sizes):
            feed(S, c, ch)
            rr = lib.rows(ch)
            a += rr[:len(rr) - lag]
            b += rr[lag:]
        S.assume(len(a) > 1 or bias)
        M = S.array('A', (2, n)) if withA else None
        got, avg, avg_dt, tlen = c.fix(M)
        want = lib.cov(a, b, ddof=0 if bias else 1)
        if withA:
            m = lib.rows(M)
            want = lib.matmul(m, lib.matmul(want, lib.transpose(m)))
        S.eq(got, A(S, want), 'delayed covariance')
        S.eq(avg, A(S, lib.mean(a)), 'average')
        S.eq(avg_dt, A(S, lib.mean(b)), 'delayed average')
        S.check(tlen == len(a), 'number of observations')
        S.eq(x, x0, 'input unchanged')
        # the container is empty again
        feed(S, c, x)
        got, avg, avg_dt, tlen = c.fix()
        rr = lib.rows(x)
        if T - lag > 1 or bias:
            S.eq(got, A(S, lib.cov(rr[:T - lag], rr[lag:],
                                   ddof=0 if bias else 1)), 'after reset')
        # short chunks are refused and leave the state alone
        if lag:
            feed(S, c, x)
            S.must_raise(mdp.MDPException, 'short chunk refused',
                         c.update, x[:lag])
            got, avg, avg_dt, tlen = c.fix()
            S.check(tlen == T - lag, 'refused chunk not counted')
            S.eq(avg, A(S, lib.mean(rr[:T - lag])), 'refused chunk ignored')
        S.reach('fixed')
    return f


def cross_h(T, n, m):
    def f(S):
        import mdp
        from mdp.utils import CrossCovarianceMatrix
        x, y = S.array('x', (T, n)), S.array('y', (T, m))
        x0, y0 = x.copy(), y.copy()
        bias = S.choose('bias', [False, True])
        sizes = S.choose('sizes', lib.splits(T, 3))
        c = CrossCovarianceMatrix(bias=bias)
        for rnd in range(2):
            for cx, cy in zip(lib.chunks(x, sizes), lib.chunks(y, sizes)):
                feed(S, c, cx, cy)
            S.must_raise(mdp.MDPException, 'sample mismatch refused',
                         c.update, x, y[:-1])
            got, ax, ay, tlen = c.fix()
            S.eq(got, A(S, lib.cov(lib.rows(x), lib.rows(y),
                                   ddof=0 if bias else 1)),
                 'cross covariance')
            S.eq(ax, A(S, lib.mean(lib.rows(x))), 'average x')
            S.eq(ay, A(S, lib.mean(lib.rows(y))), 'average y')
            S.check(tlen == T, 'number of observations')
        S.eq(x, x0, 'input unchanged')
        S.eq(y, y0, 'input unchanged')
        S.reach('fixed')
    return f


def _trapz(x, dts, gapless):
    """weighted moments of the piecewise linear path; x: list of chunks,
    dts: list of per-chunk increments, gap increments in gapless"""
    n = len(x[0][0])
    tl = 0
    s1 = [0] * n
    s2 = [[0] * n for _ in range(n)]

    def seg(p, q, d):
        for i in range(n):
            s1[i] = s1[i] + (p[i] + q[i]) * d / 2
            for j in range(n):
                s2[i][j] = s2[i][j] + (p[i] * p[j] + q[i] * q[j]) * d / 2
    last = None
    for ch, ds, gap in zip(x, dts, gapless):
        if last is not None and gap is not None:
            seg(last, ch[0], gap)
            tl = tl + gap
        for k in range(len(ch) - 1):
            seg(ch[k], ch[k + 1], ds[k])
            tl = tl + ds[k]
        last = ch[-1]
    return s1, s2, tl


def vartime_h(T, n, mode, time_dep, kmax=2):
    def f(S):
        import numpy
        from mdp.utils import VartimeCovarianceMatrix
        x = S.array('x', (T, n))
        sizes = S.choose('sizes', lib.splits(T, kmax, 1 if time_dep else 2))
        center = S.choose('center', [True, False])
        c = VartimeCovarianceMatrix()
        x0 = x.copy()
        for rnd in range(2):
            dts, gaps, xs = [], [], []
            const = None
            if mode == 'const':
                const = S.square('dt', lo=Fraction(1, 4), hi=3)
            for i, ch in enumerate(lib.chunks(x, sizes)):
                k = ch.shape[0]
                if mode == 'none':
                    feed(S, c, ch, time_dep=time_dep)
                    ds, gap = [1] * (k - 1), 1
                elif mode == 'const':
                    feed(S, c, ch, dt=const, time_dep=time_dep)
                    ds, gap = [const] * (k - 1), const
                else:
                    full = (time_dep and i > 0) or (
                        not time_dep and S.choose('full', [False, True]))
                    d = A(S, [S.square('d%d_%d' % (i, q), lo=Fraction(1, 4),
                                       hi=3)
                              for q in range(k if full else k - 1)])
                    feed(S, c, ch, dt=d, time_dep=time_dep)
                    ds = [d[j + (1 if full else 0)] for j in range(k - 1)]
                    gap = d[0] if full else None
                dts.append(ds)
                gaps.append(gap if time_dep else None)
                xs.append(lib.rows(ch))
            s1, s2, tl = _trapz(xs, dts, gaps)
            S.assume(tl > 0)
            got, avg, tlen = c.fix(center=center)
            S.eq(tlen, tl, 'total time')
            S.eq(avg, A(S, [a / tl for a in s1]), 'time average')
            w = [[s2[i][j] / tl - ((s1[i] / tl) * (s1[j] / tl) if center
                                   else 0) for j in range(n)]
                 for i in range(n)]
            S.eq(got, A(S, w), 'time-weighted covariance')
        S.eq(x, x0, 'input unchanged')
        S.reach('fixed')
    return f


def multi_h(n, K, op):
    def f(S):
        from mdp.utils import MultipleCovarianceMatrices
        covs = [S.array('c%d' % k, (n, n)) for k in range(K)]
        rr = [lib.rows(c) for c in covs]
        m = MultipleCovarianceMatrices([c.copy() for c in covs])
        cp = m.copy()
        i = S.int('i', 0, n - 1)
        j = S.int('j', 0, n - 1)
        S.assume(i != j)
        i, j = int(i), int(j)
        if op == 'weight':
            w = S.array('w', (K,))
            m.weight(w)
            want = [[[w[k] * rr[k][a][b] for b in range(n)]
                     for a in range(n)] for k in range(K)]
        elif op == 'symmetrize':
            m.symmetrize()
            want = [[[(rr[k][a][b] + rr[k][b][a]) / 2 for b in range(n)]
                     for a in range(n)] for k in range(K)]
        elif op == 'permute':
            m.permute([i, j])
            p = list(range(n))
            p[i], p[j] = j, i
            want = [[[rr[k][p[a]][p[b]] for b in range(n)]
                     for a in range(n)] for k in range(K)]
        elif op == 'transform':
            t = S.array('t', (n, n))
            m.transform(t)
            tr = lib.rows(t)
            want = [lib.matmul(lib.transpose(tr), lib.matmul(r, tr))
                    for r in rr]
        elif op == 'rotate':
            th = S.real('theta')
            m.rotate(th, [i, j])
            c, s = S.np.cos(th), S.np.sin(th)
            R = [[1 if a == b else 0 for b in range(n)] for a in range(n)]
            R[i][i], R[i][j], R[j][i], R[j][j] = c, s, -s, c
            # columns i,j -> c*i - s*j, s*i + c*j
            want = [lib.matmul(lib.transpose(R), lib.matmul(r, R))
                    for r in rr]
        for k in range(K):
            S.eq(m[k], A(S, want[k]), op)
            S.eq(cp[k], covs[k], 'copy is independent')
        S.reach('done')
    return f


def harnesses(tier):
    hs = []
    big = tier != 'quick'
    for T, n in [(1, 2), (3, 2), (4, 3)] + ([(6, 3), (5, 4)] if big else []):
        hs.append(H('cov/T%dn%d' % (T, n), cov_h(T, n, 'd', 4 if big else 3)
                    if T > 1 else cov1_h(n), reach=['fixed']))
    hs.append(H('cov/float32', cov_h(3, 2, 'f'), reach=['fixed']))
    for T, n, lag in [(4, 2, 0), (4, 2, 1), (6, 2, 2)] + (
            [(7, 3, 1), (8, 2, 3)] if big else []):
        hs.append(H('delay/T%dn%dlag%d' % (T, n, lag), delay_h(T, n, lag),
                    reach=['fixed']))
    for T, n, m in [(3, 2, 1), (4, 1, 2)] + ([(5, 3, 2)] if big else []):
        hs.append(H('cross/T%dn%dm%d' % (T, n, m), cross_h(T, n, m),
                    reach=['fixed']))
    for mode in ('none', 'const', 'array'):
        for td in (True, False):
            T = 4
            hs.append(H('vartime/%s/%s' % (mode, 'dep' if td else 'indep'),
                        vartime_h(T, 2 if mode != 'array' or big else 1,
                                  mode, td, 3 if big else 2),
                        reach=['fixed'], weight=3))
    for op in ('weight', 'symmetrize', 'permute', 'transform', 'rotate'):
        hs.append(H('multiple/' + op, multi_h(3 if op != 'transform' or big
                                              else 2, 2, op), reach=['done']))
    return hs


def cov1_h(n):
    def f(S):
        from mdp.utils import CovarianceMatrix
        x = S.array('x', (1, n))
        c = CovarianceMatrix(bias=True)
        feed(S, c, x)
        got, avg, tlen = c.fix()
        S.eq(got, A(S, [[0] * n] * n), 'one sample has no variance')
        S.eq(avg, x[0], 'average')
        S.check(tlen == 1, 'number of observations')
        S.reach('fixed')
    return f
