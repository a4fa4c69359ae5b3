"""C27: PCA, whitening, SFA and FDA solve their eigenvalue problems on the
training data: end-to-end on every linear mixture of reference signals."""
from fractions import Fraction

from symx import lib
from symx.lib import A

BOUNDS = ('5-6 observations of 2-3 variables: all data sets that are an '
          'arbitrary invertible linear mixture (any rotation, any scaling, '
          'any offset) of fixed orthogonal reference signals')
ASSUMPTIONS = ['LAPACK eigensolvers return an orthonormal eigenbasis in '
               'ascending order of the eigenvalues; the sign of an '
               'eigenvector is arbitrary']


def H(name, fn, **o):
    o.setdefault('compare', False)
    o.setdefault('guess', True)
    return (name, fn, o)


W3 = [(1, 1, -1, -1, 0), (1, -1, 1, -1, 0), (1, -1, -1, 1, 0)]
SLOW = [(1, 1, 0, -1, -1), (1, -3, 4, -3, 1)]
SLOW_Q = [1, 3]
# the same with the last sample left out of the covariance
NOLAST = [(0, -1, -1, 1, 1, -1), (0, -2, 2, -2, 2, -1)]
NOLAST_Q = [1, 2]


FIXED = [[2 / 3., -1 / 3., 2 / 3.], [2 / 3., 2 / 3., -1 / 3.],
         [-1 / 3., 2 / 3., 2 / 3.]]


def rot(S, n, name='t'):
    if n == 1:
        return S.const([[1.0]])
    r = S.rotation(name)
    if n == 2:
        return r
    z = S.zeros((3, 3))
    z[:2, :2] = r
    z[2, 2] = 1
    q = S.rotation(name + 'b')
    y = S.zeros((3, 3))
    y[0, 0] = 1
    y[1:, 1:] = q
    return S.np.dot(z, y)


def mixture(S, cols, order_gap=True, lo=1, fixed=False):
    """X = U diag(s) R^T + offset with s ascending"""
    n = len(cols)
    U = S.const([[float(c[t]) for c in cols] for t in range(len(cols[0]))])
    w = [S.square('w%d' % i, lo=lo, hi=20) for i in range(n)]
    s = [S.np.sqrt(x) for x in w]
    if order_gap:
        for i in range(n - 1):
            S.assume(s[i] < s[i + 1])
    R = S.const(FIXED if fixed is True else fixed) if fixed \
        else rot(S, n)
    m = S.array('m', (1, n))
    D = S.zeros((n, n))
    for i in range(n):
        D[i, i] = s[i]
    X = S.np.dot(S.np.dot(U, D), R.T)
    W = S.zeros((n,))
    for i in range(n):
        W[i] = w[i]
    S.known_eigh(S.np.dot(R * W, R.T), W, R)
    return U, w, s, R, m, X + m


def upto_sign(S, y, ref, msg):
    """column y equals +-ref"""
    # y y^T == ref ref^T
    for t in range(len(ref)):
        for u in range(t + 1):
            S.eq(y[t] * y[u], ref[t] * ref[u], msg)


def cov_of(S, y, ddof=1):
    r = lib.rows(y)
    return lib.cov(r, ddof=ddof)


def pca_h(n, cls, outs, svd):
    def f(S):
        import mdp
        U, w, s, R, m, X = mixture(S, W3[:n])
        X0 = X.copy()
        k = S.choose('output_dim', outs)
        node = getattr(mdp.nodes, cls)(output_dim=k, svd=svd)
        node.train(X)
        node.stop_training()
        kk = k or n
        S.check(node.output_dim == kk, 'output dimension')
        y = node.execute(X)
        S.eq(X, X0, 'input unchanged')
        S.check(tuple(y.shape) == (5, kk), 'shape')
        c = cov_of(S, y)
        for i in range(kk):
            for j in range(kk):
                want = 0 if i != j else (
                    w[n - 1 - i] if cls == 'PCANode' else 1)
                S.eq(c[i][j], want, 'components are uncorrelated, with the '
                     'largest variances in descending order'
                     if cls == 'PCANode' else 'covariance is the identity')
        S.eq(A(S, [lib.mean(lib.rows(y))]), S.zeros((1, kk)),
             'components have mean zero')
        tot = lib.ssum(w)
        S.eq(node.explained_variance * tot,
             lib.ssum(w[n - 1 - i] for i in range(kk)), 'explained variance')
        for i in range(kk):
            S.eq(node.d[i], w[n - 1 - i], 'variances')
        # the projection really is the one on the leading directions
        for i in range(kk):
            ref = [U[t, n - 1 - i] * (s[n - 1 - i] if cls == 'PCANode' else 1)
                   for t in range(5)]
            upto_sign(S, y[:, i], ref, 'component is the leading direction')
        # inverse: exact with all components, the projection otherwise
        x2 = node.inverse(y)
        if kk == n:
            S.eq(x2, X, 'inverse restores the data')
        else:
            res = X - x2
            v = lib.ssum(res[t, a] * res[t, a] for t in range(5)
                         for a in range(n)) / 4
            S.eq(v, lib.ssum(w[:n - kk]), 'reconstruction error is the '
                 'variance left out')
        for j in range(1, kk + 1):
            if cls == 'PCANode':
                S.eq(node.execute(X, n=j), y[:, :j], 'first n components')
            S.eq(node.inverse(y[:, :j]), node.inverse(
                S.np.concatenate([y[:, :j], S.zeros((5, kk - j))], axis=1)),
                'inverse of the leading components')
        S.eq(node.get_projmatrix(), node.v, 'projection matrix')
        P = S.np.dot(node.get_recmatrix(), node.get_projmatrix())
        S.eq(P, S.np.eye(kk), 'reconstruction inverts projection')
        S.eq(node.get_projmatrix(0), node.get_projmatrix().T, 'transposed')
        S.eq(node.get_recmatrix(0), node.get_recmatrix().T, 'transposed')
        if cls == 'WhiteningNode':
            ev = node.get_eigenvectors()
            S.eq(S.np.dot(ev.T, ev), S.np.eye(kk),
                 'eigenvectors are orthonormal')
        S.reach('end')
    return f


def pca_var_h(cls):
    """a fraction as output dimension: as few components as reach it"""
    def f(S):
        import mdp
        n = 3
        U, w, s, R, m, X = mixture(S, W3, fixed=True)
        q = S.choose('fraction', [0.5, 0.75, 0.9, 1.0])
        node = getattr(mdp.nodes, cls)(output_dim=q)
        node.train(X)
        node.stop_training()
        k = node.output_dim
        tot = lib.ssum(w)
        lead = [w[2], w[2] + w[1], tot]
        q = Fraction(q).limit_denominator(100) if S.sym else q
        eps = 0 if S.sym else 1e-9
        S.le(q * tot, lead[k - 1] + eps, 'enough variance is kept')
        if k > 1:
            S.le(lead[k - 2] - eps, q * tot, 'no component too many')
        y = node.execute(X)
        S.check(y.shape[1] == k, 'shape')
        S.eq(node.explained_variance * tot, lead[k - 1], 'explained variance')
        S.reach('%d' % k)
    return f


def pca_rounding_h(cls):
    """eigenvalues whose sum misses the total variance by a rounding error"""
    def f(S):
        import sys
        import mdp
        n = S.choose('n', [1, 2, 3])
        X = S.const([[1, 2, 0], [-1, 1, 3], [0, -2, 1], [4, 0, -1]])[:, :n]
        tot = lib.ssum(lib.cov(lib.rows(X))[i][i] for i in range(n))
        d = S.array('d', (n,), lo=0)
        for i in range(n - 1):
            S.assume(d[i] <= d[i + 1])
        off = lib.ssum(list(d)) - tot
        S.assume(S.all([off <= Fraction(1, 10 ** 9),
                        -off <= Fraction(1, 10 ** 9)]))
        S.assume(d[n - 1] > Fraction(1, 100))
        v = S.np.eye(n)
        S.patch(sys.modules['mdp.nodes.pca_nodes'], 'symeig',
                lambda c, *a, **k: (d.copy(), v.copy()))
        q = S.choose('fraction', [0.5, 0.9, 1.0])
        node = getattr(mdp.nodes, cls)(output_dim=q)
        node.train(X)
        node.stop_training()
        k = node.output_dim
        S.check(1 <= k <= n and tuple(node.v.shape) == (n, k) and
                tuple(node.d.shape) == (k,), 'as many components as '
                'output_dim says')
        for i in range(k):
            S.eq(node.d[i], d[n - 1 - i], 'kept variances')
        fr = Fraction(q).limit_denominator(100)
        lead = lib.ssum(d[n - 1 - i] for i in range(k))
        S.le(fr * tot - Fraction(1, 10 ** 8), lead, 'enough variance is kept')
        y = node.execute(X)
        S.check(tuple(y.shape) == (4, k), 'shape of the components')
        S.reach('end')
    return f


def pca_reduce_h(cls):
    """reduce keeps exactly the directions above the variance thresholds"""
    def f(S):
        import mdp
        n = 3
        U, w, s, R, m, X = mixture(S, W3, lo=0, fixed=True)
        va, vr, vp = S.choose('thresholds', [
            (2, Fraction(1, 1000), None), (1, Fraction(1, 4), None),
            (Fraction(1, 100), Fraction(1, 1000), Fraction(1, 5))])
        lim = S.choose('output_dim', [None, 1, 2])
        node = getattr(mdp.nodes, cls)(
            output_dim=lim, reduce=True, var_abs=float(va), var_rel=float(vr),
            var_part=float(vp) if vp else None)
        node.train(X)
        if bool(w[2] <= va):
            S.must_raise(mdp.NodeException, 'no direction left is refused',
                         node.stop_training)
            S.reach('none')
            return
        node.stop_training()
        tot = lib.ssum(w)
        keep = []
        for i in range(n):
            cond = [w[i] > va, w[i] > vr * w[2]]
            if vp:
                cond.append(w[i] > vp * tot)
            keep.append(bool(S.all(cond)))
        k = min(sum(keep), lim or n)
        if S.sym is False:
            # borderline values decide differently in floating point
            for i in range(n):
                for b in [va, vr * w[2]] + ([vp * tot] if vp else []):
                    if abs(float(w[i]) - float(b)) < 1e-6:
                        return
        S.check(node.output_dim == k, 'number of kept directions')
        S.check(tuple(node.execute(X).shape) == (5, k), 'shape')
        for i in range(k):
            S.eq(node.d[i], w[n - 1 - i], 'kept variances')
        S.eq(node.get_explained_variance() * tot,
             lib.ssum(w[n - 1 - i] for i in range(k)), 'explained variance')
        S.reach('kept%d' % k)
    return f


def pca_negative_h():
    """eigenvalues that came out negative are refused unless handled"""
    def f(S):
        import mdp
        node = mdp.nodes.PCANode()
        x = S.array('x', (3, 2))
        node.train(x)
        w = S.array('w', (2,))
        S.assume(w[0] <= w[1])

        def fake(a, range=None, overwrite=False):
            return w, S.const([[1.0, 0.0], [0.0, 1.0]])
        node._symeig = fake
        if bool(w[0] < 0):
            S.must_raise(mdp.NodeException, 'negative variance refused',
                         node.stop_training)
            S.reach('neg')
        else:
            node.stop_training()
            S.reach('pos')
    return f


def sfa_h(cls, outs, last=True, mode='one'):
    def f(S):
        import mdp
        cols = SLOW if last else NOLAST
        T = len(cols[0])
        C = [[c[t] / float(q) for c, q in zip(
            cols, SLOW_Q if last else NOLAST_Q)] for t in range(T)]
        U = S.const(C)
        w = [S.square('w%d' % i, lo=1, hi=20) for i in range(2)]
        s = [S.np.sqrt(x) for x in w]
        S.assume(s[0] < s[1])
        R = S.rotation('t')
        Q = S.rotation('u') if last else S.const(
            [[0.6, -0.8], [0.8, 0.6]])
        m = S.array('m', (1, 2))
        D, W = S.zeros((2, 2)), S.zeros((2,))
        for i in range(2):
            D[i, i] = s[i]
            W[i] = w[i]
        X = S.np.dot(S.np.dot(S.np.dot(U, Q), D), R.T) + m
        S.known_eigh(S.np.dot(R * W, R.T), W, R)
        delta = []
        for j in range(2):
            F = [Fraction(c).limit_denominator(100) for c in
                 [C[t][j] for t in range(T)]]
            delta.append(sum((b - a) ** 2 for a, b in zip(F, F[1:])) /
                         (T - 2))
        assert delta[0] < delta[1]
        dd = S.const([float(x) for x in delta])
        S.known_eigh(S.np.dot(Q.T * dd, Q), dd, Q.T)
        k = S.choose('output_dim', outs)
        kw = {}
        if cls == 'SFANode':
            kw = dict(include_last_sample=last)
        node = getattr(mdp.nodes, cls)(output_dim=k, **kw)
        node.train(X)
        node.stop_training()
        kk = k or 2
        y = node.execute(X)
        S.check(tuple(y.shape) == (T, kk), 'shape')
        c = lib.cov(lib.rows(y if last else y[:-1]))
        for i in range(kk):
            for j in range(kk):
                S.eq(c[i][j], int(i == j), 'unit variance, decorrelated')
            dy = [y[t + 1, i] - y[t, i] for t in range(T - 1)]
            S.eq(lib.ssum(v * v for v in dy) / (T - 2), delta[i] if S.sym
                 else float(delta[i]), 'ordered by slowness')
            S.eq(node.d[i], delta[i] if S.sym else float(delta[i]),
                 'delta values')
            upto_sign(S, y[:, i], [U[t, i] for t in range(T)],
                      'the slow signals are recovered from the mixture')
        S.eq(A(S, [lib.mean(lib.rows(y if last else y[:-1]))]),
             S.zeros((1, kk)), 'zero mean')
        if kk == 2:
            S.eq(node.inverse(y), X, 'inverse restores the data')
        S.eq(node.execute(X, n=1), y[:, :1], 'first n components')
        t = S.int('T', 1, 9)
        import math
        eta = node.get_eta_values(t=t)
        for i in range(kk):
            e = eta[i] * (2 * math.pi) / t
            S.eq(e * e, delta[i] if S.sym else float(delta[i]), 'eta values')
        S.reach('end')
    return f


def fda_h(outs, lab):
    def f(S):
        import mdp
        import numpy
        cols = [(1, 1, 0, -1, -1), (1, -1, 0, 1, -1)]
        T = 5
        U = S.const([[float(c[t]) for c in cols] for t in range(T)])
        w = [S.square('w%d' % i, lo=1, hi=20) for i in range(2)]
        s = [S.np.sqrt(x) for x in w]
        S.assume(s[0] < s[1])
        R, Q = S.rotation('t'), S.rotation('u')
        m = S.array('m', (1, 2))
        D, W = S.zeros((2, 2)), S.zeros((2,))
        for i in range(2):
            D[i, i] = s[i]
            W[i] = w[i]
        X = S.np.dot(S.np.dot(S.np.dot(U, Q), D), R.T) + m
        S.known_eigh(S.np.dot(R * W, R.T), W, R)
        within = []
        for c in cols:
            tot = Fraction(0)
            for l in set(lab):
                v = [Fraction(c[t]) for t in range(T) if lab[t] == l]
                mu = sum(v) / len(v)
                tot += sum((x - mu) ** 2 for x in v)
            within.append(tot)
        order = [0, 1] if within[0] < within[1] else [1, 0]
        dd = S.const([float(within[o]) for o in order])
        Qo = Q.T[:, order]
        S.known_eigh(S.np.dot(Qo * dd, Qo.T), dd, Qo)
        k = S.choose('output_dim', outs)
        node = mdp.nodes.FDANode(output_dim=k)
        per_class = S.choose('presentation', ['mixed', 'classwise'])
        for ph in range(2):
            if per_class == 'mixed':
                node.train(X, numpy.array(lab))
            else:
                for l in sorted(set(lab)):
                    idx = [t for t in range(T) if lab[t] == l]
                    node.train(X[idx], l)
            node.stop_training()
        kk = k or 2
        y = node.execute(X)
        S.check(tuple(y.shape) == (T, kk), 'shape')
        for i in range(kk):
            upto_sign(S, y[:, i], [U[t, order[i]] for t in range(T)],
                      'the most discriminating direction comes first')
        c = lib.cov(lib.rows(y))
        for i in range(kk):
            for j in range(kk):
                S.eq(c[i][j], int(i == j), 'unit total variance, '
                     'decorrelated')
        if kk == 2:
            S.eq(node.inverse(y), X, 'inverse restores the data')
        S.eq(node.execute(X, n=1), y[:, :1], 'first n components')
        for l in set(lab):
            idx = [t for t in range(T) if lab[t] == l]
            S.check(node.tlens[l] == len(idx), 'observations per class')
            S.eq(node.means[l], A(S, [lib.mean(lib.rows(X[idx]))]),
                 'class means')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for cls in ('PCANode', 'WhiteningNode'):
        for svd in (False, True):
            hs.append(H('%s/2/svd%d' % (cls, svd),
                        pca_h(2, cls, [None, 1, 2], svd), reach=['end']))
        if not q:
            hs.append(H('%s/3' % cls, pca_h(3, cls, [None, 1, 2], False),
                        reach=['end'], budget_s=700))
        hs.append(H('%s/reduce' % cls, pca_reduce_h(cls),
                    reach=['none', 'kept1', 'kept3']))
    hs.append(H('PCANode/fraction', pca_var_h('PCANode'), reach=['1', '2']))
    for cls in ('PCANode', 'WhiteningNode'):
        hs.append(H(cls + '/rounding', pca_rounding_h(cls), reach=['end']))
    hs.append(H('PCANode/negative', pca_negative_h(), reach=['neg', 'pos']))
    hs.append(H('SFANode', sfa_h('SFANode', [None, 1, 2]), reach=['end'],
                weight=3))
    hs.append(H('SFANode/nolast', sfa_h('SFANode', [None, 1], last=False),
                reach=['end'], weight=3))
    hs.append(H('FDANode/2', fda_h([None, 1, 2], (0, 0, 1, 1, 1)),
                reach=['end'], weight=3))
    return hs
