"""C34: independent component analysis nodes: whitening, then a rotation."""
from symx import lib
from checks import c27_spectral as c27

BOUNDS = ('5 observations of 1 to 3 variables that are reference signals with '
          'any scales and offsets, rotated (any data if they are declared to '
          'be white), up to 3 chunks, any rotation found by the algorithm; '
          'telescope mode with up to 35 (70) observations')
ASSUMPTIONS = ['LAPACK eigensolvers return an orthonormal eigenbasis in '
               'ascending order of the eigenvalues; the sign of an '
               'eigenvector is arbitrary']


def H(name, fn, **o):
    o.setdefault('compare', False)
    o.setdefault('guess', True)
    return (name, fn, o)


def node_class(S, filters, conv, seen):
    import mdp

    class Node(mdp.nodes.ICANode):
        def core(self, data):
            seen.append(data.copy())
            self.filters = filters
            return conv[len(seen) - 1] if isinstance(conv, list) else conv
    return Node


def pieces(S, X):
    n = len(X)
    return S.choose('chunks', [[X], [X[:2], X[2:]], [X[:3], X[3:4], X[4:]]]
                    if n == 5 else [[X], [X[:1], X[1:]]])


def white_h(n, comps, svd):
    """data are whitened, as many components as wanted are kept"""
    def f(S):
        import mdp
        U, w, s, R, m, X = c27.mixture(S, c27.W3[:n], fixed={
            1: False, 2: [[0.6, -0.8], [0.8, 0.6]], 3: True}[n])
        X0 = X.copy()
        k = S.choose('white_comp', comps)
        kk = k or n
        F = c27.rot(S, kk, 'f')
        conv = S.real('convergence')
        seen = []
        kw = {}
        if svd:
            kw['white_parm'] = {'svd': True}
        if k:
            kw['white_comp'] = k
        bad = node_class(S, F, conv, seen)(white_parm={'unknown': 1})
        bad.train(X)
        S.must_raise(TypeError, 'parameters for whitening',
                     bad.stop_training)
        S.check(not seen, 'the algorithm did not run')
        node = node_class(S, F, conv, seen)(**kw)
        for c in pieces(S, X):
            node.train(c)
        if S.choose('stop', [0, 1]):
            node.stop_training()
        y = node.execute(X)
        S.eq(X, X0, 'data unchanged')
        S.check(len(seen) == 1, 'the algorithm runs once')
        S.check(not node.is_training() and node.output_dim == kk and
                node.input_dim == n, 'dimensions')
        d = seen[0]
        S.check(tuple(d.shape) == (5, kk), 'shape of the white data')
        for i in range(kk):
            c27.upto_sign(S, d[:, i], U[:, n - 1 - i],
                          'the algorithm gets all data, whitened')
        S.eq(node.convergence, conv, 'convergence')
        S.eq(y, S.np.dot(d, F), 'white data, rotated')
        c = c27.cov_of(S, y)
        for i in range(kk):
            for j in range(kk):
                S.eq(c[i][j], 1 if i == j else 0, 'unit covariance')
        P, B = node.get_projmatrix(), node.get_recmatrix()
        S.eq(S.np.dot(X - m, P), y, 'projection matrix')
        S.eq(node.get_projmatrix(transposed=0), P.T, 'transposed')
        S.eq(node.get_recmatrix(transposed=0), B.T, 'transposed')
        S.eq(node.get_projmatrix(1), P, 'transposed')
        S.eq(node.get_recmatrix(1), B, 'transposed')
        z = S.array('z', (2, kk))
        z0 = z.copy()
        back = node.inverse(z)
        S.eq(z, z0, 'argument unchanged')
        S.eq(back, S.np.dot(z, B) + m, 'reconstruction matrix')
        S.eq(S.np.dot(B, P), S.np.eye(kk), 'execute undoes inverse')
        x2 = node.inverse(y)
        if kk == n:
            S.eq(x2, X, 'inverse restores the data')
        else:
            for t in range(5):
                for a in range(n):
                    S.eq(x2[t, a], m[0, a] + lib.ssum(
                        U[t, i] * s[i] * R[a, i] for i in range(n - kk, n)),
                        'the components left out are missing')
        S.check(len(seen) == 1, 'the algorithm runs once')
        S.reach('end')
    return f


def given_h(n, T):
    """data that are white are only rotated"""
    def f(S):
        X = S.array('x', (T, n))
        X0 = X.copy()
        F = c27.rot(S, n, 'f')
        conv = S.real('convergence')
        seen = []
        node = node_class(S, F, conv, seen)(
            whitened=True, **S.choose('kw', [
                {}, {'input_dim': n}, {'white_comp': 1}]))
        for c in pieces(S, X):
            node.train(c)
        # the first of these ends training
        what = S.choose('first', ['stop', 'execute', 'inverse', 'proj', 'rec'])
        y = S.array('y', (2, n))
        if what == 'stop':
            node.stop_training()
        elif what == 'execute':
            node.execute(y)
        elif what == 'inverse':
            node.inverse(y)
        elif what == 'proj':
            node.get_projmatrix()
        else:
            node.get_recmatrix()
        S.check(len(seen) == 1, 'the algorithm runs once')
        S.eq(seen[0], X0, 'the algorithm gets all data')
        S.eq(X, X0, 'data unchanged')
        S.check(node.output_dim == n and not node.is_training(), 'trained')
        S.eq(node.convergence, conv, 'convergence')
        S.eq(node.execute(y), S.np.dot(y, F), 'rotated')
        S.eq(node.inverse(y), S.np.dot(y, F.T), 'rotated back')
        S.eq(node.get_projmatrix(), F, 'projection matrix')
        S.eq(node.get_projmatrix(0), F.T, 'projection matrix')
        S.eq(node.get_recmatrix(), F.T, 'reconstruction matrix')
        S.eq(node.get_recmatrix(0), F, 'reconstruction matrix')
        S.check(len(seen) == 1, 'the algorithm runs once')
        S.reach('end')
    return f


def telescope_h(T):
    """growing parts of the data until convergence"""
    def f(S):
        X = S.array('x', (T, 1))
        F = S.const([[1.]])
        conv = [S.real('c%d' % i, lo=0) for i in range(4)]
        limit = S.real('limit', lo=0)
        seen = []
        node = node_class(S, F, conv, seen)(limit=limit, telescope=True,
                                            whitened=True)
        node.train(X)
        node.stop_training()
        size, k = 16, 0
        while True:
            if size > T:
                # (too few data for a part)
                S.check(k > 0 or len(seen) == 1, 'run')
                if k == 0:
                    S.eq(seen[0], X, 'all data')
                    k = 1
                break
            S.check(len(seen) > k, 'a further part')
            S.eq(seen[k], X[:size], 'the beginning of the data')
            k += 1
            if bool(conv[k - 1] <= limit):
                S.reach('converged')
                break
            size *= 2
        S.check(len(seen) == k, 'no part after convergence')
        S.eq(node.convergence, conv[k - 1], 'convergence')
        y = S.array('y', (1, 1))
        S.eq(node.execute(y), y, 'rotated')
        S.reach('end')
    return f


def harnesses(tier):
    quick = tier == 'quick'
    R = ['end']
    hs = []
    for svd in (0, 1):
        hs.append(H('white/1/%d' % svd, white_h(1, [None, 1], svd), reach=R))
        hs.append(H('white/2/%d' % svd, white_h(2, [None, 1, 2], svd),
                    reach=R))
    hs.append(H('white/3', white_h(3, [1, 2], False), reach=R))
    for n, T in ((1, 2), (2, 2), (2, 5), (3, 2)):
        hs.append(H('given/%d/%d' % (n, T), given_h(n, T), reach=R))
    for T in (3, 15, 16, 31, 32, 35) + (() if quick else (63, 64, 70)):
        hs.append(H('telescope/%d' % T, telescope_h(T), reach=R))
    return hs
