"""C26: linear regression, factor analysis and Boltzmann machines."""
from fractions import Fraction
from symx import lib

BOUNDS = ('regression: 2-4 observations of 1-2 variables (3 unknowns), 1-2 '
          'targets, every chunking; factor analysis: 1-2 EM cycles, 1-2 '
          'variables; Boltzmann machines: 1-2 observations, 2 visible, 1-2 '
          'hidden units, 1-2 labels, 1-2 updates, all data, parameters and '
          'random draws')
ASSUMPTIONS = ['exp and log are uninterpreted functions (with sign and '
               'monotonicity at 0)']


def H(name, fn, **o):
    return (name, fn, o)


def dot(a, b):
    return [[lib.ssum(r[k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for r in a]


def tr(a):
    return [list(r) for r in zip(*a)]


def grid(a):
    return [[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])]


# ------------------------------------------------------------- regression

def regression_h(T, d, o, bias, pinv=False):
    def f(S):
        import mdp
        x, y = S.array('x', (T, d)), S.array('y', (T, o))
        full = grid(x)
        if bias:
            full = [[S.const(1.0)] + r for r in full]
        n = d + bool(bias)
        G = dot(tr(full), full)
        det = G[0][0] if n == 1 else (
            G[0][0] * G[1][1] - G[0][1] * G[1][0] if n == 2 else
            lib.ssum((G[0][i] * (G[1][(i + 1) % 3] * G[2][(i + 2) % 3] -
                                 G[1][(i + 2) % 3] * G[2][(i + 1) % 3]))
                     for i in range(3)))
        S.assume(det > Fraction(1, 100))
        node = mdp.nodes.LinearRegressionNode(with_bias=bias, use_pinv=pinv) \
            if S.choose('args', [True, False]) or not bias or pinv else \
            mdp.nodes.LinearRegressionNode()
        cut = S.choose('cut', list(range(1, T + 1)))
        x0, y0 = x.copy(), y.copy()
        for lo, hi in ((0, cut), (cut, T)):
            if lo < hi:
                node.train(x[lo:hi], y[lo:hi])
        S.must_raise(mdp.TrainingException, 'as many targets as data',
                     node.train, x, S.np.concatenate([y, y]))
        S.must_raise(mdp.NodeException, 'dimension of the targets',
                     node.train, x, S.zeros((T, o + 1)))
        node.stop_training()
        S.eq(x, x0, 'data unchanged')
        S.eq(y, y0, 'targets unchanged')
        S.check(node.input_dim == d and node.output_dim == o and
                not node.is_invertible(), 'dimensions')
        S.check(tuple(node.beta.shape) == (n, o), 'shape of beta')
        b = grid(node.beta)
        # normal equations
        GB, R = dot(G, b), dot(tr(full), grid(y))
        for i in range(n):
            for j in range(o):
                S.eq(GB[i][j], R[i][j], 'the residuals are orthogonal to the '
                     'data')
        z = S.array('z', (2, d))
        zf = grid(z)
        if bias:
            zf = [[S.const(1.0)] + r for r in zf]
        out = node.execute(z)
        want = dot(zf, b)
        S.check(tuple(out.shape) == (2, o), 'shape of the prediction')
        for t in range(2):
            for j in range(o):
                S.eq(out[t, j], want[t][j], 'prediction')
        S.must_raise(mdp.TrainingFinishedException, 'training is over',
                     node.train, x, y)
        S.reach('end')
    return f


def regression_exact_h(d, bias):
    """targets that are an affine function of the data are reproduced"""
    def f(S):
        import mdp
        X = S.const([[1, 2], [0, 1], [-1, 3], [2, -2]])[:, :d]
        W = S.array('w', (d, 1))
        c = S.real('c') if bias else 0
        Y = S.np.dot(X, W) + c
        node = mdp.nodes.LinearRegressionNode(bias)
        node.train(X, Y)
        z = S.array('z', (1, d))
        S.eq(node.execute(z), S.np.dot(z, W) + c, 'the function is found')
        if bias:
            S.eq(node.beta[0, 0], c, 'the constant comes first')
        S.eq(node.beta[int(bias):], W, 'then the weights')
        S.reach('end')
    return f


def regression_singular_h():
    """redundant data: refused, or the minimal solution with use_pinv"""
    def f(S):
        import mdp
        import symx.arr
        u = S.array('u', (3, 1))
        y = S.array('y', (3, 1))
        s = lib.ssum(u[t, 0] * u[t, 0] for t in range(3))
        S.assume(s > Fraction(1, 10))
        S.assume(s < 100)
        how = S.choose('how', ['copy', 'zero'])
        k = 1 if how == 'copy' else 0
        x = S.np.concatenate([u, k * u], axis=1)
        node = mdp.nodes.LinearRegressionNode(False, use_pinv=True)
        node.train(x, y)
        if S.sym:
            P = S.const([[1, k], [k, k]]) / (s * (1 + k) * (1 + k))
            symx.arr.known_result('pinv', S.np.dot(x.T, x), P)
        node.stop_training()
        b = lib.ssum(u[t, 0] * y[t, 0] for t in range(3)) / s
        S.eq(node.beta[0, 0], b / (1 + k), 'minimal solution')
        S.eq(node.beta[1, 0], k * b / (1 + k), 'minimal solution')
        X = S.const([[1, 1], [2, 2], [3, 3]])
        for bias, Z in ((False, X), (True, X), (True, S.const([[2], [2]]))):
            node = mdp.nodes.LinearRegressionNode(bias)
            node.train(Z, Z[:, :1])
            S.must_raise(mdp.NodeException, 'redundant data are refused',
                         node.stop_training)
        S.reach('end')
    return f


# -------------------------------------------------------- factor analysis

def inverse(S, m):
    return grid(S.np.linalg.inv(S.np.array(m)))


def plus(a, b, s=1):
    return [[x + s * y for x, y in zip(p, q)] for p, q in zip(a, b)]


def diag(v):
    return [[v[i] if i == j else 0 for j in range(len(v))]
            for i in range(len(v))]


def em_cycle(S, A, sg, C):
    """one cycle; matrices as nested lists, d = 1 or 2"""
    d, k = len(A), len(A[0])
    B = plus(dot(A, tr(A)), diag(sg))
    det = B[0][0] if d == 1 else B[0][0] * B[1][1] - B[0][1] * B[1][0]
    Bi = inverse(S, B)
    beta = dot(tr(A), Bi)
    bC = dot(beta, C)
    E = plus(plus(diag([1] * k), dot(beta, A), -1), dot(bC, tr(beta)))
    A1 = dot(tr(bC), inverse(S, E))
    AbC = dot(A1, bC)
    s1 = [C[i][i] - AbC[i][i] for i in range(d)]
    trace = lib.ssum(Bi[i][j] * C[j][i] for i in range(d) for j in range(d))
    return A1, s1, det, trace


def fa_h(d, k, cycles, data=True, tol=None):
    def f(S):
        import math
        import mdp
        T = 4
        if data:
            X = S.const([[2, 3], [2, -1], [-2, 1], [-2, -3]])[:, :d] + \
                S.const([[3, -7]])[:, :d]
        else:
            X = S.array('x', (T, d))
        mu = [lib.ssum(X[t, i] for t in range(T)) / T for i in range(d)]
        if data:
            C = [[4, 2], [2, 5]]
            C = [r[:d] for r in C[:d]]
        else:
            C = [[lib.ssum((X[t, i] - mu[i]) * (X[t, j] - mu[j])
                           for t in range(T)) / T for j in range(d)]
                 for i in range(d)]
            S.assume((C[0][0] if d == 1 else C[0][0] * C[1][1] -
                      C[0][1] * C[1][0]) > 0)
        kw = {} if tol is None else dict(tol=S.real('tol', 0, 1))
        node = mdp.nodes.FANode(max_cycles=cycles, output_dim=k, **kw)
        tol_ = kw.get('tol', Fraction(1, 10000))
        cut = S.choose('cut', [2, 4]) if data else 4
        node.train(X[:cut])
        if cut < 4:
            node.train(X[cut:])
        S.draws = []
        node.stop_training()
        S.check(len(S.draws) == 1 and S.draws[0][0] == 'g', 'one random '
                'matrix')
        g = S.draws[0][1]
        S.check(tuple(g.shape) == (d, k), 'shape of the random matrix')
        if data:
            # det(C) ** (1 / d)
            scale = S.np.sqrt(S.const(4.0 / k))
        else:
            det = C[0][0] if d == 1 else S.np.sqrt(
                C[0][0] * C[1][1] - C[0][1] * C[1][0])
            scale = S.np.sqrt(det / k)
        A = [[g[i, j] * scale for j in range(k)] for i in range(d)]
        sg = [C[i][i] for i in range(d)]
        const = -d / 2. * math.log(2 * math.pi)
        lh = []
        for c in range(cycles):
            A, sg, dB, trace = em_cycle(S, A, sg, C)
            l = const - 0.5 * S.np.log(abs(dB)) - 0.5 * trace
            if lh and bool(l - lh[0] < (1 + tol_) * (lh[-1] - lh[0])):
                break
            lh.append(l)
        for i in range(d):
            for j in range(k):
                S.eq(node.A[i, j], A[i][j], 'loadings')
            S.eq(node.sigma[i], sg[i], 'noise variances')
            S.eq(node.mu[0, i], mu[i], 'mean')
        S.check(len(node.lhood) == len(lh), 'cycles')
        for a, b in zip(node.lhood, lh):
            S.eq(a, b, 'log-likelihood')
        S.check(node.tlen == T, 'observations')
        z = S.array('z', (2, d))
        y = node.execute(z)
        # posterior mean of the factors
        N = inverse(S, plus(dot(A, tr(A)), diag(sg)))
        E = dot(N, A)
        for t in range(2):
            for j in range(k):
                S.eq(y[t, j], lib.ssum((z[t, i] - mu[i]) * E[i][j]
                                       for i in range(d)), 'factors')
        S.reach('end')
    return f


def fa_generate_h():
    def f(S):
        import mdp
        X = S.const([[1, 2], [0, -1], [4, 1]])
        node = mdp.nodes.FANode(max_cycles=1, output_dim=1)
        S.must_raise(mdp.TrainingException, 'not trained',
                     node.generate_input, 1)
        node.train(X)
        node.stop_training()
        # the generating model for any parameters
        A, mu = S.array('A', (2, 1)), S.array('mu', (1, 2))
        r = S.array('r', (2,), lo=Fraction(1, 100), hi=100)
        node.A, node.mu, node.sigma = A, mu, r
        S.draws = []
        noise = S.choose('noise', [False, True])
        if S.choose('what', ['len', 'y']) == 'len':
            n = S.choose('n', [1, 3])
            out = node.generate_input(n, noise)
            y = S.draws[0][1]
            S.check(tuple(y.shape) == (n, 1), 'one factor per sample')
            used = 1
        else:
            n = 2
            y = S.array('y', (n, 1))
            out = node.generate_input(y, noise=noise)
            used = 0
            S.must_raise(mdp.NodeException, 'dimension of the factors',
                         node.generate_input, S.zeros((1, 2)))
        S.check(tuple(out.shape) == (n, 2), 'shape')
        S.check(len(S.draws) == used + noise, 'random draws')
        for t in range(n):
            for i in range(2):
                want = y[t, 0] * A[i, 0] + mu[0, i]
                if noise:
                    want = want + S.draws[-1][1][t, i] * S.np.sqrt(r[i])
                S.eq(out[t, i], want, 'generated data')
        S.check(not node.is_invertible(), 'inverse')
        S.reach('end')
    return f


def fa_singular_h():
    def f(S):
        import mdp
        X = S.const([[1, 2], [2, 4], [3, 6]])
        if S.choose('constant', [False, True]):
            X = S.const([[1, 2], [2, 2], [3, 2]])
        node = mdp.nodes.FANode(output_dim=1)
        node.train(X)
        S.must_raise(mdp.NodeException, 'singular covariance is refused',
                     node.stop_training)
        S.reach('end')
    return f


# ------------------------------------------------------ Boltzmann machines

def sig(S, a):
    return 1 / (1 + S.np.exp(-a))


def probs_h(S, w, bh, v):
    """P(h = 1 | v)"""
    return [[sig(S, bh[j] + lib.ssum(r[i] * w[i][j] for i in range(len(r))))
             for j in range(len(bh))] for r in v]


def probs_v(S, w, bv, h):
    return [[sig(S, bv[i] + lib.ssum(r[j] * w[i][j] for j in range(len(r))))
             for i in range(len(bv))] for r in h]


def bits(S, p, u):
    """samples; decided on this path"""
    return [[1 if bool(p[t][i] > u[t, i]) else 0 for i in range(len(p[t]))]
            for t in range(len(p))]


def plain_float(S):
    '''float() keeps symbolic values'''
    if S.sym:
        import sys
        S.patch(sys.modules['mdp.nodes.rbm_nodes'], 'float',
                lambda x: x if not isinstance(x, (int, str)) else float(x))


def fix_draws(S, n):
    '''in the first n samples every unit is on (fewer paths)'''
    import sys
    m = sys.modules['mdp.nodes.rbm_nodes']
    old, left = m.random, [n]

    def random(shape):
        if not left[0]:
            return old(shape)
        left[0] -= 1
        u = S.zeros(shape) - 1
        S.draws.append(('u', u))
        return u
    if n:
        S.patch(m, 'random', random)


def first(S, node, *a):
    '''initialise the node'''
    import sys
    plain_float(S)
    m = sys.modules['mdp.nodes.rbm_nodes']
    old = m.random
    m.random = lambda shape: S.zeros(shape) - 1
    try:
        node.train(*a)
    finally:
        m.random = old


def by_shape(S, draws, shape):
    c = [d for k, d in draws if k == 'g' and tuple(d.shape) == shape]
    S.check(len(c) == 1, 'random initial values')
    return c[0]


def rbm_train_h(T, d, k, updates=1, steps=1, **opts):
    def f(S):
        import mdp
        node = mdp.nodes.RBMNode(k, d if S.choose('dim', [True, False])
                                 else None)
        plain_float(S)
        v = S.array('v', (T, d))
        S.draws = []
        eps = S.real('eps') if opts.get('eps') else Fraction(1, 10)
        mom = S.real('momentum') if opts.get('mom') else 0
        dec = S.real('decay') if opts.get('dec') else 0
        ph = opts.get('ph', True)
        kw = {}
        if opts.get('eps'):
            kw['epsilon'] = eps
        if opts.get('mom'):
            kw['momentum'] = mom
        if opts.get('dec'):
            kw['decay'] = dec
        if not ph:
            kw['update_with_ph'] = False
        if updates != 1:
            kw['n_updates'] = updates
        v0 = v.copy()
        w = None
        fix_draws(S, opts.get('fixed', 0))
        dw = dbv = dbh = None
        for step in range(steps):
            S.draws = []
            node.train(v, **kw)
            if w is None:
                w0, bv0, bh0 = (by_shape(S, S.draws, s)
                                for s in ((d, k), (d,), (k,)))
                tenth = Fraction(1, 10)
                w = [[w0[i, j] * tenth for j in range(k)] for i in range(d)]
                bv = [bv0[i] * tenth for i in range(d)]
                bh = [bh0[j] * tenth for j in range(k)]
            us = [u for kk, u in S.draws if kk == 'u']
            S.check(len(us) == 1 + 2 * updates, 'samples drawn')
            data = grid(v)
            p0 = probs_h(S, w, bh, data)
            h = h0 = bits(S, p0, us[0])
            for i in range(updates):
                pv = probs_v(S, w, bv, h)
                vm = bits(S, pv, us[1 + 2 * i])
                pm = probs_h(S, w, bh, vm)
                h = bits(S, pm, us[2 + 2 * i])
            a, b = dot(tr(data), p0), dot(tr(vm), pm)
            z = lambda q: 0 if q is None else mom * q
            ndw = [[z(dw and dw[i][j]) + eps * ((a[i][j] - b[i][j]) / T -
                                                dec * w[i][j])
                    for j in range(k)] for i in range(d)]
            ndv = [z(dbv and dbv[i]) + eps * lib.ssum(
                data[t][i] - vm[t][i] for t in range(T)) / T
                for i in range(d)]
            x, y = (p0, pm) if ph else (h0, h)
            ndh = [z(dbh and dbh[j]) + eps * lib.ssum(
                x[t][j] - y[t][j] for t in range(T)) / T for j in range(k)]
            dw, dbv, dbh = ndw, ndv, ndh
            w = [[w[i][j] + dw[i][j] for j in range(k)] for i in range(d)]
            bv = [bv[i] + dbv[i] for i in range(d)]
            bh = [bh[j] + dbh[j] for j in range(k)]
            S.eq(v, v0, 'data unchanged')
            for i in range(d):
                for j in range(k):
                    S.eq(node.w[i, j], w[i][j], 'weights')
                S.eq(node.bv[i], bv[i], 'visible biases')
            for j in range(k):
                S.eq(node.bh[j], bh[j], 'hidden biases')
            err = lib.ssum((data[t][i] - vm[t][i]) * (data[t][i] - vm[t][i])
                           for t in range(T) for i in range(d))
            S.eq(node._train_err, err, 'reconstruction error')
        S.check(node.input_dim == d and node.output_dim == k, 'dimensions')
        S.reach('end')
    return f


def rbm_use_h(T, d, k):
    """sampling, execution and energy for any parameters"""
    def f(S):
        import mdp
        node = mdp.nodes.RBMNode(k, d)
        first(S, node, S.zeros((1, d)))
        node.stop_training()
        w, bv, bh = S.array('w', (d, k)), S.array('bv', (d,)), S.array(
            'bh', (k,))
        node.w, node.bv, node.bh = w, bv, bh
        v, h = S.array('v', (T, d)), S.array('h', (T, k))
        W = grid(w)
        p = probs_h(S, W, list(bh), grid(v))
        q = probs_v(S, W, list(bv), grid(h))
        what = S.choose('what', ['sample_h', 'sample_v', 'probs', 'sample',
                                 'energy'])
        S.draws = []
        if what == 'sample_h':
            a, b = node.sample_h(v)
            want = p
        elif what == 'sample_v':
            a, b = node.sample_v(h)
            want = q
        elif what == 'probs':
            a, b = node.execute(v), None
            want = p
        elif what == 'sample':
            a, b = None, node.execute(v, return_probs=False)
            want = p
        else:
            e = node.energy(v, h)
            S.check(tuple(e.shape) == (T,), 'shape of the energy')
            for t in range(T):
                S.eq(e[t], -lib.ssum(v[t, i] * bv[i] for i in range(d)) -
                     lib.ssum(h[t, j] * bh[j] for j in range(k)) -
                     lib.ssum(v[t, i] * w[i, j] * h[t, j] for i in range(d)
                              for j in range(k)), 'energy')
            S.reach('end')
            return
        m = len(want[0])
        for x in (a, b):
            S.check(x is None or tuple(x.shape) == (T, m), 'shape')
        u = [q for kk, q in S.draws if kk == 'u']
        for t in range(T):
            for i in range(m):
                if a is not None:
                    S.eq(a[t, i], want[t][i], 'probabilities')
                if b is not None:
                    S.eq(b[t, i], S.np.where(want[t][i] > u[-1][t, i], 1, 0),
                         'a unit is on with its probability')
        S.must_raise(mdp.NodeException, 'dimension', node.sample_h,
                     S.zeros((1, d + 1)))
        S.must_raise(mdp.NodeException, 'dimension', node.sample_v,
                     S.zeros((1, k + 1)))
        S.must_raise(mdp.TrainingFinishedException, 'training is over',
                     node.train, v)
        S.check(not node.is_invertible(), 'inverse')
        S.reach('end')
    return f


def softmax(S, al):
    """labels: 1-of-n probabilities, normalised by the largest entry"""
    m = al[0]
    for a in al[1:]:
        if bool(a > m):
            m = a
    e = [S.np.exp(a - m) for a in al]
    s = lib.ssum(e)
    return [x / s for x in e]


def rbml_use_h(T, d, k, L, what):
    """with labels"""
    def f(S):
        import mdp
        node = mdp.nodes.RBMWithLabelsNode(
            k, L, d if S.choose('dim', [True, False]) else None)
        first(S, node, S.zeros((1, d)), S.zeros((1, L)))
        node.stop_training()
        n = d + L
        S.check(node.input_dim == n and node.output_dim == k, 'dimensions')
        w, bv, bh = S.array('w', (n, k)), S.array('bv', (n,)), S.array(
            'bh', (k,))
        node.w, node.bv, node.bh = w, bv, bh
        v, l, h = S.array('v', (T, d)), S.array('l', (T, L)), S.array(
            'h', (T, k))
        W = grid(w)
        x = [a + b for a, b in zip(grid(v), grid(l))]
        p = probs_h(S, W, list(bh), x)
        S.draws = []
        if what == 'sample_v':
            pv, pl, sv, sl = node.sample_v(h)
            u = [q for kk, q in S.draws if kk == 'u']
            q = probs_v(S, W[:d], list(bv)[:d], grid(h))
            picked = [m for kk, m in S.draws if kk == 'm']
            S.check(len(picked) == T, 'one label is drawn per row')
            for t in range(T):
                al = [bv[d + i] + lib.ssum(h[t, j] * w[d + i, j]
                                           for j in range(k))
                      for i in range(L)]
                want = softmax(S, al)
                for i in range(L):
                    S.eq(pl[t, i], want[i], 'label probabilities')
                    S.eq(sl[t, i], int(picked[t][1] == i), 'the label drawn')
                    S.eq(picked[t][0][i], want[i], 'the label is drawn with '
                         'its probability')
                S.eq(lib.ssum(sl[t, i] for i in range(L)), 1, 'one label')
                for i in range(d):
                    S.eq(pv[t, i], q[t][i], 'probabilities')
                    S.eq(sv[t, i], S.np.where(q[t][i] > u[-1][t, i], 1, 0),
                         'a unit is on with its probability')
            S.reach('end')
            return
        if what == 'energy':
            e = node.energy(v, h, l)
            for t in range(T):
                S.eq(e[t], -lib.ssum(x[t][i] * bv[i] for i in range(n)) -
                     lib.ssum(h[t, j] * bh[j] for j in range(k)) -
                     lib.ssum(x[t][i] * w[i, j] * h[t, j] for i in range(n)
                              for j in range(k)), 'energy')
            S.reach('end')
            return
        a = b = None
        if what == 'sample_h':
            a, b = node.sample_h(v, l)
        elif what == 'probs':
            a = node.execute(v, l)
        else:
            b = node.execute(v, l, return_probs=False)
        u = [q for kk, q in S.draws if kk == 'u']
        for t in range(T):
            for j in range(k):
                if a is not None:
                    S.eq(a[t, j], p[t][j], 'probabilities')
                if b is not None:
                    S.eq(b[t, j], S.np.where(p[t][j] > u[-1][t, j], 1, 0),
                         'a unit is on with its probability')
        S.must_raise(mdp.TrainingFinishedException, 'training is over',
                     node.train, v, l)
        S.reach('end')
    return f


def rbml_train_h(d, k, L, steps=1, fixed=0, updates=1, T=1, **opts):
    """the model's labels are their probabilities"""
    def f(S):
        import mdp
        node = mdp.nodes.RBMWithLabelsNode(k, L)
        plain_float(S)
        v, l = S.array('v', (T, d)), S.array('l', (T, L))
        v0, l0 = v.copy(), l.copy()
        eps, mom, dec = Fraction(1, 10), 0, 0
        kw = {}
        if opts.get('eps'):
            eps = kw['epsilon'] = S.real('eps')
        if opts.get('mom'):
            mom = kw['momentum'] = S.real('momentum')
        if opts.get('dec'):
            dec = kw['decay'] = S.real('decay')
        if updates != 1:
            kw['n_updates'] = updates
        n = d + L
        w = dw = None
        fix_draws(S, fixed)
        for step in range(steps):
            S.draws = []
            node.train(v, l, **kw)
            if w is None:
                tenth = Fraction(1, 10)
                w0, bv0, bh0 = (by_shape(S, S.draws, s) for s in (
                    (n, k), (n,), (k,)))
                w = [[w0[i, j] * tenth for j in range(k)] for i in range(n)]
                bv = [bv0[i] * tenth for i in range(n)]
                bh = [bh0[j] * tenth for j in range(k)]
            us = [u for kk, u in S.draws if kk == 'u']
            S.check(len(us) == 1 + 2 * updates, 'samples drawn')
            data = [a + b for a, b in zip(grid(v), grid(l))]
            p0 = probs_h(S, w, bh, data)
            h = bits(S, p0, us[0])
            for u in range(updates):
                q = bits(S, probs_v(S, w[:d], bv[:d], h), us[1 + 2 * u])
                vm = [q[t] + softmax(S, [
                    bv[d + i] + lib.ssum(h[t][j] * w[d + i][j]
                                         for j in range(k))
                    for i in range(L)]) for t in range(T)]
                pm = probs_h(S, w, bh, vm)
                h = bits(S, pm, us[2 + 2 * u])
            a, b = dot(tr(data), p0), dot(tr(vm), pm)
            if dw is None:
                dw, dv, dh = [[0] * k for i in range(n)], [0] * n, [0] * k
            dw = [[mom * dw[i][j] + eps * ((a[i][j] - b[i][j]) / T -
                                           dec * w[i][j])
                   for j in range(k)] for i in range(n)]
            dv = [mom * dv[i] + eps * lib.ssum(
                data[t][i] - vm[t][i] for t in range(T)) / T
                for i in range(n)]
            dh = [mom * dh[j] + eps * lib.ssum(
                p0[t][j] - pm[t][j] for t in range(T)) / T for j in range(k)]
            w = plus(w, dw)
            bv = [x + y for x, y in zip(bv, dv)]
            bh = [x + y for x, y in zip(bh, dh)]
            S.eq(v, v0, 'data unchanged')
            S.eq(l, l0, 'labels unchanged')
            for i in range(n):
                for j in range(k):
                    S.eq(node.w[i, j], w[i][j], 'weights')
                S.eq(node.bv[i], bv[i], 'visible biases')
            for j in range(k):
                S.eq(node.bh[j], bh[j], 'hidden biases')
        S.reach('end')
    return f


# inverses: the same for the same matrix, otherwise any matrix
FA = dict(linalg_full=False, inv_stub=True, opaque_sqrt=True)


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for T, d, o, bias in ((2, 1, 1, True), (3, 1, 2, True), (3, 2, 1, False),
                          (2, 1, 1, False), (4, 1, 1, False), (4, 1, 1, True)) + (
            () if q else ((4, 2, 1, True), (4, 1, 2, True))):
        for pinv in (False, True):
            hs.append(H('regression/%d%d%d%s%s' % (
                T, d, o, '/bias' * bias, '/pinv' * pinv), regression_h(
                    T, d, o, bias, pinv), reach=['end']))
    for d in (1, 2):
        for bias in (False, True):
            hs.append(H('exact/%d%s' % (d, '/bias' * bias),
                        regression_exact_h(d, bias), reach=['end']))
    hs.append(H('regression/singular', regression_singular_h(),
                reach=['end']))
    for d, k, c, data, tol in ((1, 1, 1, 0, None), (1, 1, 2, 1, None),
                               (2, 1, 1, 1, None), (2, 2, 1, 1, None),
                               (2, 1, 2, 1, 1), (2, 1, 1, 0, None)) + (
            () if q else ((2, 2, 2, 1, 1), (2, 2, 1, 0, None),
                          (1, 1, 3, 1, 1))):
        hs.append(H('fa/%d%d/%dcycles%s' % (d, k, c, '' if data else '/data'),
                    fa_h(d, k, c, data, tol), reach=['end'], **FA))
    hs.append(H('fa/generate', fa_generate_h(), reach=['end'],
                **FA))
    hs.append(H('fa/singular', fa_singular_h(), reach=['end']))
    hs.append(H('rbm/train', rbm_train_h(1, 2, 1, eps=1, dec=1),
                reach=['end'],
                opaque_exp=True, fork_bool_cast=True, guesses=100))
    hs.append(H('rbm/train/2rows', rbm_train_h(2, 2, 1, fixed=1),
                reach=['end'], opaque_exp=True, fork_bool_cast=True,
                guesses=100))
    hs.append(H('rbm/train/samples', rbm_train_h(1, 2, 1, ph=False, eps=1),
                reach=['end'],
                opaque_exp=True, fork_bool_cast=True, guesses=100))
    hs.append(H('rbm/train/momentum', rbm_train_h(
        1, 2, 1, steps=2, mom=1, dec=1,
        fixed=3), reach=['end'],
                opaque_exp=True, fork_bool_cast=True, guesses=100))
    hs.append(H('rbm/train/updates/samples', rbm_train_h(
        1, 2, 1, updates=2, ph=False), reach=['end'], opaque_exp=True,
        fork_bool_cast=True, guesses=100))
    hs.append(H('rbm/train/updates', rbm_train_h(1, 2, 1, updates=2),
                reach=['end'],
                opaque_exp=True, fork_bool_cast=True, guesses=100))
    hs.append(H('rbm/use', rbm_use_h(2, 2, 1), reach=['end'],
                opaque_exp=True, guesses=100))
    hs.append(H('rbm/use/2', rbm_use_h(1, 2, 2), reach=['end'],
                opaque_exp=True, guesses=100))
    for what in ('sample_h', 'sample_v', 'probs', 'sample', 'energy'):
        hs.append(H('labels/' + what, rbml_use_h(1, 2, 1, 2, what),
                    reach=['end'], opaque_exp=True, guesses=100))
    LT = dict(reach=['end'], opaque_exp=True, fork_bool_cast=True,
              guesses=100)
    hs.append(H('labels/train', rbml_train_h(2, 2, 2, eps=1, dec=1), **LT))
    hs.append(H('labels/momentum', rbml_train_h(
        1, 1, 2, 2, 2, dec=1, mom=1), **LT))
    hs.append(H('labels/updates', rbml_train_h(1, 1, 2, updates=2), **LT))
    hs.append(H('labels/2rows', rbml_train_h(1, 1, 2, T=2, fixed=1), **LT))
    return hs
