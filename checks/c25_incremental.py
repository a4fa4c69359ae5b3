"""C25: incremental learners follow their update rules."""
from symx import lib

BOUNDS = ('up to 4 samples of 1-2 variables in every arrangement of calls, '
          'all data, parameters and initial vectors; amnesic parameters with '
          'section limits inside and outside the range of the samples')
ASSUMPTIONS = ['initial vectors, and the vectors met on the way, are not zero']


ALL = ['ctor', 'set', 'rng']


def H(name, fn, **o):
    return (name, fn, dict(dict(reach=['end']), **o))


def feed(S, node, x, sizes, **k):
    t = 0
    for s in sizes:
        node.train(x[t:t + s], **k)
        t += s


def arrangements(T):
    out = []

    def rec(left, pre):
        if not left:
            out.append(pre)
        for s in range(1, left + 1):
            rec(left - s, pre + [s])
    rec(T, [])
    return out


def center_h(T, n):
    def f(S):
        import mdp
        mode = S.choose('avg_n', [None, 'sym'])
        a = None
        if mode:
            a = S.real('avg_n')
            S.assume(a > 0)
        node = mdp.nodes.OnlineCenteringNode(avg_n=a)
        S.must_raise(mdp.OnlineNodeException, 'only incremental',
                     node.set_training_type, 'batch')
        x = S.array('x', (T, n))
        x0 = x.copy()
        sizes = S.choose('sizes', arrangements(T))
        feed(S, node, x, sizes)
        avg = x0[0]
        if mode:
            for t in range(1, T):
                al = 2 / (a + 1)
                avg = (1 - al) * avg + al * x0[t]
        else:
            avg = sum(x0[t] for t in range(1, T)) / T + x0[0] / T
        S.eq(node.get_average().reshape(-1), avg, 'average')
        S.eq(x, x0, 'data unchanged')
        z = S.array('z', (2, n))
        if T > 1:
            S.eq(node.execute(z), z - avg, 'execute')
            S.eq(node.inverse(z), z + avg, 'inverse')
        else:
            # nothing is subtracted before the second sample
            S.eq(node.execute(z), z, 'execute')
            S.eq(node.inverse(z), z, 'inverse')
        S.eq(node.get_average().reshape(-1), avg, 'average')
        node.stop_training()
        S.must_raise(mdp.TrainingFinishedException, 'stopped', node.train, z)
        S.reach('end')
    return f


def diff_h(T, n):
    def f(S):
        import mdp
        node = mdp.nodes.OnlineTimeDiffNode()
        x = S.array('x', (T, n))
        x0 = x.copy()
        typ = S.choose('type', ['incremental', 'batch'])
        node.set_training_type(typ)
        sizes = S.choose('sizes', arrangements(T))
        t = 0
        for s in sizes:
            c = x[t:t + s].copy()
            node.train(c)
            c[:] = S.array('junk%d' % t, (s, n))
            t += s
            prev = x0[t - 2] if t > 1 else S.zeros((n,))
            S.eq(node.execute(x0[t - 1:t]), (x0[t - 1] - prev)[None, :],
                 'difference to the sample before')
        if T > 1:
            z = S.array('z', (2, n))
            y = node.execute(z)
            S.eq(y[1], z[1] - z[0], 'differences within the data')
            S.eq(y[0], z[0] - x0[T - 2], 'first difference')
            # the last two samples
            S.eq(node.execute(x0[T - 2:])[1], x0[T - 1] - x0[T - 2],
                 'difference')
        S.check(not node.is_invertible(), 'not invertible')
        S.reach('end')
    return f


def norm2(v):
    return sum(e * e for e in v)


def init_vectors(S, name, n, m):
    V = S.array(name, (n, m))
    for j in range(m):
        S.assume(norm2(V[:, j]) > 0)
    return V


def weights(params, t):
    """weights of the old estimate and of sample number t = 1, 2, ..."""
    n1, n2, m, c = params
    # the initial vectors count as a sample
    i = t + 2.0
    if i < n1:
        l = 0
    elif i < n2:
        l = c * (i - n1) / (n2 - n1)
    else:
        l = c + (i - n2) / m
    return (i - 1 - l) / i, (1 + l) / i


AMN = [(20, 200, 2000, 3), (3, 5, 7, 2), (4, 9, 100, 1), (2, 3, 5, 3)]


class Rng(object):
    pass


def make_rng(S, n, m):
    """a generator with symbolic numbers"""
    import numpy
    V = S.array('rnd', (n, m))

    class Sym(numpy.random.RandomState):
        def randn(self, *shape):
            S.check(tuple(shape) == (n, m), 'shape of the initial vectors')
            return V
    return Sym(1), V


def ccipca_h(white, n, m, T, amn, ways=ALL):
    def f(S):
        import mdp
        C = getattr(mdp.nodes, 'CCIPCAWhiteningNode' if white else
                    'CCIPCANode')
        how = S.choose('init', list(ways))
        var_rel = S.choose('var_rel', [1, 'sym'])
        if var_rel != 1:
            var_rel = S.real('var_rel')
            S.assume(var_rel > 0)
        V = None
        if how == 'rng':
            rng, R = make_rng(S, n, m)
            V = 0.1 * R
            for j in range(m):
                S.assume(norm2(V[:, j]) > 0)
            node = C(amn_params=amn, var_rel=var_rel, numx_rng=rng,
                     output_dim=m)
        else:
            V = init_vectors(S, 'v', n, m)
            V0 = V.copy()
            if how == 'ctor':
                node = C(amn_params=amn, var_rel=var_rel,
                         init_eigen_vectors=V)
            else:
                node = C(amn_params=amn, var_rel=var_rel)
                node.init_eigen_vectors = V
        x = S.array('x', (T, n))
        x0 = x.copy()
        feed(S, node, x, S.choose('sizes', arrangements(T)[::2 ** (T - 1) - 1 or 1]))
        S.check(node.output_dim == m and node.input_dim == n, 'dimensions')
        mul = S.np.dot
        v = [V[:, j:j + 1] for j in range(m)]
        d = [S.np.sqrt(S.np.sum(c ** 2)) for c in v]
        tot = 1.0
        for t in range(T):
            w1, w2 = weights(amn, t)
            r = x0[t:t + 1]
            new, red, flag = 0.0, m, False
            us = []
            for j in range(m):
                v[j] = w1 * v[j] + w2 * mul(r, v[j]) / d[j] * r.T
                d[j] = S.np.sqrt(S.np.sum(v[j] * v[j]))
                u = v[j] / d[j]
                r = r - mul(r, u) * u.T
                us.append(u)
                new = new + d[j]
            if t == T - 1:
                c = 0.0
                for j in range(m):
                    c = c + d[j]
                    if not flag and c / tot > var_rel:
                        red, flag = j, True
            tot = new
        S.eq(node.d, S.np.array(d), 'variances')
        U = S.np.hstack(us)
        P = U / S.np.sqrt(S.np.array(d)) if white else U
        R = P * S.np.array(d) if white else U
        S.eq(node.get_projmatrix(), P, 'projection')
        S.eq(node.get_projmatrix(0), P.T, 'projection')
        S.eq(node.get_recmatrix(), R.T, 'reconstruction')
        S.eq(node.get_recmatrix(0), R, 'reconstruction')
        if white:
            S.eq(node.get_eigenvectors(), S.np.sqrt(S.np.array(d)) * P, 'directions')
        S.eq(node.get_var_tot(), tot, 'total variance')
        S.check(node.get_reduced_dimsensionality() == red,
                'number of dimensions for the relative variance')
        if how != 'rng':
            S.eq(V, V0, 'initial vectors are not changed')
            S.eq(node.init_eigen_vectors, V0, 'initial vectors')
        S.eq(x, x0, 'data unchanged')
        z = S.array('z', (2, n))
        S.eq(node.execute(z), S.np.dot(z, P), 'execute')
        y = S.array('y', (1, m))
        S.eq(node.inverse(y), S.np.dot(y, R.T), 'inverse')
        for k in range(1, m + 1):
            S.eq(node.execute(z, n=k), S.np.dot(z, P[:, :k]), 'execute')
            S.eq(node._inverse(y[:, :k]), S.np.dot(y[:, :k], R.T[:k]),
                 'inverse')
        S.reach('end')
    return f


def mca_h(n, m, T, norm, ways=ALL):
    def f(S):
        import mdp
        eps, gamma = S.real('eps'), S.real('gamma')
        how = S.choose('init', list(ways))
        typ = S.choose('type', [None, 'batch'])
        V0 = None
        if how == 'rng':
            rng, R = make_rng(S, n, m)
            V = 0.1 * R
            for j in range(m):
                S.assume(norm2(V[:, j]) > 0)
            node = mdp.nodes.MCANode(eps=eps, gamma=gamma, normalize=norm,
                                     numx_rng=rng, output_dim=m)
        else:
            V = init_vectors(S, 'v', n, m)
            V0 = V.copy()
            if how == 'ctor':
                node = mdp.nodes.MCANode(eps=eps, gamma=gamma, normalize=norm,
                                         init_eigen_vectors=V)
            else:
                node = mdp.nodes.MCANode(eps=eps, gamma=gamma, normalize=norm)
                node.init_eigen_vectors = V
        if typ:
            node.set_training_type(typ)
        x = S.array('x', (T, n))
        x0 = x.copy()
        sizes = S.choose('sizes', arrangements(T))
        feed(S, node, x, sizes)
        mul = S.np.dot
        v = [V[:, j:j + 1] for j in range(m)]
        d = [S.np.sqrt(S.np.sum(c ** 2)) for c in v]
        t = 0
        for s in (sizes if typ else [1] * T):
            c = mul(x0[t:t + s].T, x0[t:t + s])
            t += s
            for j in range(m):
                k = eps / (1 + 1.2 * j)
                g = 1.5 - k if norm else 1.5 - k * d[j] ** 2
                w = g * v[j] - k * mul(c, v[j])
                l = mul(w.T, w)
                c = c + gamma * mul(w, w.T) / l
                d[j] = S.np.sqrt(l[0, 0])
                v[j] = w / d[j] if norm else w
        U = S.np.hstack(v)
        S.eq(node.d, S.np.array(d), 'lengths')
        S.eq(node.get_projmatrix(), U, 'vectors')
        S.eq(node.get_projmatrix(0), U.T, 'vectors')
        S.eq(node.get_recmatrix(), U.T, 'reconstruction')
        S.eq(node.get_recmatrix(0), U, 'reconstruction')
        if V0 is not None:
            S.eq(V, V0, 'initial vectors are not changed')
            S.eq(node.init_eigen_vectors, V0, 'initial vectors')
        S.eq(x, x0, 'data unchanged')
        z = S.array('z', (2, n))
        S.eq(node.execute(z), S.np.dot(z, U), 'execute')
        y = S.array('y', (1, m))
        S.eq(node.inverse(y), S.np.dot(y, U.T), 'inverse')
        for k in range(1, m + 1):
            S.eq(node.execute(z, n=k), S.np.dot(z, U[:, :k]), 'execute')
            S.eq(node._inverse(y[:, :k]), S.np.dot(y[:, :k], U.T[:k]),
                 'inverse')
        S.reach('end')
    return f


def incsfa_h(n, w, m, T, amn=AMN[1]):
    """centering, whitening, differences and minor components in a row"""
    def f(S):
        import mdp
        mean = S.choose('mean', [True, False])
        a = S.choose('avg_n', [None, 3]) if mean else None
        typ = S.choose('type', ['incremental', 'batch', 'episodes'])
        eps = 0.25
        V = init_vectors(S, 'v', n, w)
        W = init_vectors(S, 'w', w, m)
        node = mdp.nodes.IncSFANode(
            eps=eps, whitening_output_dim=w, remove_mean=mean, avg_n=a,
            amn_params=amn, init_pca_vectors=V, init_mca_vectors=W,
            output_dim=m)
        if typ == 'batch':
            node.set_training_type('batch')
        avg = mdp.nodes.OnlineCenteringNode(avg_n=a)
        wh = mdp.nodes.CCIPCAWhiteningNode(amn_params=amn,
                                           init_eigen_vectors=V)
        mca = mdp.nodes.MCANode(eps=eps, init_eigen_vectors=W)
        x = S.array('x', (T, n))
        x0 = x.copy()
        sizes = S.choose('sizes', [s for s in arrangements(T)
                                   if typ != 'batch' or min(s) > 1]
                         if typ != 'episodes' else [[1] * T])
        starts = [True] + [False] * (T - 1)
        if typ == 'batch':
            S.must_raise(mdp.TrainingException, 'one sample has no slowness',
                         node.train, x[:1])
            t = 0
            for s in sizes:
                starts[t] = True
                t += s
        elif typ == 'episodes':
            for t in range(1, T):
                starts[t] = S.choose('e%d' % t, [True, False])
        if typ == 'episodes':
            for t in range(T):
                node.train(x[t:t + 1], new_episode=starts[t])
        else:
            feed(S, node, x, sizes)
        sf = None
        prev = None
        for t in range(T):
            r = x0[t:t + 1]
            if mean:
                avg.train(r)
                r = avg.execute(r)
            wh.train(r)
            last, prev = prev, r
            r = wh.execute(r)
            cur = r
            if t and not starts[t]:
                mca.train(r - old)
                sf = S.np.dot(wh.get_projmatrix(), mca.get_projmatrix())
            old = cur
        if sf is None:
            sf = S.np.dot(V, W)
        S.eq(node.sf, sf, 'slow features')
        S.eq(node.whiteningnode.get_projmatrix(), wh.get_projmatrix(),
             'whitening')
        S.eq(x, x0, 'data unchanged')
        S.check(node.get_current_train_iteration() == T and
                node.output_dim == m, 'dimensions')
        z = S.array('z', (1, n))
        S.eq(node.execute(z), S.np.dot(avg.execute(z) if mean else z, sf),
             'execute')
        S.eq(node.sf, sf, 'unchanged')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    add = lambda name, fn, **o: hs.append(H(name, fn, opaque_sqrt=True, **o))
    for T in ((1, 2, 3) if q else (1, 2, 3, 4)):
        add('center/%d' % T, center_h(T, 2))
        add('diff/%d' % T, diff_h(T, 2))
    for white in (False, True):
        for k, amn in enumerate(AMN):
            if q and white and k:
                continue
            for n, m, T in ([(1, 1, 3), (2, 1, 2), (2, 2, 1)] if q else
                            [(1, 1, 4), (2, 1, 2), (2, 2, 1), (2, 2, 2),
                             (3, 2, 1), (2, 1, 3)]):
                add('ccipca/%s%d/%d%d%d' % ('white' if white else '', k, n,
                                            m, T),
                    ccipca_h(white, n, m, T, amn, ALL if T == 1 else ['ctor']))
    for norm in (True, False):
        for n, m, T in ([(1, 1, 2), (2, 1, 2), (2, 2, 1)] if q else
                        [(1, 1, 3), (2, 1, 2), (2, 2, 1), (2, 2, 2),
                         (3, 2, 1), (2, 1, 3)]):
            add('mca/%s%d%d%d' % ('norm' if norm else '', n, m, T),
                mca_h(n, m, T, norm, ALL if T == 1 else ['ctor']))
    for n, w, m, T in ([(1, 1, 1, 2), (2, 1, 1, 2), (1, 1, 1, 3)] if q else
                       [(1, 1, 1, 2), (2, 1, 1, 2), (1, 1, 1, 3),
                        (2, 2, 1, 2), (2, 2, 2, 2), (2, 1, 1, 3)]):
        add('incsfa/%d%d%d%d' % (n, w, m, T), incsfa_h(n, w, m, T))
    return hs
