"""C31: eigenvalue problems with singular covariance matrices."""
from fractions import Fraction

from symx import lib
from checks.c27_spectral import upto_sign

BOUNDS = ('2-3 variables of rank 1-3: all positive semidefinite B of the given '
          'rank (any eigenvectors up to one or two rotations, any '
          'eigenvalues), all A with distinct generalised eigenvalues, constant '
          'variables at every position, all ranges')
ASSUMPTIONS = ['LAPACK eigensolvers return an orthonormal eigenbasis in '
               'ascending order of the eigenvalues']

EPS = 1e-12


def H(name, fn, **o):
    o.setdefault('compare', False)
    o.setdefault('guess', True)
    o.setdefault('reach', ['end'])
    return (name, fn, o)


ROT2 = [[[0.6, -0.8], [0.8, 0.6]], [[1., 0.], [0., 1.]],
        [[0., 1.], [1., 0.]], [[5 / 13., 12 / 13.], [-12 / 13., 5 / 13.]]]
ROT3 = [[[2 / 3., -1 / 3., 2 / 3.], [2 / 3., 2 / 3., -1 / 3.],
         [-1 / 3., 2 / 3., 2 / 3.]],
        [[2 / 7., 3 / 7., 6 / 7.], [3 / 7., -6 / 7., 2 / 7.],
         [6 / 7., 2 / 7., -3 / 7.]],
        [[0.6, -0.8, 0.], [0.8, 0.6, 0.], [0., 0., 1.]],
        [[0., 0., 1.], [0.6, -0.8, 0.], [0.8, 0.6, 0.]],
        [[0.6, 0., -0.8], [0., 1., 0.], [0.8, 0., 0.6]],
        [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
        [[0., 1., 0.], [0., 0., 1.], [1., 0., 0.]]]


def turn(S, n, name, few=False, r=None):
    if n == 1:
        return S.const([[1.0]])
    R = ROT2 if n == 2 else ROT3
    if r is not None:
        # every variable takes part
        R = [m for m in R if all(any(row[n - r:]) for row in m)]
    i = S.choose(name, list(range(2 if few else len(R))))
    return S.const(R[i])


def diag(S, v):
    D = S.zeros((len(v), len(v)))
    for i, e in enumerate(v):
        D[i, i] = e
    return D


def problem(S, method, n, r, few=False, nullA=False, tail=False):
    """A, B of n variables, B of rank r; generalised eigenvalues d"""
    dot = S.np.dot
    R = turn(S, n, 'R', r=r)
    s = []
    if method == 'reg' and r > 1:
        s = S.const(S.choose('s', [[1.0, 2.0, 3.0][:r], [1.5, 4.0, 5.0][:r]]))
        s = list(s)
    for i in range(r if not s else 0):
        e = S.np.sqrt(S.square('s%d' % i, lo=1, hi=5))
        if i:
            S.assume(s[-1] < e)
        s.append(e)
    if method == 'reg':
        # the square roots are those of the eigenvalues of B + eps
        b = [0.0] * (n - r) + [e * e - EPS for e in s]
    else:
        b = [0.0] * (n - r) + [e * e for e in s]
    B = dot(dot(R, diag(S, b)), R.T)
    d = []
    for i in range(r):
        e = S.real('d%d' % i, lo=0 if nullA or method != 'svd' else 1, hi=9)
        if method == 'svd' and i == 0:
            S.assume(e >= 0.5)
        if i:
            S.assume(d[-1] < e)
        d.append(e)
    Q = turn(S, r, 'Q', few)
    W = dot(dot(Q, diag(S, d)), Q.T)
    A = S.zeros((n, n))
    core = dot(dot(diag(S, s), W), diag(S, s))
    A[n - r:, n - r:] = core
    if n > r and not nullA:
        # anything where B is zero
        for i in range(n - r):
            for j in range(i + 1, n):
                A[i, j] = A[j, i] = S.real('a%d%d' % (i, j), lo=-4, hi=4)
            A[i, i] = S.real('a%d' % i, lo=-4, hi=4)
    if tail:
        tail = A[0, 0] = S.real('tail', lo=1, hi=4)
    A = dot(dot(R, A), R.T)
    bb = S.zeros((n,))
    for i in range(n):
        bb[i] = b[i]
    if method != 'reg':
        S.known_eigh(B, bb, R)
    if method == 'reg':
        full = S.np.array([EPS] * (n - r) + [e * e for e in s])
        S.known_eigh(dot(dot(R, diag(S, list(full))), R.T), full, R)
        dd = S.np.array([0.0] * (n - r) + list(d))
        Qn = S.zeros((n, n))
        for i in range(n - r):
            Qn[i, i] = 1
        Qn[n - r:, n - r:] = Q
        if tail:
            # the direction without variance comes last
            dd = S.np.array(list(d) + [tail / EPS])
            Qn = S.np.concatenate([Qn[:, 1:], Qn[:, :1]], axis=1)
        S.known_eigh(dot(dot(Qn, diag(S, list(dd))), Qn.T), dd, Qn)
    else:
        dd = S.np.array(list(d))
        S.known_eigh(W, dd, Q)
        if method == 'svd':
            # the singular values of B come in descending order
            P = Q[::-1]
            S.known_eigh(dot(dot(P, diag(S, d)), P.T), dd, P)
    return A, B, d


class Out(object):
    rank_deficit = 0


def blank(S, A, B, pos, const):
    """insert a constant variable"""
    n = len(A)
    keep = [i for i in range(n + 1) if i != pos]
    A2, B2 = S.zeros((n + 1, n + 1)), S.zeros((n + 1, n + 1))
    for i, p in enumerate(keep):
        for j, q in enumerate(keep):
            A2[p, q] = A[i, j]
            B2[p, q] = B[i, j]
    return A2, B2


def solver_h(method, n, r, nblank=0, few=False, tail=False):
    def f(S):
        import mdp
        A, B, d = problem(S, method, n, r, few, method == 'reg', tail)
        for i in range(nblank):
            A, B = blank(S, A, B, S.choose('pos%d' % i,
                                           list(range(len(A) + 1))), 0)
        N = len(A)
        A0, B0 = A.copy(), B.copy()
        rg = S.choose('range', [None, (1, 1), (1, r), (2, r), (1, r + 1)])
        if rg == (2, r) and r < 2:
            return
        out = Out() if S.choose('out', [True, False]) else None
        fn = getattr(mdp.utils, 'symeig_semidefinite_' + method)
        S.must_raise(ValueError, 'type', fn, A, B, True, 'on', None, 2)
        kw = {} if out is None else dict(dfc_out=out)
        e, E = fn(A, B, True, 'on', rg, **kw)
        sel = list(range(r)) if rg is None else \
            list(range(rg[0] - 1, min(rg[1], r)))
        S.check(tuple(E.shape) == (N, len(sel)) and len(e) == len(sel),
                'number of components: the rank of B')
        if out is not None:
            S.check(out.rank_deficit == N - r, 'rank deficit')
        S.eq(A, A0, 'A unchanged')
        S.eq(B, B0, 'B unchanged')
        dot = S.np.dot
        S.eq(e, S.np.array([d[i] for i in sel]), 'eigenvalues')
        Br = B0 + EPS * diag(S, [1.0] * N) if method == 'reg' else B0
        S.eq(dot(dot(E.T, Br), E), diag(S, [1.0] * len(sel)),
             'unit variance, decorrelated')
        S.eq(dot(dot(E.T, A0), E), diag(S, [d[i] for i in sel]),
             'A is diagonal')
        S.reach('end')
    return f


SLOW = [(1, 1, 0, -1, -1), (1, -3, 4, -3, 1)]
SLOW_Q = [1, 3]


def node_h(cls, method, n, blank=None, few=False):
    """SFA of redundant data: the mixture of two signals in n variables"""
    def f(S):
        import mdp
        T = 5
        dot = S.np.dot
        U = S.const([[c[t] / float(q) for c, q in zip(SLOW, SLOW_Q)]
                     for t in range(T)])
        s = [S.np.sqrt(S.square('s%d' % i, lo=1, hi=5)) for i in range(2)]
        S.assume(s[0] < s[1])
        R = turn(S, n, 'R', r=2)
        Q = turn(S, 2, 'Q', True)
        # X = U Q diag(s) R2^T (R2: the last two columns of R)
        R2 = R[:, -2:]
        X = dot(dot(dot(U, Q), diag(S, s)), R2.T)
        m = S.array('m', (1, len(R)))
        X = X + m
        b = [0.0] * (len(R) - 2) + [e * e for e in s]
        B = dot(dot(R, diag(S, b)), R.T)
        S.known_eigh(B, S.np.array(b), R)
        delta = []
        for j in range(2):
            F = [Fraction(SLOW[j][t], SLOW_Q[j]) for t in range(T)]
            delta.append(sum((q - p) ** 2 for p, q in zip(F, F[1:])) /
                         (T - 1 - 1))
        scale = [sum(Fraction(SLOW[j][t], SLOW_Q[j]) ** 2
                     for t in range(T)) / (T - 1) for j in range(2)]
        assert scale == [1, 1], scale
        dd = S.const([float(x) for x in delta])
        S.known_eigh(dot(Q.T * dd, Q), dd, Q.T)
        P = Q[:, ::-1]
        S.known_eigh(dot(P.T * dd, P), dd, P.T)
        N = len(R)
        if blank is not None:
            pos = S.choose('pos', list(range(N + 1)))
            c = S.real('const')
            X2 = S.zeros((T, N + 1))
            keep = [i for i in range(N + 1) if i != pos]
            for i, p in enumerate(keep):
                X2[:, p] = X[:, i]
            X2[:, pos] = c
            X, N = X2, N + 1
        k = S.choose('output_dim', [None, 1, 2, N])
        C = getattr(mdp.nodes, cls)
        if (k == 1 if few else S.choose('late', [False, True])):
            node = C(output_dim=k)
            node.set_rank_deficit_method(method)
        else:
            node = C(output_dim=k, rank_deficit_method=method)
        S.must_raise(ValueError, 'unknown method',
                     node.set_rank_deficit_method, 'x')
        node.train(X)
        node.stop_training()
        kk = min(k or 2, 2)
        S.check(node.output_dim == kk, 'output_dim: as many components')
        S.check(node.rank_deficit == N - 2, 'rank deficit')
        y = node.execute(X)
        S.check(tuple(y.shape) == (T, kk), 'shape')
        for i in range(kk):
            upto_sign(S, y[:, i], [U[t, i] for t in range(T)],
                      'the slow signals are recovered from the mixture')
            S.eq(node.d[i], delta[i] if S.sym else float(delta[i]),
                 'delta values')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for m in ('pca', 'svd', 'reg'):
        for n, r in [(2, 2), (2, 1), (3, 1), (3, 2), (3, 3)]:
            if (q and (m, n) == ('reg', 3) and r > 1) \
                    or (q and (n, r) == (3, 3)):
                continue
            hs.append(H('solver/%s/%d%d' % (m, n, r),
                        solver_h(m, n, r, 0, few=q)))
        if m != 'reg':
            for n, r, k in [(2, 2, 1), (2, 1, 1)] + (
                    [] if q else [(2, 2, 2), (3, 2, 1)]):
                hs.append(H('solver/%s/%d%d+%d' % (m, n, r, k),
                            solver_h(m, n, r, k, few=q)))
    for n, r in [(2, 1), (3, 2)][:1 if q else 2]:
        hs.append(H('solver/reg/%d%d/tail' % (n, r),
                    solver_h('reg', n, r, few=q, tail=True)))
    for m in ('pca', 'svd', 'auto'):
        hs.append(H('node/%s/3' % m, node_h('SFANode', m, 3, few=q)))
        hs.append(H('node/%s/2+1' % m, node_h('SFANode', m, 2, 1, few=q)))
    return hs
