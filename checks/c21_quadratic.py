"""C21: quadratic forms: value, extrema on a sphere, invariances, SFA2."""
import sys

from symx import lib

BOUNDS = ('values: up to 3 variables, 2 rows, all real coefficients; extrema '
          'and invariances: 2 variables (3 for invariances) with symbolic '
          'eigenvalues in chosen rotations, the bisection for the multiplier '
          'stopped after a few halvings by a larger relative tolerance')
ASSUMPTIONS = ['numpy.linalg.eigh returns an eigendecomposition']

ROT2 = [(1, 0), (0.6, 0.8), (-0.8, 0.6), (0, 1)]


def H(name, fn, **o):
    return (name, fn, o)


def rot2(S, c, s):
    r = S.zeros((2, 2))
    r[0, 0], r[0, 1], r[1, 0], r[1, 1] = c, -s, s, c
    return r


def build(S, R, mu):
    n = len(mu)
    D = S.zeros((n, n))
    for i in range(n):
        D[i, i] = mu[i]
    h = S.np.dot(S.np.dot(R, D), R.T)
    for i in range(n):
        for j in range(i):
            h[i, j] = h[j, i]
    w = S.np.diag(D)
    S.known_eigh(h, w, R)
    m = -1 * h
    S.known_eigh(m, -w[::-1], R[:, ::-1])
    return h


def value_h(n):
    def f(S):
        import mdp
        from mdp.utils import QuadraticForm
        h = S.array('h', (n, n))
        for i in range(n):
            for j in range(i):
                h[i, j] = h[j, i]
        h0 = h.copy()
        args = S.choose('args', ['H', 'Hf', 'Hfc', 'Hc'])
        kw = {}
        fv, c = [0] * n, 0
        if 'f' in args:
            kw['f'] = S.vec('f', n)
            fv = [kw['f'][i] for i in range(n)]
        if 'c' in args:
            kw['c'] = c = S.real('c')
        q = QuadraticForm(h, **kw)
        S.eq(h, h0, 'argument unchanged')
        x = S.array('x', (2, n))
        x0 = x.copy()
        for xx in (x, x[0]):
            y = q.apply(xx)
            r = lib.rows(x)[:1 if xx is not x else 2]
            S.check(tuple(y.shape) == (len(r),), 'one value per row')
            for t, v in enumerate(r):
                S.eq(y[t], lib.ssum(v[i] * h0[i, j] * v[j] / 2
                                    for i in range(n) for j in range(n)) +
                     lib.ssum(fv[i] * v[i] for i in range(n)) + c,
                     '1/2 xHx + fx + c')
        S.eq(x, x0, 'data unchanged')
        if n > 1:
            i, j = S.choose('ij', [(0, 1), (n - 1, 0)])
            bad = h0.copy()
            e = S.real('e', lo=0.01, hi=100)
            S.assume(S.all([h0[i, j] < 10, h0[i, j] > -10]))
            bad[i, j] = bad[i, j] + e * S.choose('sg', [1, -1])
            S.must_raise(mdp.utils.QuadraticFormException,
                         'a matrix that is not symmetric is refused',
                         QuadraticForm, bad)
        S.reach('end')
    return f


def val(S, h, f, x):
    n = len(f)
    return lib.ssum(x[i] * h[i, j] * x[j] / 2 for i in range(n)
                    for j in range(n)) + lib.ssum(f[i] * x[i]
                                                  for i in range(n))


def sphere_h():
    """without linear term: extremes over the sphere"""
    def f(S):
        from mdp.utils import QuadraticForm
        R = rot2(S, *S.choose('R', ROT2))
        mu = [S.real('m0'), S.real('m1')]
        S.assume(mu[0] <= mu[1])
        h = build(S, R, mu)
        norm = S.real('norm')
        S.assume(norm > 0)
        q = QuadraticForm(h, *S.choose('f', [(), (S.zeros((2,)),)]))
        xmax, xmin = q.get_extrema(norm)
        for x, m in ((xmax, mu[1]), (xmin, mu[0])):
            S.check(tuple(x.shape) == (2,), 'shape')
            S.eq(x[0] * x[0] + x[1] * x[1], norm * norm, 'on the sphere')
            S.eq(val(S, h, [0, 0], x), m * norm * norm / 2, 'extreme value')
        S.check(q.xmax is xmax and q.xmin is xmin, 'kept')
        S.reach('end')
    return f


def inner_h():
    """a definite form with its optimum inside the sphere"""
    def f(S):
        from mdp.utils import QuadraticForm
        R = rot2(S, *S.choose('R', ROT2))
        sg = S.choose('sign', [1, -1])
        mu = [S.real('m0'), S.real('m1')]
        S.assume(mu[0] <= mu[1])
        S.assume(mu[0] > 0 if sg > 0 else mu[1] < 0)
        h = build(S, R, mu)
        # linear term from the optimum, whose length is rational
        a, b, ln = S.choose('dir', [(3, 4, 5), (-5, 12, 13), (1, 0, 1)])
        s = S.real('s')
        S.assume(s > 0)
        x0 = S.zeros((2,))
        x0[0], x0[1] = a * s, b * s
        fv = -S.np.dot(h, x0)
        if S.sym:
            S.known_sqrt((x0 * x0).sum(), ln * s)
        norm = S.real('norm')
        S.assume(norm > ln * s)
        S.assume(S.any([fv[0] > 0.001, fv[1] > 0.001, fv[0] < -0.001,
                        fv[1] < -0.001]))
        q = QuadraticForm(h, fv)
        q._maximize = lambda *a, **k: None      # (the other extreme)
        xmax, xmin = q.get_extrema(norm)
        x = xmin if sg > 0 else xmax
        S.check(x is not None, 'the optimum inside the sphere is found')
        S.eq(x, x0, 'optimum inside the sphere')
        S.reach('end')
    return f


def bound_h(kind, quick, frac=2):
    """optimum on the sphere: multiplier condition"""
    def f(S):
        from mdp.utils import QuadraticForm
        qf = sys.modules['mdp.utils.quad_forms']
        eps = 0.3
        if hasattr(qf, 'epsilon') and kind == 'hard':
            S.patch(qf, 'epsilon', eps)
        R = rot2(S, *S.choose('R', ROT2[1:2] if quick else ROT2[:3]))
        m, gap = S.choose('mu', [(-3, 1), (0, 0), (-1, 2), (1, 2)] if quick else
                          [(-3, 1), (-2, 2), (0, 0), (1, 2), (2, 0), (-1, 2)])
        mu = [S.const([float(m)])[0], S.const([float(m + gap)])[0]]
        h = build(S, R, mu)
        al = S.choose('alpha', {
            'reg': [(3, 4, 5), (-4, 3, 5)][:1 if quick else 2],
            'hard': [(1, 0, 1), (0, -1, 1)]}[kind])
        s = S.real('s', lo=0.01, hi=10)
        a = S.zeros((2,))
        a[0], a[1] = al[0] * s, al[1] * s
        fv = S.np.dot(R, a)
        S.known_sqrt((fv * fv).sum(), al[2] * s)
        norm = S.const([S.choose('norm', [0.5, 3.])])[0]
        tol = S.real('tol', lo=0.001)
        if kind == 'reg':
            S.assume(tol * frac >= norm * norm)
        q = QuadraticForm(h, fv)
        xs = q.get_extrema(norm, tol)
        N2 = norm * norm
        for sg, x in zip((1, -1), xs):
            # as a maximum of sg times the form
            M = [sg * (m + i * gap) for i in range(2)]
            A = [sg * a[0], sg * a[1]]
            top = max(M)
            z = S.np.dot(R.T, x)
            n2 = z[0] * z[0] + z[1] * z[1]
            if kind == 'hard' and al[M.index(top)] and gap:
                continue        # (not the hard case, see 'reg')
            x2 = (A[0] * A[0] / M[0] / M[0] + A[1] * A[1] / M[1] / M[1]
                  if top < 0 else None)
            if x2 is not None:
                S.assume(S.any([x2 < N2 * 0.99, x2 > N2 * 1.01]))
            if x2 is not None and x2 < N2:
                for i in range(2):
                    S.eq(M[i] * z[i], -A[i], 'optimum inside the sphere')
                S.reach('inner')
                continue
            # (lam - M_i) z_i = A_i with lam above all M_i
            lams = [M[i] + A[i] / z[i] for i in range(2) if al[i]]
            free = [i for i in range(2) if not al[i]]
            dl = al[2] * s / norm       # multiplier <= top + dl
            w = eps * (dl if dl >= abs(top) else abs(top))
            if lams:
                lam = lams[0]
                for l2 in lams[1:]:
                    S.eq(lam, l2, 'one multiplier')
                S.check(lam >= top, 'the multiplier of the maximum')
                if lam > top:
                    S.reach('bisection')
            for i in free:
                if M[i] < top:
                    S.eq(z[i], 0, 'no component without need')
            near = S.all([n2 - N2 <= tol, N2 - n2 <= tol])
            if not near:
                # precision reached: the multiplier is near the solution
                def g(u):
                    return lib.ssum(A[i] * A[i] / ((u - M[i]) * (u - M[i]))
                                    for i in range(2) if al[i])
                S.check(len(lams) > 0 and n2 > N2, 'norm of the result')
                S.le(g(lam + w), N2, 'multiplier')
                S.reach('precision')
            else:
                S.reach('norm')
        S.reach('end')
    return f


BASES = [[(2, -2, 1), (1, 2, 2), (2, 1, -2)],
         [(0, 3, 0), (3, 0, 0), (0, 0, 3)]]


def invar_h(n):
    def f(S):
        from mdp.utils import QuadraticForm
        R = rot2(S, *S.choose('R', ROT2)) if n == 3 else None
        if n == 3:
            b = S.choose('basis', BASES)
            Q = S.zeros((3, 3))
            for i in range(3):
                for j in range(3):
                    Q[i, j] = b[i][j] / S.const([3.])[0]
        else:
            Q = rot2(S, *S.choose('R', ROT2))
        # the matrix in this basis
        k = [S.real('k%d' % i) for i in range(n)]
        nu = [S.real('nu%d' % i) for i in range(n - 1)]
        A = S.zeros((n, n))
        A[0, 0] = k[0]
        for i in range(1, n):
            A[0, i] = A[i, 0] = k[i]
        if n == 3:
            S.assume(nu[0] <= nu[1])
            A[1:, 1:] = build(S, R, nu)
        else:
            A[1, 1] = nu[0]
        h = S.np.dot(S.np.dot(Q, A), Q.T)
        for i in range(n):
            for j in range(i):
                h[i, j] = h[j, i]
        r = S.real('r')
        S.assume(r > 0)
        x = r * Q[:, 0]
        fv = S.vec('f', n)
        if S.sym:
            from symx import arr
            P = S.np.eye(n)
            P[:, 0] = x
            arr.known_result('qr', P, (Q, S.np.dot(Q.T, P)))
            S.known_sqrt((x * x).sum(), r)
        x0 = x.copy()
        w, v = QuadraticForm(h, fv).get_invariances(x)
        S.eq(x, x0, 'argument unchanged')
        S.check(tuple(w.shape) == (n, n - 1) and tuple(v.shape) == (n - 1,),
                'shapes')
        base = (lib.ssum(x[i] * h[i, j] * x[j] for i in range(n)
                         for j in range(n)) +
                lib.ssum(fv[i] * x[i] for i in range(n))) / (r * r)
        for a in range(n - 1):
            S.eq(lib.ssum(w[i, a] * x[i] for i in range(n)), 0,
                 'tangential direction')
            for b in range(a, n - 1):
                S.eq(lib.ssum(w[i, a] * w[i, b] for i in range(n)),
                     1 if a == b else 0, 'orthonormal directions')
                c = lib.ssum(w[i, a] * h[i, j] * w[j, b] for i in range(n)
                             for j in range(n))
                S.eq(c, v[a] + base if a == b else 0,
                     'second derivative on the sphere')
        if n == 3:
            S.le(abs(v[0]), abs(v[1]), 'most invariant direction first')
        S.reach('end')
    return f


def sfa2_h(n, train=False):
    """the quadratic form of a component of SFA2 is this component"""
    def f(S):
        import mdp
        m = n * (n + 3) // 2
        node = mdp.nodes.SFA2Node()
        x = S.array('x', (2, n))
        node.train(S.array('t', (m + 2 if train else 3, n)))
        if not train:
            # any slow features and mean of the expanded data
            node._stop_training = lambda *a, **k: None
            node.stop_training()
            node.sf, node.avg = S.array('sf', (m, 2)), S.array('avg', (m,))
            node._bias = S.np.dot(node.avg, node.sf)
            node.output_dim = 2
        else:
            try:
                node.stop_training()
            except mdp.NodeException:
                return          # singular covariance
        y = node.execute(x)
        for nr in S.choose('nr', [(0, 1), (-1,)]):
            q = node.get_quadratic_form(nr)
            z = q.apply(x)
            for t in range(2):
                S.eq(z[t], y[t, nr], 'component %d' % nr)
            for i in range(n):
                for j in range(n):
                    S.eq(q.H[i, j], q.H[j, i], 'symmetric')
        S.reach('end')
    return f


def harnesses(tier):
    quick = tier == 'quick'
    R = ['end']
    hs = [H('value/%d' % n, value_h(n), reach=R) for n in (1, 2, 3)]
    hs += [H('sphere', sphere_h(), reach=R), H('inner', inner_h(), reach=R)]
    hs += [H('bound/reg', bound_h('reg', quick), reach=R + ['inner', 'norm'], max_paths=3000,
             budget_s=100 if quick else 700, weight=9),
           H('bound/hard', bound_h('hard', quick), reach=R, max_paths=3000,
             budget_s=100 if quick else 700, weight=9)]
    hs += [H('invariances/2', invar_h(2), reach=R),
           H('invariances/3', invar_h(3), reach=R),
           H('sfa2/1', sfa2_h(1), reach=R), H('sfa2/2', sfa2_h(2), reach=R),
           H('sfa2/3', sfa2_h(3), reach=R),
           H('sfa2/train', sfa2_h(1, True), reach=R, linalg_full=False)]
    return hs
