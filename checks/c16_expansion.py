"""C16: expansion nodes compute exactly the functions they are documented to."""
from fractions import Fraction
import itertools

from symx import lib
from symx.lib import A

BOUNDS = ('up to 4 variables and degree 4 (polynomial; 2 variables degree 6), 3 variables and '
          'degree 4 (recursive), 2 rows, all real values')


def H(name, fn, **o):
    return (name, fn, o)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def poly_h(n, deg, T=2, quad=False, dtype='d'):
    def f(S):
        import mdp
        x = S.array('x', (T, n), dtype=dtype)
        node = (mdp.nodes.QuadraticExpansionNode() if quad else
                mdp.nodes.PolynomialExpansionNode(deg))
        y = node.execute(x)
        # order: by degree; the linear terms first
        want = []
        for d in range(1, deg + 1):
            want.append(list(itertools.combinations_with_replacement(
                range(n), d)))
        total = sum(len(w) for w in want)
        S.check(node.output_dim == total, 'number of monomials')
        S.check(tuple(y.shape) == (T, total), 'shape')
        S.check(lib.dtype_of(y) == lib.dtype_of(x), 'dtype')
        S.eq(y[:, :n], x, 'linear part is the input')
        # every block of one degree holds each monomial exactly once
        perm = _order(S, node, n, want)
        if perm is None:
            S.fail('every monomial of every degree occurs exactly once')
            return
        for c, m in enumerate(perm):
            for t in range(T):
                S.eq(y[t, c], prod(x[t, i] for i in m), 'monomial')
        S.reach('end')
    return f


def _order(S, node, n, want):
    """which monomial each output column is, found on one concrete row;
    only the order is taken from it"""
    import numpy
    primes = [2, 3, 5, 7, 11][:n]
    y = node.execute(numpy.array([primes], dtype=node.dtype))
    pos, out = 0, []
    for block in want:
        key = dict((prod(primes[i] for i in m), m) for m in block)
        for c in range(pos, pos + len(block)):
            m = key.pop(int(round(float(y[0, c]))), None)
            if m is None:
                return None
            out.append(m)
        pos += len(block)
    return out


def general_h():
    def f(S):
        import mdp
        np = S.np
        x = S.array('x', (2, 2))
        fs = [lambda x: x, lambda x: x[:, :1] * x[:, 1:] * x,
              lambda x: x[:, 1:] ** 2]
        idx = S.choose('funcs', [(0,), (1, 0), (2, 1, 0), (0, 0)])
        funcs = [fs[i] for i in idx]
        node = mdp.nodes.GeneralExpansionNode(funcs)
        y = node.execute(x)
        S.check(node.output_dim == sum((2, 2, 1)[i] for i in idx), 'dim')
        pos = 0
        for g in funcs:
            w = g(x)
            S.eq(y[:, pos:pos + w.shape[1]], w, 'block of a function')
            pos += w.shape[1]
        S.check(pos == y.shape[1], 'blocks fill the output')
        S.reach('end')
    return f


def seq(S, recf, x, deg):
    """values P_1..P_deg of one variable (textbook three-term recursions)"""
    F = Fraction
    if recf == 'standard_poly':
        out = []
        for d in range(1, deg + 1):
            out.append(prod([x] * d))
        return out
    if recf == 'legendre_rational':
        z = (x - 1) / (x + 1)
    else:
        z = x
    p = [1, z]
    for k in range(2, deg + 1):
        if recf == 'chebyshev_poly':
            p.append(2 * z * p[-1] - p[-2])
        else:
            a, b = F(2 * k - 1, k), F(k - 1, k)
            if not S.sym:
                a, b = float(a), float(b)
            p.append(a * z * p[-1] - b * p[-2])
    return p[1:]


def rec_h(recf, n, deg, with0, T=1):
    def f(S):
        import mdp
        lo = 0 if recf == 'legendre_rational' else None
        x = S.array('x', (T, n), lo=lo)
        node = mdp.nodes.RecursiveExpansionNode(deg, recf=recf, with0=with0)
        y = node.execute(x)
        exps = [e for e in itertools.product(range(deg + 1), repeat=n)
                if sum(e) <= deg and (with0 or sum(e) > 0)]
        S.check(node.output_dim == len(exps) == y.shape[1],
                'one output per product of total degree <= degree')
        order = _rec_order(S, node, recf, n, deg, exps)
        if order is None:
            S.fail('every product occurs exactly once')
            return
        for t in range(T):
            s = [[1] + seq(S, recf, x[t, v], deg) for v in range(n)]
            for c, e in enumerate(order):
                S.eq(y[t, c], prod(s[v][e[v]] for v in range(n)),
                     'basis function')
        S.reach('end')
    return f


def _rec_order(S, node, recf, n, deg, exps):
    import numpy
    pt = [0.618033, 0.3141592, 0.2236067][:n]

    class C(object):
        sym = False
    s = [[1.0] + seq(C, recf, v, deg) for v in pt]
    y = node.execute(numpy.array([pt]))
    left = dict((e, prod(s[v][e[v]] for v in range(n))) for e in exps)
    out = []
    for c in range(y.shape[1]):
        e = min(left, key=lambda e: abs(left[e] - float(y[0, c])))
        if abs(left.pop(e) - float(y[0, c])) > 1e-8:
            return None
        out.append(e)
    return out


def custom_rec_h():
    """a user-supplied recursion is run with the documented arguments"""
    def f(S):
        import mdp
        deg = S.choose('degree', [2, 3])
        a = S.real('a')

        def init(result, x, pos, v):
            result[:, pos] = x[:, v]
            return pos + 1, 2, pos

        def rec(result, x, special, n, v, pos):
            return result[:, pos - 1] * a + result[:, special] * x[:, v] * n
        x = S.array('x', (2, 2))
        node = mdp.nodes.RecursiveExpansionNode(
            deg, recf=(init, rec, -1, 1), with0=True)
        y = node.execute(x)
        for t in range(2):
            S.eq(y[t, 0], 1, 'constant')
            for v in range(2):
                p = x[t, v]
                for k in range(1, deg + 1):
                    if k > 1:
                        p = p * a + x[t, v] * x[t, v] * k
                    S.eq(y[t, 1 + v * deg + k - 1], p, 'recursion')
        S.reach('end')
    return f


def domain_h(recf, lo, hi):
    """check=True refuses exactly data outside the domain (tolerance 1e-6)"""
    def f(S):
        import mdp
        x = S.array('x', (1, 2))
        node = mdp.nodes.RecursiveExpansionNode(2, recf=recf, check=True)
        try:
            node.execute(x)
            ok = True
        except mdp.NodeException:
            ok = False
        eps = Fraction(1, 10 ** 6) if S.sym else 1e-6
        bad = []
        for v in range(2):
            if hi is not None:
                bad.append(x[0, v] > hi + 2 * eps)
            if lo is not None:
                bad.append(x[0, v] < lo - 2 * eps)
        good = []
        for v in range(2):
            if hi is not None:
                good.append(x[0, v] <= hi)
            if lo is not None:
                good.append(x[0, v] >= lo)
        if ok:
            S.check(S.all([S.implies(b, False) for b in bad]),
                    'values outside the domain are refused')
            S.reach('accepted')
        else:
            S.check(S.implies(S.all(good), False),
                    'values inside the domain are accepted')
            S.reach('refused')
    return f


def norm_h(recf, lo, hi, T):
    """the trained normalisation moves all training data into the domain"""
    def f(S):
        import mdp
        x = S.array('x', (T, 2))
        k = S.choose('chunk', list(range(1, T + 1)))
        node = mdp.nodes.NormalizingRecursiveExpansionNode(
            2, recf=recf, check=False, with0=True)
        node.train(x[:k])
        if k < T:
            node.train(x[k:])
        node.stop_training()
        z = node.domain_transformation(x.copy())
        for t in range(T):
            for v in range(2):
                if lo is not None:
                    S.le(lo, z[t, v], 'training data above the lower bound')
                if hi is not None:
                    S.le(z[t, v], hi, 'training data below the upper bound')
        # affine with positive slope per variable: order is kept
        for v in range(2):
            S.check(S.implies(x[0, v] < x[1, v], z[0, v] < z[1, v]),
                    'order of the values is kept')
            if T > 2:
                S.eq((z[0, v] - z[1, v]) * (x[1, v] - x[2, v]),
                     (z[1, v] - z[2, v]) * (x[0, v] - x[1, v]),
                     'the normalisation is affine')
        # data inside stay as they are
        inside = [x[t, v] > (lo if lo is not None else x[t, v] - 1)
                  for t in range(T) for v in range(2)]
        inside += [x[t, v] < (hi if hi is not None else x[t, v] + 1)
                   for t in range(T) for v in range(2)]
        if bool(S.all(inside)):
            if lo is None or hi is not None:
                S.eq(z, x, 'data inside the domain are not changed')
            S.reach('inside')
        else:
            S.reach('outside')
        y = node.execute(x)
        s = mdp.nodes.RecursiveExpansionNode(2, recf=recf, with0=True)
        S.eq(y, s.execute(z), 'output is the expansion of the normalised data')
    return f


def rbf_h(kind):
    def f(S):
        import mdp
        np = S.np
        T = 2 if kind in ('scalar', 'vector') else 1
        x = S.array('x', (T, 2))
        c = S.array('c', (2, 2))
        if kind == 'scalar':
            s = S.real('s', lo=1)
            node = mdp.nodes.RBFExpansionNode(c, s)
            q = [s, s]
        elif kind == 'vector':
            s = S.array('s', (2,), lo=1)
            node = mdp.nodes.RBFExpansionNode(c, s)
            q = [s[0], s[1]]
        elif kind == 'matrix':
            s = S.array('s', (2, 2))
            S.assume(s[0, 1] == s[1, 0])
            S.assume(s[0, 0] * s[1, 1] != s[0, 1] * s[1, 0])
            node = mdp.nodes.RBFExpansionNode(c, s)
            q = [s, s]
        else:
            s = S.array('s', (2, 2, 2))
            for i in range(2):
                S.assume(s[i, 0, 0] * s[i, 1, 1] != s[i, 0, 1] * s[i, 1, 0])
            node = mdp.nodes.RBFExpansionNode(c, s)
            q = [s[0], s[1]]
        y = node.execute(x)
        S.check(tuple(y.shape) == (T, 2), 'shape')
        for t in range(T):
            for i in range(2):
                d = [x[t, 0] - c[i, 0], x[t, 1] - c[i, 1]]
                if kind in ('scalar', 'vector'):
                    m = (d[0] * d[0] + d[1] * d[1]) / q[i]
                else:
                    m = q[i]
                    det = m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
                    m = (d[0] * d[0] * m[1, 1] + d[1] * d[1] * m[0, 0]
                         - d[0] * d[1] * (m[0, 1] + m[1, 0])) / det
                S.eq(y[t, i], np.exp(-m / 2), 'gaussian of the distance')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for n, d in [(1, 4), (2, 3), (3, 3), (4, 2), (2, 1)] + (
            [] if q else [(4, 3), (2, 5), (3, 4), (5, 2)]):
        hs.append(H('poly/%d,%d' % (n, d), poly_h(n, d), reach=['end']))
    for n, d in [(2, 6), (3, 5)] + ([] if q else [(2, 8)]):
        hs.append(H('poly/%d,%d/1' % (n, d), poly_h(n, d, 1),
                    reach=['end']))
    hs.append(H('poly/int', poly_h(2, 3, dtype='l'), reach=['end']))
    hs.append(H('quadratic', poly_h(3, 2, quad=True), reach=['end']))
    hs.append(H('general', general_h(), reach=['end']))
    for r in ('standard_poly', 'legendre_poly', 'legendre_rational',
              'chebyshev_poly'):
        for n, d in [(1, 4), (2, 3), (3, 2), (2, 1), (3, 1)] + (
                [(2, 2), (3, 3)] if not q else [(3, 3)] if
                r == 'standard_poly' else []):
            for w in (True, False):
                if q and not w and (n, d) != (2, 3):
                    continue
                hs.append(H('rec/%s/%d,%d/%d' % (r, n, d, w),
                            rec_h(r, n, d, w), reach=['end']))
    hs.append(H('rec/custom', custom_rec_h(), reach=['end']))
    for r, lo, hi in [('legendre_poly', -1, 1), ('legendre_rational', 0, None),
                      ('chebyshev_poly', -1, 1)]:
        hs.append(H('domain/' + r, domain_h(r, lo, hi),
                    reach=['accepted', 'refused']))
        hs.append(H('normalise/' + r, norm_h(r, lo, hi, 2 if q else 3),
                    reach=['inside', 'outside'], weight=4))
    hs.append(H('normalise/standard_poly', norm_h('standard_poly', None, None,
                                                  2), reach=['inside']))
    for k in ('scalar', 'vector', 'matrix', 'matrices'):
        hs.append(H('rbf/' + k, rbf_h(k), reach=['end']))
    return hs
