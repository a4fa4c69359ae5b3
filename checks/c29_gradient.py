"""C29: the gradient extension computes the Jacobian matrix."""
from symx import lib
from checks.c05_rowwise import fitted

BOUNDS = ('1-2 points, 2-4 variables, chains of up to 3 nodes of total degree '
          'at most 4, all points and all parameters of the nodes')
ASSUMPTIONS = ['functions that are polynomials of degree at most 2 (4) are '
               'differentiated exactly by central differences with 3 (5) '
               'points']


def H(name, fn, **o):
    return (name, fn, o)


def jacobian(S, fun, x, deg):
    """exact central differences of a polynomial function of the rows"""
    cols = []
    n = x.shape[1]
    for j in range(n):
        e = S.zeros((x.shape[0], n))
        e[:, j] = 1
        if deg <= 2:
            d = (fun(x + e) - fun(x - e)) / 2
        else:
            d = (8 * (fun(x + e) - fun(x - e)) -
                 (fun(x + 2 * e) - fun(x - 2 * e))) / 12
        cols.append(d)
    return cols


def nodes():
    import mdp
    import bimdp
    return mdp.nodes, bimdp.nodes


def sfa(S, tag, n, m, cls='SFA', bi=True, nid=None):
    mn, bn = nodes()
    k = getattr(bn, cls + 'BiNode') if bi else getattr(mn, cls + 'Node')
    kw = dict(input_dim=n)
    if bi and nid:
        kw['node_id'] = nid
    e = n if cls != 'SFA2' else n + n * (n + 1) // 2
    return fitted(k(**kw), n, m, sf=S.array(tag + 'sf', (e, m)),
                  avg=S.array(tag + 'avg', (e,)),
                  _bias=S.array(tag + 'bias', (m,)))


def quad(n, bi=True):
    mn, bn = nodes()
    q = (bn.QuadraticExpansionBiNode if bi else mn.QuadraticExpansionNode)(
        input_dim=n)
    return q


def ident(n, bi=True):
    mn, bn = nodes()
    return (bn.IdentityBiNode if bi else mn.IdentityNode)(input_dim=n)


def make(S, what, bi, t=''):
    """(node, input dim, degree)"""
    import mdp
    import bimdp
    if what == 'identity':
        return ident(3, bi), 3, 1
    if what in ('SFA', 'VartimeSFA'):
        return sfa(S, t, 3, 2, what, bi), 3, 1
    if what == 'SFA2':
        return sfa(S, t, 2, 2, what, bi), 2, 2
    if what.startswith('quad'):
        return quad(int(what[4:]), bi), int(what[4:]), 2
    if what == 'layer':
        return mdp.hinet.Layer([sfa(S, t + 'p', 1, 2, bi=False),
                                quad(2, False),
                                ident(1, False)]), 4, 2
    if what == 'clone':
        return mdp.hinet.CloneLayer(sfa(S, t + 'p', 2, 1, 'SFA2', False),
                                    n_nodes=2), 4, 2
    if what == 'same':
        return mdp.hinet.SameInputLayer([sfa(S, t + 'p', 2, 1, bi=False),
                                         quad(2, False)]), 2, 2
    if what == 'layer2':
        return mdp.hinet.Layer([
            mdp.hinet.Layer([sfa(S, t + 'p', 1, 1, bi=False),
                             quad(1, False)]),
            sfa(S, t + 'q', 1, 1, bi=False)]), 3, 2
    if what == 'biclone':
        return bimdp.hinet.CloneBiLayer(
            sfa(S, t + 'p', 2, 1, 'SFA2'), n_nodes=2,
            use_copies=S.choose(t + 'copies', [False, True])), 4, 2
    if what == 'biflow':
        return bimdp.hinet.BiFlowNode(bimdp.BiFlow(
            [sfa(S, t + 'p', 2, 2), quad(2)])), 2, 2
    if what == 'switchboard':
        con = [S.choose(t + 'c%d' % i, [0, 1, 2]) for i in range(3)]
        k = dict(input_dim=3, connections=con)
        return (bimdp.hinet.BiSwitchboard(**k) if bi else
                mdp.hinet.Switchboard(**k)), 3, 1
    raise KeyError(what)


def compare(S, got, fun, x, deg, msg):
    y, grad = got
    S.eq(y, fun(x), msg + ': the output is that of execute')
    cols = jacobian(S, fun, x, deg)
    m = y.shape[1]
    S.check(tuple(grad.shape) == (x.shape[0], m, x.shape[1]),
            msg + ': shape (points, output_dim, input_dim)')
    for j, c in enumerate(cols):
        S.eq(grad[:, :, j], c, msg + ': derivative')


def extension(S):
    import mdp
    mdp.activate_extension('gradient')
    S.add_cleanup(lambda: 'gradient' in mdp.get_active_extensions() and
                  mdp.deactivate_extension('gradient'))


def single(what, bi, rows=2):
    """one node: by message (BiNodes) or by _gradient"""
    def f(S):
        import bimdp
        node, n, deg = make(S, what, bi)
        x = S.array('x', (rows, n))
        isbi = isinstance(node, bimdp.BiNode)
        fun = lambda z: node.execute(z)
        if isbi and what not in ('biclone', 'biflow'):
            S.must_raise(bimdp.BiNodeException, 'only with the extension',
                         node.execute, x, {'method': 'gradient'})
        extension(S)
        x0 = x.copy()
        if isbi:
            r = node.execute(x, {'method': 'gradient', 'k': 1})
            S.check(len(r) == 2 and r[1]['k'] == 1, 'message')
            compare(S, (r[0], r[1]['grad']), fun, x, deg, 'by message')
        if what != 'biflow':
            r = node._gradient(x)
            compare(S, (r[0], r[1]['grad']), fun, x, deg, 'direct')
            # the chain rule
            g = S.array('g', (rows, n, 2))
            r2 = node._gradient(x, g)
            for i in range(rows):
                S.eq(r2[1]['grad'][i], S.np.dot(r[1]['grad'][i], g[i]),
                     'product with the given gradient')
        S.eq(x, x0, 'the data are left alone')
        S.reach('end')
    return f


def chain(what, dims, deg, rows=1):
    """flows: what is a list of node makers"""
    def f(S):
        import bimdp
        ns = [w(S) for w in what]
        fl = bimdp.BiFlow(ns)
        x = S.array('x', (rows, dims))
        extension(S)
        y, msg = fl.execute(x, {'method': 'gradient'})
        fun = lambda z: fl.execute(z)[0]
        compare(S, (y, msg['grad']), fun, x, deg, 'flow')
        # as one flow node
        fn = bimdp.hinet.BiFlowNode(fl)
        r = fn.execute(x, {'method': 'gradient'})
        S.eq(r[1]['grad'], msg['grad'], 'flow node')
        S.reach('end')
    return f


def refused():
    def f(S):
        import mdp
        import bimdp
        extension(S)
        x = S.array('x', (2, 2))
        nd = bimdp.nodes.SFABiNode(input_dim=2, output_dim=2)
        S.must_raise(mdp.TrainingException, 'not trained', nd._gradient, x)
        nd = mdp.nodes.CutoffNode(0, 1)
        nd.execute(x)
        S.must_raise(NotImplementedError, 'no gradient known', nd._gradient,
                     x)
        mdp.deactivate_extension('gradient')
        S.check(not hasattr(mdp.nodes.SFANode, '_get_grad'), 'inactive')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for w in ('identity', 'SFA', 'VartimeSFA', 'SFA2', 'quad1',
              'quad2', 'quad3', 'switchboard'):
        for bi in (True, False):
            hs.append(H('node/%s%s' % (w, '/bi' if bi else ''),
                        single(w, bi), reach=['end']))
    for w in ('layer', 'clone', 'same', 'layer2', 'biclone', 'biflow'):
        hs.append(H('node/' + w, single(w, False, 1 if q else 2),
                    reach=['end']))

    def S1(n, m, t, **k):
        return lambda S: sfa(S, t, n, m, **k)
    Q = lambda n: (lambda S: quad(n))
    I = lambda n: (lambda S: ident(n))

    def SB(n, con):
        def f(S):
            import bimdp
            return bimdp.hinet.BiSwitchboard(input_dim=n, connections=con)
        return f

    def CL(n, m, k, t, cls='SFA'):
        def f(S):
            import bimdp
            return bimdp.hinet.CloneBiLayer(
                sfa(S, t, n, m, cls), n_nodes=k,
                use_copies=S.choose('copies', [False, True]))
        return f

    def FN(*what):
        def f(S):
            import bimdp
            return bimdp.hinet.BiFlowNode(bimdp.BiFlow([w(S) for w in what]))
        return f
    hs.append(H('flow/sfa sfa', chain([S1(3, 2, 'p'), S1(2, 2, 'q')], 3, 1,
                                      2), reach=['end']))
    hs.append(H('flow/sfa quad sfa', chain(
        [S1(2, 2, 'p'), Q(2), S1(5, 1, 'q')], 2, 2), reach=['end']))
    hs.append(H('flow/quad quad', chain([Q(1), Q(2)], 1, 4),
                reach=['end']))
    hs.append(H('flow/quad sfa quad', chain([Q(1), S1(2, 2, 'p'), Q(2)], 1,
                                            4), reach=['end']))
    hs.append(H('flow/switchboard', chain(
        [SB(3, [2, 0, 1, 0]), CL(2, 1, 2, 'p', 'SFA2'), I(2)], 3, 2),
        reach=['end']))
    hs.append(H('flow/layer', chain(
        [CL(2, 1, 2, 'p', 'SFA2'), S1(2, 1, 'q')], 4, 2), reach=['end']))
    hs.append(H('flow/node', chain(
        [S1(2, 2, 'p'), FN(SB(2, [1, 0]), Q(2)), S1(5, 1, 'q')], 2, 2),
        reach=['end']))
    if not q:
        hs.append(H('flow/sfa2 sfa2', chain(
            [S1(1, 2, 'p', cls='SFA2'), S1(2, 1, 'q', cls='SFA2')], 1, 4),
            reach=['end']))
        hs.append(H('flow/layer of flows', chain([
            lambda S: __import__('bimdp').hinet.CloneBiLayer(FN(
                SB(2, [1, 0]), S1(2, 1, 'p', cls='SFA2'))(S), n_nodes=2)],
            4, 2), reach=['end']))
    hs.append(H('refused', refused(), reach=['end']))
    return hs
