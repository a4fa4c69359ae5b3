"""C05: execution is a pure function applied to every observation on its own."""
from symx import lib
from symx.lib import A

BOUNDS = ('batches of 2 rows (thorough: 3), <=3 variables, all real data '
          'values and all values of the fitted parameters; exp/sin and LAPACK '
          'results are arbitrary functions of their argument')


def H(name, fn, **o):
    return (name, fn, o)


def fitted(node, n, m, dtype='d', **attrs):
    """put a node into the state it has after training"""
    import numpy
    node._input_dim = n
    node._output_dim = m
    node._dtype = numpy.dtype(dtype)
    node._training = False
    node._train_phase = len(node._get_train_seq())
    for k, v in attrs.items():
        setattr(node, k, v)
    return node


def rowwise(make, n, m=None, T=2, inverse=True, dtype='d', call=None,
            lo=None, hi=None, pre=None, trained=False):
    def f(S):
        node = make(S)
        x = S.array('x', (T, n), dtype=dtype, lo=lo, hi=hi)
        x0 = x.copy()
        if pre:
            pre(S, node, x)
        if trained:
            x1 = S.array('t', (3, n), dtype=dtype, lo=lo, hi=hi)
            if lib.outcome(node.train, x1) or lib.outcome(
                    node.stop_training):
                return
        run = call or (lambda nd, z: nd.execute(z))
        snap = dict((k, _cp(v)) for k, v in node.__dict__.items())
        y = run(node, x)
        S.eq(x, x0, 'execute leaves its input alone')
        if not isinstance(y, (list, tuple)):
            S.check(y.shape[0] == T, 'one output row per observation')
            if call is None:
                S.check(tuple(y.shape) == (T, node.output_dim),
                        'output has the shape (observations, output_dim)')
            S.log('dtype', str(y.dtype)) if False else None
        for i in range(T):
            yi = run(node, x[i:i + 1])
            lib.same_value(S, y[i:i + 1], yi, 'row %s alone' % ('of batch'))
        y2 = run(node, x)
        lib.same_value(S, y, y2, 'executing again gives the same result')
        for k, v in snap.items():
            if k in PARAMS:
                lib.same_value(S, v, node.__dict__[k], 'parameters unchanged')
        if inverse and call is None and node.is_invertible():
            z = S.array('z', (T, node.output_dim), dtype=dtype)
            z0 = z.copy()
            w = node.inverse(z)
            S.eq(z, z0, 'inverse leaves its input alone')
            S.check(tuple(w.shape) == (T, node.input_dim),
                    'inverse has the shape (observations, input_dim)')
            for i in range(T):
                S.eq(node.inverse(z[i:i + 1]), w[i:i + 1],
                     'inverse of one row alone')
        S.reach('end')
    return f


PARAMS = ('v', 'd', 'avg', 'sf', '_bias', 'beta', 'A', 'mu', 'sigma',
          'E_y_mtx', 'filters', 'RP', 'w', 'bv', 'bh', '_centers', '_sizes',
          'lower_bounds', 'upper_bounds', 'weights', 'offset_weight')


def _cp(v):
    return v.copy() if hasattr(v, 'copy') and hasattr(v, 'shape') else v


def harnesses(tier):
    T = 2 if tier == 'quick' else 3
    hs = []

    def add(name, make, n, **k):
        o = k.pop('o', {})
        o.setdefault('reach', ['end'])
        hs.append(H(name, rowwise(make, n, T=k.pop('T', T), **k), **o))

    def mdpn():
        import mdp
        return mdp.nodes

    for cls in ('PCANode', 'WhiteningNode'):
        add(cls, lambda S, cls=cls: fitted(
            getattr(mdpn(), cls)(), 3, 2, v=S.array('v', (3, 2)),
            avg=S.array('m', (1, 3)),
            d=S.array('d', (2,), lo=1)), 3)
    add('PCANode/n', lambda S: fitted(
        mdpn().PCANode(), 3, 2, v=S.array('v', (3, 2)),
        avg=S.array('m', (1, 3))), 3, call=lambda nd, z: nd.execute(z, n=1))
    for cls in ('SFANode', 'VartimeSFANode', 'GSFANode'):
        add(cls, lambda S, cls=cls: fitted(
            getattr(mdpn(), cls)(), 2, 2, sf=S.array('v', (2, 2)),
            avg=S.array('m', (2,)), _bias=S.array('b', (2,))), 2,
            o=dict(inv_stub=True))
    add('SFA2Node', lambda S: fitted(
        mdpn().SFA2Node(input_dim=2), 2, 2, sf=S.array('v', (5, 2)),
        avg=S.array('m', (5,)), _bias=S.array('b', (2,))), 2)
    add('FDANode', lambda S: fitted(
        mdpn().FDANode(), 2, 2, v=S.array('v', (2, 2)),
        avg=S.array('m', (2,))), 2, o=dict(inv_stub=True))
    for wb in (True, False):
        add('LinearRegressionNode/%d' % wb, lambda S, wb=wb: fitted(
            mdpn().LinearRegressionNode(with_bias=wb), 2, 2,
            beta=S.array('b', (2 + wb, 2))), 2)
    add('FANode', lambda S: fitted(
        mdpn().FANode(), 3, 2, mu=S.array('mu', (1, 3)),
        E_y_mtx=S.array('E', (3, 2))), 3)
    add('CuBICANode', lambda S: fitted(
        mdpn().CuBICANode(whitened=True), 2, 2,
        filters=S.array('f', (2, 2))), 2)
    add('CuBICANode/white', lambda S: fitted(
        mdpn().CuBICANode(), 3, 2, filters=S.array('f', (2, 2)),
        white=fitted(mdpn().WhiteningNode(), 3, 2, v=S.array('v', (3, 2)),
                     avg=S.array('m', (1, 3)), d=S.array('d', (2,)))), 3)
    add('ISFANode', lambda S: fitted(
        mdpn().ISFANode(whitened=True), 2, 2, RP=S.array('f', (2, 2))), 2)
    add('RBMNode', lambda S: fitted(
        mdpn().RBMNode(2), 2, 2, w=S.array('w', (2, 2)), bv=S.array('bv', (2,)),
        bh=S.array('bh', (2,)), _initialized=True), 2)
    add('IdentityNode', lambda S: mdpn().IdentityNode(), 2)
    add('PolynomialExpansionNode', lambda S: mdpn().PolynomialExpansionNode(
        3), 2)
    add('PolynomialExpansionNode/int',
        lambda S: mdpn().PolynomialExpansionNode(2), 2, dtype='l')
    add('QuadraticExpansionNode', lambda S: mdpn().QuadraticExpansionNode(), 3)
    for r in ('standard_poly', 'legendre_poly', 'legendre_rational',
              'chebyshev_poly'):
        add('RecursiveExpansionNode/' + r,
            lambda S, r=r: mdpn().RecursiveExpansionNode(3, recf=r), 2,
            lo=0)
        add('NormalizingRecursiveExpansionNode/' + r,
            lambda S, r=r: mdpn().NormalizingRecursiveExpansionNode(
                2, recf=r, check=False), 1 if r != 'standard_poly' else 2,
            trained=True, lo=0)
    add('RBFExpansionNode', lambda S: mdpn().RBFExpansionNode(
        S.array('c', (2, 2)), S.array('s', (2,), lo=1)), 2)
    add('RBFExpansionNode/aniso', lambda S: mdpn().RBFExpansionNode(
        S.array('c', (1, 2)), S.array('s', (1, 2, 2), lo=1)), 2,
        o=dict(inv_stub=True))
    add('GeneralExpansionNode', lambda S: mdpn().GeneralExpansionNode(
        [lambda x: x, lambda x: x[:, :1] * x, lambda x: S.np.exp(x)]), 2)
    add('CutoffNode', lambda S: mdpn().CutoffNode(-1, 2), 2)
    add('CutoffNode/lower', lambda S: mdpn().CutoffNode(lower_bound=-1), 2)
    add('CutoffNode/upper', lambda S: mdpn().CutoffNode(upper_bound=1), 2)
    add('AdaptiveCutoffNode/lower', lambda S: fitted(
        mdpn().AdaptiveCutoffNode(), 2, 2,
        lower_bounds=S.array('lo', (2,))), 2)
    add('AdaptiveCutoffNode/upper', lambda S: fitted(
        mdpn().AdaptiveCutoffNode(), 2, 2,
        upper_bounds=S.array('hi', (2,))), 2)
    add('AdaptiveCutoffNode', lambda S: fitted(
        mdpn().AdaptiveCutoffNode(), 2, 2,
        lower_bounds=S.array('lo', (2,)), upper_bounds=S.array('hi', (2,))), 2)
    for cls in ('HistogramNode', 'EtaComputerNode'):
        add(cls, lambda S, cls=cls: fitted(getattr(mdpn(), cls)(), 2, 2), 2,
            inverse=False)
    add('HitParadeNode', lambda S: fitted(mdpn().HitParadeNode(1), 2, 2), 2)
    lab = lambda nd, z: nd.label(z)
    add('SignumClassifier', lambda S: mdpn().SignumClassifier(), 2, call=lab)
    add('PerceptronClassifier', lambda S: fitted(
        mdpn().PerceptronClassifier(), 2, 2, weights=S.array('w', (2,)),
        offset_weight=S.real('o')), 2, call=lab)
    add('NearestMeanClassifier', lambda S: fitted(
        mdpn().NearestMeanClassifier(), 2, 2, ordered_labels=[5, 3],
        ordered_means=S.array('m', (2, 2))), 2, call=lab)
    add('KNNClassifier', lambda S: fitted(
        mdpn().KNNClassifier(k=1), 1, 1, ordered_labels=[5, 3],
        samples=S.array('m', (2, 1)), n_samples=2,
        sample_label_indices=__import__('numpy').array([0, 1])), 1, call=lab,
        pre=_knn_pre)
    add('GaussianClassifier', lambda S: fitted(
        mdpn().GaussianClassifier(), 2, 2, labels=[1, 2],
        inv_covs=[S.array('i1', (2, 2)), S.array('i2', (2, 2))],
        means=[S.array('m1', (2,)), S.array('m2', (2,))],
        p=[0.25, 0.75], _sqrt_def_covs=[S.real('q1', lo=1), S.real(
            'q2', lo=1)]), 2, call=lambda nd, z: nd.class_probabilities(z))
    add('KMeansClassifier', lambda S: fitted(
        mdpn().KMeansClassifier(2), 1, 1, _centroids=S.array('c', (2, 1))),
        1, call=lab)

    def hinet():
        import mdp
        return mdp.hinet
    add('Switchboard', lambda S: hinet().Switchboard(3, [2, 0, 2]), 3)
    add('Layer', lambda S: hinet().Layer([
        fitted(mdpn().LinearRegressionNode(), 1, 1, beta=S.array('b', (2, 1))),
        mdpn().QuadraticExpansionNode(input_dim=2)]), 3)
    add('SameInputLayer', lambda S: hinet().SameInputLayer([
        mdpn().IdentityNode(input_dim=2),
        mdpn().QuadraticExpansionNode(input_dim=2)]), 2)
    add('FlowNode', lambda S: hinet().FlowNode(_flow(
        [mdpn().QuadraticExpansionNode(input_dim=1), fitted(
            mdpn().PCANode(), 2, 1, v=S.array('v', (2, 1)),
            avg=S.array('m', (1, 2)))])), 1)

    def ccipca(S, cls):
        nd = getattr(mdpn(), cls)()
        return fitted(nd, 3, 2, v=S.array('v', (3, 2)),
                      d=S.array('d', (2,), lo=1), _init_v=1,
                      _train_phase_started=True,
                      _numx_rng=__import__('numpy').random.RandomState(0))
    for cls in ('CCIPCANode', 'CCIPCAWhiteningNode', 'MCANode'):
        add(cls, lambda S, cls=cls: ccipca(S, cls), 3)
    add('MultinomialNB/Markov', lambda S: _markov(), 1, dtype='l', lo=0, hi=2,
        call=lambda nd, z: nd.prob(z))
    return hs


def _knn_pre(S, node, x):
    """no ties between the distances"""
    m = node.samples
    for i in range(x.shape[0]):
        S.assume(2 * x[i, 0] != m[0, 0] + m[1, 0])
    S.assume(m[0, 0] != m[1, 0])


def _flow(nodes):
    import mdp
    return mdp.Flow(nodes)


def _markov():
    import mdp
    import numpy
    nd = mdp.nodes.SimpleMarkovClassifier()
    nd.train(numpy.array([[0], [1], [0], [1]]), [0, 0, 1, 1])
    nd.stop_training()
    return nd
