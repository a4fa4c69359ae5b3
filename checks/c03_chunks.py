"""C03: what a node learns does not depend on how its training data are cut
into chunks."""
from symx import lib
from symx.lib import A

BOUNDS = ('<=5 samples of <=3 variables, every composition into <=3 chunks '
          '(thorough: <=7 samples, <=4 chunks), all real data values; labels '
          'enumerated over two or three classes; LAPACK results are '
          'arbitrary functions of their argument')
ASSUMPTIONS = ['LAPACK routines are functions of their argument: equal '
               'matrices give equal decompositions']

IGN = ('_train_seq',)


def H(name, fn, **o):
    return (name, fn, o)


def poison(x):
    """overwrite an array that was handed to train"""
    x *= 0
    x -= 7


def unsup(make, T, n, kmax=3, dtype='d', exe=True, ignore=(), minlen=1,
          exec_rows=1, distinct=False):
    def f(S):
        x = S.array('x', (T, n), dtype=dtype)
        x0 = x.copy()
        if distinct:
            for j in range(n):
                S.assume(S.all([x[p, j] != x[q, j] for p in range(T)
                                for q in range(p)]))
        sizes = S.choose('sizes', lib.splits(T, kmax, minlen))
        a, b = make(S), make(S)
        phases = len(a._get_train_seq())
        for ph in range(phases):
            a.train(x)
            for ch in lib.chunks(x, sizes):
                ch = ch.copy()
                cp = ch.copy()
                b.train(ch)
                S.eq(ch, cp, 'training leaves the chunks alone')
                poison(ch)
            ra, rb = lib.outcome(a.stop_training), lib.outcome(b.stop_training)
            S.check(ra is rb, 'same outcome of stop_training')
            if ra is not None:
                return
        S.eq(x, x0, 'training leaves the data alone')
        lib.same_state(S, a, b, 'state', IGN + tuple(ignore))
        if exe:
            z = S.array('z', (exec_rows, n), dtype=dtype)
            lib.same_value(S, a.execute(z), b.execute(z), 'output')
        S.reach('end')
    return f


def sup(make, T, n, labs, kmax=3, dtype='d', exe=None, ignore=(),
        scalar=False, assume=None, state=True, ties=None):
    def f(S):
        import numpy
        x = S.array('x', (T, n), dtype=dtype)
        x0 = x.copy()
        if assume:
            assume(S, x)
        lab = S.choose('labels', labs)
        sizes = S.choose('sizes', lib.splits(T, kmax))
        kind = S.choose('container', ['array', 'list'])
        wrap = numpy.array if kind == 'array' else list
        a, b = make(S), make(S)
        for ph in range(len(a._get_train_seq())):
            a.train(x, wrap(lab))
            i = 0
            for s in sizes:
                l = lab[i:i + s]
                ch = x[i:i + s].copy()
                if len(set(l)) == 1 and scalar:
                    b.train(ch, l[0])
                else:
                    b.train(ch, wrap(l))
                S.eq(ch, x0[i:i + s], 'training leaves the chunks alone')
                poison(ch)
                i += s
            ra, rb = lib.outcome(a.stop_training), lib.outcome(b.stop_training)
            S.check(ra is rb, 'same outcome of stop_training')
            if ra is not None:
                return
        S.eq(x, x0, 'training leaves the data alone')
        if state:
            lib.same_state(S, a, b, 'state', IGN + tuple(ignore))
        if exe:
            z = S.array('z', (1, n), dtype=dtype)
            if ties:
                S.assume(S.all([c != 0 for c in ties(S, a, x, lab, z)]))
            lib.same_value(S, exe(a, z), exe(b, z), 'output')
        S.reach('end')
    return f


def _sq(a, b):
    return lib.ssum((p - q) * (p - q) for p, q in zip(a, b))


def _pairdiff(xs):
    return [xs[i] - xs[j] for i in range(len(xs)) for j in range(i)]


def regression(make, T, n, m):
    def f(S):
        x, y = S.array('x', (T, n)), S.array('y', (T, m))
        sizes = S.choose('sizes', lib.splits(T, 3))
        a, b = make(S), make(S)
        a.train(x, y)
        for cx, cy in zip(lib.chunks(x, sizes), lib.chunks(y, sizes)):
            cx, cy = cx.copy(), cy.copy()
            b.train(cx, cy)
            poison(cx)
            poison(cy)
        ra, rb = lib.outcome(a.stop_training), lib.outcome(b.stop_training)
        S.check(ra is rb, 'same outcome of stop_training')
        if ra is not None:
            return
        lib.same_state(S, a, b, 'state', IGN)
        z = S.array('z', (1, n))
        S.eq(a.execute(z), b.execute(z), 'output')
        S.reach('end')
    return f


def order_h(make, T1, T2, n):
    """chunks are independent sequences: their order does not matter"""
    def f(S):
        x, y = S.array('x', (T1, n)), S.array('y', (T2, n))
        a, b = make(S), make(S)
        a.train(x)
        a.train(y)
        b.train(y)
        b.train(x)
        ra, rb = lib.outcome(a.stop_training), lib.outcome(b.stop_training)
        S.check(ra is rb, 'same outcome of stop_training')
        if ra is not None:
            return
        lib.same_state(S, a, b, 'state', IGN)
        S.reach('end')
    return f


def flow_h(T, n):
    """the same through Flow.train with iterables of chunks, two nodes"""
    def f(S):
        import mdp
        x = S.array('x', (T, n))
        sizes = S.choose('sizes', lib.splits(T, 2))

        def flow():
            return mdp.Flow([mdp.nodes.WhiteningNode(reduce=False),
                             mdp.nodes.LinearRegressionNode()])
        y = S.array('y', (T, 1))
        a = mdp.Flow([mdp.nodes.PCANode(), mdp.nodes.LinearRegressionNode()])
        b = mdp.Flow([mdp.nodes.PCANode(), mdp.nodes.LinearRegressionNode()])
        xs, ys = list(lib.chunks(x, sizes)), list(lib.chunks(y, sizes))
        ra = lib.outcome(a.train, [[x], [(x, y)]])
        rb = lib.outcome(b.train, [xs, list(zip(xs, ys))])
        S.check(ra is rb, 'same outcome of training')
        if ra is not None:
            return
        z = S.array('z', (1, n))
        S.eq(a.execute(z), b.execute(z), 'flow output')
        S.reach('end')
    return f


def harnesses(tier):
    big = tier != 'quick'
    hs = []

    def node(cls, *a, **k):
        def make(S):
            import mdp
            return getattr(mdp.nodes, cls)(*a, **k)
        return make

    def u(name, mk, T, n, **k):
        o = k.pop('o', {})
        hs.append(H(name, unsup(mk, T, n, **k), reach=['end'], **o))
    t = 5 if big else 4
    km = 4 if big else 3
    un = dict(linalg_full=False)
    u('pca', node('PCANode'), t, 2, kmax=km, o=un)
    u('pca/out1', node('PCANode', output_dim=1), t, 3 if big else 2,
      kmax=km, o=un)
    u('pca/svd', node('PCANode', svd=True), t, 2, kmax=km, o=un)
    u('pca/reduce', node('PCANode', reduce=True), 3, 2, kmax=2, o=un)
    u('pca/variance', node('PCANode', output_dim=0.9), 3 if big else 2, 2,
      kmax=2, o=un)
    u('whitening', node('WhiteningNode'), t, 2, kmax=km, o=un)
    u('histogram', node('HistogramNode'), t, 2, kmax=km)
    u('histogram/int', node('HistogramNode'), t, 2, kmax=km, dtype='l')
    u('adaptivecutoff', node('AdaptiveCutoffNode', 0.3, 0.3), 3, 2, kmax=km)
    u('hitparade', node('HitParadeNode', 2, 1), 4 if big else 3, 1, kmax=km,
      distinct=True)
    if not big:
        u('hitparade/two', node('HitParadeNode', 2, 1), 4, 1, kmax=2,
          distinct=True, exe=False)
    u('normalizing', node('NormalizingRecursiveExpansionNode', 2), 3, 1,
      kmax=km, exe=False, ignore=('domain_transformation',))
    u('normalizing/legendre', node(
        'NormalizingRecursiveExpansionNode', 2, 'legendre_poly', check=False),
      3, 1, kmax=km, exe=False, ignore=('domain_transformation',))
    u('cumulator', lambda S: __import__('mdp').Cumulator(), t, 2, kmax=km,
      exe=False)
    u('hopfield', node('DiscreteHopfieldClassifier'), 3, 2, kmax=km,
      dtype='b', exe=False)

    import itertools
    labs = [l for l in itertools.product([0, 1], repeat=4)
            if 0 in l and 1 in l]
    if not big:
        labs = [l for l in labs if l[0] == 0][:6]
    labs3 = [(0, 1, 0), (0, 0, 1), (2, 1, 2), (1, 1, 0)]

    def s(name, mk, T, n, labs, **k):
        o = k.pop('o', {})
        hs.append(H(name, sup(mk, T, n, labs, **k), reach=['end'], **o))
    lab = lambda a, z: a.label(z)
    ex = lambda a, z: a.execute(z)
    s('fda', node('FDANode'), 4, 2, labs[:4], exe=ex, scalar=True, o=un)
    s('fda/out1', node('FDANode', output_dim=1), 4, 2, labs[2:4], exe=ex, o=un)
    s('nearestmean', node('NearestMeanClassifier'), 4, 2, labs,
      scalar=True)
    s('nearestmean/label', node('NearestMeanClassifier'), 3, 1,
      [(0, 1, 0), (1, 0, 0)], exe=lab, scalar=True, state=False,
      ties=lambda S, a, x, l, z: [
          d for d in _pairdiff([_sq(m, z[0]) for m in
                                a.label_means.values()])])
    s('knn', node('KNNClassifier', k=1), 3, 1, labs3, exe=lab, scalar=True,
      state=False, ties=lambda S, a, x, l, z: _pairdiff(
          [_sq(x[i], z[0]) for i in range(3)]))
    s('perceptron', node('PerceptronClassifier'), 2, 2,
      [(1, -1), (-1, -1), (1, 1)], scalar=True)
    s('classcumulator', lambda S: __import__(
        'mdp').ClassifierCumulator(), 3, 2, labs3, scalar=True)
    s('gaussian', node('GaussianClassifier'), 4, 1 if not big else 2,
      [(0, 1, 0, 1), (0, 0, 1, 1), (1, 0, 0, 1)],
      exe=lambda a, z: a.class_probabilities(z), scalar=True)
    for bias in (True, False):
        hs.append(H('regression/bias%d' % bias, regression(
            node('LinearRegressionNode', with_bias=bias), 4, 2, 2),
            reach=['end'], inv_stub=True, linalg_full=False))
    hs.append(H('regression/pinv', regression(
        node('LinearRegressionNode', use_pinv=True), 4, 2, 1),
        reach=['end'], linalg_full=False, inv_stub=True))
    for nm, mk in (('sfa', node('SFANode')),
                   ('sfa/nolast', node('SFANode', include_last_sample=False)),
                   ('sfa2', node('SFA2Node')),
                   ('eta', node('EtaComputerNode')),
                   ('isfa', node('ISFANode', lags=1, whitened=True,
                                 max_iter=0))):
        if nm in ('isfa',):
            continue
        hs.append(H('order/' + nm, order_h(
            mk, 3, 2, 1 if nm == 'sfa2' else 2), reach=['end'],
            linalg_full=False))
    hs.append(H('flow', flow_h(3, 2), reach=['end'], linalg_full=False,
                inv_stub=True))
    return hs
