"""C33: the graphs of GSFANode."""
import contextlib
import os
import sys

from checks.c27_spectral import upto_sign

BOUNDS = ('up to 8 samples of 1-2 variables (all values), every training mode '
          'except the experimental smart_unlabeled ones: all weights, block '
          'sizes 1-3, window half widths 1-3, all orders of labels listed, '
          'histories of two updates; training of mixtures of two signals '
          'with any mean and any two variances')
ASSUMPTIONS = ['LAPACK eigensolvers return an orthonormal eigenbasis in '
               'ascending order of the eigenvalues']


def H(name, fn, **o):
    o.setdefault('compare', False)
    o.setdefault('reach', ['end'])
    return (name, fn, o)


class Graph(object):
    """nodes: [(sample, weight)], edges: [(sample, sample, weight)]"""

    def __init__(self, nodes, edges, num_samples=None, num_diffs=None):
        self.nodes, self.edges = nodes, edges
        self.num_samples, self.num_diffs = num_samples, num_diffs

    def sums(self, S, x, w=1.0):
        d = x.shape[1]
        sx, sxx, sdd = [0] * d, {}, {}
        n = r = 0
        for i, v in self.nodes:
            n = n + v
        for i, j, e in self.edges:
            r = r + e
        for a in range(d):
            for i, v in self.nodes:
                sx[a] = sx[a] + w * v * x[i, a]
            for b in range(d):
                t = 0
                for i, v in self.nodes:
                    t = t + w * v * x[i, a] * x[i, b]
                sxx[a, b] = t
                t = 0
                for i, j, e in self.edges:
                    t = t + w * e * (x[j, a] - x[i, a]) * (x[j, b] - x[i, b])
                sdd[a, b] = t
        return (sx, sxx, sdd, w * n,
                w * (r if self.num_diffs is None else self.num_diffs))


def joined(graphs):
    """[(x, Graph, weight)] -> the sum of all of them"""
    tot = None
    for p in graphs:
        if tot is None:
            tot = p
            continue
        tot = ([a + b for a, b in zip(tot[0], p[0])],
               dict((k, tot[1][k] + p[1][k]) for k in p[1]),
               dict((k, tot[2][k] + p[2][k]) for k in p[2]),
               tot[3] + p[3], tot[4] + p[4])
    return tot


def ones(T):
    return [(i, 1) for i in range(T)]


def regular(T):
    return Graph(ones(T), [(t, t + 1, 1) for t in range(T - 1)])


def unlabeled(T):
    return Graph(ones(T), [])


def clustered(blocks, loops=True):
    """blocks: lists of samples"""
    n, e = [], []
    for b in blocks:
        n += [(i, 1) for i in b]
        e += [(i, j, 1.0 / (len(b) if loops else len(b) - 1))
              for i in b for j in b if loops or i != j]
    return Graph(n, e)


def serial(order, bs):
    B = [order[i:i + bs] for i in range(0, len(order), bs)]
    n = []
    for k, b in enumerate(B):
        n += [(i, 1 if k in (0, len(B) - 1) else 2) for i in b]
    e = []
    for p, q in zip(B, B[1:]):
        for i in p:
            for j in q:
                e += [(i, j, 1.0 / bs), (j, i, 1.0 / bs)]
    return Graph(n, e)


def blocks(sizes):
    out, k = [], 0
    for s in sizes:
        out.append(list(range(k, k + s)))
        k += s
    return out


def weighted(g, w):
    return Graph([(i, v * w) for i, v in g.nodes],
                 [(i, j, e * w) for i, j, e in g.edges])


def union(*gs):
    return Graph(sum([g.nodes for g in gs], []),
                 sum([g.edges for g in gs], []))


def window(T, w, both=False):
    # end samples have fewer neighbours
    v = []
    for i in range(T):
        k = min(i, T - 1 - i)
        v.append((i, 1 if k >= w else (w + k) / (2.0 * w)))
    e = [(i, i + k, 1) for k in range(1, w + 1) for i in range(T - k)]
    if both:
        e += [(j, i, c) for i, j, c in e]
    return Graph(v, e)


def mirrored(T, w):
    def at(i):
        return -1 - i if i < 0 else (2 * T - 1 - i if i >= T else i)
    e = [(i, at(i + k), 1) for i in range(T) for k in range(-w, w + 1) if k]
    return Graph(ones(T), e)


def compare(S, m, want, msg):
    sx, sxx, sdd, n, r = want
    d = len(sx)
    S.check(tuple(m.sum_x.shape) == (d,) and
            tuple(m.sum_prod_x.shape) == (d, d), msg + ': shapes')
    S.eq(m.num_samples, n, msg + ': total node weight')
    S.eq(m.num_diffs, r, msg + ': total edge weight')
    for a in range(d):
        S.eq(m.sum_x[a], sx[a], msg + ': weighted sum of the samples')
        for b in range(d):
            S.eq(m.sum_prod_x[a, b], sxx[a, b],
                 msg + ': weighted second moments')
            S.eq(0 if m.sum_prod_diffs is None else m.sum_prod_diffs[a, b],
                 sdd[a, b], msg + ': weighted squared differences')


def fixed(S, m, want, msg):
    """averages over nodes and edges"""
    sx, sxx, sdd, n, r = want
    d = len(sx)
    for unb in (False, True):
        cov, avg, dcov = m.fix() if not unb else m.fix(False)
        q = n - 1.0 if unb else n
        for a in range(d):
            S.eq(avg[a] * n, sx[a], msg + ': average')
            for b in range(d):
                S.eq(cov[a, b] * q * n, sxx[a, b] * n - sx[a] * sx[b],
                     msg + ': covariance')
                S.eq(dcov[a, b] * r, sdd[a, b],
                     msg + ': derivative covariance')


def modes(T, bs):
    """(label, train_mode, kwargs of train, graph)"""
    n = list(range(T))
    half = {2: [1, 0], 4: [2, 0, 3, 1], 6: [3, 5, 0, 1, 4, 2],
            8: [1, 9, 3, 0, 2, 8, 7, 6]}[T]
    cls = {2: [1, 0], 4: [7, 2, 7, 2], 6: [2, 0, 2, 2, 2, 0],
           8: [1, 1, 0, 3, 0, 0, 0, 3]}[T]
    out = [('regular', 'regular', {}, regular(T)),
           ('default', None, {}, regular(T)),
           ('unlabeled', 'unlabeled', {}, unlabeled(T)),
           ('ignore', ['ignore_data', 'regular'], {}, regular(T)),
           ('list', ['regular', 'clustered'], dict(block_size=bs),
            union(regular(T), clustered(blocks([bs] * (T // bs))))),
           ('clustered', 'clustered', dict(block_size=bs),
            clustered(blocks([bs] * (T // bs)))),
           ('serial', 'serial', dict(block_size=bs), serial(n, bs)),
           ('serial list', 'serial', dict(block_size=[bs] * (T // bs)),
            serial(n, bs)),
           ('regression', ('serial_regression%d' % bs, half, 1.0), {},
            serial(sorted(n, key=lambda i: half[i]), bs)),
           ('regression in a list',
            [('serial_regression%d' % bs, half, 0.5), 'clustered'],
            dict(block_size=T),
            union(weighted(serial(sorted(n, key=lambda i: half[i]), bs), 0.5),
                  clustered([n]))),
           ('classification', ('classification', cls, 2.0), {},
            weighted(clustered([[i for i in n if cls[i] == c]
                                for c in sorted(set(cls))]), 2.0))]
    if T > 2:
        out.append(('clustered list', 'clustered',
                    dict(block_size=[1, 1, 2] if T == 4 else [2, T - 4, 2]),
                    clustered(blocks([1, 1, 2] if T == 4 else [2, T - 4, 2]))))
        B = blocks([bs] * (T // bs))
        out.append(('mixed', 'mixed', dict(block_size=bs),
                    union(weighted(clustered(B[:1]), 2.0),
                          clustered(B[1:-1]),
                          weighted(clustered(B[-1:]), 2.0), serial(n, bs))))
    return out


def mode_h(T, bs, d, idx):
    label, mode, kw, g = modes(T, bs)[idx]

    def f(S):
        import mdp
        x = S.array('x', (T, d))
        x0 = x.copy()
        mode2 = mode
        if isinstance(mode, tuple):
            mode2 = (mode[0], S.np.array(mode[1]), mode[2])
        elif isinstance(mode, list):
            mode2 = [(m[0], S.np.array(m[1]), m[2])
                     if isinstance(m, tuple) else m for m in mode]
        # parameters of the constructor or of train
        if S.choose('ctor', [False, True]):
            node = mdp.nodes.GSFANode(train_mode=mode2, **kw)
            node.train(x)
        else:
            node = mdp.nodes.GSFANode(train_mode='none', block_size=97) \
                if mode is not None else mdp.nodes.GSFANode()
            node.train(x, train_mode=mode2, **kw)
        S.eq(x, x0, 'input unchanged')
        m = node._covdcovmtx
        want = g.sums(S, x0)
        compare(S, m, want, label)
        # a second batch of another kind
        y = S.array('y', (3, d))
        node.train(y, train_mode='regular')
        want = joined([want, regular(3).sums(S, y)])
        compare(S, m, want, label + ', then regular')
        fixed(S, m, want, label)
        S.reach('end')
    return f


def window_h(w, T, d):
    def f(S):
        import mdp
        kinds = [('window', window(T, w)), ('fwindow', window(T, w, True)),
                 ('mirror_window', mirrored(T, w)),
                 ('smirror_window', mirrored(T, w)),
                 ('truncating', Graph(ones(T), window(T, w, True).edges))]
        name, g = S.choose('kind', kinds)
        x = S.array('x', (T, d))
        x0 = x.copy()
        if name == 'truncating':
            m = sys_cov()()
            if T <= 2 * w:
                S.must_raise(ValueError, 'window too large',
                             m.update_slow_truncating_sliding_window, x, 1.0,
                             w)
                S.reach('end')
                return
            m.update_slow_truncating_sliding_window(x, 1.0, w)
        else:
            node = mdp.nodes.GSFANode(train_mode='%s%d' % (name, w))
            if T <= 2 * w:
                S.must_raise((ValueError, mdp.TrainingException),
                             'window too large', node.train, x)
                S.reach('end')
                return
            node.train(x)
            m = node._covdcovmtx
        S.eq(x, x0, 'input unchanged')
        want = g.sums(S, x0)
        compare(S, m, want, name)
        fixed(S, m, want, name)
        S.reach('end')
    return f


def sys_cov():
    return sys.modules['mdp.nodes'].GSFANode.__init__.__globals__[
        'CovDCovMatrix']


def weights_h(T, d):
    """the methods of CovDCovMatrix with a weight; sums of matrices"""
    def f(S):
        w = S.real('w')
        x = S.array('x', (T, d))
        n = list(range(T))
        bs = T // 2
        calls = [
            ('unlabeled', 'update_unlabeled', {}, unlabeled(T)),
            ('regular', 'update_regular', {}, regular(T)),
            ('serial', 'update_serial', dict(block_size=bs), serial(n, bs)),
            ('clustered', 'update_clustered', dict(block_sizes=bs),
             clustered(blocks([bs, T - bs]))),
            ('no loops', 'update_clustered',
             dict(block_sizes=bs, include_self_loops=False),
             Graph(ones(T), clustered(blocks([bs] * 2), False).edges,
                   num_diffs=T)),
            ('no loops, list', 'update_clustered',
             dict(block_sizes=[bs, bs], include_self_loops=False),
             Graph(ones(T), clustered(blocks([bs] * 2), False).edges,
                   num_diffs=T)),
            ('window', 'update_sliding_window', dict(window_halfwidth=1),
             window(T, 1)),
            ('fwindow', 'update_fast_sliding_window',
             dict(window_halfwidth=1), window(T, 1, True)),
            ('mirror', 'update_mirroring_sliding_window',
             dict(window_halfwidth=1), mirrored(T, 1)),
            ('smirror', 'update_slow_mirroring_sliding_window',
             dict(window_halfwidth=1), mirrored(T, 1)),
            ('truncating', 'update_slow_truncating_sliding_window',
             dict(window_halfwidth=1),
             Graph(ones(T), window(T, 1, True).edges))]
        name, meth, kw, g = S.choose('call', calls)
        C = sys_cov()
        m = C()
        getattr(m, meth)(x, weight=w, **kw)
        want = g.sums(S, x, w)
        compare(S, m, want, name + ' weighted')
        # twice
        getattr(m, meth)(x, weight=2.0, **kw)
        want = joined([want, g.sums(S, x, 2.0)])
        compare(S, m, want, name + ' weighted, twice')
        # sum of two matrices
        y = S.array('y', (2, d))
        o = C()
        o.update_regular(y)
        two = regular(2).sums(S, y)
        a = S.real('a')
        fresh = C()
        fresh.add_cov_dcov_matrix(o, adding_weight=a)
        compare(S, fresh, regular(2).sums(S, y, a), 'copy')
        b = S.real('b')
        m.add_cov_dcov_matrix(o, adding_weight=a, own_weight=b)
        compare(S, m, joined([scaled(want, b), scaled(two, a)]),
                'weighted sum of matrices')
        compare(S, o, two, 'the other matrix is left alone')
        S.reach('end')
    return f


def scaled(p, w):
    return ([v * w for v in p[0]], dict((k, v * w) for k, v in p[1].items()),
            dict((k, v * w) for k, v in p[2].items()), p[3] * w, p[4] * w)


def graph_h(T, d):
    def f(S):
        import mdp
        x = S.array('x', (T, d))
        v = S.vec('v', T)
        old = S.choose('mode', ['graph', 'graph_old'])
        kind = S.choose('edges', ['array', 'dict', 'sparse'])
        E = S.array('e', (T, T))
        if kind == 'sparse':
            edges = dict(((i, j), E[i, j]) for i, j in
                         [(0, 1), (2, 0), (1, 1)])
        else:
            edges = dict(((i, j), E[i, j]) for i in range(T)
                         for j in range(T))
        arg = E if kind == 'array' else edges
        nodes = S.choose('nodes', [True, False])
        node = mdp.nodes.GSFANode()
        for bad in (S.zeros((T + 1,)), S.zeros((T - 1,))):
            S.must_raise(mdp.TrainingException, 'number of node weights',
                         node.train, x, None, old, bad, arg)
        S.must_raise(mdp.TrainingException, 'no edge weights', node.train, x,
                     None, old, v, None)
        for shape in ((T + 1, T + 1), (T, T + 1)):
            S.must_raise(mdp.TrainingException, 'shape of the edge weights',
                         node.train, x, None, old, v, S.zeros(shape))
        if nodes:
            node.train(x, train_mode=old, node_weights=v, edge_weights=arg)
        else:
            node.train(x, train_mode=old, edge_weights=arg)
        g = Graph([(i, v[i] if nodes else 1) for i in range(T)],
                  [(i, j, e) for (i, j), e in edges.items()])
        compare(S, node._covdcovmtx, g.sums(S, x), 'graph')
        S.reach('end')
    return f


def classes_h(S):
    """compact classes: binary labels of the classes, clustered graphs"""
    import mdp
    for_classes = {
        # number of classes, Jdes: labels of the classes, weights
        (2, 1): ([(0, 1)], [1.0]),
        (4, 2): ([(0, 0, 1, 1), (0, 1, 0, 1)], [0.5, 0.5]),
        (4, 3): ([(0, 0, 1, 1), (0, 1, 0, 1), (0, 1, 1, 0)],
                 [0.4, 0.4, 0.2]),
    }
    nc, J = S.choose('classes', sorted(for_classes))
    labels, weights = for_classes[nc, J]
    bs = S.choose('bs', [1, 2] if nc == 2 else [1])
    T = nc * bs
    x = S.array('x', (T, 1))
    gs = []
    for lab, w in zip(labels, weights):
        gs.append(weighted(clustered(
            [[i for i in range(T) if lab[i // bs] == c] for c in (0, 1)]), w))
    arg = S.choose('arg', [bs, [bs] * nc])
    node = mdp.nodes.GSFANode(block_size=arg,
                              train_mode='compact_classes%d' % J)
    node.train(x)
    compare(S, node._covdcovmtx, union(*gs).sums(S, x), 'compact classes')
    S.must_raise(ValueError, 'number of classes', node.train,
                 S.zeros((3, 1)), 1, 'compact_classes2')
    S.must_raise(ValueError, 'different block sizes', node.train,
                 S.zeros((4, 1)), [1, 3], 'compact_classes1')
    S.reach('end')


def errors_h(S):
    import mdp
    T = 4
    x = S.array('x', (T, 1))
    node = mdp.nodes.GSFANode()
    bad = S.choose('bad', [
        ('nomode', {}), (('nomode', S.np.arange(4), 1.0), {}), (7, {}),
        (['regular', 'windows2'], {}),
        ('clustered', {}), ('serial', {}), ('compact_classes1', {}),
        ('clustered', dict(block_size=3)), ('serial', dict(block_size=3)),
        ('mixed', dict(block_size=3)),
        ('compact_classes1', dict(block_size=3)),
        ('serial', dict(block_size=[1, 3])),
        ('serial', dict(block_size=S.np.array([2, 2]))),
        ('window2', {}), ('fwindow2', {}), ('mirror_window2', {}),
        ('smirror_window2', {}), ('graph', {}), ('graph_old', {})])
    S.must_raise((ValueError, TypeError, mdp.TrainingException), 'refused',
                 node.train, x, train_mode=bad[0], **bad[1])
    S.reach('end')


@contextlib.contextmanager
def quiet():
    old, sys.stdout = sys.stdout, open(os.devnull, 'w')
    try:
        yield
    finally:
        sys.stdout.close()
        sys.stdout = old


SLOW = [(1, 1, -1, -1), (1, -1, -1, 1)]


def node_h(n, verbose=False):
    """the slow signals of a mixture, for a mean over N (not N - 1)"""
    def f(S):
        import mdp
        T = 4
        dot = S.np.dot
        U = S.const([[float(c[t]) for c in SLOW] for t in range(T)])
        s = [S.np.sqrt(S.square('s%d' % i, lo=1, hi=5)) for i in range(2)]
        S.assume(s[0] < s[1])
        R = S.const(S.choose('R', [[[0.6, -0.8], [0.8, 0.6]],
                                   [[0., 1.], [1., 0.]]]))
        # the signals themselves are rotated against the axes
        Q = S.const(S.choose('Q', [[[0.8, -0.6], [0.6, 0.8]],
                                   [[1., 0.], [0., 1.]]]))
        D = S.zeros((2, 2))
        for i in range(2):
            D[i, i] = s[i]
        m = S.array('m', (1, 2))
        X = dot(dot(dot(U, Q), D), R.T) + m
        B = dot(dot(R, dot(D, D)), R.T)
        S.known_eigh(B, S.np.array([e * e for e in s]), R)
        mode = S.choose('mode', ['regular', 'graph'])
        kw = {}
        if mode == 'regular':
            g = regular(T)
        else:
            # a cycle
            g = Graph(ones(T), [(1, 2, 1), (3, 0, 1), (0, 1, 2), (2, 3, 1)])
            kw['edge_weights'] = dict(((i, j), e) for i, j, e in g.edges)
        r = sum(e for _, _, e in g.edges)
        delta = [sum(e * (c[j] - c[i]) ** 2 for i, j, e in g.edges) / float(r)
                 for c in SLOW]
        dd = S.const(delta)
        S.known_eigh(dot(Q.T * dd, Q), dd, Q.T)
        k = S.choose('output_dim', [None, 1, 2] if not verbose else [1])
        node = mdp.nodes.GSFANode(output_dim=k, train_mode=mode, block_size=2,
                                  verbose=verbose)
        with quiet():
            node.train(X, **kw)
            node.stop_training()
        k = k or 2
        S.check(node.output_dim == k, 'output_dim')
        y = node.execute(X)
        S.check(tuple(y.shape) == (T, k), 'shape')
        for i in range(k):
            upto_sign(S, y[:, i], [U[t, i] for t in range(T)],
                      'the slow signals are recovered')
            S.eq(node.d[i], delta[i], 'delta values')
        z = S.array('z', (2, 2))
        y = node.execute(z)
        y1 = node.execute(z, 1)
        S.eq(y1, y[:, :1], 'only the first components')
        S.check(node._covdcovmtx is None, 'released')
        if k == 2:
            S.eq(node.inverse(y), z, 'inverse')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for T, bs, d in [(4, 2, 2)] + ([] if q else [(6, 2, 2), (8, 4, 1),
                                                  (4, 1, 2), (2, 1, 2)]):
        for i, m in enumerate(modes(T, bs)):
            if T == 2 and m[0] in ():
                continue
            hs.append(H('mode/%s/%d-%d' % (m[0].replace(' ', '_'), T, bs),
                        mode_h(T, bs, d, i)))
    if q:
        for T, bs in [(6, 2), (4, 1), (8, 4)]:
            for i, m in enumerate(modes(T, bs)):
                if T == 6 or 'block_size' in m[2] or 'regr' in m[0]:
                    hs.append(H('mode/%s/%d-%d' % (m[0].replace(' ', '_'),
                                                   T, bs),
                                mode_h(T, bs, 1, i)))
    for w, T in [(1, 3), (1, 4), (2, 5), (2, 6), (2, 4)] + (
            [] if q else [(1, 6), (2, 8), (3, 8), (3, 7)]):
        hs.append(H('window/%d-%d' % (w, T),
                    window_h(w, T, 1 if q else 2)))
    hs.append(H('weights', weights_h(4, 1 if q else 2)))
    hs.append(H('graph', graph_h(3, 1 if q else 2)))
    hs.append(H('classes', classes_h))
    hs.append(H('errors', errors_h))
    hs.append(H('node', node_h(2), guess=True))
    hs.append(H('node/verbose', node_h(2, True), guess=True))
    return hs
