"""C28: growing neural gas and neural gas follow their learning rules."""
from symx import arr

BOUNDS = ('graphs of 2-5 nodes in 1-2 dimensions, histories of up to 6 samples '
          'of which the last 1-3 are arbitrary, every split in train calls, '
          'any learning rates, error factors and start positions; edge '
          'lifetimes 0-2, insertion every 1-3 steps; neural gas with 2-3 '
          'nodes, up to 3 epochs, every order of presentation')
ASSUMPTIONS = ['no two nodes are at exactly the same distance from a sample '
               '(numpy may order equal distances either way)']


def H(name, fn, **o):
    o.setdefault('compare', False)
    o.setdefault('reach', ['end'])
    o.setdefault('linalg_full', False)
    return (name, fn, o)


def sq(p, x):
    t = 0
    for a, b in zip(p, x):
        t = t + (a - b) * (a - b)
    return t


def first_max(vals):
    k = 0
    for i in range(1, len(vals)):
        if vals[i] > vals[k]:
            k = i
    return k


def ranked(keys):
    """indices in ascending order, ties by index"""
    out = []
    for i, v in enumerate(keys):
        k = len(out)
        while k and v < keys[out[k - 1]]:
            k -= 1
        out.insert(k, i)
    return out


class Gas(object):
    """nodes: [[position, error]] in order of creation, edges: [[a, b, age]]"""

    def __init__(self, S, poss, edges=()):
        self.S = S
        self.nodes = [[list(p), 0] for p in poss]
        self.edges = [[self.nodes[i], self.nodes[j], 0] for i, j in edges]

    def between(self, a, b):
        for e in self.edges:
            if (e[0] is a and e[1] is b) or (e[0] is b and e[1] is a):
                return e

    def neighbours(self, a):
        return ([e[0] for e in self.edges if e[1] is a] +
                [e[1] for e in self.edges if e[0] is a])

    def near(self, x):
        ds = [sq(n[0], x) for n in self.nodes]
        for i in range(len(ds)):
            for j in range(i):
                p, q = self.nodes[i][0], self.nodes[j][0]
                if len(x) == 1:
                    self.S.assume(self.S.all([p[0] != q[0],
                                              p[0] + q[0] != 2 * x[0]]))
                else:
                    self.S.assume(ds[i] != ds[j])
        return [self.nodes[i] for i in ranked(ds)]

    def link(self, a, b):
        e = self.between(a, b)
        if e is None:
            self.edges.append([a, b, 0])
        else:
            e[2] = 0

    def drop(self, max_age, among=None):
        for e in list(self.edges):
            if e[2] > max_age and (among is None or e[0] is among
                                   or e[1] is among):
                self.edges.remove(e)


class Growing(Gas):
    def __init__(self, S, poss, edges, **par):
        Gas.__init__(self, S, poss, edges)
        self.par, self.root, self.t = par, S.np.sqrt, 0

    def step(self, x):
        p = self.par
        self.t += 1
        a, b = self.near(x)[:2]
        for e in self.edges:
            if e[0] is a or e[1] is a:
                e[2] += 1
        a[1] = a[1] + self.root(sq(a[0], x))
        near = self.neighbours(a)
        for n, eps in [(a, p['eps_b'])] + [(n, p['eps_n']) for n in near]:
            n[0] = [v + eps * (w - v) for v, w in zip(n[0], x)]
        self.link(a, b)
        self.drop(p['max_age'])
        self.nodes = [n for n in self.nodes if self.neighbours(n)]
        if self.t % p['lambda_'] == 0 and len(self.nodes) < p['max_nodes']:
            self.insert()
        for n in self.nodes:
            n[1] = n[1] * p['d']

    def insert(self):
        q = self.nodes[first_max([n[1] for n in self.nodes])]
        near = self.neighbours(q)
        f = near[first_max([n[1] for n in near])]
        new = [[(v + w) / 2 for v, w in zip(q[0], f[0])], 0]
        self.nodes.append(new)
        self.edges.remove(self.between(q, f))
        self.edges += [[q, new, 0], [f, new, 0]]
        for n in (q, f):
            n[1] = n[1] * self.par['alpha']
        new[1] = (q[1] + f[1]) / 2


def agree(S, node, want, what, errors=True):
    g = node.graph
    got = node.get_nodes_position()
    S.check(got.shape == (len(want.nodes), len(want.nodes[0][0])),
            what + ': number of nodes')
    S.check(len(g.nodes) == len(want.nodes), what + ': nodes of the graph')
    for i, n in enumerate(want.nodes):
        S.eq(got[i], n[0], what + ': positions')
        S.eq(g.nodes[i].data.pos, n[0], what + ': positions in the graph')
        if errors:
            S.eq(g.nodes[i].data.cum_error, n[1], what + ': errors')

    def index(seq, x):
        return [i for i, y in enumerate(seq) if y is x][0]
    edges = sorted((sorted((index(g.nodes, e.head), index(g.nodes, e.tail))),
                    e.data.age) for e in g.edges)
    expect = sorted((sorted((index(want.nodes, e[0]),
                             index(want.nodes, e[1]))), e[2])
                    for e in want.edges)
    S.check(edges == expect, what + ': edges and their ages')


def pieces(x, sizes):
    k = 0
    for n in sizes:
        yield x[k:k + n]
        k += n


def shuffles(S):
    """numpy's own source of random orders is under control"""
    if not S.sym:
        import numpy
        for k in ('permutation', 'shuffle', 'normal'):
            S.patch(numpy.random, k, getattr(arr.RAND_SHIM, k))


def samples(S, d, hist, n, name='x'):
    """len(hist) fixed samples, then n arbitrary ones"""
    x = S.array(name, (n, d)) if n else None
    if not hist:
        return x
    h = S.const([[float(v)] * d if not isinstance(v, tuple) else v
                 for v in hist])
    return S.np.concatenate([h, x]) if n else h


def growing_h(d, hist, n, sizes, fixed=None, start=None, rates=True, **par):
    """a history of training"""
    def f(S):
        import mdp
        par_ = dict(eps_b=.25, eps_n=.125, max_age=50, lambda_=100, alpha=.5,
                    d=.75, max_nodes=2147483647)
        par_.update(par)
        for k in ('eps_b', 'eps_n', 'alpha', 'd') if rates else ():
            par_[k] = S.real(k, 0, 1)
        if start is None:
            poss = S.array('start', (2, d))
        else:
            poss = S.const(start)
        keep = poss.copy()
        args = dict(par_)
        if par_['max_nodes'] == 2147483647:
            del args['max_nodes']
        node = mdp.nodes.GrowingNeuralGasNode(start_poss=poss, **args)
        x = samples(S, d, hist, n)
        kx = x.copy()
        want = Growing(S, keep, [(0, 1)], **par_)
        agree(S, node, want, 'before training')
        i = 0
        for c in pieces(x, sizes):
            node.train(c)
            for row in c:
                want.step(list(row))
            agree(S, node, want, 'after %d samples' % (i + 1))
            i += 1
        S.eq(x, kx, 'data keep their values')
        S.eq(poss, keep, 'start positions keep their values')
        S.check(node.tlen == len(x), 'number of samples')
        S.reach('end')
    return f


def nearest_h(d, hist, m, **par):
    """nearest nodes of a trained graph"""
    def f(S):
        import mdp
        start = [[0.] * d, [8.] * d]
        par_ = dict(eps_b=.25, eps_n=.125, max_age=50, alpha=.5, d=.75,
                    max_nodes=100, lambda_=1)
        par_.update(par)
        node = mdp.nodes.GrowingNeuralGasNode(start_poss=S.const(start),
                                              **par_)
        want = Growing(S, start, [(0, 1)], **par_)
        x = S.const([[v] * d for v in hist])
        node.train(x)
        for row in x:
            want.step(list(row))
        y = S.array('y', (m, d))
        ky = y.copy()
        for what in ('while training', 'after training'):
            nodes, dists = node.nearest_neighbor(y)
            S.check(len(nodes) == len(dists) == m, 'one node per sample')
            for t in range(m):
                best = want.near(list(ky[t]))[0]
                k = [j for j, q in enumerate(want.nodes) if q is best][0]
                S.check(nodes[t] is node.graph.nodes[k], 'nearest node')
                S.check(dists[t] >= 0, 'distance')
                S.eq(dists[t] * dists[t], sq(best[0], ky[t]), 'distance')
            agree(S, node, want, what)
            S.eq(y, ky, 'data keep their values')
        S.eq(node.execute(y), ky, 'execute is the identity')
        S.eq(y, ky, 'data keep their values')
        S.check(not node.is_training(), 'training is over')
        S.reach('end')
    return f


def random_start_h(cls, d, num=2):
    """without start positions: independent standard normal vectors"""
    def f(S):
        import mdp
        if cls == 'growing':
            node = mdp.nodes.GrowingNeuralGasNode(eps_b=.5, eps_n=.25)
        else:
            node = mdp.nodes.NeuralGasNode(num_nodes=num, max_epochs=1,
                                           epsilon_i=.5, epsilon_f=.25)
        x = S.array('x', (1, d))
        node.train(x)
        dr = [v for k, v in S.draws if k == 'g']
        S.check(sum(v.size for v in dr) == num * d, 'one draw per coordinate')
        flat = S.np.concatenate([v.reshape(-1) for v in dr])
        poss = flat.reshape((num, d))
        if cls == 'growing':
            want = Growing(S, poss, [], eps_b=.5, eps_n=.25,
                           max_age=50, lambda_=100, alpha=.5, d=.995,
                           max_nodes=100)
            want.step(list(x[0]))
        else:
            want = Gas(S, poss)
            epoch(S, want, [x[0]], .5, 30., 20.)
        agree(S, node, want, 'random start', errors=cls == 'growing')
        node.train(x)
        S.check(len(node.graph.nodes) == num, 'nodes are created once')
        S.reach('end')
    return f


def epoch(S, want, xs, eps, lmbda, life):
    for x in xs:
        x = list(x)
        near = want.near(x)
        for k, n in enumerate(near):
            h = eps * S.np.exp(-k / lmbda)
            n[0] = [v + h * (w - v) for v, w in zip(n[0], x)]
        for e in want.edges:
            e[2] += 1
        want.link(near[0], near[1])
        want.drop(life)


def gas_h(d, num, hist, n, calls, par, start=None):
    """calls: [number of epochs]; par: initial, final values"""
    def f(S):
        import mdp
        (ei, ef), (li, lf), (ti, tf), top = par
        shuffles(S)
        eps = None
        if ei is None:                   # any constant rate
            eps = S.real('eps', lo=0.125, hi=1)
            ei = ef = eps
        poss = S.array('start', (num, d)) if start is None else S.const(start)
        keep = poss.copy()
        kw = {}
        if calls[0] is not None:
            kw['n_epochs_to_train'] = calls[0]
        node = mdp.nodes.NeuralGasNode(
            num_nodes=7, start_poss=poss, epsilon_i=ei, epsilon_f=ef,
            lambda_i=li, lambda_f=lf, max_age_i=ti, max_age_f=tf,
            max_epochs=top, **kw)
        want = Gas(S, keep)
        S.check(node.num_nodes == num, 'number of nodes')
        agree(S, node, want, 'before training', errors=False)
        t = 0
        for c, k in enumerate(calls):
            x = samples(S, d, hist if c == 0 else (),
                        n if isinstance(n, int) else n[c], 'x%d' % c)
            kx = x.copy()
            first = len(S.draws)
            node.train(x)
            idx = [int(v) for q, v in S.draws[first:] if q == 'i']
            k = top if k is None else k
            S.check(len(idx) == k * (len(kx) - 1), 'one shuffle per epoch')
            for j in range(k):
                rest = list(kx)
                rows = []
                for q in idx[j * (len(kx) - 1):(j + 1) * (len(kx) - 1)] + [0]:
                    rows.append(rest.pop(q))
                r = min(1., t / float(top))
                epoch(S, want, rows, ei if eps is not None
                      else ei * (ef / ei) ** r, li * (lf / li) ** r,
                      ti * (float(tf) / ti) ** r)
                t += 1
            agree(S, node, want, 'after call %d' % c, errors=False)
            S.eq(x, kx, 'data keep their values')
        S.eq(poss, keep, 'start positions keep their values')
        S.check(node.epoch == t, 'number of epochs')
        S.reach('end')
    return f


def harnesses(tier):
    th = tier != 'quick'
    P2 = [[0.], [8.]]
    out = [
        H('growing-1', growing_h(1, (), 1, [1]), weight=3),
        H('growing-2d', growing_h(2, (), 1, [1])),
        H('nearest', nearest_h(1, (1., 7., 3.), 2)),
        H('nearest-2d', nearest_h(2, (1., 7.), 1)),
        H('growing-random', random_start_h('growing', 2)),
        H('gas-random', random_start_h('gas', 2)),
        H('gas-random3', random_start_h('gas', 1, 3)),
        H('growing-insert', growing_h(1, (), 2, [1, 1], start=P2,
                                      rates=False, lambda_=1, max_nodes=3)),
        H('growing-insert2', growing_h(1, (1., 7.), 2, [2, 2], start=P2,
                                       rates=False, lambda_=2)),
        H('growing-age0', growing_h(1, (1.,), 2, [1, 2], start=P2,
                                    rates=False, lambda_=1, max_age=0,
                                    max_nodes=3)),
        H('growing-age1', growing_h(1, (1., 7., 4.), 2, [3, 1, 1], start=P2,
                                    rates=False, lambda_=2, max_age=1,
                                    max_nodes=4)),
    ]
    G = ((.5, .125), (1., .25), (4, 1), 2)
    for d, num, hist, n, calls, par, start in [
            (1, 2, (), 1, [2], ((None, None), (1., 1.), (4, 4), 2), None),
            (1, 2, (), 2, [1], ((.5, .5), (1., 1.), (4, 4), 2), None),
            (2, 2, (), 1, [1], ((None, None), (1., 1.), (4, 4), 2), None),
            (1, 3, (), 1, [None], G, None),
            (1, 2, (), 1, [1, 1, 1, 1], G, P2),
            (1, 3, (1.,), 1, [1, 1], ((.5, .125), (1., .25), (1, .25), 1),
             [[0.], [4.], [8.]]),
            (1, 4, (1., 7., 11.), (0, 1), [1, 1],
             ((.0625, .0625), (.25, .25), (4, .25), 1),
             [[0.], [4.], [8.], [12.]])]:
        out.append(H('gas-%dd-%d-%d-%s' % (d, num, len(hist) +
                                               (n if isinstance(n, int)
                                                else sum(n)),
                                           ''.join(map(str, calls))),
                     gas_h(d, num, hist, n, calls, par, start)))
    out += [
        H('growing-2', growing_h(1, (), 2, [2], eps_b=.5, rates=False,
                                 lambda_=2)),
        H('growing-rates', growing_h(1, (1.,), 1, [2], start=P2, lambda_=1,
                                     max_nodes=3)),
        H('growing-2d-insert', growing_h(2, ((1., 2.),), 1, [1, 1],
                                         start=[[0., 1.], [8., 3.]],
                                         rates=False, lambda_=1)),
        H('growing-3', growing_h(1, (), 3, [1, 2], start=P2, rates=False,
                                 lambda_=3)),
        H('growing-long', growing_h(1, (1., 7., 4., 2., 8.), 1, [5, 1],
                                    start=P2, rates=False, lambda_=2,
                                    max_age=2, max_nodes=4)),
    ]
    out += [
        H('growing-tail', growing_h(2, ((2., 7.), (3., 1.), (2., 3.),
                                        (6., 3.)), 1, [4, 1],
                                    start=[[0., 0.], [8., 8.]], rates=False,
                                    lambda_=1, max_age=0, max_nodes=4)),
        H('growing-inner', growing_h(1, (5., 0.), 1, [1, 2], start=P2,
                                     rates=False, lambda_=1, max_age=1,
                                     max_nodes=5)),
    ]
    if th:
        out += [
            H('growing-age0-3', growing_h(1, (1.,), 3, [1, 3], start=P2,
                                          rates=False, lambda_=1, max_age=0,
                                          max_nodes=4)),
            H('growing-age1-3', growing_h(1, (1., 7., 4.), 3, [3, 1, 2],
                                          start=P2, rates=False, lambda_=2,
                                          max_age=1, max_nodes=5)),
            H('growing-2d-2', growing_h(2, ((1., 2.),), 2, [1, 2],
                                        start=[[0., 1.], [8., 3.]],
                                        rates=False, lambda_=2)),
            H('growing-4', growing_h(1, (), 4, [2, 2], start=P2, rates=False,
                                     lambda_=3, max_age=0)),
            H('nearest-3', nearest_h(1, (1., 7., 3., 5.), 3)),
            H('nearest-2d-2', nearest_h(2, (1., 7., 3.), 2)),
            H('gas-3', gas_h(1, 3, (), 2, [1, 1], (
                (.5, .125), (1., .25), (1, .25), 2), [[0.], [4.], [8.]])),
        ]
    return out
