"""C09: layers and flow nodes are the parallel and sequential composition of
their nodes."""
from symx import lib
from symx.lib import A

BOUNDS = ('layers and flow nodes of 1-3 nodes (nested to depth 2) with 0-2 '
          'training phases, input and output dimensions 1-3, 1-2 chunks of '
          '1-2 rows, all data and all linear node functions')


def H(name, fn, **o):
    return (name, fn, o)


def node_class():
    import mdp

    class M(mdp.Node):
        """y = x.m + b; b is learned, differently in every phase"""
        def __init__(self, m, b, mi, phases=0, late=False, inv=True,
                     dtype='d'):
            self.phases = phases
            self.invertible = inv
            self.late = late
            super(M, self).__init__(input_dim=m.shape[0],
                                    output_dim=None if late else m.shape[1],
                                    dtype=dtype)
            self.m, self.b, self.mi = m, b, mi
            self.log = []

        def is_trainable(self):
            return self.phases > 0

        def is_invertible(self):
            return self.invertible

        def _train(self, x, lab=None):
            pass

        def _get_train_seq(self):
            def tr(k):
                def f(x, lab=None):
                    self.log.append(('train', k, lab))
                    w = 1
                    for t in range(x.shape[0]):
                        self.b = (k + 2) * self.b + w * x[t, 0]
                        w = w + 1
                return f

            def st(k):
                def f(lab=None):
                    self.log.append(('stop', k, lab))
                    self.b = self.b + k + 1
                    if self.output_dim is None and k == self.phases - 1:
                        self.output_dim = self.m.shape[1]
                return f
            return [(tr(k), st(k)) for k in range(self.phases)]

        def _execute(self, x):
            if self.output_dim is None:
                self.output_dim = self.m.shape[1]
            return mdp.numx.dot(x, self.m) + self.b

        def _inverse(self, y):
            return mdp.numx.dot(y - self.b, self.mi)
    return M


def make(S, i, din, dout, phases=0, late=False, inv=True, twin=True,
         dtype='d'):
    M = node_class()
    m = S.array('m%d' % i, (din, dout))
    b = S.array('b%d' % i, (dout,))
    mi = S.array('mi%d' % i, (dout, din))
    out = []
    for k in range(2):
        n = M(m, b, mi, phases, late, inv, dtype)
        out.append(n)
    return out


def train_all(S, comp, xs, labs, auto):
    """the user's way of training a node with several phases"""
    k = comp.get_remaining_train_phase()
    if auto:
        return
    for ph in range(k):
        for x, lab in zip(xs, labs):
            comp.train(x, lab) if lab else comp.train(x)
        comp.stop_training()


def ref_train(node, xs, labs, P):
    """the node alone sees its data in every phase it has"""
    while node.is_training() and node.get_remaining_train_phase():
        for x, lab in zip(xs, labs):
            node.train(x, lab) if lab else node.train(x)
        node.stop_training()


def layer_h(cls, dims, phases, late=False, L=(1, 2)):
    def f(S):
        import mdp
        pairs = [make(S, i, d[0], d[1], p, late)
                 for i, (d, p) in enumerate(zip(dims, phases))]
        nodes = [p[0] for p in pairs]
        refs = [p[1] for p in pairs]
        C = getattr(mdp.hinet, cls)
        n = len(dims)
        if cls == 'CloneLayer':
            nclones = S.choose('clones', [1, 2, 3])
            layer = C(nodes[0], nclones)
            refs = [refs[0]] * nclones
            ds = [dims[0]] * nclones
        else:
            layer = C(nodes)
            ds = dims
        same = cls == 'SameInputLayer'
        nin = ds[0][0] if same else sum(d[0] for d in ds)
        nout = sum(d[1] for d in ds)
        S.check(layer.input_dim == nin, 'input dimension')
        S.check(layer.output_dim == (None if late else nout),
                'output dimension is the sum of the nodes')
        S.check(bool(layer.is_trainable()) == any(phases), 'trainable')
        cols, p = [], 0
        for d in ds:
            cols.append((0, d[0]) if same else (p, p + d[0]))
            p += d[0]
        P = max(phases)
        S.check(layer.get_remaining_train_phase() == P, 'training phases')
        xs = [S.array('x', (t, nin)) for t in L]
        with_lab = S.choose('lab', [False, True])
        labs = ['l%d' % i if with_lab else None for i in range(len(xs))]
        auto = S.choose('auto', [False, True]) if P else False
        z = S.array('z', (2, nin))
        if auto:
            xs, labs = [z], [None]
        train_all(S, layer, xs, labs, auto)
        if not auto:
            S.check(not layer.is_training(), 'trained')
        if not auto and (P or not late):
            S.check(layer.output_dim == nout, 'output dimension is known '
                    'after training')
        z0 = z.copy()
        y = layer.execute(z)
        S.eq(z, z0, 'input unchanged')
        # reference: every node on its own
        if cls == 'CloneLayer':
            r = refs[0]
            while r.phases and r.is_training():
                for x, lab in zip(xs, labs):
                    for c in cols:
                        part = x[:, c[0]:c[1]]
                        r.train(part, lab) if lab else r.train(part)
                r.stop_training()
        else:
            for r, c in zip(refs, cols):
                if r.phases:
                    ref_train(r, [x[:, c[0]:c[1]] for x in xs], labs, P)
        S.check(tuple(y.shape) == (2, nout), 'shape')
        S.check(layer.output_dim == nout, 'output dimension')
        p = 0
        for r, c, d in zip(refs, cols, ds):
            S.eq(y[:, p:p + d[1]], r.execute(z[:, c[0]:c[1]]),
                 'outputs are those of the nodes on their own inputs')
            p += d[1]
        for a, r in zip(nodes, refs):
            S.check(a.log == r.log, 'training calls of the node')
            S.check(not a.is_training(), 'node is trained')
        if same:
            S.check(not layer.is_invertible(), 'not invertible')
        else:
            S.check(bool(layer.is_invertible()), 'invertible')
            w = S.array('w', (2, nout))
            v = layer.inverse(w)
            p = 0
            for r, c, d in zip(refs, cols, ds):
                S.eq(v[:, c[0]:c[1]], r.inverse(w[:, p:p + d[1]]),
                     'inverse is that of the nodes')
                p += d[1]
        S.check(len(layer) == len(ds) and all(
            layer[i] is (nodes[0] if cls == 'CloneLayer' else nodes[i])
            for i in range(len(ds))), 'container access')
        S.reach('end')
    return f


def refused_h():
    def f(S):
        import mdp
        a, _ = make(S, 0, 1, 1)
        b, _ = make(S, 1, 2, 1, inv=False)
        g, _ = make(S, 2, 1, 1, dtype='f')
        M = mdp.nodes.PCANode()
        for cls in ('Layer', 'SameInputLayer'):
            C = getattr(mdp.hinet, cls)
            S.must_raise(mdp.NodeException, 'nodes without input dimension '
                         'are refused', C, [a, M])
            S.must_raise(mdp.NodeException, 'nodes of different types are '
                         'refused', C, [a, g])
            S.must_raise(mdp.NodeException, 'type mismatch is refused',
                         C, [a, a], dtype='f')
        S.must_raise(mdp.NodeException, 'different inputs are refused',
                     mdp.hinet.SameInputLayer, [a, b])
        S.must_raise(mdp.NodeException, 'different inputs are refused',
                     mdp.hinet.SameInputLayer, [b, a])
        S.must_raise(mdp.NodeException, 'different inputs are refused',
                     mdp.hinet.SameInputLayer, [b, b, a])
        S.must_raise(mdp.NodeException, 'different inputs are refused',
                     mdp.hinet.SameInputLayer, [a, a, b])
        ly = mdp.hinet.Layer([a, b])
        S.check(not ly.is_invertible(), 'not invertible when a node is not')
        S.check(ly.dtype == a.dtype, 'type of the nodes')
        for inv in ([False, True], [True, False], [True, True],
                    [False, False]):
            p, _ = make(S, 3, 2, 2, inv=inv[0])
            q, _ = make(S, 4, 2, 2, inv=inv[1])
            S.check(bool(mdp.hinet.Layer([p, q]).is_invertible()) ==
                    all(inv), 'a layer is invertible if all nodes are')
            fn = mdp.hinet.FlowNode(mdp.Flow([p, q]))
            S.check(bool(fn.is_invertible()) == all(inv),
                    'a flow node is invertible if all nodes are')
            if not all(inv):
                x = S.array('z', (1, 2))
                fn.execute(x)
                S.must_raise(mdp.IsNotInvertibleException,
                             'inverse is refused', fn.inverse, x)
        S.reach('end')
    return f


def args_h():
    """arguments of execute, inverse, train and stop_training reach every
    node of a layer"""
    def f(S):
        import mdp

        class G(mdp.Node):
            def __init__(self, d):
                super(G, self).__init__(input_dim=d, output_dim=d)
                self.c = 0

            def _train(self, x, w, v=0):
                self.c = self.c + w * x[0, 0] + v

            def _stop_training(self, w=0, v=0):
                self.c = 2 * self.c + 3 * w + v

            def _execute(self, x, w, v=0):
                return x * w + v + self.c

            def _inverse(self, y, w, v=0):
                return y * w - v + self.c
        kind = S.choose('kind', ['Layer', 'SameInputLayer', 'CloneLayer'])
        w, v, sw, sv, k = [S.real(n) for n in ('w', 'v', 'sw', 'sv', 'k')]
        if kind == 'CloneLayer':
            layer, ds = mdp.hinet.CloneLayer(G(2), 2), [2, 2]
        else:
            ds = [2, 2] if kind == 'SameInputLayer' else [1, 2]
            layer = getattr(mdp.hinet, kind)([G(d) for d in ds])
        nin = 2 if kind == 'SameInputLayer' else sum(ds)
        x = S.array('x', (1, nin))
        z = S.array('z', (2, nin))
        layer.train(x, w, v=v)
        layer.stop_training(sw, v=sv)
        cols, p = [], 0
        for d in ds:
            cols.append((0, d) if kind == 'SameInputLayer' else (p, p + d))
            p += d
        cs = [w * x[0, a] + v for a, b in cols]
        if kind == 'CloneLayer':
            S.eq(layer.node.c, 2 * lib.ssum(cs) + 3 * sw + sv,
                 'arguments of the training')
            S.reach('clone')
            return
        cs = [2 * c + 3 * sw + sv for c in cs]
        y = layer.execute(z, k, v=v)
        p = 0
        for node, c, (a, b) in zip(layer.nodes, cs, cols):
            S.eq(node.c, c, 'arguments of the training')
            S.eq(y[:, p:p + b - a], z[:, a:b] * k + v + c,
                 'arguments of execute')
            p += b - a
        if kind == 'Layer':
            u = layer.inverse(z, k, v=v)
            for c, (a, b) in zip(cs, cols):
                S.eq(u[:, a:b], z[:, a:b] * k - v + c,
                     'arguments of inverse')
        S.reach('end')
    return f


def dtype_h():
    """nodes without a type get the one of the others or of the data"""
    def f(S):
        import mdp
        t = S.choose('t', ['f', 'd'])
        how = S.choose('how', ['arg', 'node', 'data'])
        ns = [mdp.nodes.IdentityNode(input_dim=2, dtype=t if how == 'node'
                                     and i == 1 else None)
              for i in range(2)]
        layer = mdp.hinet.Layer(ns, dtype=t if how == 'arg' else None)
        if how != 'data':
            S.check(all(n.dtype == layer.dtype == S.np.dtype(t) for n in ns),
                    'type of the nodes before execution')
        x = S.array('x', (2, 4), dtype='float32' if t == 'f' else 'float64')
        y = layer.execute(x)
        S.check(lib.dtype_of(y) == lib.dtype_of(x), 'type of the output')
        S.check(all(n.dtype == layer.dtype for n in ns), 'type of the nodes')
        S.eq(y, x, 'identity')
        S.reach('end')
    return f


# -------------------------------------------------------------- flow node

def flownode_h(dims, phases, late=False, pre=None, L=(1, 2)):
    def f(S):
        import mdp
        pairs = [make(S, i, d[0], d[1], p, late and i == len(dims) - 1)
                 for i, (d, p) in enumerate(zip(dims, phases))]
        nodes = [p[0] for p in pairs]
        refs = [p[1] for p in pairs]
        xs = [S.array('x', (t, dims[0][0])) for t in L]
        labs = [None] * len(xs)
        done = [0] * len(dims)
        if pre is not None:
            # node `pre` had its first phases before
            k = S.choose('prephases', list(range(1, phases[pre] + 1)))
            x0 = S.array('p', (2, dims[pre][0]))
            for nd in (nodes[pre], refs[pre]):
                for i in range(k):
                    nd.train(x0)
                    nd.stop_training()
            done[pre] = k
        fn = mdp.hinet.FlowNode(mdp.Flow(nodes))
        P = sum(phases) - sum(done)
        S.check(bool(fn.is_trainable()) == (P > 0), 'trainable')
        S.check(fn.input_dim == dims[0][0], 'input dimension')
        if not late:
            S.check(fn.output_dim == dims[-1][1], 'output dimension')
        S.check(fn.get_remaining_train_phase() == P, 'training phases')
        auto = S.choose('auto', [False, True]) if P else False
        copied = S.choose('copy', ['no', 'start', 'mid', 'end'])
        z = S.array('z', (2, dims[0][0]))
        if auto:
            xs, labs = [z], [None]
            if copied == 'mid':
                copied = 'start'
        old = fn
        if copied == 'start':
            fn = fn.copy()
        if not auto:
            for ph in range(P):
                for x in xs:
                    fn.train(x)
                fn.stop_training()
                if copied == 'mid' and ph == 0:
                    fn = fn.copy()
            S.check(not fn.is_training(), 'trained')
        if copied == 'end':
            fn = fn.copy()
        y = fn.execute(z)
        # reference: one node after the other
        for i, r in enumerate(refs):
            def through(x):
                for q in refs[:i]:
                    x = q.execute(x)
                return x
            while r.phases and r.is_training():
                for x in xs:
                    r.train(through(x))
                r.stop_training()
        want = z
        for r in refs:
            want = r.execute(want)
        S.eq(y, want, 'flow node is the composition of its trained nodes')
        S.check(fn.output_dim == dims[-1][1], 'output dimension after '
                'training')
        for a, r in zip(fn.flow, refs):
            S.check(a.log == r.log, 'training calls of the node')
        if fn is not old:
            for a, b, q in zip(fn.flow, old.flow, nodes):
                S.check(b is q, 'the original keeps its nodes')
                S.check(a is not b, 'the copy has nodes of its own')
                if copied == 'start':
                    S.check(len(b.log) == 2 * done[nodes.index(q)],
                            'the original is not trained')
        S.check(bool(fn.is_invertible()), 'invertible')
        w = S.array('w', (2, dims[-1][1]))
        v = fn.inverse(w)
        for r in reversed(refs):
            w = r.inverse(w)
        S.eq(v, w, 'inverse is the composition of the inverses')
        S.check(len(fn) == len(dims) and all(
            fn[i] is fn.flow[i] for i in range(len(dims))),
            'container access')
        S.reach('end')
    return f


def flownode_dims_h():
    """dimension bookkeeping with undefined inner dimensions"""
    def f(S):
        import mdp

        def mk(i):
            a, b = S.choose('d%d' % i, [(None, None), (2, None), (None, 3),
                                        (2, 3)])

            class N(mdp.Node):
                @staticmethod
                def is_trainable():
                    return False
            return N(input_dim=a, output_dim=b)
        n = S.choose('n', [1, 2])
        nodes = [mk(i) for i in range(n)]
        try:
            flow = mdp.Flow(nodes)
        except ValueError:
            S.reach('inconsistent')
            return
        before = [(x.input_dim, x.output_dim) for x in nodes]
        fn = mdp.hinet.FlowNode(flow)
        S.check(fn.input_dim == before[0][0], 'input dimension')
        S.check(fn.output_dim == before[-1][1], 'output dimension')
        what = S.choose('what', ['in', 'out'])
        k = S.choose('k', [2, 3])
        # what the first or last node (and the chain) allow
        ok = True
        if what == 'in':
            ok = before[0][0] in (None, k)
            try:
                fn.input_dim = k
                got = True
            except mdp.NodeException:
                got = False
            S.check(got == ok, 'input dimension can be set exactly when it '
                    'is free')
            if ok:
                S.check(nodes[0].input_dim == k and fn.input_dim == k,
                        'first node has the input dimension')
        else:
            ok = before[-1][1] in (None, k)
            if ok and n == 2 and before[1] == (None, None) and \
                    before[0][1] is None:
                ok = False          # would leave the last node undefined
            try:
                fn.output_dim = k
                got = True
            except mdp.NodeException:
                got = False
            S.check(got == ok, 'output dimension can be set exactly when it '
                    'is free and determined')
            if ok:
                S.check(nodes[-1].output_dim == k and fn.output_dim == k,
                        'last node has the output dimension')
        for x, (a, b) in zip(nodes, before):
            S.check(a in (None, x.input_dim) and b in (None, x.output_dim),
                    'dimensions never change')
        S.reach('end')
    return f


def nested_h():
    """a layer of flow nodes inside a flow, trained by the flow"""
    def f(S):
        import mdp
        kind = S.choose('kind', ['layer of flownodes', 'flownode of layers'])
        P = S.choose('phases', [(1, 0), (1, 1), (2, 1), (0, 1)])
        prs = [make(S, i, 1, 1, P[i % 2]) for i in range(4)]
        n, r = [p[0] for p in prs], [p[1] for p in prs]
        if kind == 'layer of flownodes':
            top = mdp.hinet.Layer([mdp.hinet.FlowNode(mdp.Flow(n[:2])),
                                   mdp.hinet.FlowNode(mdp.Flow(n[2:]))])
        else:
            top = mdp.hinet.FlowNode(mdp.Flow([
                mdp.hinet.Layer([n[0], n[2]]),
                mdp.hinet.Layer([n[1], n[3]])]))
        x = S.array('x', (2, 2))
        flow = mdp.Flow([top])
        flow.train([[x]])
        y = flow.execute(x)
        for col, (a, b) in enumerate([(0, 1), (2, 3)]):
            part = x[:, col:col + 1]
            for q in (a, b):
                ref_train(r[q], [part], [None], 0) if r[q].phases else None
                part = r[q].execute(part)
            S.eq(y[:, col:col + 1], part, 'nested networks')
        S.reach('end')
    return f


def harnesses(tier):
    hs = []
    for ph in [(0, 0), (1, 0), (1, 1), (2, 1), (1, 2)]:
        hs.append(H('Layer/%d%d' % ph, layer_h('Layer', [(1, 2), (2, 1)],
                                               ph), reach=['end']))
        hs.append(H('Same/%d%d' % ph, layer_h('SameInputLayer',
                                              [(2, 2), (2, 1)], ph),
                    reach=['end']))
    hs.append(H('Layer/3', layer_h('Layer', [(1, 1), (2, 1), (1, 2)],
                                   (1, 0, 2)), reach=['end']))
    hs.append(H('Layer/late', layer_h('Layer', [(1, 2), (2, 1)], (1, 1),
                                      late=True), reach=['end']))
    hs.append(H('Layer/late21', layer_h('Layer', [(1, 2), (2, 1)], (2, 1),
                                        late=True), reach=['end']))
    hs.append(H('Same/late', layer_h('SameInputLayer', [(1, 2), (1, 1)],
                                     (1, 2), late=True), reach=['end']))
    for p in (0, 1, 2):
        hs.append(H('Clone/%d' % p, layer_h('CloneLayer', [(2, 1)], (p,)),
                    reach=['end']))
        hs.append(H('Clone12/%d' % p, layer_h('CloneLayer', [(1, 2)], (p,)),
                    reach=['end']))
    hs.append(H('Clone/late', layer_h('CloneLayer', [(1, 2)], (1,),
                                      late=True), reach=['end']))
    hs.append(H('refused', refused_h(), reach=['end']))
    hs.append(H('args', args_h(), reach=['end', 'clone']))
    hs.append(H('dtype', dtype_h(), reach=['end']))
    for ph in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)]:
        hs.append(H('FlowNode/%d%d' % ph, flownode_h([(1, 2), (2, 1)], ph),
                    reach=['end']))
    hs.append(H('FlowNode/3', flownode_h([(1, 2), (2, 2), (2, 1)],
                                         (1, 0, 2)), reach=['end']))
    hs.append(H('FlowNode/late', flownode_h([(1, 2), (2, 1)], (1, 1),
                                            late=True), reach=['end']))
    hs.append(H('FlowNode/pre0', flownode_h([(1, 2), (2, 1)], (2, 1),
                                            pre=0), reach=['end']))
    hs.append(H('FlowNode/pre1', flownode_h([(1, 2), (2, 1)], (1, 2),
                                            pre=1), reach=['end']))
    hs.append(H('FlowNode/dims', flownode_dims_h(),
                reach=['end', 'inconsistent']))
    hs.append(H('nested', nested_h(), reach=['end']))
    return hs
