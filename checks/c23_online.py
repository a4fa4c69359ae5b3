"""C23: online nodes, flows, flow nodes and layers train while they run."""
import itertools

from symx import lib

BOUNDS = ('histories of up to 3 calls, 1-3 nodes, 1-2 chunks of 1-2 samples '
          'of 1-2 variables, 1-4 loops of circular flows, all data and all '
          'linear node functions')
ASSUMPTIONS = []


def H(name, fn, **o):
    return (name, fn, o)


def classes():
    import mdp

    class On(mdp.OnlineNode):
        """y = x + s, s is learned by s <- p s + q x for every call"""
        def __init__(self, p, q, inv=True, labels=False, phases=1, **k):
            self.inv = inv
            self.phases = phases
            self.p, self.q, self.s = p, q, 0 * p
            self.log = []
            super(On, self).__init__(**k)

        def is_invertible(self):
            return self.inv

        def learn(self, x, k):
            for t in range(x.shape[0]):
                self.s = self.p * self.s + (self.q + k) * x[t]
            self.log.append((k, x.shape[0]))

        def _train(self, x, lab=0):
            self.learn(x + lab, 0)

        def _get_train_seq(self):
            if self.phases == 1:
                return super(On, self)._get_train_seq()

            def stage(k):
                return (lambda x, lab=0: self.learn(x + lab, k),
                        lambda: self.log.append(('stop', k)),
                        lambda x, lab=0: x + (k + 1) * self.s + 3 * lab)
            return [stage(k) for k in range(self.phases)]

        def _stop_training(self):
            self.log.append('stop')

        def _execute(self, x):
            return x + self.s

        def _inverse(self, y):
            return y - self.s

    class Sup(On):
        def _train(self, x, lab):
            self.learn(x, 0)
            self.s = self.s + lab

    class Off(mdp.Node):
        """offline: the same without training"""
        def __init__(self, s, phases=0, **k):
            self.phases = phases
            self.s = s
            self.log = []
            super(Off, self).__init__(**k)

        def is_trainable(self):
            return self.phases > 0

        def _train(self, x):
            self.log.append(x.shape[0])
            for t in range(x.shape[0]):
                self.s = 2 * self.s + x[t]

        def _stop_training(self):
            self.log.append('stop')

        def _get_train_seq(self):
            if self.phases < 2:
                return super(Off, self)._get_train_seq()

            def stage(k):
                def learn(x):
                    self.log.append((k, x.shape[0]))
                    for t in range(x.shape[0]):
                        self.s = (k + 2) * self.s + x[t]
                return learn, lambda: self.log.append(('stop', k))
            return [stage(k) for k in range(self.phases)]

        def _execute(self, x):
            return x + self.s

        def _inverse(self, y):
            return y - self.s
    return On, Sup, Off


def twins(S, kind, i, n, count=2, **k):
    """count nodes with the same parameters"""
    On, Sup, Off = classes()
    if kind in ('on', 'batch', 'sup', 'inc', 'on2'):
        if kind == 'on2':
            k['phases'] = 2
        p, q = S.array('p%d' % i, (n,)), S.array('q%d' % i, (n,))
        out = []
        for c in range(count):
            node = (Sup if kind == 'sup' else On)(p.copy(), q.copy(), **k)
            if kind == 'batch':
                node.set_training_type('batch')
            if kind == 'inc':
                node.set_training_type('incremental')
            out.append(node)
        return out
    s = S.array('s%d' % i, (n,))
    out = []
    for c in range(count):
        node = Off(s.copy(), phases={'fix': 0, 'train2': 2}.get(
            kind, 1), **k)
        if kind == 'done':
            node.train(S.const([[1.0] * n]))
            node.stop_training()
        out.append(node)
    return out


def same_nodes(S, xs, ys, msg):
    for a, b in zip(xs, ys):
        S.eq(a.s, b.s, msg + ': what the node learned')
        S.check(a.log == b.log, msg + ': calls of the node')
        S.check(bool(a.is_training()) == bool(b.is_training()),
                msg + ': training')


def node_h(phases, ops, length):
    """every history of calls of one node"""
    def f(S):
        import mdp
        On = classes()[0]
        n = 2
        p, q = S.array('p', (n,)), S.array('q', (n,))
        typ = S.choose('type', [None, 'incremental', 'batch'])
        node = On(p.copy(), q.copy(), phases=phases)
        if typ:
            node.set_training_type(typ)
        S.must_raise(mdp.OnlineNodeException, 'unknown training type',
                     node.set_training_type, 'x')
        s, log = 0 * p, []
        it, trained, done = 0, False, False

        def learn(x, lab=0):
            nonlocal s, it
            blocks = [x] if typ == 'batch' else \
                [x[t:t + 1] for t in range(x.shape[0])]
            for b in blocks:
                for k in range(phases):
                    for t in range(b.shape[0]):
                        s = p * s + (q + k) * (b[t] + lab)
                    log.append((k, b.shape[0]))
                    if phases > 1:
                        b = b + (k + 1) * s + 3 * lab
            it += x.shape[0]
        for i in range(length):
            op = S.choose('op%d' % i, ops)
            if op == 'stop':
                if done:
                    S.must_raise(mdp.TrainingFinishedException, 'stopped',
                                 node.stop_training)
                elif not trained:
                    S.must_raise(mdp.TrainingException, 'not trained',
                                 node.stop_training)
                else:
                    node.stop_training()
                    log.extend(['stop'] if phases == 1 else
                               [('stop', k) for k in range(phases)])
                    done = True
            else:
                x = S.array('x%d' % i, (S.choose('T%d' % i, [1, 2]), n))
                x0 = x.copy()
                if op == 'train':
                    if done:
                        S.must_raise(mdp.TrainingFinishedException, 'stopped',
                                     node.train, x)
                    else:
                        if S.choose('lab%d' % i, [False, True]):
                            l = S.real('l%d' % i)
                            node.train(x, lab=l)
                            learn(x, l)
                        else:
                            node.train(x)
                            learn(x)
                        trained = True
                elif op == 'execute':
                    y = node.execute(x)
                    if not trained:
                        # an untrained node is trained with the data
                        learn(x)
                        trained = True
                    S.eq(y, x + s, 'output with what is learned so far')
                else:
                    if node.output_dim is None and node.input_dim is None:
                        S.must_raise(mdp.NodeException, 'unknown dimension',
                                     node.inverse, x)
                    else:
                        S.eq(node.inverse(x), x - s, 'inverse')
                S.eq(x, x0, 'data unchanged')
            S.eq(node.s, s, 'learned')
            S.check(node.log == log, 'calls')
            S.check(node.get_current_train_iteration() == it,
                    'training iterations')
            S.check(bool(node.is_training()) == (not done), 'in training '
                    'until it is stopped')
        S.reach('end')
    return f


def flow_train(S, kinds, nodes, chunks, args=None):
    """what OnlineFlow.train documents, step by step"""
    if kinds[-1] == 'train2':
        # once more for each phase of a terminal offline node
        flow_train(S, kinds[:-1] + ['off'], nodes, chunks, args)
        nodes[-1].stop_training()
        flow_train(S, kinds[:-1] + ['train'], nodes, chunks, args)
        return
    for c, x in enumerate(chunks):
        for i, (kind, node) in enumerate(zip(kinds, nodes)):
            if node.is_training():
                if kind == 'sup':
                    node.train(x, args[c])
                else:
                    node.train(x)
            if i < len(nodes) - 1:
                x = node.execute(x)
    if kinds[-1] == 'train':
        nodes[-1].stop_training()


def flow_h(kinds, n, sizes):
    def f(S):
        import mdp
        pairs = [twins(S, k, i, n) for i, k in enumerate(kinds)]
        flow = mdp.OnlineFlow([p[0] for p in pairs])
        refs = [p[1] for p in pairs]
        sup = 'sup' in kinds
        form = S.choose('form', ['tuples', 'lists', 'iter'] if sup else
                        ['2d', '3d', 'list', 'iter', 'tuples'])
        T = sum(sizes)
        x = S.array('x', (T, n))
        if form == '2d':
            sz = [1] * T
        elif form == '3d':
            if len(set(sizes)) > 1:
                return
            sz = sizes
        else:
            sz = sizes
        chunks = list(lib.chunks(x, sz))
        labs = [S.real('l%d' % i) for i in range(len(sz))]
        if form == '2d':
            data = x
        elif form == '3d':
            data = x.reshape(len(sz), sz[0], n)
        elif sup or form == 'tuples':
            mk = list if form == 'lists' else tuple
            data = [mk([c] + [(l,) if k == 'sup' else None for k in kinds])
                    for c, l in zip(chunks, labs)]
        else:
            data = chunks
        if form == 'iter':
            data = iter(data)
        if sup and form == 'tuples':
            # wrong number of arguments
            for bad in ([(chunks[0],) + (None,) * (len(kinds) - 1)],
                        [(chunks[0],) + ((labs[0], labs[0]),) * len(kinds)]):
                if S.choose('bad', [False, True]):
                    S.must_raise(mdp.MDPException, 'wrong number of '
                                 'arguments', flow.train, bad)
                    S.reach('end')
                    return
        if form == 'iter' and kinds[-1] == 'train2':
            S.must_raise(mdp.FlowException, 'an iterator cannot be repeated',
                         flow.train, data)
            S.reach('end')
            return
        flow.train(data)
        flow_train(S, kinds, refs, chunks, labs)
        same_nodes(S, list(flow), refs, 'flow')
        z = S.array('z', (2, n))
        y = z
        for r in refs:
            y = y + r.s
        S.eq(flow.execute(z), y, 'execute is the composition')
        S.eq(flow.inverse(z), z - (y - z), 'inverse')
        same_nodes(S, list(flow), refs, 'executing does not train')
        if kinds[-1] not in ('train', 'train2'):
            # and on it goes
            w = S.array('w', (1, n))
            l = S.real('l')
            flow.train([(w,) + tuple((l,) if k == 'sup' else None
                                     for k in kinds)])
            flow_train(S, kinds, refs, [w], [l])
            same_nodes(S, list(flow), refs, 'further training')
        S.reach('end')
    return f


def refused_h():
    """what is no online flow is refused"""
    def f(S):
        import mdp
        kinds = ['on', 'fix', 'done', 'train']
        pick = [S.choose('k%d' % i, kinds) for i in range(3)]
        nodes = [twins(S, k, i, 1, 1)[0] for i, k in enumerate(pick)]
        ok = 'train' not in pick[:-1]
        if ok:
            mdp.OnlineFlow(nodes)
        else:
            S.must_raise(TypeError, 'an untrained offline node that is not '
                         'the last', mdp.OnlineFlow, nodes)
        if 'train' in pick:
            S.must_raise(TypeError, 'untrained offline node',
                         mdp.CircularOnlineFlow, nodes)
            if ok:
                S.must_raise(TypeError, 'untrained offline node',
                             mdp.hinet.OnlineFlowNode, mdp.OnlineFlow(nodes))
            for nd in nodes:
                nd.input_dim = 1
            S.must_raise(TypeError, 'untrained offline node',
                         mdp.hinet.OnlineLayer, nodes)
        else:
            mdp.CircularOnlineFlow(nodes)
            mdp.hinet.OnlineFlowNode(mdp.OnlineFlow(nodes))
        S.must_raise(TypeError, 'needs an online flow',
                     mdp.hinet.OnlineFlowNode,
                     mdp.Flow([twins(S, 'fix', 9, 1, 1)[0]]))
        S.reach('end')
    return f


def flownode_h(kinds, n, sizes):
    """a flow node equals its flow, fed sample by sample or in batches"""
    def f(S):
        import mdp
        pairs = [twins(S, k, i, n, input_dim=n, output_dim=n)
                 for i, k in enumerate(kinds)]
        node = mdp.hinet.OnlineFlowNode(mdp.OnlineFlow([p[0] for p in pairs]))
        refs = [p[1] for p in pairs]
        trainable = any(k in ('on', 'batch') for k in kinds)
        typ = S.choose('type', [None, 'incremental', 'batch'])
        if typ:
            if 'batch' in kinds and typ != 'batch':
                S.must_raise(mdp.OnlineNodeException, 'type of the nodes',
                             node.set_training_type, typ)
                typ = None
            else:
                node.set_training_type(typ)
        batch = typ == 'batch' or 'batch' in kinds
        S.check(bool(node.is_trainable()) == trainable, 'trainable')
        node.get_remaining_train_phase()
        z = S.array('z', (1, n))
        if not trainable:
            x = S.array('x', (1, n))
            S.must_raise(mdp.IsNotTrainableException, 'nothing to train',
                         node.train, x)
        else:
            T = 0
            copy = S.choose('copy', [False, True])
            for i, s in enumerate(sizes):
                x = S.array('x%d' % i, (s, n))
                node.train(x)
                flow_train(S, kinds, refs, [x] if batch else
                           list(lib.chunks(x, [1] * s)))
                T += s
                S.check(node.get_current_train_iteration() == T,
                        'training iterations')
                same_nodes(S, list(node.flow), refs, 'flow node')
                if copy and i == 0:
                    old = node
                    node = node.copy()
                    S.check(all(a is not b for a, b in
                                zip(node.flow, old.flow)), 'copied')
                if i == 0 and S.choose('exec', [False, True]):
                    node.execute(z)
                    S.check(node.is_training(), 'still in training')
        y = z
        for r in refs:
            y = y + r.s
        S.eq(node.execute(z), y, 'composition')
        S.eq(node.inverse(z), z - (y - z), 'inverse')
        if trainable:
            node.stop_training()
            for r in refs:
                if r.is_training():
                    r.stop_training()
            same_nodes(S, list(node.flow), refs, 'stopped')
            S.check(not node.is_training(), 'stopped')
            S.must_raise(mdp.TrainingFinishedException, 'stopped',
                         node.train, z)
            S.eq(node.execute(z), y, 'composition')
        S.reach('end')
    return f


def layer_h(cls, kinds, sizes):
    def f(S):
        import mdp
        C = getattr(mdp.hinet, cls)
        clone, sameinp = 'Clone' in cls, 'SameInput' in cls
        dims = [1 + (not sameinp and not clone and i == 1)
                for i in range(len(kinds))]
        pairs = [twins(S, k, i, d, input_dim=d, output_dim=d)
                 for i, (k, d) in enumerate(zip(kinds, dims))]
        refs = [p[1] for p in pairs]
        if clone:
            layer = C(pairs[0][0], 2)
            view = [refs[0], refs[0]]
            dims = dims * 2
        else:
            layer = C([p[0] for p in pairs])
            view = refs
        n = 1 if sameinp else sum(dims)
        cuts, c = [], 0
        for d in dims:
            cuts.append((0, d) if sameinp else (c, c + d))
            c += d
        typ = S.choose('type', [None, 'incremental', 'batch'])
        if typ and 'batch' in kinds and typ != 'batch':
            S.must_raise(mdp.OnlineNodeException, 'type of the nodes',
                         layer.set_training_type, typ)
        elif typ:
            layer.set_training_type(typ)
        S.must_raise(mdp.OnlineNodeException, 'unknown training type',
                     layer.set_training_type, 'x')
        batch = 'batch' in kinds or typ == 'batch'
        S.check(layer.input_dim == n and layer.output_dim == sum(dims),
                'dimensions')
        z = S.array('z', (2, n))

        def out():
            return S.np.concatenate(
                [z[:, a:b] + v.s for (a, b), v in zip(cuts, view)], axis=1)
        T = 0
        trainable = any(k in ('on', 'batch', 'inc') for k in kinds)
        if trainable:
            for i, s in enumerate(sizes):
                x = S.array('x%d' % i, (s, n))
                layer.train(x)
                T += s
                for b in ([x] if batch else list(lib.chunks(x, [1] * s))):
                    for (lo, hi), v in zip(cuts, view):
                        if v.is_training():
                            v.train(b[:, lo:hi])
                S.check(layer.get_current_train_iteration() == T,
                        'training iterations')
                S.eq(layer.execute(z), out(), 'output')
                S.check(layer.is_training(), 'still in training')
            layer.stop_training()
            for r in refs:
                if r.is_training():
                    r.stop_training()
            S.check(not layer.is_training(), 'stopped')
            S.must_raise(mdp.TrainingFinishedException, 'stopped',
                         layer.train, z)
        else:
            S.must_raise(mdp.IsNotTrainableException, 'nothing to train',
                         layer.train, z)
        same_nodes(S, [p[0] for p in pairs], refs, 'layer')
        S.eq(layer.execute(z), out(), 'output')
        if not sameinp:
            S.eq(layer.inverse(z), z - (out() - z), 'inverse')
        S.reach('end')
    return f


def circ_model(S, kinds, nodes, chunks, loops, ignore, stored, batch):
    """train as documented; returns the stored input"""
    for x in chunks:
        if ignore:
            x = stored
        for _ in range(loops):
            for kind, node in zip(kinds, nodes):
                if node.is_training():
                    node.train(x)
                x = x + node.s
        stored = x
    return stored


def circ_h(kinds, n, sizes):
    def f(S):
        import mdp
        pairs = [twins(S, k, i, n, input_dim=n, output_dim=n)
                 for i, k in enumerate(kinds)]
        flow = mdp.CircularOnlineFlow([p[0] for p in pairs])
        refs = [p[1] for p in pairs]
        K = len(kinds)
        loops = S.choose('loops', [1, 2] if len(kinds) > 1 else [1, 2, 4])
        ignore = S.choose('ignore', [False, True])
        flow.set_flow_iterations(loops)
        flow.ignore_input(ignore)
        stored = None
        if ignore:
            stored = S.array('stored', (1, n))
            S.must_raise(mdp.CircularOnlineFlowException, 'dimension',
                         flow.set_stored_input, S.zeros((1, n + 1)))
            flow.set_stored_input(stored)
        for bad in (-1, K):
            S.must_raise(mdp.CircularOnlineFlowException, 'index',
                         flow.set_input_node, bad)
            S.must_raise(mdp.CircularOnlineFlowException, 'index',
                         flow.set_output_node, bad)
        out = S.choose('out', list(range(K)))
        inp = S.choose('inp', list(range(K)))
        order = list(range(K))
        flow.set_output_node(out)
        flow.set_input_node(inp)
        order = order[inp:] + order[:inp]
        out = order.index(out)
        nodes = [refs[i] for i in order]
        ks = [kinds[i] for i in order]
        xs = S.array('x', (sum(sizes), n))
        chunks = list(lib.chunks(xs, sizes))
        flow.train(chunks)
        stored = circ_model(S, ks, nodes, chunks, loops, ignore, stored, 0)
        same_nodes(S, list(flow), nodes, 'circular flow')
        S.eq(flow.get_stored_input(), stored, 'stored output')
        z = S.array('z', (2, n))
        d = 0
        for r in nodes[:out + 1]:
            d = d + r.s
        S.eq(flow.execute(z), z + d, 'from the input to the output node')
        S.eq(flow.inverse(z), z - d, 'inverse')
        k = S.choose('k', list(range(K)))
        d = 0
        for r in nodes[:k + 1]:
            d = d + r.s
        S.eq(flow.execute(z, nodenr=k), z + d, 'up to a node')
        S.reach('end')
    return f


def circnode_h(kinds, n, sizes):
    def f(S):
        import mdp
        pairs = [twins(S, k, i, n, input_dim=n, output_dim=n)
                 for i, k in enumerate(kinds)]
        flow = mdp.CircularOnlineFlow([p[0] for p in pairs])
        refs = [p[1] for p in pairs]
        loops = S.choose('loops', [1, 2] if len(kinds) > 1 else [1, 2, 4])
        ignore = S.choose('ignore', [False, True])
        flow.set_flow_iterations(loops)
        flow.ignore_input(ignore)
        node = mdp.hinet.CircularOnlineFlowNode(flow)
        batch = 'batch' in kinds
        z = S.array('z', (1, n))
        if not any(k in ('on', 'batch') for k in kinds):
            S.check(not node.is_trainable(), 'nothing to train')
            S.must_raise(mdp.IsNotTrainableException, 'nothing to train',
                         node.train, z)
            S.reach('end')
            return
        stored = None
        if ignore:
            S.must_raise(mdp.TrainingException, 'nothing stored',
                         node.train, z)
            stored = S.array('stored', (1, n))
            node.set_stored_input(stored)
        if S.choose('copy', [False, True]):
            node = node.copy()
        for i, s in enumerate(sizes):
            x = S.array('x%d' % i, (s, n))
            node.train(x)
            stored = circ_model(S, kinds, refs, [x] if batch else
                                list(lib.chunks(x, [1] * s)), loops, ignore,
                                stored, 0)
            same_nodes(S, list(node.flow), refs, 'circular flow node')
            S.eq(node.get_stored_input(), stored, 'stored output')
        y = z
        for r in refs:
            y = y + r.s
        S.eq(node.execute(z), y, 'composition')
        node.stop_training()
        for r in refs:
            if r.is_training():
                r.stop_training()
        same_nodes(S, list(node.flow), refs, 'stopped')
        S.eq(node.execute(z), y, 'composition')
        S.eq(node.inverse(z), z - (y - z), 'inverse')
        S.reach('end')
    return f


def edit_h(circular, length):
    """list operations; the output node of a circular flow stays the same
    node unless it is removed"""
    def f(S):
        import mdp
        On, Sup, Off = classes()
        num = [0]

        def new(kind='on', n=1):
            num[0] += 1
            return twins(S, kind, num[0], n, 1, input_dim=n,
                         output_dim=n)[0]
        C = mdp.CircularOnlineFlow if circular else mdp.OnlineFlow
        model = [new(), new('fix'), new()]
        flow = C(list(model))
        out = None
        if circular:
            k = S.choose('out', [0, 1, 2])
            flow.set_output_node(k)
            out = model[k]
        for i in range(length):
            op = S.choose('op%d' % i, ['set', 'slice', 'del', 'dels',
                                       'insert', 'append', 'extend', 'pop',
                                       'iadd', 'iaddf', 'bad', 'badi', 'add',
                                       'addf', 'get'])
            L = len(model)
            idx = list(range(-1, L)) if L else []
            if op in ('set', 'del', 'insert', 'pop') and not L:
                continue
            want = list(model)
            if op == 'set':
                k, v = S.choose('i%d' % i, idx), new()
                flow[k] = v
                want[k] = v
            elif op == 'slice':
                a, b = S.choose('s%d' % i, [(0, 1), (1, 3), (2, 2)])
                v = [new() for _ in range(S.choose('n%d' % i, [0, 1, 2]))]
                if not circular and not (want[:a] + v + want[b:]):
                    continue
                flow[a:b] = v
                want[a:b] = v
            elif op == 'del':
                k = S.choose('i%d' % i, idx)
                if not circular and L == 1:
                    continue
                del flow[k]
                del want[k]
            elif op == 'dels':
                a, b = S.choose('s%d' % i, [(0, 1), (1, 3), (0, 2)])
                if not circular and not (want[:a] + want[b:]):
                    continue
                del flow[a:b]
                del want[a:b]
            elif op == 'insert':
                k, v = S.choose('i%d' % i, idx), new()
                flow.insert(k, v)
                want.insert(k, v)
            elif op == 'append':
                v = new()
                flow.append(v)
                want.append(v)
            elif op == 'pop':
                if not circular and L == 1:
                    continue
                k = S.choose('i%d' % i, idx)
                S.check(flow.pop(k) is want.pop(k), 'popped node')
            elif op == 'iadd':
                v = new()
                flow += v
                want.append(v)
            elif op in ('iaddf', 'extend', 'addf'):
                D = S.choose('c%d' % i, [mdp.OnlineFlow,
                                         mdp.CircularOnlineFlow])
                v = [new(), new()]
                if op == 'iaddf':
                    flow += D(v)
                elif op == 'extend':
                    flow.extend(D(v))
                if op != 'addf':
                    want.extend(v)
                else:
                    r = flow + D(v)
                    S.check(type(r) is C, 'sum')
                    S.check([id(q) for q in r] == [id(q) for q in want + v],
                            'sum')
            elif op == 'add':
                v = new()
                r = flow + v
                S.check(type(r) is C and [id(q) for q in r] ==
                        [id(q) for q in want + [v]], 'sum')
            elif op == 'bad':
                v = S.choose('v%d' % i, ['dim', 'train'])
                v = new(n=2) if v == 'dim' else new('train')
                if not L:
                    continue
                if v.is_trainable() and not isinstance(v, mdp.OnlineNode):
                    fns = [lambda: flow.insert(0, v)]
                else:
                    fns = [lambda: flow.append(v), lambda: flow.insert(0, v),
                           lambda: flow.__setitem__(slice(0, 0), [v])]
                for fn in fns:
                    S.must_raise((ValueError, TypeError), 'does not fit', fn)
            elif op == 'badi':
                if not L:
                    continue
                v = new(n=2)

                def fn():
                    g = flow
                    g += v
                S.must_raise(ValueError, 'does not fit', fn)
                S.must_raise(TypeError, 'no node', lambda: flow.append(1))
                S.must_raise(TypeError, 'no node', lambda: flow + 1)
            else:
                if L > 1:
                    S.check(flow[0] is want[0] and flow[-1] is want[-1] and
                            want[0] in flow, 'item')
                    S.check([id(q) for q in flow[1:]] ==
                            [id(q) for q in want[1:]], 'slice')
            model = want
            S.check([id(q) for q in flow] == [id(q) for q in model] and
                    len(flow) == len(model), 'sequence after ' + op)
            if circular and model:
                if not any(q is out for q in model):
                    out = model[-1]
                S.check(flow[flow.output_node_idx] is out, 'output node')
                flow.set_input_node(0)
        if model:
            x = S.array('x', (1, 1))
            d = x
            for m in model:
                d = d + m.s
                if circular and m is out:
                    break
            for m in model:
                # no training by execute
                m._train_phase_started = True
            S.eq(flow.execute(x), d, 'still works')
        S.reach('end')
    return f


def rng_h():
    """one random number generator for all nodes of a flow node or layer"""
    def f(S):
        import mdp
        import numpy
        what = S.choose('what', ['OnlineFlowNode', 'CircularOnlineFlowNode',
                                 'OnlineLayer', 'CloneOnlineLayer',
                                 'SameInputOnlineLayer'])
        nodes = [twins(S, k, i, 1, 1, input_dim=1, output_dim=1)[0]
                 for i, k in enumerate(['on', 'fix', 'on'])]
        rng = numpy.random.RandomState(3)
        late = S.choose('late', [False, True])
        kw = {} if late else dict(numx_rng=rng)
        C = getattr(mdp.hinet, what)
        if what == 'OnlineFlowNode':
            c = C(mdp.OnlineFlow(nodes), **kw)
        elif what == 'CircularOnlineFlowNode':
            c = C(mdp.CircularOnlineFlow(nodes), **kw)
        elif what == 'CloneOnlineLayer':
            c = C(nodes[0], 2, **kw)
            nodes = nodes[:1]
        else:
            c = C(nodes, **kw)
        if late:
            S.must_raise(mdp.OnlineNodeException, 'no generator',
                         c.set_numx_rng, 5)
            c.numx_rng = rng
        S.check(c.numx_rng is rng, 'generator')
        for q in nodes:
            if isinstance(q, mdp.OnlineNode):
                S.check(q.numx_rng is rng, 'generator of the node')
        S.reach('end')
    return f


def add_h():
    """node + node, node + flow"""
    def f(S):
        import mdp
        a = twins(S, S.choose('a', ['on', 'fix']), 0, 1, 1, input_dim=1)[0]
        b = twins(S, S.choose('b', ['on', 'fix']), 1, 1, 1, input_dim=1)[0]
        F = S.choose('F', [None, 'Flow', 'OnlineFlow', 'CircularOnlineFlow'])
        if not isinstance(a, mdp.OnlineNode):
            return
        if F is None:
            r = a + b
            S.check(type(r) is (mdp.OnlineFlow if
                                isinstance(b, mdp.OnlineNode) else mdp.Flow),
                    'type of the sum')
            S.check(r[0] is a and r[1] is b and len(r) == 2, 'sum')
        else:
            g = getattr(mdp, F)([b])
            r = a + g
            S.check(type(r) is type(g) and len(r) == 2 and len(g) == 1,
                    'sum')
            S.check(type(r[0]) is type(a) and type(r[1]) is type(b), 'sum')
        S.must_raise(TypeError, 'no node', lambda: a + 3)
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    add = lambda name, fn, **o: hs.append(H(name, fn, **dict(
        dict(reach=['end']), **o)))
    ops = ['train', 'execute', 'stop', 'inverse']
    add('node/1', node_h(1, ops, 3))
    add('node/2', node_h(2, ops, 2 if q else 3))
    FL = [(['on'], [2, 1]), (['on', 'on'], [1, 2]), (['on', 'fix', 'on'],
                                                     [2, 2]),
          (['fix', 'batch'], [2, 1]), (['done', 'on', 'train'], [1, 2]),
          (['on', 'train'], [2, 2]), (['train'], [1, 1]),
          (['on', 'sup'], [2, 1]), (['sup', 'fix', 'sup'], [1, 1]),
          (['on', 'done'], [2]), (['on', 'train2'], [1, 2]),
          (['on', 'on2'], [1, 2])]
    if not q:
        FL += [(list(k), [2, 1]) for k in itertools.product(
            ['on', 'batch', 'sup', 'fix', 'done'], repeat=3)]
    for k, s in FL:
        add('flow/' + ' '.join(k) + str(len(s)), flow_h(k, 1 if len(k) > 2
                                                       else 2, s))
    add('refused', refused_h())
    FN = [['on'], ['on', 'on'], ['fix', 'on', 'on'], ['on', 'fix', 'batch'],
          ['done', 'on'], ['on', 'done'], ['fix', 'done'], ['on', 'fix']]
    if not q:
        FN += [list(k) for k in itertools.product(
            ['on', 'batch', 'fix', 'done'], repeat=3)]
    for k in FN:
        add('flownode/' + ' '.join(k), flownode_h(k, 1, [2, 1]))
    LK = [['on', 'on'], ['on', 'fix', 'inc'], ['batch', 'on'], ['done', 'batch'], ['fix'],
          ['on', 'done', 'on']]
    if not q:
        LK += [list(k) for k in itertools.product(
            ['on', 'batch', 'inc', 'fix', 'done'], repeat=2)]
    for cls in ('OnlineLayer', 'SameInputOnlineLayer'):
        for k in LK:
            if 'batch' in k and 'inc' in k:
                continue
            add('layer/%s/%s' % (cls, ' '.join(k)), layer_h(cls, k, [2, 1]))
    for k in ('on', 'batch', 'fix', 'done'):
        add('layer/clone/' + k, layer_h('CloneOnlineLayer', [k], [2, 1]))
    CK = [['on'], ['on', 'on'], ['fix', 'on', 'on'], ['on', 'done', 'on'],
          ['fix', 'fix', 'on']]
    if not q:
        CK += [['on', 'fix', 'fix'], ['done', 'fix', 'on'], ['on'] * 3]
    for k in CK:
        add('circular/' + ' '.join(k), circ_h(k, 1, [1, 2]))
    for k in CK + [['on', 'batch'], ['fix', 'done'], ['on', 'fix'],
                   ['fix', 'on', 'fix']]:
        add('circnode/' + ' '.join(k), circnode_h(k, 1, [2, 1]))
    for c in (False, True):
        add('edit/%s' % ('circular' if c else 'flow'), edit_h(c, 1 if q
                                                             else 2))
    add('rng', rng_h())
    add('sum', add_h())
    return hs
