"""C19: bidirectional switchboards, layers and flow nodes are the composition
of their parts."""
from symx import lib
from checks import c18_biflow as c18

BOUNDS = ('switchboards of up to 4 connections, flows of 3-4 nodes of which '
          'up to 3 are inside of (nested) BiFlowNodes, layers of 2-3 nodes, '
          '1-2 samples, 1-2 training phases, all data, message values and '
          'node functions')


def H(name, fn, **o):
    return (name, fn, o)


# ----------------------------------------------------------- switchboards

def values(S, n, rows):
    """message values of all kinds"""
    return {'arr': S.array('ma', (rows, n)), 'arr2': S.array('mb', (3, n)),
            'odd': S.array('mc', (2, n + 1)), 'vec': S.array('md', (n,)),
            'num': S.real('me'), 'lst': [S.real('mf')], 'str': 'abc',
            'none': None}


def switchboard_h(n, m, invertible=False, node_id=True):
    def f(S):
        import itertools
        import bimdp
        if invertible:
            con = list(S.choose('con', list(itertools.permutations(range(n)))))
        else:
            con = [S.choose('c%d' % j, list(range(n))) for j in range(m)]
        sb = bimdp.hinet.BiSwitchboard(input_dim=n, connections=con,
                                       node_id='sb' if node_id else None)
        rows = 2
        back = S.choose('inverse', [False, True]) if invertible else False
        x = S.array('x', (rows, n)) if S.choose('x', [True, False]) else None
        msg = values(S, n, rows)
        keys = S.choose('keys', [[], ['arr'], ['num'], list(msg)])
        msg = {k: msg[k] for k in keys}
        keep = dict(msg)
        if back:
            inv = [con.index(i) for i in range(n)]
            route = inv
        else:
            route = con
        if x is None and not msg:
            return
        if (back and x is not None and
                S.choose('how', ['method', 'inverse']) == 'inverse'):
            r = sb.inverse(x, dict(msg)) if msg else sb.inverse(x)
            y, out, t = c18.norm(r)
            S.check(t in (None, -1), 'target')
        elif back:
            key = 'sb->method' if node_id else 'method'
            m2 = dict(msg)
            m2[key] = 'inverse'
            r = sb.execute(x, m2)
            y, out, t = c18.norm(r)
            S.check(t == -1, 'target of the inverse')
            out = dict(out or {})
            if not node_id:
                S.check(out.pop('method', None) == 'inverse',
                        'plain keys are passed on')
        else:
            y, out, t = c18.norm(sb.execute(x, msg) if msg else
                                 sb.execute(x))
            S.check(t is None, 'target')
        if x is None:
            S.check(y is None, 'no data')
        else:
            S.eq(y, x[:, route], 'routed data')
        out = out or {}
        S.check(set(out) == set(keep), 'keys of the message')
        for k in keep:
            v = keep[k]
            if k in ('arr', 'arr2'):
                v = v[:, route]
            lib.same_value(S, out[k], v, 'message ' + k)
        S.reach('end')
    return f


def bi_and_plain_h():
    """the switchboards with a geometry are those of mdp.hinet"""
    def f(S):
        import mdp
        import bimdp
        h, b = mdp.hinet, bimdp.hinet
        which = S.choose('which', ['channel', 'rect', 'double', 'rhomb'])
        ch = S.choose('ch', [1, 2])
        if which == 'channel':
            A, B = h.ChannelSwitchboard, b.ChannelBiSwitchboard
            k = dict(input_dim=4 * ch, out_channel_dim=2 * ch,
                     in_channel_dim=ch,
                     connections=[i for j in (3, 0, 2, 1)
                                  for i in range(j * ch, j * ch + ch)])
        elif which == 'rect':
            A, B = h.Rectangular2dSwitchboard, b.Rectangular2dBiSwitchboard
            k = dict(in_channels_xy=(3, 2), field_channels_xy=(2, 1),
                     field_spacing_xy=(1, 1), in_channel_dim=ch)
        elif which == 'double':
            A, B = h.DoubleRect2dSwitchboard, b.DoubleRect2dBiSwitchboard
            k = dict(in_channels_xy=(4, 4), field_channels_xy=(2, 2),
                     in_channel_dim=ch)
        else:
            A, B = h.DoubleRhomb2dSwitchboard, b.DoubleRhomb2dBiSwitchboard
            k = dict(long_in_channels_xy=(3, 2), diag_field_channels=2,
                     in_channel_dim=ch)
        p, q = A(**k), B(node_id='q', **k)
        S.check(list(p.connections) == list(q.connections), 'connections')
        S.check((p.input_dim, p.output_dim, p.output_channels) ==
                (q.input_dim, q.output_dim, q.output_channels), 'dims')
        x = S.array('x', (1, p.input_dim))
        v = S.array('v', (1, p.input_dim))
        y, m = q.execute(x, {'v': v})
        S.eq(y, p.execute(x), 'routed data')
        S.eq(m['v'], p.execute(v), 'routed message')
        S.check(q.node_id == 'q' and isinstance(q, bimdp.BiNode), 'BiNode')
        S.reach('end')
    return f


# -------------------------------------------------------------- flow nodes

SHAPES = {
    '0[12]': [0, [1, 2]], '[01]2': [[0, 1], 2], '[012]': [[0, 1, 2]],
    '0[1]2': [0, [1], 2], '0[12]3': [0, [1, 2], 3],
    '0[[1]2]3': [0, [[1], 2], 3], '[012]3': [[0, 1, 2], 3],
    '[0[12]]': [[0, [1, 2]]], '0[[1]2]': [0, [[1], 2]],
}


def leaves(shape):
    r = []
    for s in shape:
        r += leaves(s) if isinstance(s, list) else [s]
    return r


def firsts(shape, r=None):
    """nodes that follow a block (a step back from them enters the block at
    its begin, not at its end)"""
    r = set() if r is None else r
    for i, s in enumerate(shape):
        if isinstance(s, list):
            firsts(s, r)
        if i and isinstance(shape[i - 1], list):
            r.add(leaves([s])[0])
    return r


def nest(shape, nodes, ids=True, top=True):
    import bimdp
    r = []
    for s in shape:
        if isinstance(s, list):
            r.append(bimdp.hinet.BiFlowNode(
                nest(s, nodes, ids, False),
                node_id='f%d' % leaves(s)[0] if ids else None))
        else:
            r.append(nodes[s])
    return bimdp.BiFlow(r)


def twins(S, shape, plain=(), phases={}, njump=1, few=False, one=False):
    # one: only one of the nodes has a target
    R, Plain = c18.router()
    n = len(leaves(shape))
    ab = [(S.real('a%d' % i), S.real('b%d' % i)) for i in range(n)]
    after = firsts(shape)
    tg = []
    who = S.choose('who', [i for i in range(n) if i not in plain]) \
        if one else None
    for i in range(n):
        if one and i != who:
            tg.append([])
            continue
        opts = [None, 'n0', 'n%d' % (n - 1), 'exit']
        if not few:
            if i and i not in after:
                opts.append(-1)
            opts.append('nowhere')
        tg.append([S.choose('t%d_%d' % (i, k), opts if k == 0 else
                            [None, 'n%d' % (n // 2)]) for k in range(njump)]
                  if i not in plain else [])

    def mk():
        return [Plain(i, *ab[i]) if i in plain else
                R(i, ab[i][0], ab[i][1], tg[i], phases=phases.get(i, 0))
                for i in range(n)]
    return mk(), mk()


def nested_execute_h(key, plain=(), njump=1, one=False):
    def f(S):
        import bimdp
        shape = SHAPES[key]
        na, nb = twins(S, shape, plain, njump=njump, one=one)
        flat = bimdp.BiFlow(na)
        deep = nest(shape, nb, S.choose('ids', [True, False]))
        x = S.array('x', (1, 2))
        msg = {}
        if S.choose('p', [False, True]):
            msg['n1->p'] = S.real('p')
            msg['k'] = [1]
        bi = [i for i in range(len(na)) if i not in plain]
        t0 = S.choose('start', [None] + ['n%d' % i for i in bi[:2]])
        want = None
        try:
            want = flat.execute(x, dict(msg), t0)
        except bimdp.BiFlowException:
            S.must_raise(bimdp.BiFlowException, 'a target that is not in '
                         'the flow is refused', deep.execute, x, dict(msg),
                         t0)
            S.reach('bad')
            return
        for rep in range(2):
            got = deep.execute(x, dict(msg), t0)
            S.eq(got[0], want[0], 'output as without BiFlowNodes')
            S.check(set(got[1]) == set(want[1]), 'keys of the message')
            for k in want[1]:
                lib.same_value(S, got[1][k], want[1][k], 'message ' + k)
        S.check([getattr(k, 'nreset', 0) > 0 for k in nb] ==
                [i in bi for i in range(len(nb))] and
                all(getattr(k, 'visit', 0) == 0 for k in nb),
                'inner nodes are reset')
        for i in bi:
            S.check(deep['n%d' % i] is nb[i], 'inner nodes by id')
        # looking for nodes has no influence on the execution
        got = deep.execute(x, dict(msg), t0)
        S.eq(got[0], want[0], 'output after looking for nodes')
        S.reach('end')
    return f


def nested_direct_h(key):
    """BiFlowNode.execute of its own"""
    def f(S):
        import bimdp
        shape = SHAPES[key]
        R, Plain = c18.router()
        n = len(leaves(shape))
        ab = [(S.real('a%d' % i), S.real('b%d' % i)) for i in range(n)]
        mk = lambda: [R(i, a, b, []) for i, (a, b) in enumerate(ab)]
        na = mk()
        flat = bimdp.BiFlow(na)
        deep = nest(shape, mk())
        fn = bimdp.hinet.BiFlowNode(deep, node_id='top')
        x = S.array('x', (2, 2))
        p = S.real('p')
        want = flat.execute(x, {'n1->p': p, 'k': 3})
        got = fn.execute(x, {'n1->p': p, 'k': 3, 'top->zz': 1})
        S.eq(got[0], want[0], 'output')
        S.check(set(got[1]) == set(want[1]), 'keys')
        S.check(got[1]['trace'] == want[1]['trace'], 'nodes')
        S.check(fn.input_dim == 2 and fn.output_dim == 2 and
                not fn.is_training(), 'properties')
        S.check(len(fn) == len(shape) if hasattr(fn, '__len__') else True,
                'length')
        c = fn.copy()
        S.eq(c.execute(x, {'n1->p': p})[0], want[0], 'copy')
        S.check(c._flow.flow[0] is not deep.flow[0], 'copied nodes')
        S.must_raise(bimdp.BiNodeException, 'only BiFlows',
                     bimdp.hinet.BiFlowNode, na[0])
        S.reach('end')
    return f


def nested_train_h(key, phases, plain=(), few=True, one=False):
    def f(S):
        import bimdp
        shape = SHAPES[key]
        na, nb = twins(S, shape, plain, phases, few=few, one=one)
        n = len(na)
        last = max(phases)
        t = S.choose('train result', [None, 'n0', -1] if last and
                     last not in firsts(shape) else [None, 'n0'])
        sres = S.choose('stop', [None, 'msg', 'n0', 'next']
                        if phases[last] == 1 else [None, 'msg'])
        xs = [S.array('x%d' % j, (1, 2)) for j in range(2)]
        for nodes in (na, nb):
            if t is not None:
                nodes[last].tres = [t]
            if sres == 'n0':
                nodes[last].sres = (xs[0], {'p': 1}, 'n0')
            elif sres == 'next':
                nodes[last].sres = (xs[0], {'p': 1})
        flat = bimdp.BiFlow(na)
        deep = nest(shape, nb)
        usep = S.choose('p', [False, True])
        pv = [S.real('p%d' % j) for j in range(2)]
        sp = S.real('sp')

        def args(fl):
            data, msgs, stops = [], [], []
            for nd in fl.flow:
                tr = nd.is_trainable()
                data.append(list(xs) if tr else None)
                msgs.append([{'n%d->p' % last: q, 'z': 1} for q in pv]
                            if tr and usep else None)
                stops.append({'n%d->p' % last: sp} if tr and sres == 'msg'
                             else None)
            return data, msgs, stops
        if sres == 'msg':
            # a stop message goes to every phase of the outer node
            d, m, s = args(flat)
            s = [{'n%d->p' % last: sp} if q is not None else None for q in d]
            fargs = (d, m, s)
        else:
            fargs = args(flat)
        ra = lib.outcome(flat.train, *fargs)
        rb = lib.outcome(deep.train, *args(deep))
        S.check(ra is rb, 'same outcome of the training (%s, %s)' % (ra, rb))
        if ra is not None:
            S.check(issubclass(ra, bimdp.BiFlowException), 'kind of error')
            S.reach('bad')
            return
        for i in range(n):
            if i in plain:
                continue
            S.check(na[i].seen == nb[i].seen, 'training steps')
            S.eq(na[i].b, nb[i].b, 'what the node learned')
            S.check(not nb[i].is_training(), 'the training is closed')
        S.check(not any(nd.is_training() for nd in deep.flow),
                'the training of the flow nodes is closed')
        z = S.array('z', (1, 2))
        oa = lib.outcome(flat.execute, z)
        if oa is None:
            S.eq(deep.execute(z)[0], flat.execute(z)[0], 'trained flow')
        S.reach('end')
    return f


# ------------------------------------------------------------------ layers

def layer_node(S, phases=1, tgt=None):
    import bimdp

    class L(bimdp.BiNode):
        def __init__(self, a=None, b=None, phases=1, tgt=None, sres=None,
                     node_id=None, input_dim=None, output_dim=None,
                     dtype=None):
            self.a, self.b, self.phases, self.tgt = a, b, phases, tgt
            self.sres = sres
            self.acc = 0
            self.mem = []
            self.tres = None
            super(L, self).__init__(node_id=node_id, input_dim=input_dim,
                                    output_dim=output_dim, dtype=dtype)

        def is_trainable(self):
            return self.phases > 0

        def _bi_reset(self):
            self.mem = []

        def _execute(self, x, p=None, arr=None):
            first = self.mem[0] if self.mem else 0
            self.mem.append(0 if x is None else x[0, 0])
            y = None if x is None else self.a * x + self.b + first
            if p is not None and y is not None:
                y = y + p
            m = {'own': 0 if x is None else x[0, 0], 'out': y}
            if arr is not None:
                m['arr'] = 2 * arr
            return (y, m) if self.tgt is None else (y, m, self.tgt)

        def _train(self, x, p=None):
            pass

        def _get_train_seq(self):
            def tr(k):
                def _train(x, p=None):
                    self.acc = self.acc * 2 + (k + 1) * x[0, 0] + (p or 0)
                    if self.tres is not None:
                        return (self.a * x, {'t': x[0, 0]}, self.tres)
                return _train

            def st(k):
                def _stop(p=0):
                    self.b = self.b + self.acc + p
                    self.acc = 0
                    return self.sres
                return _stop
            return [(tr(k), st(k)) for k in range(self.phases)]
    return L


def parts(S, v, n, split=True):
    d = v.shape[1] // n
    return [v[:, d * i: d * i + d] for i in range(n)]


def layer_execute_h(n, copies=(False, True)):
    def f(S):
        import bimdp
        L = layer_node(S)
        a, b = S.real('a'), S.real('b')
        tgt = S.choose('target', [None, 'far'])
        mk = lambda: L(a, b, 0, tgt, node_id='in', input_dim=1, output_dim=1)
        node = mk()
        ci = S.choose('copies', list(copies))
        ly = bimdp.hinet.CloneBiLayer(node, n_nodes=n, use_copies=ci,
                                      node_id='ly')
        rows = 2
        x = S.array('x', (rows, n)) if S.choose('x', [True, False]) else None
        msg = {}
        if S.choose('p', [False, True]):
            msg[S.choose('pkey', ['p', 'in->p'])] = S.real('p')
        form = S.choose('arr', [None, 'split', 'whole', 'in->split'])
        ar = None
        if form == 'whole':
            msg['arr'] = ar = S.array('arr', (rows, n + 1))
        elif form == 'split':
            msg['arr'] = ar = S.array('arr', (rows, 2 * n))
        elif form:
            msg['in->arr'] = ar = S.array('arr', (rows, 2 * n))
        if S.choose('other', [False, True]):
            msg['other'] = S.array('other', (rows, 1 if n > 1 else 2))
        cm = S.choose('switch', [None, True, False])
        if cm is not None:
            msg[S.choose('ckey', ['use_copies', 'ly->use_copies'])] = cm
        if x is None and all(k.startswith('ly') for k in msg):
            return
        # oracle: one node per part; a shared node remembers the parts before
        use = ci if cm is None else cm
        refs = [mk() for i in range(n)] if use else [mk()] * n
        ys, outs = [], []
        p = msg.get('p', msg.get('in->p'))
        for i in range(n):
            xi = None if x is None else parts(S, x, n)[i]
            ai = ar if form in (None, 'whole') else parts(S, ar, n)[i]
            r = refs[i]._execute(xi, p, ai)
            ys.append(r[0])
            outs.append(r[1])
        keep = dict(msg)
        got = c18.norm(ly.execute(x, dict(msg)) if msg else ly.execute(x))
        S.check(ly.use_copies is use, 'use_copies')
        S.check(len(ly.nodes) == n and len(set(map(id, ly.nodes))) ==
                (n if use else 1), 'instances')
        if x is None:
            S.check(got[0] is None, 'no data')
        else:
            S.eq(got[0], S.np.hstack(ys), 'output of the parts')
        S.check(got[2] == tgt, 'target')
        want = {}
        for k in keep:
            if '->' not in k and k not in ('arr',):
                want[k] = keep[k]
        if ar is not None:
            want['arr'] = 2 * ar if form != 'whole' else S.np.hstack(
                [2 * ar] * n)
        want['own'] = outs[-1]['own']
        want['out'] = None if x is None else S.np.hstack(ys)
        S.check(set(want) == set(got[1]), 'keys of the message')
        for k in want:
            if k == 'other':
                v = keep[k]
                lib.same_value(S, got[1][k], v, 'array given on')
            else:
                lib.same_value(S, got[1][k], want[k], 'message ' + k)
        ly.bi_reset()
        S.check(all(nd.mem == [] for nd in ly.nodes), 'reset')
        S.check(ly._request_node_id('ly') is ly and
                ly._request_node_id('in') is ly.nodes[0] and
                ly._request_node_id('zz') is None, 'ids')
        S.reach('end')
    return f


def layer_train_h(n, phases=1):
    def f(S):
        import bimdp
        L = layer_node(S)
        a, b = S.real('a'), S.real('b')
        ci = S.choose('copies', [False, True])
        early = S.choose('when', ['init', 'message', 'stop message', 'never'])
        mk = lambda: L(a, b, phases, input_dim=1, output_dim=1)
        node = mk()
        node.tres = S.choose('train result', [None, 'far'])
        node.sres = S.choose('stop result', [None, 'far'])
        if node.sres:
            node.sres = (None, {'s': 1}, 'far')
        ly = bimdp.hinet.CloneBiLayer(node, n_nodes=n, node_id='ly')
        S.check(ly.is_trainable() and ly.is_training(), 'trainable')
        use = False
        if ci and early == 'init':
            ly.use_copies = True
            use = True
        refs = [mk() for i in range(n)] if use else [mk()] * n
        split = 0       # number of trainings of the shared node
        ps = S.choose('p', ['none', 'p', 'array'])
        for ph in range(phases):
            for j in range(2):
                x = S.array('x%d%d' % (ph, j), (1, n))
                msg = {}
                if ci and early == 'message' and j == 1 and not use:
                    msg['ly->use_copies'] = True
                    use = True
                    old = refs[0]
                    refs = []
                    for i in range(n):
                        refs.append(mk())
                        refs[i].acc, refs[i].b = old.acc, old.b
                p = [None] * n
                if ps == 'p':
                    msg['p'] = S.real('p%d%d' % (ph, j))
                    p = [msg['p']] * n
                xi = parts(S, x, n)
                got = c18.norm(ly.train(x, msg) if msg else ly.train(x))
                for i in range(n):
                    r = refs[i]
                    r.acc = r.acc * 2 + (ph + 1) * xi[i][0, 0] + (p[i] or 0)
                if node.tres:
                    S.eq(got[0], a * x, 'result of the training')
                    S.check(got[2] == 'far', 'target of the training')
                    S.eq(got[1]['t'], xi[-1][0, 0], 'message')
                else:
                    S.check(got == (None, None, None), 'no result')
            if not ly.use_copies:
                pass
            else:
                S.must_raise(bimdp.hinet.CloneBiLayerException, 'copies '
                             'cannot be joined during the training',
                             setattr, ly, 'use_copies', False)
            sm = {}
            sp = 0
            if S.choose('sp%d' % ph, [False, True]):
                sm['p'] = sp = S.real('spv%d' % ph)
            if ci and early == 'stop message' and not use:
                sm['use_copies'] = True
                use = True
                old = refs[0]
                refs = []
                for i in range(n):
                    refs.append(mk())
                    refs[i].acc, refs[i].b = old.acc, old.b
            got = c18.norm(ly.stop_training(sm) if sm else
                           ly.stop_training())
            done = []
            for r in refs:
                if r not in done:
                    r.b = r.b + r.acc + sp
                    r.acc = 0
                    done.append(r)
            if node.sres:
                S.check(got[2] == 'far' and got[1].get('s') == 1,
                        'result of stop_training')
            else:
                S.check(got[0] is None and got[2] is None, 'no result')
        S.check(not ly.is_training() and ly.use_copies is use, 'state')
        S.check(len(set(map(id, ly.nodes))) == (n if use else 1),
                'instances')
        for i in range(n):
            S.eq(ly.nodes[i].b, refs[i].b, 'what node %d learned' % i)
            S.check(not ly.nodes[i].is_training(), 'training is closed')
        S.check(ly.output_dim == n, 'output_dim')
        x = S.array('z', (1, n))
        back = S.choose('back', [False, True])
        if back:
            ly.use_copies = False
            S.check(ly.node is ly.nodes[0], 'one node')
        y = c18.norm(ly.execute(x, {'use_copies': True}))[0]
        want = [a * xi + (refs[0 if back or not use else i].b)
                for i, xi in enumerate(parts(S, x, n))]
        S.eq(y, S.np.hstack(want), 'trained layer')
        S.reach('end')
    return f


def layer_flow_h(n, copies=(False, True)):
    """a layer of BiFlowNodes: targets and training reach the inner nodes"""
    def f(S):
        import bimdp
        R, Plain = c18.router()
        L = layer_node(S)
        ab = [(S.real('a%d' % i), S.real('b%d' % i)) for i in range(3)]
        ph = S.choose('phases', [0, 1])

        def lnode(i, phases=0):
            return L(ab[i][0], ab[i][1], phases, None, node_id='n%d' % i,
                     input_dim=1, output_dim=1)
        inner = [lnode(0), lnode(1, ph)]
        fn = bimdp.hinet.BiFlowNode(bimdp.BiFlow(inner), node_id='fn')
        ly = bimdp.hinet.CloneBiLayer(fn, n_nodes=n, node_id='ly')
        ly.use_copies = S.choose('copies', list(copies))
        front = lnode(2)
        t = S.choose('target', [None, 'n0', 'n1', 'fn', 'ly', 'zz'])
        front.input_dim  # set
        front = L(ab[2][0], ab[2][1], 0, t, node_id='n2', input_dim=n,
                  output_dim=n)
        fl = bimdp.BiFlow([front, ly])
        x = S.array('x', (1, n))
        if t == 'zz':
            S.must_raise(bimdp.BiFlowException, 'unknown target',
                         fl.execute if not ph else fl.train,
                         *([x] if not ph else [[None, [x]]]))
            S.reach('bad')
            return
        bs = [ab[1][1]] * n
        if ph:
            fl.train([None, [x]])
            bs, acc = [], 0
            y = ab[2][0] * x + ab[2][1]
            for i in range(n):
                v = y[:, i:i + 1]
                if t != 'n1':
                    v = ab[0][0] * v + ab[0][1]
                    if not ly.use_copies and i:
                        # the shared node remembers the first part
                        v = v + y[0, 0]
                if ly.use_copies:
                    bs.append(ab[1][1] + v[0, 0])
                else:
                    acc = acc * 2 + v[0, 0]
            if not ly.use_copies:
                bs = [ab[1][1] + acc] * n
            S.check(not ly.is_training(), 'the training is closed')
        z = S.array('z', (1, n))
        y = ab[2][0] * z + ab[2][1]
        want = []
        m0 = m1 = 0
        for i in range(n):
            v = y[:, i:i + 1]
            if t != 'n1':
                o = v[0, 0]
                v = ab[0][0] * v + ab[0][1] + m0
                if not ly.use_copies and i == 0:
                    m0 = o
            o = v[0, 0]
            v = ab[1][0] * v + bs[i] + m1
            if not ly.use_copies and i == 0:
                m1 = o
            want.append(v)
        for rep in range(2):
            S.eq(fl.execute(z)[0], S.np.hstack(want), 'output of the layer')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = [H('switchboard/any', switchboard_h(2, 3), reach=['end']),
          H('switchboard/perm', switchboard_h(3, 3, True), reach=['end']),
          H('switchboard/perm/noid', switchboard_h(2, 2, True, False),
            reach=['end']),
          H('switchboard/geometry', bi_and_plain_h(), reach=['end'])]
    E = ['end', 'bad']
    for k in SHAPES:
        if q and k in ('0[12]3', '0[[1]2]3', '[012]3'):
            continue
        hs.append(H('nested/' + k, nested_execute_h(
            k, one=q and k != '0[12]'), reach=E))
    hs.append(H('nested/0[12]/plain', nested_execute_h('0[12]', (1,)),
                reach=E))
    hs.append(H('nested/[01]2/plain', nested_execute_h('[01]2', (0,)),
                reach=E))
    if not q:
        hs.append(H('nested/0[12]/2jumps', nested_execute_h(
            '0[12]', njump=2), reach=E))
    hs.append(H('nested/direct', nested_direct_h('0[[1]2]'), reach=['end']))
    for k, ph, o in (('0[12]', {2: 1}, {}), ('[01]2', {1: 1}, {}),
                     ('0[12]', {1: 2}, {}), ('[012]3', {1: 1, 2: 1}, {}),
                     ('0[[1]2]3', {1: 1}, {}), ('0[12]3', {2: 1}, {}),
                     ('0[12]', {2: 1}, dict(plain=(1,)))):
        if q and k == '0[12]3':
            continue
        hs.append(H('train/%s/%s%s' % (k, ''.join(
            '%dx%d' % i for i in ph.items()), '/plain' if o else ''),
            nested_train_h(k, ph, one=q, **o), reach=['end']))
    for n in ((2, 3) if q else (1, 2, 3)):
        hs.append(H('layer/execute/%d' % n, layer_execute_h(n),
                    reach=['end']))
        hs.append(H('layer/train/%d' % n, layer_train_h(n), reach=['end']))
        hs.append(H('layer/flow/%d' % n, layer_flow_h(n), reach=E))
    if not q:
        hs.append(H('layer/train/2phases', layer_train_h(2, 2),
                    reach=['end']))
    return hs
