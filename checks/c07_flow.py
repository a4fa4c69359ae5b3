"""C07: a flow is the composition of its nodes, trained one after the other,
and behaves like a list of nodes."""
from symx import lib
from symx.lib import A

BOUNDS = ('flows of 1-3 nodes with 0-3 training phases each, 1-3 data chunks '
          'per node, all data and all (affine) node functions; container '
          'histories of 2-3 operations on flows of up to 3 nodes')


def H(name, fn, **o):
    return (name, fn, o)


class Boom(Exception):
    pass


def make_node(S, i, phases=0, sup=0, din=None, dout=None, boom=None,
              inv=True):
    import mdp

    class N(mdp.Node):
        """x -> a*x + b with arbitrary a, b; every training call is logged
        and moves b, so that later nodes see the effect of the training"""
        @staticmethod
        def is_trainable():
            return phases > 0

        @staticmethod
        def is_invertible():
            return inv

        def _get_train_seq(self):
            def tr(k):
                def f(x, *a):
                    if boom == 'train':
                        raise Boom(i)
                    self.log.append(('train', k, x.copy(), a))
                    self.b = self.b + (k + 1) * x.sum(axis=0)
                return f

            def st(k):
                def f():
                    if boom == 'stop':
                        raise Boom(i)
                    self.log.append(('stop', k))
                    self.b = self.b * 2
                return f
            return [(tr(k), st(k)) for k in range(phases)]

        if sup == 1:
            def _train(self, x, lab):
                pass
        elif sup == 2:
            def _train(self, x, lab, w=None):
                pass

        def _execute(self, x):
            if boom == 'execute':
                raise Boom(i)
            return self.a * x + self.b

        def _inverse(self, y):
            if boom == 'inverse':
                raise Boom(i)
            return self.a * (y - 2 * self.b)      # any function will do
    n = N(input_dim=din, output_dim=dout, dtype='d')
    n.log = []
    n.a = S.real('a%d' % i)
    n.b = S.array('b%d' % i, (2,))
    return n


class Ref(object):
    """the oracle's own picture of a node"""

    def __init__(self, node, phases):
        self.a, self.b = node.a, node.b
        self.P, self.p = phases, 0
        self.log = []
        self.open = False

    def ex(self, x):
        if self.open:
            self.stop()
        return self.a * x + self.b

    def inv(self, y):
        if self.open:
            self.stop()
        return self.a * (y - 2 * self.b)

    def train(self, x, arg):
        self.log.append(('train', self.p, x, arg))
        self.open = True
        s = x[0:1]
        for t in range(1, x.shape[0]):
            s = s + x[t:t + 1]
        self.b = self.b + (self.p + 1) * s[0]

    def stop(self):
        self.log.append(('stop', self.p))
        self.b = self.b * 2
        self.p += 1
        self.open = False

    @property
    def done(self):
        return self.p >= self.P


def same_log(S, a, b, msg):
    S.check(len(a) == len(b), '%s: number of calls' % msg)
    for x, y in zip(a, b):
        S.check(x[:2] == y[:2], '%s: order of calls' % msg)
        if x[0] == 'train':
            S.eq(x[2], y[2], '%s: data' % msg)
            S.check(tuple(v for v in x[3] if v is not None) == y[3],
                    '%s: arguments' % msg)


# ------------------------------------------------------------- execution

def exec_h(n):
    def f(S):
        import mdp
        nodes = [make_node(S, i) for i in range(n)]
        flow = mdp.Flow(list(nodes))
        refs = [Ref(x, 0) for x in nodes]
        k = S.choose('chunks', [0, 1, 2, 3])
        how = S.choose('how', ['execute', 'call', 'nodenr', 'inverse'])
        nr = S.choose('nr', list(range(n))) if how == 'nodenr' else None
        sizes = {0: [2], 1: [2], 2: [1, 2], 3: [2, 1, 1]}[k]
        xs = [S.array('x%d' % i, (s, 2)) for i, s in enumerate(sizes)]
        x0 = [x.copy() for x in xs]
        if k == 0:
            arg = xs[0]
        elif S.choose('kind', ['list', 'gen']) == 'list':
            arg = list(xs)
        else:
            arg = iter(xs)
        if how == 'execute':
            y = flow.execute(arg)
        elif how == 'call':
            y = flow(arg)
        elif how == 'nodenr':
            y = flow.execute(arg, nodenr=nr)
        else:
            # (dimensions are known from an execution)
            for nd in nodes:
                nd.input_dim = 2
                nd.output_dim = 2
            y = flow.inverse(arg)
        want = []
        for x in x0:
            if how == 'inverse':
                for r in reversed(refs):
                    x = r.inv(x)
            else:
                for r in refs[:n if nr is None else nr + 1]:
                    x = r.ex(x)
            want.append(x)
        S.check(tuple(y.shape) == (sum(sizes), 2), 'shape')
        p = 0
        for w in want:
            S.eq(y[p:p + len(w)], w, 'the flow is the composition of its '
                 'nodes, chunk by chunk')
            p += len(w)
        for x, z in zip(xs, x0):
            S.eq(x, z, 'input unchanged')
        S.reach('end')
    return f


class Refill(object):
    """an iterable that hands out one buffer again and again"""

    def __init__(self, S, xs, wrap):
        self.buf = xs[0].copy()
        self.xs, self.wrap = xs, wrap
        self.item = [self.buf]

    def __iter__(self):
        for x in self.xs:
            self.buf[:] = x
            yield (self.buf if self.wrap == 'bare' else
                   (self.buf,) if self.wrap == 'tuple' else self.item)
        self.buf[:] = 0


def refill_h(kinds):
    def f(S):
        import mdp
        nodes = [make_node(S, i, p) for i, p in enumerate(kinds)]
        refs = [Ref(x, p) for x, p in zip(nodes, kinds)]
        flow = mdp.Flow(list(nodes))
        its, data = [], []
        for i in range(len(kinds)):
            xs = [S.array('x%d_%d' % (i, j), (2, 2)) for j in range(2)]
            data.append(xs)
            its.append(Refill(S, xs, S.choose('wrap%d' % i,
                                              ['bare', 'tuple', 'list'])))
        flow.train(its)
        for i, r in enumerate(refs):
            while not r.done:
                for x in data[i]:
                    for q in refs[:i]:
                        x = q.ex(x)
                    r.train(x, ())
                r.stop()
            same_log(S, nodes[i].log, r.log, 'training of node')
        zs = [S.array('z%d' % j, (2, 2)) for j in range(2)]
        y = flow(Refill(S, zs, 'bare'))
        for j, z in enumerate(zs):
            for r in refs:
                z = r.ex(z)
            S.eq(y[2 * j:2 * j + 2], z, 'chunk by chunk')
        S.reach('end')
    return f


def empty_h():
    def f(S):
        import mdp
        nodes = [make_node(S, i) for i in range(2)]
        flow = mdp.Flow(nodes)
        S.must_raise(mdp.FlowException, 'an empty iterator is refused',
                     flow.execute, [])
        S.must_raise(mdp.FlowException, 'an empty iterator is refused',
                     flow.inverse, iter([]))
        S.reach('end')
    return f


# -------------------------------------------------------------- training

def train_h(kinds, data_kinds, sizes=(1, 2)):
    """kinds: per node number of phases"""
    n = len(kinds)

    def f(S):
        import mdp
        nodes = [make_node(S, i, p) for i, p in enumerate(kinds)]
        refs = [Ref(x, p) for x, p in zip(nodes, kinds)]
        flow = mdp.Flow(list(nodes))
        single = S.array('all', (2, 2))
        iters, data = [], []
        for i in range(n):
            k = S.choose('data%d' % i, data_kinds)
            xs = [S.array('x%d_' % i, (s, 2)) for s in sizes]
            if k == 'none':
                iters.append(None)
                data.append(None)
            elif k == 'list':
                iters.append(list(xs))
                data.append(xs)
            elif k == 'tuple':
                iters.append([(x,) for x in xs])
                data.append(xs)
            elif k == 'gen':
                iters.append((x for x in xs))
                data.append(('once', xs))
            elif k == 'empty':
                iters.append([])
                data.append([])
            elif k == 'array':
                iters = single
                break
        if iters is single:
            data = [[single]] * n
        # the specification
        err = None
        for i in range(n):
            r, d = refs[i], data[i]
            if r.P == 0:
                continue
            if d is None:
                err = mdp.FlowException
                break
            once = isinstance(d, tuple)
            if once:
                d = d[1]
            first = True
            while True:
                if not d or (once and not first):
                    err = mdp.FlowException
                    break
                first = False
                for x in d:
                    for q in refs[:i]:
                        x = q.ex(x)
                    r.train(x, ())
                if r.P - r.p > 1:
                    r.stop()
                else:
                    break
            if err:
                break
        if err is None and refs[-1].P and not refs[-1].done:
            refs[-1].stop()
        if err is None:
            flow.train(iters)
        else:
            S.must_raise(err, 'missing, empty or unrepeatable data are '
                         'refused', flow.train, iters)
        for i in range(n):
            same_log(S, nodes[i].log, refs[i].log, 'training of node')
        if err is None:
            S.check(not nodes[-1].is_training(), 'the last node is closed')
            z = S.array('z', (1, 2))
            y = flow(z)
            w = z
            for r in refs:
                w = r.ex(w)
            S.eq(y, w, 'trained flow')
            for nd in nodes:
                S.check(not nd.is_training(), 'all nodes are closed')
            S.reach('trained')
        else:
            S.reach('refused')
    return f


def pretrained_h():
    """nodes already trained are left alone (warning with data, None ok)"""
    def f(S):
        import mdp
        nodes = [make_node(S, i, 1) for i in range(2)]
        which = S.choose('pre', [0, 1])
        x0 = S.array('p', (2, 2))
        nodes[which].train(x0)
        if S.choose('closed', [True, False]):
            nodes[which].stop_training()
            closed = True
        else:
            closed = False
        before = list(nodes[which].log)
        refs = [Ref(x, 1) for x in nodes]
        refs[which].p, refs[which].open = (1, False) if closed else (0, True)
        x = [S.array('x', (2, 2))]
        give = S.choose('give', ['none', 'data'])
        it = [x, x]
        if give == 'none':
            it[which] = None
        flow = mdp.Flow(list(nodes))
        if give == 'none' and not closed:
            S.must_raise(mdp.FlowException, 'a node in training needs data',
                         flow.train, it)
            S.reach('refused')
            return
        flow.train(it)
        refs[which].log = before
        for i in range(2):
            if i == which and closed:
                if give == 'data' and i:
                    refs[0].ex(x[0])        # (closes it)
                continue
            d = x[0]
            for q in refs[:i]:
                d = q.ex(d)
            refs[i].train(d, ())
        if not refs[1].done:
            refs[1].stop()
        for i in range(2):
            same_log(S, nodes[i].log, refs[i].log, 'node')
        S.reach('ok')
    return f


def supervised_h():
    def f(S):
        import mdp
        sup = S.choose('sup', [1, 2])
        nargs = S.choose('nargs', [0, 1, 2])
        nodes = [make_node(S, 0), make_node(S, 1, 2, sup=sup)]
        refs = [Ref(nodes[0], 0), Ref(nodes[1], 2)]
        xs = [S.array('x%d' % i, (2, 2)) for i in range(2)]
        tup = S.choose('type', [tuple, list])
        labs = [('l%d' % i, 'w%d' % i)[:nargs] for i in range(2)]
        it = [tup((x,) + l) for x, l in zip(xs, labs)]
        if not nargs and S.choose('bare', [False, True]):
            it = xs
        flow = mdp.Flow(nodes)
        if nargs != 1:
            S.must_raise(mdp.FlowException, 'the number of training '
                         'arguments is checked', flow.train, [None, it])
            S.check(not nodes[1].log, 'nothing was trained')
            S.reach('refused')
            return
        flow.train([None, it])
        for ph in range(2):
            for x, l in zip(xs, labs):
                refs[1].train(refs[0].ex(x), l)
            refs[1].stop()
        same_log(S, nodes[1].log, refs[1].log, 'supervised')
        S.reach('ok')
    return f


def refused_h():
    def f(S):
        import mdp
        nodes = [make_node(S, 0, 1), make_node(S, 1, 1)]
        flow = mdp.Flow(nodes)
        x = S.array('x', (2, 2))
        for bad in ([[x]], [[x], [x], [x]], ([x], [x]), [[x], 3], None):
            S.must_raise(mdp.FlowException, 'malformed training data are '
                         'refused', flow.train, bad)
        for nd in nodes:
            S.check(not nd.log, 'nothing was trained')
        S.reach('end')
    return f


def crash_h():
    def f(S):
        import mdp
        where = S.choose('node', [0, 1, 2])
        what = S.choose('what', ['execute', 'inverse', 'train', 'stop',
                                 'invertible'])
        nodes = [make_node(S, i, 1 if what in ('train', 'stop') else 0,
                           boom=what if i == where else None, din=2, dout=2,
                           inv=what != 'invertible' or i != where)
                 for i in range(3)]
        flow = mdp.Flow(nodes)
        x = S.array('x', (2, 2))
        call = {'execute': flow.execute, 'inverse': flow.inverse,
                'invertible': flow.inverse,
                'train': flow.train, 'stop': flow.train}[what]
        e = S.raises(mdp.FlowException, call, x)
        S.check(e is not None, 'a failing node raises a FlowException')
        if isinstance(e, mdp.FlowExceptionCR):
            p = e.parent_exception
            S.check(isinstance(p, mdp.IsNotInvertibleException)
                    if what == 'invertible' else
                    isinstance(p, Boom) and p.args == (where,),
                    'the original exception is kept')
            S.check(e.crashing_obj is flow, 'the failing flow is kept')
            S.check('node #%d ' % where in str(e), 'failing node is named')
        else:
            S.check(what == 'stop' and 'Boom: %d' % where in str(e),
                    'the original exception is reported')
        S.reach('end')
    return f


# ------------------------------------------------------------- container

def consistent(lst):
    for a, b in zip(lst, lst[1:]):
        o, i = a.output_dim, b.input_dim
        if o is not None and i is not None and o != i:
            return False
    return True


def plain(tag, din, dout):
    import mdp

    class N(mdp.Node):
        @staticmethod
        def is_trainable():
            return False
    n = N(input_dim=din, output_dim=dout)
    n.tag = tag
    return n


DIMS = [(2, 2), (2, 3), (3, 2), (None, None), (None, 3)]
OPS = ['append', 'insert', 'extend', 'iadd_node', 'iadd_flow', 'setitem',
       'setslice', 'delitem', 'delslice', 'pop', 'add_node', 'add_flow',
       'getslice', 'badtype']


def container_h(L, ops, start, full=False):
    dsel = range(len(DIMS)) if full else [0, 4]

    def f(S):
        import mdp
        init = [plain('s%d' % i, *DIMS[k]) for i, k in enumerate(start)]
        given = list(init)
        flow = mdp.Flow(given)
        ref = list(init)
        for step in range(L):
            op = S.choose('op%d' % step, ops)
            S.log(op)
            n = len(ref)
            d = [DIMS[S.choose('d%d' % step, dsel if step else range(len(DIMS)))]] \
                if op in ('append', 'insert', 'iadd_node', 'setitem',
                          'add_node', 'extend', 'iadd_flow', 'setslice',
                          'add_flow') else []
            new = plain('n%d' % step, *d[0]) if d else None
            idx = S.choose('i%d' % step, list(range(-n - 1, n + 2)) if not step or
                           full else [-n - 1, -1, 1]) \
                if op in ('insert', 'setitem', 'delitem', 'pop', 'setslice',
                          'delslice', 'getslice') else None
            want, err, res, result = list(ref), None, None, None
            other = None
            try:
                if op in ('append', 'iadd_node'):
                    want.append(new)
                elif op == 'insert':
                    want.insert(idx, new)
                elif op in ('extend', 'iadd_flow'):
                    other = mdp.Flow([new, plain('m', None, None)])
                    want.extend(other.flow)
                elif op == 'setitem':
                    want[idx] = new
                elif op == 'setslice':
                    want[idx:] = [new]
                elif op == 'delitem':
                    del want[idx]
                elif op == 'delslice':
                    del want[:idx]
                elif op == 'pop':
                    res = want.pop(idx)
                elif op == 'add_node':
                    result = want + [new]
                elif op == 'add_flow':
                    other = mdp.Flow([new])
                    result = want + other.flow
                elif op == 'getslice':
                    result = want[idx:]
                elif op == 'badtype':
                    err = TypeError
            except IndexError:
                err = IndexError
            if err is None and not consistent(
                    want if result is None else result):
                err = ValueError
            if err is not None:
                want = list(ref)
            if result is not None:
                want = list(ref)
            got = None
            try:
                if op == 'append':
                    flow.append(new)
                elif op == 'insert':
                    flow.insert(idx, new)
                elif op == 'extend':
                    flow.extend(other)
                elif op == 'iadd_node':
                    flow += new
                elif op == 'iadd_flow':
                    flow += other
                elif op == 'setitem':
                    flow[idx] = new
                elif op == 'setslice':
                    flow[idx:] = [new]
                elif op == 'delitem':
                    del flow[idx]
                elif op == 'delslice':
                    del flow[:idx]
                elif op == 'pop':
                    r = flow.pop(idx)
                    S.check(r is res, 'pop returns the node')
                elif op == 'add_node':
                    got = flow + new
                elif op == 'add_flow':
                    got = flow + other
                elif op == 'getslice':
                    got = flow[idx:]
                elif op == 'badtype':
                    bad = S.choose('bad%d' % step, range(6))
                    if bad == 0:
                        flow.append(3)
                    elif bad == 1:
                        flow[0:0] = ['x']
                    elif bad == 2:
                        flow.extend([3])
                    elif bad == 3:
                        flow += 3
                    elif bad == 4:
                        flow + 3
                    else:
                        flow[0] = 'x'
                exc = None
            except (TypeError, ValueError, IndexError) as e:
                exc = type(e)
            S.check(exc is err, '%s: %s' % (op, 'refused with the right '
                                            'exception' if err else
                                            'accepted'))
            S.check([x.tag for x in flow] == [x.tag for x in want],
                    '%s: contents%s' % (op, ' unchanged by the refused '
                                        'operation' if err else ''))
            for i, x in enumerate(want):
                S.check(flow[i] is x, 'item access')
                S.check(x in flow, 'membership')
            S.check(len(flow) == len(want), 'length')
            if result is not None and err is None:
                S.check(isinstance(got, mdp.Flow) and got is not flow and
                        len(got) == len(result) and
                        all(a is b for a, b in zip(got, result)),
                        '%s gives a new flow of the same nodes' % op)
                S.check(got.flow is not flow.flow, 'a list of its own')
            if other is not None:
                S.check(len(other) == (1 if op == 'add_flow' else 2),
                        'the other flow is not changed')
            ref = want
            if not ref:
                break
        S.reach('end')
    return f


def ctor_h():
    def f(S):
        import mdp
        ds = [S.choose('d%d' % i, DIMS) for i in range(3)]
        nodes = [plain(i, *d) for i, d in enumerate(ds)]
        if consistent(nodes):
            flow = mdp.Flow(nodes)
            S.check(len(flow) == 3 and all(a is b for a, b in
                                           zip(flow, nodes)), 'nodes')
            S.reach('ok')
        else:
            S.must_raise(ValueError, 'dimension mismatch is refused',
                         mdp.Flow, nodes)
            S.reach('refused')
    return f


def harnesses(tier):
    hs = []
    for n in (1, 2, 3):
        hs.append(H('exec/%d' % n, exec_h(n), reach=['end']))
    hs.append(H('empty', empty_h(), reach=['end']))
    dk = ['none', 'list', 'gen', 'empty', 'array']
    for kinds in [(1,), (2,), (3,), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2),
                  (0, 2)]:
        hs.append(H('train/%s' % ''.join(map(str, kinds)),
                    train_h(kinds, dk), reach=['trained', 'refused']))
    for kinds in [(1, 0, 1), (1, 1, 1), (2, 0, 2), (1, 2, 0)]:
        hs.append(H('train/%s' % ''.join(map(str, kinds)),
                    train_h(kinds, ['none', 'list', 'array']
                            if tier == 'quick' else dk),
                    reach=['trained', 'refused'], weight=3))
    hs.append(H('train/tuple', train_h((1, 2), ['tuple']),
                reach=['trained']))
    for kinds in [(1,), (0, 1), (0, 2), (1, 2), (2, 1)]:
        hs.append(H('refill/%s' % ''.join(map(str, kinds)), refill_h(kinds),
                    reach=['end']))
    hs.append(H('pretrained', pretrained_h(), reach=['ok', 'refused']))
    hs.append(H('supervised', supervised_h(), reach=['ok', 'refused']))
    hs.append(H('refused', refused_h(), reach=['end']))
    hs.append(H('crash', crash_h(), reach=['end']))
    hs.append(H('ctor', ctor_h(), reach=['ok', 'refused']))
    L = 2 if tier == 'quick' else 3
    for op in OPS:
        for start in [(0, 1), (1, 2, 1)]:
            hs.append(H('container/%s/%s' % (op, ''.join(map(str, start))),
                        _first(op, L, start), reach=['end'],
                        validate=10, max_paths=200000))
    return hs


def _first(op, L, start):
    def f(S):
        real = S.choose
        def choose(name, options):
            if name == 'op0':
                return op
            return real(name, options)
        S.choose = choose
        try:
            container_h(L, OPS, start)(S)
        finally:
            del S.choose
    return f
