"""C30: a ParallelBiFlow gives what the BiFlow gives."""
from symx import lib
from checks.c13_parallel import activate, scheduler_class

BOUNDS = ('flows of 1-3 nodes with up to 2 training phases, 1-3 chunks of 1-2 '
          'samples per phase, every order of completion, forks made when a '
          'task is added, when it runs or in another process; all data, '
          'message values and node parameters')
ASSUMPTIONS = []


def H(name, fn, **o):
    o.setdefault('reach', ['end'])
    o.setdefault('linalg_full', False)
    return (name, fn, o)


def classes(S, fork_execute=False):
    """Bi nodes: NB cannot be forked, B can, M is a plain node that can"""
    import mdp
    import bimdp
    import mdp.parallel as par

    class Base(object):
        def setup(self, a, b, phases):
            self.a, self.b, self.phases = a, b, phases
            self.clear()

        def clear(self):
            self.acc, self.ntrain, self.nex, self.got = 0, 0, 0, []

        def is_trainable(self):
            return self.phases > 0

        def absorb(self, o):
            self.acc = self.acc + o.acc
            self.ntrain += o.ntrain
            self.nex += o.nex
            self.got += o.got

    class M(Base, mdp.Node):
        def __init__(self, a, b, phases):
            self.setup(a, b, phases)
            mdp.Node.__init__(self, 2, 2)

        def _train(self, x):
            pass

        def _get_train_seq(self):
            def tr(k):
                def f(x):
                    for t in range(x.shape[0]):
                        self.acc = self.acc + (k + 1) * x[t, 0] + x[t, 1] ** 2
                    self.ntrain += 1
                return f

            def st():
                self.b = 2 * self.b + self.acc
                self.acc = 0
            return [(tr(k), st) for k in range(self.phases)]

        def _execute(self, x):
            self.nex += x.shape[0]
            return self.a * x + self.b

    class NB(Base, bimdp.BiNode):
        def __init__(self, a, b, phases, back=None, stop=None, exe=None,
                     node_id=None, dim=2):
            self.setup(a, b, phases)
            bimdp.BiNode.__init__(self, node_id=node_id, input_dim=dim,
                                  output_dim=dim)
            self.back, self.stop, self.exe = back, stop, exe
            self.hits = 0

        def _bi_reset(self):
            self.hits = 0

        def _train(self, x):
            pass

        def _get_train_seq(self):
            def tr(k):
                def f(x, g=1, msg=None):
                    for t in range(x.shape[0]):
                        self.acc = self.acc + (k + 1) * g * x[t, 0] + x[t, -1]
                    self.ntrain += 1
                    if self.back is not None and not self.hits:
                        self.hits += 1
                        return 3 * x, {'g': g + 1}, self.back
                return f

            def st(s=0, msg=None):
                self.b = 2 * self.b + self.acc + s
                self.acc = 0
                y = S.np.array([[self.b, self.a]])
                return {None: None, 'x': y, 'xm': (y, {'g': self.b}),
                        'exit': (y, {'g': 1}, bimdp.EXIT_TARGET),
                        'm': (None, {'note': self.b})}.get(
                    self.stop, (y, {'g': self.b, 'note': self.a}, self.stop))
            return [(tr(k), st) for k in range(self.phases)]

        def _execute(self, x, g=1, note=None, msg=None):
            self.nex += 0 if x is None else x.shape[0]
            if note is not None:
                self.got.append(note)
            y = None if x is None else self.a * x * g + self.b
            if self.exe == 'msg':
                return y, {'out': self.b, 'g': g}
            if self.exe == 'some':
                return (y if note is None else None), {'out': g}
            if self.exe == 'none':
                return None, {'out': [self.b]}
            if self.exe == 'jump' and not self.hits:
                self.hits += 1
                return y, {'g': g + 1}, -1
            if self.exe == 'exit':
                return y, {'out': g}, bimdp.EXIT_TARGET
            if self.exe == 'lost':
                return y, {'out': g}, 'nowhere'
            return y

    class B(NB):
        pass

    def parallel(cls):
        class P(par.ParallelExtensionNode, cls):
            def _fork(self):
                k = self.copy()
                k.clear()
                return k

            def _join(self, other):
                self.absorb(other)

            def use_execute_fork(self):
                return fork_execute
        return P
    for c in (M, B):
        parallel(c)

    def forget():
        if 'parallel' in mdp.get_active_extensions():
            mdp.deactivate_extension('parallel')
        for c in (M, B):
            mdp.get_extensions()['parallel'].pop(c, None)
    S.add_cleanup(forget)
    return {'M': M, 'B': B, 'N': NB}


def build(S, spec, C, par):
    """spec: (kind, phases, options)"""
    nodes = []
    for i, s in enumerate(spec):
        kind, ph, kw = s[0], s[1], dict(s[2]) if len(s) > 2 else {}
        a, b = par[i]
        if kind in 'BN':
            kw['node_id'] = 'n%d' % i
        if kind[0] == 'L':
            # Lc: copies are used from the beginning
            import bimdp.hinet
            one = C['B'](a, b, ph, dim=1, **kw)
            nodes.append(bimdp.hinet.CloneBiLayer(
                one, 2, use_copies=kind == 'Lc', node_id='n%d' % i))
        elif kind == 'F':
            import bimdp
            import bimdp.hinet
            nodes.append(bimdp.hinet.BiFlowNode(bimdp.BiFlow(
                [C['B'](a, b, ph, node_id='i0'),
                 C['B'](a, b, ph and 2, node_id='i1', **kw)]), node_id='n%d' % i))
        else:
            nodes.append(C[kind](a, b, ph, **kw))
    return nodes


def leaves(nodes):
    for nd in nodes:
        if hasattr(nd, '_flow'):
            for q in leaves(nd._flow):
                yield q
        elif hasattr(nd, 'nodes'):
            for q in nd.nodes:
                yield q
        else:
            yield nd


def compare(S, fa, fb, nex=False):
    for x, y in zip(fa, fb):
        S.check(getattr(x, 'use_copies', 0) == getattr(y, 'use_copies', 0),
                'copies in a layer')
    fa, fb = list(leaves(fa)), list(leaves(fb))
    S.check(len(fa) == len(fb), 'structure')
    for x, y in zip(fa, fb):
        S.eq(x.b, y.b, 'what a node learned')
        S.check(x.ntrain == y.ntrain, 'chunks learned')
        S.check(x.is_training() == y.is_training() and
                x.get_current_train_phase() == y.get_current_train_phase(),
                'training phase')
        if nex:
            S.check(x.nex == y.nex, 'executions')


def train(S, fl, data, msgs, stops, **k):
    args = {}
    if msgs is not None:
        args['msg_iterables'] = msgs
    if stops is not None:
        args['stop_messages'] = stops
    args.update(k)
    return lib.outcome(lambda: fl.train(data, **args))


def flow_h(spec, nch=2, msgs=True, stops=True, fork_execute=False,
           sched='any', target=(None,), msg_ex=True, train_data=True,
           fails=False, notes=False):
    def f(S):
        import mdp
        import bimdp
        import mdp.parallel as par
        import bimdp.parallel as bpar
        C = classes(S, fork_execute)
        pars = [(S.real('a%d' % i), S.real('b%d' % i))
                for i in range(len(spec))]
        ser = bimdp.BiFlow(build(S, spec, C, pars))
        fl = bpar.ParallelBiFlow(build(S, spec, C, pars))
        A = scheduler_class()
        when = S.choose('when', ['add', 'run', 'process'])
        sc = A(S, when)
        if train_data:
            data = [[S.array('x%d_%d' % (i, j), (1 + j % 2, 2))
                     for j in range(nch)] for i in range(len(spec))]
            ms = None
            if msgs:
                who = ['g', 'n%d->g'][S.choose('who', [0, 1])]
                ms = [[{(who % i if '%' in who else who): S.real('g%d' % j)}
                       if j != 1 else None for j in range(nch)]
                      for i in range(len(spec))]
                before = [[dict(m) if m else None for m in q] for q in ms]
            st = None
            if stops:
                st = [{'s': S.real('s%d' % i)} if s[0] != 'M' else None
                      for i, s in enumerate(spec)]
                stb = [dict(m) if m else None for m in st]
            ra = train(S, ser, data, ms, st)
            if sched == 'list':
                scs = [A(S, when) for _ in spec]
                rb = train(S, fl, data, ms, st, scheduler=list(scs))
                S.check(all(s.nshut == 1 for s in scs[:-1]),
                        'every scheduler is shut down')
            elif sched == 'none':
                rb = train(S, fl, data, ms, st)
            else:
                rb = train(S, fl, data, ms, st, scheduler=sc)
            if fails:
                S.check(ra is not None, 'the serial flow refuses')
            S.check(ra is rb, 'same outcome of the training: %r and %r' %
                    (ra, rb))
            S.check('parallel' not in mdp.get_active_extensions(),
                    'the extension is active only during the training')
            if ra is not None:
                S.reach('end')
                return
            S.check(not fl.is_parallel_training, 'training is over')
            compare(S, ser, fl)
            for p, q in zip(leaves(ser), leaves(fl)):
                S.check(len(p.got) == len(q.got), 'messages received')
                for u, v in zip(p.got, q.got):
                    lib.same_value(S, u, v, 'message received')
            if msgs:
                S.check([[m and sorted(m) for m in q] for q in ms] ==
                        [[m and sorted(m) for m in q] for q in before],
                        'messages are left alone')
            if stops:
                S.check([m and sorted(m) for m in st] ==
                        [m and sorted(m) for m in stb],
                        'stop messages are left alone')
            base = [nd.nex for nd in leaves(fl)]
            bases = [nd.nex for nd in leaves(ser)]
        else:
            base = bases = [0 for _ in leaves(ser)]
        zs = [S.array('z%d' % j, (1 + j % 2, 2)) for j in range(nch)]
        mz = None
        if msg_ex:
            mz = [{'g': S.real('h%d' % j)} if j != 1 else
                  {'extra': S.real('e')} for j in range(nch)]
        if notes:
            mz[S.choose('noted', list(range(nch)))]['note'] = 7
            if S.choose('noted2', [False, True]):
                mz[0]['note'] = 7
        tg = S.choose('target', list(target))
        tz = None if tg is None else [tg] * nch
        if S.choose('array', [False, True]):
            zs, mz, tz = zs[0], mz and mz[0], tg
        res = []
        for w, k in ((ser, {}), (fl, dict(scheduler=sc))):
            out = []

            def run():
                out.append(w.execute(zs, mz, tz, **k))
            exc = lib.outcome(run)
            res.append((exc, out[0] if out else None))
        S.check(res[0][0] is res[1][0], 'same outcome of the execution: '
                '%r and %r' % (res[0][0], res[1][0]))
        if res[0][0] is None:
            (ya, ma), (yb, mb) = res[0][1], res[1][1]
            lib.same_value(S, ya, yb, 'output in the order of the chunks')
            S.check(sorted(ma) == sorted(mb), 'keys of the resulting message')
            for k in ma:
                lib.same_value(S, ma[k], mb[k], 'resulting message')
            if fork_execute:
                for p, q, u, v in zip(leaves(ser), leaves(fl), bases,
                                      base):
                    S.check(p.nex - u == q.nex - v,
                            'every executed fork is joined once')
            S.reach('executed')
        S.reach('end')
    return f


def checkpoint_h(S):
    import bimdp
    import bimdp.parallel as bpar
    import mdp
    spec = [('B', 1), ('M', 1), ('B', 2)]
    C = classes(S)
    pars = [(S.real('a%d' % i), S.real('b%d' % i)) for i in range(3)]
    ser = bimdp.BiFlow(build(S, spec, C, pars))
    fl = bpar.ParallelCheckpointBiFlow(build(S, spec, C, pars))
    seen = []

    class Check(mdp.CheckpointFunction):
        def __init__(self, i):
            self.i = i

        def __call__(self, node):
            seen.append((self.i, node, node.is_training()))
            return None if self.i else {'mark': node}
    cps = [Check(i) for i in range(3)]
    x = [S.array('x%d' % j, (1, 2)) for j in range(2)]
    ms = [[{'g': S.real('g%d' % j)} for j in range(2)]] * 3
    st = [{'s': S.real('s')}, None, {'s': S.real('s2')}]
    which = S.choose('which', ['both', 'msg', 'stop'])
    k = {}
    if which != 'stop':
        k['msg_iterables'] = ms
    if which != 'msg':
        k['stop_messages'] = st
    A = scheduler_class()
    ser.train([x] * 3, **k)
    if S.choose('sched', [True, False]):
        k['scheduler'] = A(S, 'add')
    fl.train([x] * 3, cps, **k)
    compare(S, ser, fl)
    S.check([(i, t) for i, n, t in seen] == [(i, False) for i in range(3)] and
            all(n is fl[i] for i, n, t in seen),
            'every checkpoint is called once with its trained node')
    S.check(fl.mark is fl[0], 'attributes are updated')
    S.reach('end')


def instance_h(S):
    """a layer of copies can be switched to a single node during training"""
    import mdp
    C = classes(S)
    activate(S)
    par = [(S.real('a'), S.real('b'))]
    one, = build(S, [('L', 1)], C, par)
    lay, = build(S, [('Lc', 1)], C, par)
    lay.use_copies = True
    S.check(lay.use_copies and not one.use_copies, 'copies')
    when = S.choose('when', [0, 1, 2])
    forked = S.choose('forked', [False, True])
    for i in range(3):
        x = S.array('x%d' % i, (1, 2))
        for w in (one, lay):
            if forked:
                k = w.fork()
                S.check(k.use_copies == w.use_copies and
                        len(k.nodes) == 2, 'form of the fork')
                k.train(x)
                w.join(k)
            else:
                w.train(x)
        if i == when:
            lay.use_copies = False
            S.check(not lay.use_copies and
                    all(n is lay.nodes[0] for n in lay.nodes), 'single node')
    for w in (one, lay):
        w.stop_training()
    S.eq(one.nodes[0].b, lay.nodes[0].b, 'what the layer learned')
    z = S.array('z', (2, 2))
    lib.same_value(S, one.execute(z), lay.execute(z), 'output')
    lay.use_copies = True
    S.check(lay.nodes[0] is not lay.nodes[1], 'copies')
    lib.same_value(S, one.execute(z), lay.execute(z), 'output of copies')
    S.reach('end')


def refused_h(S):
    import mdp
    import bimdp
    import bimdp.parallel as bpar
    C = classes(S)
    pars = [(S.real('a%d' % i), S.real('b%d' % i)) for i in range(2)]
    kind0 = S.choose('node', ['B', 'N', 'M'])
    spec = [(kind0, 2), ('B', 1)]
    fl = bpar.ParallelBiFlow(build(S, spec, C, pars))
    x = S.array('x', (1, 2))
    sc = scheduler_class()(S, 'add')
    kind = S.choose('kind', ['empty0', 'empty1', 'once', 'few', 'callable',
                             'execute', 'execallable', 'nothing'])
    E = (mdp.FlowException, bimdp.BiFlowException)
    if kind == 'empty0':
        S.must_raise(E, 'empty data', fl.train, [[], [x]], scheduler=sc)
    elif kind == 'empty1':
        S.must_raise(E, 'empty data', fl.train, [[x], []], scheduler=sc)
    elif kind == 'once':
        S.must_raise(E, 'data that cannot be repeated', fl.train,
                     [iter([x]), [x]], scheduler=sc)
    elif kind == 'few':
        S.must_raise(E, 'one iterable per node', fl.train, [[x]],
                     scheduler=sc)
    elif kind == 'callable':
        S.must_raise(E, 'no scheduler', fl.train, [[x], [x]],
                     train_callable_class=bpar.BiFlowTrainCallable)
    elif kind == 'execallable':
        S.must_raise(E, 'no scheduler', fl.execute, [x],
                     execute_callable_class=bpar.BiFlowExecuteCallable)
    elif kind == 'nothing':
        S.must_raise(E, 'no data', fl.train, None, scheduler=sc)
    else:
        S.must_raise(E, 'no data', fl.execute, [], scheduler=sc)
        S.must_raise(E, 'no data', fl.execute, None, scheduler=sc)
    S.reach('end')


def harnesses(tier):
    q = tier == 'quick'
    hs = []

    def fl(name, spec, reach=('end', 'executed'), **k):
        hs.append(H('flow/' + name, flow_h(spec, **k), reach=list(reach)))
    fl('B', [('B', 1)], nch=3 if not q else 2)
    fl('B2', [('B', 2)])
    fl('MB', [('M', 1), ('B', 1)])
    fl('BM', [('B', 1), ('M', 1)])
    fl('NB', [('N', 1), ('B', 1)])
    fl('BN', [('B', 1), ('N', 2)])
    fl('B0', [('B', 0), ('B', 0)], target=(None, 'n1', 1), train_data=False)
    for kind in 'BN':
        for stop in ('x', 'xm', 'm', 'exit', 1, 'n1', 'lost'):
            fl('stop/%s/%s' % (stop, kind),
               [(kind, 1, {'stop': stop}), ('B', 0)], msgs=False,
               reach=('end',))
        fl('stop/-1/' + kind, [('B', 0), (kind, 1, {'stop': -1}), ('B', 0)],
           msgs=False, reach=('end',))
    for kind in 'BN':
        for back in (-1, 'n0', 0, 'lost', 1):
            fl('back/%s/%s' % (back, kind),
               [('B', 0), (kind, 1, {'back': back}), ('B', 0)], stops=False,
               reach=('end',))
        fl('back/1/%s/msg' % kind,
           [('B', 0), (kind, 1, {'back': 1}), ('B', 0, {'exe': 'msg'})],
           reach=('end',), fails=True)
    for exe in ('msg', 'none', 'jump', 'exit', 'lost'):
        fl('exe/%s' % exe, [('B', 0), ('B', 0, {'exe': exe})],
           train_data=False, reach=('end',))
    fl('exe/mid', [('B', 0), ('B', 0, {'exe': 'exit'}), ('M', 0)],
       train_data=False)
    fl('exe/target', [('B', 0), ('M', 0), ('B', 0)], train_data=False,
       target=(0, 1, 2, 'n2', 'nix', 7), reach=('end', 'executed'))
    fl('forkexec', [('B', 1), ('B', 0)], fork_execute=True)
    fl('exe/some', [('B', 0), ('B', 0, {'exe': 'some'})], train_data=False,
       notes=True, nch=3)
    for k in ('L', 'Lc', 'F'):
        fl('nested/%s' % k, [(k, 1), ('B', 0)])
        fl('nested/B%s' % k, [('B', 1), (k, 1)], stops=False)
        fl('nested/M%s' % k, [('M', 1), (k, 2)], msgs=False, stops=False)
        fl('nested/exec/' + k, [('B', 0), (k, 0, {'exe': 'msg'})],
           train_data=False)
        fl('nested/forkexec/%s' % k, [(k, 1)], fork_execute=True,
           stops=False)
    hs.append(H('instance', instance_h))
    fl('nomsg', [('B', 1), ('B', 1)], msgs=False, stops=False, msg_ex=False)
    fl('list', [('B', 1), ('M', 1), ('B', 1)], sched='list', msgs=False)
    fl('list/N', [('B', 1), ('N', 1), ('N', 0)], sched='list', msgs=False)
    fl('none', [('B', 1), ('M', 1)], sched='none')
    if not q:
        for name, spec in [('MB', [('M', 1), ('B', 1)]), ('B2', [('B', 2)]),
                           ('NB', [('N', 1), ('B', 1)]),
                           ('L', [('L', 1), ('B', 0)]),
                           ('F', [('F', 1)])]:
            fl('three/' + name, spec, nch=3, msg_ex=False)
        fl('BMB', [('B', 1), ('M', 1), ('B', 2)])
    hs.append(H('checkpoint', checkpoint_h))
    hs.append(H('refused', refused_h))
    return hs
