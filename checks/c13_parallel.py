"""C13: parallel training and execution give what the serial flow gives,
whatever the order in which the tasks are finished."""
import copy
import itertools

from symx import lib

BOUNDS = ('1-3 chunks of 1-3 samples of 1-2 variables per training phase, '
          'flows of up to 3 nodes with up to 2 training phases, every order '
          'of completion, forks made when a task is added or when it runs')
ASSUMPTIONS = ['LAPACK routines are functions of their argument: equal '
               'matrices give equal decompositions']


def H(name, fn, **o):
    return (name, fn, o)


def activate(S):
    import mdp
    import mdp.parallel  # noqa
    mdp.activate_extension('parallel')
    S.add_cleanup(lambda: 'parallel' in mdp.get_active_extensions() and
                  mdp.deactivate_extension('parallel'))


def perm(S, name, n):
    return S.choose(name, list(itertools.permutations(range(n))))


# ------------------------------------------------------ fork and join

def forkjoin(make, T, n, nch, labs=None, phases=1, rows=1, exe=True,
             pre=(False, True), ignore=(), ordered=False, dtype='d'):
    """forks trained on one chunk each and joined in any order"""
    def f(S):
        import numpy
        import mdp
        activate(S)
        a, b = make(S), make(S)
        p = S.choose('pre', list(pre))
        chunks = []
        for i in range(nch + p):
            x = S.array('x%d' % i, (T, n), dtype=dtype)
            chunks.append((x, numpy.array(labs[i % len(labs)]))
                          if labs else (x,))
        keep = [c[0].copy() for c in chunks]
        when = S.choose('when', ['first', 'oneByOne'])
        for ph in range(phases):
            order = perm(S, 'order%d' % ph, nch)
            if p:
                a.train(*chunks[nch])
                b.train(*chunks[nch])
            forks = []
            if when == 'first':
                forks = [b.fork() for i in range(nch)]
            for i in range(nch):
                if when == 'first':
                    k = forks[i]
                else:
                    k = b.fork()
                S.check(k is not b and type(k) is type(b), 'a fork is a '
                        'node of its own of the same class')
                k.train(*chunks[i])
                if when != 'first':
                    forks.append(k)
            for i in order:
                b.join(forks[i])
            for i in (order if ordered else range(nch)):
                a.train(*chunks[i])
            ra = lib.outcome(a.stop_training)
            rb = lib.outcome(b.stop_training)
            S.check(ra is rb, 'same outcome of stop_training')
            if ra is not None:
                return
        for (x, k) in zip(chunks, keep):
            S.eq(x[0], k, 'the data are left alone')
        lib.same_state(S, a, b, 'joined forks', ('_train_seq',) +
                       tuple(ignore))
        S.check((a.input_dim, a.output_dim, a.dtype) ==
                (b.input_dim, b.output_dim, b.dtype), 'dimensions')
        if exe:
            z = S.array('z', (rows, n), dtype=dtype)
            lib.same_value(S, a.execute(z), b.execute(z), 'output')
        S.reach('end')
    return f


# ------------------------------------------------- nodes and schedulers

def classes(S, fork_execute=False):
    """a trainable node M (b depends on all its data, not on their order)
    with a parallel version, and N without one"""
    import mdp
    import mdp.parallel as par

    class N(mdp.Node):
        def __init__(self, a=None, b=None, phases=1, input_dim=None,
                     output_dim=None, dtype=None):
            self.phases = phases
            self.a, self.b = a, b
            self.acc = 0
            self.nex = 0
            self.labels = []
            super(N, self).__init__(input_dim, output_dim, dtype)

        def is_trainable(self):
            return self.phases > 0

        def _train(self, x, lab=None):
            pass

        def _get_train_seq(self):
            def tr(k):
                def f(x, lab=None):
                    for t in range(x.shape[0]):
                        self.acc = self.acc + x[t, 0] * (k + 1) + x[t, 0] ** 2
                    self.labels.append(lab)
                return f

            def st(k):
                def f():
                    self.b = self.b * 2 + self.acc
                    self.acc = 0
                return f
            return [(tr(k), st(k)) for k in range(self.phases)]

        def _execute(self, x):
            self.nex += x.shape[0]
            return self.a * x + self.b

    class M(N):
        drawn = {}      # parameters, the same for twin nodes

    class PM(par.ParallelExtensionNode, M):
        def _fork(self):
            k = self.copy()
            k.acc, k.labels, k.nex = 0, [], 0
            return k

        def _join(self, other):
            self.acc = self.acc + other.acc
            self.labels += other.labels
            self.nex += other.nex

        def use_execute_fork(self):
            return fork_execute

    def forget():
        if 'parallel' in mdp.get_active_extensions():
            mdp.deactivate_extension('parallel')
        mdp.get_extensions()['parallel'].pop(M, None)
    S.add_cleanup(forget)
    return N, M


def scheduler_class():
    import mdp.parallel as par

    class AnyOrder(par.Scheduler):
        """runs the tasks when the results are asked for, in any order"""

        def __init__(self, S, when, **k):
            super(AnyOrder, self).__init__(**k)
            self.S, self.when = S, when
            self.tasks = []
            self.rounds = 0
            self.nshut = 0
            self.n = 0

        def _process_task(self, data, task_callable, task_index):
            c = task_callable.fork() if self.when == 'add' else task_callable
            self.tasks.append((data, c, task_index))
            self.n += 1
            self._lock.release()

        def get_results(self):
            S, tasks = self.S, self.tasks
            self.tasks = []
            for i in perm(S, 'run%d' % self.rounds, len(tasks)):
                data, c, idx = tasks[i]
                if self.when == 'process':
                    # nothing is shared with another process
                    c, data = copy.deepcopy((c, data))
                if self.when != 'add':
                    c = c.fork()
                r = c(data)
                if self.when == 'process':
                    r = copy.deepcopy(r)
                self._store_result(r, idx)
            self.rounds += 1
            return super(AnyOrder, self).get_results()

        def _shutdown(self):
            self.nshut += 1
    return AnyOrder


def build(S, spec, N, M, tag=''):
    """spec: list of kinds: 'M0' 'M1' 'M2' (parallel), 'N1' 'N2' (not),
    'F(..)' flow node of M1 and M2, 'L' layer, 'C' clone layer"""
    import mdp
    nodes = []
    for i, k in enumerate(spec):
        def one(j, cls, ph):
            if (i, j) not in M.drawn:
                M.drawn[i, j] = (S.real('a%d_%d' % (i, j)),
                                 S.real('b%d_%d' % (i, j)))
            a, b = M.drawn[i, j]
            return cls(a, b, ph, input_dim=1 if spec[i] in ('L', 'C') else 2,
                       output_dim=1 if spec[i] in ('L', 'C') else 2)
        if k[0] in 'MN':
            nodes.append(one(0, M if k[0] == 'M' else N, int(k[1])))
        elif k == 'F':
            nodes.append(mdp.hinet.FlowNode(mdp.Flow([one(0, M, 1),
                                                      one(1, M, 0),
                                                      one(2, M, 2)])))
        elif k == 'L':
            nodes.append(mdp.hinet.Layer([one(0, M, 1), one(1, M, 2)]))
        elif k == 'C':
            nodes.append(mdp.hinet.CloneLayer(one(0, M, 2), 2))
    return nodes


def leaves(nodes):
    import mdp
    for nd in nodes:
        if isinstance(nd, mdp.hinet.FlowNode):
            for q in leaves(nd._flow):
                yield q
        elif isinstance(nd, mdp.hinet.Layer):
            for q in leaves(nd.nodes[:1] if isinstance(
                    nd, mdp.hinet.CloneLayer) else nd.nodes):
                yield q
        else:
            yield nd


def compare(S, fa, fb, execs=False):
    for x, y in zip(leaves(fa), leaves(fb)):
        S.eq(x.b, y.b, 'what a node learned')
        S.check(x.get_current_train_phase() == y.get_current_train_phase()
                and x.is_training() == y.is_training(), 'training phase')
        S.check(sorted(map(str, x.labels)) == sorted(map(str, y.labels)),
                'arguments of the training')
        S.check((x.input_dim, x.output_dim) == (y.input_dim, y.output_dim),
                'dimensions')
        if execs:
            S.check(x.nex == y.nex, 'executed forks are joined once')


def flow_h(spec, nch=2, labels=False, sched='any', fork_execute=False,
           execute=True, T=1, pretrain=False):
    def f(S):
        import mdp
        import mdp.parallel as par
        N, M = classes(S, fork_execute)
        ser = mdp.Flow(build(S, spec, N, M))
        fl = par.ParallelFlow(build(S, spec, N, M))
        if pretrain:
            x = S.array('p', (2, 2))
            close = S.choose('close', [False, True])
            for w in (ser, fl):
                w[0].train(x)
                if close:
                    w[0].stop_training()
        data = []
        for i in range(len(spec)):
            chunks = [S.array('x%d_%d' % (i, j), (T + j % 2, 2))
                      for j in range(nch)]
            if labels:
                chunks = [(x, 'l%d' % j) for j, x in enumerate(chunks)]
            data.append(chunks)
        if fork_execute or S.choose('none', [False, True]):
            data = [d if nd.is_trainable() else None
                    for d, nd in zip(data, ser)]
        A = scheduler_class()
        when = S.choose('when', ['process'] if fork_execute else
                        ['add', 'run', 'process'])
        if sched == 'any':
            sc = A(S, when)
            scs = [sc]
            fl.train(data, scheduler=sc)
        elif sched == 'serial':
            sc = par.Scheduler()
            fl.train(data, scheduler=sc)
        elif sched == 'none':
            fl.train(data)
            sc = A(S, when)
        elif sched == 'list':
            scs = [A(S, when) if nd.is_trainable() else None for nd in ser]
            fl.train(data, scheduler=list(scs))
            for s, nd in zip(scs, ser):
                if s is not None:
                    S.check(s.nshut == 1, 'every scheduler is shut down')
                    S.check(s.n == (nch * len(nd._train_seq) if
                                    type(nd) is not N else 0), 'every '
                            'scheduler gets the tasks of its node')
            sc = A(S, when)
        ser.train(data)
        for nd in ser:      # Flow.train closes what it has to execute
            while nd.is_training():
                nd.stop_training()
        S.check(not fl.is_parallel_training, 'training is over')
        S.check('parallel' not in mdp.get_active_extensions(),
                'the extension is active only during the training')
        compare(S, ser, fl, fork_execute)
        if execute:
            for r in range(0 if fork_execute else 2):
                zs = [S.array('z%d_%d' % (r, j), (1 + j, 2))
                      for j in range(2)]
                nr = S.choose('nr', [None, 0]) if not r else None
                if r == 1 and S.choose('array', [False, True]):
                    zs = zs[0]
                ya = ser.execute(zs, nr)
                yb = fl.execute(zs, nr, scheduler=sc)
                S.check(ya.shape == yb.shape, 'shape')
                S.eq(ya, yb, 'the output, in the order of the chunks')
            if fork_execute:
                # executions during training happen in every fork
                base = [nd.nex for nd in leaves(fl)]
                z = [S.array('w%d' % j, (1 + j, 2)) for j in range(3)]
                fl.execute(z, scheduler=sc)
                for nd, b in zip(leaves(fl), base):
                    S.check(nd.nex == b + (12 if 'C' in spec else 6),
                            'every executed fork is joined exactly once')
        S.reach('end')
    return f


def refused_h():
    def f(S):
        import mdp
        import mdp.parallel as par
        N, M = classes(S)
        fl = par.ParallelFlow(build(S, ['M2', 'N1'], N, M))
        x = S.array('x', (1, 2))
        A = scheduler_class()
        kind = S.choose('kind', ['empty0', 'empty1', 'once', 'few',
                                 'callable', 'notask'])
        sc = A(S, 'add')
        if kind == 'empty0':
            S.must_raise(mdp.FlowException, 'empty data are refused',
                         fl.train, [[], [x]], scheduler=sc)
        elif kind == 'empty1':
            S.must_raise(mdp.FlowException, 'empty data are refused',
                         fl.train, [[x], []], scheduler=sc)
        elif kind == 'once':
            S.must_raise(mdp.FlowException, 'data that cannot be iterated '
                         'again are refused', fl.train, [iter([x]), [x]],
                         scheduler=sc)
        elif kind == 'few':
            S.must_raise(mdp.FlowException, 'one iterable per node',
                         fl.train, [[x]], scheduler=sc)
        elif kind == 'callable':
            S.must_raise(mdp.FlowException, 'a callable class needs a '
                         'scheduler', fl.train, [[x], [x]],
                         train_callable_class=par.FlowTrainCallable)
        else:
            fl = par.ParallelFlow(build(S, ['M0'], N, M))
            S.must_raise(mdp.FlowException, 'no data to execute',
                         fl.execute, [], scheduler=sc)
            S.must_raise(mdp.FlowException, 'no task', fl.get_task)
        S.reach('end')
    return f


def checkpoint_h(spec, serial):
    def f(S):
        import mdp
        import mdp.parallel as par
        N, M = classes(S)
        cls = mdp.CheckpointFlow if serial else par.ParallelCheckpointFlow
        fl = cls(build(S, spec, N, M))
        seen = []

        class Check(mdp.CheckpointFunction):
            def __init__(self, i):
                self.i = i

            def __call__(self, node):
                seen.append((self.i, node, node.get_remaining_train_phase(),
                             node.is_training()))
                return S.choose('ret%d' % self.i,
                                [None, {'mark%d' % self.i: self.i}]) \
                    if self.i < 9 else {'mark': node}
        how = S.choose('how', ['list', 'single', 'some', 'bad'])
        n = len(spec)
        cps = {'list': [Check(i) for i in range(n)], 'single': Check(9),
               'some': [None] * (n - 1) + [Check(n - 1)],
               'bad': [None] * (n + 1)}[how]
        x = [S.array('x%d' % j, (1, 2)) for j in range(2)]
        args = {} if serial else dict(scheduler=scheduler_class()(S, 'add'))
        if how == 'bad':
            S.must_raise(mdp.FlowException, 'one checkpoint per node',
                         fl.train, [x] * n, cps, **args)
            S.check(not seen, 'nothing is called')
            return
        fl.train([x] * n, cps, **args)
        ser = mdp.Flow(build(S, spec, N, M))
        ser.train([x] * n)
        for nd in ser:
            while nd.is_training():
                nd.stop_training()
        compare(S, ser, fl)
        want = [(9 if how == 'single' else i, fl[i]) for i in range(n)
                if how != 'some' or i == n - 1]
        if not serial:
            want = [(i, nd) for i, nd in want if nd.is_trainable()]
        S.check(len(seen) == len(want) and all(
            a[0] == b[0] and a[1] is b[1] for a, b in zip(seen, want)),
            'every checkpoint is called once with its node, in order')
        for i, nd, rem, tr in seen:
            S.check(rem == (1 if serial and nd.is_trainable() else 0) or
                    (serial and rem == 0), 'the node is trained')
        for i, nd in want:
            if how == 'single':
                S.check(fl.mark is want[-1][1], 'attributes are updated')
            elif 'mark%d' % i in fl.__dict__:
                S.check(getattr(fl, 'mark%d' % i) == i, 'attributes')
                S.reach('attr')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []

    def node(cls, *a, **k):
        def make(S):
            import mdp
            return getattr(mdp.nodes, cls)(*a, **k)
        return make
    un = dict(linalg_full=False)

    def fj(name, mk, T, n, nch, o=un, **k):
        hs.append(H('fork/' + name, forkjoin(mk, T, n, nch, **k),
                    reach=['end'], **o))
    nc = 2 if q else 3
    fj('pca', node('PCANode'), 1 if q else 2, 2, nc)
    fj('pca/args', node('PCANode', output_dim=1, reduce=True), 2, 2, 2)
    fj('whitening', node('WhiteningNode'), 1, 2, nc)
    fj('sfa', node('SFANode'), 2, 2, nc)
    fj('sfa/nolast', node('SFANode', include_last_sample=False), 3, 1, 2)
    fj('sfa2', node('SFA2Node'), 2, 1, 2, ignore=('_expnode',))
    fj('fda', node('FDANode'), 2, 2, 2, labs=[[0, 1], [1, 0], [0, 0]],
       phases=2, pre=(False, True))
    fj('hist', node('HistogramNode'), 2, 2, nc, ordered=True)
    fj('hist/int', node('HistogramNode'), 2, 1, nc, ordered=True, dtype='l')
    fj('adaptivecutoff', node('AdaptiveCutoffNode', 0.3, 0.3), 1, 1, 2,
       ordered=True)
    fj('gaussian', node('GaussianClassifier'), 2, 1, 2,
       labs=[[0, 1], [1, 0], [0, 1]], exe=False,
       o=dict(linalg_full=False, inv_stub=True))
    fj('gaussian/new', node('GaussianClassifier'), 2, 1, 2,
       labs=[[0, 0], [1, 1]], exe=False,
       o=dict(linalg_full=False, inv_stub=True))
    fj('fda/new', node('FDANode'), 2, 1, 2, labs=[[0, 0], [1, 1]],
       phases=2, pre=(False, True))
    fj('nearestmean', node('NearestMeanClassifier'), 2, 1, nc,
       labs=[[0, 1], [1, 2], [2, 0]], exe=False,
       ignore=('ordered_labels', 'ordered_means'))
    fj('knn', node('KNNClassifier', k=1), 2, 1, nc,
       labs=[[0, 1], [1, 2], [2, 0]], exe=False, ordered=True)
    R = ['end']

    def fl(name, spec, reach=R, **k):
        hs.append(H('flow/' + name, flow_h(spec, **k), reach=reach, **un))
    fl('M1', ['M1'], nch=3)
    fl('M2', ['M2'])
    fl('M1M2', ['M1', 'M2'])
    fl('M0M1', ['M0', 'M1'])
    fl('M1M0', ['M1', 'M0'])
    fl('N1M1', ['N1', 'M1'])
    fl('M2N1', ['M2', 'N1'])
    fl('N2M1', ['N2', 'M1'])
    fl('M1N2M1', ['M1', 'N2', 'M1'], execute=not q)
    fl('M0', ['M0', 'M0'])
    fl('F', ['F'], execute=not q)
    fl('FM1', ['F', 'M1'], execute=False)
    fl('L', ['L'])
    fl('C', ['C'])
    fl('CM1', ['C', 'M1'], execute=False)
    fl('labels', ['M1', 'M2'], labels=True, execute=False)
    fl('serial', ['M1', 'N1'], sched='serial')
    fl('none', ['M1', 'N1'], sched='none')
    fl('list', ['M1', 'M0', 'M2'], sched='list', execute=False)
    fl('list2', ['M0', 'M1', 'M1'], sched='list', execute=False)
    fl('list3', ['N1', 'N2'], sched='list', execute=False)
    fl('list4', ['M1', 'N1', 'M0'], sched='list', execute=False)
    fl('list5', ['N1', 'M1', 'N1'], sched='list', execute=False)
    fl('list6', ['M1', 'M0', 'M0'], sched='list', execute=False)
    fl('pretrain', ['M2', 'M1'], pretrain=True, execute=False)
    fl('forkexec', ['M0', 'M0'], fork_execute=True,
       reach=['end'])
    fl('forkexec2', ['M1', 'M0'], fork_execute=True,
       reach=['end'])
    fl('forkexec/M1M2', ['M1', 'M2'], fork_execute=True,
       reach=['end'])
    for k in 'LCF':
        fl('forkexec/' + k, [k], fork_execute=True,
           reach=['end'])
    fl('forkexec/M1L', ['M1', 'L'], fork_execute=True,
       reach=['end'])
    fl('forkexec/LM1', ['L', 'M1'], fork_execute=True,
       reach=['end'])
    hs.append(H('refused', refused_h(), reach=['end']))
    for spec in (['M1', 'M2'], ['M1', 'M0', 'M1'], ['N1', 'M1']):
        hs.append(H('checkpoint/parallel/%s' % ''.join(spec),
                    checkpoint_h(spec, False), reach=['end', 'attr']))
    return hs
