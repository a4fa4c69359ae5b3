"""C08: copies, saved nodes and flows, checkpoints and crash dumps are
independent equal snapshots."""
import os
import pickle
import shutil
import sys
import tempfile
import warnings

from symx import lib
from checks import c13_parallel as c13

BOUNDS = ('nodes and flows trained on 0-3 chunks of 1-4 samples of 1-2 '
          'variables, snapshots taken in every phase of the training, pickle '
          'protocols -1 to 4, flows of up to 3 nodes with up to 2 phases')
ASSUMPTIONS = ['symbolic numbers are pickled by reference to their term',
               'LAPACK routines are functions of their argument']


def H(name, fn, **o):
    return (name, fn, o)


def scratch(S):
    d = tempfile.mkdtemp(prefix='symx_c08_')
    S.add_cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    return d


HOW = ['copy', 'string', 'file']
PROTO = [-1, 0, 2, 4]


def take(S, x, how, tag=''):
    """a snapshot of the node or flow x"""
    if how == 'copy':
        return x.copy()
    p = S.choose('proto' + tag, PROTO)
    if how == 'string':
        s = x.save(None, p)
        S.check(isinstance(s, (str, bytes)), 'save(None) returns a string')
        return pickle.loads(s)
    name = os.path.join(scratch(S), 'x.pic')
    S.check(x.save(name, p) is None, 'save to a file')
    with open(name, 'rb') as f:
        y = pickle.load(f)
        S.check(f.read() == b'', 'only the object is in the file')
    return y


# --------------------------------------------------------------- nodes

def node_h(make, T, n, nch=2, labs=None, exe=True, rows=1, ignore=(),
           phases=1, dtype='d', stop=True, apply=None):
    """train, take a snapshot at any moment, go on with all of them; 'w' is a
    twin that nobody took a snapshot of"""
    def f(S):
        import numpy
        a, w, w2 = make(S), make(S), make(S)
        ops = []
        for ph in range(phases):
            ops += [('train', ph, i) for i in range(nch)] + [('stop', ph)]
        if not stop:
            ops = ops[:-1]
        ops.append(('end',))
        if not a.is_trainable():
            ops = [('end',)]
        at = S.choose('at', list(range(len(ops))))
        how = S.choose('how', HOW)

        def data(tag):
            d = []
            for i in range(nch):
                x = S.array('%s%d' % (tag, i), (T, n), dtype=dtype)
                d.append((x,) + ((numpy.array(labs[i]),) if labs else ()))
            return d
        before = data('x')
        after = data('y')

        def do(node, op, d):
            if op[0] == 'train':
                node.train(*d[op[2]])
                return None
            return lib.outcome(node.stop_training) if op[0] == 'stop' else None

        def run(node, lo, hi, d):
            for op in ops[lo:hi]:
                r = do(node, op, d)
                if r is not None:
                    return r
        r = [run(z, 0, at, before) for z in (a, w, w2)]
        S.check(r[0] is r[1] and r[1] is r[2], 'same outcome')
        if r[0] is not None:
            return
        b = take(S, a, how)
        S.check(b is not a and type(b) is type(a), 'a new node')
        S.check(not shared(a, b), 'with nodes of its own')
        ig = tuple(ignore)
        lib.same_state(S, a, w, 'the original is left alone', ig)
        lib.same_state(S, b, w, 'the snapshot has the same state', ig)
        # the original goes on, with other data than the snapshot
        r = [run(a, at, len(ops), before), run(w, at, len(ops), before)]
        S.check(r[0] is r[1], 'same outcome')
        if r[0] is not None:
            return
        r = [run(b, at, len(ops), after), run(w2, at, len(ops), after)]
        S.check(r[0] is r[1], 'same outcome')
        if r[0] is not None:
            return
        lib.same_state(S, b, w2, 'the snapshot goes on like the original', ig)
        lib.same_state(S, a, w, 'independence', ig)
        if exe:
            z = S.array('z', (rows, n), dtype=dtype)
            g = apply or (lambda node, z: node.execute(z))
            ya, yb = g(a, z), g(w, z)
            lib.same_value(S, ya, yb, 'output of the original')
            lib.same_value(S, g(b, z), g(w2, z), 'output of the snapshot')
        S.reach('end')
    return f


def inner(x):
    """all nodes inside a node"""
    out = []
    for y in getattr(x, 'flow', None) or getattr(x, 'nodes', None) or ():
        out += [y] + inner(y)
    return out


def shared(a, b):
    return [p for p in inner(a) if any(p is q for q in inner(b))]


# --------------------------------------------------------------- flows

def flow_h(spec, cls='Flow', attr=False):
    def f(S):
        import mdp
        import bimdp
        N, M = c13.classes(S)
        publish(S, N, M)
        C = {'Flow': mdp.Flow, 'CheckpointFlow': mdp.CheckpointFlow,
             'ParallelFlow': mdp.parallel.ParallelFlow,
             'BiFlow': bimdp.BiFlow}[cls]
        a, w, w2 = [C(c13.build(S, spec, N, M)) for _ in range(3)]
        n = len(spec)
        x = [[S.array('x%d_%d' % (i, j), (1, 2)) for j in range(2)]
             for i in range(n)]
        y = [[S.array('y%d_%d' % (i, j), (1, 2)) for j in range(2)]
             for i in range(n)]
        extra = ([None] * n,) if cls == 'CheckpointFlow' else ()

        def train(fl, d):
            fl.train([list(q) for q in d], *extra)

        def some(fl):
            fl[0].train(x[0][0])
        when = S.choose('when', ['new', 'some', 'done'])
        how = S.choose('how', HOW)
        for fl in (a, w, w2):
            if when == 'some' and fl[0].is_trainable():
                some(fl)
            elif when == 'done':
                train(fl, x)
        b = take(S, a, how)
        S.check(type(b) is type(a) and len(b) == n, 'a new flow')
        for p, q in zip(a, b):
            S.check(p is not q and type(p) is type(q), 'with nodes of its own')
        states(S, a, w, 'the original is left alone')
        states(S, b, w, 'the snapshot has the same state')
        if when != 'done':
            train(a, x)
            train(w, x)
            train(b, y)
            train(w2, y)
        else:
            for fl in (a, w):
                for nd in c13.leaves(fl):
                    nd.b = nd.b + 1
        states(S, a, w, 'independence of the original')
        states(S, b, w2, 'independence of the snapshot')
        z = S.array('z', (1, 2))
        ex = (lambda fl: fl.execute(z)) if cls != 'BiFlow' else (
            lambda fl: fl.execute(z)[0])
        S.eq(ex(a), ex(w), 'output')
        S.eq(ex(b), ex(w2), 'output of the snapshot')
        S.reach('end')
    return f


def states(S, fa, fb, msg):
    for p, q in zip(c13.leaves(fa), c13.leaves(fb)):
        lib.same_state(S, p, q, msg)


def publish(S, *classes):
    """make the classes of a harness known to pickle"""
    mod = sys.modules[__name__]
    for c in classes:
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        setattr(mod, c.__name__, c)


# ----------------------------------------------------------- checkpoints

def save_function_h(spec):
    def f(S):
        import mdp
        N, M = c13.classes(S)
        publish(S, N, M)
        n = len(spec)
        d = scratch(S)
        a = mdp.CheckpointFlow(c13.build(S, spec, N, M))
        w = mdp.Flow(c13.build(S, spec, N, M))
        x = [[S.array('x%d_%d' % (i, j), (1, 2)) for j in range(2)]
             for i in range(n)]
        stop = S.choose('stop', [None, 0, 1])
        kw = S.choose('kw', [{}, dict(binary=0, protocol=0),
                             dict(binary=1, protocol=0),
                             dict(binary=0, protocol=2),
                             dict(protocol=1)])
        if stop is not None:
            kw = dict(kw, stop_training=stop)
        which = S.choose('which', list(range(n)) + ['all'])
        cps, names = [], []
        for i in range(n):
            name = os.path.join(d, 'n%d' % i)
            names.append(name)
            on = (which == 'all' or which == i) and w[i].is_trainable()
            cps.append(mdp.CheckpointSaveFunction(name, **kw) if on else None)
        a.train(x, cps)
        for i in range(n):
            S.check(os.path.exists(names[i]) == (cps[i] is not None),
                    'files are written for the checkpoints')
            wi = w[i]
            if wi.is_trainable():
                for ph in range(len(wi._train_seq)):
                    for c in x[i]:
                        wi.train(w.execute(c, i - 1) if i else c)
                    if ph < len(wi._train_seq) - 1:
                        wi.stop_training()
            if cps[i] is not None:
                with open(names[i], 'rb') as fh:
                    s = pickle.load(fh)
                S.check(type(s) is type(wi), 'the node is saved')
                if stop:
                    wi.stop_training()
                lib.same_state(S, s, wi, 'the saved node is the node at '
                               'its checkpoint')
                if not stop:
                    c = S.array('more', (1, 2))
                    s.train(c)
                    s.stop_training()
                    t = wi.copy()
                    t.train(c)
                    t.stop_training()
                    S.eq(s.b, t.b, 'the training of the saved node can be '
                         'continued')
                    S.reach('continued')
            if wi.is_training():
                wi.stop_training()
            S.eq(a[i].b, wi.b, 'the flow is trained like a flow without '
                 'checkpoints')
            S.check(not a[i].is_training() or i < n - 1, 'the training is '
                    'closed')
        S.reach('end')
    return f


# ------------------------------------------------------------ crash dump

def crash_h(spec, use):
    def f(S):
        import mdp
        N, M = c13.classes(S)

        class Boom(N):
            """fails at its given call of train, execute or stop"""
            def _get_train_seq(self):
                return [(self.tr, self.st)]

            def tr(self, x, lab=None):
                self.count = getattr(self, 'count', 0) + 1
                if self.when == 'train' and self.count == 2:
                    raise ZeroDivisionError('boom')

            def st(self):
                if self.when == 'stop':
                    raise ZeroDivisionError('boom')

            def _execute(self, x):
                if self.when == 'execute':
                    raise ZeroDivisionError('boom')
                return self.a * x + self.b
        publish(S, N, M, Boom)
        when = S.choose('when', ['train', 'stop', 'execute'])
        nodes = c13.build(S, spec, N, M)
        pos = S.choose('pos', list(range(len(spec))))
        bad = Boom(S.real('ba'), S.real('bb'), 1, input_dim=2, output_dim=2)
        bad.when = when
        nodes[pos] = bad
        n = len(nodes)
        if when == 'stop' and pos < n - 1 and not any(
                nd.is_trainable() for nd in nodes[pos + 1:]):
            return          # nobody closes it
        if when == 'execute' and not any(
                nd.is_trainable() for nd in nodes[pos + 1:]):
            return
        d = scratch(S)
        name = os.path.join(d, 'crash')
        old = tempfile.tempdir
        tempfile.tempdir = d
        S.add_cleanup(lambda: setattr(tempfile, 'tempdir', old))
        cr = {'name': name, 'true': True, 'false': False}[use]
        fl = mdp.Flow(nodes)
        late = S.choose('late', [False, True])
        if late:
            fl = mdp.Flow(nodes, crash_recovery='/nonexistent/x')
            fl.set_crash_recovery(cr)
        else:
            fl = mdp.Flow(nodes, crash_recovery=cr)
        x = [[S.array('x%d_%d' % (i, j), (1, 2)) for j in range(2)]
             for i in range(n)]
        try:
            fl.train(x)
        except mdp.FlowException as e:
            err = e
        except Exception as e:
            S.fail('a flow exception is raised', repr(e))
            return
        else:
            S.fail('the failure is reported')
            return
        S.check('node #%d' % pos in str(err) and 'boom' in str(err),
                'the exception tells the failing node and its error')
        files = os.listdir(d)
        if use == 'false':
            S.check(not files, 'no dump without crash recovery')
        else:
            S.check(len(files) == 1, 'one dump')
            if use == 'name':
                S.check(files == ['crash'], 'the name of the dump')
            with open(os.path.join(d, files[0]), 'rb') as fh:
                g = pickle.load(fh)
            S.check(type(g) is mdp.Flow and len(g) == n, 'the flow is dumped')
            for p, q in zip(fl, g):
                S.check(p is not q, 'a copy')
                lib.same_state(S, p, q, 'as it was when it crashed')
            if isinstance(err, mdp.FlowExceptionCR):
                S.check(err.filename == os.path.join(d, files[0]),
                        'the exception tells the file')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    R = ['end']

    def node(cls, *a, **k):
        def make(S):
            import mdp
            import bimdp
            return getattr(mdp.nodes, cls, None)(*a, **k)
        return make

    def nd(name, mk, T, n, o=None, **k):
        oo = dict(linalg_full=False, reach=R)
        oo.update(o or {})
        hs.append(H('node/' + name, node_h(mk, T, n, **k), **oo))
    nd('pca', node('PCANode', output_dim=1), 2, 2)
    nd('whitening', node('WhiteningNode'), 2, 1, exe=not q)
    nd('sfa', node('SFANode'), 3, 2)
    nd('sfa2', node('SFA2Node'), 3, 1, exe=False)
    nd('fda', node('FDANode'), 2, 2, labs=[[0, 1], [1, 0]], phases=2,
       exe=False)
    nd('linreg', node('LinearRegressionNode'), 2, 1, labs=None if 0 else [
        [[1.], [2.]], [[0.], [3.]]], o=dict(inv_stub=True))
    nd('hist', node('HistogramNode'), 1, 2)
    nd('adaptivecutoff', node('AdaptiveCutoffNode', 0.4, 0.4), 1, 1)
    nd('hitparade', node('HitParadeNode', 1, 1), 1, 1)
    nd('normalizing', node('NormalizingRecursiveExpansionNode', 2), 2, 1,
       exe=False)
    nd('timeframes', node('TimeFramesNode', 2), 1, 2, rows=3)
    nd('timedelay', node('TimeDelayNode', 2), 1, 2, rows=2)
    nd('quadratic', node('QuadraticExpansionNode'), 1, 2, rows=1)
    nd('cutoff', node('CutoffNode', -1, 1), 1, 2, rows=1)
    nd('rbf', lambda S: __import__('mdp').nodes.RBFExpansionNode(
        [[0., 1.], [1., 0.]], 1.), 1, 2, exe=False)
    nd('general', lambda S: __import__('mdp').nodes.GeneralExpansionNode(
        [abs, abs]), 1, 2, rows=1)
    nd('perceptron', node('PerceptronClassifier'), 2, 1,
       labs=[[1, -1], [-1, -1]])
    nd('nearestmean', node('NearestMeanClassifier'), 2, 1,
       labs=[[0, 1], [1, 0]], exe=False)
    nd('knn', node('KNNClassifier', k=1), 2, 1, labs=[[0, 1], [1, 0]],
       exe=False)
    nd('gaussian', node('GaussianClassifier'), 2, 1, labs=[[0, 1], [1, 0]],
       exe=False, o=dict(inv_stub=True))
    nd('hopfield', node('DiscreteHopfieldClassifier'), 2, 2, dtype='b',
       exe=False)
    nd('cumulator', lambda S: __import__('mdp').Cumulator(), 1, 2,
       exe=False)
    nd('etacomputer', node('EtaComputerNode'), 2, 1, exe=False)
    nd('noise', lambda S: __import__('mdp').nodes.NoiseNode(abs), 1, 1,
       exe=False)
    def hi(make):
        def f(S):
            import mdp
            return make(mdp, mdp.nodes, mdp.hinet)
        return f
    nd('flownode', hi(lambda m, n, h: h.FlowNode(m.Flow([
        n.HistogramNode(), n.AdaptiveCutoffNode(.4, .4),
        n.CutoffNode(-1, 1)]))), 1, 1, phases=2)
    nd('flownode/nested', hi(lambda m, n, h: h.FlowNode(m.Flow([
        n.CutoffNode(-1, 1), h.FlowNode(m.Flow([
            n.TimeFramesNode(1), n.HistogramNode()]))]))), 1, 1, exe=False)
    nd('layer', hi(lambda m, n, h: h.Layer([
        n.HistogramNode(input_dim=1), n.AdaptiveCutoffNode(.4, input_dim=1)])),
       1, 2)
    nd('layer/flow', hi(lambda m, n, h: h.FlowNode(m.Flow([h.Layer([
        n.HistogramNode(input_dim=1), n.CutoffNode(0, input_dim=1)])]))),
       1, 2)
    nd('clonelayer', hi(lambda m, n, h: h.CloneLayer(
        n.HistogramNode(input_dim=1), 2)), 1, 2)
    nd('switchboard', hi(lambda m, n, h: h.Switchboard(2, [1, 0, 1])), 1, 2)
    for spec, cls in [(['M2', 'M1'], 'Flow'), (['M1', 'M0', 'N1'], 'Flow'),
                      (['F'], 'Flow'), (['L'], 'Flow'), (['C'], 'Flow'),
                      (['M1', 'M1'], 'CheckpointFlow'),
                      (['M1', 'M1'], 'ParallelFlow'),
                      (['M1', 'M1'], 'BiFlow')]:
        hs.append(H('flow/%s/%s' % (cls, ''.join(spec)), flow_h(spec, cls),
                    reach=R))
    for spec in (['M1', 'M2'], ['M1', 'M0', 'M1'], ['N1', 'M1']):
        hs.append(H('checkpoint/%s' % ''.join(spec),
                    c13.checkpoint_h(spec, True), reach=['end', 'attr']))
        hs.append(H('savefunction/%s' % ''.join(spec),
                    save_function_h(spec), reach=['end', 'continued']))
    for use in ('name', 'true', 'false'):
        hs.append(H('crash/' + use, crash_h(['M1', 'M0', 'M1'], use),
                    reach=R))
    return hs
