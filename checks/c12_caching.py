"""C12: caching the execution of nodes changes nothing but the number of
computations."""
import inspect
import sys

BOUNDS = ('histories of up to 4 operations on 2-3 nodes (executions on equal, '
          'different or unrelated data, with and without extra arguments, '
          'changes of a parameter, switching instances on and off, changes of '
          'the cache directory, deactivation), all data and parameters')
ASSUMPTIONS = ['joblib.Memory returns the stored result of a function exactly '
               'if it was computed before in the same directory with equal '
               'arguments']


def H(name, fn, **o):
    o.setdefault('reach', ['end'])
    o.setdefault('linalg_full', False)
    return (name, fn, o)


def mod():
    import mdp
    mdp.caching
    return sys.modules['mdp.caching.caching_extension']


def freeze(v):
    """a value as it is now"""
    if hasattr(v, 'shape') and hasattr(v, 'copy'):
        return ('array', tuple(v.shape), str(v.dtype), v.copy())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, len(v), [freeze(w) for w in v])
    if isinstance(v, dict):
        return ('dict', sorted(v), [freeze(v[k]) for k in sorted(v)])
    if hasattr(v, '_train_phase'):
        d = dict((k, w) for k, w in vars(v).items() if k != 'runs')
        return ('node', type(v), freeze(d))
    return ('value', v)


def alike(a, b):
    if a[0] != b[0] or len(a) != len(b) or \
            any(p != q for p, q in zip(a[1:-1], b[1:-1])):
        return False
    a, b = a[-1], b[-1]
    if isinstance(a, tuple):
        return alike(a, b)
    if isinstance(a, list):
        return all(alike(p, q) for p, q in zip(a, b))
    if hasattr(a, 'shape') and hasattr(a, 'copy'):
        return all(bool(p == q) for p, q in
                   zip(list(a.reshape(-1)), list(b.reshape(-1))))
    return bool(a == b)


def arguments(func, args, kw, ignore):
    """the arguments that are not ignored"""
    if not ignore:
        return args, kw
    sig = inspect.signature(func)
    b = sig.bind(*args, **kw).arguments
    drop = set(ignore)
    for n, p in sig.parameters.items():
        if (p.kind == p.VAR_KEYWORD and '**' in ignore or
                p.kind == p.VAR_POSITIONAL and '*' in ignore):
            drop.add(n)
    return (), dict((n, v) for n, v in b.items() if n not in drop)


class Store(object):
    def __init__(self):
        self.entries = {}

    def find(self, where, key):
        for k, r in self.entries.setdefault(where, []):
            if alike(k, key):
                return (r,)

    def add(self, where, key, r):
        self.entries.setdefault(where, []).append((key, r))


def setup(S):
    """joblib.Memory by its contract; caching is off before and after"""
    m = mod()
    store = Store()

    class Memory(object):
        def __init__(self, location=None, *a, **k):
            self.location = location

        def cache(self, func=None, verbose=None, mmap_mode=False,
                  ignore=None, **more):
            def run(*args, **kw):
                key = freeze((getattr(func, '__name__', ''),) +
                             arguments(func, args, kw, ignore or ()))
                hit = store.find(self.location, key)
                if hit is None:
                    r = func(*args, **kw)
                    store.add(self.location, key, r.copy())
                    hit = (r,)
                return hit[0].copy()
            return run

    class Joblib(object):
        pass
    Joblib.Memory = Memory
    S.patch(m, 'joblib', Joblib)
    for k in ('_cachedir', '_cacheobj', '_memory'):
        S.patch(m, k, None)
    S.patch(m, '_cache_active_global', True)
    for k in ('_cached_classes', '_cached_instances'):
        S.patch(m, k, [])
    S.patch(m, '_cached_methods', {})

    def off():
        import mdp
        if 'cache_execute' in mdp.get_active_extensions():
            mdp.deactivate_extension('cache_execute')
    off()
    S.add_cleanup(off)
    return m


def classes():
    import mdp

    class A(mdp.Node):
        """a*x + b*n, counts its executions"""

        def __init__(self, a, b, runs, dim=1):
            mdp.Node.__init__(self, dim and dim, dim and dim)
            self.a, self.b, self.runs = a, b, runs

        @staticmethod
        def is_trainable():
            return False

        def _execute(self, x, n=1):
            self.runs.append(self)
            return self.a * x + self.b * n

    class B(A):
        @staticmethod
        def is_trainable():
            return True

        def _train(self, x):
            self.b = self.b + x[0, 0]

        def _stop_training(self):
            self.b = 2 * self.b
    return A, B


class Spec(object):
    """what caching is documented to do"""

    def __init__(self, where):
        self.store, self.where = Store(), where
        self.total, self.classes, self.instances = True, [], []
        self.active = True

    def cached(self, node):
        return self.active and (self.total or type(node) in self.classes or
                                any(node is i for i in self.instances))

    def execute(self, S, node, x, kw):
        """number of computations, result"""
        y = node.a * x + node.b * kw.get('n', 1)
        if not self.cached(node):
            return 1, y
        key = freeze((node, x, kw.get('n', 1)))
        if self.store.find(self.where, key):
            return 0, y
        self.store.add(self.where, key, None)
        return 1, y


def history(mode, length, ops):
    """any sequence of operations while caching is on"""
    def f(S):
        import mdp
        m = setup(S)
        A, B = classes()
        runs = []
        a = S.array('a', (2,))
        nodes = [A(a[0], 1, runs), A(a[1], 1, runs), B(a[0], 1, runs)]
        t = S.array('t', (1, 1))
        nodes[2].train(t)
        nodes[2].stop_training()
        S.eq(nodes[2].b, 2 * (1 + t[0, 0]), 'training')
        xs = [S.array('x%d' % i, (1, 1)) for i in range(2)]
        w = Spec('one')
        if mode == 'all':
            m.activate_caching('one')
        elif mode == 'class':
            w.total, w.classes = False, [B]
            m.activate_caching('one', cache_classes=[B])
        elif mode == 'instance':
            w.total, w.instances = False, [nodes[0]]
            mine = [nodes[0]]
            m.activate_caching('one', cache_instances=mine)
        else:
            w.total, w.instances, w.classes = False, [nodes[1]], [B]
            m.activate_caching(cachedir='one', cache_instances=(nodes[1],),
                               cache_classes=(B,))
        S.check(list(mdp.get_active_extensions()) == ['cache_execute'],
                'the extension is active')
        for k in range(length):
            op = S.choose('op%d' % k, ops)
            if op[0] == 'run':
                node, x = nodes[op[1]], xs[op[2]]
                kw = dict(op[3]) if len(op) > 3 else {}
                x0 = x.copy()
                before = len(runs)
                n, y = w.execute(S, node, x, kw)
                got = node.execute(x, **kw)
                S.eq(got, y, 'result')
                S.eq(x, x0, 'data keep their values')
                S.check(len(runs) - before == n, 'number of computations')
                got += 1                 # the user owns the result
            elif op[0] == 'set':
                nodes[op[1]].a = S.real('new')
            elif op[0] == 'flag':
                if not w.active:
                    continue
                nodes[op[1]].set_instance_cache(*op[2:])
                on = op[2] if len(op) > 2 else True
                w.instances = [i for i in w.instances
                               if i is not nodes[op[1]]]
                if on:
                    w.instances.append(nodes[op[1]])
            elif op[0] == 'dir':
                m.set_cachedir(op[1])
                w.where = op[1]
            elif op[0] == 'off':
                if not w.active:
                    continue
                m.deactivate_caching()
                w.active = False
                w.total, w.classes, w.instances = True, [], []
                S.check(not mdp.get_active_extensions(), 'nothing is active')
            elif op[0] == 'on':
                if w.active:
                    continue
                w.active, w.where, w.total = True, 'one', False
                if len(op) == 1:
                    m.activate_caching('one', cache_instances=[nodes[0]])
                    w.instances = [nodes[0]]
                elif op[1] == 'class':
                    m.activate_caching('one', cache_classes=[B])
                    w.classes = [B]
                else:
                    m.activate_caching('one')
                    w.total = True
            for node in nodes:
                S.check(hasattr(node, 'is_cached') == w.active,
                        'methods of the extension')
                if w.active:
                    S.check(bool(node.is_cached()) == w.cached(node),
                            'who is cached')
        if mode == 'instance':
            S.check(len(mine) == 1 and mine[0] is nodes[0],
                    'the list of the user')
        if w.active:
            m.deactivate_caching()
        S.check(not mdp.get_active_extensions(), 'nothing is active')
        before = len(runs)
        for i in range(2):
            S.eq(nodes[0].execute(xs[0]), nodes[0].a * xs[0] + 1,
                 'result without caching')
        S.check(len(runs) == before + 2, 'nothing is cached')
        S.reach('end')
    return f


def first_h(kind):
    """caching begins with the first execution, which also does what a first
    execution does"""
    def f(S):
        import mdp
        m = setup(S)
        A, B = classes()
        runs, plain = [], []
        a = S.real('a')
        cls = A if kind == 'plain' else B

        def new(r):
            if kind == 'auto':
                return cls(a, 1, r)
            node = cls(a, 1, r, dim=None)
            if kind == 'open':
                node.train(t)
            return node
        t = S.array('t', (1, 2))
        node, twin = new(runs), new(plain)
        x = S.array('x', (2, 1 if kind == 'auto' else 2))
        want, want2 = twin.execute(x), new([]).execute(2 * x)
        S.assume(x[0, 0] != 0)
        with m.cache('one'):
            S.check(node.is_cached(), 'cached')
            for i in range(3):
                S.eq(node.execute(x), want, 'result')
            S.check(len(runs) == 1, 'computed once')
            S.eq(node(x), want, 'result of a call')
            S.check(len(runs) == 1, 'computed once')
            other = new(runs)
            for i in range(2):
                S.eq(other.execute(2 * x), want2, 'result of another node')
            S.check(len(runs) == 2, 'computed once')
            for bad in (S.zeros((0, x.shape[1])), S.zeros((1, 3))):
                S.must_raise(mdp.NodeException, 'data are checked',
                             node.execute, bad)
        for k in ('input_dim', 'output_dim', 'dtype'):
            S.check(getattr(node, k) == getattr(twin, k), k)
        S.check(node.is_training() == twin.is_training(), 'training is over')
        S.eq(node.b, twin.b, 'learned')
        S.check(not mdp.get_active_extensions(), 'nothing is active')
        S.eq(node.execute(x), want, 'result')
        S.check(len(runs) == 3, 'nothing is cached')
        S.reach('end')
    return f


def context_h(how):
    """an error ends the block and the caching"""
    def f(S):
        import mdp
        m = setup(S)
        A, B = classes()
        runs = []
        node, other = A(S.real('a'), 1, runs), B(1, 1, runs)
        kw = {'all': {}, 'class': dict(cache_classes=[A]),
              'instance': dict(cache_instances=[node]),
              'none': dict(cache_classes=[], cache_instances=[])}[how]
        x = S.array('x', (1, 1))

        class Stop(Exception):
            pass
        try:
            with m.cache('one', **kw):
                S.check(node.is_cached() == (how != 'none'), 'who is cached')
                S.check(other.is_cached() == (how == 'all'), 'who is cached')
                node.execute(x)
                node.execute(x)
                S.check(len(runs) == (1 if how != 'none' else 2), 'cached')
                raise Stop()
        except Stop:
            pass
        S.check(not mdp.get_active_extensions(), 'nothing is active')
        with m.cache('two'):
            S.check(node.is_cached() and other.is_cached(), 'all are cached')
            node.execute(x)
            k = len(runs)
            S.eq(node.execute(x), node.a * x + 1, 'result')
            S.check(len(runs) == k, 'cached')
        S.check(not mdp.get_active_extensions(), 'nothing is active')
        S.reach('end')
    return f


def flow_h(n):
    """a flow, a layer and classes of the library"""
    def f(S):
        import mdp
        m = setup(S)
        x = S.array('x', (n, 2))
        z = S.array('z', (1, 2))

        def new():
            return mdp.Flow([mdp.nodes.CutoffNode(-1, 1),
                             mdp.hinet.Layer([
                                 mdp.nodes.HistogramNode(input_dim=1),
                                 mdp.nodes.CutoffNode(0, input_dim=1)]),
                             mdp.nodes.TimeFramesNode(2)
                             if n > 2 else mdp.nodes.IdentityNode()])
        a, b = new(), new()
        want = a.train(x)
        want = a.execute(x), a[:2].execute(z)
        b.train(x)
        with m.cache('one'):
            for i in range(2):
                S.eq(b.execute(x), want[0], 'result of the flow')
                S.eq(b[:2].execute(z), want[1], 'result of the flow')
        S.eq(b.execute(x), want[0], 'result of the flow')
        S.reach('end')
    return f


def harnesses(tier):
    th = tier != 'quick'
    n = 4 if th else 3
    run = [('run', 0, 0), ('run', 0, 1), ('run', 1, 0), ('run', 2, 0)]
    out = [
        H('all', history('all', n, run + [('set', 0), ('dir', 'two')])),
        H('all-args', history('all', n, [('run', 0, 0), ('run', 0, 0, (
            ('n', 2),)), ('run', 2, 0, (('n', 1),)), ('run', 2, 0)])),
        H('class', history('class', n, [('run', 0, 0), ('run', 2, 0),
                                        ('run', 2, 1), ('off',), ('on',),
                                        ('flag', 0, True)])),
        H('instance', history('instance', n, [
            ('run', 0, 0), ('run', 1, 0), ('flag', 1), ('flag', 1, True),
            ('flag', 1, False), ('flag', 0, False)])),
        H('both', history('both', n, run[1:] + [('flag', 0, True),
                                                ('flag', 2, False)])),
        H('dirs', history('all', n + 1, [('run', 0, 0), ('dir', 'two'),
                                         ('dir', 'one')])),
        H('on-off', history('instance', n + 1, [('run', 0, 0), ('off',),
                                                ('on',), ('flag', 1)])),
        H('on-off-class', history('class', 3, [('off',), ('on',),
                                               ('on', 'class'), ('on', 'all'),
                                               ('flag', 1)])),
        H('on-off-both', history('both', 3, [('off',), ('on',), ('run', 2, 0),
                                             ('on', 'class'), ('flag', 0)])),
    ]
    for kind in ('plain', 'auto', 'open'):
        out.append(H('first-' + kind, first_h(kind)))
    for how in ('all', 'class', 'instance', 'none'):
        out.append(H('context-' + how, context_h(how)))
    for k in (2, 3):
        out.append(H('flow-%d' % k, flow_h(k)))
    return out
