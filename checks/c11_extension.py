"""C11: extensions override exactly what they register while they are active
and leave no trace afterwards."""
import itertools

from symx import lib

BOUNDS = ('a chain of 3 node classes, each defining the attribute or not '
          '(method, static or class method, property, value); two or three '
          'extensions overriding any subset of the classes in any order; '
          'histories of up to 4 activations and deactivations')

COUNT = itertools.count()
KINDS = ['method', 'static', 'class', 'property', 'value']


def H(name, fn, **o):
    return (name, fn, o)


def attr(kind, tag):
    if kind == 'method':
        def foo(self):
            return ('m', tag, type(self).__name__)
        return foo
    if kind == 'static':
        def foo():
            return ('s', tag)
        return staticmethod(foo)
    if kind == 'class':
        def foo(cls):
            return ('c', tag, cls.__name__)
        return classmethod(foo)
    if kind == 'property':
        return property(lambda self: ('p', tag, type(self).__name__))
    return ('v', tag)


def expect(kind, tag, cname):
    return {'method': ('m', tag, cname), 'static': ('s', tag),
            'class': ('c', tag, cname), 'property': ('p', tag, cname),
            'value': ('v', tag)}[kind]


def read(obj, name):
    try:
        v = getattr(obj, name)
    except AttributeError:
        return None
    return v() if callable(v) else v


def forget(name):
    import mdp
    try:
        mdp.deactivate_extension(name)
    finally:
        mdp.get_extensions().pop(name, None)


class World(object):
    """fresh classes and extensions, forgotten after the path"""

    def __init__(self, S, defs, kind, exts):
        """defs: which classes define foo; exts: {name: [class indices]}"""
        import mdp
        self.S, self.kind, self.exts, self.defs = S, kind, exts, defs
        self.cls = []
        base = mdp.Node
        for i, d in enumerate(defs):
            members = {'foo': attr(kind, 'own%d' % i)} if d else {}
            base = type('K%d' % i, (base,), members)
            self.cls.append(base)
        self.before = [dict(c.__dict__) for c in self.cls]
        pre = 'verif_%d_' % next(COUNT)
        self.name = dict((k, pre + k) for k in exts)
        for k, idx in exts.items():
            for i in idx:
                a = attr(kind, '%s%d' % (k, i))
                mdp.extension_method(self.name[k], self.cls[i], 'foo')(a)

        def cleanup():
            for k in exts:
                forget(self.name[k])
        S.add_cleanup(cleanup)

    def owner(self, i, active):
        """which definition an instance of class i must see"""
        for j in range(i, -1, -1):
            for k in active:
                if j in self.exts[k]:
                    return '%s%d' % (k, j)
            if self.defs[j]:
                return 'own%d' % j
        return None

    def check(self, active, msg):
        S = self.S
        for i, c in enumerate(self.cls):
            o = self.owner(i, active)
            want = None if o is None else expect(self.kind, o, c.__name__)
            S.check(read(c(), 'foo') == want, msg + ': instances see the '
                    'right definition')
            if self.kind in ('static', 'class') and o is not None:
                S.check(read(c, 'foo') == want, msg + ': the class sees the '
                        'right definition')
            # the original stays available while it is overridden
            if any(i in self.exts[k] for k in active):
                o = self.owner(i, ())
                if o is not None:
                    S.check(read(c(), '_non_extension_foo') ==
                            expect(self.kind, o, c.__name__), msg +
                            ': the overridden definition stays available')
        if not active:
            for c, b in zip(self.cls, self.before):
                S.check(dict(c.__dict__) == b, msg + ': no trace is left in '
                        'the class')


def hist_h(kind, L, nclass, names=('X', 'Y'), orders=True):
    def f(S):
        import mdp
        defs = [bool(S.choose('def%d' % i, [False, True]))
                for i in range(nclass)]
        exts = {}
        for k in names:
            idx = [i for i in range(nclass)
                   if S.choose('%s%d' % (k, i), [False, True])]
            if not idx:
                return
            if len(idx) > 1 and orders and S.choose('rev' + k,
                                                    [False, True]):
                idx = idx[::-1]
            exts[k] = idx
        w = World(S, defs, kind, exts)
        active = []
        w.check(active, 'before')
        for step in range(L):
            k = S.choose('k%d' % step, list(names))
            on = S.choose('on%d' % step, [True, False])
            S.log('activate' if on else 'deactivate', k)
            if on:
                clash = k not in active and any(
                    set(exts[k]) & set(exts[a]) for a in active)
                if clash:
                    S.must_raise(mdp.ExtensionException, 'a collision is '
                                 'refused', mdp.activate_extension,
                                 w.name[k])
                    S.reach('clash')
                else:
                    mdp.activate_extension(w.name[k])
                    if k not in active:
                        active.append(k)
            else:
                mdp.deactivate_extension(w.name[k])
                if k in active:
                    active.remove(k)
            got = mdp.get_active_extensions()
            S.check(sorted(n for n in got if n in w.name.values()) ==
                    sorted(w.name[a] for a in active),
                    'the list of active extensions')
            w.check(active, 'after')
        S.reach('end')
    return f


def context_h():
    """the context manager deactivates what it activated, nothing else"""
    def f(S):
        import mdp
        ks = 'XYZ'
        w = World(S, [True, False, False], 'method',
                  dict((k, [i]) for i, k in enumerate(ks)))
        pre = [k for k in S.choose('order', ['XYZ', 'ZYX', 'YXZ'])
               if S.choose('pre' + k, [False, True])]
        for k in pre:
            mdp.activate_extension(w.name[k])
        lst = S.choose('list', list(itertools.chain(
            itertools.permutations(ks, 3), itertools.permutations(ks, 2),
            [('X',), ('Y',), (), ('X', 'X')])))
        how = S.choose('how', ['with', 'raise', 'decorator', 'one'])
        S.assume(how != 'one' or len(lst) == 1)
        arg = w.name[lst[0]] if how == 'one' else [w.name[k] for k in lst]

        class Stop(Exception):
            pass

        def body():
            inside = pre + [k for k in ks if k in lst and k not in pre]
            S.check(sorted(n for n in mdp.get_active_extensions()
                           if n in w.name.values()) ==
                    sorted(w.name[k] for k in inside),
                    'all extensions are active inside')
            w.check(inside, 'inside')
            if how == 'raise':
                raise Stop()
            return 5
        if how == 'decorator':
            S.check(mdp.with_extension(w.name[lst[0]])(body)() == 5
                    if len(lst) == 1 else True, 'result')
        else:
            try:
                with mdp.extension(arg):
                    body()
                S.check(how != 'raise', 'exceptions pass')
            except Stop:
                S.check(how == 'raise', 'exceptions pass')
        S.check(sorted(n for n in mdp.get_active_extensions()
                       if n in w.name.values()) ==
                sorted(w.name[k] for k in pre),
                'afterwards the same extensions are active as before')
        w.check(pre, 'afterwards')
        S.reach('end')
    return f


def newattr_h():
    """new attributes, several attributes, class-based extension nodes,
    setup and teardown, inheritance"""
    def f(S):
        import mdp
        nm = 'verif_n_%d' % next(COUNT)
        S.add_cleanup(lambda: forget(nm))
        log = []

        class B(mdp.Node):
            z = 1

            def foo(self):
                return 'B'

        class D(B):
            def bar(self):
                return 'D'

        class Ext(mdp.ExtensionNode, mdp.Node):
            extension_name = nm

            def new(self):
                return 'new:' + self.foo()

        class ExtB(Ext, B):
            z = 2

            def foo(self):
                return 'ext+' + self._non_extension_foo()

        class ExtD(ExtB, D):
            def bar(self):
                return 'ext+' + self._non_extension_bar()

            def foo(self):
                return 'extD+' + super(ExtD, self).foo() \
                    if isinstance(self, ExtD) else 'extD'
        if S.choose('setup', [False, True]):
            mdp.extension_setup(nm)(lambda: log.append('setup'))
            mdp.extension_teardown(nm)(lambda: log.append('teardown'))
            S.must_raise(mdp.ExtensionException, 'one setup function',
                         mdp.extension_setup(nm), lambda: None)
            S.must_raise(mdp.ExtensionException, 'one teardown function',
                         mdp.extension_teardown(nm), lambda: None)
            hooks = ['setup', 'teardown']
        else:
            hooks = []
        snap = [dict(c.__dict__) for c in (mdp.Node, B, D)]
        how = S.choose('how', ['functions', 'context', 'decorator', 'list'])
        n = S.choose('times', [1, 2])

        def inside():
            S.check(nm in mdp.get_active_extensions(), 'active')
            b, d, o = B(), D(), mdp.nodes.IdentityNode()
            S.check(b.foo() == 'ext+B' and b.z == 2, 'overridden')
            S.check(d.foo() == 'extD' and d.bar() == 'ext+D' and d.z == 2,
                    'overridden in the derived class')
            S.check(b.new() == 'new:ext+B' and d.new() == 'new:extD',
                    'new method calls the overridden one')
            S.check(hasattr(o, 'new'), 'new method in all nodes')
            S.check(log == hooks[:1], 'setup ran once')

        class Boom(Exception):
            pass
        fail = S.choose('fail', [False, True]) if how != 'functions' \
            else False
        for i in range(n):
            del log[:]
            try:
                if how == 'functions':
                    mdp.activate_extension(nm)
                    mdp.activate_extension(nm)
                    inside()
                    mdp.deactivate_extension(nm)
                elif how == 'list':
                    mdp.activate_extensions([nm])
                    inside()
                    mdp.deactivate_extensions([nm])
                elif how == 'context':
                    with mdp.extension(nm):
                        inside()
                        with mdp.extension([nm]):
                            inside()
                        inside()
                        if fail:
                            raise Boom()
                else:
                    @mdp.with_extension(nm)
                    def g(a, b=2):
                        inside()
                        if fail:
                            raise Boom()
                        return (a, b)

                    @mdp.with_extension(nm)
                    def outer():
                        r = g(1, b=3)
                        inside()
                        return r
                    S.check(outer() == (1, 3), 'arguments and result')
            except Boom:
                pass
            S.check(nm not in mdp.get_active_extensions(), 'inactive')
            for c, b in zip((mdp.Node, B, D), snap):
                S.check(dict(c.__dict__) == b, 'no trace is left')
            S.check(B().foo() == 'B' and D().bar() == 'D' and
                    D().foo() == 'B' and B().z == 1, 'restored')
            S.check(log == hooks, 'setup and teardown ran once')
        S.must_raise(mdp.ExtensionException, 'unknown extension',
                     mdp.activate_extension, nm + 'x')
        S.must_raise(mdp.ExtensionException, 'unknown extension',
                     mdp.deactivate_extension, nm + 'x')
        S.reach('end')
    return f


def failed_setup_h():
    """an extension whose setup raises is not active, others stay"""
    def f(S):
        import mdp
        exts = {'X': [0], 'Y': [1]}
        w = World(S, [True, True], 'method', exts)

        class Boom(Exception):
            pass

        def bad():
            raise Boom()
        mdp.extension_setup(w.name['Y'])(bad)
        mdp.activate_extension(w.name['X'])
        S.must_raise(Boom, 'failing setup', mdp.activate_extension,
                     w.name['Y'])
        S.check(w.name['Y'] not in mdp.get_active_extensions(),
                'not active after a failing setup')
        w.check(['X'], 'after')
        mdp.deactivate_extension(w.name['X'])
        w.check([], 'end')
        S.reach('end')
    return f


def existing_h():
    """the library's own extensions: on and off leaves every class as it
    was, in every order"""
    def f(S):
        import mdp
        import bimdp  # noqa
        names = ['parallel', 'cache_execute', 'html_representation',
                 'switchboard_factory', 'gradient']
        names = [n for n in names if n in mdp.get_extensions()]
        classes = set()
        for n in names:
            for c in mdp.get_extensions()[n]:
                if isinstance(c, type):
                    classes.update(x for x in c.__mro__ if x is not object)
        snap = dict((c, dict(c.__dict__)) for c in classes)
        act = []
        S.add_cleanup(lambda: mdp.deactivate_extensions(
            mdp.get_active_extensions()))
        for step in range(4):
            n = S.choose('n%d' % step, names)
            if n in act:
                mdp.deactivate_extension(n)
                act.remove(n)
            else:
                mdp.activate_extension(n)
                act.append(n)
        order = list(act)
        if S.choose('rev', [False, True]):
            order.reverse()
        for n in order:
            mdp.deactivate_extension(n)
        for c in classes:
            now = dict(c.__dict__)
            now.pop('__abstractmethods__', None)
            S.check(now == snap[c], 'the class is as before')
        S.reach('end')
    return f


def harnesses(tier):
    hs = []
    q = tier == 'quick'
    for kind in KINDS:
        hs.append(H('hist/%s/2' % kind, hist_h(kind, 2 if q else 4, 2, orders=not q or kind == 'static'),
                    reach=['end', 'clash'], validate=10, max_paths=200000))
    for kind in KINDS if not q else ['method']:
        hs.append(H('hist/%s/3' % kind, hist_h(kind, 2 if q else 3, 3,
                                               orders=not q),
                    reach=['end', 'clash'], validate=10, max_paths=200000,
                    weight=3))
    hs.append(H('newattr', newattr_h(), reach=['end'], validate=10))
    hs.append(H('context', context_h(), reach=['end'], validate=10,
                max_paths=10000))
    hs.append(H('failed_setup', failed_setup_h(), reach=['end']))
    hs.append(H('existing', existing_h(), reach=['end'], validate=10,
                weight=3))
    return hs
