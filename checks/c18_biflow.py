"""C18: BiNodes follow the message protocol and BiFlows the targets."""
from symx import lib

BOUNDS = ('every subset of up to 9 message keys, all forms of results, flows '
          'of 3-4 nodes with up to 2 jumps, 1-3 chunks of 1-2 rows, 1-2 '
          'training phases, all data, message values and node functions')


def H(name, fn, **o):
    return (name, fn, o)


# ----------------------------------------------- oracle of the protocol

def parse(msg, nid, sig, takes_msg, default):
    """(method name, target, arguments, remaining message, replaced?) of a
    message according to the documentation of binode.py"""
    msg = dict(msg)
    own = {}
    for full in list(msg):
        if '->' in full:
            who, key = full.split('->')
            if who == nid:
                own[key] = msg.pop(full)
    look = dict(msg)
    look.update(own)
    target = look.get('target')
    name = look.get('method') or default
    return name, target, look, msg


def combine(res, rest, target, replaced):
    """outgoing (x, msg, target) of a result"""
    if not isinstance(res, tuple):
        res = (res,)
    x = res[0]
    out = res[1] if len(res) > 1 else None
    if len(res) > 2:
        target = res[2]
    if replaced:
        m = out
    else:
        m = dict(rest)
        m.update(out or {})
    return x, m, target


def norm(res):
    """(x, msg, target) of what a BiNode returned"""
    if not isinstance(res, tuple):
        return res, None, None
    if len(res) == 2:
        return res[0], res[1], None
    return res


def same(S, got, want, msg):
    g, w = norm(got), want
    S.check(len(g) == 3, msg + ': form of the result')
    lib.same_value(S, g[0], w[0], msg + ': x')
    S.check((g[1] or None) is None if not w[1] else
            (isinstance(g[1], dict) and set(g[1]) == set(w[1])),
            msg + ': keys of the message')
    if w[1]:
        for k in w[1]:
            lib.same_value(S, g[1][k], w[1][k], msg + ': message ' + k)
    S.check(g[2] == w[2], msg + ': target')


FORMS = ['x', 'xm', 'xmt', 'xe', 'nm', 'xnt']


def result(S, form, y, v):
    return {'x': y, 'xm': (y, {'k': v, 'new': v + 1}),
            'xmt': (y, {'k': v}, 'there'), 'xe': (y, {}),
            'nm': (None, {'new': v}), 'xnt': (y, None, 2)}[form]


def bi_class(kind):
    import mdp
    import bimdp

    class B(bimdp.BiNode):
        """kind: the arguments of the methods"""
        def __init__(self, form, v, S, phases=1, train_result=False,
                     stop_form=None, **k):
            self.form, self.v, self.S = form, v, S
            self.phases = phases
            self.train_result = train_result
            self.stop_form = stop_form
            self.calls = []
            self.nreset = 0
            super(B, self).__init__(**k)

        def is_trainable(self):
            return self.phases > 0

        def is_invertible(self):
            return True

        def _bi_reset(self):
            self.nreset += 1

        def work(self, name, x, args):
            self.calls.append((name, x, args))
            y = None if x is None else 2 * x + self.v
            return result(self.S, self.form, y, self.v)

        def _get_train_seq(self):
            return [(getattr(self, '_train%d' % i),
                     getattr(self, '_stop%d' % i))
                    for i in range(self.phases)]

        def trained(self, name, x, args):
            r = self.work(name, x, args)
            return r if self.train_result else None

        def stopped(self, name, args):
            self.calls.append((name, None, args))
            if self.stop_form is None:
                return None
            return result(self.S, self.stop_form, None, self.v)

    if kind == 'none':
        class K(B):
            def _execute(self, x):
                return self.work('execute', x, {})

            def _inverse(self, x):
                return self.work('inverse', x, {})

            def _alt(self, x):
                return self.work('alt', x, {})

            def _train(self, x):
                pass

            def _train0(self, x):
                return self.trained('train0', x, {})

            def _stop0(self):
                return self.stopped('stop0', {})
        K.SIG = []
    elif kind == 'a':
        class K(B):
            def _execute(self, x, a=7):
                return self.work('execute', x, {'a': a})

            def _inverse(self, x, a=7):
                return self.work('inverse', x, {'a': a})

            def _alt(self, x, a=7):
                return self.work('alt', x, {'a': a})

            def _train(self, x, a=7):
                pass

            def _train0(self, x, a=7):
                return self.trained('train0', x, {'a': a})

            def _train1(self, x, a=7):
                return self.trained('train1', x, {'a': a})

            def _stop0(self, a=7):
                return self.stopped('stop0', {'a': a})

            def _stop1(self, a=7):
                return self.stopped('stop1', {'a': a})
        K.SIG = ['a']
    else:
        class K(B):
            def _execute(self, x, a=7, msg=None):
                return self.work('execute', x, {'a': a, 'msg': msg and
                                                dict(msg)})

            def _inverse(self, x, a=7, msg=None):
                return self.work('inverse', x, {'a': a, 'msg': msg and
                                                dict(msg)})

            def _alt(self, x, a=7, msg=None):
                return self.work('alt', x, {'a': a, 'msg': msg and dict(msg)})

            def _train(self, x, a=7, msg=None):
                pass

            def _train0(self, x, a=7, msg=None):
                return self.trained('train0', x, {'a': a, 'msg': msg and
                                                  dict(msg)})

            def _stop0(self, a=7, msg=None):
                return self.stopped('stop0', {'a': a, 'msg': msg and
                                              dict(msg)})
        K.SIG = ['a', 'msg']
    return K


def message(S, with_method=True,
            keys=('a', 'n1->a', 'n1->z', 'n2->a', 'k'),
            targets=('none', 'plain', 'own', 'both')):
    m = {}
    for k in keys:
        if S.choose('has ' + k, [False, True]):
            m[k] = S.real('msg ' + k)
    t = S.choose('target', list(targets))
    if t in ('plain', 'both'):
        m['target'] = 1
    if t in ('own', 'both'):
        m['n1->target'] = 'q'
    if with_method:
        w = S.choose('method', ['none', 'alt', 'own', 'inverse', 'other'])
        if w in ('alt', 'inverse'):
            m['method'] = w
        elif w == 'own':
            m['n1->method'] = 'alt'
            m['method'] = 'inverse'
        elif w == 'other':
            m['n2->method'] = 'alt'
    return m


def expect_args(S, K, look, rest):
    args = {}
    if 'a' in K.SIG:
        args['a'] = look['a'] if 'a' in look else 7
    if 'msg' in K.SIG:
        args['msg'] = rest
    return args


def check_call(S, node, name, x, args):
    S.check(len(node.calls) == 1 and node.calls[0][0] == name,
            'the method of the message is called')
    c = node.calls[0]
    lib.same_value(S, c[1], x, 'x of the method')
    S.check(set(c[2]) == set(args), 'arguments')
    for k in args:
        lib.same_value(S, c[2][k] or None, args[k] or None, 'argument ' + k
                       ) if k == 'msg' else lib.same_value(
                           S, c[2][k], args[k], 'argument ' + k)


def execute_h(kind, form, **mk):
    def f(S):
        import bimdp
        K = bi_class(kind)
        v = S.real('v')
        node = K(form, v, S, phases=0, node_id='n1', input_dim=2,
                 output_dim=2)
        x = S.array('x', (1, 2)) if S.choose('x', [True, False]) else None
        m = message(S, **mk)
        orig = dict(m)
        name, target, look, rest = parse(m, 'n1', K.SIG, 'msg' in K.SIG,
                                         'execute')
        if name == 'inverse' and target is None:
            target = -1
        got = node.execute(x, m)
        y = None if x is None else 2 * x + v
        args = expect_args(S, K, look, rest)
        check_call(S, node, name, x, args)
        want = combine(result(S, form, y, v), rest, target, 'msg' in K.SIG)
        same(S, got, want, 'execute')
        if isinstance(got, tuple):
            S.check(got[-1] is not None or form == 'xe' or (
                'msg' in K.SIG), 'last entry of the result')
        S.check(node.input_dim == 2, 'dimensions')
        S.reach('end')
        # without a message
        if x is not None:
            node.calls = []
            got = node.execute(x)
            check_call(S, node, 'execute', x, {
                k: (7 if k == 'a' else None) for k in K.SIG})
            r = result(S, form, y, v)
            same(S, got, norm(r), 'without message')
        else:
            S.must_raise(bimdp.BiNodeException, 'nothing to execute',
                         node.execute, None)
            S.must_raise(bimdp.BiNodeException, 'unknown method',
                         node.execute, None, {'method': 'nothing'})
    return f


def train_h(kind, form, phases=1, stops=False, keys=(), targets=('none',)):
    def f(S):
        import mdp
        import bimdp
        K = bi_class(kind)
        v = S.real('v')
        tr = S.choose('returns', [True, False])
        node = K(form, v, S, phases=phases, train_result=tr, node_id='n1',
                 input_dim=2, output_dim=2)
        for ph in range(phases):
            x = S.array('x%d' % ph, (1, 2))
            if S.choose('early', [False, True]) if ph else True:
                S.must_raise(mdp.TrainingException, 'a phase cannot be '
                             'closed without training', node.stop_training)
            m = message(S, False, keys, targets) if not ph else {
                'n1->a': S.real('a1')}
            name, target, look, rest = parse(m, 'n1', K.SIG, 'msg' in K.SIG,
                                             'train%d' % ph)
            node.calls = []
            got = node.train(x, m)
            args = expect_args(S, K, look, rest)
            check_call(S, node, 'train%d' % ph, x, args)
            if tr:
                want = combine(result(S, form, 2 * x + v, v), rest, target,
                               'msg' in K.SIG)
                if want[0] is None and target is None:
                    S.check(got is None, 'training is terminated')
                else:
                    same(S, got, want, 'train')
            else:
                S.check(got is None, 'training is terminated')
            # stop
            m = {}
            if stops:
                few = stops == 'few'
                node.stop_form = S.choose('stop', [None, 'xmt'] if few else
                                          [None, 'xm', 'xmt', 'nm'])
                for k in S.choose('stop keys', [
                        (), ('n1->a', 'k')] if few else [
                        (), ('a',), ('n1->a', 'k'), ('a', 'n1->a'),
                        ('n1->z',)]):
                    m[k] = S.real('smsg ' + k)
                t = S.choose('stop target', [None, 'n0'])
                if t:
                    m['n1->target'] = t
            name, target, look, rest = parse(m, 'n1', K.SIG, 'msg' in K.SIG,
                                             'stop%d' % ph)
            stored = S.choose('stored', [None, ({'s': 1, 'k': 5}, 'exit')]
                              if stops else [None])
            base = dict(rest)
            replaced = 'msg' in K.SIG and bool(m)
            if stored:
                keep = dict(stored[0])
                node._stop_result = stored if phases == 1 else \
                    [None] * ph + [stored] + [None] * (phases - ph - 1)
                base = dict(stored[0])
                if not replaced:
                    base.update(rest)
                replaced = False
                if target is None:
                    target = 'exit'
            else:
                node._stop_result = None
            node.calls = []
            got = node.stop_training(m) if m or ph else node.stop_training()
            S.check(len(node.calls) == 1 and
                    node.calls[0][0] == 'stop%d' % ph, 'stop is called')
            if 'a' in K.SIG:
                lib.same_value(S, node.calls[0][2]['a'],
                               look.get('a', 7), 'argument of stop')
            if stored:
                S.check(stored[0] == keep, 'the stored message is kept')
            r = None if node.stop_form is None else result(
                S, node.stop_form, None, v)
            want = combine(r, base, target, replaced)
            same(S, got, want, 'stop_training')
            S.check(node.is_training() == (ph < phases - 1) and
                    node.get_remaining_train_phase() == phases - ph - 1,
                    'the phase is closed')
        S.must_raise(mdp.TrainingFinishedException, 'training is over',
                     node.train, x)
        S.must_raise(mdp.TrainingFinishedException, 'training is over',
                     node.stop_training)
        S.reach('end')
    return f


# ----------------------------------------------------------- flows

def router():
    import mdp
    import bimdp

    class R(bimdp.BiNode):
        """affine node; its k-th visit goes to the k-th target"""
        def __init__(self, i, a, b, targets, phases=0, nid=True, tres=(),
                     sres=None):
            self.i, self.a, self.b = i, a, b
            self.targets = list(targets)
            self.visit = 0
            self.phases = phases
            self.tres = list(tres)
            self.ntrain = 0
            self.sres = sres
            self.acc = 0
            self.seen = []
            self.nreset = 0
            super(R, self).__init__(node_id='n%d' % i if nid else None,
                                    input_dim=2, output_dim=2)

        def is_trainable(self):
            return self.phases > 0

        def _bi_reset(self):
            self.nreset += 1
            self.visit = 0
            self.ntrain = 0

        def _execute(self, x, trace=(), p=None):
            t = self.targets[self.visit] if self.visit < len(self.targets) \
                else None
            self.visit += 1
            y = None if x is None else self.a * x + self.b
            if p is not None and y is not None:
                y = y + p
            m = {'trace': list(trace) + [self.i], 'm%d' % self.i: y}
            return (y, m) if t is None else (y, m, t)

        def _train(self, x, trace=(), p=None):
            pass

        def _get_train_seq(self):
            def tr(k):
                def _train(x, trace=(), p=None):
                    t = self.tres[self.ntrain] if self.ntrain < len(
                        self.tres) else None
                    self.ntrain += 1
                    self.acc = self.acc + (k + 1) * x[0, 0] + (p or 0)
                    self.seen.append((k, tuple(trace)))
                    if t is not None:
                        return self.a * x, {'trace': list(trace) +
                                            ['t%d' % self.i]}, t
                return _train

            def st(k):
                def _stop(p=0):
                    self.b = 2 * self.b + self.acc + p
                    self.acc = 0
                    return self.sres
                return _stop
            return [(tr(k), st(k)) for k in range(self.phases)]

    class Plain(mdp.Node):
        def __init__(self, i, a, b):
            self.i, self.a, self.b = i, a, b
            super(Plain, self).__init__(input_dim=2, output_dim=2)

        def is_trainable(self):
            return False

        def _execute(self, x):
            return self.a * x + self.b
    return R, Plain


def walk(desc, x, msg, i=0, stop=None, visits=None):
    """oracle: desc is a list of dicts with a, b, targets, plain, id"""
    visits = {} if visits is None else visits
    msg = dict(msg or {})
    n = len(desc)
    steps = 0
    while i != stop:
        steps += 1
        d = desc[i]
        if d['plain']:
            x = d['a'] * x + d['b']
            t = 1
        else:
            v = visits.get(i, 0)
            visits[i] = v + 1
            t = d['targets'][v] if v < len(d['targets']) else None
            y = d['a'] * x + d['b']
            # node specific keys are consumed
            own = {k.split('->')[1]: msg.pop(k) for k in list(msg)
                   if k.startswith(str(d['id']) + '->')}
            look = dict(msg)
            look.update(own)
            if look.get('p') is not None:
                y = y + look['p']
            msg['trace'] = list(look.get('trace', ())) + [d['i']]
            msg['m%d' % d['i']] = y
            x = y
            if t is None:
                t = 1
        if isinstance(t, int):
            i = i + t
            if i == n or i == -1:
                return x, msg, 'end'
            if i < 0 or i > n:
                return x, msg, 'bad'
        elif t == 'exit':
            return x, msg, 'end'
        else:
            ids = [k for k, e in enumerate(desc)
                   if not e['plain'] and e['id'] == t]
            if not ids:
                return x, msg, 'bad'
            i = ids[0]
    return x, msg, 'stop'


def make_flow(S, n, R, Plain, plain=(), phases={}, targets=None, tag=''):
    desc, nodes = [], []
    for i in range(n):
        a, b = S.real('a%s%d' % (tag, i)), S.real('b%s%d' % (tag, i))
        if i in plain:
            nodes.append(Plain(i, a, b))
            desc.append(dict(i=i, a=a, b=b, plain=True, id=None, targets=[]))
            continue
        t = targets(i) if targets else []
        nd = R(i, a, b, t, phases=phases.get(i, 0))
        nodes.append(nd)
        desc.append(dict(i=i, a=a, b=b, plain=False, id='n%d' % i,
                         targets=t))
    return desc, nodes


def flow_execute_h(n, plain=(), njump=1, start=True):
    def f(S):
        import bimdp
        R, Plain = router()

        def targets(i):
            opts = [None, 'n0', 'n%d' % (n - 1), -1, 'exit', 2, 'nowhere']
            opts = [o for o in opts if not (isinstance(o, int) and
                                            not -1 <= i + o < n)]
            if njump == 1:
                return [S.choose('t%d' % i, opts)]
            return [S.choose('t%d_%d' % (i, k), [None, 'n0', 'exit'])
                    for k in range(njump)]
        desc, nodes = make_flow(S, n, R, Plain, plain, targets=targets)
        fl = bimdp.BiFlow(nodes)
        x = S.array('x', (1, 2))
        msg = {}
        if S.choose('p', [False, True]):
            msg['n1->p'] = S.real('p')
        if S.choose('k', [False, True]):
            msg['k'] = [1]
        t0 = S.choose('start', [None, 'n1', 1]) if start else None
        want = walk(desc, x, msg, 1 if t0 else 0)
        a, m, how = want
        if how == 'bad':
            S.must_raise(bimdp.BiFlowException, 'a target that is not in '
                         'the flow is refused', fl.execute, x, dict(msg), t0)
            S.reach('bad')
            return
        for bad in (() if msg or t0 else (-1, n, -n, n + 3, 'zz', 'exit')):
            S.must_raise(bimdp.BiFlowException, 'a start beyond the flow is '
                         'refused', fl.execute, x, dict(msg), bad)
        for nd in nodes:
            if hasattr(nd, 'visit'):
                nd.visit = 0
        for rep in range(2):
            given = dict(msg)
            y, out = fl.execute(x, given if msg else None, t0)
            S.check(list(given) == list(msg) and given.get('k') in (None, [1]),
                    'the message given is left alone')
            S.eq(y, a, 'the output is that of the nodes visited in order')
            S.check(out.get('trace') == m.get('trace'), 'visited nodes')
            S.check(set(out) == set(m), 'keys of the message')
            for k in m:
                lib.same_value(S, out[k], m[k], 'message ' + k)
        S.check(all(nd.visit == 0 for nd in nodes if hasattr(nd, 'visit')),
                'nodes are reset')
        for i in range(n):
            if i not in plain:
                S.check(fl['n%d' % i] is nodes[i] and 'n%d' % i in fl,
                        'nodes by id')
        S.must_raise(KeyError, 'unknown id', lambda: fl['zz'])
        S.check('zz' not in fl, 'unknown id')
        S.reach('end')
    return f


def flow_chunks_h():
    """several chunks with messages: results are joined"""
    def f(S):
        import bimdp
        R, Plain = router()
        desc, nodes = make_flow(S, 2, R, Plain, targets=lambda i: [
            S.choose('t%d' % i, [None, 'n0', 'exit'])])
        fl = bimdp.BiFlow(nodes)
        nch = S.choose('nch', [1, 2, 3])
        xs = [S.array('x%d' % j, (1 + j % 2, 2)) for j in range(nch)]
        msgs = [{'c': S.real('c%d' % j), 'l': [j],
                 'v': S.array('v%d' % j, (1,))} for j in range(nch)]
        how = S.choose('how', ['msgs', 'nomsg', 'targets', 'gen'])
        keep = [dict(m) for m in msgs]
        wants = []
        for j in range(nch):
            wants.append(walk(desc, xs[j], msgs[j] if how != 'nomsg' else {},
                              1 if how == 'targets' and j % 2 else 0))
        if how == 'nomsg':
            y, out = fl.execute(list(xs))
        elif how == 'targets':
            y, out = fl.execute(list(xs), msgs, [
                'n1' if j % 2 else None for j in range(nch)])
        elif how == 'gen':
            y, out = fl.execute(iter(xs), iter(msgs))
        else:
            y, out = fl.execute(list(xs), msgs)
        S.eq(y, S.np.concatenate([w[0] for w in wants]), 'joined outputs')
        if how != 'nomsg':
            c = keep[0]['c']
            for j in range(1, nch):
                c = c + keep[j]['c']
            S.eq(out['c'], c, 'numbers are added')
            S.check(out['l'] == list(range(nch)), 'lists are joined')
            S.eq(out['v'], S.np.concatenate([m['v'] for m in keep]),
                 'arrays are concatenated')
        tr = []
        for w in wants:
            tr += w[1]['trace']
        S.check(out['trace'] == tr, 'lists are joined in order')
        for m, k in zip(msgs, keep):
            S.check(set(m) == set(k) and m['l'] == k['l'] and
                    len(m['l']) == 1, 'the messages given are left alone')
        S.must_raise(bimdp.BiFlowException, 'no data', fl.execute, [])
        S.must_raise(bimdp.BiFlowException, 'no data and no message',
                     fl.execute, None)
        S.reach('end')
    return f


def flow_none_h():
    """outputs that are None"""
    def f(S):
        import bimdp

        class Q(bimdp.BiNode):
            def is_trainable(self):
                return False

            def _execute(self, x, gone=False):
                return (None if gone else x, {'s': x[0, 0]})
        fl = bimdp.BiFlow([Q(node_id='q', input_dim=1)])
        n = S.choose('n', [1, 2, 3])
        gone = [S.choose('gone%d' % i, [False, True]) for i in range(n)]
        xs = [S.array('x%d' % i, (1, 1)) for i in range(n)]
        msgs = [{'q->gone': g} for g in gone]
        if any(gone) and not all(gone):
            S.must_raise(bimdp.BiFlowException, 'some outputs are missing',
                         fl.execute, xs, msgs)
            S.reach('mixed')
            return
        y, m = fl.execute(xs, msgs)
        if all(gone):
            S.check(y is None or y is False or len(y) == 0, 'no output')
            S.reach('none')
        else:
            S.eq(y, S.np.concatenate(xs), 'output')
        s = xs[0][0, 0]
        for x in xs[1:]:
            s = s + x[0, 0]
        S.eq(m['s'], s, 'the messages are joined')
    return f


def flow_train_h(n, phases, cls='BiFlow', jumps=True, plain=()):
    def f(S):
        import bimdp
        R, Plain = router()

        def targets(i):
            if not jumps:
                return []
            return [S.choose('t%d' % i, [None, 'exit', 'n0'])]
        desc, nodes = make_flow(S, n, R, Plain, plain, phases, targets)
        last = max(phases)
        t = S.choose('train result', [None, 'n0', -1, 'zz'])
        if t == -1 and last == 0:
            t = None
        if t is not None:
            nodes[last].tres = [t]
        fl = getattr(bimdp, cls)(nodes)
        xs = [S.array('x%d' % j, (1, 2)) for j in range(2)]
        usep = S.choose('p', [False, True])
        # a node that is still training cannot be executed
        usestop = S.choose('stop', [None, 'msg'] +
                           ['result'] * (phases[last] == 1))
        p = [S.real('p%d' % j) for j in range(2)]
        data = [[x for x in xs] if i in phases else None for i in range(n)]
        pkey = 'p' if jumps != 'own' else 'n%d->p' % last
        msgs = [([{pkey: p[j]} for j in range(2)] if i in phases and usep
                 else None) for i in range(n)]
        sp = S.real('sp')
        stops = None
        if usestop == 'msg':
            stops = [({'n%d->p' % i: sp} if i in phases else None)
                     for i in range(n)]
        elif usestop == 'result':
            nodes[last].sres = (xs[0], {'sr': 1}, 'n0')
        checked = []
        extra = ()
        if cls == 'BiCheckpointFlow':
            def cp(node):
                checked.append((node.i, node.is_training()))
                return {'mark%d' % node.i: node.b} if node.i % 2 else None
            extra = ([cp] * n,)
        # ---- oracle
        acc = [0] * n
        bad = False
        seen = {i: [] for i in phases}
        for i in range(n):
            if i not in phases:
                continue
            for ph in range(phases[i]):
                for j in range(2):
                    visits = {}
                    msg = {pkey: p[j]} if usep else {}
                    x, m, how = walk(desc, xs[j], msg, 0, i, visits)
                    k = 0
                    tres = [t] if i == last and t is not None else []
                    while True:
                        if how != 'stop':
                            bad = True
                            break
                        mine = m.pop('n%d->p' % i, m.get('p'))
                        acc[i] = acc[i] + (ph + 1) * x[0, 0] + (
                            mine if mine is not None else 0)
                        seen[i].append((ph, tuple(m.get('trace', ()))))
                        if k >= len(tres):
                            break
                        r = tres[k]
                        k += 1
                        if r == 'zz':
                            bad = True
                            break
                        x = desc[i]['a'] * x
                        m = dict(m, trace=list(m.get('trace', ())) +
                                 ['t%d' % i])
                        go = i - 1 if r == -1 else 0
                        x, m, how = walk(desc, x, m, go, i, visits)
                    if bad:
                        break
                if bad:
                    break
                desc[i]['b'] = 2 * desc[i]['b'] + acc[i] + (
                    sp if usestop == 'msg' else 0)
                acc[i] = 0
                if i == last and usestop == 'result':
                    # an execution that has to leave the flow
                    w = walk(desc, xs[0], {'sr': 1}, 0)
                    bad = bad or w[2] != 'end'
            if bad:
                break
        args = (data,) + extra
        kw = dict(msg_iterables=msgs)
        if stops:
            kw['stop_messages'] = stops
        if bad:
            S.must_raise(bimdp.BiFlowException, 'a training that does not '
                         'arrive is refused', fl.train, *args, **kw)
            S.reach('bad')
            return
        fl.train(*args, **kw)
        for i in phases:
            if msgs[i]:
                S.check(all(list(m) == [pkey] for m in msgs[i]),
                        'the messages given are left alone')
            S.check(nodes[i].seen == seen[i], 'training steps of the node')
            S.eq(nodes[i].b, desc[i]['b'], 'what the node learned')
            S.check(not nodes[i].is_training(), 'the training is closed')
        if extra:
            S.check([c[0] for c in checked] == list(range(n)) and
                    not any(c[1] for c in checked), 'checkpoints')
            for i in range(n):
                if i % 2:
                    S.eq(getattr(fl, 'mark%d' % i), nodes[i].b,
                         'attributes of the checkpoints')
        x = S.array('z', (1, 2))
        w = walk(desc, x, {})
        if w[2] == 'end':
            S.eq(fl.execute(x)[0], w[0], 'the trained flow')
        S.reach('end')
    return f


def bad_results_h():
    """results that are no (x, msg, target)"""
    def f(S):
        import bimdp
        size = S.choose('size', [1, 4])
        at = S.choose('node', [0, 1])
        how = S.choose('how', ['direct', 'message'])

        class Q(bimdp.BiNode):
            def is_trainable(self):
                return False

            def execute(self, x, msg=None):
                x = 2 * x
                bad = (x, msg, None, 3)[:size]
                return bad if self._node_id == 'q%d' % at else x
        fl = bimdp.BiFlow([Q(node_id='q%d' % i, input_dim=1)
                           for i in range(2)])
        S.must_raise(bimdp.BiFlowException, 'a tuple that is no result is '
                     'refused', fl.execute, S.array('x', (1, 1)),
                     {} if how == 'direct' else {'k': S.real('k')})
        S.reach('end')
    return f


def coroutine_h():
    """a coroutine continues where it stopped, until it ends or is reset"""
    def f(S):
        import bimdp
        nyield = S.choose('yields', [0, 1, 2])

        class D(bimdp.BiNode):
            def is_trainable(self):
                return False

            @bimdp.binode_coroutine(['a', 'msg'], defaults=(0, None))
            def _execute(self, x, a=0, msg=None):
                s = x + a
                for i in range(nyield):
                    x, a, msg = yield (s, {'i': i})
                    s = s + x * (i + 2) + a
        node = D(node_id='d', input_dim=1)
        s = None
        k = 0
        for j in range(4):
            x = S.array('x%d' % j, (1, 1))
            a = S.real('a%d' % j)
            if S.choose('reset%d' % j, [False, True]):
                node.bi_reset()
                k = 0
            use = S.choose('arg%d' % j, [False, True])
            r = node.execute(x, {'a': a} if use else {})
            aa = a if use else 0
            if k == 0:
                s = x + aa
            else:
                s = s + x * (k + 1) + aa
            if k < nyield:
                g = norm(r)
                S.eq(g[0], s, 'the coroutine continues')
                S.check(g[1]['i'] == k, 'message of the coroutine')
                k += 1
            else:
                S.check(norm(r)[0] is None, 'the end of the coroutine')
                k = 0
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for kind in ('none', 'a', 'msg'):
        for form in FORMS:
            if q and kind == 'none' and form in ('xmt', 'xe'):
                continue
            hs.append(H('execute/%s/%s' % (kind, form),
                        execute_h(kind, form, **(dict(keys=(
                            'a', 'n1->a', 'n1->z', 'k')) if q else {})),
                        reach=['end']))
        for form in FORMS:
            if q and kind == 'none' and form in ('xmt', 'xe'):
                continue
            hs.append(H('train/%s/%s' % (kind, form), train_h(
                kind, form, keys=('a', 'n1->a', 'n2->a', 'k'),
                targets=['none', 'plain', 'own']), reach=['end']))
        hs.append(H('stop/%s' % kind, train_h(kind, 'xm', stops=True),
                    reach=['end']))
    hs.append(H('stop/2phases', train_h('a', 'xm', 2, stops='few'),
                reach=['end']))
    E = ['end', 'bad']
    hs.append(H('flow/3', flow_execute_h(3), reach=E))
    hs.append(H('flow/plain1', flow_execute_h(3, (1,), start=False),
                reach=E))
    hs.append(H('flow/plain0', flow_execute_h(3, (0,), start=False),
                reach=E))
    hs.append(H('flow/3/2jumps', flow_execute_h(3, njump=2, start=False),
                reach=['end']))
    hs.append(H('flow/chunks', flow_chunks_h(), reach=['end']))
    hs.append(H('flow/none', flow_none_h(), reach=['mixed', 'none']))
    for cls in ('BiFlow', 'BiCheckpointFlow'):
        hs.append(H('train/%s/1' % cls, flow_train_h(3, {1: 1, 2: 1}, cls),
                    reach=E))
    hs.append(H('train/BiFlow/2', flow_train_h(3, {0: 2, 2: 2}), reach=E))
    hs.append(H('train/BiFlow/own', flow_train_h(
        2, {0: 1, 1: 2}, jumps='own'), reach=['end']))
    hs.append(H('train/BiFlow/plain', flow_train_h(
        3, {2: 1}, plain=(1,)), reach=['end']))
    hs.append(H('flow/bad', bad_results_h(), reach=['end']))
    hs.append(H('coroutine', coroutine_h(), reach=['end']))
    return hs
