"""C01: training-phase state machine of a node, against an abstract automaton,
for every history of public calls up to a bounded length."""
from symx import lib

BOUNDS = ('histories of <=5 public calls (train, stop_training, execute, '
          'inverse, call, copy-and-continue), nodes with 0..3 training phases,'
          ' data shapes symbolic (any number of rows/columns)')


def H(name, fn, **o):
    return (name, fn, o)


def make_node(P, invertible, log):
    import mdp

    class N(mdp.Node):
        @staticmethod
        def is_trainable():
            return P > 0

        @staticmethod
        def is_invertible():
            return invertible

        def _get_train_seq(self):
            def tr(k):
                def _train(x, *a):
                    self.log.append(('train', k, x.shape, a))
                return _train

            def st(k):
                def _stop(*a):
                    if a == ('failing',):
                        raise mdp.NodeException('cannot be closed yet')
                    self.log.append(('stop', k, a))
                return _stop
            return [(tr(k), st(k)) for k in range(P)]

        def _check_train_args(self, x, *a):
            if a == ('refused',):
                raise mdp.TrainingException('refused arguments')

        def _execute(self, x, *a):
            self.log.append(('exec', a))
            return x

        def _inverse(self, y, *a):
            self.log.append(('inv', a))
            return y
    n = N()
    n.log = log
    return n


class Model(object):
    """the specification"""

    def __init__(self, P, invertible):
        self.P, self.inv = P, invertible
        self.p = 0
        self.started = False
        self.log = []

    @property
    def done(self):
        return self.p >= self.P

    def train(self, E, arg=()):
        if self.P == 0:
            return E.IsNotTrainableException
        if self.done:
            return E.TrainingFinishedException
        self.log.append(('train', self.p, arg))
        self.started = True

    def stop(self, E, arg=()):
        if self.done:
            return E.TrainingFinishedException
        if not self.started:
            return E.TrainingException
        self.log.append(('stop', self.p, arg))
        self.p += 1
        self.started = False

    def refuse(self, E):
        if self.P == 0:
            return E.IsNotTrainableException
        return E.TrainingFinishedException if self.done else \
            E.TrainingException

    def refuse_stop(self, E):
        if self.done:
            return E.TrainingFinishedException
        return E.NodeException if self.started else E.TrainingException

    def _finish(self, E):
        if not self.done:
            e = self.stop(E)
            if e:
                return e
            if not self.done:
                return E.TrainingException

    def execute(self, E, arg=()):
        if self.P and self.p == 0 and not self.started:
            while True:
                self.train(E)
                if self.P - self.p > 1:
                    self.stop(E)
                else:
                    break
        e = self._finish(E)
        if e:
            return e
        self.log.append(('exec', arg))

    def inverse(self, E, arg=()):
        if not self.inv:
            return E.IsNotInvertibleException
        e = self._finish(E)
        if e:
            return e
        if not self.dims:
            return E.NodeException
        self.log.append(('inv', arg))
    dims = False


OPS = ['train', 'stop_training', 'execute', '__call__', 'inverse', 'copy',
       'train_arg', 'stop_arg', 'execute_arg', 'state']


def hist(P, invertible, L, ops, first=None):
    def f(S):
        import mdp
        E = mdp
        log = []
        n = make_node(P, invertible, log)
        m = Model(P, invertible)
        rows = S.int('rows', 1, 30)
        cols = S.int('cols', 1, 30)
        x = lib.shaped(S, (rows, cols))
        old = None
        for i in range(L):
            op = S.choose('op%d' % i, first if first and not i else ops)
            S.log(op)
            want, call = None, None
            if op == 'train_refused':
                # does not reach the training phase
                want = m.refuse(E)
                call = lambda: n.train(x, 'refused')
                if want is E.TrainingException:
                    m.dims = True
            elif op == 'stop_failing':
                want = m.refuse_stop(E)
                call = lambda: n.stop_training('failing')
            elif op in ('train', 'train_arg'):
                a = ('lab%d' % i,) if op == 'train_arg' else ()
                want = m.train(E, a)
                call = lambda: n.train(x, *a)
                if want is None:
                    m.dims = True
            elif op in ('stop_training', 'stop_arg'):
                a = ('arg%d' % i,) if op == 'stop_arg' else ()
                want = m.stop(E, a)
                call = lambda: n.stop_training(*a)
            elif op in ('execute', '__call__', 'execute_arg'):
                a = ('ex%d' % i,) if op == 'execute_arg' else ()
                fresh = m.P and m.p == 0 and not m.started
                want = m.execute(E, a)
                if want is None or fresh:
                    m.dims = True
                call = (lambda: n(x, *a)) if op == '__call__' else \
                    (lambda: n.execute(x, *a))
            elif op == 'inverse':
                want = m.inverse(E)
                call = lambda: n.inverse(x)
            elif op == 'copy':
                c = n.copy()
                c.log = list(n.log)
                old = (n, list(n.log), m.p, m.started)
                n = c
                call = None
            S.same(len(n._train_seq), P, 'phases')
            if call is not None:
                try:
                    r = call()
                    got = None
                except mdp.NodeException as e:
                    got = type(e)
                if want is None:
                    S.check(got is None, '%s is accepted in this state' % op)
                    if op in ('execute', '__call__', 'execute_arg',
                              'inverse') and got is None:
                        S.check(r.shape[0] == rows, 'rows of the result')
                        S.check(r.shape[1] == cols, 'columns of the result')
                else:
                    S.check(got is want, '%s is refused in this state with '
                            'the documented exception' % op)
            # observable state
            S.check(bool(n.is_training()) == (not m.done), 'is_training')
            if P:
                S.check(n.get_current_train_phase() == m.p, 'current phase')
            S.check(n.get_remaining_train_phase() == max(0, P - m.p),
                    'remaining phases')
            S.check(n.has_multiple_training_phases() == (P > 1),
                    'multiple phases')
            got_log = [(e[0], e[1], e[3]) if e[0] == 'train' else e
                       for e in n.log]
            S.check(got_log == m.log, 'exactly the right phase functions ran,'
                    ' in order')
            if old is not None:
                on, ol, op_, os_ = old
                S.check([e for e in on.log] == ol and (
                    P == 0 or on.get_current_train_phase() == op_),
                    'the original is not affected by its copy')
        S.reach('end')
    return f


def harnesses(tier):
    L = 5 if tier == 'quick' else 6
    base = ['train', 'stop_training', 'execute', 'inverse']
    hs = []
    for P in (0, 1, 2, 3):
        for inv in (True, False):
            if not inv and P in (0, 3) and tier == 'quick':
                continue
            for fst in (base if P == 3 or tier != 'quick' else [None]):
                hs.append(H('hist/P%d%s%s' % (P, 'i' if inv else '',
                                              '/' + fst if fst else ''),
                            hist(P, inv, L if P < 3 else L + 1, base,
                                 [fst] if fst else None),
                            reach=['end'], max_paths=60000, validate=30,
                            weight=P))
    hs.append(H('args/P2', hist(2, True, 4, ['train_arg', 'stop_arg',
                                             'execute_arg', '__call__']),
                reach=['end'], validate=30))
    for P in (1, 2):
        hs.append(H('refused/P%d' % P, hist(
            P, True, 4 if tier == 'quick' else 5,
            ['train', 'stop_training', 'execute', 'train_refused',
             'stop_failing']), reach=['end'], validate=30))
    hs.append(H('copy/P2', hist(2, True, 4 if tier == 'quick' else 5,
                                ['train', 'stop_training', 'execute',
                                 'copy']), reach=['end'], validate=30))
    return hs
