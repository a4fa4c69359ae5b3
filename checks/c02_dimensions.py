"""C02: dimensions and numeric type of a node are fixed once, never silently
changed, and every array that contradicts them is refused."""
import numpy as np

from symx import lib

BOUNDS = ('<=3 (quick) / 4 (thorough) public calls; ranks 1..3, row and column'
          ' counts and constructor dimensions are symbolic integers 0..40; '
          'dtypes float32/float64/int64')


def H(name, fn, **o):
    return (name, fn, o)


def mknode(kind, invertible=True):
    import mdp
    base = mdp.PreserveDimNode if kind == 'preserve' else mdp.Node

    class D(base):
        seen = None

        @staticmethod
        def is_trainable():
            return kind in ('train', 'preserve_train')

        def _train(self, x):
            self.seen.append(('train', x.dtype, x.shape[1]))

        def _execute(self, x):
            self.seen.append(('exec', x.dtype, x.shape[1]))
            return x

        def _inverse(self, y):
            self.seen.append(('inv', y.dtype, y.shape[1]))
            return y
    return D


FLOATS = ('float32', 'float64')


def hist(kind, L, ops, ctor):
    """ctor: which constructor arguments are given"""
    def f(S):
        import mdp
        cls = mknode(kind)
        ex = mdp.NodeException
        pres = kind == 'preserve'
        i0 = S.int('ctor_in', 1, 40) if 'i' in ctor else None
        o0 = S.int('ctor_out', 1, 40) if 'o' in ctor else None
        d0 = S.choose('ctor_dtype', FLOATS) if 'd' in ctor else None
        try:
            n = cls(input_dim=i0, output_dim=o0, dtype=d0)
        except ex as e:
            S.check(pres and i0 is not None and o0 is not None,
                    'constructor refuses only contradicting dimensions')
            S.check(i0 != o0, 'constructor refuses contradiction')
            S.check(isinstance(e, mdp.InconsistentDimException),
                    'inconsistent dimension exception')
            S.reach('ctor refused')
            return
        n.seen = []
        ind, outd, dt = i0, o0, (np.dtype(d0) if d0 else None)
        if pres and (ind is not None or outd is not None):
            if ind is not None and outd is not None:
                S.check(ind == outd, 'dimension-preserving')
            ind = outd = ind if ind is not None else outd
        started = False
        for k in range(L):
            op = S.choose('op%d' % k, ops)
            S.log(op)
            nseen = len(n.seen)
            S.check(_same(n.input_dim, ind), 'input dimension as fixed')
            S.check(_same(n.output_dim, outd), 'output dimension as fixed')
            S.check(n.dtype == dt, 'dtype as fixed')
            if op in ('set_in', 'set_out'):
                v = S.int('dim%d' % k, 1, 40)
                cur = ind if op == 'set_in' else outd
                try:
                    if op == 'set_in':
                        n.input_dim = v
                    else:
                        n.set_output_dim(v)
                    ok = True
                except mdp.InconsistentDimException:
                    ok = False
                if cur is None:
                    S.check(ok, 'first assignment accepted')
                else:
                    S.check((v == cur) if ok else (v != cur),
                            're-assignment refused iff different')
                if ok:
                    if op == 'set_in' or pres:
                        ind = v
                    if op == 'set_out' or pres:
                        outd = v
                S.reach('set')
                continue
            if op == 'set_dtype':
                t = S.choose('t%d' % k, FLOATS + ('int64',))
                try:
                    n.dtype = t
                    ok = True
                except ex:
                    ok = False
                S.check(ok == (t in FLOATS and (dt is None or dt == t)),
                        'dtype can be set once, to a supported type')
                if ok:
                    dt = np.dtype(t)
                continue
            r = S.int('rank%d' % k, 1, 3)
            rank = int(r)
            shape = tuple(S.int('s%d_%d' % (k, j), 0, 40)
                          for j in range(rank))
            xt = S.choose('xt%d' % k, FLOATS + ('int64',))
            x = lib.shaped(S, shape, xt)
            # specification of acceptance
            if op == 'inverse':
                skip_out = outd is None and ind is None
                if outd is None and ind is not None:
                    # an unfixed output dimension becomes the input dimension
                    outd_after = ind
                else:
                    outd_after = outd
            try:
                y = getattr(n, op)(x)
                ok = True
            except ex:
                ok = False
            S.check(len(n.seen) == nseen if not ok else True,
                    'a refused array never reaches the algorithm')
            if op == 'inverse':
                if skip_out:
                    S.check(not ok, 'inversion needs known dimensions')
                    outd = outd
                    continue
                good = S.all([rank == 2, (shape[1] == outd_after)
                              if rank == 2 else False])
                S.check(good if ok else S.np.logical_not(good),
                        'inverse accepts exactly arrays of rank two and '
                        'output dimension')
                outd = outd_after
                # the contents are cast to the node type
                if ok:
                    S.check(n.seen[-1][0] == 'inv' and (
                        dt is None or n.seen[-1][1] == dt),
                        'data are cast to the node dtype')
                    S.reach('inv')
                continue
            if rank != 2:
                S.check(not ok, 'arrays that are not rank two are refused')
                continue
            T, c = shape
            dim_before = ind
            if ind is None:
                ind_after = c
            else:
                ind_after = ind
            supported = dt is not None or xt in FLOATS
            good = S.all([supported, c == ind_after, T > 0])
            # bookkeeping: a first, well-formed array fixes the dimensions
            if pres and outd is not None and ind is None:
                good = S.all([good, c == outd])
            S.check(good if ok else S.np.logical_not(good),
                    '%s accepts exactly non-empty rank-two arrays of the '
                    'input dimension' % op)
            if not ok:
                # a refused array may have fixed so far unknown attributes,
                # never changed known ones
                if dim_before is not None:
                    S.check(_same(n.input_dim, dim_before),
                            'input dimension unchanged by refused array')
                if dt is not None:
                    S.check(n.dtype == dt, 'dtype unchanged')
                ind, outd, dt = n.input_dim, n.output_dim, n.dtype
                continue
            ind = c if ind is None else ind
            if dt is None:
                dt = np.dtype(xt)
            if pres:
                outd = ind
            if op == 'execute':
                if outd is None:
                    outd = ind
                S.check(n.seen[-1][0] == 'exec', 'executed')
                S.check(y.shape[0] == T, 'one output row per input row')
                S.reach('exec')
            S.check(n.seen[-1][1] == dt, 'data are cast to the node dtype')
            S.check(n.seen[-1][2] == ind, 'the algorithm sees the data')
        S.check(_same(n.input_dim, ind), 'input dimension as fixed')
        S.check(_same(n.output_dim, outd), 'output dimension as fixed')
        S.check(n.dtype == dt, 'dtype as fixed')
    return f


def _same(a, b):
    if a is None or b is None:
        return a is b
    return a == b


def harnesses(tier):
    hs = []
    L = 2 if tier == 'quick' else 3
    for kind in ('plain', 'preserve', 'train'):
        data = ['execute', 'inverse'] if kind != 'train' else ['train']
        for ctor in ('', 'i', 'o', 'io', 'd', 'iod'):
            if tier == 'quick' and ctor in ('d',) and kind != 'plain':
                continue
            hs.append(H('%s/%s' % (kind, ctor or 'none'),
                        hist(kind, L, data + ['set_in', 'set_out',
                                              'set_dtype'], ctor),
                        max_paths=40000, validate=25, reach=['set'],
                        weight=2))
        hs.append(H('%s/data' % kind, hist(kind, L, data, 'd'),
                    max_paths=60000, validate=25, weight=3,
                    reach=['exec'] if kind != 'train' else []))
    return hs
