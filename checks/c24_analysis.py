"""C24: analysis and clipping nodes report what their definitions say."""
from fractions import Fraction

from symx import lib
from symx.lib import A

BOUNDS = ('<=6 samples of <=2 variables in <=3 chunks, all real values below '
          'the largest float; hit parades of <=3 hits with gap <=3')


def H(name, fn, **o):
    return (name, fn, o)


def hits_h(T, n, d, kmax, distinct=True):
    def f(S):
        import mdp
        import numpy
        x = S.array('x', (T, 1), lo=-1000, hi=1000)
        S.assume(S.all([x[i, 0] != x[j, 0] for i in range(T)
                        for j in range(i)]))
        sizes = S.choose('sizes', lib.splits(T, kmax))
        node = mdp.nodes.HitParadeNode(n, d=d)
        for ch in lib.chunks(x, sizes):
            node.train(ch)
        M, iM = node.get_maxima()
        m, im = node.get_minima()
        S.check(tuple(M.shape) == (n, 1) and tuple(m.shape) == (n, 1),
                'shapes')
        for sign, V, I, what in ((1, M, iM, 'maximum'), (-1, m, im,
                                                         'minimum')):
            idx = []
            for k in range(n):
                v = V[k, 0]
                # unused entries hold the extreme float of the other side
                if bool(sign * v < -2000):
                    continue
                i = int(I[k, 0])
                S.check(0 <= i < T, 'index of a hit')
                S.eq(v, x[i, 0], 'value of the %s at its index' % what)
                idx.append(i)
                if k:
                    S.le(sign * v, sign * V[k - 1, 0], 'hits are sorted')
            S.check(len(idx) >= 1, 'there is a hit')
            for p in range(len(idx)):
                for q in range(p):
                    S.check(abs(idx[p] - idx[q]) > d,
                            'hits are separated by more than the gap')
            for t in range(T):
                S.le(sign * x[t, 0], sign * V[0, 0],
                     'the global %s is the first hit' % what)
            # room for a hit is used
            if n > 1 and len(idx) < n:
                S.reach('free')
        S.reach('end')
    return f


def hits_exact_h(T, n, d):
    """maxima that nothing competes with are all reported"""
    def f(S):
        import mdp
        x = S.array('x', (T, 2), lo=-1000, hi=1000)
        S.assume(S.all([x[i, v] != x[j, v] for i in range(T)
                        for j in range(i) for v in range(2)]))
        node = mdp.nodes.HitParadeNode(n, d=d)
        node.train(x)
        a = mdp.nodes.HitParadeNode(n, d=d)
        a.train(-x)
        M, iM = node.get_maxima()
        m, im = a.get_minima()
        S.eq(M, -m, 'minima of the negative are the maxima')
        S.eq(iM, im, 'at the same indices')
        S.reach('end')
    return f


def cutoff_h(lo, hi, dtype):
    def f(S):
        import mdp
        x = S.array('x', (2, 2), dtype=dtype)
        a = (S.real('lo') if dtype == 'd' else S.int('lo')) if lo else None
        b = (S.real('hi') if dtype == 'd' else S.int('hi')) if hi else None
        if lo and hi:
            S.assume(a <= b)
        node = mdp.nodes.CutoffNode(a, b)
        y = node.execute(x)
        S.check(tuple(y.shape) == (2, 2), 'shape')
        for t in range(2):
            for v in range(2):
                if lo:
                    S.le(a, y[t, v], 'at least the lower bound')
                if hi:
                    S.le(y[t, v], b, 'at most the upper bound')
                inside = S.all(([x[t, v] >= a] if lo else []) +
                               ([x[t, v] <= b] if hi else []))
                S.check(S.implies(inside, y[t, v] == x[t, v]),
                        'values inside are kept')
                if lo:
                    S.check(S.implies(x[t, v] < a, y[t, v] == a),
                            'clipped to the lower bound')
                if hi:
                    S.check(S.implies(x[t, v] > b, y[t, v] == b),
                            'clipped to the upper bound')
        S.reach('end')
    return f


def adaptive_h(T, kmax, n):
    def f(S):
        import mdp
        x = S.array('x', (T, n))
        fl = S.choose('lower', [None, 0.25, 0.5])
        fu = S.choose('upper', [None, 0.25, 0.5])
        sizes = S.choose('sizes', lib.splits(T, kmax))
        node = mdp.nodes.AdaptiveCutoffNode(fl, fu)
        for ch in lib.chunks(x, sizes):
            b = ch.copy()
            node.train(b)
            S.eq(b, ch, 'training data unchanged')
            b[:] = 7            # the buffer is reused
        node.stop_training()
        S.eq(node.data_hist, x, 'the histogram holds the training data')
        y = node.execute(x)
        for v in range(n):
            col = [x[t, v] for t in range(T)]
            srt = _sorted(S, col)
            lo = srt[int(fl * T)] if fl else None
            hi = srt[int(T - fu * T)] if fu else None
            for t in range(T):
                want = x[t, v]
                if lo is not None:
                    want = _ite(S, want >= lo, want, lo)
                if hi is not None:
                    want = _ite(S, want <= hi, want, hi)
                S.eq(y[t, v], want, 'clipped at the quantile')
            # the stated fraction of the training data lies beyond
            if fl:
                S.check(_count(S, [c < lo for c in col]) <= int(fl * T),
                        'at most the lower fraction is clipped')
        S.reach('end')
    return f


def _ite(S, c, a, b):
    if S.sym:
        from symx.core import ite
        return ite(c, a, b)
    return a if c else b


def _count(S, bs):
    k = 0
    for b in bs:
        k = k + _ite(S, b, 1, 0)
    return k


def _sorted(S, xs):
    """sorting network"""
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            c = a <= b
            xs[j], xs[j + 1] = _ite(S, c, a, b), _ite(S, c, b, a)
    return xs


def hist_h(T, dtype):
    def f(S):
        import mdp
        x = S.array('x', (T, 2), dtype=dtype)
        sizes = S.choose('sizes', lib.splits(T, 3))
        node = mdp.nodes.HistogramNode()
        for ch in lib.chunks(x, sizes):
            node.train(ch)
        node.stop_training()
        S.eq(node.data_hist, x, 'history is the training data in order')
        z = S.array('z', (1, 2), dtype=dtype)
        S.eq(node.execute(z), z, 'execution is the identity')
        S.reach('end')
    return f


def fraction_h(T, kmax):
    """a random part of the data, every sample with the given probability"""
    def f(S):
        import mdp
        import numpy
        from symx import arr
        if not S.sym:
            for k in ('random', 'random_sample', 'rand', 'uniform'):
                S.patch(numpy.random, k, getattr(arr.RAND_SHIM, k))
        x = S.array('x', (T, 2))
        sizes = S.choose('sizes', lib.splits(T, kmax))
        q = S.real('fraction', lo=0, hi=2)
        node = mdp.nodes.HistogramNode(hist_fraction=q)
        S.draws = []
        for ch in lib.chunks(x, sizes):
            node.train(ch)
        node.stop_training()
        us = [u[i] for k, u in S.draws for i in range(len(u))]
        if bool(q >= 1):
            S.eq(node.data_hist, x, 'history is the training data in order')
            S.reach('all')
            return
        S.check(len(us) == T, 'one draw for every sample')
        keep = [t for t in range(T) if bool(us[t] < q)]
        S.check(tuple(node.data_hist.shape) == (len(keep), 2), 'samples kept')
        for i, t in enumerate(keep):
            S.eq(node.data_hist[i], x[t], 'samples kept in order')
        S.reach('part')
    return f


def hist_file_h(T):
    """with a file name the history goes to the file and is cleared"""
    def f(S):
        import mdp
        import os
        import pickle
        import shutil
        import tempfile
        d = tempfile.mkdtemp()
        S.add_cleanup(lambda: shutil.rmtree(d))
        fn = os.path.join(d, 'h')
        x = S.array('x', (T, 1))
        node = mdp.nodes.HistogramNode(hist_filename=fn)
        node.train(x[:1])
        node.train(x[1:])
        node.stop_training()
        S.check(node.data_hist is None, 'history cleared')
        with open(fn, 'rb') as h:
            S.eq(pickle.load(h), x, 'history in the file')
        S.reach('end')
    return f


def eta_h(T, n, kmax):
    def f(S):
        import mdp
        import math
        x = S.array('x', (T, n))
        sizes = S.choose('sizes', lib.splits(T, kmax, 2))
        t = S.int('t', 1, 5) if S.choose('whole', [1, 0]) else \
            S.real('t', lo=Fraction(1, 10), hi=9)
        node = mdp.nodes.EtaComputerNode()
        pts, dif = [], []
        for ch in lib.chunks(x, sizes):
            r = lib.rows(ch)
            pts += r[:-1]
            dif += [[b - a for a, b in zip(r[i], r[i + 1])]
                    for i in range(len(r) - 1)]
            node.train(ch)
        N = len(pts)
        if N < 2:
            return
        mean = lib.mean(pts)
        var = [lib.ssum((p[v] - mean[v]) * (p[v] - mean[v]) for p in pts) /
               (N - 1) for v in range(n)]
        for v in range(n):
            S.assume(var[v] > 0)
        eta = node.get_eta(t=t)
        S.check(tuple(eta.shape) == (n,), 'shape')
        for v in range(n):
            delta = lib.ssum(d[v] * d[v] for d in dif) / N / var[v]
            # eta = t/(2 pi) sqrt(delta)
            e = eta[v] * (2 * math.pi) / t
            S.eq(e * e, delta, 'eta is t/(2 pi) sqrt(delta)')
            S.le(0, eta[v], 'eta is not negative')
        z = S.array('z', (1, n))
        S.eq(node.execute(z), z, 'execution is the identity')
        S.reach('end')
    return f


def noise_h(kind):
    def f(S):
        import mdp
        x = S.array('x', (2, 2))
        noise = S.array('noise', (2, 2))
        seen = []

        def func(a, b, size=None):
            seen.append((a, b, tuple(size)))
            return noise
        x0 = x.copy()
        node = mdp.nodes.NoiseNode(noise_func=func, noise_args=(3, 4),
                                   noise_type=kind)
        y = node.execute(x)
        S.check(seen == [(3, 4, (2, 2))], 'noise drawn with the arguments '
                'and the shape of the data')
        S.eq(y, x + noise if kind == 'additive' else x * (1 + noise),
             'noise applied')
        S.eq(x, x0, 'input unchanged')
        S.must_raise(mdp.NodeException, 'unknown kind of noise refused',
                     mdp.nodes.NoiseNode, noise_type='other')
        S.reach('end')
    return f


def normal_noise_h():
    def f(S):
        import mdp
        import mdp.nodes.misc_nodes as mod
        x = S.array('x', (2, 2))
        draw = S.array('draw', (2, 2))
        mean, dev = S.real('mean'), S.real('dev', lo=0)

        class R(object):
            @staticmethod
            def normal(loc=0.0, scale=1.0, size=None):
                S.check(tuple(size) == (2, 2), 'shape of the noise')
                return draw * scale + loc
        S.patch(mdp, 'numx_rand', R)
        node = mdp.nodes.NormalNoiseNode(noise_args=(mean, dev))
        S.eq(node.execute(x), x + draw * dev + mean,
             'gaussian noise with the given mean and deviation')
        S.reach('end')
    return f


def identity_h():
    def f(S):
        import mdp
        dt = S.choose('dtype', ['d', 'l'])
        x = S.array('x', (2, 2), dtype=dt)
        node = mdp.nodes.IdentityNode()
        S.eq(node.execute(x), x, 'identity')
        S.eq(node.inverse(x), x, 'inverse of the identity')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    hs = []
    for T, n, d, k in [(4, 1, 1, 2), (4, 2, 1, 2), (5, 2, 2, 1), (4, 3, 1, 1),
                       (4, 2, 2, 2), (4, 1, 3, 3)
                       ] + ([] if q else [(5, 2, 1, 3), (6, 2, 2, 1),
                                          (5, 3, 1, 2), (6, 3, 3, 1)]):
        hs.append(H('hits/%d,%d,%d' % (T, n, d), hits_h(T, n, d, k),
                    reach=['end'], weight=9, max_paths=60000,
                    budget_s=100 if q else 700))
    hs.append(H('hits/negated', hits_exact_h(3 if q else 4, 2, 1),
                reach=['end'], weight=9))
    for lo in (0, 1):
        for hi in (0, 1):
            hs.append(H('cutoff/%d%d' % (lo, hi), cutoff_h(lo, hi, 'd'),
                        reach=['end']))
    hs.append(H('cutoff/int', cutoff_h(1, 1, 'l'), reach=['end']))
    hs.append(H('adaptive/1', adaptive_h(4, 1 if q else 3, 1),
                reach=['end'], weight=8))
    hs.append(H('adaptive/2', adaptive_h(2 if q else 3, 2, 2),
                reach=['end'], weight=8, budget_s=100 if q else 700))
    if not q:
        hs.append(H('adaptive/5', adaptive_h(5, 1, 1),
                    reach=['end'], weight=8, budget_s=700))
    hs.append(H('histogram', hist_h(4, 'd'), reach=['end']))
    hs.append(H('histogram/int', hist_h(3, 'l'), reach=['end']))
    hs.append(H('histogram/part', fraction_h(3, 2), reach=['all', 'part']))
    hs.append(H('histogram/file', hist_file_h(3), reach=['end']))
    hs.append(H('eta/1', eta_h(5 if q else 7, 1, 2 if q else 3),
                reach=['end'], weight=3))
    hs.append(H('eta/3', eta_h(3, 1, 1), reach=['end']))
    hs.append(H('eta/2', eta_h(4, 2, 1), reach=['end'], weight=3))
    hs.append(H('noise/additive', noise_h('additive'), reach=['end']))
    hs.append(H('noise/multiplicative', noise_h('multiplicative'),
                reach=['end']))
    hs.append(H('noise/normal', normal_noise_h(), reach=['end']))
    hs.append(H('identity', identity_h(), reach=['end']))
    return hs
