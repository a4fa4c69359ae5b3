"""C17: time embedding nodes place exactly the documented samples."""
from symx import lib

BOUNDS = ('time_frames<=4, gap<=3 (thorough: 5, 4), signals of <=8 (10) '
          'samples, <=2 variables, all real or integer values')


def H(name, fn, **o):
    return (name, fn, o)


def frames_h(T, n, FR, G, dtype):
    def f(S):
        import mdp
        x = S.array('x', (T, n), dtype=dtype)
        fr = S.choose('frames', list(range(1, FR + 1)))
        g = S.choose('gap', list(range(1, G + 1)))
        node = mdp.nodes.TimeFramesNode(fr, gap=g)
        tf = T - (fr - 1) * g
        if tf < 0:
            return
        y = node.execute(x)
        S.check(node.output_dim == fr * n, 'output dimension')
        S.check(tuple(y.shape) == (tf, fr * n), 'length')
        S.check(lib.dtype_of(y) == lib.dtype_of(x), 'dtype')
        for t in range(tf):
            for k in range(fr):
                for v in range(n):
                    S.eq(y[t, k * n + v], x[t + k * g, v], 'embedded sample')
        S.reach('frames')
        # the pseudo-inverse puts every sample back
        seen = set(t + k * g for t in range(tf) for k in range(fr))
        if tf:
            if len(seen) == T:
                S.reach('inverse')
            y0 = y.copy()
            z = node.pseudo_inverse(y)
            S.check(tuple(z.shape) == (T, n), 'length of the signal')
            S.check(lib.dtype_of(z) == lib.dtype_of(x), 'dtype')
            for t in range(T):
                for v in range(n):
                    S.eq(z[t, v], x[t, v] if t in seen else 0,
                         'pseudo-inverse of an embedding')
            S.eq(y, y0, 'pseudo-inverse leaves its input alone')
    return f


def delay_h(T, n, FR, G, dtype):
    def f(S):
        import mdp
        x = S.array('x', (T, n), dtype=dtype)
        fr = S.choose('frames', list(range(1, FR + 1)))
        g = S.choose('gap', list(range(1, G + 1)))
        TT = S.choose('T', list(range(1, T + 1)))
        x = x[:TT]
        node = mdp.nodes.TimeDelayNode(fr, gap=g)
        y = node.execute(x)
        S.check(tuple(y.shape) == (TT, fr * n), 'shape')
        S.check(lib.dtype_of(y) == lib.dtype_of(x), 'dtype')
        for t in range(TT):
            for k in range(fr):
                for v in range(n):
                    src = t - k * g
                    S.eq(y[t, k * n + v], x[src, v] if src >= 0 else 0,
                         'delayed sample')
        S.reach('end')
    return f


def sliding_h(T, n, FR, G, dtype):
    """fed one observation at a time, the sliding window gives the rows of
    the time delay embedding"""
    def f(S):
        import mdp
        x = S.array('x', (T, n), dtype=dtype)
        x0 = x.copy()
        fr = S.choose('frames', list(range(1, FR + 1)))
        g = S.choose('gap', list(range(1, G + 1)))
        node = mdp.nodes.TimeDelaySlidingWindowNode(fr, gap=g)
        outs = []
        for t in range(T):
            y = node.execute(x[t:t + 1])
            S.check(tuple(y.shape) == (1, fr * n), 'shape')
            outs.append(y)
        for t in range(T):
            y = outs[t]
            for k in range(fr):
                for v in range(n):
                    src = t - k * g
                    S.eq(y[0, k * n + v], x[src, v] if src >= 0 else 0,
                         'windowed sample')
        S.eq(x, x0, 'input unchanged')
        S.reach('end')
    return f


def harnesses(tier):
    q = tier == 'quick'
    FR, G = (4, 3) if q else (5, 4)
    hs = []
    for T, n, dt in [(8, 2, 'd'), (6, 1, 'd'), (5, 2, 'l')] + (
            [] if q else [(10, 2, 'd'), (7, 3, 'd')]):
        hs.append(H('frames/%d,%d,%s' % (T, n, dt), frames_h(T, n, FR, G, dt),
                    reach=['frames', 'inverse']))
    for T, n, dt in [(7, 2, 'd'), (4, 2, 'l')] + (
            [] if q else [(10, 2, 'd')]):
        hs.append(H('delay/%d,%d,%s' % (T, n, dt), delay_h(T, n, FR, G, dt),
                    reach=['end']))
    for T, n, dt in [(7, 1, 'd'), (6, 2, 'l')] + (
            [] if q else [(10, 2, 'd')]):
        hs.append(H('sliding/%d,%d,%s' % (T, n, dt),
                    sliding_h(T, n, FR, G, dt), reach=['end']))
    return hs
