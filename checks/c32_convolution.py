"""C32: Convolution2DNode is the two-dimensional convolution it documents."""
import sys

from symx import lib

BOUNDS = ('images up to 3 x 4, up to 3 filters of up to 3 x 2, up to 2 '
          'images, both approaches, all modes and boundaries, all real values '
          '(64 and 32 bit types)')
ASSUMPTIONS = ['scipy.signal.convolve2d and fftconvolve compute the '
               'convolution they document (replaced by its definition)']


def H(name, fn, **o):
    return (name, fn, o)


def pixel(im, i, j, boundary, fill):
    """the image continued over its boundary"""
    h, w = im.shape
    if 0 <= i < h and 0 <= j < w:
        return im[i, j]
    if boundary == 'fill':
        return fill
    if boundary == 'wrap':
        return im[i % h, j % w]
    i, j = i % (2 * h), j % (2 * w)
    return im[i if i < h else 2 * h - 1 - i, j if j < w else 2 * w - 1 - j]


def convolve(S, im, flt, mode, boundary='fill', fill=0):
    h, w = im.shape
    a, b = flt.shape
    if mode == 'full':
        oh, ow, di, dj = h + a - 1, w + b - 1, 0, 0
    elif mode == 'same':
        oh, ow, di, dj = h, w, (a - 1) // 2, (b - 1) // 2
    else:
        oh, ow, di, dj = h - a + 1, w - b + 1, a - 1, b - 1
    res = S.zeros((oh, ow))
    for i in range(oh):
        for j in range(ow):
            res[i, j] = lib.ssum(
                flt[k, l] * pixel(im, i + di - k, j + dj - l, boundary, fill)
                for k in range(a) for l in range(b))
    return res


class Signal(object):
    """scipy.signal by contract"""
    def __init__(self, S):
        self.S = S

    def fftconvolve(self, in1, in2, mode='full', axes=None):
        return convolve(self.S, in1, in2, mode)

    def convolve2d(self, in1, in2, mode='full', boundary='fill', fillvalue=0):
        return convolve(self.S, in1, in2, mode, boundary, fillvalue)

    convolve = fftconvolve

    def __getattr__(self, name):
        raise NotImplementedError('scipy.signal.' + name)


def setup(S):
    m = sys.modules['mdp.nodes.convolution_nodes']
    if S.sym:
        S.patch(m, 'signal', Signal(S))
    return m.Convolution2DNode


def geometry(S, shapes, filters):
    h, w = S.choose('shape', shapes)
    n, a, b = S.choose('filters', filters)
    return h, w, n, a, b


def compare(S, y, x, flts, mode, boundary, fill, flat, oshape):
    n = len(flts)
    oh, ow = oshape
    if flat:
        S.check(tuple(y.shape) == (len(x), n * oh * ow), 'flat shape')
    else:
        S.check(tuple(y.shape) == (len(x), n, oh, ow), 'shape')
    for t in range(len(x)):
        for k in range(n):
            want = convolve(S, x[t], flts[k], mode, boundary, fill)
            S.check(tuple(want.shape) == (oh, ow), 'shape of a result')
            for i in range(oh):
                for j in range(ow):
                    got = y[t, (k * oh + i) * ow + j] if flat else \
                        y[t, k, i, j]
                    S.eq(got, want[i, j], 'convolution')


def oshape(h, w, a, b, mode):
    return {'full': (h + a - 1, w + b - 1), 'same': (h, w),
            'valid': (h - a + 1, w - b + 1)}[mode]


def conv_h(approach, shapes, filters, dtype='float64'):
    def f(S):
        Node = setup(S)
        h, w, n, a, b = geometry(S, shapes, filters)
        mode = S.choose('mode', ['full', 'same', 'valid'])
        flts = S.array('f', (n, a, b), lo=-9, hi=9)
        kw, boundary, fill = {}, 'fill', 0
        if approach == 'linear':
            boundary = S.choose('boundary', ['fill', 'wrap', 'symm', None])
            if boundary:
                kw['boundary'] = boundary
            boundary = boundary or 'fill'
            if boundary == 'fill' and S.choose('value', [0, 1]):
                kw['fillvalue'] = fill = 2.5
        rank, flat, given = S.choose('use', [
            (3, None, 0), (2, False, 1), (3, False, 1), (2, True, 1)])
        if approach == 'fft' and given:
            kw.update(boundary='wrap', fillvalue=3)
        if mode != 'full' or given:
            kw['mode'] = mode
        if flat is not None:
            kw['output_2d'] = flat
        flat = flat is not False
        if given:
            kw['input_shape'] = (h, w)
        if approach == 'linear' or given:
            kw['approach'] = approach
        node = Node(flts, **kw)
        S.check(not node.is_trainable() and not node.is_invertible(), 'kind')
        f0 = flts.copy()
        x = S.array('x', (2, h, w), lo=-9, hi=9, dtype=dtype)
        data = x if rank == 3 else x.reshape((2, h * w))
        d0 = data.copy()
        o = oshape(h, w, a, b, mode)
        y = node.execute(data)
        S.eq(data, d0, 'data unchanged')
        S.eq(flts, f0, 'filters unchanged')
        compare(S, y, x, flts, mode, boundary, fill, flat, o)
        S.check(tuple(node.input_shape) == (h, w) and
                tuple(node.output_shape) == o, 'shapes')
        S.check(node.input_dim == h * w and node.output_dim == n * o[0] * o[1],
                'dimensions')
        S.check(lib.dtype_of(y) == dtype == str(node.dtype), 'dtype')
        # every image for itself, and again
        z = node.execute(data[1:])
        S.eq(z[0], y[1], 'one image')
        other = node.copy().execute(x if rank == 2 else x.reshape((2, h * w)))
        S.eq(other, y, 'flat or not, the data are the same')
        S.reach(mode)
    return f


def change_h():
    """properties can be changed between executions"""
    def f(S):
        Node = setup(S)
        mode = S.choose('mode', ['full', 'same', 'valid'])
        f1, f2 = S.array('f', (2, 2, 2)), S.array('g', (2, 2, 2))
        node = Node(f1, approach='linear', mode=mode, output_2d=False)
        x = S.array('x', (1, 2, 3))
        o = oshape(2, 3, 2, 2, mode)
        if S.choose('used', [0, 1]):
            compare(S, node.execute(x), x, f1, mode, 'fill', 0, False, o)
        node.filters = f2
        S.check(node.filters is f2, 'filters')
        node.boundary = S.choose('boundary', ['fill', 'wrap', 'symm'])
        node.fillvalue = S.real('v')
        compare(S, node.execute(x), x, f2, mode, node.boundary,
                node.fillvalue, False, o)
        node.output_2d = True
        compare(S, node.execute(x), x, f2, mode, node.boundary,
                node.fillvalue, True, o)
        S.reach('end')
    return f


def refuse_h():
    def f(S):
        import mdp
        E = mdp.NodeException
        Node = setup(S)
        flts = S.array('f', (1, 2, 2))
        for bad in (flts[0], flts[None], [[[1.]]], 3.):
            S.must_raise(E, 'filters', Node, bad)
        for kw in ({'approach': 'FFT'}, {'approach': None}, {'mode': 'Same'},
                   {'mode': None}, {'boundary': 'symmetric'},
                   {'boundary': None}):
            S.must_raise(E, 'argument', Node, flts, **kw)
        node = Node(flts, approach=S.choose('approach', ['fft', 'linear']))
        for k, v in (('filters', flts[0]), ('boundary', 'none')):
            S.must_raise(E, 'property', setattr, node, k, v)
        S.check(node.filters is flts and node.boundary == 'fill', 'kept')
        x = S.array('x', (2, 2, 3))
        S.must_raise(E, 'no shape', node.execute, x.reshape((2, 6)))
        S.must_raise(E, 'rank', node.execute, x[0, 0])
        S.must_raise(E, 'rank', node.execute, x[None])
        S.must_raise(E, 'shape', Node(flts, input_dim=5).execute, x)
        node = Node(flts, **S.choose('given', [
            {}, {'input_shape': (2, 3)}, {'input_shape': (2, 3),
                                          'input_dim': 6}]))
        y = node.execute(x)
        for bad in (S.zeros((2, 5)), S.zeros((1, 2, 2)), S.zeros((1, 3, 3))):
            S.must_raise(E, 'dimension', node.execute, bad)
        S.must_raise(Exception, 'images of another shape', node.execute,
                     S.array('z', (2, 3, 2)))
        S.check(tuple(node.input_shape) == (2, 3), 'input shape')
        S.eq(node.execute(x.reshape((2, 6))), y, 'as before')
        S.must_raise(E, 'no data', node.execute, x[:0])
        S.eq(node.execute(x), y, 'as before')
        S.must_raise(E, 'not trainable', node.train, x)
        S.must_raise(E, 'not invertible', node.inverse, y)
        S.reach('end')
    return f


def harnesses(tier):
    # (with numpy as numerical backend mdp.nodes does not list it)
    import mdp.nodes.convolution_nodes
    quick = tier == 'quick'
    R = ['full', 'same', 'valid']
    small = [(2, 3), (3, 2)] if quick else [(2, 3), (3, 2), (3, 4), (1, 3),
                                            (4, 4)]
    fl = [(2, 2, 2), (1, 1, 2), (3, 2, 1)] if quick else \
        [(2, 2, 2), (1, 1, 2), (3, 2, 1), (1, 1, 1), (2, 1, 3)]
    hs = []
    for ap in ('fft', 'linear'):
        hs.append(H(ap, conv_h(ap, small, fl), reach=R, max_paths=20000))
        hs.append(H(ap + '/32', conv_h(ap, [(2, 2)], [(1, 2, 1)], 'float32'),
                    reach=R, max_paths=20000, tolscale=1e4))
        hs.append(H(ap + '/3', conv_h(ap, [(3, 4)], [(1, 3, 2)]), reach=R,
                    max_paths=20000))
    hs += [H('change', change_h(), reach=['end']),
           H('refuse', refuse_h(), reach=['end'])]
    return hs
