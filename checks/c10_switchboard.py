"""C10: switchboards route every connection where their geometry says."""
from symx import lib
from symx.lib import A

BOUNDS = ('general switchboards of up to 4 inputs and 4 connections (every '
          'connection list); 2-D switchboards of up to 8x8 channels of '
          'dimension 1-2 (every field size and spacing); all data')


def H(name, fn, **o):
    return (name, fn, o)


def general_h(n, k, cls='Switchboard', np_con=False):
    def f(S):
        import mdp
        con = [int(S.int('c%d' % i, -1, n)) for i in range(k)]
        C = getattr(mdp.hinet, cls)
        if any(c < 0 or c >= n for c in con):
            S.must_raise(mdp.hinet.SwitchboardException, 'connections '
                         'outside of the input are refused', C, n, con)
            S.reach('refused')
            return
        sb = C(n, con)
        S.check(sb.input_dim == n and sb.output_dim == k, 'dimensions')
        x = S.array('x', (2, n))
        x0 = x.copy()
        y = sb.execute(x)
        S.eq(y, A(S, [[x0[t, c] for c in con] for t in range(2)]),
             'every output is its connected input')
        S.eq(x, x0, 'input unchanged')
        perm = sorted(con) == list(range(n))
        z = S.array('z', (2, k))
        if cls == 'MeanInverseSwitchboard':
            S.check(bool(sb.is_invertible()), 'always invertible')
            w = sb.inverse(z)
            S.check(tuple(w.shape) == (2, n), 'shape of the inverse')
            for t in range(2):
                for i in range(n):
                    v = [z[t, j] for j in range(k) if con[j] == i]
                    S.eq(w[t, i], lib.ssum(v) / len(v) if v else 0,
                         'mean of the connected outputs')
            zi = S.array('zi', (1, k), dtype='int64', lo=-9, hi=9)
            w = sb.inverse(zi)
            for i in range(n):
                v = [zi[0, j] * 1 for j in range(k) if con[j] == i]
                if v:
                    S.eq(len(v) * w[0, i], lib.ssum(v),
                         'mean of integer outputs')
            S.reach('mean')
            return
        S.check(bool(sb.is_invertible()) == perm, 'invertible exactly for a '
                'permutation')
        if perm:
            S.eq(sb.inverse(y), x0, 'inverse undoes execute')
            S.eq(sb.execute(sb.inverse(z)), z, 'execute undoes inverse')
            S.reach('perm')
        else:
            S.must_raise(mdp.IsNotInvertibleException, 'no inverse',
                         sb.inverse, z)
            S.reach('noperm')
    return f


def empty_h():
    def f(S):
        import mdp
        S.must_raise(mdp.hinet.SwitchboardException, 'empty connections',
                     mdp.hinet.Switchboard, 3, [])
        S.reach('end')
    return f


def channel_checks(S, sb, fields, cd, in_channels, x, bi=False):
    """fields: per output channel the list of its input channels"""
    import mdp
    con = [ch * cd + j for fl in fields for ch in fl for j in range(cd)]
    ocd = len(fields[0]) * cd
    S.check([int(c) for c in sb.connections] == con, 'connections')
    S.check(sb.output_dim == len(con), 'output dimension')
    S.check(sb.input_dim == in_channels * cd, 'input dimension')
    S.check(sb.output_channels == len(fields), 'number of output channels')
    S.check(sb.input_channels == in_channels, 'number of input channels')
    S.check(sb.out_channel_dim == ocd, 'output channel dimension')
    S.check(sb.in_channel_dim == cd, 'input channel dimension')
    if x is not None:
        y = sb.execute(x)
        S.eq(y, x[:, con], 'routing')
    for k in {0, len(fields) - 1, len(fields) // 2}:
        part = con[k * ocd:(k + 1) * ocd]
        S.check([int(c) for c in sb.get_out_channel_input(k)] == part,
                'inputs of an output channel')
        if x is not None:
            S.eq(sb.get_out_channel_node(k).execute(x), x[:, part],
                 'node of an output channel')
        S.check([int(c) for c in sb.get_out_channels_input_channels(k)] ==
                sorted(set(fields[k])), 'input channels of an output channel')
    some = list(range(0, len(fields), 2))
    S.check([int(c) for c in sb.get_out_channels_input_channels(some)] ==
            sorted(set(c for k in some for c in fields[k])),
            'input channels of several output channels')


def channel_h():
    def f(S):
        import mdp
        cd = int(S.int('cd', 1, 2))
        ocd = int(S.int('ocd', 1, 3))
        con = S.choose('con', [[0, 1, 2, 3], [3, 2, 1, 0, 0, 1],
                               [0, 1, 0, 1, 2, 3], [2, 3, 0, 1]])
        nin = S.choose('nin', [4, 5])
        if S.choose('one', [False, True]):
            nin, con = 1, [0] * len(con)
        try:
            sb = mdp.hinet.ChannelSwitchboard(nin, con, ocd, cd)
        except mdp.hinet.SwitchboardException:
            S.check(len(con) % ocd != 0 or nin % cd != 0,
                    'accepted when channels fit')
            S.reach('refused')
            return
        S.check(len(con) % ocd == 0 and nin % cd == 0,
                'refused when channels do not fit')
        S.check(sb.output_channels == len(con) // ocd and
                sb.input_channels == nin // cd, 'number of channels')
        for k in range(sb.output_channels):
            part = con[k * ocd:(k + 1) * ocd]
            S.check([int(c) for c in sb.get_out_channel_input(k)] == part,
                    'inputs of an output channel')
            S.check([int(c) for c in sb.get_out_channels_input_channels(k)]
                    == sorted(set(c // cd for c in part)),
                    'input channels of an output channel')
        S.reach('ok')
    return f


def rect_fields(nx, ny, fx, fy, sx, sy):
    ox, oy = (nx - fx) // sx + 1, (ny - fy) // sy + 1
    return (ox, oy), [[(oyi * sy + j) * nx + oxi * sx + i
                       for j in range(fy) for i in range(fx)]
                      for oyi in range(oy) for oxi in range(ox)]


def rect_h(N, form):
    def f(S):
        import mdp
        nx = int(S.int('nx', 1, N))
        ny = nx if form == 'int' else int(S.int('ny', 1, N))
        fx = int(S.int('fx', 1, 3))
        fy = fx if form == 'int' else int(S.int('fy', 1, 3))
        sx = int(S.int('sx', 1, 3))
        sy = sx if form == 'int' else int(S.int('sy', 1, 3))
        cd = int(S.int('cd', 1, 2)) if form == 'int' else 1 + nx % 2
        ign = S.choose('ign', [False, True])
        mk = {'int': lambda a, b: a, 'tuple': lambda a, b: (a, b),
              'list': lambda a, b: [a, b]}[form]
        fit = fx <= nx and fy <= ny
        cover = fit and (nx - fx) % sx == 0 and (ny - fy) % sy == 0
        args = (mk(nx, ny), mk(fx, fy), mk(sx, sy), cd, ign)
        try:
            sb = mdp.hinet.Rectangular2dSwitchboard(*args)
        except mdp.hinet.SwitchboardException:
            S.check(not fit or not (cover or ign), 'a fitting geometry is '
                    'accepted')
            S.reach('refused')
            return
        S.check(fit and (cover or ign), 'a geometry that does not fit or '
                'cover is refused')
        out, fields = rect_fields(nx, ny, fx, fy, sx, sy)
        S.check(tuple(sb.out_channels_xy) == out, 'output channels')
        S.check(tuple(sb.unused_channels_xy) == ((nx - fx) % sx,
                                                 (ny - fy) % sy),
                'unused channels')
        channel_checks(S, sb, fields, cd, nx * ny,
                       S.array('x', (1, nx * ny * cd)) if nx * ny <= 9
                       else None)
        S.reach('ok')
    return f


def drect_h(N, big=False):
    def f(S):
        import mdp
        if big:
            # several fields in both directions, of different width and height
            nx, fx, ny, fy = 4 + int(S.int('nx', 0, 4)), 2, 8 + int(
                S.int('ny', 0, 4)), 4
            if S.choose('swap', [False, True]):
                nx, ny, fx, fy = ny, nx, fy, fx
        else:
            nx, ny = int(S.int('nx', 1, N)), int(S.int('ny', 1, N))
            fx, fy = int(S.int('fx', 1, 4)), int(S.int('fy', 1, 4))
        cd = int(S.int('cd', 1, 2))
        ign = S.choose('ign', [False, True])
        ok = not (fx % 2 or fy % 2) and fx <= nx and fy <= ny
        if ok:
            hx, hy = fx // 2, fy // 2
            if not ign and ((nx - fx) % hx or (ny - fy) % hy):
                ok = False
            # the shifted rows must be shorter
            if nx % fx >= hx or ny % fy >= hy:
                ok = False
        try:
            sb = mdp.hinet.DoubleRect2dSwitchboard((nx, ny), (fx, fy), cd,
                                                   ign)
        except mdp.hinet.SwitchboardException:
            S.check(not ok, 'a fitting geometry is accepted')
            S.reach('refused')
            return
        S.check(ok, 'a geometry that does not fit or cover is refused')
        lx, ly = nx // fx, ny // fy
        S.check(tuple(sb.long_out_channels_xy) == (lx, ly), 'long rows')
        box = lambda x0, y0: [(y0 + j) * nx + x0 + i for j in range(fy)
                              for i in range(fx)]
        fields = [box(i * fx, j * fy) for j in range(ly) for i in range(lx)]
        fields += [box(i * fx + hx, j * fy + hy) for j in range(ly - 1)
                   for i in range(lx - 1)]
        channel_checks(S, sb, fields, cd, nx * ny,
                       S.array('x', (1, nx * ny * cd)) if nx * ny <= 9
                       else None)
        S.reach('ok')
    return f


def rhomb_fields(lx, ly, d):
    """rhombic fields; grid point (X, Y) belongs to the lattice when X and Y
    are both even (long rows) or both odd (short rows)"""
    def index(X, Y):
        if X % 2 != Y % 2 or not (0 <= X <= 2 * lx - 2 and
                                  0 <= Y <= 2 * ly - 2):
            return None
        if X % 2 == 0:
            return (Y // 2) * lx + X // 2
        return lx * ly + (Y // 2) * (lx - 1) + X // 2
    s = 1 if lx < ly else 0
    fields, out = [], (0, 0)
    oy = 0
    Y = s
    while Y + 2 * (d - 1) <= 2 * ly - 2 - s:
        ox, X = 0, d - s
        while X + d - 1 <= 2 * lx - 2:
            pts = sorted((Y + u + v, X + u - v) for u in range(d)
                         for v in range(d))
            fields.append([index(b, a) for a, b in pts])
            X += d
            ox += 1
        Y += d
        oy += 1
    return (ox if oy else 0, oy), fields


def rhomb_h(N):
    def f(S):
        import mdp
        lx, ly = int(S.int('lx', 1, N)), int(S.int('ly', 1, N))
        d = int(S.int('d', 1, 4))
        cd = int(S.int('cd', 1, 2))
        s = 1 if lx < ly else 0
        rx, ry = lx - (1 - s) - d, ly - s - d
        ok = d % 2 == 0 and rx >= 0 and ry >= 0 and not (
            2 * rx % d or 2 * ry % d)
        try:
            sb = mdp.hinet.DoubleRhomb2dSwitchboard((lx, ly), d, cd)
        except mdp.hinet.SwitchboardException:
            S.check(not ok, 'a fitting geometry is accepted')
            S.reach('refused')
            return
        S.check(ok, 'a geometry that does not fit is refused')
        out, fields = rhomb_fields(lx, ly, d)
        S.check(all(c is not None for fl in fields for c in fl), 'lattice')
        S.check(tuple(sb.out_channels_xy) == out, 'output channels')
        channel_checks(S, sb, fields, cd, 2 * lx * ly - lx - ly + 1,
                       S.array('x', (1, (2 * lx * ly - lx - ly + 1) * cd))
                       if lx * ly <= 9 else None)
        S.reach('ok')
    return f


def factory_h(bi):
    def f(S):
        import mdp
        from mdp.hinet import switchboard_factory as sf
        if bi:
            import bimdp
            H_, pre = bimdp.hinet, 'Bi'
            kw = dict(node_id='sb')
        else:
            H_, pre, kw = mdp.hinet, '', {}
        cls = lambda n: getattr(H_, n.replace('Switchboard',
                                              pre + 'Switchboard'))
        nx, ny = S.choose('n', [(4, 4), (6, 4), (4, 6), (8, 8)])
        k = int(S.int('k', 1, 3))
        kind = S.choose('kind', ['rect', 'drect', 'rhomb', 'channel',
                                 'wrong'])
        with mdp.extension('switchboard_factory'):
            r = sf.get_2d_image_switchboard((nx, ny))
            S.check(tuple(r.out_channels_xy) == (nx, ny) and
                    [int(c) for c in r.connections] ==
                    list(range(nx * ny)), 'image switchboard')
            dim = r.output_channels * k
            if kind == 'rect':
                sb = cls('Rectangular2dSwitchboard').create_switchboard(
                    {'field_channels_xy': 2, 'field_spacing_xy': (2, 1)},
                    r, dim, **kw)
                out, fields = rect_fields(nx, ny, 2, 2, 2, 1)
                channel_checks(S, sb, fields, k, nx * ny, None)
            elif kind == 'channel':
                sb = cls('ChannelSwitchboard').create_switchboard(
                    {}, r, dim, **kw)
                channel_checks(S, sb, [list(range(nx * ny))], k, nx * ny,
                               None)
            elif kind == 'wrong':
                S.must_raise(mdp.hinet.SwitchboardException, 'incompatible '
                             'switchboards are refused',
                             cls('DoubleRhomb2dSwitchboard')
                             .create_switchboard, {'field_size': 2}, r, dim,
                             **kw)
                sb = None
            else:
                sb = cls('DoubleRect2dSwitchboard').create_switchboard(
                    {'field_channels_xy': 2}, r, dim, **kw)
                lx, ly = nx // 2, ny // 2
                box = lambda x0, y0: [(y0 + j) * nx + x0 + i
                                      for j in range(2) for i in range(2)]
                fields = [box(i * 2, j * 2) for j in range(ly)
                          for i in range(lx)]
                fields += [box(i * 2 + 1, j * 2 + 1) for j in range(ly - 1)
                           for i in range(lx - 1)]
                channel_checks(S, sb, fields, k, nx * ny, None)
                if kind == 'rhomb' and (lx, ly) != (2, 2):
                    prev, dim = sb, sb.output_channels * k
                    sb = cls('DoubleRhomb2dSwitchboard').create_switchboard(
                        {'field_size': 2}, prev, dim, **kw)
                    out, fields = rhomb_fields(lx, ly, 2)
                    channel_checks(S, sb, fields, k,
                                   2 * lx * ly - lx - ly + 1, None)
            if sb is not None:
                S.check(sb.input_dim == dim, 'fits the previous layer')
                if bi:
                    S.check(sb.node_id == 'sb', 'node id')
        S.check(not hasattr(mdp.hinet.Rectangular2dSwitchboard,
                            'create_switchboard'), 'extension is gone')
        S.reach('end')
    return f


def coord_h():
    """index arithmetic, for every size (unbounded integers)"""
    def f(S):
        from mdp.hinet.switchboard import CoordinateTranslator
        w, h = S.int('w', 1, 50), S.int('h', 1, 50)
        t = CoordinateTranslator(w, h)
        x, y = S.int('x', -2, 60), S.int('y', -2, 60)
        inside = S.all([x >= 0, x < w, y >= 0, y < h])
        e, i = None, None
        try:
            i = t.image_to_index(x, y)
        except Exception as ex:
            if type(ex) is not Exception:
                raise
            e = ex
        if e is None:
            S.check(inside, 'coordinates outside of the image are refused')
            S.check(i == y * w + x, 'row-major index')
            e2 = S.raises(Exception, t.array_to_index, y, x)
            S.check(e2 is None, 'array coordinates are (row, column)')
            S.check(t.array_to_index(y, x) == i, 'array index')
            a = t.index_to_image(i)
            S.check(S.all([a[0] == x, a[1] == y]), 'index to image')
            b = t.index_to_array(i)
            S.check(S.all([b[0] == y, b[1] == x]), 'index to array')
            S.check(tuple(t.image_to_array(3, 4)) == (4, 3) and
                    tuple(t.array_to_image(3, 4)) == (4, 3), 'transposition')
            S.reach('ok')
        else:
            S.check(S.implies(inside, False), 'coordinates inside of the '
                    'image are accepted')
            S.must_raise(Exception, 'array coordinates outside of the image '
                         'are refused', t.array_to_index, y, x)
        k = S.int('k', -60, 3000)
        for g in (t.index_to_array, t.index_to_image):
            e3 = S.raises(Exception, g, k)
            ok = S.all([k >= 0, k < w * h])
            if e3 is None:
                S.check(ok, 'an index outside of the image is refused')
                c = g(k)
                if g == t.index_to_array:
                    c = c[::-1]
                S.check(S.all([c[1] * w + c[0] == k, c[0] < w, c[0] >= 0]),
                        'the coordinates of an index')
            else:
                S.check(S.implies(ok, False), 'an index is accepted')
        if e is not None:
            S.reach('refused')
    return f


def harnesses(tier):
    hs = []
    for n, k in [(1, 1), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 4)] + (
            [(4, 4)] if tier != 'quick' else []):
        reach = ['refused', 'noperm']
        if n == k:
            reach.append('perm')
        if n == 1:
            reach = ['refused', 'perm']
        hs.append(H('general/%d-%d' % (n, k), general_h(n, k), reach=reach,
                    validate=20, max_paths=20000))
        if (n, k) != (1, 1):
            hs.append(H('mean/%d-%d' % (n, k),
                        general_h(n, k, 'MeanInverseSwitchboard'),
                        reach=['refused', 'mean'], validate=20,
                        max_paths=20000))
    hs.append(H('empty', empty_h(), reach=['end']))
    hs.append(H('channel', channel_h(), reach=['ok', 'refused']))
    N = 4 if tier == 'quick' else 6
    hs.append(H('rect/int', rect_h(8, 'int'), reach=['ok', 'refused'],
                validate=20))
    hs.append(H('rect/tuple', rect_h(N, 'tuple'), reach=['ok', 'refused'],
                validate=20, max_paths=20000))
    if tier != 'quick':
        hs.append(H('rect/list', rect_h(3, 'list'), reach=['ok', 'refused'],
                    validate=20, max_paths=20000))
    hs.append(H('doublerect', drect_h(6 if tier == 'quick' else 8),
                reach=['ok', 'refused'], validate=20, max_paths=20000))
    hs.append(H('doublerect/big', drect_h(0, True),
                reach=['ok', 'refused'], validate=20, max_paths=20000))
    hs.append(H('doublerhomb', rhomb_h(6 if tier == 'quick' else 9),
                reach=['ok', 'refused'], validate=20, max_paths=20000))
    hs.append(H('factory', factory_h(False), reach=['end'], validate=10))
    hs.append(H('factory/bi', factory_h(True), reach=['end'], validate=10))
    hs.append(H('coordinates', coord_h(), reach=['ok', 'refused']))
    return hs
