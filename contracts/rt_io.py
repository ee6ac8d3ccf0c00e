"""Runtime contracts of file formats, file discovery and the averaging command
(bounded stand-ins)."""
import os
import numpy as np
from pv.rt import rt
from contracts.rt_grid import (LABELS, grid_values, regular, flow_of, fdict, snapshot, unchanged, to_grid, wmean)

FMT = {'gmx': 'strata.dataformats.gmx_flow_version_1.main', 'simple': 'strata.dataformats.simple.main',
       'simple_plain': 'strata.dataformats.simple.main'}


def write_map(t, ftype, path, d, info):
    w = t.fn(FMT[ftype], 'write_data')
    if ftype == 'gmx':
        w(path, dict(d), dict(info))
    else:
        w(path, dict(d), binary=ftype == 'simple')


def gmx_map(t, nx=None, ny=None, hi=7, zeros=True, fine=False):
    """x-major map at bin centres with the origin at the lower corner."""
    nx, ny = nx or t.int(1, hi), ny or t.int(1, hi)
    dx, dy = t.choice([0.25, 0.5, 1., 0.3, 12.125]), t.choice([0.25, 0.5, 1.75, 0.7])
    x0, y0 = t.choice([0., 0.25, -1.5, 3.1, 1000.5]), t.choice([0., 0.5, -2., 1.7])
    if fine:        # all six decimals of the geometry
        six = lambda v: float('%.6f' % v)
        dx, dy = six(10 ** t.real(-4, 1.5)), six(10 ** t.real(-4, 1.5))
        x0, y0 = six(t.real(-3000, 3000)), six(t.real(-1, 1) * 10 ** t.int(0, 4))
    xs, ys = np.meshgrid(x0 + dx * (np.arange(nx) + .5), y0 + dy * (np.arange(ny) + .5), indexing='ij')
    d = {'X': xs.ravel(), 'Y': ys.ravel()}
    d.update(grid_values(t, nx * ny, zeros))
    info = {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': nx * ny}
    return d, info


# ------------------------------------------------------------------ C01
@rt('C01', 150)
def gmx_round_trip(t):
    read = t.fn(FMT['gmx'], 'read_data')
    big = t.flip(0.1)
    d, info = gmx_map(t, *((t.int(30, 60), t.int(30, 60)) if big else ()), fine=t.flip(0.3))
    if t.flip(0.2):
        d['M'][:] = 0.
    if t.flip(0.2):
        d['M'][d['M'] == 0] = 1e-30
    if t.flip(0.1):
        d['M'] = -d['M']
    path = os.path.join(t.tmp, t.choice(['a.dat', 'sub/b_00001.dat']))
    t.note(data=d, info=info)
    snap = snapshot(d)
    write_map(t, 'gmx', path, d, info)
    unchanged(t, 'written data unmodified', d, snap)
    r, ri = read(path)
    t.eq('shape', ri['shape'], info['shape'])
    t.eq('spacing', ri['spacing'], info['spacing'], atol=6e-7, rtol=0)
    t.eq('origin', ri['origin'], info['origin'], atol=6e-7, rtol=0)
    t.eq('num_bins', ri['num_bins'], info['num_bins'])
    t.eq('X', r['X'], d['X'], atol=1e-4)
    t.eq('Y', r['Y'], d['Y'], atol=1e-4)
    filled = np.float64(d['M']) != 0
    for l in 'NTMUV':
        t.eq('field ' + l, r[l], np.where(filled, np.float32(d[l]).astype(float), 0.), rtol=0, atol=0)
    t.same('fields', sorted(r), sorted(['X', 'Y'] + LABELS))


# ------------------------------------------------------------------ C02
@rt('C02', 150)
def simple_round_trip(t):
    ftype = t.choice(['simple', 'simple_plain'])
    read = t.fn(FMT[ftype], 'read_data')
    nx, ny = t.int(2, 7), t.int(2, 7)
    dx, dy = t.choice([0.25, 0.5, 1., 0.3, 0.015]), t.choice([0.25, 0.5, 1.75, 0.7, 0.02])
    x0, y0 = t.choice([0., 0.25, -1.5, 3.1, -0.125]), t.choice([0., 0.5, -2., 1.7])
    if t.flip(0.4):
        dx, dy = 10 ** t.real(-3, .3), 10 ** t.real(-3, .3)
        x0, y0 = t.real(-40, 40), t.real(-40, 40)
    xs, ys = np.meshgrid(x0 + dx * np.arange(nx), y0 + dy * np.arange(ny), indexing='ij')
    d = {'X': xs.ravel(), 'Y': ys.ravel()}
    d.update(grid_values(t, nx * ny, t.flip()))
    if t.flip(0.3):
        for l in LABELS:
            d[l] = d[l] * 1000.
    path = os.path.join(t.tmp, t.choice(['a.dat', 'sub/b_00001.dat']))
    t.note(data=d, ftype=ftype)
    snap = snapshot(d)
    write_map(t, ftype, path, d, None)
    unchanged(t, 'written data unmodified', d, snap)
    r, ri = read(path)
    t.eq('shape', ri['shape'], (nx, ny))
    t.eq('num_bins', ri['num_bins'], nx * ny)
    t.eq('spacing', ri['spacing'], (dx, dy), atol=2e-5)
    t.eq('origin', ri['origin'], (x0, y0), atol=1e-5)
    t.eq('X', r['X'], d['X'], atol=3e-5)
    t.eq('Y', r['Y'], d['Y'], atol=3e-5)
    gx, gy = np.meshgrid(ri['origin'][0] + ri['spacing'][0] * np.arange(nx),
                         ri['origin'][1] + ri['spacing'][1] * np.arange(ny), indexing='ij')
    t.eq('exactly regular X', r['X'], gx.ravel(), atol=1e-9)
    t.eq('exactly regular Y', r['Y'], gy.ravel(), atol=1e-9)
    for l in LABELS:
        if ftype == 'simple':
            t.eq('field ' + l, r[l], np.float32(d[l]).astype(float), rtol=0, atol=0)
        else:
            t.eq('field ' + l, r[l], d[l], rtol=1.2e-7, atol=6e-7)
    t.same('fields', sorted(r), sorted(['X', 'Y'] + LABELS))


# ------------------------------------------------------------------ C03
@rt('C03', 120)
def detection_by_format_written(t):
    rdf = t.fn('strata.dataformats.read', 'read_data_file')
    guess = t.fn('strata.dataformats.read', 'guess_read_module')
    import importlib
    ftype = t.choice(list(FMT))
    d, info = regular(t, 'ij', lo=2)
    info['origin'] = tuple(o - .5 * s for o, s in zip(info['origin'], info['spacing']))
    if t.flip(0.3):     # bytes that look like text
        k = np.frombuffer(b'FOR1GMX_' * d['X'].size, dtype='<f4')[:d['X'].size].astype(float)
        d[t.choice(LABELS)] = np.nan_to_num(k)
    if t.flip(0.3):
        for l in LABELS:
            d[l][:] = 1.
    if t.flip(0.3):     # nothing but characters, with or without zero bytes
        text = lambda: float(np.frombuffer(bytes([t.int(33, 126), t.int(33, 126), t.int(33, 126), 64]), dtype='<f4')[0])
        d, info = regular(t, 'ij', nx=2, ny=2)
        lo, hi = zip(*((a, b) if b - a > .1 else (2.6391, 3.1415) for a, b in (sorted((text(), text())) for _ in 'XY')))
        d['X'], d['Y'] = np.repeat([lo[0], hi[0]], 2), np.tile([lo[1], hi[1]], 2)
        info['spacing'] = tuple(b - a for a, b in zip(lo, hi))
        info['origin'] = tuple(a - .5 * (b - a) for a, b in zip(lo, hi))
        zero = t.flip()
        for l in LABELS:
            d[l] = np.array([t.choice([0.5, 2., 3.]) if zero else text() for _ in d[l]])
    path = os.path.join(t.tmp, 'f.dat')
    t.note(ftype=ftype, data=d, info=info)
    write_map(t, ftype, path, d, info)
    if ftype == 'gmx' and t.flip(0.3):      # the other version of the header
        with open(path, 'r+b') as fp:
            fp.write(b'FORMAT GMX_FLOW_%d' % t.int(1, 2))
    t.true('reader of the format written', guess(path) is importlib.import_module(FMT[ftype]))
    r, ri, meta = rdf(path)
    t.same('path', meta['path'], path)
    t.true('module', meta['module'] is importlib.import_module(FMT[ftype]))
    keep = np.float64(d['M']) != 0 if ftype == 'gmx' else np.ones(d['X'].size, bool)
    for l in LABELS:
        t.eq('field ' + l, r[l], np.where(keep, d[l], 0.), rtol=1e-6, atol=2e-6)


@rt('C03', 80)
def conversion_is_one_to_one(t):
    conv = t.fn('strata.convert', 'convert')
    import importlib
    src, dst = t.choice(list(FMT)), t.choice(list(FMT))
    srcs = [src] * 4 if t.flip() else [t.choice(list(FMT)) for _ in range(4)]
    begin, n = t.choice([1, 1, 3, 0]), t.int(1, 4)
    ext, oext = t.choice(['.dat', '.bin']), None
    maps = []
    for k in range(n):
        d, info = gmx_map(t, t.int(2, 4), t.int(2, 4))
        for l in 'XY':
            if abs(d[l]).max() > 500:
                d[l] -= 1000.
        if info['origin'][0] > 500:
            info['origin'] = (info['origin'][0] - 1000., info['origin'][1])
        write_map(t, srcs[k], os.path.join(t.tmp, 'in%05d%s' % (begin + k, ext)), d, info)
        maps.append((d, info))
    end = t.choice([None, begin + n - 1, max(begin, begin + n - 2)])
    kw = {'begin': begin, 'ext': ext, 'quiet': t.flip(), 'ftype': dst}
    if end is not None:
        kw['end'] = end
        maps = maps[:end - begin + 1]
    t.note(src=srcs, dst=dst, options=kw, maps=maps)
    conv(os.path.join(t.tmp, 'in'), os.path.join(t.tmp, 'o/out'), **kw)
    want = ['out%05d%s' % (begin + k, oext or ext) for k in range(len(maps))]
    t.same('outputs', sorted(os.listdir(os.path.join(t.tmp, 'o'))), sorted(want))
    m = importlib.import_module(FMT[dst])
    from strata.dataformats.read import guess_read_module
    for src, (d, info), fn in zip(srcs, maps, want):
        p = os.path.join(t.tmp, 'o', fn)
        t.true('requested format', guess_read_module(p) is m)
        if dst != 'gmx':
            with open(p, 'rb') as fp:
                t.same('plain or binary', fp.read(2) == b'X ', dst == 'simple_plain')
        r, ri = m.read_data(p)
        keep = np.float64(d['M']) != 0 if 'gmx' in (src, dst) else np.ones(d['X'].size, bool)
        for l in LABELS:
            t.eq('field %s of %s' % (l, fn), r[l], np.where(keep, d[l], 0.), rtol=1e-6, atol=2e-6)
        t.eq('shape', ri['shape'], info['shape'])
        t.eq('spacing', ri['spacing'], info['spacing'], atol=5e-5)
        if not (src != 'gmx' and dst == 'gmx'):
            t.eq('X', r['X'], d['X'], atol=1e-4)
            t.eq('Y', r['Y'], d['Y'], atol=1e-4)


@rt('C03', 30)
def unknown_format_refused(t):
    conv, write = t.fn('strata.convert', 'convert'), t.fn('strata.dataformats.write', 'write')
    d, info = gmx_map(t, 2, 3)
    write_map(t, 'simple', os.path.join(t.tmp, 'in00001.dat'), d, info)
    bad = t.choice(['gmx2', '', 'SIMPLE', 'plain', None])
    t.note(ftype=bad)
    t.raises('unknown format in write', KeyError, write, os.path.join(t.tmp, 'w.dat'), d, info, ftype=bad)
    t.raises('unknown format in convert', KeyError, conv, os.path.join(t.tmp, 'in'), os.path.join(t.tmp, 'out'),
             ftype=bad, quiet=True)
    t.same('nothing written', os.listdir(t.tmp), ['in00001.dat'])


# ------------------------------------------------------------------ C04
def make_files(t, base, ext, nums):
    os.makedirs(os.path.dirname(base), exist_ok=True)
    for k in nums:
        with open('%s%05d%s' % (base, k, ext), 'w') as fp:
            fp.write('x')


@rt('C04', 300)
def discovers_consecutive_run(t):
    find = t.fn('strata.utils', 'find_datamap_files')
    import warnings
    lo = t.choice([0, 1, 1, 5, 99997])
    nums = [lo + k for k in range(12) if t.flip(t.choice([0.6, 0.95, 1.]))]
    base, ext = os.path.join(t.tmp, t.choice(['d_', 'x/%d_', '5'])), t.choice(['.dat', '', '.xvg'])
    make_files(t, base, ext, nums)
    if t.flip():
        make_files(t, base, '.other', range(lo, lo + 5))
    begin = lo + t.int(0, 4)
    end = t.choice([np.inf, begin + t.int(-2, 8), begin + 3.0])
    kw = {'begin': begin, 'end': end, 'ext': ext}
    if begin == 1 and t.flip():
        del kw['begin']
    if end == np.inf and t.flip():
        del kw['end']
    if ext == '.dat' and t.flip():
        del kw['ext']
    t.note(files=nums, base=base, options=kw)
    want = []
    k = begin
    while k <= end and k in nums:
        want.append('%s%05d%s' % (base, k, ext))
        k += 1
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        got = list(find(base, **kw))
    t.same('paths', got, want)
    ws = [w for w in ws if issubclass(w.category, UserWarning)]
    if begin <= end and begin not in nums:
        t.true('a warning is given', len(ws) >= 1)
    if want:
        t.true('no warning is given', len(ws) == 0)


# ------------------------------------------------------------------ C05
@rt('C05', 300)
def bundles_and_outputs(t):
    g2s, s2s = t.fn('strata.utils', 'find_groups_to_singles'), t.fn('strata.utils', 'find_singles_to_singles')
    pop = t.fn('strata.utils', 'pop_fileopts')
    lo = t.choice([0, 1, 1, 4])
    n = t.int(0, 14)
    hole = t.choice([None, t.int(0, 14)])
    nums = [lo + k for k in range(n) if k != hole]
    base, out, ext = os.path.join(t.tmp, 'd_'), os.path.join(t.tmp, 'o_'), t.choice(['.dat', '.x'])
    make_files(t, base, ext, nums)
    begin = lo + t.int(0, 3)
    end = t.choice([np.inf, begin + t.int(-1, 10)])
    g, rolling = t.int(1, 5), t.flip()
    kw = {'begin': begin, 'end': end, 'ext': ext}
    if t.flip():
        kw['outext'] = '.out'
    t.note(files=nums, options=kw, group=g, rolling=rolling)
    run = []
    k = begin
    while k <= end and k in nums:
        run.append(k)
        k += 1
    name = lambda k: '%s%05d%s' % (base, k, ext)
    oname = lambda k: '%s%05d%s' % (out, k, kw.get('outext', ext))
    want = []
    k, step = 0, 1 if rolling else g
    o = begin if rolling else -(-begin // g)
    while k + g <= len(run):
        want.append(([name(x) for x in run[k:k + g]], oname(o)))
        k += step
        o += 1
    got = [(list(a), b) for a, b in g2s(base, out, g, rolling, **dict(kw))]
    t.same('bundles', got, want)
    got = list(s2s(base, out, **pop(dict(kw))))
    t.same('pairs', [tuple(x) for x in got], [(name(k), oname(k)) for k in run])


# ------------------------------------------------------------------ C06
@rt('C06', 150)
def output_backs_up(t):
    how = t.choice(['decorator', 'decorator', 'gmx', 'simple', 'spreading', 'interface', 'angle', 'sample', 'area', 'line', 'fit', 'view'])
    pp = t.fn('strata.utils', 'prepare_path')
    t.fn('strata.strata', 'version')        # the headers read it from the loaded package
    d, info = gmx_map(t, 2, 2, zeros=False)
    iface = np.zeros(4, dtype=[('Y', float), ('X', float)])
    iface['X'], iface['Y'] = [0, 0.1, 2, 2.1], [0, 1, 1, 0]
    content = t.choice(['new contents\n', ''])

    def write(path):
        if how == 'decorator':
            @pp
            def f(p, text, opt=None):
                with open(p, 'w') as fp:
                    fp.write(text)
                return 'ret'
            t.same('result passed on', f(path, content, opt=1), 'ret')
        elif how in ('gmx', 'simple'):
            write_map(t, how, path, d, info)
        elif how == 'spreading':
            t.fn('strata.spreading.collect', 'write_header')(path, 'base', {})
        elif how == 'interface':
            t.fn('strata.interface.collect', 'write_interface_data')(path, iface, ['a'], {}, None)
        elif how == 'sample':
            t.fn('strata.sample_average', 'write_header')(path, 'base', ['T'], None, 'M', {})
        elif how == 'area':
            t.fn('strata.interface.sample', 'write_header')(path, 'base', 'area', 1., {})
        elif how == 'line':
            t.fn('strata.contact_line_analysis', 'write_header')(path, 'base', ['U'], None, 'M', 1, False, {})
        elif how in ('fit', 'view'):
            import pandas as pd
            series = [pd.Series([1., 2., 3.], index=[0., 1., 2.], name='s')]
            if how == 'fit':
                t.fn('strata.spreading.fit', 'write_fitting_data')(path, series, (None, None), (None, None))
            else:
                t.fn('strata.spreading.view', 'write_spreading_data')(path, series)
        else:
            t.fn('strata.strata', 'version')
            t.fn('strata.interface.angle', 'write_angle_data')(
                path, 'b', 1., [0.], {'measured': [1.], 'left': [1.], 'right': [1.], 'fit': []})
    sub = t.choice(['', 'a', 'a/b'])
    fn = t.choice(['f.dat', 'no_ext', '#f.dat.1#'])
    root = os.path.join(t.tmp, 'r')
    rel = t.flip(0.3)
    os.makedirs(root)
    before = {}
    exists = t.flip(0.8)
    names = []
    if exists:
        os.makedirs(os.path.join(root, sub), exist_ok=True)
        p, top = t.choice([0.3, 0.95, 1., 1.]), t.choice([3, 14, 14, 30])
        names = [fn] + ['#%s.%d#' % (fn, k) for k in range(0, top) if t.flip(p)]
        names += [x for x in ['other', '#%s#' % fn, fn + '.1', '#%s.01#' % fn] if t.flip()]
        if t.flip(0.2):
            names.remove(fn)
    for x in names:
        p = os.path.join(root, sub, x)
        text = 'old %s' % x
        with open(p, 'w') as fp:
            fp.write(text)
        before[os.path.join(sub, x)] = text
    path = os.path.join(root, sub, fn)
    if rel:
        os.chdir(root)
        path = os.path.join(sub, fn)
    t.note(how=how, path=path, existing=sorted(before))
    write(path)
    os.chdir('/')
    free = os.path.join(t.tmp, 'free', fn)
    write(free)
    after = {}
    for dp, _, fns in os.walk(root):
        for x in fns:
            p = os.path.join(dp, x)
            with open(p, 'rb') as fp:
                after[os.path.relpath(p, root)] = fp.read()
    key = os.path.join(sub, fn)
    want = dict(before)
    if key in before:
        k = 1
        while os.path.join(sub, '#%s.%d#' % (fn, k)) in before:
            k += 1
        want[os.path.join(sub, '#%s.%d#' % (fn, k))] = before[key]
    want.pop(key, None)
    t.same('files', sorted(after), sorted(list(want) + [key]))
    for x in want:
        t.same('contents of ' + x, after[x], want[x].encode())
    with open(free, 'rb') as fp:
        t.same('contents as if the path had been free', strip(after[key]), strip(fp.read()))


def strip(b):
    return [l for l in b.split(b'\n') if not any(w in l for w in (b'date', b'directory', b'base path'))]


# ------------------------------------------------------------------ C09
def stencil(F, W, n):
    NX, NY = F.shape
    out = np.zeros((NX, NY))
    for i in range(NX):
        for j in range(NY):
            sl = (slice(max(0, i - n + 1), i + n), slice(max(0, j - n + 1), j + n))
            out[i, j] = F[sl].mean() if W is None else wmean(F[sl], W[sl])
    return out


WEIGHT = {'U': 'M', 'V': 'M', 'T': 'N', 'M': None, 'N': None}


@rt('C09', 120, 8)
def averaging_command(t):
    average = t.fn('strata.average', 'average')
    src = t.choice(['gmx', 'gmx', 'simple', 'simple_plain'])
    nx, ny = t.int(2, 6), t.int(2, 5)
    dx, dy = t.choice([0.25, 0.5, 1.]), t.choice([0.25, 0.5, 1.5])
    x0, y0 = t.choice([0., 0.25, -1.5, 3.]), t.choice([0., 0.5, -2.])
    if src != 'gmx':
        x0, y0 = x0 + 3., y0 + 2.
    zero = [t.flip(0.3) and src == 'gmx' for _ in 'xy']     # a limit at exactly zero
    at = [t.int(0, nx - 1), t.int(0, ny - 1)]
    x0 = -dx * (at[0] + .5) if zero[0] else x0
    y0 = -dy * (at[1] + .5) if zero[1] else y0
    xs, ys = np.meshgrid(x0 + dx * (np.arange(nx) + .5), y0 + dy * (np.arange(ny) + .5), indexing='ij')
    begin, n = t.choice([1, 1, 2]), t.int(1, 6)
    g, rolling = t.int(1, 3), t.flip(0.3)
    maps = []
    info = {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': nx * ny}
    for k in range(n):
        d = {'X': xs.ravel(), 'Y': ys.ravel()}
        v = grid_values(t, nx * ny, False)
        z = t.rng.random(nx * ny) < t.choice([0., 0.3])
        z[t.int(0, nx * ny - 1)] = False
        for l in LABELS:
            v[l][z] = 0.
            v[l] = np.float32(v[l]).astype(float) if src != 'simple_plain' else np.round(v[l], 4)
        d.update(v)
        maps.append({l: d[l].reshape(nx, ny) for l in d})
        write_map(t, src, os.path.join(t.tmp, 'in_%05d.dat' % (begin + k)), d, info)
    kw = {'begin': begin, 'quiet': t.flip()}
    if t.flip(0.2):
        kw['end'] = begin + t.int(0, n)
        maps = maps[:kw['end'] - begin + 1]
    if t.flip(0.2):
        kw['outext'] = '.out'
    lims = []
    for ax, (m, s, o) in enumerate(((nx, dx, x0), (ny, dy, y0))):
        a, b = 0, m
        lim = [None, None]
        if zero[ax]:
            k = t.int(0, 1)
            lim[k] = 0.
            a, b = (at[ax], m) if k == 0 else (0, at[ax] + 1)
        elif t.flip(0.3) and src == 'gmx':
            a = t.int(0, m - 1)
            b = t.int(a + 1, m)
            if t.flip():
                lim[0] = o + s * (a + t.choice([0.5, 0.25, 0.]))
            else:
                a = 0
            if t.flip():
                lim[1] = o + s * (b - 1 + t.choice([0.5, 0.75]))
            else:
                b = m
        lims.append((a, b))
        if lim != [None, None]:
            kw['xlim' if ax == 0 else 'ylim'] = tuple(lim)
    cut = any(k in kw for k in ('xlim', 'ylim'))
    recenter = t.choice([None, None, 'com', 'left', 'right'])
    cx, cy = lims[0][1] - lims[0][0], lims[1][1] - lims[1][0]
    if recenter and (cx < 2 or cy < 2):
        recenter = None
    if recenter:
        kw['recenter'] = recenter
    if recenter in ('left', 'right'):
        kw.update(cutoff=0.05, cutoff_bins=0, cutoff_radius=dx)
    comb = t.choice([None, None, (2, 1), (1, 2), (2, 2)])
    sup = t.choice([None, None, 2, 3])
    t.note(src=src, group=g, rolling=rolling, options=kw, combine=comb, supersample=sup, maps=maps)
    cmaps = [{l: m[l][lims[0][0]:lims[0][1], lims[1][0]:lims[1][1]] for l in m} for m in maps]

    bundles, k = [], 0
    while k + g <= len(cmaps):
        bundles.append(cmaps[k:k + g])
        k += 1 if rolling else g
    results = []
    for bundle in bundles:
        i0 = None
        if recenter:
            refs = []
            for m in bundle:
                if recenter == 'com':
                    if m['M'].sum() == 0:
                        return
                    ref = (m['X'] * m['M']).sum() / m['M'].sum()
                else:
                    # lowest layer with a filled cell
                    js = [j for j in range(m['M'].shape[1]) if (m['M'][:, j] >= 0.05).any()]
                    if not js:
                        return
                    f = np.where(m['M'][:, js[0]] >= 0.05)[0]
                    ref = m['X'][f[0] if recenter == 'left' else f[-1], js[0]]
                q = (ref - m['X'].min()) / dx
                if abs(q - np.floor(q) - 0.5) < 1e-3:
                    return
                refs.append(int(np.round(q)))
            lo = max(-r for r in refs)
            hi = min(bundle[0]['X'].shape[0] - 1 - r for r in refs)
            if hi < lo:
                return
            if hi == lo:
                return      # a single column has no spacing
            bundle = [{l: m[l][r + lo:r + hi + 1] for l in m} for m, r in zip(bundle, refs)]
            i0 = lo
        a = {}
        for l in LABELS:
            V = np.array([m[l] for m in bundle])
            if WEIGHT[l] is None:
                a[l] = V.mean(0)
            else:
                W = np.array([m[WEIGHT[l]] for m in bundle])
                den = W.sum(0)
                a[l] = np.where(den != 0, (V * W).sum(0) / np.where(den == 0, 1, den), 0.)
        sx, sy = dx, dy
        fx = cmaps[0]['X'].min() + (i0 * dx if i0 is not None else 0.)
        fy = cmaps[0]['Y'].min()
        # place of the origin in its bin: the lower corner, or the centre if the format has no corner
        px, py = (-.5 * dx, -.5 * dy) if src == 'gmx' else (0., 0.)
        if comb:
            bx, by = comb
            mx, my = a['M'].shape[0] // bx, a['M'].shape[1] // by
            if mx * my == 0:
                return
            b = {}
            for l in LABELS:
                b[l] = np.zeros((mx, my))
                for i in range(mx):
                    for j in range(my):
                        sl = (slice(i * bx, i * bx + bx), slice(j * by, j * by + by))
                        b[l][i, j] = a[l][sl].sum() if WEIGHT[l] is None else wmean(a[l][sl], a[WEIGHT[l]][sl])
            a = b
            px0, py0 = px, py
            ox, oy = fx + px, fy + py
            fx, fy = fx + .5 * dx * (bx - 1), fy + .5 * dy * (by - 1)
            sx, sy = sx * bx, sy * by
            if src == 'gmx':
                px, py = -.5 * sx, -.5 * sy
        if sup:
            F = {l: np.repeat(np.repeat(a[l], sup, 0), sup, 1) for l in LABELS}
            a = {l: stencil(F[l], None if WEIGHT[l] is None else F[WEIGHT[l]], sup) for l in LABELS}
            sx, sy = sx / sup, sy / sup
            px, py = px / sup, py / sup
        results.append((a, (sx, sy), (fx, fy), (px, py)))
    opt = dict(kw)
    if comb:
        opt['combine'] = comb
    if sup:
        opt['supersample'] = sup
    average(os.path.join(t.tmp, 'in_'), os.path.join(t.tmp, 'out_'), g, rolling, **opt)
    o = begin if rolling else -(-begin // g)
    want = ['out_%05d%s' % (o + k, kw.get('outext', '.dat')) for k in range(len(results))]
    got = sorted(f for f in os.listdir(t.tmp) if f.startswith('out_'))
    t.same('outputs', got, want)
    read = t.fn(FMT['gmx'], 'read_data')
    for fn, (a, sp, first, place) in zip(want, results):
        r, ri = read(os.path.join(t.tmp, fn))
        t.eq('shape of ' + fn, ri['shape'], a['M'].shape)
        t.eq('spacing of ' + fn, ri['spacing'], sp, atol=2e-5)
        t.eq('origin of ' + fn, ri['origin'], (first[0] + place[0], first[1] + place[1]), atol=5e-5)
        keep = np.abs(a['M']) > 1e-9
        for l in LABELS:
            t.eq('%s of %s' % (l, fn), r[l].reshape(a['M'].shape), np.where(keep, a[l], 0.), rtol=2e-5, atol=2e-5)
