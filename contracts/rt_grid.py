"""Runtime contracts of the grid operations (bounded stand-ins)."""
import copy
import numpy as np
from pv.rt import rt

LABELS = ['U', 'V', 'M', 'N', 'T']


def grid_values(t, n, zeros=True):
    d = {}
    for l in LABELS:
        d[l] = t.rng.uniform(-3, 3, n) if l in 'UV' else t.rng.uniform(0.1, 4, n)
    if zeros:
        for l in 'MN':
            d[l][t.rng.random(n) < t.choice([0., 0.2, 0.6, 1.0])] = 0.
    return d


def regular(t, order='ij', nx=None, ny=None, zeros=True, lo=1, hi=6, centre=True):
    """A regular map as dict + info; order 'ij' is x-major, 'xy' y-major, 'any' shuffled."""
    nx = nx or t.int(lo, hi)
    ny = ny or t.int(lo, hi)
    dx, dy = t.choice([0.25, 0.5, 1., 0.3]), t.choice([0.25, 0.5, 1., 0.7])
    x0, y0 = t.choice([0., 0.25, -1.5, 3.1]), t.choice([0., 0.5, -2., 1.7])
    xs, ys = np.meshgrid(x0 + dx * np.arange(nx), y0 + dy * np.arange(ny), indexing='ij')
    d = {'X': xs.ravel(), 'Y': ys.ravel()}
    d.update(grid_values(t, nx * ny, zeros))
    perm = np.arange(nx * ny)
    if order == 'xy':
        perm = np.arange(nx * ny).reshape(nx, ny).T.ravel()
    elif order == 'any':
        perm = t.rng.permutation(nx * ny)
    d = {l: d[l][perm].copy() for l in d}
    info = {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': nx * ny}
    return d, info


def flow_of(t, d, info):
    FlowData = t.fn('droplets.flow', 'FlowData')
    return FlowData(*[(l, d[l]) for l in d], info=dict(info))


def ij(d, info):
    """Bin indices of every record."""
    (x0, y0), (dx, dy) = (min(d['X']), min(d['Y'])), info['spacing']
    return (np.rint((np.asarray(d['X']) - x0) / dx).astype(int),
            np.rint((np.asarray(d['Y']) - y0) / dy).astype(int))


def to_grid(d, info, l):
    """Values of field l as an array indexed [ix, iy]."""
    i, j = ij(d, info)
    g = np.full(info['shape'], np.nan)
    g[i, j] = d[l]
    return g


def snapshot(d):
    return {l: np.array(d[l]).copy() for l in d}


def unchanged(t, what, d, snap):
    t.true(what + ' (fields)', set(d) == set(snap))
    for l in snap:
        t.true('%s (%s)' % (what, l), np.array_equal(np.asarray(d[l]), snap[l]))


def wmean(v, w):
    return np.sum(v * w) / np.sum(w) if np.sum(w) != 0 else 0.


def fdict(flow):
    return {l: flow.data[l] for l in flow.data.dtype.names}


# ------------------------------------------------------------------ C07
@rt('C07', 150)
def average_is_weighted_mean(t):
    mod = t.choice(['strata.dataformats.simple.average', 'strata.dataformats.gmx_flow_version_1.main',
                    'strata.dataformats.simple.main'])
    average_data = t.fn(mod, 'average_data')
    base, info = regular(t, t.choice(['ij', 'any']))
    maps = []
    for _ in range(t.int(1, 5)):
        d = {'X': base['X'].copy(), 'Y': base['Y'].copy()}
        d.update(grid_values(t, base['X'].size))
        maps.append(d)
    if t.flip(0.2):
        for d in maps:
            d['M'][:] = 0.
    t.note(maps=maps)
    snaps = [snapshot(d) for d in maps]
    r = average_data(*maps)
    t.same('fields', sorted(r), sorted(['X', 'Y'] + LABELS))
    t.eq('X', r['X'], base['X'])
    t.eq('Y', r['Y'], base['Y'])
    A = lambda l: np.array([d[l] for d in maps])
    for l in 'MN':
        t.eq('mean ' + l, r[l], A(l).mean(0))
    for l, w in (('U', 'M'), ('V', 'M'), ('T', 'N')):
        want = np.array([wmean(A(l)[:, k], A(w)[:, k]) for k in range(base['X'].size)])
        t.eq('weighted mean ' + l, r[l], want)
    for d, s in zip(maps, snaps):
        unchanged(t, 'input map unmodified', d, s)


@rt('C07', 60)
def average_refuses_differing_coordinates(t):
    average_data = t.fn('strata.dataformats.simple.average', 'average_data')
    base, _ = regular(t, 'ij')
    maps = [dict(base, **grid_values(t, base['X'].size)) for _ in range(t.int(2, 4))]
    k, l = t.int(0, len(maps) - 1), t.choice(['X', 'Y'])
    if t.flip():        # each map within tolerance of the one before, the last outside it of the first
        base = dict(base, **{l: np.asarray(base[l]) * 0.})
        maps = [dict(base, **grid_values(t, base['X'].size)) for _ in range(4)]
        for i, m in enumerate(maps):
            m[l] = base[l] + i * 9e-4
        maps[0][l] = base[l] + 0.
        t.note(maps=maps, drift=l)
        t.raises('differing coordinates', ValueError, average_data, *maps)
        return
    c = maps[k][l].copy()
    c[t.int(0, c.size - 1)] += t.choice([0.1, -0.5, 2.])
    maps[k][l] = c
    t.note(maps=maps, changed=(k, l))
    t.raises('differing coordinates', ValueError, average_data, *maps)
    t.same('no maps', average_data(), {})


# ------------------------------------------------------------------ C08
@rt('C08', 200)
def combine_is_block_aggregate(t):
    combine_bins = t.fn('strata.dataformats.simple.average', 'combine_bins')
    d, info = regular(t, 'ij', hi=8)
    nx, ny = t.int(1, 4), t.int(1, 4)
    corner = t.flip(0.4)
    if corner:
        info['origin'] = tuple(o - 0.5 * s for o, s in zip(info['origin'], info['spacing']))
    t.note(data=d, info=info, nx=nx, ny=ny)
    snap = snapshot(d)
    r, ri = combine_bins(dict(d), dict(info), nx, ny)
    unchanged(t, 'input unmodified', d, snap)
    sx, sy = info['shape'][0] // nx, info['shape'][1] // ny
    t.eq('shape', ri['shape'], (sx, sy))
    t.eq('num_bins', ri['num_bins'], sx * sy)
    t.eq('spacing', ri['spacing'], (info['spacing'][0] * nx, info['spacing'][1] * ny))
    G = {l: np.asarray(d[l]).reshape(info['shape']) for l in d}
    out = {l: [] for l in d}
    for i in range(sx):
        for j in range(sy):
            b = {l: G[l][i * nx:(i + 1) * nx, j * ny:(j + 1) * ny] for l in G}
            for l in ('X', 'Y'):
                out[l].append(b[l].mean())
            for l in ('M', 'N'):
                out[l].append(b[l].sum())
            for l, w in (('U', 'M'), ('V', 'M'), ('T', 'N')):
                out[l].append(wmean(b[l], b[w]))
    for l in out:
        t.eq('combined ' + l, r[l], out[l])
    if not corner:
        t.eq('origin', ri['origin'], [min(d[l]) + 0.5 * s * (n - 1) for l, s, n in
                                      zip('XY', info['spacing'], (nx, ny))])
    else:
        t.eq('origin', ri['origin'], info['origin'])


# ------------------------------------------------------------------ C10
@rt('C10', 150)
def average_flow_maps_in_place(t):
    avg = t.fn('droplets.average', 'average_flow_data')
    dx, dy = t.choice([0.25, 0.5, 1.]), t.choice([0.3, 0.5, 1.])
    x0, y0 = t.real(), t.real()
    flows, offs, shapes, datas = [], [], [], []
    xl, yl = t.choice([('X', 'Y'), ('X', 'Y'), ('x', 'yy')])
    for _ in range(t.int(1, 4)):
        nx, ny = t.int(1, 5), t.int(1, 5)
        ox, oy = t.int(-3, 3), t.int(-3, 3)
        xs, ys = np.meshgrid(x0 + dx * (np.arange(nx) + ox), y0 + dy * (np.arange(ny) + oy))
        d = {xl: xs.ravel(), yl: ys.ravel()}
        d.update(grid_values(t, nx * ny))
        datas.append(d)
        offs.append((ox, oy))
        shapes.append((nx, ny))
        flows.append(flow_of(t, d, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (xs.min(), ys.min())}))
    weights = t.choice([[], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('T', 'M')]])
    t.note(maps=datas, weights=weights)
    snaps = [snapshot(fdict(f)) for f in flows]
    r = avg(flows, weights=weights, coord_labels=(xl, yl))
    for f, s in zip(flows, snaps):
        unchanged(t, 'input map unmodified', fdict(f), s)
    i0, j0 = min(o[0] for o in offs), min(o[1] for o in offs)
    i1 = max(o[0] + s[0] for o, s in zip(offs, shapes))
    j1 = max(o[1] + s[1] for o, s in zip(offs, shapes))
    NX, NY = i1 - i0, j1 - j0
    t.eq('shape', r.shape, (NX, NY))
    t.eq('spacing', r.spacing, (dx, dy))
    t.eq('origin', r.origin, (x0 + dx * i0, y0 + dy * j0), atol=1e-6)
    t.eq('number of bins', r.num_bins, NX * NY)
    t.eq('size', r.data.size, NX * NY)
    G = {}
    for l in LABELS:
        a = np.zeros((len(flows), NY, NX))
        for k, (d, o, s) in enumerate(zip(datas, offs, shapes)):
            a[k, o[1] - j0:o[1] - j0 + s[1], o[0] - i0:o[0] - i0 + s[0]] = d[l].reshape(s[1], s[0])
        G[l] = a.reshape(len(flows), -1)
    X, Y = np.meshgrid(x0 + dx * (np.arange(NX) + i0), y0 + dy * (np.arange(NY) + j0))
    t.eq('X', r.data[xl], X.ravel(), atol=1e-6)
    t.eq('Y', r.data[yl], Y.ravel(), atol=1e-6)
    w = dict(weights)
    for l in LABELS:
        if l in w:
            want = [wmean(G[l][:, k], G[w[l]][:, k]) for k in range(NX * NY)]
        else:
            want = G[l].mean(0)
        t.eq('average of ' + l, r.data[l], want)


@rt('C10', 40)
def average_flow_refuses_spacing(t):
    avg = t.fn('droplets.average', 'average_flow_data')
    flows = []
    n = t.int(2, 4)
    bad = t.int(0, n - 1)
    missing = t.flip()
    for k in range(n):
        xs, ys = np.meshgrid(np.arange(3.), np.arange(2.))
        d = {'X': xs.ravel(), 'Y': ys.ravel(), 'M': t.rng.random(6)}
        info = {'shape': (3, 2), 'spacing': (1., 1.)}
        if missing:
            del info['spacing']
        elif k == bad:
            info['spacing'] = t.choice([(1., 1.1), (0.9, 1.)])
        flows.append(flow_of(t, d, info))
    t.note(bad=bad, missing=missing, spacings=[f.spacing for f in flows])
    t.raises('unequal or missing spacing', ValueError, avg, flows)
    t.raises('no maps', ValueError, avg, [])


# ------------------------------------------------------------------ C11
@rt('C11', 150)
def downsample_aggregates_covered_bins(t):
    down = t.fn('droplets.resample', 'downsample_flow_data')
    d, info = regular(t, t.choice(['ij', 'xy', 'any']), hi=7)
    nx, ny = t.int(1, 4), t.int(1, 4)
    weights = t.choice([[], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('T', 'M'), ('U', 'N')]])
    G0 = {l: to_grid(d, info, l) for l in d}
    lims = {}
    sel = []
    for ax, l in enumerate('XY'):
        cs = np.unique(d[l])
        a, b = sorted((t.int(0, cs.size - 1), t.int(0, cs.size - 1)))
        k = t.int(0, 3)
        lim = (cs[a] if k & 1 else None, cs[b] if k & 2 else None)
        if t.flip(0.3) and k & 1:
            lim = (cs[a] - 0.1 * info['spacing'][ax], lim[1])
        lims[l.lower() + 'lim'] = lim
        sel.append(slice(a if k & 1 else 0, (b if k & 2 else cs.size - 1) + 1))
    if t.flip(0.3):
        lims, sel = {}, [slice(None), slice(None)]
    t.note(data=d, info=info, combine=(nx, ny), weights=weights, **lims)
    flow = flow_of(t, d, info)
    snap = snapshot(fdict(flow))
    r = down(flow, (nx, ny), weights=weights, **lims)
    unchanged(t, 'input map unmodified', fdict(flow), snap)
    G = {l: G0[l][sel[0], sel[1]] for l in G0}
    sx, sy = G['X'].shape[0] // nx, G['X'].shape[1] // ny
    t.eq('shape', r.shape, (sx, sy))
    t.eq('spacing', r.spacing, (info['spacing'][0] * nx, info['spacing'][1] * ny))
    t.eq('number of bins', r.num_bins, sx * sy)
    t.eq('origin', r.origin, [G[l].min() + 0.5 * s * (n - 1) for l, s, n in zip('XY', info['spacing'], (nx, ny))])
    t.eq('size', r.data.size, sx * sy)
    if sx * sy == 0:
        return
    out = {l: np.zeros((sx, sy)) for l in G}
    w = dict(weights)
    for i in range(sx):
        for j in range(sy):
            b = {l: G[l][i * nx:(i + 1) * nx, j * ny:(j + 1) * ny] for l in G}
            for l in G:
                if l in 'XY':
                    out[l][i, j] = b[l].mean()
                elif l in w:
                    out[l][i, j] = wmean(b[l], b[w[l]])
                else:
                    out[l][i, j] = b[l].sum()
    rd = fdict(r)
    ri = {'shape': (sx, sy), 'spacing': r.spacing}
    for l in out:
        t.eq('downsampled ' + l, to_grid(rd, ri, l), out[l])


# ------------------------------------------------------------------ C12
@rt('C12', 100)
def supersample_smooths_by_stencil(t):
    sup = t.fn('droplets.resample', 'supersample_flow_data')
    d, info = regular(t, t.choice(['ij', 'xy', 'any']), hi=4)
    n = t.choice([None, 1, 2, 2, 3, 4])
    weights = t.choice([[], [('U', 'M'), ('V', 'M'), ('T', 'N')], [('T', 'M')]])
    if t.flip(0.15):
        d['M'] = -d['M']
    t.note(data=d, info=info, factor=n, weights=weights)
    flow = flow_of(t, d, info)
    snap = snapshot(fdict(flow))
    sinfo = (flow.shape, flow.spacing, flow.origin, flow.num_bins)
    r = sup(flow, n, weights=weights)
    unchanged(t, 'input map unmodified', fdict(flow), snap)
    t.same('input info unmodified', (flow.shape, flow.spacing, flow.origin, flow.num_bins), sinfo)
    t.true('the result does not share data with the input', not np.shares_memory(r.data, flow.data))
    if n in (None, 1):
        unchanged(t, 'equal copy', fdict(r), snap)
        t.same('equal copy info', (r.shape, r.spacing, r.origin, r.num_bins), sinfo)
        return
    NX, NY = info['shape'][0] * n, info['shape'][1] * n
    t.eq('shape', r.shape, (NX, NY))
    sp = tuple(s / n for s in info['spacing'])
    t.eq('spacing', r.spacing, sp)
    t.eq('origin', r.origin, (min(d['X']), min(d['Y'])))
    t.eq('number of bins', r.num_bins, NX * NY)
    rd = fdict(r)
    t.eq('X', np.sort(np.unique(np.round(rd['X'], 9))), np.round(min(d['X']) + sp[0] * np.arange(NX), 9), atol=1e-7)
    t.eq('Y', np.sort(np.unique(np.round(rd['Y'], 9))), np.round(min(d['Y']) + sp[1] * np.arange(NY), 9), atol=1e-7)
    F = {l: np.repeat(np.repeat(to_grid(d, info, l), n, 0), n, 1) for l in LABELS}
    w = dict(weights)
    ri = {'shape': (NX, NY), 'spacing': sp}
    for l in LABELS:
        out = np.zeros((NX, NY))
        for i in range(NX):
            for j in range(NY):
                sl = (slice(max(0, i - n + 1), i + n), slice(max(0, j - n + 1), j + n))
                out[i, j] = wmean(F[l][sl], F[w[l]][sl]) if l in w else F[l][sl].mean()
        t.eq('supersampled ' + l, to_grid(rd, ri, l), out)


# ------------------------------------------------------------------ C13
@rt('C13', 150)
def lims_cut_translate(t):
    d, info = regular(t, t.choice(['ij', 'any']))
    flow = flow_of(t, d, info)
    snap = snapshot(d)
    l = t.choice(list(d))
    vals = np.sort(d[l])
    pick = lambda: t.choice([None, t.choice(list(vals)), t.choice(list(vals)), t.real(), np.inf, -np.inf])
    vmin, vmax = pick(), pick()
    t.note(data=d, info=info, label=l, vmin=vmin, vmax=vmax)
    r = flow.lims(l, vmin, vmax)
    keep = np.array([(vmin is None or v >= vmin) and (vmax is None or v <= vmax) for v in d[l]], dtype=bool)
    for k in d:
        t.eq('kept bins ' + k, r.data[k], d[k][keep], rtol=0, atol=0)
    t.eq('number of bins', r.num_bins, int(keep.sum()))
    t.eq('spacing kept', r.spacing, info['spacing'])
    t.true('no shared data', not np.shares_memory(r.data, flow.data))
    unchanged(t, 'original unmodified', fdict(flow), snap)

    c = flow.copy()
    unchanged(t, 'copy equal', fdict(c), snap)
    t.same('copy info', (c.shape, c.spacing, c.origin, c.num_bins),
           (flow.shape, flow.spacing, flow.origin, flow.num_bins))
    t.true('copy shares no data', not np.shares_memory(c.data, flow.data))

    v = t.choice([t.real(), t.rng.uniform(-1, 1, d['X'].size)])
    tr = flow.translate(l, v)
    for k in d:
        t.eq('translated ' + k, tr.data[k], d[k] + v if k == l else d[k])
    t.same('translated info', (tr.shape, tr.spacing, tr.origin, tr.num_bins),
           (flow.shape, flow.spacing, flow.origin, flow.num_bins))
    t.true('translated shares no data', not np.shares_memory(tr.data, flow.data))
    unchanged(t, 'original unmodified by translate', fdict(flow), snap)
    t.raises('unknown field in lims', KeyError, flow.lims, 'nope', 0., 1.)
    t.raises('unknown field in translate', KeyError, flow.translate, 'nope', 1.)


@rt('C13', 120)
def cut_keeps_bins_inside(t):
    d, info = regular(t, t.choice(['ij', 'any']))
    if t.flip():
        info['origin'] = tuple(o - 0.5 * s for o, s in zip(info['origin'], info['spacing']))
    flow = flow_of(t, d, info)
    snap = snapshot(d)
    lims = []
    for l in 'XY':
        cs = list(np.unique(d[l]))
        pick = lambda: t.choice([None, t.choice(cs), t.choice(cs) + 0.01])
        lims.append((pick(), pick()))
    t.note(data=d, info=info, xlim=lims[0], ylim=lims[1])
    r = flow.cut(xlim=lims[0], ylim=lims[1])
    keep = np.ones(d['X'].size, dtype=bool)
    for l, (a, b) in zip('XY', lims):
        if a is not None:
            keep &= d[l] >= a
        if b is not None:
            keep &= d[l] <= b
    for k in d:
        t.eq('kept bins ' + k, r.data[k], d[k][keep], rtol=0, atol=0)
    shape = (np.unique(d['X'][keep]).size, np.unique(d['Y'][keep]).size)
    t.eq('shape', r.shape, shape)
    t.eq('number of bins', r.num_bins, shape[0] * shape[1])
    t.eq('spacing', r.spacing, info['spacing'])
    t.true('no shared data', not np.shares_memory(r.data, flow.data))
    unchanged(t, 'original unmodified', fdict(flow), snap)


@rt('C13', 80)
def lim_indices_are_intersection(t):
    g = t.fn('droplets.data_utils', 'get_lim_indices')
    d, info = regular(t, 'any')
    flow = flow_of(t, d, info)
    labels = [l for l in d if t.flip(0.4)][:3]
    lims = {}
    keep = np.ones(d['X'].size, dtype=bool)
    for l in labels:
        pick = lambda: t.choice([None, t.choice(list(d[l])), t.real()])
        a, b = pick(), pick()
        lims[l] = (a, b)
        if a is not None:
            keep &= d[l] >= a
        if b is not None:
            keep &= d[l] <= b
    t.note(data=d, lims=lims)
    r = g(flow.data, lims)
    got = r[0] if isinstance(r, tuple) else r
    t.eq('indices', sorted(np.asarray(got).tolist()), np.where(keep)[0].tolist())


# ------------------------------------------------------------------ C14
@rt('C14', 150)
def container_stores_fields(t):
    FlowData = t.fn('droplets.flow', 'FlowData')
    nx, ny = t.int(1, 4), t.int(1, 4)
    n = nx * ny
    fields = {}
    for l in t.rng.permutation(['X', 'Y', 'A', 'B', 'C'])[:t.int(1, 5)]:
        kind = t.choice(['f8', 'f4', 'i8', 'list', '2d'])
        if kind == 'list':
            fields[str(l)] = [float(v) for v in t.rng.uniform(-2, 2, n)]
        elif kind == '2d':
            fields[str(l)] = t.rng.uniform(-2, 2, (nx, ny))
        elif kind == 'i8':
            fields[str(l)] = t.rng.integers(-9, 9, n)
        else:
            fields[str(l)] = t.rng.uniform(-2, 2, n).astype(kind)
    args = []
    items = list(fields.items())
    k = t.int(0, len(items))
    args += [(l, v) for l, v in items[:k]]
    if items[k:]:
        args.append(dict(items[k:]))
    dtype = t.choice([None, None, 'float32', 'float64'])
    kw = {'dtype': dtype} if dtype else {}
    t.note(fields=fields, dtype=dtype, split=k)
    f = FlowData(*args, **kw)
    t.same('labels', list(f.data.dtype.names), [l for l, _ in items])
    t.same('properties', list(f.properties), [l for l, _ in items])
    for l, v in items:
        t.eq('values of ' + l, f.data[l], np.array(v).ravel().astype(dtype or np.array(v).dtype), rtol=0, atol=0)
        t.eq('get_data ' + l, f.get_data(l), f.data[l], rtol=0, atol=0)
        want = np.dtype(dtype) if dtype else np.array(v).dtype
        t.true('data type of ' + l, f.data.dtype[l] == want)
        t.true('not aliased ' + l, not (isinstance(v, np.ndarray) and np.shares_memory(f.data, v)))
    t.true('no such field', f.get_data('nope') is None)
    # refusal
    bad = list(items)
    m = t.choice([n + 1, n + 3, 1 if n > 1 else 2])
    bad.insert(t.int(0 if len(bad) > 0 else 0, len(bad)), ('bad', t.rng.random(m)))
    if len(bad) > 1:
        t.raises('arrays of unequal size', ValueError, FlowData, *bad)


@rt('C14', 150)
def container_keeps_info(t):
    FlowData = t.fn('droplets.flow', 'FlowData')
    f0 = [('X', np.arange(4.)), ('Y', np.arange(4.))]
    info = {}
    if t.flip(0.7):
        info['shape'] = t.choice([tuple, list])([t.int(0, 9), t.int(0, 9)])
    if t.flip(0.7):
        info['spacing'] = t.choice([tuple, list])([t.real(0.1, 2), t.real(0.1, 2)])
    if t.flip(0.7):
        info['origin'] = t.choice([tuple, list])([t.real(), t.choice([0., t.real()])])
    if t.flip(0.7):
        info['num_bins'] = t.int(0, 99)
    t.note(info=info)
    before = copy.deepcopy(info)
    f = FlowData(*f0, info=info)
    t.same('the given information is unmodified', info, before)
    for k in ('shape', 'spacing', 'origin'):
        t.same(k, getattr(f, k), tuple(info[k]) if k in info else (None, None))
    t.same('num_bins', f.num_bins, info.get('num_bins'))
    if 'shape' in info and 'spacing' in info:
        t.eq('size', f.size(), [a * b for a, b in zip(info['shape'], info['spacing'])])
    else:
        t.true('size undefined', f.size() is None)
    g = FlowData(*f0)
    g.set_info(info)
    t.same('set_info', (g.shape, g.spacing, g.origin, g.num_bins), (f.shape, f.spacing, f.origin, f.num_bins))
    g.set_info({})
    t.same('set_info resets', (g.shape, g.spacing, g.origin, g.num_bins),
           ((None, None), (None, None), (None, None), None))
    bad = t.choice([('shape', 3), ('shape', (1,)), ('shape', ('a', 'b')), ('shape', (1, None)), ('spacing', 1.),
                    ('spacing', ('x', 1.)), ('spacing', (1.,)), ('origin', 2.), ('origin', (None, 1.)),
                    ('num_bins', 'many'), ('num_bins', (1, 2))])
    t.note(bad=bad)
    t.raises('malformed ' + bad[0], ValueError, FlowData, *f0, info={bad[0]: bad[1]})
    t.raises('unknown information', KeyError, FlowData, *f0, info=dict(info, colour=1))
    t.same('the given information is unmodified', info, before)


@rt('C14', 80)
def container_sorts_records(t):
    d, info = regular(t, 'any')
    if t.flip(0.3):
        d['X'] = t.rng.integers(-2, 3, d['X'].size).astype(float)
        d['Y'] = t.rng.integers(-2, 3, d['X'].size).astype(float)
    flow = flow_of(t, d, info)
    before = sorted(map(tuple, flow.data.tolist()))
    t.note(data=d)
    kw = t.choice([{}, {'coord_labels': ('X', 'Y')}])
    flow.sort(**kw)
    t.same('set of records', sorted(map(tuple, flow.data.tolist())), before)
    k = list(zip(flow.data['Y'].tolist(), flow.data['X'].tolist()))
    t.same('order by y and then x', k, sorted(k))
    flow.sort(coord_labels=('T', 'N'))
    k = list(zip(flow.data['N'].tolist(), flow.data['T'].tolist()))
    t.same('order by other labels', k, sorted(k))
    t.same('set of records', sorted(map(tuple, flow.data.tolist())), before)


# ------------------------------------------------------------------ C21
@rt('C21', 150)
def simple_samples(t):
    com = t.fn('droplets.sample', 'sample_center_of_mass')
    ine = t.fn('droplets.sample', 'sample_inertial_energy')
    ang = t.fn('droplets.sample', 'sample_flow_angle')
    d, info = regular(t, 'any')
    ren = t.flip(0.3)
    if t.flip(0.3):
        d['U'][t.int(0, d['U'].size - 1)] = 0.
        d['V'][t.int(0, d['U'].size - 1)] = t.choice([0., -0.])
    kc, kf, km = {}, {}, {}
    X, Y, U, V, M = 'X', 'Y', 'U', 'V', 'M'
    if ren:
        d = {{'X': 'a', 'Y': 'b', 'U': 'c', 'V': 'e', 'M': 'm'}.get(l, l): v for l, v in d.items()}
        X, Y, U, V, M = 'abcem'
        kc, kf, km = {'coord_labels': (X, Y)}, {'flow_labels': (U, V)}, {'mass_label': M}
    t.note(data=d)
    flow = flow_of(t, d, info)
    snap = snapshot(fdict(flow))
    if d[M].sum() > 0:
        t.eq('centre of mass', com(flow, **kc, **km), [np.sum(d[X] * d[M]) / d[M].sum(), np.sum(d[Y] * d[M]) / d[M].sum()])
    else:
        t.raises('zero mass', ZeroDivisionError, com, flow, **kc, **km)
    t.eq('inertial energy', ine(flow, **kf, **km), 0.5 * d[M] * (d[U] ** 2 + d[V] ** 2))
    t.eq('angles', ang(flow, **kf), np.degrees(np.arctan2(d[V], d[U])))
    t.eq('mean angle', ang(flow, mean=True, **kf), np.degrees(np.arctan2(d[V].sum(), d[U].sum())))
    t.eq('weighted mean angle', ang(flow, mean=True, weight=M, **kf),
         np.degrees(np.arctan2((d[V] * d[M]).sum(), (d[U] * d[M]).sum())))
    unchanged(t, 'map unmodified', fdict(flow), snap)


# ------------------------------------------------------------------ C22
@rt('C22', 150)
def viscous_dissipation_by_gradients(t):
    visc = t.fn('droplets.sample', 'sample_viscous_dissipation')
    d, info = regular(t, t.choice(['ij', 'xy', 'any']), lo=3, hi=7, zeros=False)
    quad = t.flip(0.4)
    c = t.rng.uniform(-2, 2, (2, 6))
    if quad:
        for k, l in enumerate('UV'):
            x, y = d['X'], d['Y']
            d[l] = c[k, 0] + c[k, 1] * x + c[k, 2] * y + c[k, 3] * x * x + c[k, 4] * x * y + c[k, 5] * y * y
    mu = t.real(0.1, 2)
    w = t.choice([None, 'M', 'N'])
    t.note(data=d, info=info, mu=mu, weight=w)
    flow = flow_of(t, d, info)
    before = sorted(map(tuple, flow.data.tolist()))
    r = np.asarray(visc(flow, mu, weight_label=w)).ravel()
    t.same('set of records', sorted(map(tuple, flow.data.tolist())), before)
    t.eq('size', r.size, flow.data.size)
    W = to_grid(d, info, w) if w else 1.
    g = {}
    dx, dy = info['spacing']
    for l in 'UV':
        g[l, 0], g[l, 1] = grad2(to_grid(d, info, l) * W, dx, dy)
    if quad and w is None:
        X, Y = to_grid(d, info, 'X'), to_grid(d, info, 'Y')
        for k, l in enumerate('UV'):
            g[l, 0] = c[k, 1] + 2 * c[k, 3] * X + c[k, 4] * Y
            g[l, 1] = c[k, 2] + c[k, 4] * X + 2 * c[k, 5] * Y
    ux, uy, vx, vy = g['U', 0], g['U', 1], g['V', 0], g['V', 1]
    want = (2 * mu * (ux ** 2 + vy ** 2 - (ux + vy) ** 2 / 3) + mu * (vx + uy) ** 2) / W ** 2
    i, j = ij(fdict(flow), info)
    t.eq('dissipation', r, want[i, j], rtol=1e-6, atol=1e-7)


def grad2(g, dx, dy):
    out = []
    for ax, h in ((0, dx), (1, dy)):
        a = np.moveaxis(g, ax, 0)
        r = np.zeros_like(a)
        r[1:-1] = (a[2:] - a[:-2]) / (2 * h)
        r[0] = (-3 * a[0] + 4 * a[1] - a[2]) / (2 * h)
        r[-1] = (3 * a[-1] - 4 * a[-2] + a[-3]) / (2 * h)
        out.append(np.moveaxis(r, 0, ax))
    return out


@rt('C22', 20)
def viscous_dissipation_refuses(t):
    visc = t.fn('droplets.sample', 'sample_viscous_dissipation')
    d, info = regular(t, 'any', lo=3)
    k = t.choice(['shape', 'spacing'])
    info = {a: b for a, b in info.items() if a != k}
    t.note(missing=k)
    t.raises('no ' + k, ValueError, visc, flow_of(t, d, info), 1.)


# ------------------------------------------------------------------ C23
@rt('C23', 150)
def angles_binned_once(t):
    samp = t.fn('droplets.sample', 'sample_per_angle_from')
    mode = t.choice(['grid', 'random'])
    if mode == 'grid':
        d, info = regular(t, 'any')
        o = (t.choice(list(d['X'])), t.choice(list(d['Y'])))
        if t.flip():
            o = (o[0] + 0.013, o[1] + 0.037)
    else:
        n = t.int(1, 40)
        d = {'X': t.rng.uniform(-3, 3, n), 'Y': t.rng.uniform(-3, 3, n)}
        d.update(grid_values(t, n))
        info = {}
        o = (t.real(-1, 1), t.real(-1, 1))
    kw = {}
    size = t.choice([1., 5., 30., 45.])
    if size != 1. or t.flip():
        kw['size'] = size
    amin, amax = 0., 360.
    if t.flip():
        amin = kw['amin'] = size * int(t.choice([0, 30, 60, 90, 180]) // size)
    if t.flip():
        amax = kw['amax'] = amin + size * int((t.choice([210, 270, 300, 330]) - amin) // size)
    rmin, rmax = 0., np.inf
    if t.flip(0.4):
        rmin = kw['rmin'] = t.real(0.1, 1.)
    if t.flip(0.4):
        rmax = kw['rmax'] = t.real(1.2, 3.)
    w = t.choice([None, 'M'])
    if w:
        kw['weight'] = w
    l = t.choice(['U', 'T'])
    t.note(data=d, origin=o, label=l, options=kw)
    flow = flow_of(t, d, info)
    snap = snapshot(fdict(flow))
    r = samp(flow, o, l, **kw)
    unchanged(t, 'map unmodified', fdict(flow), snap)
    top = min(360. - size, amax)
    nang = int(np.floor((top - amin) / size + 1e-9)) + 1
    angles = amin + size * np.arange(nang)
    t.eq('sampling angles', r['angle'], angles)
    dx, dy = d['X'] - o[0], d['Y'] - o[1]
    dr = np.hypot(dx, dy)
    deg = np.mod(np.degrees(np.arctan2(dy, dx)), 360)
    acc = [[[], []] for _ in angles]
    for k in range(dx.size):
        if dr[k] < 1e-12:
            continue
        if not (rmin <= dr[k] <= rmax and amin <= deg[k] <= amax):
            continue
        a = deg[k] - 0.5 * size + 1e-6
        dist = np.abs(angles - a)
        m = np.argsort(dist)[:2]
        if len(m) > 1 and abs(dist[m[0]] - dist[m[1]]) < 1e-9:
            return
        for edge in (amin, amax):
            if abs(deg[k] - edge) < 1e-9 and deg[k] != edge:
                return
        if abs(dr[k] - rmin) < 1e-9 or abs(dr[k] - rmax) < 1e-9:
            return
        acc[m[0]][0].append(d[l][k])
        acc[m[0]][1].append(d[w][k] if w else 1.)
    want = [np.sum(np.multiply(v, ws)) / np.sum(ws) if v and np.sum(ws) > 0 else 0. for v, ws in acc]
    t.eq('mean per angle', r[l], want)


# ------------------------------------------------------------------ C31
def plain(data):
    return {l: np.ma.getdata(data[l]) for l in data.dtype.names}


@rt('C31', 120)
def derived_fields_aligned(t):
    d, info = regular(t, t.choice(['ij', 'xy', 'any']), lo=3, hi=6, zeros=False)
    flow = flow_of(t, d, info)
    kind = t.choice(['flow', 'radial', 'visc', 'grad', 'evap'])
    t.note(data=d, info=info, kind=kind)
    dx, dy = info['spacing']
    g = {l: to_grid(d, info, l) for l in d}

    def grad1(a):
        return np.gradient(a, dx, axis=0), np.gradient(a, dy, axis=1)
    if kind == 'flow':
        r = t.fn('strata.view_flowmap', 'add_absolute_flow')(flow.data)
        new = {'flow': np.sqrt(g['U'] ** 2 + g['V'] ** 2)}
    elif kind == 'radial':
        c = (t.real(), t.real())
        r = t.fn('strata.view_flowmap', 'add_radial_flow')(flow.data, c)
        ax, ay = g['X'] - c[0], g['Y'] - c[1]
        rr = np.hypot(ax, ay)
        new = {'radial': g['U'] * ay / rr - g['V'] * ax / rr}
    elif kind == 'visc':
        mu = t.real(0.1, 2)
        t.fn('strata.view_flowmap', 'add_viscous_dissipation')(flow, mu)
        r = flow.data
        ux, uy = grad2(g['U'] * g['M'], dx, dy)
        vx, vy = grad2(g['V'] * g['M'], dx, dy)
        new = {'visc': (2 * mu * (ux ** 2 + vy ** 2 - (ux + vy) ** 2 / 3) + mu * (vx + uy) ** 2) / g['M'] ** 2}
    elif kind == 'grad':
        t.fn('strata.view_flowmap', 'add_density_gradient')(flow)
        r = flow.data
        gx, gy = grad1(g['M'])
        new = {'grad_rho_x': gx, 'grad_rho_y': gy}
    else:
        t.fn('strata.view_flowmap', 'add_evaporation')(flow)
        r = flow.data
        gx, gy = grad1(g['M'])
        new = {'evaporation': g['U'] * gx + g['V'] * gy}
    r = plain(r)
    t.same('fields', sorted(r), sorted(list(d) + list(new)))
    i, j = ij(r, info)
    for l in d:
        t.eq('kept field ' + l, r[l], g[l][i, j], rtol=0, atol=0)
    for l in new:
        t.eq('added field ' + l, r[l], new[l][i, j], rtol=1e-6, atol=1e-8)


@rt('C31', 120)
def quiver_data_selected(t):
    q = t.fn('strata.view_flowmap', 'get_quiver_data')
    d, info = regular(t, 'any')
    for l in 'UV':
        d[l][t.rng.random(d[l].size) < 0.3] = 0.
    flow = flow_of(t, d, info)
    lim = lambda l: t.choice([(None, None), (t.choice(list(d[l])), None), (None, t.choice(list(d[l])))])
    xlim, ylim = lim('X'), lim('Y')
    clim = t.choice([(None, None), ('M', None), ('M', t.choice(list(d['M']))), ('N', t.real(0, 3))])
    col = t.choice([None, 'T'])
    t.note(data=d, xlim=xlim, ylim=ylim, clim=clim, colour=col)
    r = list(q(flow.data, ['U', 'V'], ['X', 'Y'], col, clim, xlim, ylim))
    keep = (d['U'] != 0) | (d['V'] != 0)
    for l, (a, b) in (('X', xlim), ('Y', ylim)):
        if a is not None:
            keep &= d[l] >= a
        if b is not None:
            keep &= d[l] <= b
    if clim[0] and clim[1] is not None:
        keep &= d[clim[0]] >= clim[1]
    want = [d[l][keep] for l in 'XYUV'] + [d[col][keep] if col else np.ones(keep.sum())]
    for n, a, b in zip(['x', 'y', 'u', 'v', 'weights'], r, want):
        t.eq('selected ' + n, a, b, rtol=0, atol=0)
