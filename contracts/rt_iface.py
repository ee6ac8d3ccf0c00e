"""Runtime contracts of the interface, contact line and spreading operations
(bounded stand-ins)."""
import os
import numpy as np
from pv.rt import rt
from contracts.rt_grid import LABELS, grid_values, regular, flow_of, fdict, snapshot, unchanged, wmean


def dyadic(t, nx, ny, p=None, order='any', dx=None, dy=None):
    """Map with dyadic coordinates and blocks of high mass."""
    dx, dy = dx or t.choice([0.25, 0.5, 1.]), dy or t.choice([0.25, 0.5, 1.])
    x0, y0 = t.choice([0., -1.5, 3.25]), t.choice([0., 0.5, -2.])
    xs, ys = np.meshgrid(x0 + dx * np.arange(nx), y0 + dy * np.arange(ny), indexing='ij')
    d = {'X': xs.ravel(), 'Y': ys.ravel()}
    d.update(grid_values(t, nx * ny, False))
    p = p if p is not None else t.choice([0.2, 0.5, 0.8])
    full = t.rng.random(nx * ny) < p
    d['M'] = np.where(full, t.choice([10., 5.]) + t.rng.integers(0, 3, nx * ny), t.rng.integers(0, 3, nx * ny)).astype(float)
    perm = {'any': t.rng.permutation(nx * ny), 'ij': np.arange(nx * ny),
            'xy': np.arange(nx * ny).reshape(nx, ny).T.ravel()}[order]
    d = {l: d[l][perm].copy() for l in d}
    return d, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': nx * ny}


def options(t, d, info, periodic):
    kw = {}
    if t.flip():
        kw['cutoff'] = float(t.choice([3., 5., 10., 11.]))
    dx, dy = info['spacing']
    box = info['shape'][0] * dx
    r = min(dx, dy)
    if t.flip(0.7):
        r = t.choice([dx, dy, 2 * dx, np.hypot(dx, dy), 1.5 * dy, t.real(0.1, 2.)])
        if periodic:
            r = min(r, 0.5 * box - 1e-3)
        kw['cutoff_radius'] = float(r)
    elif periodic and r >= 0.5 * box:
        r = kw['cutoff_radius'] = 0.5 * box - 1e-3
    if t.flip(0.6):
        kw['cutoff_bins'] = t.int(0, 4)
    if t.flip(0.3):
        ys = np.unique(d['Y'])
        a = t.choice([None] + list(ys))
        b = t.choice([None] + list(ys))
        kw['ylims'] = (a, b)
    return kw


def droplet_cells(d, info, kw, label='M', periodic=False):
    c = kw.get('cutoff', None)
    v = d[label]
    if c is None:
        c = 0.5 * (v.min() + v.max())
    r = kw.get('cutoff_radius', None)
    if r is None:
        df = [np.diff(np.unique(d[l])) for l in 'XY']
        r = min(x.min() for x in df if x.size)
    n = kw.get('cutoff_bins', 1)
    box = info['shape'][0] * info['spacing'][0]
    out = np.zeros(v.size, bool)
    for k in range(v.size):
        if v[k] < c:
            continue
        cnt = 0
        for m in range(v.size):
            if m == k or v[m] < c:
                continue
            dxs = [d['X'][m] - d['X'][k]]
            if periodic:
                dxs += [dxs[0] + box, dxs[0] - box]
            if any(x * x + (d['Y'][m] - d['Y'][k]) ** 2 <= r * r for x in dxs):
                cnt += 1
        out[k] = cnt >= n
    return out


def layers(d, kw):
    ys = np.unique(d['Y'])
    lo, hi = kw.get('ylims', (None, None))
    return [y for y in ys if (lo is None or y >= lo) and (hi is None or y <= hi)]


def outermost(d, info, kw, label='M'):
    cells = droplet_cells(d, info, kw, label)
    out = []
    for y in layers(d, kw):
        ks = [k for k in np.where(d['Y'] == y)[0] if cells[k]]
        if ks:
            ks.sort(key=lambda k: d['X'][k])
            out.append((ks[0], ks[-1]))
    return out


def collect_interface(gen):
    out = []
    for item in gen:
        out.append(item)
    return out


# ------------------------------------------------------------------ C15
@rt('C15', 150)
def outermost_edges(t):
    gi = t.fn('droplets.interface', 'get_interface')
    d, info = dyadic(t, t.int(2, 7), t.int(1, 5), order=t.choice(['any', 'ij', 'xy']))
    kw = options(t, d, info, False)
    if t.flip(0.05):
        d['M'][:] = 3.
        kw.pop('cutoff', None)
    t.note(data=d, info=info, options=kw)
    flow = flow_of(t, d, info)
    snap = snapshot(d)
    got = collect_interface(gi(flow, 'M', **dict(kw)))
    unchanged(t, 'map unmodified', fdict(flow), snap)
    if d['M'].min() == d['M'].max() and 'cutoff' not in kw:
        t.same('homogeneous map', got, [])
        return
    t.same('index pairs', [tuple(int(x) for x in p) for p in got],
           [tuple(int(x) for x in p) for p in outermost(d, info, kw)])


# ------------------------------------------------------------------ C16
def runs(filled):
    n = len(filled)
    if all(filled):
        return [(k, n) for k in range(n)]
    out = []
    for k in range(n):
        if filled[k] and not filled[k - 1]:
            m = 0
            while filled[(k + m) % n]:
                m += 1
            out.append((k, m))
    return out


@rt('C16', 150)
def longest_periodic_run(t):
    gi = t.fn('droplets.interface', 'get_interface')
    d, info = dyadic(t, t.int(3, 9), t.int(1, 4), order=t.choice(['any', 'ij', 'xy']))
    if t.flip(0.2):     # full layer
        y = t.choice(list(np.unique(d['Y'])))
        d['M'][d['Y'] == y] = 10.
    kw = options(t, d, info, True)
    t.note(data=d, info=info, options=kw)
    if d['M'].min() == d['M'].max():
        return
    flow = flow_of(t, d, info)
    snap = snapshot(d)
    got = collect_interface(gi(flow, 'M', search_longest_connected=True, **dict(kw)))
    unchanged(t, 'map unmodified', fdict(flow), snap)
    cells = droplet_cells(d, info, kw, periodic=True)
    k = 0
    for y in layers(d, kw):
        ks = sorted(np.where(d['Y'] == y)[0], key=lambda i: d['X'][i])
        rs = runs([cells[i] for i in ks])
        if not rs:
            continue
        t.true('a pair for the layer at y = %r' % y, k < len(got))
        l, r = got[k]
        t.true('indices of the layer at y = %r' % y, l in ks and r in ks)
        m = max(x[1] for x in rs)
        want = [(ks[a], ks[(a + m - 1) % len(ks)]) for a, n in rs if n == m]
        t.true('%r is a longest run of the layer at y = %r, which are %r' % ((l, r), y, want), (l, r) in want)
        k += 1
    t.same('number of pairs', len(got), k)


@rt('C16', 40)
def connected_needs_shape(t):
    gi = t.fn('droplets.interface', 'get_interface')
    d, info = dyadic(t, 4, 3)
    miss = t.choice(['shape', 'spacing'])
    info = {k: v for k, v in info.items() if k != miss}
    t.note(missing=miss)
    if d['M'].min() == d['M'].max():
        return
    t.raises('unset ' + miss, ValueError, lambda: list(gi(flow_of(t, d, info), 'M', search_longest_connected=True,
                                                         cutoff_radius=0.3)))


# ------------------------------------------------------------------ C18
def edge_history(t, nx, n, w0=None):
    """True cell positions of the edges of a droplet over n frames; unwrapped."""
    q = (nx - 1) // 4
    while True:
        L = t.int(0, nx - 3)
        R = min(nx - 1, L + (w0 or t.int(1, nx - 3)))
        if L + 1 <= R and R - L <= nx - 3:
            break
    out = [(L, R)]
    drift = t.choice([-1, 0, 1])
    while len(out) < n:
        for _ in range(100):
            a = L + t.int(-q, q) + (t.int(0, 1) * drift)
            b = R + t.int(-q, q) + (t.int(0, 1) * drift)
            if abs(a - L) > q or abs(b - R) > q or not 1 <= b - a <= nx - 3:
                continue
            if (a // nx != L // nx) and (b // nx != R // nx):
                continue
            break
        else:
            a, b = L, R
        L, R = a, b
        out.append((L, R))
    return out


def droplet_map(t, nx, ny, dx, dy, x0, y0, spans):
    """spans: {layer: (L, R)} unwrapped cell indices, inclusive."""
    xs, ys = np.meshgrid(x0 + dx * np.arange(nx), y0 + dy * np.arange(ny), indexing='ij')
    M = t.rng.uniform(0, 1, (nx, ny))
    for j, (L, R) in spans.items():
        for k in range(L, R + 1):
            M[k % nx, j] = t.rng.uniform(9, 10)
    M[0, 0] = max(M[0, 0], 0.)
    v = grid_values(t, nx * ny, False)
    d = {'X': xs.ravel(), 'Y': ys.ravel()}
    d.update(v)
    d['M'] = np.float32(M.ravel()).astype(float)
    return d, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (x0 - .5 * dx, y0 - .5 * dy), 'num_bins': nx * ny}


@rt('C18', 60)
def spreading_rows(t):
    collect = t.fn('strata.spreading.collect', 'collect')
    from contracts.rt_io import write_map
    t.fn('strata.strata', 'version')
    for rep in range(2):
        nx, ny = t.int(8, 16), 4
        dx, dy = t.choice([0.25, 0.5, 1.]), 1.
        x0, y0 = t.choice([0., 0.5, 2.]) + .5 * dx, t.choice([0.5, 1.5])
        n = t.int(1, 7)
        hist = edge_history(t, nx, n)
        dry = [t.flip(0.25) for _ in range(n)]
        first = t.int(0, min(2, n - 1))
        for k in range(first):
            dry[k] = True
        floor = t.choice([None, y0 - 0.5, y0 + 1 - 0.5])
        j = 0 if floor is None else int(round(floor + 0.5 - y0))
        base = os.path.join(t.tmp, 'm%d_' % rep)
        rows, hk = [], 0
        begin = t.choice([1, 3])
        names = []
        for k in range(n):
            L, R = hist[hk]
            if dry[k]:
                spans = {} if floor is None else {jj: (L, R) for jj in range(j + 2, 4)}
                d, info = droplet_map(t, nx, ny, dx, dy, x0, y0, spans)
                if floor is None:
                    d['M'][:] = 0.
            else:
                lo = 0 if (floor is not None and t.flip()) else j
                d, info = droplet_map(t, nx, ny, dx, dy, x0, y0, {jj: (L, R) if jj >= j else (L, R) for jj in range(lo, 4)})
                rows.append((L, R, k))
                hk += 1
            fn = '%s%05d.dat' % (base, begin + k)
            names.append(os.path.basename(fn))
            write_map(t, t.choice(['simple', 'gmx']), fn, d, info)
        kw = {'begin': begin, 'quiet': t.flip(), 'cutoff_radius': float(dx), 'cutoff': 5.}
        if floor is not None:
            kw['floor'] = floor
        dt, t0 = 1., 0.
        if t.flip():
            dt = kw['dt'] = t.choice([0.5, 2.])
        if t.flip(0.3):
            t0 = kw['t0'] = 3.
        save = os.path.join(t.tmp, 'out%d.xvg' % rep) if t.flip(0.8) else None
        if save:
            kw['save'] = save
        t.note(**{'run%d' % rep: dict(history=hist, dry=dry, options=kw, nx=nx, dx=dx, x0=x0, y0=y0)})
        r = collect(base, **dict(kw))
        times = [t0 + dt * i for i in range(len(rows))]
        radii = [0.5 * dx * (R - L) for L, R, _ in rows]
        t.eq('times', r['t'], times, rtol=1e-5)
        t.eq('radii', r['r'], radii, rtol=1e-5, atol=1e-4)
        if save:
            text = open(save).read().split('\n')
            got = [[float(x) for x in l.split()] for l in text if l and not l.startswith('#')]
            t.same('number of rows', len(got), len(rows))
            if rows:
                off = (rows[0][0] // nx)
                want = [[tm, ra, x0 + dx * (L - off * nx), x0 + dx * (R - off * nx)]
                        for tm, ra, (L, R, _) in zip(times, radii, rows)]
                t.eq('rows', got, want, atol=1.1e-3, rtol=0)
                k = rows[0][2]
                t.true('impact file is %s' % names[k], any(l.startswith('#') and ("'%s'" % names[k]) in l for l in text))
                t.true('impact time is %.3f' % (k * dt), any(l.startswith('#') and ('Time: %.3f' % (k * dt)) in l for l in text))
                t.same('one impact', sum('Droplet impact' in l for l in text), 1)


# ------------------------------------------------------------------ C19
@rt('C19', 150)
def contact_line_region(t):
    g = t.fn('droplets.contact_line', 'get_contact_line_cells')
    d, info = dyadic(t, t.int(2, 8), t.int(1, 6), order=t.choice(['any', 'ij', 'xy']))
    kw = options(t, d, info, False)
    kw.pop('ylims', None)
    if t.flip(0.3):
        kw['ylims'] = (t.choice([None] + list(np.unique(d['Y']))), None)
    if t.flip(0.1):
        kw['cutoff_bins'] = 100
    dx, dy = info['spacing']
    width, height = t.choice([0., dx, 2.25 * dx, 20.]), t.choice([0., dy, 2.5 * dy, 20.])
    eh = t.choice([None, 0., dy, 1.5 * dy])
    opt = dict(kw)
    if (width, height) != (0., 0.) or t.flip():
        opt['extract_area'] = (width, height)
    if eh is not None:
        opt['extract_height'] = eh
    t.note(data=d, info=info, options=opt)
    if d['M'].min() == d['M'].max():
        return
    flow = flow_of(t, d, info)
    snap = snapshot(d)
    res = g(flow, 'M', **opt)
    unchanged(t, 'map unmodified', fdict(flow), snap)
    iface = outermost(d, info, kw)
    for side, cells in zip((0, 1), res):
        if not iface:
            t.same('no interface gives no cells', len(cells), 0)
            continue
        yb = d['Y'][iface[0][0]]
        inds = [p[side] for p in iface if d['Y'][p[0]] <= yb + height]
        i = max(k for k in range(len(inds)) if d['Y'][inds[k]] <= yb + (eh or 0.))
        xin = d['X'][inds[i]] + (width if side == 0 else -width)
        xi = [d['X'][k] for k in inds]
        keep = (d['X'] >= min(xi + [xin])) & (d['X'] <= max(xi + [xin])) & (d['Y'] >= yb) & (d['Y'] <= d['Y'][inds[-1]])
        for l in d:
            t.eq('side %d, field %s' % (side, l), cells[l], d[l][keep], rtol=0, atol=0)
        t.true('cells share no data with the map', not np.shares_memory(cells, flow.data))


@rt('C19', 80)
def moving_cells(t):
    g = t.fn('droplets.contact_line', 'adjust_cell_coordinates')
    d, info = dyadic(t, t.int(1, 5), t.int(1, 4))
    side = t.choice(['left', 'right'])
    flow = flow_of(t, d, info)
    cells = flow.data if t.flip(0.9) else flow.data[:0]
    t.note(data=d, side=side, n=cells.size)
    snap = {l: cells[l].copy() for l in d}
    adj, r = g(cells, side)
    for l in d:
        t.eq('cells unmodified', cells[l], snap[l])
    if cells.size:
        a = (d['X'].max() if side == 'left' else d['X'].min(), d['Y'].min())
        t.eq('adjustment', adj, a)
        for l in d:
            t.eq('moved ' + l, r[l], snap[l] - (a['XY'.index(l)] if l in 'XY' else 0.), rtol=0, atol=1e-12)
    else:
        t.same('no cells', len(r), 0)
    t.raises('bad direction', KeyError, g, flow.data, 'up')


# ------------------------------------------------------------------ C20
@rt('C20', 100)
def merging_two_edges(t):
    comb = t.fn('strata.contact_line_analysis', 'combine_flow_data')
    dx, dy = t.choice([0.25, 0.5, 1.]), t.choice([0.25, 0.5])
    x0, y0 = t.choice([0., 1.5, -2.]), t.choice([0., 0.5])
    flows, parts = [], []
    for k in range(2):
        nx, ny = t.int(1, 4), t.int(1, 4)
        ox, oy = t.int(-3, 3), t.choice([0, 0, 1])
        xs, ys = np.meshgrid(x0 + dx * (np.arange(nx) + ox + .5), y0 + dy * (np.arange(ny) + oy + .5))
        d = {'X': xs.ravel(), 'Y': ys.ravel()}
        d.update(grid_values(t, nx * ny))
        for l in 'UVT':
            d[l][t.rng.random(nx * ny) < 0.2] = 0.
        flows.append(flow_of(t, d, {'shape': (nx, ny), 'spacing': (dx, dy), 'origin': (xs.min(), ys.min())}))
        parts.append((ox, oy, nx, ny, d))
    t.note(left=parts[0], right=parts[1], spacing=(dx, dy))
    snaps = [snapshot(p[4]) for p in parts]
    r = comb(flows, (dx, dy))
    for f, s in zip(flows, snaps):
        unchanged(t, 'edge unmodified', fdict(f), s)
    i0, j0 = min(p[0] for p in parts), min(p[1] for p in parts)
    NX, NY = max(p[0] + p[2] for p in parts) - i0, max(p[1] + p[3] for p in parts) - j0
    t.eq('shape', r.shape, (NX, NY))
    t.eq('spacing', r.spacing, (dx, dy))
    t.eq('origin', r.origin, (x0 + dx * i0, y0 + dy * j0))
    t.eq('number of bins', r.num_bins, NX * NY)
    X, Y = np.meshgrid(x0 + dx * (np.arange(NX) + i0), y0 + dy * (np.arange(NY) + j0), indexing='ij')
    t.eq('X', r.data['X'], X.ravel(), atol=1e-9)
    t.eq('Y', r.data['Y'], Y.ravel(), atol=1e-9)
    G = []
    for ox, oy, nx, ny, d in parts:
        g = {l: np.zeros((NX, NY)) for l in LABELS}
        for l in LABELS:
            g[l][ox - i0:ox - i0 + nx, oy - j0:oy - j0 + ny] = d[l].reshape(ny, nx).T
        G.append(g)
    w = {'U': 'M', 'V': 'M', 'T': 'N'}
    for l in LABELS:
        a, b = G[0][l], G[1][l]
        both = (a != 0) & (b != 0)
        if l in w:
            wa, wb = G[0][w[l]], G[1][w[l]]
            s = wa + wb
            m = np.where(s != 0, (wa * a + wb * b) / np.where(s == 0, 1, s), 0.)
        else:
            m = 0.5 * (a + b)
        t.eq('merged ' + l, r.data[l], np.where(both, m, a + b).ravel())


@rt('C20', 60)
def contact_line_commands(t):
    extract = t.fn('strata.contact_line_analysis', 'extract_contact_line_bins')
    sample = t.fn('strata.contact_line_analysis', 'sample_contact_line_edges')
    t.fn('strata.strata', 'version')
    from contracts.rt_io import write_map
    nx, ny = t.int(10, 16), 4
    dx, dy = t.choice([0.25, 0.5, 1.]), t.choice([0.5, 1.])
    k0 = t.int(0, 4)
    n, avg, rolling = t.int(1, 5), t.int(1, 3), t.flip(0.4)
    base = os.path.join(t.tmp, 'in_')
    maps = []
    begin = t.choice([1, 2])
    L, R = t.int(1, 3), nx - t.int(2, 4)
    for k in range(n):
        L = max(1, L + t.int(-1, 1))
        R = max(L + 2, min(nx - 2, R + t.int(-1, 1)))
        d, info = droplet_map(t, nx, ny, dx, dy, (k0 + .5) * dx, .5 * dy, {j: (L, R) for j in range(ny)})
        write_map(t, 'gmx', '%s%05d.dat' % (base, begin + k), d, info)
        maps.append((d, info))
    w = t.choice([0., dx, 2 * dx])
    kw = {'begin': begin, 'quiet': t.flip(), 'extract_area': (w, t.choice([0., dy, 20.])), 'cutoff_radius': float(dx)}
    opt = {'average': avg, 'rolling': rolling}
    nout = max(0, n - avg + 1) if rolling else n // avg
    rec, fuse = t.flip(0.2), t.flip(0.2)
    t.note(n=n, options=kw, more=opt, recenter=rec, fuse=fuse, maps=maps)
    out = os.path.join(t.tmp, 'o/out_')
    extract(base, out, recenter=rec, fuse=fuse, **opt, **dict(kw))
    got = sorted(os.listdir(os.path.join(t.tmp, 'o'))) if nout else []
    t.same('one map per bundle', got, ['out_%05d.dat' % (begin + k) for k in range(nout)])
    rd = t.fn('strata.dataformats.gmx_flow_version_1.main', 'read_data')

    def region(d, info):
        iface = outermost(d, info, {'cutoff_radius': float(dx)})
        yb = d['Y'][iface[0][0]]
        keeps = []
        for side in (0, 1):
            inds = [p[side] for p in iface if d['Y'][p[0]] <= yb + kw['extract_area'][1] + 1e-9]
            xin = d['X'][inds[0]] + (w if side == 0 else -w)
            xi = [d['X'][q] for q in inds]
            keeps.append((d['X'] >= min(xi + [xin]) - 1e-9) & (d['X'] <= max(xi + [xin]) + 1e-9) &
                         (d['Y'] >= yb - 1e-9) & (d['Y'] <= d['Y'][inds[-1]] + 1e-9))
        return keeps
    if avg == 1 and not rec and not fuse:
        for (d, info), fn in zip(maps, got):
            r, ri = rd(os.path.join(t.tmp, 'o', fn))
            l, rr = region(d, info)
            keep = l | rr
            want = {(round(x / dx * 2), round(y / dy * 2)): m for x, y, m in
                    zip(d['X'][keep], d['Y'][keep], d['M'][keep])}
            have = {(round(x / dx * 2), round(y / dy * 2)): m for x, y, m in
                    zip(r['X'], r['Y'], r['M']) if m != 0}
            want = {k: v for k, v in want.items() if v != 0}
            t.same('bins written', sorted(have), sorted(want))
            t.eq('mass of bins', [have[k] for k in sorted(have)], [want[k] for k in sorted(want)], rtol=1e-5)
    save = os.path.join(t.tmp, 's.xvg')
    total = t.flip()
    labels = ['M', 'U']
    times, samples = sample(base, labels, save=save if t.flip(0.7) else None, sum=total, dt=0.5, **opt, **dict(kw))
    want = [(np.floor(0.5 * avg) + k * (1 if rolling else avg)) * 0.5 for k in range(nout)]
    t.eq('times', times, want)
    for s in samples:
        t.same('one sample per bundle', len(s), nout)
    if os.path.exists(save):
        t.same('one row per bundle', sum(1 for x in open(save) if x.strip() and not x.startswith('#')), nout)
    if avg == 1:
        for k, (d, info) in enumerate(maps):
            vals = {l: [] for l in labels}
            for side, keep in enumerate(region(d, info)):
                m = d['M'][keep]
                sel = m >= 0.5 * (m.max() + m.min())
                for l in labels:
                    v = d[l][keep][sel] * (-1 if (l == 'U' and side == 0) else 1)
                    vals[l].append(v.sum() if total else v.mean())
            for i, l in enumerate(labels):
                v = vals[l]
                t.eq('sample of ' + l, samples[i][k][0], sum(v) if total else np.mean(v), rtol=1e-4, atol=1e-5)


# ------------------------------------------------------------------ C27
@rt('C27', 120)
def angle_on_map(t):
    g = t.fn('droplets.interface', 'get_contact_angle')
    d, info = dyadic(t, t.int(3, 8), t.int(2, 6), p=0.7, order=t.choice(['any', 'ij', 'xy']))
    kw = options(t, d, info, False)
    kw.pop('ylims', None)
    floor = t.choice([None, None] + list(np.unique(d['Y'])))
    dy = info['spacing'][1]
    if d['M'].min() == d['M'].max():
        return
    k2 = dict(kw)
    if floor is not None:
        floor = floor + t.choice([0., 0.2 * dy])
        ys = np.unique(d['Y'])
        yf = ys[np.abs(ys - floor).argmin()]
        k2['ylims'] = (yf, None)
    iface = outermost(d, info, k2)
    if len(iface) < 2:
        return
    y = [d['Y'][p[0]] for p in iface]
    height = t.choice([yy - y[0] for yy in y[1:]]) + t.choice([0., 0.3 * dy])
    t.note(data=d, info=info, options=kw, floor=floor, height=height)
    opt = dict(kw)
    if floor is not None:
        opt['floor'] = floor
    flow = flow_of(t, d, info)
    got = g(flow, height, 'M', **opt)
    if floor is not None and y[0] != yf:
        t.same('no cells in the floor layer', tuple(got), (None, None))
        return
    k = max(i for i in range(len(y)) if y[i] - y[0] <= height)
    if k == 0:
        return
    x = lambda i, s: d['X'][iface[i][s]]
    dh = y[k] - y[0]
    left = np.degrees(np.arctan2(dh, x(k, 0) - x(0, 0)))
    right = np.degrees(np.arctan2(dh, x(0, 1) - x(k, 1)))
    t.eq('angles', got, (left, right))
    m = {l: d[l].copy() for l in d}
    m['X'] = -m['X']
    got2 = g(flow_of(t, m, dict(info)), height, 'M', **opt)
    t.eq('mirrored droplet exchanges the angles', got2, (got[1], got[0]))


@rt('C27', 150)
def angle_of_interface(t):
    meas = t.fn('strata.interface.angle', 'measure_angle')
    seg = t.fn('strata.interface.angle', 'fit_angle_from_segment')
    read = t.fn('strata.interface.angle', 'read_interface_file')
    n = t.int(2, 7)
    ys = np.arange(n) * t.choice([0.25, 0.5])
    xl, xr = np.round(t.rng.uniform(0, 3, n), 3), np.round(t.rng.uniform(4, 8, n), 3)
    path = os.path.join(t.tmp, 'i.xvg')
    np.savetxt(path, np.array([np.r_[xl, xr[::-1]], np.r_[ys, ys[::-1]]]).T, fmt='%.3f', header='c')
    left, right = read(path)
    for e, x in ((left, xl), (right, xr)):
        t.eq('read x', e['X'], x)
        t.eq('read y', e['Y'], ys)
    k = t.int(1, n - 1)
    h = ys[k] + t.choice([0., 0.2, -0.2]) * ys[1]
    t.note(xl=xl, xr=xr, ys=ys, height=h)
    t.eq('left angle', meas(left, 'left', h), np.degrees(np.arctan2(ys[k], xl[k] - xl[0])))
    t.eq('right angle', meas(right, 'right', h), np.degrees(np.arctan2(ys[k], xr[0] - xr[k])))
    t.eq('circular segment', seg(left, right), 2 * np.degrees(np.arctan(2 * ys.max() / (xr[0] - xl[0]))))
    up = t.choice([0.5, 3., -1.])
    for e in (left, right):
        e['Y'] += up
    t.note(raised=up)
    t.eq('left angle, raised', meas(left, 'left', h), np.degrees(np.arctan2(ys[k], xl[k] - xl[0])))
    t.eq('right angle, raised', meas(right, 'right', h), np.degrees(np.arctan2(ys[k], xr[0] - xr[k])))


@rt('C27', 25)
def angles_over_series(t):
    f = t.fn('strata.interface.angle', 'interface_contact_angle')
    t.fn('strata.strata', 'version')
    n, m = t.int(2, 6), t.int(1, 4)
    base = os.path.join(t.tmp, 'i_')
    h = 0.5 * t.int(1, n - 1)
    k = int(round(h / 0.5))
    fit, dt = t.flip(), t.choice([1., 0.5])
    W = {'left': [], 'right': [], 'fit': [], 'measured': []}
    ys = np.arange(n) * 0.5
    for i in range(m):
        xl, xr = np.round(t.rng.uniform(0, 3, n), 3), np.round(t.rng.uniform(4, 8, n), 3)
        np.savetxt('%s%05d.xvg' % (base, i + 1), np.array([np.r_[xl, xr[::-1]], np.r_[ys, ys[::-1]]]).T, fmt='%.3f')
        W['left'].append(np.degrees(np.arctan2(ys[k], xl[k] - xl[0])))
        W['right'].append(np.degrees(np.arctan2(ys[k], xr[0] - xr[k])))
        W['measured'].append(0.5 * (W['left'][-1] + W['right'][-1]))
        if fit:
            W['fit'].append(2 * np.degrees(np.arctan(2 * ys.max() / (xr[0] - xl[0]))))
    t.note(height=h, fit=fit, n=n, m=m)
    times, a = f(base, fit=fit, height=h, delta_t=dt, show=False, quiet=t.flip())
    t.eq('times', times, [i * dt for i in range(m)])
    for q in W:
        t.eq('angles: ' + q, a[q], W[q])


# ------------------------------------------------------------------ C32
def layered_history(t, nx, n):
    """Per frame a dict {layer: (L, R)} of true unwrapped cell edges."""
    q = max(1, (nx - 1) // 4 - 1)
    span = t.int(nx // 3, nx // 2)
    c = t.int(1, nx - span - 2)
    lo, hi = t.int(0, 2), t.int(4, 6)
    frames = []
    L, R = c, c + span
    drift = t.choice([-1, 1])
    shape = {j: (t.int(0, 1), t.int(0, 1)) for j in range(8)}
    for k in range(n):
        if k:
            for _ in range(50):
                a, b = L + t.int(0, q - 1) * drift, R + t.int(0, q - 1) * drift
                # every layer crosses with at most one edge per step
                ok = nx // 4 <= b - a <= nx - 4
                for j in range(8):
                    s = shape[j][0]
                    for j2 in range(8):
                        s2 = shape[j2][1]
                        if (a + s) // nx != (L + s2) // nx and (b - s) // nx != (R - s2) // nx:
                            ok = False
                if ok:
                    break
            else:
                a, b = L, R
            L, R = a, b
            lo = max(0, min(lo + t.int(-1, 1), 3))
            hi = max(lo + 1, min(7, hi + t.int(-1, 1)))
        frames.append({j: (L + shape[j][0], R - shape[j][1]) for j in range(lo, hi + 1)})
    return frames


@rt('C32', 80)
def interfaces_over_series(t):
    g = t.fn('strata.interface.collect', 'get_interface_coordinates')
    nx, ny = t.int(16, 24), 8
    dx, dy = t.choice([0.25, 0.5, 1., 0.3]), t.choice([0.25, 0.5, 0.1])
    x0, y0 = t.choice([0., 0.7, -1.5]), t.choice([0., 0.45, 10.])
    frames = layered_history(t, nx, t.int(1, 8))
    rec = t.choice([None, None, 'zero', 'com'])
    t.note(frames=frames, nx=nx, spacing=(dx, dy), first=(x0, y0), recenter=rec)
    pbc = yi = None
    for fr in frames:
        d, info = droplet_map(t, nx, ny, dx, dy, x0, y0, fr)
        flow = flow_of(t, d, info)
        snap = snapshot(d)
        iface, pbc, yi = g(flow, 'M', pbc, yi, rec, cutoff=5., cutoff_radius=1.1 * dx, cutoff_bins=1)
        unchanged(t, 'map unmodified', fdict(flow), snap)
        js = sorted(fr)
        xl = [x0 + dx * fr[j][0] for j in js]
        xr = [x0 + dx * fr[j][1] for j in js]
        xs = np.array(xl + xr[::-1])
        h = [dy * (j - js[0]) for j in js]
        if rec == 'zero':
            xs = xs - 0.5 * (xs[0] + xs[-1])
        elif rec == 'com':
            xs = xs - (d['X'] * d['M']).sum() / d['M'].sum()
        t.eq('heights', iface['Y'], h + h[::-1], atol=1e-6)
        t.eq('edges', iface['X'], xs, atol=1e-6)


@rt('C32', 25)
def interface_files(t):
    f = t.fn('strata.interface.collect', 'collect_interfaces')
    t.fn('strata.strata', 'version')
    from contracts.rt_io import write_map
    nx, ny = t.int(16, 24), 8
    dx, dy = t.choice([0.25, 0.5, 1.]), t.choice([0.25, 0.5])
    frames = layered_history(t, nx, t.int(1, 4))
    base = os.path.join(t.tmp, 'm_')
    ft = t.choice(['gmx', 'simple'])
    x0, y0 = .5 * dx, .5 * dy
    begin = t.choice([1, 2])
    rec = t.choice([None, 'zero'])
    for k, fr in enumerate(frames):
        d, info = droplet_map(t, nx, ny, dx, dy, x0, y0, fr)
        write_map(t, ft, '%s%05d.dat' % (base, begin + k), d, info)
    t.note(frames=frames, nx=nx, spacing=(dx, dy), recenter=rec, ftype=ft)
    f(base, os.path.join(t.tmp, 'o/i_'), rec, begin=begin, quiet=t.flip(), cutoff=5., cutoff_radius=1.1 * dx)
    t.same('files', sorted(os.listdir(os.path.join(t.tmp, 'o'))), ['i_%05d.xvg' % (begin + k) for k in range(len(frames))])
    for k, fr in enumerate(frames):
        x, y = np.genfromtxt(os.path.join(t.tmp, 'o/i_%05d.xvg' % (begin + k)), unpack=True)
        js = sorted(fr)
        xs = np.array([x0 + dx * fr[j][0] for j in js] + [x0 + dx * fr[j][1] for j in js][::-1])
        if rec:
            xs = xs - 0.5 * (xs[0] + xs[-1])
        h = [dy * (j - js[0]) for j in js]
        t.eq('heights', y, h + h[::-1], atol=1e-3)
        t.eq('edges', x, xs, atol=1e-3)
