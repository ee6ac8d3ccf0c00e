"""Runtime contracts of histories, sampled series and fits (bounded stand-ins)."""
import os
import numpy as np
from pv.rt import rt
from contracts.rt_grid import LABELS, grid_values, regular, flow_of, fdict, snapshot, unchanged, wmean


# ------------------------------------------------------------------ C17
@rt('C17', 400)
def unwrapping_follows_edges(t):
    init = t.fn('strata.spreading.collect', 'init_periodic_info')
    upd = t.fn('strata.spreading.collect', 'check_and_update_periodic_info')
    add = t.fn('strata.spreading.collect', 'add_pbc_multipliers_to_edges')
    box = t.choice([1., 10., 7.3])
    L = t.real(-2, 2) * box
    R = L + t.real(0.01, 0.99) * box
    hist = [(L, R)]
    bias = t.choice([-1., 0., 1.])
    for _ in range(t.int(0, 25)):
        for _ in range(50):
            s = t.choice([0.249, 0.1, 0.02]) * box
            a, b = L + np.clip(t.real(-1, 1) + bias, -1, 1) * s, R + np.clip(t.real(-1, 1) + bias, -1, 1) * s
            if not 0.001 * box < b - a < 0.999 * box:
                continue
            if np.floor(a / box) != np.floor(L / box) and np.floor(b / box) != np.floor(R / box):
                continue
            break
        else:
            a, b = L, R
        L, R = a, b
        hist.append((L, R))
    t.note(box=box, history=hist)
    info = init()
    off = None
    for L, R in hist:
        l, r = L - np.floor(L / box) * box, R - np.floor(R / box) * box
        info = upd(info, box, l, r)
        al, ar = add(info, box, l, r)
        k = (al - L) / box
        t.eq('same whole number of boxes on both edges', ar - R, al - L, atol=1e-6)
        t.eq('whole number of boxes', k, np.round(k), atol=1e-6)
        if off is None:
            off = k
            t.eq('first left edge', al, l)
            t.eq('first right edge', ar, r + (box if l > r else 0.))
        t.eq('same number of boxes throughout', k, off, atol=1e-6)
        t.eq('relative positions recovered', (info.xleft_prev, info.xright_prev), (l, r), rtol=0, atol=0)


# ------------------------------------------------------------------ C24
@rt('C24', 150)
def sampled_value(t):
    sv = t.fn('strata.sample_average', 'sample_value')
    d, info = regular(t, t.choice(['ij', 'xy', 'any']), lo=3)
    label = t.choice(LABELS + ['inertial_energy', 'visc_diss', 'flow_angle'])
    cl = t.choice([None, 'M', 'N', 'U'])
    cut = t.choice([None, 0.5, 1.])
    total = t.flip() and label != 'flow_angle'
    mu = 0.7
    t.note(data=d, info=info, label=label, cutoff_label=cl, cutoff=cut, sum=total)
    flow = flow_of(t, d, info)
    snap = snapshot(d)
    if label == 'visc_diss':
        nx, ny = info['shape']
        o = np.lexsort((d['X'], d['Y']))
        g = lambda l: d[l][o].reshape(ny, nx)
        (uy, ux), (vy, vx) = (np.gradient(g(l), info['spacing'][1], info['spacing'][0], edge_order=2) for l in 'UV')
        q = 2 * mu * (ux ** 2 + vy ** 2 - (ux + vy) ** 2 / 3) + mu * (vx + uy) ** 2
        v = np.empty(nx * ny)
        v[o] = q.ravel()
    elif label == 'inertial_energy':
        v = 0.5 * d['M'] * (d['U'] ** 2 + d['V'] ** 2)
    else:
        v = d.get(label)
    keep = np.ones(d['X'].size, bool)
    if cl:
        c = cut if cut is not None else 0.5 * (d[cl].max() + d[cl].min())
        keep = d[cl] >= c
    if not keep.any():
        return
    got, std = sv(flow, label, cut, cl, total, mu)
    unchanged(t, 'map unmodified', fdict(flow), snap)
    if label == 'flow_angle':
        m = d['M'][keep]
        a, b = (d['V'][keep] * m).sum(), (d['U'][keep] * m).sum()
        if a or b:
            t.eq('mean flow angle', got, np.degrees(np.arctan2(a, b)), atol=1e-6)
    elif total:
        t.eq('sum', got, v[keep].sum(), atol=1e-7)
    else:
        t.eq('mean', got, v[keep].mean(), atol=1e-7)
        t.eq('deviation', std, v[keep].std(), atol=1e-7)


@rt('C24', 40)
def sampled_series(t):
    saf = t.fn('strata.sample_average', 'sample_average_files')
    t.fn('strata.strata', 'version')
    from contracts.rt_io import write_map
    n = t.int(1, 4)
    maps = []
    nx, ny = t.int(3, 5), t.int(3, 5)
    d0, info = regular(t, 'ij', nx=nx, ny=ny)
    info['origin'] = tuple(o - .5 * s for o, s in zip(info['origin'], info['spacing']))
    ft = t.choice(['simple', 'gmx'])
    for k in range(n):
        d = {'X': d0['X'], 'Y': d0['Y']}
        d.update(grid_values(t, nx * ny, False))
        write_map(t, ft, os.path.join(t.tmp, 'm_%05d.dat' % (k + 1)), d, info)
        maps.append(d)
    labels = list(t.rng.permutation(['M', 'T', 'inertial_energy', 'U'])[:t.int(1, 3)])
    kw = {'quiet': t.flip(), 'verbose': t.flip(), 'sum': t.flip()}
    dt = kw['dt'] = t.choice([1., 0.25])
    keep = np.ones(nx * ny, bool)
    for l in 'XY':
        if t.flip(0.4):
            cs = np.unique(d0[l])
            e = 0.25 * info['spacing']['XY'.index(l)]
            a, b = t.choice([None, cs[0] + e, cs[0] - e]), t.choice([None, cs[-1] - e, cs[-1] + e])
            kw[l.lower() + 'lim'] = (a, b)
            if a is not None:
                keep &= d0[l] >= a
            if b is not None:
                keep &= d0[l] <= b
    cl = kw['cutoff_label'] = t.choice([None, 'M'])
    if cl and t.flip():
        kw['cutoff'] = 1.5
    out = os.path.join(t.tmp, 'o.xvg') if t.flip() else None
    t.note(maps=maps, labels=labels, options=kw)
    want = []
    for l in labels:
        row = []
        for d in maps:
            v = 0.5 * d['M'] * (d['U'] ** 2 + d['V'] ** 2) if l == 'inertial_energy' else d[l]
            k = keep.copy()
            if cl:
                c = kw.get('cutoff')
                if c is None:
                    c = 0.5 * (d['M'][keep].max() + d['M'][keep].min())
                k &= d['M'] >= c
            if not k.any():
                return
            row.append(v[k].sum() if kw['sum'] else v[k].mean())
        want.append(row)
    times, vals = saf(os.path.join(t.tmp, 'm_'), labels, output=out, **kw)
    t.eq('times', times, [k * dt for k in range(n)])
    t.eq('values', vals, want, rtol=1e-4, atol=1e-5)
    if out:
        rows = [[float(x) for x in l.split()] for l in open(out) if l.strip() and not l.startswith('#')]
        t.eq('times written', [r[0] for r in rows], times, atol=1e-3)


# ------------------------------------------------------------------ C25
@rt('C25', 150)
def slip_length(t):
    f = t.fn('strata.sample_average', 'sample_slip_length')
    nx, ny = t.int(1, 5), t.int(3, 7)
    d, info = regular(t, 'ij', nx=nx, ny=ny)
    floor = t.choice([0., 1.3, -0.4])
    if t.flip(0.3):
        d['U'] = 0.5 * d['Y'] + 2.
    t.note(data=d, info=info, floor=floor)
    flow = flow_of(t, d, info)
    snap = snapshot(d)
    kw = {'floor': floor} if floor or t.flip() else {}
    m, s = f(flow, **kw)
    unchanged(t, 'map unmodified', fdict(flow), snap)
    vals = []
    for i in range(nx):
        u, y = d['U'].reshape(nx, ny)[i], d['Y'].reshape(nx, ny)[i]
        b = ((u - u.mean()) * (y - y.mean())).sum() / ((u - u.mean()) ** 2).sum()
        vals.append(floor - (y.mean() - b * u.mean()))
    t.eq('mean', m, np.mean(vals))
    t.eq('deviation', s, np.std(vals), atol=1e-8)


# ------------------------------------------------------------------ C26
@rt('C26', 150)
def area_and_length(t):
    area = t.fn('strata.interface.sample', 'get_area_of_interface')
    length = t.fn('strata.interface.sample', 'calc_length')
    n = t.int(1, 8)
    ys = np.cumsum(t.rng.uniform(0.1, 1, n)) if t.flip() else np.arange(n) * 0.5
    xl, xr = t.rng.uniform(0, 3, n), t.rng.uniform(3, 8, n)
    xs, y2 = np.r_[xl, xr[::-1]], np.r_[ys, ys[::-1]]
    t.note(xs=xs, ys=y2)
    w = xr - xl
    t.eq('area', area(xs.copy(), y2.copy()), sum(0.5 * (w[i] + w[i + 1]) * (ys[i + 1] - ys[i]) for i in range(n - 1)))
    t.eq('length', length(xs, y2), sum(np.hypot(xs[i + 1] - xs[i], y2[i + 1] - y2[i]) for i in range(2 * n - 1)))
    bad = y2.copy()
    bad[t.int(0, 2 * n - 1)] += 0.3
    t.raises('sides at different heights', TypeError, area, xs, bad)


@rt('C26', 40)
def sampled_interfaces(t):
    f = t.fn('strata.interface.sample', 'sample_interfaces')
    t.fn('strata.strata', 'version')
    m = t.int(1, 5)
    base = os.path.join(t.tmp, 'i_')
    var, dt = t.choice(['area', 'length']), t.choice([1., 0.5])
    want_t, want = [], []
    bads = []
    for k in range(m):
        n = t.int(2, 5)
        ys = np.arange(n) * 0.5
        xl, xr = np.round(t.rng.uniform(0, 3, n), 3), np.round(t.rng.uniform(3, 8, n), 3)
        xs, y2 = np.r_[xl, xr[::-1]], np.r_[ys, ys[::-1]]
        bad = t.flip(0.3)
        if bad:
            y2[-1] += 0.25
        bads.append(bad)
        np.savetxt('%s%05d.xvg' % (base, k + 1), np.array([xs, y2]).T, fmt='%.3f', header='h')
        if var == 'length':
            v = np.hypot(np.diff(xs), np.diff(y2)).sum()
        else:
            w = xr - xl
            v = (0.5 * (w[1:] + w[:-1]) * np.diff(ys)).sum()
        if not (bad and var == 'area'):
            want.append(v)
            want_t.append(k * dt)
    save = os.path.join(t.tmp, 's.xvg') if t.flip() else ''
    t.note(variable=var, bad=bads, n=m)
    times, vals = f(base, var, save, dt, show=False, quiet=t.flip())
    t.eq('times', times, want_t)
    t.eq('samples', vals, want)
    if save:
        rows = [[float(x) for x in l.split()] for l in open(save) if l.strip() and not l.startswith('#')]
        t.eq('rows', np.array(rows).reshape(-1, 2), np.array([want_t, want]).T.reshape(-1, 2), atol=1.1e-3, rtol=0)


# ------------------------------------------------------------------ C28
@rt('C28', 80)
def averaged_interfaces(t):
    f = t.fn('strata.interface.view', 'average_interfaces')
    m = t.int(1, 4)
    ifs = []
    dh = t.choice([0.25, 0.5, 0.1])
    for k in range(m):
        lo = 0 if t.flip(0.8) else 1
        n = t.int(2, 6)
        ys = dh * (lo + np.arange(n))
        ifs.append((np.r_[t.rng.uniform(0, 3, n), t.rng.uniform(4, 8, n)], np.r_[ys, ys[::-1]]))
    t.note(interfaces=ifs)
    snap = [(x.copy(), y.copy()) for x, y in ifs]
    r = f([(x, y) for x, y in ifs])
    for (x, y), (a, b) in zip(ifs, snap):
        t.true('input unmodified', np.array_equal(x, a) and np.array_equal(y, b))
    want_x, want_y = [], []
    for side in (0, 1):
        maps = []
        for x, y in ifs:
            n = len(x) // 2
            sl = slice(0, n) if side == 0 else slice(n, None)
            maps.append(dict(zip(y[sl], x[sl])))
        common = sorted(set.intersection(*(set(q) for q in maps)), reverse=side == 1)
        want_y += common
        want_x += [np.mean([q[h] for q in maps]) for h in common]
    t.eq('heights', np.array(r.index, dtype=float), want_y)
    t.eq('positions', r.values, want_x)


# ------------------------------------------------------------------ C29
def curves(t, n=None):
    import pandas as pd
    out = []
    for k in range(n or t.int(1, 4)):
        m = t.int(2, 10)
        tm = np.cumsum(t.rng.uniform(0.2, 1, m)) if t.flip() else np.arange(m) * 1.
        out.append(pd.Series(np.cumsum(t.rng.uniform(0.1, 1, m)), index=tm, name='c%d' % k))
    return out


@rt('C29', 120)
def scaled_and_synchronised(t):
    f = t.fn('strata.spreading.view', 'combine_spreading_data')
    cs = curves(t)
    n = len(cs)
    pick = lambda: t.choice([1., 2., 0.3, [float(v) for v in t.rng.uniform(0.5, 3, n)]])
    tau, R = pick(), pick()
    sync = t.choice([None, t.real(0.1, 4.)])
    t.note(curves=[(c.index.tolist(), c.values.tolist()) for c in cs], tau=tau, R=R, sync_radius=sync)
    snap = [c.copy() for c in cs]
    r = f(cs, sync_radius=sync, tau=tau, R=R)
    for c, s in zip(cs, snap):
        t.true('input unmodified', c.equals(s) and (c.index == s.index).all())
    T = [np.array(s.index, dtype=float) / (tau if np.isscalar(tau) else tau[k]) for k, s in enumerate(snap)]
    V = [s.values / (R if np.isscalar(R) else R[k]) for k, s in enumerate(snap)]
    if sync is not None:
        near = [tt[np.abs(v - sync).argmin()] for tt, v in zip(T, V)]
        T = [tt - a + min(near) for tt, a in zip(T, near)]
    t.same('number of curves', len(r), n)
    for k in range(n):
        t.eq('times of curve %d' % k, np.array(r[k].index, dtype=float), T[k])
        t.eq('radii of curve %d' % k, r[k].values, V[k])
    if n > 1:
        t.raises('unmatched factors', TypeError, f, cs, tau=[1.] * (n + 1))


# ------------------------------------------------------------------ C30
@rt('C30', 100)
def power_law_recovered(t):
    import pandas as pd
    fp = t.fn('strata.spreading.fit', 'get_fitting_parameters')
    fd = t.fn('strata.spreading.fit', 'get_fitted_data')
    data, pars = [], []
    lo, hi = t.choice([None, 1.5]), t.choice([None, 6.5])
    for k in range(t.int(1, 3)):
        a, q = t.real(0.1, 5), t.real(0.1, 1.5)
        tm = np.arange(0, 10) * 1. if t.flip() else np.cumsum(t.rng.uniform(0.3, 0.9, 20))
        r = a * tm ** q
        if lo is not None:
            r = np.where(tm < lo, r + 1.7, r)
        if hi is not None:
            r = np.where(tm > hi, r * 2, r)
        data.append(pd.Series(r, index=tm, name='s%d' % k))
        pars.append((a, q))
    ol = t.choice([(None, None), (2., None), (1., 5.)])
    t.note(pars=pars, lims=(lo, hi), out_lims=ol)
    got = fp(data, (lo, hi))
    t.eq('amplitude and index', got, pars, rtol=1e-4)
    fits = fd(got, data, ol)
    for s, d, (a, q) in zip(fits, data, got):
        tm = np.array(d.index, dtype=float)
        k = np.ones(tm.size, bool)
        if ol[0] is not None:
            k &= tm >= ol[0]
        if ol[1] is not None:
            k &= tm <= ol[1]
        t.eq('times of the fit', np.array(s.index, dtype=float), tm[k])
        t.eq('fitted curve', s.values, a * tm[k] ** q)
