"""Deductive contracts: sampled values (C24), slip length (C25), angular sampling (C23)."""
import z3
from pv.core import *
from pv.prove import contract, num, half
from pv.arrays import *
from pv.prove import eqv as eq
from pv import npmodel as N
from contracts.pf_grid import grid_flow, flow_of, snapshot, unchanged, dissipation

SAV = 'strata.sample_average'


def sqrt(x):
    return N.n_sqrt(x)


def mean_std(v, name, sizes, f, sel, value, std):
    """value and std are the mean and standard deviation of f over the selected indices (at least one selected)."""
    cnt = v.sum(sizes, lambda *a: SNum(IV(1)), sel)
    tot = v.sum(sizes, f, sel)
    some = bt(cnt > 0)
    v.ensures(name + ': mean over the selected bins', eq(value * cnt, tot), some)
    mu = SNum(toreal(tot.t) / toreal(cnt.t), True)
    var = v.sum(sizes, lambda *a: (f(*a) - mu) * (f(*a) - mu), sel)
    v.ensures(name + ': standard deviation over the selected bins', eq(std, sqrt(SNum(toreal(var.t) / toreal(cnt.t), True))), some)


def some_map(v):
    """A map of any size with a cutoff of any kind: (n, cols, flow, before, cutoff, cutoff label, selection)."""
    n = v.size('n', 1)
    ax = v.axis(n)
    lab = v.decide(v.bool('has_label').t)
    given = v.decide(v.bool('has_cutoff').t)
    C = v.real('C') if given else None
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'U', 'V', 'T', 'M')}
    if lab and not given:
        hi, lo = (N.extremum([n], None, lambda cs: cols['M'].at(cs), k) for k in ('max', 'min'))
    if not lab:
        sel = lambda i: TRUE
    elif given:
        sel = lambda i: bt(cols['M'].at((i,)) >= C)
    else:
        sel = lambda i: bt(cols['M'].at((i,)) * 2 >= hi + lo)
    flow = flow_of(v, list(cols.items()))
    return n, cols, flow, snapshot(flow, cols), C, 'M' if lab else None, sel


@contract('C24', SAV + '.sample_value', 'field values')
def c24_field(v):
    n, cols, flow, before, C, lab, sel = some_map(v)
    total = v.decide(v.bool('sum').t)
    label = 'T'
    r = v.val(v.fn(SAV, 'sample_value'), flow, label, C, lab, total, v.real('mu'))
    f = lambda i: cols['T'].at((i,))
    if total:
        v.ensures('sum over the selected bins', eq(r[0], v.sum([n], f, sel)))
        v.ensures('no spread of a sum', r[1] is None)
    else:
        mean_std(v, 'field', [n], f, sel, r[0], r[1])
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C24', SAV + '.sample_value', 'inertial energy')
def c24_energy(v):
    n, cols, flow, before, C, lab, sel = some_map(v)
    total = v.decide(v.bool('sum').t)
    r = v.val(v.fn(SAV, 'sample_value'), flow, 'inertial_energy', C, lab, total, v.real('mu'))

    def f(i):
        m, a, b = (cols[l].at((i,)) for l in ('M', 'U', 'V'))
        return half() * m * (a * a + b * b)
    if total:
        v.ensures('sum of the energy over the selected bins', eq(r[0], v.sum([n], f, sel)))
    else:
        mean_std(v, 'inertial energy', [n], f, sel, r[0], r[1])
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C24', SAV + '.sample_value', 'viscous dissipation')
def c24_visc(v):
    nx, ny = v.size('nx', 3), v.size('ny', 3)
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    mu = v.real('mu')
    ax, cols, flow = grid_flow(v, nx, ny, dx, dy, x0, y0, ('U', 'V', 'M'))
    before = snapshot(flow, cols)
    given = v.decide(v.bool('has_label').t)
    C = v.real('C')
    total = v.decide(v.bool('sum').t)
    r = v.val(v.fn(SAV, 'sample_value'), flow, 'visc_diss', C, 'M' if given else None, total, mu)
    sel = (lambda i, j: bt(cols['M'].at((i, j)) >= C)) if given else (lambda i, j: TRUE)
    f = lambda i, j: dissipation(cols, nx, ny, dx, dy, mu, i, j)
    if total:
        v.ensures('sum of the dissipation in the selected bins', eq(r[0], v.sum([nx, ny], f, sel)))
    else:
        cnt = v.sum([nx, ny], lambda i, j: SNum(IV(1)), sel)
        v.ensures('mean of the dissipation in the selected bins', eq(r[0] * cnt, v.sum([nx, ny], f, sel)), bt(cnt > 0))
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C24', SAV + '.sample_value', 'mean flow angle')
def c24_angle(v):
    n, cols, flow, before, C, lab, sel = some_map(v)
    r = v.val(v.fn(SAV, 'sample_value'), flow, 'flow_angle', C, lab, False, v.real('mu'))
    tot = lambda l: v.sum([n], lambda i: cols[l].at((i,)) * cols['M'].at((i,)), sel)
    a = r[0].at(()) if isinstance(r[0], NDArr) else r[0]
    v.ensures('angle of the mass-weighted flow of the selected bins', eq(a, N.n_degrees(N.n_arctan2(tot('V'), tot('U')))))
    unchanged(v, flow, before, cols, flow.data.axes[0])
    out = v.call(v.fn(SAV, 'sample_value'), flow, 'flow_angle', C, lab, True, v.real('mu'))
    v.ensures('a sum of angles is refused', isinstance(out.exc, ValueError))


@contract('C24', SAV + '.sample_value', 'unknown labels')
def c24_unknown(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'T', 'M')}
    flow = flow_of(v, list(cols.items()))
    out = v.call(v.fn(SAV, 'sample_value'), flow, 'Q', None, None, False, 1.)
    v.ensures('an unknown field is refused', out.exc is not None)


# ------------------------------------------------------------------ C25
def intercept(v, n, u, y):
    """Height at which the least-squares line of y against u (n points) reaches u = 0."""
    N_ = num(n)
    Su, Sy = v.sum([n], u), v.sum([n], y)
    Suy, Suu = v.sum([n], lambda k: u(k) * y(k)), v.sum([n], lambda k: u(k) * u(k))
    den = N_ * Suu - Su * Su
    return (Sy * Suu - Su * Suy), den


@contract('C25', SAV + '.sample_slip_length', 'slip length')
def c25(v):
    nx, ny = v.size('nx', 1), v.size('ny', 2)
    ax = v.axis(nx, ny)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'U', 'V')}
    flow = flow_of(v, list(cols.items()), {'shape': (num(nx), num(ny))})
    before = snapshot(flow, cols)
    floor = v.real('floor')
    out = v.call(v.fn(SAV, 'sample_slip_length'), flow, floor=floor)
    col = lambda l, i: lambda k: cols[l].at((i, k))
    i = v.index(nx)
    a, den = intercept(v, ny, col('U', i), col('Y', i))
    if out.exc is not None:
        return
    v.reset()

    def slip(i):
        a, den = intercept(v, ny, col('U', i), col('Y', i))
        return floor - SNum(toreal(a.t) / toreal(den.t), True)
    tot = v.sum([nx], slip)
    mean, std = out.value
    v.ensures('mean over the columns of floor minus intercept', eq(mean * num(nx), tot))
    mu = tot / num(nx)
    var = v.sum([nx], lambda i: (slip(i) - mu) * (slip(i) - mu))
    v.ensures('spread over the columns', eq(std, sqrt(var / num(nx))))
    unchanged(v, flow, before, cols, flow.data.axes[0])
