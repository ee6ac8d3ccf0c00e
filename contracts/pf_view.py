"""Deductive contracts: derived fields and selections for viewing (C31)."""
import numpy as np
from pv.core import *
from pv.prove import contract, num, half
from pv.arrays import *
from pv import npmodel as N
from contracts.pf_grid import grid_flow, flow_of, dissipation, eq, opt, inside, snapshot, unchanged

VF = 'strata.view_flowmap'
LABELS = ('X', 'Y', 'U', 'V', 'M', 'T')


def some_data(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in LABELS}
    flow = flow_of(v, list(cols.items()))
    return n, cols, flow


def added(v, data, label, value, cols, at, back):
    """data holds at position `at` every old field of bin `back` and the value of that bin under the new label."""
    v.ensures('the value of the bin is added', eq(data.fieldview(label).at(at), value))
    v.ensures('every existing field is kept', And(*[bt(eq(data.fieldview(l).at(at), cols[l].at(back))) for l in cols]))
    v.ensures('exactly one field is added', list(data.fields()) == list(cols) + [label])


@contract('C31', VF + '.add_absolute_flow', 'flow magnitude')
def c31_abs(v):
    n, cols, flow = some_data(v)
    r = v.val(v.fn(VF, 'add_absolute_flow'), flow.data)
    i = v.index(n)
    a, b = (cols[l].at((i,)) for l in 'UV')
    added(v, r, 'flow', N.n_sqrt(a * a + b * b), cols, (i,), (i,))
    v.ensures('as many records', eq(num(r.axes[0].length()), num(n)))


@contract('C31', VF + '.add_radial_flow', 'radial flow')
def c31_radial(v):
    n, cols, flow = some_data(v)
    x0, y0 = v.real('x0'), v.real('y0')
    r = v.val(v.fn(VF, 'add_radial_flow'), flow.data, (x0, y0))
    i = v.index(n)
    x, y, a, b = (cols[l].at((i,)) for l in 'XYUV')
    t = N.n_arctan2(y - y0, x - x0)
    added(v, r, 'radial', a * v.val(np.sin, t) - b * v.val(np.cos, t), cols, (i,), (i,))


def regular(v, lo):
    nx, ny = v.size('nx', lo), v.size('ny', lo)
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    return nx, ny, dx, dy, x0, y0


def edge1(n, h, f, k):
    """First-order one-sided at the edges, second-order central inside."""
    first = (f(IV(1)) - f(IV(0))) / h
    last = (f(n - 1) - f(n - 2)) / h
    mid = (f(k + 1) - f(k - 1)) / (h * 2)
    return n_ite(k == 0, first, n_ite(k == n - 1, last, mid))


def place(v, flow, nx, i, j):
    return flow.data.axes[0].coords(t_add(t_mul(j, nx), i))


@contract('C31', VF + '.add_viscous_dissipation', 'viscous dissipation')
def c31_visc(v):
    nx, ny, dx, dy, x0, y0 = regular(v, 3)
    mu = v.real('mu')
    ax, cols, flow = grid_flow(v, nx, ny, dx, dy, x0, y0, ('U', 'V', 'M', 'T'), facts={'M': lambda a, w: w != 0})
    v.val(v.fn(VF, 'add_viscous_dissipation'), flow, mu)
    i, j = v.index(nx, ny)
    v.require(*v.quant)
    v.reset()
    m = {l: (lambda l: array([ax], lambda cs: cols[l].at(cs) * cols['M'].at(cs)))(l) for l in 'UV'}
    w = cols['M'].at((i, j))
    v.c.mark_nonzero(w.t)
    added(v, flow.data, 'visc', dissipation(m, nx, ny, dx, dy, mu, i, j) / (w * w), cols, place(v, flow, nx, i, j), (i, j))


@contract('C31', VF + '.add_density_gradient', 'density gradient')
def c31_grad(v):
    nx, ny, dx, dy, x0, y0 = regular(v, 2)
    ax, cols, flow = grid_flow(v, nx, ny, dx, dy, x0, y0, ('U', 'V', 'M', 'T'))
    v.val(v.fn(VF, 'add_density_gradient'), flow)
    i, j = v.index(nx, ny)
    v.require(*v.quant)
    v.reset()
    M = lambda a, b: cols['M'].at((a, b))
    at = place(v, flow, nx, i, j)
    v.ensures('gradient along x with its spacing', eq(flow.data.fieldview('grad_rho_x').at(at), edge1(nx, dx, lambda a: M(a, j), i)))
    v.ensures('gradient along y with its spacing', eq(flow.data.fieldview('grad_rho_y').at(at), edge1(ny, dy, lambda b: M(i, b), j)))
    v.ensures('every existing field is kept', And(*[bt(eq(flow.data.fieldview(l).at(at), cols[l].at((i, j)))) for l in cols]))


@contract('C31', VF + '.add_evaporation', 'evaporation')
def c31_evap(v):
    nx, ny, dx, dy, x0, y0 = regular(v, 2)
    ax, cols, flow = grid_flow(v, nx, ny, dx, dy, x0, y0, ('U', 'V', 'M', 'T'))
    v.val(v.fn(VF, 'add_evaporation'), flow)
    i, j = v.index(nx, ny)
    v.require(*v.quant)
    v.reset()
    M = lambda a, b: cols['M'].at((a, b))
    a, b = (cols[l].at((i, j)) for l in 'UV')
    e = a * edge1(nx, dx, lambda k: M(k, j), i) + b * edge1(ny, dy, lambda k: M(i, k), j)
    added(v, flow.data, 'evaporation', e, cols, place(v, flow, nx, i, j), (i, j))


@contract('C31', VF + '.get_quiver_data', 'bins of a flow plot')
def c31_quiver(v):
    n, cols, flow = some_data(v)
    before = snapshot(flow, cols)
    xlo, xhi, ylo, yhi = (opt(v, s) for s in ('xlo', 'xhi', 'ylo', 'yhi'))
    lab = v.decide(v.bool('has_label').t)
    C = opt(v, 'cutoff') if lab else None
    col = v.decide(v.bool('has_colour').t)
    r = v.val(v.fn(VF, 'get_quiver_data'), flow.data, ('U', 'V'), ('X', 'Y'), 'T' if col else None,
              ('M' if lab else None, C), (xlo, xhi), (ylo, yhi))
    out = list(r)
    at = lambda l, i: cols[l].at((i,))

    def cond(i):
        g = [Or(bt(at('U', i) != 0), bt(at('V', i) != 0)), inside(at('X', i), xlo, xhi), inside(at('Y', i), ylo, yhi)]
        if C is not None:
            g.append(bt(at('M', i) >= C))
        return And(*g)
    v.ensures('five arrays', len(out) == 5)
    ax = flow.data.axes[0]
    for a, l in zip(out, ('X', 'Y', 'U', 'V', 'T' if col else None)):
        b = a.axes[0]
        if b.m != 1 or b.order != 'lex':
            v.ensures('exactly the bins with flow inside the limits and at or above the cutoff', False)
            continue
        i = b.fresh('q')
        g = And(i[0] >= 0, i[0] < n)
        v.ensures('exactly the bins with flow inside the limits and at or above the cutoff', b.guard(i) == And(g, cond(i[0])))
        v.ensures('the values of the bins, in order', eq(a.at(i), at(l, i[0]) if l else num(1)), b.guard(i))
    unchanged(v, flow, before, cols, ax)
