"""Deductive contracts: flow maps on grids, sampling."""
import inspect
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, num, half, sterm as sterm_
from pv.arrays import *
from pv.sums import mk_sum
from pv.interp import IList
from pv import npmodel as N

FLOW = 'droplets.flow'
DS = 'droplets.sample'


def eq(a, b):
    from pv.prove import eqv
    return eqv(a, b)


def flow_of(v, columns, info=None):
    """A FlowData object built by the real constructor from (label, array) pairs."""
    kw = {'info': info} if info is not None else {}
    return v.val(v.fn(FLOW, 'FlowData'), *columns, **kw)


def unchanged(v, flow, before, labels, axis, name='the map is not modified'):
    cs = axis.fresh('u')
    g = axis.guard(cs)
    goals = []
    for l in labels:
        goals.append(eq(flow.data.fieldview(l).at(cs), before[l](cs)))
    v.ensures(name, And(*[bt(x) for x in goals]), g)


def snapshot(flow, labels):
    return {l: flow.data.fieldview(l).reader() for l in labels}


# ------------------------------------------------------------------ C21
@contract('C21', DS + '.sample_center_of_mass', 'centre of mass')
def c21_com(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M', 'P')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    out = v.call(v.fn(DS, 'sample_center_of_mass'), flow)
    tot = v.sum([n], lambda i: cols['M'].at((i,)))
    unchanged(v, flow, before, cols, flow.data.axes[0])
    if out.exc is not None:
        v.ensures('refused only for zero total mass', And(isinstance(out.exc, ZeroDivisionError), bt(eq(tot, 0))))
        return
    v.ensures('refused for zero total mass', Not(bt(eq(tot, 0))))
    for k, l in enumerate(('X', 'Y')):
        s = v.sum([n], lambda i: cols[l].at((i,)) * cols['M'].at((i,)))
        v.ensures('mass-weighted mean along ' + l, eq(out.value[k] * tot, s))


@contract('C21', DS + '.sample_center_of_mass', 'centre of mass with chosen labels')
def c21_com2(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M', 'P', 'Q')}
    flow = flow_of(v, list(cols.items()))
    out = v.call(v.fn(DS, 'sample_center_of_mass'), flow, mass_label='P', coord_labels=('Q', 'X'))
    tot = v.sum([n], lambda i: cols['P'].at((i,)))
    if out.exc is not None:
        v.ensures('refused only for zero total mass', And(isinstance(out.exc, ZeroDivisionError), bt(eq(tot, 0))))
        return
    for k, l in enumerate(('Q', 'X')):
        s = v.sum([n], lambda i: cols[l].at((i,)) * cols['P'].at((i,)))
        v.ensures('mass-weighted mean along chosen label %d' % k, eq(out.value[k] * tot, s))


def _energy(v, kw, labels):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('U', 'V', 'M', 'A', 'B', 'C')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    r = v.val(v.fn(DS, 'sample_inertial_energy'), flow, **kw)
    i = v.index(n)
    m, a, b = (cols[l].at((i,)) for l in labels)
    v.ensures('half mass times squared speed of each bin', eq(r.at((i,)), half() * m * (a * a + b * b)))
    v.ensures('one value per bin', eq(num(r.axes[0].length()), num(n)))
    v.reset()
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C21', DS + '.sample_inertial_energy', 'inertial energy')
def c21_energy(v):
    _energy(v, {}, ('M', 'U', 'V'))


@contract('C21', DS + '.sample_inertial_energy', 'inertial energy with chosen labels')
def c21_energy2(v):
    _energy(v, {'mass_label': 'A', 'flow_labels': ('B', 'C')}, ('A', 'B', 'C'))


def angle_of(v, x, y):
    return N.n_degrees(N.n_arctan2(y, x))


@contract('C21', DS + '.sample_flow_angle', 'flow angle')
def c21_angle(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('U', 'V', 'M')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    r = v.val(v.fn(DS, 'sample_flow_angle'), flow)
    i = v.index(n)
    v.ensures('angle of each flow vector in degrees', eq(r.at((i,)), angle_of(v, cols['U'].at((i,)), cols['V'].at((i,)))))
    v.reset()
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C21', DS + '.sample_flow_angle', 'mean flow angle')
def c21_mean(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('U', 'V', 'M')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    weighted = v.decide(v.bool('weighted').t)
    r = v.val(v.fn(DS, 'sample_flow_angle'), flow, mean=True, weight='M' if weighted else None)

    def tot(l):
        return v.sum([n], lambda i: cols[l].at((i,)) * (cols['M'].at((i,)) if weighted else 1))
    r = r.at(()) if isinstance(r, NDArr) else r
    v.ensures('angle of the (weighted) summed flow', eq(r, angle_of(v, tot('U'), tot('V'))))
    unchanged(v, flow, before, cols, flow.data.axes[0])


# ------------------------------------------------------------------ C22
def grid_flow(v, nx, ny, dx, dy, x0, y0, fields, order='any', facts=None, info=True):
    """A regular map of nx*ny bins whose records come in an arbitrary order."""
    ax = v.axis(nx, ny, order=order)
    cols = [('X', array([ax], lambda cs: x0 + num(cs[0]) * dx)),
            ('Y', array([ax], lambda cs: y0 + num(cs[1]) * dy))]
    for _, a in cols:
        a.buf.fns[None] = memo(lambda cs, f=a.buf.fns[None]: SNum(f(cs).t, True))
    for l in fields:
        cols.append((l, v.arr(l, ax, facts=(facts or {}).get(l))))
    inf = {'shape': (num(nx), num(ny)), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': num(t_mul(nx, ny))} if info else None
    return ax, dict(cols), flow_of(v, cols, inf)


def grad(n, h, f, k):
    """Second-order derivative on a grid of n points with spacing h: f(k) values."""
    first = (f(IV(1)) * 4 - f(IV(0)) * 3 - f(IV(2))) / (h * 2)
    last = (f(n - 1) * 3 - f(n - 2) * 4 + f(n - 3)) / (h * 2)
    mid = (f(k + 1) - f(k - 1)) / (h * 2)
    return n_ite(k == 0, first, n_ite(k == n - 1, last, mid))


def dissipation(cols, nx, ny, dx, dy, mu, i, j):
    U, V_ = (lambda a, b, l=l: cols[l].at((a, b)) for l in 'UV')
    ux = grad(nx, dx, lambda a: U(a, j), i)
    uy = grad(ny, dy, lambda b: U(i, b), j)
    vx = grad(nx, dx, lambda a: V_(a, j), i)
    vy = grad(ny, dy, lambda b: V_(i, b), j)
    return mu * 2 * (ux * ux + vy * vy - (ux + vy) * (ux + vy) / 3) + mu * (vx + uy) * (vx + uy)


@contract('C22', DS + '.sample_viscous_dissipation', 'viscous dissipation')
def c22(v):
    nx, ny = v.size('nx', 3), v.size('ny', 3)
    dx, dy, x0, y0, mu = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0', 'mu'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    weighted = v.decide(v.bool('weighted').t)
    ax, cols, flow = grid_flow(v, nx, ny, dx, dy, x0, y0, ('U', 'V', 'W'),
                               facts={'W': lambda a, w: w != 0})
    r = v.val(v.fn(DS, 'sample_viscous_dissipation'), flow, mu, weight_label='W' if weighted else None)
    i, j = v.index(nx, ny)

    def val(l):
        return lambda a, b: cols[l].at((a, b)) * (cols['W'].at((a, b)) if weighted else num(1))
    U, V_ = val('U'), val('V')
    ux = grad(nx, dx, lambda a: U(a, j), i)
    uy = grad(ny, dy, lambda b: U(i, b), j)
    vx = grad(nx, dx, lambda a: V_(a, j), i)
    vy = grad(ny, dy, lambda b: V_(i, b), j)
    w = cols['W'].at((i, j)) if weighted else num(1)
    if weighted:
        v.c.mark_nonzero(w.t)
    form = mu * 2 * (ux * ux + vy * vy - (ux + vy) * (ux + vy) / 3) + mu * (vx + uy) * (vx + uy)
    v.ensures('result is indexed row by row along y then x', And(num(r.axes[0].length()) == num(ny) if False else
              bt(eq(num(r.axes[0].length()), num(ny))), bt(eq(num(r.axes[1].length()), num(nx)))))
    v.ensures('quadratic form in second-order gradients of the matching axes', eq(r.at((j, i)), form / (w * w)))
    v.ensures('independent of the record order: the map is left sorted with the result',
              And(bt(eq(flow.data.fieldview('X').at(flow.data.axes[0].coords(t_add(t_mul(j, nx), i))), cols['X'].at((i, j)))),
                  bt(eq(flow.data.fieldview('Y').at(flow.data.axes[0].coords(t_add(t_mul(j, nx), i))), cols['Y'].at((i, j))))))


def _refuse(which):
    def c(v):
        n = v.size('n', 1)
        ax = v.axis(n)
        cols = [(l, v.arr(l, ax)) for l in ('X', 'Y', 'U', 'V')]
        info = {'shape': (v.int('a'), v.int('b')), 'spacing': (v.real('dx'), v.real('dy'))}
        del info[which]
        flow = flow_of(v, cols, info)
        out = v.call(v.fn(DS, 'sample_viscous_dissipation'), flow, v.real('mu'))
        v.ensures('refused with a ValueError', isinstance(out.exc, ValueError))
    c.__name__ = 'without ' + which
    return c


contract('C22', DS + '.sample_viscous_dissipation', 'maps without shape')(_refuse('shape'))
contract('C22', DS + '.sample_viscous_dissipation', 'maps without spacing')(_refuse('spacing'))


# ------------------------------------------------------------------ C13
def opt(v, name):
    """None or a real limit."""
    return v.real(name) if v.decide(v.bool('has_' + name).t) else None


def inside(x, lo, hi):
    g = []
    if lo is not None:
        g.append(bt(x >= lo))
    if hi is not None:
        g.append(bt(x <= hi))
    return And(*g)


def some_flow(v, labels=('X', 'Y', 'A'), info=True):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in labels}
    inf = None
    if info:
        inf = {'shape': (v.int('NX'), v.int('NY')), 'spacing': (v.real('dx'), v.real('dy')),
               'origin': (v.real('ox'), v.real('oy')), 'num_bins': v.int('nb')}
    return n, cols, flow_of(v, list(cols.items()), inf), inf


def kept(v, flow, cols, cond, name='exactly the bins within the limits, in order, with all fields'):
    """flow.data holds exactly the records i with cond(i), in increasing i, with all fields."""
    d = flow.data
    n = list(cols.values())[0].axes[0]
    a = d.axes[0]
    i = v.index(n)
    cnt = mk_sum([n.length()], lambda cs: cond(cs[0]), lambda cs: SNum(IV(1)))
    v.ensures(name + ': count', eq(num(a.length()), cnt), TRUE)
    # position of record i among the kept ones: the number of kept records before it
    k = mk_sum([i], lambda cs: cond(cs[0]), lambda cs: SNum(IV(1)))
    return a, i, k


def kept_axis(v, d, cols, cond, name):
    """The axis of d runs over {i : cond(i)} in increasing order (as an index set) and its fields are those of cols."""
    a = d.axes[0]
    if a.m != 1 or a.order != 'lex':
        v.ensures(name, False, note='not a selection in the original order')
        return
    n = list(cols.values())[0].axes[0].length()
    cs = a.fresh('q')
    g = And(cs[0] >= 0, cs[0] < n)
    v.ensures(name + ': the bins', a.guard(cs) == And(g, cond(cs[0])), TRUE)
    for l in cols:
        v.ensures(name + ': field ' + l, eq(d.fieldview(l).at(cs), cols[l].at(cs)), a.guard(cs))
    v.ensures(name + ': no other fields', tuple(d.fields()) == tuple(cols))


def same_info(v, name, a, b):
    v.ensures(name, And(*[bt(eq(getattr_(v, a, k), getattr_(v, b, k))) for k in ('shape', 'spacing', 'origin', 'num_bins')]))


def getattr_(v, o, k):
    return v.I.getattr(o, k)


@contract('C13', FLOW + '.FlowData.lims', 'limits on any field')
def c13_lims(v):
    n, cols, flow, inf = some_flow(v)
    before = snapshot(flow, cols)
    lo, hi = opt(v, 'lo'), opt(v, 'hi')
    r = v.val(v.I.getattr(flow, 'lims'), 'A', lo, hi)
    cond = lambda i: inside(cols['A'].at((i,)), lo, hi)
    kept_axis(v, r.data, cols, cond, 'kept')
    v.ensures('bin count updated', eq(getattr_(v, r, 'num_bins'), num(r.data.axes[0].length())))
    v.ensures('bin count is the number of bins within the limits',
              eq(getattr_(v, r, 'num_bins'), mk_sum([n], lambda cs: cond(cs[0]), lambda cs: SNum(IV(1)))))
    v.ensures('spacing kept', eq(getattr_(v, r, 'spacing'), inf['spacing']))
    v.ensures('no shared data', r.data.buf is not flow.data.buf)
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C13', FLOW + '.FlowData.lims, translate', 'unknown fields')
def c13_unknown(v):
    n, cols, flow, inf = some_flow(v)
    out = v.call(v.I.getattr(flow, 'lims'), 'nope', v.real('lo'), v.real('hi'))
    v.ensures('refused by lims', isinstance(out.exc, KeyError))
    out = v.call(v.I.getattr(flow, 'translate'), 'nope', v.real('s'))
    v.ensures('refused by translate', isinstance(out.exc, KeyError))


@contract('C13', FLOW + '.FlowData.copy, translate', 'copies and translations')
def c13_translate(v):
    n, cols, flow, inf = some_flow(v)
    before = snapshot(flow, cols)
    i = v.index(n)
    c = v.val(v.I.getattr(flow, 'copy'))
    v.ensures('copy has the same values', And(*[bt(eq(c.data.fieldview(l).at((i,)), cols[l].at((i,)))) for l in cols]))
    v.ensures('copy has the same fields', tuple(c.data.fields()) == tuple(cols))
    v.ensures('copy shares no data', c.data.buf is not flow.data.buf)
    s = v.real('s')
    r = v.val(v.I.getattr(flow, 'translate'), 'X', s)
    v.ensures('named field moved by the amount', eq(r.data.fieldview('X').at((i,)), cols['X'].at((i,)) + s))
    v.ensures('other fields unchanged', And(*[bt(eq(r.data.fieldview(l).at((i,)), cols[l].at((i,)))) for l in ('Y', 'A')]))
    v.ensures('translation shares no data', r.data.buf is not flow.data.buf)
    sh = v.arr('shift', n)
    r2 = v.val(v.I.getattr(flow, 'translate'), 'A', sh)
    v.ensures('translation by an array', eq(r2.data.fieldview('A').at((i,)), cols['A'].at((i,)) + sh.at((i,))))
    v.reset()
    for k, f in (('copy', c), ('translation', r)):
        same_info(v, k + ' keeps the information', f, flow)
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C13', FLOW + '.FlowData.cut', 'cut along both axes')
def c13_cut(v):
    NX, NY = v.size('NX', 1), v.size('NY', 1)
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    ax = v.axis(NX, NY, order='any')
    cols = {'X': array([ax], lambda cs: SNum((x0 + num(cs[0]) * dx).t, True)),
            'Y': array([ax], lambda cs: SNum((y0 + num(cs[1]) * dy).t, True)), 'A': v.arr('A', ax)}
    # bins between a half spacing before and after the origin convention of either file format
    ox, oy = v.real('ox'), v.real('oy')
    v.require(ox <= x0, ox > x0 - dx, oy <= y0, oy > y0 - dy)
    flow = flow_of(v, list(cols.items()), {'shape': (num(NX), num(NY)), 'spacing': (dx, dy), 'origin': (ox, oy)})
    before = snapshot(flow, cols)
    xl, xh, yl, yh = opt(v, 'xl'), opt(v, 'xh'), opt(v, 'yl'), opt(v, 'yh')
    r = v.val(v.I.getattr(flow, 'cut'), xlim=(xl, xh), ylim=(yl, yh))
    a = r.data.axes[0]
    cs = a.fresh('q')
    if len(cs) != 2:
        v.ensures('the kept bins', False)
        return
    rng = ax.guard(cs)
    v.ensures('exactly the bins within both limits', a.guard(cs) == And(rng, inside(cols['X'].at(cs), xl, xh), inside(cols['Y'].at(cs), yl, yh)))
    v.ensures('all fields kept', And(*[bt(eq(r.data.fieldview(l).at(cs), cols[l].at(cs))) for l in cols]), a.guard(cs))
    v.ensures('spacing kept', eq(getattr_(v, r, 'spacing'), (dx, dy)))
    sh = getattr_(v, r, 'shape')
    cx = mk_sum([NX], lambda c: inside(x0 + num(c[0]) * dx, xl, xh), lambda c: SNum(IV(1)))
    cy = mk_sum([NY], lambda c: inside(y0 + num(c[0]) * dy, yl, yh), lambda c: SNum(IV(1)))
    v.ensures('shape along x', eq(sh[0], cx), bt(cy > 0))
    v.ensures('shape along y', eq(sh[1], cy), bt(cx > 0))
    v.ensures('bin count', eq(getattr_(v, r, 'num_bins'), sh[0] * sh[1]))
    v.ensures('no shared data', r.data.buf is not flow.data.buf)
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C13', 'droplets.data_utils.get_lim_indices', 'indices within limits')
def c13_ind(v):
    n, cols, flow, inf = some_flow(v)
    lo, hi = opt(v, 'lo'), opt(v, 'hi')
    r = v.val(v.fn('droplets.data_utils', 'get_lim_indices'), flow.data, {'A': (lo, hi)})
    r = r[0] if isinstance(r, tuple) else r
    cond = lambda i: inside(cols['A'].at((i,)), lo, hi)
    a = r.axes[0]
    cs = a.fresh('q')
    v.ensures('one index per bin within the limits', a.guard(cs) == And(cs[0] >= 0, cs[0] < n, cond(cs[0])))
    v.ensures('the index of that bin', eq(r.at(cs), num(cs[0])), a.guard(cs))
    r = v.val(v.fn('droplets.data_utils', 'get_lim_indices'), flow.data, {})
    i = v.index(n)
    v.ensures('all indices without limits', And(bt(eq(r.at(r.axes[0].coords(i)), num(i))), bt(eq(num(r.axes[0].length()), num(n)))))


@contract('C13', 'droplets.data_utils.get_lim_indices', 'indices within several limits')
def c13_ind2(v):
    n, cols, flow, inf = some_flow(v)
    l1, h1, l2, h2 = (v.real(s) for s in ('l1', 'h1', 'l2', 'h2'))
    r = v.val(v.fn('droplets.data_utils', 'get_lim_indices'), flow.data, {'A': (l1, h1), 'X': (None, h2)})
    r = r[0] if isinstance(r, tuple) else r
    a = r.axes[0]
    cs = a.fresh('q')
    v.ensures('one index per bin within all limits', a.guard(cs) == And(
        cs[0] >= 0, cs[0] < n, inside(cols['A'].at((cs[0],)), l1, h1), inside(cols['X'].at((cs[0],)), None, h2)))
    v.ensures('the index of that bin', eq(r.at(cs), num(cs[0])), a.guard(cs))


# ------------------------------------------------------------------ C14
@contract('C14', FLOW + '.FlowData.__init__, set_data', 'fields')
def c14_fields(v):
    nx, ny = v.size('nx', 1), v.size('ny', 1)
    n = t_mul(nx, ny)
    A = v.arr('A', nx, ny)                       # two-dimensional: flattened in order
    B = v.arr('B', n)
    C = v.arr('C', n, sort='Int')
    flow = v.val(v.fn(FLOW, 'FlowData'), ('A', A), {'B': B, 'C': C})
    d = flow.data
    v.ensures('labels in the given order', tuple(d.fields()) == ('A', 'B', 'C'))
    i, j = v.index(nx, ny)
    p = t_add(t_mul(i, ny), j)
    at = lambda l: d.fieldview(l).at(d.axes[0].coords(p))
    v.ensures('values flattened in order', eq(at('A'), A.at((i, j))))
    v.ensures('values of the other fields', And(bt(eq(at('B'), B.at((p,)))), bt(eq(at('C'), C.at((p,))))))
    v.ensures('data types kept', d.dtype('A') == 'f' and d.dtype('C') == 'i')
    v.ensures('one record per value', eq(num(d.axes[0].length()), num(n)))
    v.ensures('not aliased', d.buf is not A.buf and d.buf is not B.buf and d.buf is not C.buf)
    g = v.val(v.I.getattr(flow, 'get_data'), 'B')
    v.ensures('get_data returns the field', eq(g.at(g.axes[0].coords(p)), B.at((p,))))
    v.ensures('get_data of an unknown field', v.val(v.I.getattr(flow, 'get_data'), 'nope') is None)


@contract('C14', FLOW + '.FlowData.__init__, set_data', 'arrays of unequal size')
def c14_unequal(v):
    n, m = v.size('n', 1), v.size('m', 1)
    v.require(Not(n == m))
    first = v.decide(v.bool('first').t)
    a, b = ('A', v.arr('A', n)), ('B', v.arr('B', m))
    out = v.call(v.fn(FLOW, 'FlowData'), *((a, b) if first else (b, a)))
    v.ensures('refused with a ValueError', isinstance(out.exc, ValueError))


@contract('C14', FLOW + '.FlowData.set_info, size', 'information')
def c14_info(v):
    n = v.size('n', 1)
    info = {}
    if v.decide(v.bool('has_shape').t):
        info['shape'] = (v.int('NX'), v.int('NY'))
    if v.decide(v.bool('has_spacing').t):
        info['spacing'] = (v.real('dx'), v.real('dy'))
    if v.decide(v.bool('has_origin').t):
        info['origin'] = (v.real('ox'), v.real('oy'))
    if v.decide(v.bool('has_num').t):
        info['num_bins'] = v.int('nb')
    given = dict(info)
    flow = flow_of(v, [('X', v.arr('X', n))], info)
    for k in ('shape', 'spacing', 'origin'):
        v.ensures(k + ' as given or unset', eq(getattr_(v, flow, k), given.get(k, (None, None))))
    v.ensures('bin count as given or unset', eq(getattr_(v, flow, 'num_bins'), given.get('num_bins')))
    v.ensures('the given information is unmodified', info == given if not given else set(info) == set(given) and
              all(info[k] is given[k] for k in given))
    s = v.val(v.I.getattr(flow, 'size'))
    if 'shape' in given and 'spacing' in given:
        v.ensures('size is shape times spacing', eq(s, tuple(a * b for a, b in zip(given['shape'], given['spacing']))))
    else:
        v.ensures('size undefined', s is None)
    out = v.call(v.I.getattr(flow, 'set_info'), {'colour': 1})
    v.ensures('unknown information refused', isinstance(out.exc, KeyError))


@contract('C14', FLOW + '.FlowData.set_info', 'malformed information')
def c14_bad(v):
    for k, (key, val) in enumerate([('shape', 3), ('shape', (1,)), ('shape', ('a', 'b')), ('shape', (1, None)), ('spacing', 1.),
                                    ('spacing', ('x', 1.)), ('spacing', (1.,)), ('origin', 2.), ('origin', (None, 1.)),
                                    ('num_bins', 'many'), ('num_bins', (1, 2))]):
        n = v.size('n', 1)
        out = v.call(v.fn(FLOW, 'FlowData'), ('X', v.arr('X', n)), info={key: val})
        v.ensures('malformed %s %d refused' % (key, k), isinstance(out.exc, ValueError))


@contract('C14', FLOW + '.FlowData.sort', 'sorting a regular map')
def c14_sort(v):
    NX, NY = v.size('NX', 1), v.size('NY', 1)
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    ax, cols, flow = grid_flow(v, NX, NY, dx, dy, x0, y0, ('A',))
    v.val(v.I.getattr(flow, 'sort'))
    i, j = v.index(NX, NY)
    d = flow.data
    p = t_add(t_mul(j, NX), i)                   # rows of increasing y, within a row increasing x
    at = lambda l: d.fieldview(l).at(d.axes[0].coords(p))
    v.ensures('whole records ordered by y and then x', And(*[bt(eq(at(l), cols[l].at((i, j)))) for l in ('X', 'Y', 'A')]))
    v.ensures('number of records', eq(num(d.axes[0].length()), num(t_mul(NX, NY))))


@contract('C14', FLOW + '.FlowData.sort', 'sorting any map')
def c14_sort2(v):
    n, cols, flow, inf = some_flow(v)
    before = snapshot(flow, cols)
    v.val(v.I.getattr(flow, 'sort'))
    d = flow.data
    p, q = v.index(n, n)
    at = lambda l, k: d.fieldview(l).at(d.axes[0].coords(k))
    # in order
    v.ensures('ordered by y and then x', Or(bt(at('Y', p) < at('Y', q)), And(bt(eq(at('Y', p), at('Y', q))), bt(at('X', p) <= at('X', q)))), p < q)
    v.ensures('number of records', eq(num(d.axes[0].length()), num(n)))
    # the records are those of before, each once: a permutation
    ax = d.axes[0]
    perm_of = getattr(ax, 'perm_of', None)
    if perm_of is None:
        raise Unsupported('the result is not a rearrangement the contract can follow')
    a, perm, inv = perm_of
    v.reset()
    p = v.index(n)
    v.ensures('every record occurs once', And(inv(perm(p)) == p, perm(inv(p)) == p, perm(p) >= 0, perm(p) < n))
    v.ensures('whole records moved', And(*[bt(eq(at(l, p), before[l](a.coords(perm(p))))) for l in cols]))


# ------------------------------------------------------------------ C11
RS = 'droplets.resample'


def _downsample(v, limits, some=False):
    v.c.intervals = True
    NX, NY = v.size('NX', 1), v.size('NY', 1)
    nx, ny = v.size('nx', 1), v.size('ny', 1)
    dx, dy, x0, y0, ox, oy = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0', 'ox', 'oy'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    ax, cols, flow = grid_flow(v, NX, NY, dx, dy, x0, y0, ('M', 'U'), info=False)
    v.val(v.I.getattr(flow, 'set_info'), {'shape': (num(NX), num(NY)), 'spacing': (dx, dy), 'origin': (ox, oy)})
    before = snapshot(flow, cols)
    kw = {}
    span = []
    for k, (lab, z0, dz, N_) in enumerate((('x', x0, dx, NX), ('y', y0, dy, NY))):
        if not limits:
            span.append((IV(0), N_))
            continue
        lo, hi = (opt(v, lab + 'lo'), opt(v, lab + 'hi')) if some else (v.real(lab + 'lo'), v.real(lab + 'hi'))
        kw[lab + 'lim'] = (lo, hi)
        # bins f .. g are those inside the limits
        f, g = v.index(N_, N_)
        f1, g1 = v.index(N_, N_)
        pos = lambda t: z0 + num(t) * dz
        v.require(*v.quant)
        v.reset()
        v.require(inside(pos(f), lo, hi), inside(pos(g), lo, hi))
        v.require(Or(bt(eq(num(f), 0)), And(f1 == f - 1, Not(inside(pos(f1), lo, hi)))))
        v.require(Or(bt(eq(num(g + 1), num(N_))), And(g1 == g + 1, Not(inside(pos(g1), lo, hi)))))
        v.require(f <= g)
        if lo is None:
            v.require(f == 0)
        if hi is None:
            v.require(g == N_ - 1)
        span.append((f, g - f + 1))
    (fx, kx), (fy, ky) = span
    v.require(nx <= kx, ny <= ky)
    r = v.val(v.fn(RS, 'downsample_flow_data'), flow, (num(nx), num(ny)), weights=[('U', 'M')], **kw)
    sh = getattr_(v, r, 'shape')
    v.ensures('shape divided and rounded down along x', And(bt(sh[0] * num(nx) <= num(kx)), bt(num(kx) < (sh[0] + 1) * num(nx))))
    v.ensures('shape divided and rounded down along y', And(bt(sh[1] * num(ny) <= num(ky)), bt(num(ky) < (sh[1] + 1) * num(ny))))
    v.ensures('spacing multiplied', eq(tuple(getattr_(v, r, 'spacing')), (dx * num(nx), dy * num(ny))))
    v.ensures('bin count', eq(getattr_(v, r, 'num_bins'), sh[0] * sh[1]))
    sx, sy = sterm_(sh[0]), sterm_(sh[1])
    i, j = v.index(sx, sy)
    v.require(*v.quant)
    p = t_add(t_mul(j, sx), i)
    d = r.data
    at = lambda l: d.fieldview(l).at(d.axes[0].coords(p))
    v.ensures('one record per new bin', eq(num(d.axes[0].length()), num(t_mul(sx, sy))))
    px = x0 + dx * (num(fx) + num(nx) * num(i) + half() * (num(nx) - 1))
    py = y0 + dy * (num(fy) + num(ny) * num(j) + half() * (num(ny) - 1))
    v.ensures('position is the mean of the covered positions', And(bt(eq(at('X'), px)), bt(eq(at('Y'), py))))

    def tot(l, w=None):
        def f(a, b):
            k = (t_add(t_add(fx, t_mul(nx, i)), a), t_add(t_add(fy, t_mul(ny, j)), b))
            return cols[l].at(k) * (cols[w].at(k) if w else 1)
        return v.sum([nx, ny], f)
    v.ensures('sum over the covered bins', eq(at('M'), tot('M')))
    if not some:
        W = tot('M')
        v.ensures('weighted mean over the covered bins', eq(at('U') * W, tot('U', 'M')), Not(bt(eq(W, 0))))
        v.ensures('zero where the weight is zero', eq(at('U'), 0), eq(W, 0))
    v.reset()
    o = getattr_(v, r, 'origin')
    v.ensures('origin is the mean of the first covered positions',
              And(bt(eq(o[0], x0 + dx * (num(fx) + half() * (num(nx) - 1)))), bt(eq(o[1], y0 + dy * (num(fy) + half() * (num(ny) - 1))))))
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C11', RS + '.downsample_flow_data', 'downsampling')
def c11(v):
    _downsample(v, False)


@contract('C11', RS + '.downsample_flow_data', 'downsampling within limits')
def c11_lims(v):
    _downsample(v, True)


@contract('C11', RS + '.downsample_flow_data', 'downsampling within some limits')
def c11_some(v):
    _downsample(v, True, True)


# ------------------------------------------------------------------ C12
def _supersample(v, weighted, order='any'):
    NX, NY = v.size('NX', 1), v.size('NY', 1)
    n = v.size('factor', 2)
    dx, dy, x0, y0, ox, oy = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0', 'ox', 'oy'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    ax, cols, flow = grid_flow(v, NX, NY, dx, dy, x0, y0, ('M', 'U'), info=False)
    v.val(v.I.getattr(flow, 'set_info'), {'shape': (num(NX), num(NY)), 'spacing': (dx, dy), 'origin': (ox, oy)})
    before = snapshot(flow, cols)
    r = v.val(v.fn(RS, 'supersample_flow_data'), flow, num(n), weights=[('U', 'M')] if weighted else [])
    v.ensures('times as many bins along each axis', eq(tuple(getattr_(v, r, 'shape')), (num(NX) * num(n), num(NY) * num(n))))
    v.ensures('spacing divided', And(*[bt(eq(a * num(n), b)) for a, b in zip(getattr_(v, r, 'spacing'), (dx, dy))]))
    v.ensures('first position at the smallest coordinates', eq(tuple(getattr_(v, r, 'origin')), (x0, y0)))
    v.ensures('bin count', eq(getattr_(v, r, 'num_bins'), num(t_mul(t_mul(NX, n), t_mul(NY, n)))))
    sx, sy = t_mul(NX, n), t_mul(NY, n)
    i, j = v.index(sx, sy)
    v.require(*v.quant)
    p = t_add(t_mul(j, sx), i)
    d = r.data
    at = lambda l: d.fieldview(l).at(d.axes[0].coords(p))
    v.ensures('one record per fine bin', eq(num(d.axes[0].length()), num(t_mul(sx, sy))))
    v.ensures('position of the fine bin', And(bt(eq((at('X') - x0) * num(n), dx * num(i))), bt(eq((at('Y') - y0) * num(n), dy * num(j)))))
    # fine bin (a, b) initially holds the value of coarse bin (a div n, b div n)
    fine = lambda l, a, b: cols[l].at((t_idiv(a, n), t_idiv(b, n)))
    # the stencil: fine bins lo .. lo + len - 1 along each axis, those within factor - 1 steps
    win = []
    for k, N_ in ((i, sx), (j, sy)):
        lo = n_ite(k - n + 1 > 0, num(k - n + 1), num(IV(0)))
        hi = n_ite(k + n < N_, num(k + n), num(N_))
        win.append((lo.t, (hi - lo).t))
    (xl, xn), (yl, yn) = win

    def tot(val):
        return v.sum([yn, xn], lambda b, a: val(t_add(xl, a), t_add(yl, b)))
    cnt = tot(lambda a, b: SNum(IV(1)))
    v.ensures('plain mean over the stencil', eq(at('M') * cnt, tot(lambda a, b: fine('M', a, b))))
    if weighted:
        W = tot(lambda a, b: fine('M', a, b))
        v.ensures('weighted mean over the stencil', eq(at('U') * W, tot(lambda a, b: fine('M', a, b) * fine('U', a, b))), Not(bt(eq(W, 0))))
        v.ensures('zero where the weight is zero', eq(at('U'), 0), eq(W, 0))
    else:
        v.ensures('plain mean of other fields', eq(at('U') * cnt, tot(lambda a, b: fine('U', a, b))))
    v.reset()
    unchanged(v, flow, before, cols, flow.data.axes[0])
    v.ensures('no shared data', d.buf is not flow.data.buf)


@contract('C12', RS + '.supersample_flow_data', 'supersampling')
def c12(v):
    _supersample(v, False)


@contract('C12', RS + '.supersample_flow_data', 'supersampling with a weight')
def c12_w(v):
    _supersample(v, True)


@contract('C12', RS + '.supersample_flow_data', 'factor of one or none')
def c12_one(v):
    n, cols, flow, inf = some_flow(v)
    before = snapshot(flow, cols)
    r = v.val(v.fn(RS, 'supersample_flow_data'), flow, None if v.decide(v.bool('none').t) else 1)
    i = v.index(n)
    v.ensures('an equal copy', And(*[bt(eq(r.data.fieldview(l).at((i,)), cols[l].at((i,)))) for l in cols]))
    v.ensures('same fields', tuple(r.data.fields()) == tuple(cols))
    v.ensures('shares no data', r.data.buf is not flow.data.buf)
    v.reset()
    same_info(v, 'same grid information', r, flow)
    unchanged(v, flow, before, cols, flow.data.axes[0])


# ------------------------------------------------------------------ C10
AV = 'droplets.average'


@contract('C10', AV + '.average_data', 'mean over maps on one grid')
def c10_mean(v):
    K, n = v.size('K', 1), v.size('n', 1)
    ax = v.axis(n)
    X, Y = v.fun('X', 1), v.fun('Y', 1)
    fs = {'M': v.fun('M', 2, facts=lambda a, w: w >= 0), 'U': v.fun('U', 2)}

    def one(k):
        d = {'X': lambda cs: SNum(X(cs[0]), True), 'Y': lambda cs: SNum(Y(cs[0]), True)}
        for l in fs:
            d[l] = lambda cs, l=l: SNum(fs[l](k, cs[0]), True)
        return record((ax,), d, ('X', 'Y', 'M', 'U'), {l: 'f' for l in d})
    data = v.list(K, one)
    weighted = v.decide(v.bool('weighted').t)
    r = v.val(v.fn(AV, 'average_data'), data, [('U', 'M')] if weighted else [])
    i = v.index(n)
    v.require(*v.quant)
    at = lambda l: r.fieldview(l).at((i,))
    tot = lambda l, w=None: v.sum([K], lambda k: num(fs[l](k, i)) * (num(fs[w](k, i)) if w else 1))
    v.ensures('fields', tuple(r.fields()) == ('X', 'Y', 'M', 'U'))
    v.ensures('coordinates kept', And(bt(eq(at('X'), num(X(i)))), bt(eq(at('Y'), num(Y(i))))))
    v.ensures('arithmetic mean', eq(at('M') * num(K), tot('M')))
    if weighted:
        W = tot('M')
        v.ensures('weighted mean', eq(at('U') * W, tot('U', 'M')), Not(bt(eq(W, 0))))
        v.ensures('zero where the weight is zero', eq(at('U'), 0), eq(W, 0))
    else:
        v.ensures('arithmetic mean of other fields', eq(at('U') * num(K), tot('U')))


def lattice_maps(v, K, dx, dy, x0, y0, fields):
    """K maps on one lattice: map k covers bins A(k) .. A(k) + NX(k) - 1 along x, likewise along y."""
    A, B = v.fun('A', 1, 'Int'), v.fun('B', 1, 'Int')
    NX = v.fun('NX', 1, 'Int', facts=lambda a, w: w >= 1)
    NY = v.fun('NY', 1, 'Int', facts=lambda a, w: w >= 1)
    fs = {l: v.fun(l, 3, facts=(lambda a, w: w >= 0) if l == 'M' else None) for l in fields}

    def data(k):
        ax = Axis((NY(k), NX(k)))
        d = {'X': lambda cs: SNum((x0 + num(t_add(A(k), cs[1])) * dx).t, True),
             'Y': lambda cs: SNum((y0 + num(t_add(B(k), cs[0])) * dy).t, True)}
        for l in fields:
            d[l] = lambda cs, l=l: SNum(fs[l](k, cs[1], cs[0]), True)
        return record((ax,), d, ('X', 'Y') + tuple(fields), {l: 'f' for l in d})
    return A, B, NX, NY, fs, data


@contract('C10', AV + '.get_combined_grid', 'common grid')
def c10_grid(v):
    K = v.size('K', 1)
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    A, B, NX, NY, fs, data = lattice_maps(v, K, dx, dy, x0, y0, ('M', 'U'))
    g = v.val(v.fn(AV, 'get_combined_grid'), v.list(K, data), (dx, dy))
    k = v.index(K)
    v.require(*v.quant)
    v.reset()
    ny, nx = (num(a.length()) for a in g.axes)
    i, j = v.index(nx.t, ny.t)
    v.require(*v.quant)
    v.reset()
    gx = lambda t: g.fieldview('X').at((j, t))
    gy = lambda t: g.fieldview('Y').at((t, i))
    v.ensures('regular along x with the given spacing', eq(gx(i), gx(IV(0)) + num(i) * dx))
    v.ensures('regular along y with the given spacing', eq(gy(j), gy(IV(0)) + num(j) * dy))
    v.ensures('starts at or before each map along x', gx(IV(0)) <= x0 + num(A(k)) * dx)
    v.ensures('starts at or before each map along y', gy(IV(0)) <= y0 + num(B(k)) * dy)
    v.ensures('reaches each map along x', gx(nx.t - 1) >= x0 + num(A(k) + NX(k) - 1) * dx)
    v.ensures('reaches each map along y', gy(ny.t - 1) >= y0 + num(B(k) + NY(k) - 1) * dy)
    v.ensures('empty bins', And(*[bt(eq(g.fieldview(l).at((j, i)), 0)) for l in ('M', 'U')]))
    v.ensures('fields', tuple(g.fields()) == ('X', 'Y', 'M', 'U'))


def lattice_flows(v, K, dx, dy, x0, y0, fields, info=None):
    """FlowData objects of K maps on one lattice, built by the real constructor for an arbitrary map."""
    A, B, NX, NY, fs, data = lattice_maps(v, K, dx, dy, x0, y0, fields)
    k0 = v.c.index('map')
    v.require(k0 >= 0, k0 < K)
    d = data(k0)
    f = flow_of(v, [(l, d.fieldview(l)) for l in d.fields()],
                {'shape': (num(NX(k0)), num(NY(k0))), 'spacing': (dx, dy), **(info or {})})
    one = memo(lambda cs: subst(f, [(k0, cs[0])]))
    return A, B, NX, NY, fs, lambda k: one((k,))


@contract('C10', AV + '.average_flow_data, transfer_data, get_combined_grid, average_data', 'average on the common grid')
def c10(v):
    K = v.size('K', 1)
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    A, B, NX, NY, fs, one = lattice_flows(v, K, dx, dy, x0, y0, ('M', 'U'))
    maps = v.list(K, one)
    weighted = v.decide(v.bool('weighted').t)
    r = v.val(v.fn(AV, 'average_flow_data'), maps, weights=[('U', 'M')] if weighted else [])
    nx, ny = getattr_(v, r, 'shape')
    # the smallest box of lattice bins that holds all maps
    ext = lambda kind, f: N.extremum([K], None, lambda cs: SNum(f(cs[0])), kind)
    a0, b0 = ext('min', lambda k: A(k)), ext('min', lambda k: B(k))
    a1, b1 = ext('max', lambda k: A(k) + NX(k)), ext('max', lambda k: B(k) + NY(k))
    v.ensures('shape spans all maps', eq((nx, ny), (a1 - a0, b1 - b0)))
    v.ensures('spacing kept', eq(getattr_(v, r, 'spacing'), (dx, dy)))
    v.ensures('origin is the first bin', eq(getattr_(v, r, 'origin'), (x0 + a0 * dx, y0 + b0 * dy)))
    v.ensures('bin count', eq(getattr_(v, r, 'num_bins'), nx * ny))
    i, j = v.index(nx.t, ny.t)
    v.require(*v.quant)
    v.reset()
    d = r.data
    p = t_add(t_mul(j, nx.t), i)
    at = lambda l: d.fieldview(l).at(d.axes[0].coords(p))
    v.ensures('one record per bin', eq(num(d.axes[0].length()), nx * ny))
    v.ensures('fields', tuple(d.fields()) == ('X', 'Y', 'M', 'U'))
    v.ensures('position of the bin', And(bt(eq(at('X'), x0 + (a0 + num(i)) * dx)), bt(eq(at('Y'), y0 + (b0 + num(j)) * dy))))
    # lattice bin (a, b) of map k: its value, or empty
    a, b = a0.t + i, b0.t + j

    def val(l, k):
        inside_ = And(A(k) <= a, a < A(k) + NX(k), B(k) <= b, b < B(k) + NY(k))
        return n_ite(inside_, num(fs[l](k, a - A(k), b - B(k))), num(RV(0)))
    tot = lambda l, w=None: v.sum([K], lambda k: val(l, k) * (val(w, k) if w else 1))
    v.ensures('arithmetic mean over the maps', eq(at('M') * num(K), tot('M')))
    if weighted:
        W = tot('M')
        v.ensures('weighted mean', eq(at('U') * W, tot('U', 'M')), Not(bt(eq(W, 0))))
        v.ensures('zero where the weight is zero', eq(at('U'), 0), eq(W, 0))
    else:
        v.ensures('arithmetic mean of other fields', eq(at('U') * num(K), tot('U')))


@contract('C10', AV + '.average_flow_data', 'refused maps')
def c10_refuse(v):
    n = v.size('n', 1)
    lists = {}

    def mk(name, info):
        return flow_of(v, [(l, v.arr(name + l, n)) for l in ('X', 'Y', 'M')], info)
    sp = lambda s: (v.real(s + 'x'), v.real(s + 'y'))
    a, b = sp('a'), sp('b')
    v.require(*[x > 0 for x in a + b])
    shape = (v.int('NX'), v.int('NY'))
    one, two = mk('f', {'shape': shape, 'spacing': a}), mk('g', {'shape': shape, 'spacing': b})
    bare = mk('h', {'shape': shape})
    f = v.fn(AV, 'average_flow_data')
    out = v.call(f, IList([]))
    v.ensures('nothing to average is refused', isinstance(out.exc, ValueError))
    for k, l in enumerate(([bare], [one, bare], [bare, one])):
        out = v.call(f, IList(l))
        v.ensures('missing spacing refused %d' % k, isinstance(out.exc, ValueError))
    ax_ = v.decide(v.bool('along_x').t)
    p, q = (a[0], b[0]) if ax_ else (a[1], b[1])
    v.require(n_abs(p - q) > n_abs(p) * SNum(RV('1/1000')) + SNum(RV('1/1000000')))
    for k, l in enumerate(([one, two], [one, one, two])):
        out = v.call(f, IList(l))
        v.ensures('unequal spacings refused %d' % k, isinstance(out.exc, ValueError))


@contract('C10', AV + '.average_flow_data', 'inputs and empty maps')
def c10_frame(v):
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    NX, NY = v.size('NX', 1), v.size('NY', 1)
    ax = v.axis(NY, NX)
    def mk(name, a, b):
        cols = {'X': array([ax], lambda cs: SNum((x0 + num(t_add(a, cs[1])) * dx).t, True)),
                'Y': array([ax], lambda cs: SNum((y0 + num(t_add(b, cs[0])) * dy).t, True)),
                'M': v.arr(name + 'M', ax), 'U': v.arr(name + 'U', ax)}
        return cols, flow_of(v, list(cols.items()), {'shape': (num(NX), num(NY)), 'spacing': (dx, dy)})
    c1, f1 = mk('f', IV(0), IV(0))
    c2, f2 = mk('g', v.int('A').t, v.int('B').t)
    s1, s2 = snapshot(f1, c1), snapshot(f2, c2)
    w = [('U', 'M')]
    v.val(v.fn(AV, 'average_flow_data'), IList([f1, f2]), weights=IList(w))
    unchanged(v, f1, s1, c1, f1.data.axes[0], 'the first map is not modified')
    unchanged(v, f2, s2, c2, f2.data.axes[0], 'the second map is not modified')
    # a map without bins counts as empty bins unless it is to be excluded
    empty = flow_of(v, [(l, np.array([])) for l in c1], {'spacing': (dx, dy), 'shape': (0, 0)})
    excl = v.decide(v.bool('exclude').t)
    r = v.val(v.fn(AV, 'average_flow_data'), IList([empty, f1] if v.decide(v.bool('first').t) else [f1, empty]), exclude_empty_sets=excl)
    v.ensures('shape of the map with bins', eq(getattr_(v, r, 'shape'), (num(NX), num(NY))))
    i, j = v.index(NX, NY)
    v.require(*v.quant)
    v.reset()
    d = r.data
    at = lambda l: d.fieldview(l).at(d.axes[0].coords(t_add(t_mul(j, NX), i)))
    for l in ('M', 'U'):
        v.ensures('empty maps count as empty bins or not at all: ' + l, eq(at(l) * (1 if excl else 2), c1[l].at((j, i))))
    v.ensures('positions', And(*[bt(eq(at(l), c1[l].at((j, i)))) for l in ('X', 'Y')]))


CL = 'strata.contact_line_analysis'


def grid_of(v, fields, x0, y0, dx, dy, gx, gy):
    """An empty grid of gx by gy bins as get_combined_grid makes it."""
    ax, ay = Axis((gx,)), Axis((gy,))
    d = {'X': lambda cs: SNum((x0 + num(cs[1]) * dx).t, True), 'Y': lambda cs: SNum((y0 + num(cs[0]) * dy).t, True)}
    for l in fields:
        d[l] = lambda cs: SNum(RV(0), True)
    return record((ay, ax), d, ('X', 'Y') + tuple(fields), {l: 'f' for l in d})


@contract('C20', AV + '.transfer_data', 'transfer onto a grid')
@contract('C10', AV + '.transfer_data', 'transfer onto a grid')
def c10_transfer(v):
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    A, B = v.int('A').t, v.int('B').t
    nx, ny, gx, gy = v.size('nx', 1), v.size('ny', 1), v.size('gx', 1), v.size('gy', 1)
    v.require(A >= 0, B >= 0, A + nx <= gx, B + ny <= gy)
    ax = v.axis(ny, nx)
    g = grid_of(v, ('M', 'U'), x0, y0, dx, dy, gx, gy)
    cols = {'X': array([ax], lambda cs: SNum((x0 + num(t_add(A, cs[1])) * dx).t, True)),
            'Y': array([ax], lambda cs: SNum((y0 + num(t_add(B, cs[0])) * dy).t, True)),
            'M': v.arr('M', ax), 'U': v.arr('U', ax)}
    d = record((ax,), {l: cols[l].reader() for l in cols}, tuple(cols), {l: 'f' for l in cols})
    before = {l: g.fieldview(l).reader() for l in cols}
    r = v.val(v.fn(AV, 'transfer_data'), g, d, (num(nx), num(ny)), (dx, dy))
    i, j = v.index(gx, gy)
    v.require(*v.quant)
    v.reset()
    v.ensures('one record per grid bin', eq(num(r.axes[0].length()), num(t_mul(gx, gy))))
    at = lambda l: r.fieldview(l).at(r.axes[0].coords(t_add(t_mul(j, gx), i)))
    for l in cols:
        inside_ = And(A <= i, i < A + nx, B <= j, j < B + ny)
        v.ensures('the map inside, the grid outside: ' + l,
                  eq(at(l), n_ite(inside_, cols[l].at((j - B, i - A)), g.fieldview(l).at((j, i)))))
    for l in cols:
        v.ensures('the grid is not modified: ' + l, eq(g.fieldview(l).at((j, i)), before[l]((j, i))))


@contract('C20', AV + '.get_combined_grid', 'grid of two maps')
def c20_grid(v):
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t), v.c.mark_nonzero(dy.t)
    pq = []
    for s in 'lr':
        A, B, nx, ny = v.int(s + 'A').t, v.int(s + 'B').t, v.size(s + 'nx', 1), v.size(s + 'ny', 1)
        ax = v.axis(ny, nx)
        d = {'X': lambda cs, A=A: SNum((x0 + num(t_add(A, cs[1])) * dx).t, True),
             'Y': lambda cs, B=B: SNum((y0 + num(t_add(B, cs[0])) * dy).t, True),
             'M': v.arr(s + 'M', ax).reader()}
        pq.append((A, B, nx, ny, record((ax,), d, ('X', 'Y', 'M'), {l: 'f' for l in d})))
    g = v.val(v.fn(AV, 'get_combined_grid'), IList([t[-1] for t in pq]), (dx, dy))
    v.reset()
    (lA, lB, lnx, lny, _), (rA, rB, rnx, rny, _) = pq
    mn = lambda a, b: z3.If(a <= b, a, b)
    a0, b0, a1, b1 = mn(lA, rA), mn(lB, rB), -mn(-(lA + lnx), -(rA + rnx)), -mn(-(lB + lny), -(rB + rny))
    gy, gx = (a.length() for a in g.axes)
    v.ensures('spans both maps along x', eq(num(gx), num(a1 - a0)))
    v.ensures('spans both maps along y', eq(num(gy), num(b1 - b0)))
    i, j = v.index(gx, gy)
    at = lambda l: g.fieldview(l).at((j, i))
    v.require(*v.quant)
    v.reset()
    v.ensures('x positions', eq(at('X'), x0 + num(a0 + i) * dx))
    v.ensures('y positions', eq(at('Y'), y0 + num(b0 + j) * dy))
    v.ensures('empty bins', eq(at('M'), 0))


@contract('C20', CL + '.combine_flow_data, merge_data', 'merged edges')
def c20(v):
    """On the contracts of get_combined_grid and transfer_data."""
    dx, dy, x0, y0 = (v.real(s) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    fields = ('M', 'N', 'U', 'V', 'T')
    gx, gy = v.size('gx', 1), v.size('gy', 1)
    side = {}
    for s in ('left', 'right'):
        A, B = v.int(s + 'A').t, v.int(s + 'B').t
        nx, ny = v.size(s + 'nx', 1), v.size(s + 'ny', 1)
        v.require(A >= 0, B >= 0, A + nx <= gx, B + ny <= gy)
        ax = v.axis(ny, nx)
        cols = {'X': array([ax], lambda cs, A=A: SNum((x0 + num(t_add(A, cs[1])) * dx).t, True)),
                'Y': array([ax], lambda cs, B=B: SNum((y0 + num(t_add(B, cs[0])) * dy).t, True))}
        cols.update({l: v.arr(s + l, ax) for l in fields})
        side[s] = (A, B, nx, ny, cols, flow_of(v, list(cols.items()), {'shape': (num(nx), num(ny)), 'spacing': (dx, dy)}))
    flows = [side[s][-1] for s in ('left', 'right')]
    made = []

    def grid(I, args, kw):
        b = inspect.signature(v.fn(AV, 'get_combined_grid')).bind(*args, **kw).arguments
        v.ensures('one grid for both maps', {x.buf for x in v.I.items_of(b['data_list'])} == {f.data.buf for f in flows})
        v.ensures('grid of the given spacing', eq(b['spacing'], (dx, dy)))
        made.append(grid_of(v, fields, x0, y0, dx, dy, gx, gy))
        return made[-1]

    def transfer(I, args, kw):
        b = inspect.signature(v.fn(AV, 'transfer_data')).bind(*args, **kw).arguments
        s = next((s for s in side if b['data'] is side[s][-1].data or getattr(b['data'], 'buf', 0) is side[s][-1].data.buf), None)
        if s is None or b['grid'] is not made[-1]:
            raise Unsupported('another map or grid')
        A, B, mx, my, cols, _ = side[s]
        v.ensures('transfer with the shape of the map', eq(b['shape'], (num(mx), num(my))))
        v.ensures('transfer with the spacing', eq(b['spacing'], (dx, dy)))
        ax = Axis((gy, gx))

        def f(l, cs):
            j, i = cs
            return n_ite(And(A <= i, i < A + mx, B <= j, j < B + my), cols[l].at((t_sub(j, B), t_sub(i, A))), made[-1].fieldview(l).at((j, i)))
        base = {l: memo(lambda cs, l=l: f(l, cs)) for l in cols}
        return record((ax,), base, tuple(cols), {l: 'f' for l in cols})
    v.contract_of(v.fn(CL, 'get_combined_grid'), grid)
    v.contract_of(v.fn(CL, 'transfer_data'), transfer)
    r = v.val(v.fn(CL, 'combine_flow_data'), IList(flows), (dx, dy))
    v.reset()
    half = SNum(RV('1/2'))
    nx, ny = num(gx), num(gy)
    v.ensures('shape of the grid', eq(getattr_(v, r, 'shape'), (nx, ny)))
    v.ensures('spacing kept', eq(getattr_(v, r, 'spacing'), (dx, dy)))
    v.ensures('bin count', eq(getattr_(v, r, 'num_bins'), nx * ny))
    v.ensures('origin is the first bin', eq(getattr_(v, r, 'origin'), (x0 - half * dx, y0 - half * dy)))
    i, j = v.index(gx, gy)
    v.require(*v.quant)
    v.reset()
    d = r.data
    v.ensures('one record per bin', eq(num(d.axes[0].length()), nx * ny))
    v.ensures('fields', tuple(d.fields()) == ('X', 'Y') + fields)
    at = lambda l: d.fieldview(l).at(d.axes[0].coords(t_add(t_mul(i, gy), j)))
    v.ensures('position of the bin, x-major', And(bt(eq(at('X'), x0 + (num(i) - half) * dx)), bt(eq(at('Y'), y0 + (num(j) - half) * dy))))

    def val(s, l):
        A, B, mx, my, cols, _ = side[s]
        return n_ite(And(A <= i, i < A + mx, B <= j, j < B + my), cols[l].at((j - B, i - A)), num(RV(0)))
    nz = lambda x: Not(bt(eq(x, 0)))
    for l, w in (('M', None), ('N', None), ('U', 'M'), ('V', 'M'), ('T', 'N')):
        L, R = val('left', l), val('right', l)
        v.ensures('only the left map has a value: ' + l, eq(at(l), L), And(nz(L), bt(eq(R, 0))))
        v.ensures('only the right map has a value: ' + l, eq(at(l), R), And(nz(R), bt(eq(L, 0))))
        v.ensures('no map has a value: ' + l, eq(at(l), 0), And(bt(eq(L, 0)), bt(eq(R, 0))))
        both = And(nz(L), nz(R))
        if w is None:
            v.ensures('mean of both values: ' + l, eq(at(l) * 2, L + R), both)
        else:
            WL, WR = val('left', w), val('right', w)
            v.ensures('weighted mean of both values: ' + l, eq(at(l) * (WL + WR), WL * L + WR * R), And(both, nz(WL + WR)))
            v.ensures('zero for zero weight: ' + l, eq(at(l), 0), And(both, bt(eq(WL + WR, 0))))


# ------------------------------------------------------------------ C23
def angle_cells(v, whole, weighted, window=True):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M', 'A')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    ox, oy, size = v.real('ox'), v.real('oy'), v.real('size')
    v.require(size > 0, size <= 360)
    v.c.mark_nonzero(size.t)
    k = v.size('intervals', 1)
    rmin = rmax = None
    if window:
        rmin, rmax = v.real('rmin'), v.real('rmax')
        kw = dict(size=size, rmin=rmin, rmax=rmax)
    else:
        kw = dict(size=size)
    if whole:
        amax = num(RV(360))
        amin = amax - num(k) * size
        last = k - 1
    else:
        amin = v.real('amin')
        amax = amin + num(k) * size
        last = k
        v.require(amax <= 360 - size)
    v.require(amin >= 0)
    r = v.val(v.fn(DS, 'sample_per_angle_from'), flow, (ox, oy), 'A', weight='M' if weighted else None, amin=amin, amax=amax, **kw)
    unchanged(v, flow, before, ('X', 'Y', 'M', 'A'), ax)
    v.ensures('fields', tuple(r.fields()) == ('angle', 'A'))
    v.ensures('as many angles as intervals begin within the limits', eq(num(r.axes[0].length()), num(last + 1)))
    a = v.index(last + 1)
    v.require(*v.quant)
    v.reset()
    A = lambda b: amin + num(b) * size
    pos = r.axes[0].coords(a)
    v.ensures('regularly spaced angles', eq(r.fieldview('angle').at(pos), A(a)))
    half = size / 2

    def polar(i):
        dx, dy = cols['X'].at((i,)) - ox, cols['Y'].at((i,)) - oy
        dr = v.val(np.sqrt, dx * dx + dy * dy)
        return dx, dy, dr

    def angle(i):
        dx, dy, dr = polar(i)
        rad = v.val(np.arccos, dx / dr) * n_ite(bt(dy < 0), num(RV(-1)), num(RV(1)))
        deg = v.val(np.mod, v.val(np.degrees, rad), 360)
        return dr, deg, deg - half + 1e-6

    def within(i):
        dr, deg, _ = angle(i)
        lim = [bt(dr >= rmin), bt(dr <= rmax)] if window else []
        return And(*lim, Not(bt(eq(dr, 0))), bt(deg >= amin), bt(deg <= amax))

    def near(i, a):
        x = angle(i)[2]
        return And(Or(a == IV(0), bt(x > A(a) - half)), Or(a == last, bt(x <= A(a) + half)))
    if v.c.positions:
        p = v.c.positions[-1]
        ix, = p.children()
        b, i = v.index(last + 1), v.index(n)
        P = z3.substitute(p, (ix, i))
        v.given(within(i))
        x = angle(i)[2]
        dist = lambda b: v.val(abs, A(b) - x)
        v.ensures('an angle is found', And(P >= 0, P <= last))
        v.ensures('no other angle is nearer', dist(P) <= dist(b))
        v.ensures('the first of the nearest', dist(P) < dist(b), b < P)
        q, facts = list(v.quant), []
        for c in (a - 1, a, a + 1):
            inst = And(c >= 0, c <= last)
            facts.append(Implies(inst, z3.substitute(And(bt(dist(P) <= dist(b)), Implies(b < P, bt(dist(P) < dist(b)))), (b, c))))
        d = P - a
        v.quant = [a >= 0, a <= last] + q[1:]
        facts += [Implies(d >= 1, bt(num(d) * size >= size)), Implies(d <= -1, bt(num(d) * size <= -size)), P >= 0, P <= last]
        v.ensures('nearest: after the angle', Implies(d >= 1, bt(num(d) * size >= size)))
        v.ensures('nearest: before the angle', Implies(d <= -1, bt(num(d) * size <= -size)))
        iff = (P == a) == near(i, a)
        v.ensures('the angle of the half-open interval around it', iff, *facts)
        v.c.forall(P, [i], (a,), lambda t: Implies(And(*v.quant), z3.substitute(iff, (a, t[0]))), TRUE)
        v.reset()
    w = (lambda i: cols['M'].at((i,))) if weighted else (lambda i: num(IV(1)))
    tot = v.sum([n], w, lambda i: And(within(i), near(i, a)))
    s = v.sum([n], lambda i: w(i) * cols['A'].at((i,)), lambda i: And(within(i), near(i, a)))
    got = r.fieldview('A').at(pos)
    v.ensures('mean of the cells nearest to the angle', eq(got * tot, s), bt(tot > 0))
    v.ensures('zero without cells or weight', eq(got, 0), bt(tot <= 0))


@contract('C23', DS + '.sample_per_angle_from', 'cells of each angle')
def c23(v):
    angle_cells(v, False, False)


@contract('C23', DS + '.sample_per_angle_from', 'cells of each angle, weighted')
def c23_weighted(v):
    angle_cells(v, False, True)


@contract('C23', DS + '.sample_per_angle_from', 'up to the full circle')
def c23_circle(v):
    angle_cells(v, True, False)


@contract('C23', DS + '.sample_per_angle_from', 'up to the full circle, weighted, all radii')
def c23_circle_weighted(v):
    angle_cells(v, True, True, False)
