"""Deductive contracts: interfaces and contact angles (C15, C16, C19, C27, C32)."""
import inspect
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, num, half
from pv.arrays import *
from pv.interp import IGen, IList
from pv.prove import eqv as eq
from pv import npmodel as N
from contracts.pf_grid import flow_of, snapshot, unchanged, opt

DI = 'droplets.interface'
IA = 'strata.interface.angle'


def arcs(v, dx, dy):
    """Contact angle in degrees of the line (dx, dy): dy above, dx towards the inside of the liquid.
    Mathematical fact used: arccos(dx / hypot) = atan2(dy, dx) for dy > 0."""
    a = N.n_arctan2(dy, dx)
    h = N.n_sqrt(dx * dx + dy * dy)
    b = v.val(np.arccos, dx / h)
    v.require(Implies(And(bt(dy > 0), bt(dx * dx + dy * dy > 0)), bt(eq(b, a))))
    return N.n_degrees(a)


@contract('C27', IA + '.measure_angle', 'angle of one side of a collected interface')
def c27_measure(v):
    n = v.size('n', 2)
    ax = v.axis(n)
    h = v.real('h')
    k = v.c.index('k')
    v.require(k >= 1, k < n)
    Yf = z3.Function('Y', z3.IntSort(), z3.RealSort())
    d = lambda j: n_abs(SNum(Yf(j) - Yf(0) - h.t))
    # k is the one point nearest to the height
    X, Y = v.arr('X', ax), v.arr('Y', ax, facts=lambda a, f: Implies(And(a[0] >= 0, a[0] < n), Or(a[0] == k, bt(d(k) < d(a[0])))))
    e = record([ax], {'X': X.reader(), 'Y': Y.reader()}, ('X', 'Y'))
    y0 = Y.at((IV(0),))
    v.require(bt(Y.at((k,)) > y0))
    for o in ('left', 'right'):
        dx, dy = X.at((k,)) - X.at((IV(0),)), Y.at((k,)) - y0
        dx = dx if o == 'left' else -dx
        r = v.val(v.fn(IA, 'measure_angle'), e, o, h)
        want = arcs(v, dx, dy)
        v.ensures(o + ' side: line to the point nearest to the height', eq(r, want))


class Layers:
    """The contract of get_interface: layers k = 0..K-1 of strictly increasing height with the record indices of
    their left- and rightmost cell."""

    def __init__(self, v, flow, n, Y, name='', lo=1):
        self.v, self.flow, self.n = v, flow, n
        c = v.c
        self.K = v.size('K' + name, lo)
        self.H = v.fun('H' + name, 1)
        y = lambda q: Y.at((q,)).t
        ok = lambda a, f: [Implies(And(a[0] >= 0, a[0] < self.K), And(f >= 0, f < n, y(f) == self.H(a[0])))]
        self.L = v.fun('L' + name, 1, 'Int', facts=ok)
        self.R = v.fun('R' + name, 1, 'Int', facts=ok)
        a, b = c.index('x'), c.index('y')
        c.forall(self.H(a), [a], (b,), lambda t: Implies(And(a >= 0, a < t[0], t[0] < self.K), self.H(a) < self.H(t[0])), TRUE, match='own')
        self.calls = []
        v.contract_of(v.fn(DI, 'get_interface'), self.handler)

    def handler(self, I, args, kw):
        b = inspect.signature(self.v.fn(DI, 'get_interface')).bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        self.calls.append((a['flow'], a['label'], dict(a['kwargs'])))
        g = IGen(None)
        g.list = IList()
        g.list.seq = Seq(Axis((self.K,)), lambda cs: IList([num(self.L(cs[0])), num(self.R(cs[0]))]))
        return g


@contract('C27', DI + '.get_contact_angle', 'angles of a map')
def c27_map(v):
    n = v.size('n', 2)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    lay = Layers(v, flow, n, cols['Y'], lo=2)
    X = lambda q: cols['X'].at((q,))
    h = v.real('h')
    i = v.c.index('i')
    v.c.extra_terms += [IV(0), IV(1)]
    v.require(i >= 1, i < lay.K)
    dy = SNum(lay.H(i) - lay.H(IV(0)))
    # i is the highest layer not above the height
    v.require(bt(dy <= h), Or(i == lay.K - 1, lay.H(i + 1) - lay.H(IV(0)) > h.t))
    r = v.val(v.fn(DI, 'get_contact_angle'), flow, h, 'M', cutoff=v.real('C'), cutoff_radius=v.real('r'))
    left, right = (v.I.getitem(r, k) if not isinstance(r, tuple) else r[k] for k in (0, 1))
    L, R = lay.L, lay.R
    v.ensures('left angle to the highest layer not above the height', eq(left, arcs(v, X(L(i)) - X(L(IV(0))), dy)))
    v.ensures('right angle, mirrored', eq(right, arcs(v, X(R(IV(0))) - X(R(i)), dy)))
    f, l, kw = lay.calls[0]
    v.ensures('the interface of the map with the given options', And(len(lay.calls) == 1, f is flow, l == 'M',
              bt(eq(kw.get('cutoff'), v.real('C'))), bt(eq(kw.get('cutoff_radius'), v.real('r'))), set(kw) <= {'cutoff', 'cutoff_radius', 'ylims'},
              kw.get('ylims', (None, None)) == (None, None)))
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C27', DI + '.get_contact_angle', 'angles of a map above a given floor')
def c27_floor(v):
    n = v.size('n', 2)
    ax = v.axis(n)
    k, i = v.c.index('k'), v.c.index('i')
    v.c.extra_terms += [IV(0), IV(1)]
    floor, h = v.real('floor'), v.real('h')
    v.require(k >= 0, k < n)
    Yf = z3.Function('Y', z3.IntSort(), z3.RealSort())
    d = lambda j: n_abs(SNum(Yf(j) - floor.t))
    # the height of record k is the one nearest to the floor
    near = lambda a, f: Implies(And(a[0] >= 0, a[0] < n), Or(f == Yf(k), bt(d(k) < d(a[0]))))
    cols = {l: v.arr(l, ax, facts=near if l == 'Y' else None) for l in ('X', 'Y', 'M')}
    flow = flow_of(v, list(cols.items()))
    lay = Layers(v, flow, n, cols['Y'], lo=2)
    X = lambda q: cols['X'].at((q,))
    v.require(i >= 1, i < lay.K, lay.H(IV(0)) >= Yf(k))
    dy = SNum(lay.H(i) - lay.H(IV(0)))
    v.require(bt(dy <= h), Or(i == lay.K - 1, lay.H(i + 1) - lay.H(IV(0)) > h.t))
    r = v.val(v.fn(DI, 'get_contact_angle'), flow, h, 'M', floor=floor)
    left, right = (v.I.getitem(r, q) if not isinstance(r, tuple) else r[q] for q in (0, 1))
    v.ensures('the search starts at the layer nearest to the floor', And(len(lay.calls) == 1, bt(eq(lay.calls[0][2]['ylims'][0], SNum(Yf(k)))),
              lay.calls[0][2]['ylims'][1] is None, 'floor' not in lay.calls[0][2]))
    at_floor = lay.H(IV(0)) == Yf(k)
    if left is None or right is None:
        v.ensures('no angles only without cells in the floor layer', And(left is None, right is None, Not(at_floor)))
        return
    v.ensures('no angles without cells in the floor layer', at_floor)
    L, R = lay.L, lay.R
    v.ensures('left angle to the highest layer not above the height', eq(left, arcs(v, X(L(i)) - X(L(IV(0))), dy)))
    v.ensures('right angle, mirrored', eq(right, arcs(v, X(R(IV(0))) - X(R(i)), dy)))


def side(v, n, tag, file=None):
    """One side of a collected interface with n points, as a record sorted by height."""
    fs = {}
    for l in 'XY':
        f = v.fun(l + tag, 1 if file is None else 2)
        fs[l] = (lambda f: (lambda cs: SNum(f(*([] if file is None else [file]), *cs), True)))(f)
    return record([v.axis(n)], fs, ('X', 'Y')), fs


@contract('C27', IA + '.fit_angle_from_segment', 'circular segment')
def c27_segment(v):
    n = v.size('n', 1)
    left, a = side(v, n, 'l')
    right, b = side(v, n, 'r')
    z = (IV(0),)
    w = b['X'](z) - a['X'](z)
    v.require(bt(w > 0))
    v.c.mark_nonzero(w.t)
    r = v.val(v.fn(IA, 'fit_angle_from_segment'), left, right)
    hl, hr = (N.extremum([n], None, f['Y'], 'max') for f in (a, b))
    height = (hl + hr) / 2
    t = v.val(np.arctan, height * 2 / w)
    v.ensures('twice the arctangent of twice the height over the base width', eq(r, N.n_degrees(t) * 2))


@contract('C27', IA + '.read_interface_file', 'sides of a collected interface')
def c27_read(v):
    m = v.size('m', 1)
    n = t_mul(IV(2), m)
    xs, ys = v.fun('x', 1), v.fun('y', 1)
    c = v.c
    a, b = c.index('a'), c.index('b')
    # up the left side and down the right side
    c.forall(ys(a), [a], (b,), lambda t: And(Implies(And(a >= 0, a < t[0], t[0] < m), ys(a) < ys(t[0])),
                                             Implies(And(a >= m, a < t[0], t[0] < n), ys(a) > ys(t[0]))), TRUE, match='own')

    def read(I, args, kw):
        if args[0] != 'file' or kw.get('unpack') is not True or set(kw) - {'unpack'} or len(args) > 1:
            raise Unsupported('reading a text file with other options')
        return IList([array([v.axis(n)], lambda cs, f=f: SNum(f(cs[0]), True)) for f in (xs, ys)])
    v.contract_of(np.genfromtxt, read)
    r = v.val(v.fn(IA, 'read_interface_file'), 'file')
    left, right = r
    i = v.index(m)
    v.require(*v.quant)
    v.reset()
    for nm, e, k in (('left', left, i), ('right', right, n - 1 - i)):
        v.ensures(nm + ' side has half of the points', eq(num(e.axes[0].length()), num(m)))
        at = e.axes[0].coords(i)
        v.ensures(nm + ' side from the bottom upwards', And(bt(eq(e.fieldview('X').at(at), SNum(xs(k), True))),
                                                          bt(eq(e.fieldview('Y').at(at), SNum(ys(k), True)))))


@contract('C27', IA + '.interface_contact_angle', 'angles of a series')
def c27_series(v):
    F, m = v.size('F', 0), v.size('m', 2)
    base = v.str('base')
    files = v.fun('file', 1, 'Int')
    h, dt = v.real('h'), v.real('dt')
    fit = v.decide(v.bool('fit').t)
    given = v.decide(v.bool('has_height').t)
    from strata import utils

    def found(I, args, kw):
        g = IGen(None)
        g.list = IList()
        g.list.seq = Seq(v.axis(F), lambda cs: SStr([('fmt', '%d', num(cs[0]))]))
        return g

    def key(p):
        if not (isinstance(p, SStr) and len(p.parts) == 1 and p.parts[0][0] == 'fmt'):
            raise Unsupported('another file')
        return numt(p.parts[0][2])
    sides = {}

    def read(I, args, kw):
        k = key(args[0])
        return tuple(side(v, m, t, k)[0] for t in 'lr')
    angle = {o: v.fun('angle_' + o, 1) for o in ('left', 'right')}
    seg = v.fun('segment', 1)

    def owner(e, t):
        """Which file and side a record is (its functions are those of that side)."""
        p = e.fieldview('X').at((IV(0),)).t
        if not (p.num_args() == 2 and p.decl().name() == 'X' + t):
            raise Unsupported('another interface')
        return p.arg(0)

    def measure(I, args, kw):
        b = inspect.signature(v.fn(IA, 'measure_angle')).bind(*args, **kw).arguments
        o = b['direction']
        v.ensures('measured at the height', eq(b['height'], h))
        return SNum(angle[o](owner(b['edge'], o[0])), True)

    def segment(I, args, kw):
        b = inspect.signature(v.fn(IA, 'fit_angle_from_segment')).bind(*args, **kw).arguments
        k = owner(b['left'], 'l')
        v.ensures('both sides of one interface', k == owner(b['right'], 'r'))
        return SNum(seg(k), True)
    v.contract_of(v.fn(IA, 'find_datamap_files'), found)
    v.contract_of(v.fn(IA, 'read_interface_file'), read)
    v.contract_of(v.fn(IA, 'measure_angle'), measure)
    v.contract_of(v.fn(IA, 'fit_angle_from_segment'), segment)
    times, angles = v.val(v.fn(IA, 'interface_contact_angle'), base, fit=fit, height=h if given else None, delta_t=dt,
                          quiet=True, show=False)
    want = {'left': given, 'right': given, 'measured': given, 'fit': fit}
    val = {'left': lambda k: SNum(angle['left'](k)), 'right': lambda k: SNum(angle['right'](k)), 'fit': lambda k: SNum(seg(k)),
           'measured': lambda k: SNum((angle['left'](k) + angle['right'](k)) / 2)}
    v.ensures('all kinds of angles', set(angles) == set(want))
    some = v.decide(F > 0)
    i = v.c.index('i')
    if some:
        v.require(i >= 0, i < F)
    for q in want:
        s = angles[q]
        v.ensures('one angle per file', eq(num(N.seq_len(s)), num(F) if want[q] else 0))
        if want[q] and some:
            v.ensures('angles of the files in order', eq(v.I.getitem(s, num(i)), val[q](i)))
    v.ensures('one time per file', eq(num(N.seq_len(times)), num(F) if fit or given else 0))
    if (fit or given) and some:
        v.ensures('times from zero in steps', eq(v.I.getitem(times, num(i)), num(i) * dt))


# ------------------------------------------------------------------ C19
CL = 'droplets.contact_line'


@contract('C19', CL + '.get_contact_line_cells', 'contact line cells')
def c19_cells(v):
    n = v.size('n', 2)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    lay = Layers(v, flow, n, cols['Y'], lo=1)
    K, H = lay.K, lay.H
    v.c.extra_terms += [IV(0), IV(1)]
    w, height, sync = v.real('width'), v.real('height'), v.real('sync')
    v.require(w >= 0, height >= 0, sync >= 0)
    t, s = v.c.index('t'), v.c.index('s')
    top = lambda k, h, last: And(k >= 0, k <= last, H(k) <= H(IV(0)) + h.t, Or(k == last, H(k + 1) > H(IV(0)) + h.t))
    v.require(top(t, height, K - 1), top(s, sync, t))
    X = lambda q: cols['X'].at((q,))
    r = v.val(v.fn(CL, 'get_contact_line_cells'), flow, 'M', extract_area=(w, height), extract_height=sync, cutoff=v.real('C'))
    q = v.c.index('r')
    for o, e, f, sg in (('left', r[0], lay.L, 1), ('right', r[1], lay.R, -1)):
        inner = X(f(s)) + w * sg
        lo, hi = (N.extremum([t + 1], None, lambda cs: X(f(cs[0])), k) for k in ('min', 'max'))
        lo, hi = n_min2(lo, inner), n_max2(hi, inner)
        x, y = X(q), cols['Y'].at((q,))
        cond = And(q >= 0, q < n, bt(x >= lo), bt(x <= hi), y.t >= H(IV(0)), y.t <= H(t))
        a = e.axes[0]
        if a.m != 1 or a.order != 'lex':
            v.ensures(o + ': exactly the cells of the region', False, note='not a selection in the original order')
            continue
        v.ensures(o + ': exactly the cells of the region', a.guard((q,)) == cond)
        v.ensures(o + ': with all fields', And(*[bt(eq(e.fieldview(l).at((q,)), cols[l].at((q,)))) for l in cols]), a.guard((q,)))
        v.ensures(o + ': no other fields', tuple(e.fields()) == tuple(cols))
        v.ensures(o + ': no data shared with the map', e.buf is not flow.data.buf)
    unchanged(v, flow, before, cols, flow.data.axes[0])


def n_min2(a, b):
    return n_ite(bt(a <= b), a, b)


def n_max2(a, b):
    return n_ite(bt(a >= b), a, b)


@contract('C19', CL + '.adjust_cell_coordinates', 'moving cells to the origin')
def c19_adjust(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M')}
    e = record([ax], {l: cols[l].reader() for l in cols}, tuple(cols))
    for o, k in (('left', 'max'), ('right', 'min')):
        x0 = N.extremum([n], None, lambda cs: cols['X'].at(cs), k)
        y0 = N.extremum([n], None, lambda cs: cols['Y'].at(cs), 'min')
        adj, c = v.val(v.fn(CL, 'adjust_cell_coordinates'), e, o)
        v.ensures(o + ': the adjustment is the inner edge and the lowest height', And(bt(eq(adj[0], x0)), bt(eq(adj[1], y0))))
        i = v.index(n)
        v.ensures(o + ': cells moved by it', And(bt(eq(c.fieldview('X').at((i,)), cols['X'].at((i,)) - x0)),
                                                 bt(eq(c.fieldview('Y').at((i,)), cols['Y'].at((i,)) - y0)),
                                                 bt(eq(c.fieldview('M').at((i,)), cols['M'].at((i,))))))
        v.ensures(o + ': the input cells are not modified', And(*[bt(eq(e.fieldview(l).at((i,)), cols[l].at((i,)))) for l in cols]))
        v.reset()
    out = v.call(v.fn(CL, 'adjust_cell_coordinates'), e, 'up')
    v.ensures('another direction is refused', isinstance(out.exc, KeyError))


@contract('C19', CL + '.adjust_cell_coordinates', 'no cells')
def c19_none(v):
    e = record([v.axis(0)], {l: (lambda cs: num(0)) for l in ('X', 'Y', 'M')}, ('X', 'Y', 'M'))
    for o in ('left', 'right'):
        adj, c = v.val(v.fn(CL, 'adjust_cell_coordinates'), e, o)
        v.ensures(o + ': nothing to move', And(bt(eq(adj[0], 0)), bt(eq(adj[1], 0)), bt(eq(num(c.axes[0].length()), 0))))


@contract('C19', CL + '.get_contact_line_cells', 'maps without interface')
def c19_nothing(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M')}
    flow = flow_of(v, list(cols.items()))
    lay = Layers(v, flow, n, cols['Y'], lo=0)
    v.require(lay.K == 0)
    r = v.val(v.fn(CL, 'get_contact_line_cells'), flow, 'M', extract_area=(v.real('w'), v.real('h')), extract_height=v.real('s'))
    for o, e in zip(('left', 'right'), r):
        v.ensures(o + ': no cells', eq(num(e.axes[0].length()), 0))
        v.ensures(o + ': the fields of the map', tuple(e.fields()) == tuple(cols))
