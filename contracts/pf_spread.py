"""Deductive contracts: spreading of a droplet (C18) and the collection of interfaces (C32)."""
import inspect
import os
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, num, half
from pv.arrays import *
from pv.interp import IGen, IList, StarSeq
from pv.prove import eqv as eq
from pv import npmodel as N
from pv.files import Disk
from contracts.pf_grid import flow_of, snapshot, unchanged, opt
from contracts.pf_iface import DI

SC = 'strata.spreading.collect'
RD = 'strata.dataformats.read'
INT, REAL = z3.IntSort(), z3.RealSort()


def generator(axis, fn):
    g = IGen(None)
    g.list = IList()
    g.list.seq = Seq(axis, fn)
    return g


def text_key(p):
    """The number of a file of a series."""
    if not (isinstance(p, SStr) and len(p.parts) == 1 and p.parts[0][0] == 'fmt'):
        raise Unsupported('another file')
    return numt(p.parts[0][2])


class Series:
    """The files of a series in order, read on the contract of read_from_files: maps of one size and any content."""

    def __init__(self, v, F, labels=('X', 'Y', 'M'), find='find_datamap_files', module=SC, pair=False):
        self.v, self.F = v, F
        self.n, self.nx, self.ny = v.size('n', 1), v.size('nx', 1), v.size('ny', 1)
        self.f = {l: v.fun('map_' + l, 2) for l in labels}
        self.dx, self.dy = v.fun('dx', 1), v.fun('dy', 1)
        self.name = lambda k: SStr([('fmt', '%d', num(k))])
        self.found = []

        def files(I, args, kw):
            self.found.append((args, kw))
            return generator(v.axis(F), lambda cs: (self.name(cs[0]), SStr([('fmt', 'o', num(cs[0]))])) if pair else self.name(cs[0]))

        def one(k):
            ax = v.axis(self.n)
            data = {l: array([ax], lambda cs, l=l: SNum(self.f[l](k, cs[0]), True)) for l in labels}
            info = {'shape': (num(self.nx), num(self.ny)), 'spacing': (SNum(self.dx(k)), SNum(self.dy(k))), 'num_bins': num(self.n)}
            meta = {'path': self.name(k)}
            v.I.born(meta)
            return data, info, meta

        def read(I, args, kw):
            if len(args) == 1 and isinstance(args[0], StarSeq):
                s = args[0].seq
                return generator(s.axis, lambda cs: one(text_key(s.fn(cs))))
            raise Unsupported('reading something else')
        v.contract_of(v.fn(module, find), files)
        v.contract_of(v.fn(RD, 'read_from_files'), read)
        v.contract_of(v.fn(RD, 'read_data_file'), lambda I, args, kw: one(text_key(args[0])))

    def owner(self, flow):
        """Which map of the series a flow is."""
        p = flow.data.fieldview('X').at((IV(0),)).t
        if not (p.num_args() == 2 and p.decl().eq(self.f['X'])):
            raise Unsupported('another map')
        return p.arg(0)


@contract('C18', SC + '.collect', 'times and radii of the wetted maps')
def c18_collect(v):
    F = v.size('F', 0)
    s = Series(v, F)
    wet = v.fun('wet', 1, 'Bool')
    le, re = v.fun('left', 1), v.fun('right', 1)
    floor, t0, dt = v.real('floor'), v.real('t0'), v.real('dt')
    state = z3.Function('pbc_state', INT, INT)
    step = z3.Function('pbc_step', INT, REAL, REAL, REAL, INT)
    ml, mr = v.fun('boxes_left', 1, 'Int'), v.fun('boxes_right', 1, 'Int')
    init = z3.Int('pbc_init')
    save = v.decide(v.bool('save').t)
    impact = v.fn(SC, 'write_spreading')
    before = v.bool('impact_before')
    v.I.setattr(impact, 'impact', before)
    box = lambda k: t_mul(toreal(s.nx), s.dx(k))

    def edges(I, args, kw):
        sg = inspect.signature(v.fn(SC, 'get_spreading_edges'))
        b = sg.bind(*args, **kw).arguments
        k = s.owner(b['flow'])
        o = b['kwargs']
        v.ensures('edges of the mass with the given options', And(b['label'] == 'M', bt(eq(b['cutoff_radius'], v.real('radius'))), bt(eq(o['floor'], floor)),
                  o['search_longest_connected'] is True, bt(eq(o['cutoff'], v.real('C'))), set(o) == {'floor', 'cutoff', 'search_longest_connected'}))
        if v.c.decide(wet(k)):
            return (SNum(le(k), True), SNum(re(k), True))
        return (None, None)

    def upd(I, args, kw):
        b = inspect.signature(v.fn(SC, 'check_and_update_periodic_info')).bind(*args, **kw).arguments
        return SNum(step(numt(b['pbc_info']), *[toreal(numt(b[x])) for x in ('box_x', 'xleft_current', 'xright_current')]))

    def add(I, args, kw):
        b = inspect.signature(v.fn(SC, 'add_pbc_multipliers_to_edges')).bind(*args, **kw).arguments
        st = numt(b['pbc_info'])
        return tuple(b[x] + num(m(st)) * b['box_x'] for x, m in (('xleft', ml), ('xright', mr)))
    v.contract_of(v.fn(SC, 'get_spreading_edges'), edges)
    v.contract_of(v.fn(SC, 'init_periodic_info'), lambda I, args, kw: SNum(init))
    v.contract_of(v.fn(SC, 'check_and_update_periodic_info'), upd)
    v.contract_of(v.fn(SC, 'add_pbc_multipliers_to_edges'), add)
    rows, impacts, heads = IList(), IList(), []

    def row(I, args, kw):
        b = inspect.signature(impact).bind(*args, **kw).arguments
        rows.append(tuple(b.values()))

    def hit(I, args, kw):
        b = inspect.signature(v.fn(SC, 'output_impact_time')).bind(*args, **kw).arguments
        impacts.append(tuple(b.values()))

    def head(I, args, kw):
        heads.append((args, rows.items, rows.seq, list(impacts.items), impacts.seq))
    v.contract_of(impact, row)
    v.contract_of(v.fn(SC, 'output_impact_time'), hit)
    v.contract_of(v.fn(SC, 'write_header'), head)
    # the periodic state before map k: that of the wetted maps before it
    state0 = state(IV(0)) == init
    v.require(state0)
    k = v.c.index('k')
    new = lambda k: step(state(k), box(k), le(k), re(k))
    v.c.forall(state(k), [k], (), lambda t: Implies(And(k >= 0, k < F), state(k + 1) == Ite(wet(k), new(k), state(k))), TRUE)
    v.loop_value('pbc_info', lambda k: SNum(state(k)))
    cnt = lambda k: v.sum([k], lambda j: num(IV(1)), lambda j: wet(j))
    v.loop_value((impact, 'impact'), lambda k: SBool(bt(cnt(k) > 0)) if save else SBool(FALSE))
    opts = {'save': 'out'} if save else {}
    r = v.val(v.fn(SC, 'collect'), v.str('base'), floor=floor, cutoff=v.real('C'), cutoff_radius=v.real('radius'), t0=t0, dt=dt,
              quiet=True, begin=v.int('b'), end=v.int('e'), ext=v.str('ext'), **opts)
    v.ensures('the files of the series', And(len(s.found) == 1, s.found[0][1].keys() == {'begin', 'end', 'ext', 'outext'},
              *[bt(eq(s.found[0][1][q], x)) for q, x in (('begin', v.int('b')), ('end', v.int('e')), ('ext', v.str('ext')))]))
    v.ensures('one row per wetted map', eq(num(r.axes[0].length()), cnt(F)))
    i = v.c.index('i')
    v.require(i >= 0, i < F, wet(i))
    p = r.axes[0]
    at = cnt(i)
    cs = p.coords(numt(at)) if p.mask is not None else (numt(at),)
    left = SNum(le(i)) + num(ml(new(i))) * SNum(box(i))
    right = SNum(re(i)) + num(mr(new(i))) * SNum(box(i))
    radius = n_abs(half() * (right - left))
    time = t0 + at * dt
    got = [r.fieldview(l).at(cs) for l in 'tr']
    v.ranks(i)
    v.ensures('time of a wetted map', eq(got[0], time))
    v.ensures('radius of a wetted map', eq(got[1], radius))
    v.ensures('the output of each run is its own', heads == [] if not save else len(heads) == 1)
    if save:
        v.ensures('the header comes first', And(heads[0][0][0] == 'out', heads[0][1] == [], heads[0][3] == [], heads[0][2] is None, heads[0][4] is None))

    def entry(lst):
        """(is there an entry for map i, the entry)"""
        s = lst.seq
        if s is None:
            return (FALSE, None) if not lst.items else (TRUE, None)
        if len(s.axis.sizes) != 1:
            raise Unsupported('rows in another order')
        v.ensures('at most one entry per map', s.axis.sizes[0] == F)
        return bt(s.axis.mask((i,))) if s.axis.mask is not None else TRUE, s.fn((i,))
    v.require(i >= 0, i < F)
    there, e = entry(rows)
    if not save:
        v.ensures('nothing is written without a file', And(Not(there), Not(entry(impacts)[0])))
        return
    v.ensures('one line per wetted map', there == wet(i))
    v.ensures('the line has the time, radius, edges', And(*[bt(eq(a, b)) for a, b in zip(e, ('out', time, radius, left, right))]), wet(i))
    there, e = entry(impacts)
    v.ensures('the impact is that of the first wetted map', there == And(wet(i), bt(eq(at, 0))))
    v.ensures('time and file of the impact', And(*[bt(eq(a, b)) for a, b in zip(e, ('out', num(i) * dt, s.name(i)))]), there)


def inner(v, name, module=SC):
    """The function that prepare_path decorates (the decorator has its own contract, C06)."""
    f = v.fn(module, name)
    return next(c.cell_contents for c in f.__closure__ or () if callable(c.cell_contents)) if f.__closure__ else f


@contract('C18', SC + '.write_spreading', 'line of a map')
def c18_row(v):
    d = Disk(v, ['out'])
    t, r, a, b = (v.real(x) for x in ('t', 'r', 'a', 'b'))
    v.val(v.fn(SC, 'write_spreading'), 'out', t, r, a, b, v.str('file'))
    parts = d.text('out')
    nums = [p for p in parts if not isinstance(p, str)]
    v.ensures('the values to three decimals', And(len(nums) == 4, *[And(p[0] == 'fmt', p[1] in ('%.3f', ':.3f'), bt(eq(p[2], x)))
                                                                for p, x in zip(nums, (t, r, a, b))]))
    lits = [p for p in parts if isinstance(p, str)]
    v.ensures('one line after what is there', lits == ['(old)', ' ', ' ', ' ', '\n'])


def lines_of(parts):
    """Lines as lists of pieces."""
    out = [[]]
    for p in parts:
        if isinstance(p, str):
            for k, x in enumerate(p.split('\n')):
                if k:
                    out.append([])
                if x:
                    out[-1].append(x)
        else:
            out[-1].append(p)
    return out


@contract('C18', SC + '.output_impact_time', 'header of the impact')
def c18_impact(v):
    d = Disk(v, ['out'])
    t = v.real('t')
    dir_, name = v.str('dir'), v.str('name')
    for f, h in ((os.path.split, lambda I, a, k: (dir_, name)), (os.path.basename, lambda I, a, k: name), (os.path.dirname, lambda I, a, k: dir_)):
        def of(I, a, k, h=h):
            v.ensures('the path of the first wetted map', eq(a[0], SStr([dir_, '/', name])))
            return h(I, a, k)
        v.contract_of(f, of)
    v.val(v.fn(SC, 'output_impact_time'), 'out', t, SStr([dir_, '/', name]))
    lines = lines_of(d.text('out'))
    v.ensures('comment lines after what is there', And(lines[0][:1] in (['(old)'], ['(old)# Droplet impact:']), lines[-1] == [],
                                                      *[isinstance(l[0], str) and l[0].startswith('#') for l in lines[1:-1]]))
    nums = [p for l in lines for p in l if not isinstance(p, str)]
    v.ensures('the time to three decimals', And(nums[0][:2] in (('fmt', '%.3f'), ('fmt', ':.3f')), bt(eq(nums[0][2], t))))
    v.ensures('the name of the file', And(len(nums) == 2, bt(eq(SStr([nums[1]]), name))))


@contract('C18', SC + '.write_header', 'header of a collection')
def c18_header(v):
    d = Disk(v, ['out'])
    f = inner(v, 'write_header')
    v.val(f, 'out', 'base', {'begin': v.int('b'), 'end': v.int('e'), 'floor': v.real('f'), 'dt': v.real('dt'), 'cutoff': v.real('C')})
    lines = lines_of(d.text('out'))
    v.ensures('only comment lines replace what is there', And(lines[-1] == [], *[isinstance(l[0], str) and l[0].startswith('#') for l in lines[:-1]]))


@contract('C18', SC + '.get_spreading_edges', 'edges of the wetted layer')
def c18_edges(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    given = v.decide(v.bool('has_floor').t)
    floor = v.real('floor') if given else None
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M')}
    flow = flow_of(v, list(cols.items()))
    before = snapshot(flow, cols)
    Y = lambda q: cols['Y'].at((q,))
    calls = []
    m = v.size('layers', 0)
    le, re = v.fun('il', 1, 'Int'), v.fun('ir', 1, 'Int')

    def get(I, args, kw):
        b = inspect.signature(v.fn(DI, 'get_interface')).bind(*args, **kw).arguments
        calls.append(b)
        lo, hi = b['kwargs']['ylims']
        # the layers within the limits, with cells at a common height, from the lowest one upwards
        k = v.c.index('k')
        ok = lambda q: And(q >= 0, q < n, *([bt(Y(q) >= lo)] if lo is not None else []), *([bt(Y(q) <= hi)] if hi is not None else []))
        v.c.forall(le(k), [k], (), lambda t: Implies(And(k >= 0, k < m), And(ok(le(k)), ok(re(k)), bt(eq(Y(le(k)), Y(re(k)))))), TRUE)
        return generator(v.axis(m), lambda cs: IList([num(le(cs[0])), num(re(cs[0]))]))
    v.contract_of(v.fn(SC, 'get_interface'), get)
    v.mention(le(IV(0)))
    r = v.val(v.fn(SC, 'get_spreading_edges'), flow, 'M', v.real('radius'), floor=floor, cutoff=v.real('C'), search_longest_connected=True)
    v.ensures('one search of this map with the given options', And(len(calls) == 1, calls[0]['flow'] is flow, calls[0]['label'] == 'M',
              set(calls[0]['kwargs']) == {'cutoff_radius', 'cutoff', 'ylims', 'search_longest_connected'},
              bt(eq(calls[0]['kwargs']['cutoff_radius'], v.real('radius'))), bt(eq(calls[0]['kwargs']['cutoff'], v.real('C'))),
              calls[0]['kwargs']['search_longest_connected'] is True))
    lo, hi = calls[0]['kwargs']['ylims']
    if given:
        # the height of a cell whose height above the floor is nearest to the first layer above it
        i = v.index(n)
        v.require(*v.quant)
        v.reset()
        dist = lambda y: n_abs(v.val(np.ceil, y - floor) - 1)
        v.ensures('only the layer at the floor', And(bt(eq(lo, hi)), bt(dist(lo) <= dist(Y(i)))))
    else:
        v.ensures('all layers', And(lo is None, hi is None))
    if r[0] is None:
        v.ensures('no edges only without a wetted layer', And(r[1] is None, m == 0))
        return
    v.ensures('edges only with a wetted layer', m > 0)
    X = lambda q: cols['X'].at((q,))
    v.ensures('the edges of the lowest layer', And(bt(eq(r[0], X(le(IV(0))))), bt(eq(r[1], X(re(IV(0)))))))
    unchanged(v, flow, before, cols, flow.data.axes[0])


# ------------------------------------------------------------------ C32
IC = 'strata.interface.collect'


@contract('C32', IC + '.create_interface_array', 'left side upwards, then right side downwards')
def c32_array(v):
    m = v.size('m', 1)
    ys, xl, xr = v.arr('y', m), v.arr('xl', m), v.arr('xr', m)
    r = v.val(v.fn(IC, 'create_interface_array'), ys, xl, xr)
    v.ensures('two points per layer', eq(num(r.axes[0].length()), num(t_mul(IV(2), m))))
    i = v.index(m)
    v.require(*v.quant)
    v.reset()
    at = lambda l, q: r.fieldview(l).at(r.axes[0].coords(q))
    for nm, q, x in (('left', i, xl), ('right', t_sub(t_sub(t_mul(IV(2), m), IV(1)), i), xr)):
        v.ensures(nm + ' side', And(bt(eq(at('X', q), x.at((i,)))), bt(eq(at('Y', q), ys.at((i,))))))


@contract('C32', IC + '.get_yindex_data', 'index data of evenly spaced layers')
def c32_index_data(v):
    m = v.size('m', 2)
    y0, dy = v.real('y0'), v.real('dy')
    v.require(dy > 0)
    ys = array([v.axis(m)], lambda cs: y0 + num(cs[0]) * dy)
    r = v.val(v.fn(IC, 'get_yindex_data'), ys)
    v.ensures('lowest layer', eq(r.ymin, y0))
    v.ensures('highest layer', eq(r.ymax, y0 + (num(m) - 1) * dy))
    v.ensures('spacing', eq(r.dy, dy))
    v.ensures('number of layers', eq(r.num, num(m)))


@contract('C32', IC + '.get_yindex_for_value', 'row of a height')
def c32_index(v):
    m = v.size('m', 2)
    y0, dy, e = v.real('y0'), v.real('dy'), v.real('e')
    k = v.int('k')
    # a layer of the same lattice, up to the rounding of its height, anywhere
    v.require(dy > 0, n_abs(e) * 2000000 < 1)
    v.c.mark_nonzero(dy.t)
    d = v.fn(IC, 'YIndexData')(y0, y0 + (num(m) - 1) * dy, dy, num(m))
    a, top = k + e, num(m) - 1
    # the order of products with the positive spacing
    for p, q in ((a, num(IV(0))), (a, top)):
        v.require(Implies(bt(p > q), bt(p * dy > q * dy)), Implies(bt(p < q), bt(p * dy < q * dy)), Implies(bt(eq(p, q)), bt(eq(p * dy, q * dy))))
    r = v.val(v.fn(IC, 'get_yindex_for_value'), y0 + a * dy, d)
    want = n_ite(bt(k < 0), 0, n_ite(bt(k > top), top, k))
    v.ensures('the row of that layer, clipped to the rows', eq(r, want))


def clipped(k, m):
    return Ite(k < 0, IV(0), Ite(k > m - 1, m - 1, k))


class Rows:
    """Layers first .. first + num - 1 of a lattice of heights, and the contract of get_yindex_for_value for its heights."""

    def __init__(self, v):
        self.v = v
        self.y0, self.dy = v.real('y0'), v.real('dy')
        v.require(self.dy > 0)
        self.sets = []

    def layers(self, name):
        v = self.v
        a, m = v.int('first' + name), v.size('rows' + name, 1)
        d = v.fn(IC, 'YIndexData')(self.at(a), self.at(a + num(m) - 1), self.dy, num(m))
        self.sets.append((d, a.t, m))
        return d, a.t, m

    def at(self, k):
        return self.y0 + k * self.dy

    def row(self, I, args, kw):
        b = inspect.signature(self.v.fn(IC, 'get_yindex_for_value')).bind(*args, **kw).arguments
        to = next(((a, m) for d, a, m in self.sets if d is b['yindex_data']), None)
        y = next((k for d, a, m in self.sets for k, x in ((a, d.ymin), (a + m - 1, d.ymax)) if b['y'] is x or normal(b['y'].t).eq(normal(x.t))), None)
        if to is None or y is None:
            raise Unsupported('row of another height')
        return num(clipped(y - to[0], to[1]))

    def close(self, I, args, kw):
        """np.isclose of two heights or spacings of the lattice: equal, for spacings above its tolerance."""
        a, b = (normal(lift(x).t) for x in args)
        if kw or len(args) != 2:
            raise Unsupported('tolerances')
        ks = {}
        for d, f, m in self.sets:
            for k, x in ((f, d.ymin), (f + m - 1, d.ymax)):
                ks[normal(x.t).get_id()] = k
        if a.eq(normal(self.dy.t)) and b.eq(a):
            return True
        if a.get_id() not in ks or b.get_id() not in ks:
            raise Unsupported('comparison of other values')
        return mkbool(ks[a.get_id()] == ks[b.get_id()])


@contract('C32', IC + '.transfer_values, fill_pbc_info_for_empty_y_values', 'histories of the nearest known heights')
def c32_transfer(v):
    R = Rows(v)
    new, b, n = R.layers('1')
    first = v.decide(v.bool('no_history').t)
    init = v.int('init')
    v.require(init >= 0)
    v.contract_of(v.fn(IC, 'init_periodic_info'), lambda I, args, kw: SObj(init.t))
    v.contract_of(v.fn(IC, 'get_yindex_for_value'), R.row)
    v.contract_of(np.isclose, R.close)
    h = v.fun('history', 1, 'Int', facts=lambda a, f: f >= 0)
    if first:
        xs = old = None
    else:
        old, a, m = R.layers('0')
        xs = array([v.axis(m)], lambda cs: SObj(h(cs[0])), 'o')
    r = v.val(v.fn(IC, 'transfer_values'), xs, old, new)
    r = v.val(v.fn(IC, 'fill_pbc_info_for_empty_y_values'), r)
    k = v.index(n)
    v.require(*v.quant)
    v.reset()
    got = v.I.getitem(r, num(k))
    v.ensures('one history per layer', eq(v.val(len, r), num(n)))
    if first:
        v.ensures('no history at first', eq(got, SObj(init.t)))
    else:
        v.ensures('the history of the nearest known height', eq(got, SObj(h(clipped(k + b - a, m)))))


@contract('C32', IC + '.update_interface_with_pbc_info', 'every layer is unwrapped with the history of its height')
def c32_update(v):
    R = Rows(v)
    new, b, m = R.layers('1')
    old, a, m0 = R.layers('0')
    first = v.decide(v.bool('no_history').t)
    v.require(num(m) >= 2)
    ys = array([v.axis(m)], lambda cs: R.at(num(b + cs[0])))
    xl, xr = v.arr('xl', m), v.arr('xr', m)
    box = v.real('box')
    h, old_h = v.fun('history', 1, 'Int', facts=lambda a, f: f >= 0), v.fun('old_history', 1, 'Int', facts=lambda a, f: f >= 0)
    step = z3.Function('pbc_step', INT, REAL, REAL, REAL, INT)
    ml, mr = v.fun('boxes_left', 1, 'Int'), v.fun('boxes_right', 1, 'Int')
    olds = None if first else array([v.axis(m0)], lambda cs: SObj(old_h(cs[0])), 'o')
    oldd = None if first else old
    token = []

    def transfer(I, args, kw):
        x = inspect.signature(v.fn(IC, 'transfer_values')).bind(*args, **kw).arguments
        d = x['yindex_data_new']
        v.ensures('transferred from the histories of the last map', And(x['xs'] is olds, x['yindex_data'] is oldd))
        v.ensures('to the layers of this map', And(*[bt(eq(p, q)) for p, q in zip(d, new)]))
        token.append(array([v.axis(m)], lambda cs: SObj(v.c.skolem('unset', 'Int')), 'o'))
        return token[-1]

    def fill(I, args, kw):
        v.ensures('the transferred histories are filled up', args[0] is token[-1])
        return array([v.axis(m)], lambda cs: SObj(h(cs[0])), 'o')

    def upd(I, args, kw):
        x = inspect.signature(v.fn(IC, 'check_and_update_periodic_info')).bind(*args, **kw).arguments
        return SObj(step(obj_of(x['pbc_info']).t, *[toreal(numt(x[q])) for q in ('box_x', 'xleft_current', 'xright_current')]))

    def add(I, args, kw):
        x = inspect.signature(v.fn(IC, 'add_pbc_multipliers_to_edges')).bind(*args, **kw).arguments
        st = obj_of(x['pbc_info']).t
        return tuple(x[q] + num(f(st)) * x['box_x'] for q, f in (('xleft', ml), ('xright', mr)))
    start = z3.Function('pbc_start', REAL, REAL, INT)
    v.contract_of(v.fn(IC, 'init_periodic_info'), lambda I, args, kw: SObj(start(*[toreal(numt(x)) for x in inspect.signature(
        v.fn(IC, 'init_periodic_info')).bind(*args, **kw).arguments.values()])))
    v.contract_of(v.fn(IC, 'transfer_values'), transfer)
    v.contract_of(v.fn(IC, 'fill_pbc_info_for_empty_y_values'), fill)
    v.contract_of(v.fn(IC, 'check_and_update_periodic_info'), upd)
    v.contract_of(v.fn(IC, 'add_pbc_multipliers_to_edges'), add)
    face, hist, d = v.val(v.fn(IC, 'update_interface_with_pbc_info'), ys, xl, xr, box, olds, oldd)
    v.ensures('index data of this map', And(*[bt(eq(p, q)) for p, q in zip(d, new)]))
    v.ensures('one history per layer', eq(v.val(len, hist), num(m)))
    v.ensures('two points per layer', eq(num(face.axes[0].length()), num(t_mul(IV(2), m))))
    k = v.index(m)
    v.require(*v.quant)
    v.reset()
    X = lambda x: x.at((k,))
    st = step(h(k), box.t, X(xl).t, X(xr).t)
    v.ensures('the history of a layer is updated with its edges', eq(v.I.getitem(hist, num(k)), SObj(st)))
    at = lambda l, q: face.fieldview(l).at(face.axes[0].coords(q))
    for nm, q, x, f in (('left', k, xl, ml), ('right', t_sub(t_sub(t_mul(IV(2), m), IV(1)), k), xr, mr)):
        v.ensures(nm + ' edge unwrapped', eq(at('X', q), X(x) + num(f(st)) * box))
        v.ensures(nm + ' height', eq(at('Y', q), X(ys)))


@contract('C32', IC + '.get_interface_coordinates', 'interface of a map')
def c32_coordinates(v):
    from contracts.pf_iface import Layers
    n = v.size('n', 2)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax, facts=(lambda a, w: w >= 0) if l == 'M' else None) for l in ('X', 'Y', 'M')}
    nx, ny, dx, dy = v.size('nx', 1), v.size('ny', 1), v.real('dx'), v.real('dy')
    flow = flow_of(v, list(cols.items()), {'shape': (num(nx), num(ny)), 'spacing': (dx, dy), 'num_bins': num(n)})
    before = snapshot(flow, cols)
    lay = Layers(v, flow, n, cols['Y'], lo=2)
    K = lay.K
    fx, fy = v.fun('px', 1), v.fun('py', 1)
    rec = None if v.decide(v.bool('not_recentred').t) else 'zero' if v.decide(v.bool('recentre_zero').t) else 'com'
    hist, d = v.fn(IC, 'PeriodicInfo'), v.fn(IC, 'YIndexData')
    seen = []
    n2 = t_mul(IV(2), K)

    def upd(I, args, kw):
        b = inspect.signature(v.fn(IC, 'update_interface_with_pbc_info')).bind(*args, **kw).arguments
        seen.append(b)
        return record([v.axis(n2)], {'X': lambda cs: SNum(fx(cs[0]), True), 'Y': lambda cs: SNum(fy(cs[0]), True)}, ('Y', 'X')), hist, d
    v.contract_of(v.fn(IC, 'update_interface_with_pbc_info'), upd)
    v.contract_of(v.fn(IC, 'get_interface'), lay.handler)
    if rec == 'com':
        # some liquid
        v.require(v.sum([n], lambda i: cols['M'].at((i,))) > 0)
    r = v.val(v.fn(IC, 'get_interface_coordinates'), flow, 'M', 'old', 'olddata', rec, cutoff=v.real('C'), cutoff_radius=v.real('radius'))
    face, h2, d2 = r
    f, l, kw = lay.calls[0]
    v.ensures('the interface of this map with the given options', And(len(lay.calls) == 1, f is flow, l == 'M',
              set(kw) == {'search_longest_connected', 'cutoff', 'cutoff_radius'}, kw['search_longest_connected'] is True,
              bt(eq(kw['cutoff'], v.real('C'))), bt(eq(kw['cutoff_radius'], v.real('radius')))))
    v.ensures('the new histories', And(h2 is hist, d2 is d, len(seen) == 1))
    b = seen[0]
    v.ensures('from the histories of the last map', And(b['old_pbc_info_per_y'] == 'old', b['old_yindex_data'] == 'olddata'))
    v.ensures('with the box of the map', eq(b['box_x'], num(nx) * dx))
    k = v.index(K)
    v.require(*v.quant)
    v.reset()
    at = lambda a: a.at(a.axes[0].coords(k))
    col = lambda l, q: cols[l].at((q,))
    v.ensures('one edge pair per layer', And(*[bt(eq(num(b[q].axes[0].length()), num(K))) for q in ('ys', 'xs_left', 'xs_right')]))
    v.ensures('edges of the layers', And(bt(eq(at(b['ys']), col('Y', lay.L(k)))), bt(eq(at(b['xs_left']), col('X', lay.L(k)))),
                                         bt(eq(at(b['xs_right']), col('X', lay.R(k))))))
    p = v.index(n2)
    v.require(*v.quant)
    v.reset()
    got = lambda l: face.fieldview(l).at(face.axes[0].coords(p))
    v.ensures('heights relative to the lowest layer', eq(got('Y'), SNum(fy(p) - fy(IV(0)))))
    if rec is None:
        v.ensures('positions as they are', eq(got('X'), SNum(fx(p))))
    elif rec == 'zero':
        v.ensures('positions relative to the middle of the base', eq(got('X'), SNum(fx(p)) - half() * SNum(fx(IV(0)) + fx(n2 - 1))))
    else:
        m = v.sum([n], lambda i: col('M', i))
        v.ensures('positions relative to the centre of mass', eq((SNum(fx(p)) - got('X')) * m, v.sum([n], lambda i: col('X', i) * col('M', i))))
    unchanged(v, flow, before, cols, flow.data.axes[0])


@contract('C32', IC + '.collect_interfaces', 'one interface file per map, with the histories of the maps before')
def c32_series(v):
    F = v.size('F', 0)
    s = Series(v, F, find='find_singles_to_singles', module=IC, pair=True)
    step = {q: z3.Function('next_' + q, INT, INT, INT, INT) for q in ('histories', 'rows')}
    S = {q: z3.Function(q, INT, INT) for q in step}
    rec = v.str('recentre')
    px, py = v.fun('px', 2), v.fun('py', 2)
    m = v.size('m', 1)
    k = v.c.index('k')
    for q in S:
        v.require(S[q](IV(0)) == SObj.NONE)
        v.c.forall(S[q](k), [k], (), lambda t, q=q: Implies(And(k >= 0, k < F), S[q](k + 1) == step[q](k, S['histories'](k), S['rows'](k))), TRUE)
    v.loop_value('pbc_info_per_y', lambda k: SObj(S['histories'](k)))
    v.loop_value('yindex_data', lambda k: SObj(S['rows'](k)))

    def coordinates(I, args, kw):
        b = inspect.signature(v.fn(IC, 'get_interface_coordinates')).bind(*args, **kw).arguments
        k = s.owner(b['flow'])
        v.ensures('the interface with the given options', And(b['label'] == 'M', bt(eq(b['recenter'], rec)), set(b['kwargs']) <= {'cutoff', 'cutoff_radius', 'cutoff_bins', 'outext'},
                  *[bt(eq(b['kwargs'][q], x)) for q, x in (('cutoff', v.real('C')), ('cutoff_radius', v.real('r')), ('cutoff_bins', v.int('nb')))]))
        old = [obj_of(b[q]).t for q in ('pbc_info_per_y', 'yindex_data')]
        face = record([v.axis(m)], {'X': lambda cs: SNum(px(k, cs[0]), True), 'Y': lambda cs: SNum(py(k, cs[0]), True)}, ('Y', 'X'))
        return face, SObj(step['histories'](k, *old)), SObj(step['rows'](k, *old))
    out = IList()

    def write(I, args, kw):
        b = inspect.signature(inner(v, 'write_interface_data', IC)).bind(*args, **kw).arguments
        out.append((b['path'], b['interface']))
    v.contract_of(v.fn(IC, 'get_interface_coordinates'), coordinates)
    v.contract_of(v.fn(IC, 'write_interface_data'), write)
    v.val(v.fn(IC, 'collect_interfaces'), v.str('base'), v.str('output'), rec, cutoff=v.real('C'), cutoff_radius=v.real('r'), cutoff_bins=v.int('nb'),
          quiet=True, begin=v.int('b'), end=v.int('e'), ext=v.str('ext'), outext=v.str('outext'))
    a, kw = s.found[0]
    v.ensures('the files of the series', And(len(s.found) == 1, bt(eq(a[0], v.str('base'))), bt(eq(a[1], v.str('output'))),
              kw.keys() == {'begin', 'end', 'ext', 'outext'},
              *[bt(eq(kw[q], x)) for q, x in (('begin', v.int('b')), ('end', v.int('e')), ('ext', v.str('ext')), ('outext', v.str('outext')))]))
    seq = out.seq
    if seq is None:
        v.ensures('files written only for maps', And(len(out.items) == 0, F == 0))
        return
    v.ensures('one file per map', And(len(seq.axis.sizes) == 1, seq.axis.mask is None, seq.axis.sizes[0] == F))
    i = v.index(F)
    p = v.index(m)
    v.require(*v.quant)
    v.reset()
    path, face = seq.fn((i,))
    v.ensures('the file of that map', eq(path, SStr([('fmt', 'o', num(i))])))
    v.ensures('the interface of that map', And(bt(eq(face.fieldview('X').at((p,)), SNum(px(i, p)))), bt(eq(face.fieldview('Y').at((p,)), SNum(py(i, p))))))


@contract('C32', IC + '.write_interface_data', 'file of an interface')
def c32_write(v):
    m = v.size('m', 1)
    face = record([v.axis(m)], {'X': v.arr('x', m).reader(), 'Y': v.arr('y', m).reader()}, ('Y', 'X'))
    saved = []
    v.contract_of(np.savetxt, lambda I, args, kw: saved.append((args, kw)))
    v.val(inner(v, 'write_interface_data', IC), 'out', face, ['in'], {'cutoff': v.real('C'), 'cutoff_radius': v.real('r'), 'cutoff_bins': v.int('nb')},
          'com')
    v.ensures('one table', And(len(saved) == 1, saved[0][0][0] == 'out'))
    (path, data), kw = saved[0][0][:2], saved[0][1]
    i = v.index(m)
    v.require(*v.quant)
    v.reset()
    v.ensures('one line per point', And(data.ndim == 2, bt(eq(num(data.axes[0].length()), num(m))), bt(eq(num(data.axes[1].length()), 2))))
    at = lambda j: data.at(tuple(data.axes[0].coords(i)) + tuple(data.axes[1].coords(IV(j))))
    v.ensures('position and height', And(bt(eq(at(0), face.fieldview('X').at((i,)))), bt(eq(at(1), face.fieldview('Y').at((i,))))))
    v.ensures('to three decimals', And(kw.get('fmt') == '%.3f', kw.get('delimiter', ' ') == ' '))
    head = kw['header']
    lines = lines_of(head.parts if isinstance(head, SStr) else [head])
    v.ensures('after comment lines', And(kw.get('comments') == '', *[isinstance(l[0], str) and l[0].startswith('#') for l in lines]))
