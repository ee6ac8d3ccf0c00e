"""Deductive contracts: the averaging command (C09)."""
import importlib
import inspect
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, num, half
from pv.arrays import *
from pv.interp import IList, StarSeq
from pv.prove import eqv as eq
from pv import npmodel as N
from contracts.pf_grid import opt, flow_of
from contracts.pf_spread import generator

AV = 'strata.average'


def memo(f):
    seen = {}

    def g(t):
        if t.get_id() not in seen:
            seen[t.get_id()] = (t, f(t))
        return seen[t.get_id()][1]
    return g


LABELS = ('M', 'N', 'T', 'U', 'V')


@contract('C09', AV + '.cut_system', 'limits')
def c09_cut(v):
    n = v.size('n', 1)
    ax = v.axis(n)
    data = {l: v.arr(l, ax) for l in ('X', 'Y') + LABELS}
    x0, x1, y0, y1 = (opt(v, s) for s in ('x0', 'x1', 'y0', 'y1'))
    read = {l: data[l].reader() for l in data}
    r = v.val(v.fn(AV, 'cut_system'), dict(data), (x0, x1), (y0, y1))
    v.ensures('the fields of the map', sorted(r) == sorted(data))

    def kept(i):
        x, y = read['X']((i,)), read['Y']((i,))
        g = []
        for a, lo, hi in ((x, x0, x1), (y, y0, y1)):
            g += [bt(a >= lo)] if lo is not None else []
            g += [bt(a <= hi)] if hi is not None else []
        return And(*g)
    for l in data:
        part = r[l].axes[0]
        cs = part.fresh('q')
        v.ensures('in the order of the map (%s)' % l, part.m == 1 and part.order == 'lex')
        v.ensures('exactly the bins inside the limits stay (%s)' % l, part.guard(cs) == And(cs[0] >= 0, cs[0] < n, kept(cs[0])))
        v.ensures('values of %s stay with their bins' % l, eq(r[l].at(cs), read[l](cs)), part.guard(cs))


@contract('C09', AV + '.recenter_maps', 'recentred maps')
def c09_recenter(v):
    K, NX, NY = v.size('K', 1), v.size('NX', 2), v.size('NY', 2)
    dx, dy, x0, y0 = (v.real(s, True) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy > 0)
    v.c.mark_nonzero(dx.t)
    v.c.mark_nonzero(dy.t)
    ax = v.axis(NX, NY)
    ref = v.fun('ref', 1)
    f = {l: v.fun(l, 3) for l in LABELS}

    def one(k):
        d = {'X': array([ax], lambda cs: x0 + num(cs[0]) * dx), 'Y': array([ax], lambda cs: y0 + num(cs[1]) * dy)}
        for l in LABELS:
            d[l] = array([ax], lambda cs, l=l: SNum(f[l](k, *cs), True))
        v.I.born(d)
        return d
    maps = v.list(K, one)
    refs = v.list(K, lambda k: SNum(ref(k), True))
    # the whole number of bins closest to the reference of each map: between smin and smax, at most the width of a map apart
    S = memo(lambda k: z3.simplify(z3.ToInt(toreal(numt(v.val(np.round, SNum((ref(k) - x0.t) / dx.t, True)))))))
    smin, smax, ka, kb = (v.int(s) for s in ('smin', 'smax', 'ka', 'kb'))
    v.require(ka >= 0, ka < num(K), kb >= 0, kb < num(K), smax - smin <= num(NX) - 1)
    v.require(num(S(ka.t)) == smin, num(S(kb.t)) == smax)
    k = v.c.index('k')
    v.c.forall(ref(k), [k], (), lambda t: Implies(And(k >= 0, k < K), And(S(k) >= smin.t, S(k) <= smax.t)), TRUE)
    v.c.extra_terms += [IV(0), S(K - 1) - smin.t]
    r, info = v.val(v.fn(AV, 'recenter_maps'), maps, refs)
    lo, hi = x0 - smin * dx, x0 + (num(NX) - 1 - smax) * dx
    ox, oy = info['origin']
    v.lemma('the origin is the first position common to all shifted maps', eq(ox, lo))
    v.ensures('the origin along y is that of the maps', eq(oy, y0))
    v.ensures('spacing of the maps', And(bt(eq(info['spacing'][0], dx)), bt(eq(info['spacing'][1], dy))))
    wide = num(NX) - (smax - smin)
    v.lemma('shape along x is the number of common positions', eq(info['shape'][0], wide))
    # the common positions of the last map
    last = r.seq.fn((K - 1,))['Y'].axes[0]
    v.interval('common positions', [NX], lambda i: last.guard((i, IV(0))), smin.t * 0 + S(K - 1) - smin.t, S(K - 1) + num(NX).t - 1 - smax.t)
    v.ensures('number of bins', eq(info['num_bins'], wide * num(NY)))
    v.ensures('shape along y is that of the maps', eq(info['shape'][1], num(NY)))
    v.ensures('one map per map', eq(num(r.seq.axis.length()), num(K)))
    k = v.index(K)
    out = r.seq.fn((k,))
    v.ensures('the fields of the maps', sorted(out) == sorted(LABELS + ('X', 'Y')))
    for l in ('X', 'Y') + LABELS:
        a = out[l]
        part = a.axes[0]
        i, j = cs = part.fresh('q')
        m = num(i) - num(S(k))
        v.ensures('in the order of the map (%s)' % l, part.m == 2 and part.order == 'lex')
        v.ensures('exactly the bins at positions common to all maps (%s)' % l,
                  part.guard(cs) == And(i >= 0, i < NX, j >= 0, j < NY, bt(m >= -smin), bt(m <= num(NX) - 1 - smax)))
        want = x0 + m * dx if l == 'X' else y0 + num(j) * dy if l == 'Y' else num(f[l](k, i, j))
        v.ensures('%s of every bin' % l, eq(a.at(cs), want), part.guard(cs))


# ------------------------------------------------------------------ the command
RD = 'strata.dataformats.read'
OPTIONS = {'floor': None, 'cutoff': None}


def bound_of(fn, args, kw):
    b = inspect.signature(fn).bind(*args, **kw)
    b.apply_defaults()
    return b.arguments


class Command:
    """The averaging command on bundles of maps on one grid, read on the contract of read_from_files."""

    def __init__(self, v, cut=False, modname='strata.dataformats.simple.main'):
        self.v = v
        self.B, self.G = v.size('B', 0), v.size('G', 1)
        self.NX, self.NY = v.size('NX', 1), v.size('NY', 1)
        self.dx, self.dy, self.x0, self.y0, self.ox, self.oy = (v.real(s, True) for s in ('dx', 'dy', 'x0', 'y0', 'ox', 'oy'))
        v.require(self.dx > 0, self.dy > 0)
        v.c.mark_nonzero(self.dx.t)
        v.c.mark_nonzero(self.dy.t)
        self.f = {l: v.fun('map_' + l, 4) for l in LABELS}
        self.ax = v.axis(self.NX, self.NY)
        self.mod = importlib.import_module(modname)
        self.name = lambda b, k: SStr([('fmt', '%d', num(b)), ('fmt', '%d', num(k))])
        self.out = lambda b: SStr([('fmt', 'o', num(b))])
        self.found, self.rows = [], IList()

        def groups(I, args, kw):
            self.found.append((args, kw))
            return generator(v.axis(self.B), lambda cs: (self.files(cs[0]), self.out(cs[0])))

        def read(I, args, kw):
            if len(args) == 1 and isinstance(args[0], StarSeq) and not kw:
                s = args[0].seq
                return generator(s.axis, lambda cs: self.one(*self.key(s.fn(cs))))
            raise Unsupported('reading something else')
        v.contract_of(v.fn(AV, 'find_groups_to_singles'), groups)
        v.contract_of(v.fn(AV, 'read_from_files'), read)

        def write(I, args, kw):
            if kw or len(args) != 3:
                v.ensures('written as a map with its information', False)
            self.rows.append(tuple(args))
        v.contract_of(v.fn(AV, 'write'), write)

    def files(self, b):
        return self.v.list(self.G, lambda k: self.name(b, k))

    def key(self, p):
        if not (isinstance(p, SStr) and [x[:2] for x in p.parts] == [('fmt', '%d'), ('fmt', '%d')]):
            raise Unsupported('another file')
        return tuple(numt(x[2]) for x in p.parts)

    def one(self, b, k):
        d = {'X': array([self.ax], lambda cs: self.x0 + num(cs[0]) * self.dx), 'Y': array([self.ax], lambda cs: self.y0 + num(cs[1]) * self.dy)}
        for l in LABELS:
            d[l] = array([self.ax], lambda cs, l=l: SNum(self.f[l](b, k, *cs), True))
        info = {'shape': (num(self.NX), num(self.NY)), 'spacing': (self.dx, self.dy), 'origin': (self.ox, self.oy), 'num_bins': num(t_mul(self.NX, self.NY))}
        meta = {'path': self.name(b, k), 'module': self.mod}
        for x in (d, info, meta):
            self.v.I.born(x)
        return d, info, meta


    def fopts(self):
        return {'begin': self.v.int('begin'), 'end': self.v.int('end'), 'ext': self.v.str('ext'), 'outext': self.v.str('outext')}

    def check_found(self, rolling):
        (args, kw), = self.found
        b = dict(bound_of(self.v.fn(AV, 'find_groups_to_singles'), args, kw))
        b.update(b.pop(next(k for k, p in inspect.signature(self.v.fn(AV, 'find_groups_to_singles')).parameters.items()
                            if p.kind is p.VAR_KEYWORD), {}) if not set(self.fopts()) <= set(b) else {})
        want = self.fopts()
        self.v.ensures('bundles of the files and options given', And(
            b['base'] == 'base', b['output'] == 'output', bt(eq(b['group'], num(self.G))), bt(b['rolling']) == bt(rolling),
            *[bt(eq(b[k], want[k])) for k in want]))

    def series(self, tag, labels=LABELS + ('X', 'Y')):
        """A map for every bundle, by its name."""
        n = self.v.size('bins_' + tag, 1)
        return n, {l: self.v.fun(tag + '_' + l, 2) for l in labels}

    def made(self, kind, b):
        n, f = kind
        d = {l: array([self.v.axis(n)], lambda cs, l=l: SNum(f[l](b, cs[0]), True)) for l in f}
        self.v.I.born(d)
        return d

    def is_made(self, d, kind):
        """Which map of a kind a dictionary is, and that it is one."""
        n, f = kind
        a = d['M'].axes[0]
        cs = a.fresh('c')
        t = numt(d['M'].at(cs))
        if not (t.num_args() == 2 and t.decl().eq(f['M'])):
            return None, False
        b = t.arg(0)
        return b, And(sorted(d) == sorted(f), bt(eq(num(d['M'].axes[0].length()), num(n))),
                      *[bt(eq(d[l].at(cs), num(f[l](b, cs[0])))) for l in f], *[d[l].axes[0].m == 1 for l in f])


def same_map(d, want):
    """Two dictionaries of arrays over the same bins."""
    if sorted(d) != sorted(want):
        return FALSE
    g = []
    for l in want:
        x, y = d[l].axes[0], want[l].axes[0]
        if x.m != y.m or x.order != 'lex' or y.order != 'lex':
            return FALSE
        cs = x.fresh('c')
        g += [x.guard(cs) == y.guard(cs), Implies(x.guard(cs), bt(eq(d[l].at(cs), want[l].at(cs))))]
    return And(*g)


@contract('C09', AV + '.average', 'averages without other options')
def c09_plain(v):
    s = Command(v)
    quiet = v.decide(v.bool('quiet').t)
    avg = s.series('avg')

    def average(I, args, kw):
        maps = args[0].seq
        v.ensures('all maps of the bundle are averaged', And(len(args) == 1 and not kw, bt(eq(num(maps.axis.length()), num(s.G)))))
        q = v.index(s.G)
        m = maps.fn((q,))
        b = numt(m['M'].at(m['M'].axes[0].fresh('c'))).arg(0)
        v.ensures('the maps of the files of the bundle in order', same_map(m, s.one(b, q)[0]))
        v.reset()
        return s.made(avg, b)
    v.contract_of(s.mod.average_data, average)
    rolling = v.bool('rolling')
    v.val(v.fn(AV, 'average'), 'base', 'output', num(s.G), rolling, quiet=quiet, **s.fopts())
    s.check_found(rolling)
    rows = s.rows.seq
    v.ensures('one map per bundle', eq(num(rows.axis.length()), num(s.B)))
    b = v.index(s.B)
    path, data, info = rows.fn((b,))
    v.ensures('written to the file of the bundle', eq(path, s.out(b)))
    c, ok = s.is_made(data, avg)
    v.ensures('the average of the bundle is written', And(c is not None and c.eq(b), ok))
    want = s.one(b, IV(0))[1]
    v.ensures('with the grid of the maps', And(*[bt(eq(info[x], want[x])) for x in want]))


@contract('C09', AV + '.average', 'limits and recentring')
def c09_recentred(v):
    recenter = ('right', 'left', 'com')[0 if v.decide(v.bool('right').t) else 1 if v.decide(v.bool('left').t) else 2] if v.decide(v.bool('recenter').t) else None
    options(v, recenter, None, False)


@contract('C09', AV + '.average', 'combined and supersampled bins')
def c09_resampled(v):
    combine = v.decide(v.bool('combine').t)
    super_ = v.decide(v.bool('supersample').t)
    options(v, 'com' if v.decide(v.bool('recenter').t) else None, ('x',), combine, super_)


def options(v, recenter, limited, combine, super_=False):
    s = Command(v)
    avg, com = s.series('avg'), s.series('com')
    nrec = v.size('bins_rec', 1)
    rec = {l: v.fun('rec_' + l, 3) for l in LABELS + ('X', 'Y')}
    rox, roy = v.fun('rec_ox', 1), v.fun('rec_oy', 1)
    rshape = (v.int('rec_nx'), v.int('rec_ny'))
    # limits that keep the bins i0 .. i1 and j0 .. j1
    lims, edge = {}, {}
    for l, n, z, d in (('x', s.NX, s.x0, s.dx), ('y', s.NY, s.y0, s.dy)):
        a, b = v.int('first_' + l), v.int('last_' + l)
        v.require(a >= 0, a <= b, b <= num(n) - 1)
        ea, eb = v.real('before_' + l), v.real('after_' + l)
        v.require(ea >= 0, eb >= 0, (ea < 1) | (a == 0), (eb < 1) | (b == num(n) - 1))
        lo, hi = z + (num(a) - ea) * d, z + (num(b) + eb) * d
        if limited is not None and l not in limited or limited is None and not v.decide(v.bool('has_min_' + l).t):
            v.require(a == 0)
            lo = None
        if limited is not None or not v.decide(v.bool('has_max_' + l).t):
            v.require(b == num(n) - 1)
            hi = None
        lims[l + 'lim'], edge[l] = (lo, hi), (a, b)
    v.c.extra_terms += [edge['x'][0].t, edge['y'][0].t]

    def kept(cs):
        return And(*[And(bt(num(c) >= edge[l][0]), bt(num(c) <= edge[l][1])) for c, l in zip(cs, 'xy')])

    def cut(b, k):
        d = s.one(b, k)[0]
        part = Axis((s.NX, s.NY), kept)
        return {l: array([part], d[l].reader()) for l in d}

    def owner(m):
        t = numt(m['M'].at(m['M'].axes[0].fresh('c')))
        if not t.decl().eq(s.f['M']):
            raise Unsupported('another map')
        return t.arg(0), t.arg(1)
    ref = {k: v.fun('ref_' + k, 2) for k in ('right', 'left', 'com')}

    def flow_owner(flow):
        d = flow.data
        m = {l: d.fieldview(l) for l in d.fields()}
        b, k = owner(m)
        v.ensures('references of the maps within the limits', same_map(m, cut(b, k)))
        return b, k

    def edges(I, args, kw):
        o = bound_of(v.fn(AV, 'get_spreading_edges'), args, kw)
        b, k = flow_owner(o['flow'])
        v.ensures('edges of the mass with the options of the search', And(
            o['label'] == 'M', bt(eq(o['cutoff_radius'], v.real('radius'))), set(o['kwargs']) - {'outext'} == {'floor', 'cutoff', 'cutoff_bins'},
            *[bt(eq(o['kwargs'][x], v.real(x))) for x in ('floor', 'cutoff', 'cutoff_bins')]))
        return SNum(ref['left'](b, k), True), SNum(ref['right'](b, k), True)

    def centre(I, args, kw):
        o = bound_of(v.fn(AV, 'sample_center_of_mass'), args, kw)
        b, k = flow_owner(o['flow'])
        return SNum(ref['com'](b, k), True), v.real('com_y', True)

    def shift(I, args, kw):
        o = bound_of(v.fn(AV, 'recenter_maps'), args, kw)
        maps, refs = o['data_maps'].seq, o['recenter_values'].seq
        v.ensures('all maps and one reference each', And(bt(eq(num(maps.axis.length()), num(s.G))), bt(eq(num(refs.axis.length()), num(s.G)))))
        q = v.index(s.G)
        m = maps.fn((q,))
        b, k = owner(m)
        v.ensures('the maps of the bundle within the limits, in order', And(k.eq(q), same_map(m, cut(b, q))))
        v.ensures('each with its own reference', eq(refs.fn((q,)), SNum(ref[recenter](b, q))))
        v.reset()

        def one(k):
            d = {l: array([v.axis(nrec)], lambda cs, l=l: SNum(rec[l](b, k, cs[0]), True)) for l in rec}
            I.born(d)
            return d
        info = {'origin': IList([SNum(rox(b), True), SNum(roy(b), True)]), 'spacing': IList([s.dx, s.dy]), 'shape': IList(list(rshape)), 'num_bins': num(nrec)}
        I.born(info)
        return v.list(s.G, one), info

    def average(I, args, kw):
        maps = args[0].seq
        v.ensures('all maps of the bundle are averaged', And(len(args) == 1 and not kw, bt(eq(num(maps.axis.length()), num(s.G)))))
        q = v.index(s.G)
        m = maps.fn((q,))
        t = numt(m['M'].at(m['M'].axes[0].fresh('c')))
        b = t.arg(0)
        want = {l: array([v.axis(nrec)], lambda cs, l=l: SNum(rec[l](b, q, cs[0]), True)) for l in rec} if recenter else cut(b, q)
        v.ensures('the %s maps of the bundle in order' % ('recentred' if recenter else 'limited'), same_map(m, want))
        v.reset()
        return s.made(avg, b)

    # the grid before combining, after combining and after supersampling
    def base_info(b):
        (i0, i1), (j0, j1) = edge['x'], edge['y']
        if recenter:
            return {'origin': (SNum(rox(b)) + (s.ox - (s.x0)), SNum(roy(b)) + (s.oy - s.y0)), 'spacing': (s.dx, s.dy), 'shape': rshape, 'num_bins': num(nrec)}
        shape = tuple(v.sum([n], lambda i: num(IV(1)), lambda i: And(i >= a.t, i <= z.t)) if lims[l] != (None, None) else num(n)
                      for n, l, (a, z) in ((s.NX, 'xlim', edge['x']), (s.NY, 'ylim', edge['y'])))
        return {'origin': (s.ox + num(i0) * s.dx, s.oy + num(j0) * s.dy), 'spacing': (s.dx, s.dy), 'shape': shape, 'num_bins': shape[0] * shape[1]}

    def com_info(b):
        return {x: (SNum(cinfo[x][0](b)), SNum(cinfo[x][1](b))) for x in ('origin', 'spacing', 'shape')} | {'num_bins': num(com[0])}
    cinfo = {x: (v.fun('com_%s_x' % x, 1), v.fun('com_%s_y' % x, 1)) for x in ('origin', 'spacing')}
    cinfo['shape'] = (v.fun('com_nx', 1, 'Int'), v.fun('com_ny', 1, 'Int'))

    def same_info(a, want, keys=('origin', 'spacing', 'shape', 'num_bins')):
        return And(*[And(len(v.I.items_of(a[x])) == 2, *[bt(eq(p, q)) for p, q in zip(v.I.items_of(a[x]), want[x])])
                     if x != 'num_bins' else bt(eq(a[x], want[x])) for x in keys])

    def join(I, args, kw):
        o = bound_of(s.mod.combine_bins, args, kw)
        data, info, nx, ny = o.values()
        b, ok = s.is_made(data, avg)
        v.ensures('bins of the average are combined', And(b is not None, ok))
        v.ensures('by the numbers asked for', And(bt(eq(nx, v.int('cx'))), bt(eq(ny, v.int('cy')))))
        v.ensures('on the grid of the average', same_info(info, base_info(b)))
        i = com_info(b)
        I.born(i)
        return s.made(com, b), i
    # supersampling: bins of a regular map in any order
    NS = (v.size('NXs', 1), v.size('NYs', 1))
    sdx, sdy, factor = v.real('sdx', True), v.real('sdy', True), v.int('factor')
    v.require(sdx > 0, sdy > 0, factor >= 1)
    fx, fy = v.fun('fine_x', 1), v.fun('fine_y', 1)
    fine = {l: v.fun('fine_' + l, 3) for l in LABELS}

    def refine(I, args, kw):
        o = bound_of(v.fn(AV, 'supersample_flow_data'), args, kw)
        d = o['flow'].data
        b, ok = s.is_made({l: d.fieldview(l) for l in d.fields()}, com if combine else avg)
        v.ensures('bins of the %s map are supersampled' % ('combined' if combine else 'averaged'), And(b is not None, ok))
        v.ensures('by the factor asked for', eq(o['factor_scaling'] if 'factor_scaling' in o else list(o.values())[1], factor))
        v.ensures('with weighted flow and temperature', sorted(tuple(x) for x in v.I.items_of(o['weights'])) == [('T', 'N'), ('U', 'M'), ('V', 'M')])
        w = com_info(b) if combine else base_info(b)
        flow = o['flow']
        v.ensures('on its grid', same_info({x: I.getattr(flow, x) for x in ('spacing', 'shape')}, w, ('spacing', 'shape')))
        ax = v.axis(*NS, order='any')
        cols = [('X', array([ax], lambda cs: num(fx(b)) + num(cs[0]) * sdx)), ('Y', array([ax], lambda cs: num(fy(b)) + num(cs[1]) * sdy))]
        cols += [(l, array([ax], lambda cs, l=l: SNum(fine[l](b, *cs), True))) for l in LABELS]
        info = {'shape': tuple(num(n) for n in NS), 'spacing': (sdx, sdy), 'origin': (SNum(fx(b), True), SNum(fy(b), True)), 'num_bins': num(t_mul(*NS))}
        return flow_of(v, cols, info)

    def fine_map(b):
        ax = v.axis(*NS)
        d = {'X': array([ax], lambda cs: num(fx(b)) + num(cs[0]) * sdx), 'Y': array([ax], lambda cs: num(fy(b)) + num(cs[1]) * sdy)}
        d.update({l: array([ax], lambda cs, l=l: SNum(fine[l](b, *cs), True)) for l in LABELS})
        return d

    def fine_info(b):
        w, src = (com_info(b), com) if combine else (base_info(b), avg)
        d = s.made(src, b)
        return {'origin': tuple(SNum(f(b), True) + (o - v.val(np.min, d[l])) / factor for f, o, l in ((fx, w['origin'][0], 'X'), (fy, w['origin'][1], 'Y'))),
                'spacing': (sdx, sdy), 'shape': tuple(num(n) for n in NS), 'num_bins': num(t_mul(*NS))}
    v.contract_of(v.fn(AV, 'supersample_flow_data'), refine)
    v.contract_of(s.mod.average_data, average)
    v.contract_of(s.mod.combine_bins, join)
    v.contract_of(v.fn(AV, 'get_spreading_edges'), edges)
    v.contract_of(v.fn(AV, 'sample_center_of_mass'), centre)
    v.contract_of(v.fn(AV, 'recenter_maps'), shift)
    kw = dict(s.fopts(), **lims)
    if recenter:
        kw['recenter'] = recenter
    if combine:
        kw['combine'] = (v.int('cx'), v.int('cy'))
    if super_:
        kw['supersample'] = factor
    for x in ('floor', 'cutoff', 'cutoff_bins'):
        kw[x] = v.real(x)
    kw['cutoff_radius'] = v.real('radius')
    rolling = v.bool('rolling')
    v.val(v.fn(AV, 'average'), 'base', 'output', num(s.G), rolling, quiet=True, **kw)
    s.check_found(rolling)
    rows = s.rows.seq
    v.ensures('one map per bundle', eq(num(rows.axis.length()), num(s.B)))
    b = v.index(s.B)
    path, data, info = rows.fn((b,))
    v.ensures('written to the file of the bundle', eq(path, s.out(b)))
    if super_:
        v.ensures('the fine bins of the bundle are written in x-major order', same_map(data, fine_map(b)))
        v.ensures('with their grid, at the same distance of origin and first bin in bins', same_info(info, fine_info(b)))
        return
    c, ok = s.is_made(data, com if combine else avg)
    v.ensures('the result of the bundle is written', And(c is not None and c.eq(b), ok))
    v.ensures('with its grid', same_info(info, com_info(b) if combine else base_info(b)))
