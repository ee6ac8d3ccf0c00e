"""Deductive contracts: reading, writing and conversion of map files (C01, C02, C03)."""
import importlib
import inspect
import io
import os
import re
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, half, num
from pv.arrays import *
from pv.prove import eqv as eq
from pv import npmodel as N
from pv.interp import StarSeq
from pv.files import BinDisk, Head, Method, Reading
from contracts.pf_grid import opt
from contracts.pf_average import bound_of, same_map
from contracts.pf_spread import generator

CV = 'strata.convert'
RD, WR = 'strata.dataformats.read', 'strata.dataformats.write'
GMX, SIM = 'strata.dataformats.gmx_flow_version_1', 'strata.dataformats.simple'
LABELS = ('N', 'T', 'M', 'U', 'V')
FIELDS = ('X', 'Y') + LABELS


class Maps:
    """A series of maps with any bins, by number."""

    def __init__(self, v, K):
        self.v, self.K = v, K
        self.size = v.fun('bins', 1, 'Int', facts=lambda a, x: x >= 0)
        self.f = {l: v.fun('map_' + l, 2) for l in FIELDS}
        self.g = {l: v.fun('info_' + l, 1) for l in ('dx', 'dy', 'x0', 'y0')}
        self.h = {l: v.fun('info_' + l, 1, 'Int') for l in ('nx', 'ny')}

    def one(self, k):
        v = self.v
        n = self.size(k)
        d = {l: array([Axis((n,))], lambda cs, l=l: SNum(self.f[l](k, cs[0]), True)) for l in FIELDS}
        info = {'shape': (num(self.h['nx'](k)), num(self.h['ny'](k))), 'num_bins': num(n),
                'spacing': (SNum(self.g['dx'](k), True), SNum(self.g['dy'](k), True)),
                'origin': (SNum(self.g['x0'](k), True), SNum(self.g['y0'](k), True))}
        for x in (d, info):
            v.I.born(x)
        return d, info


def same_info(a, b):
    return And(sorted(a) == sorted(b), *[bt(eq(a[k], b[k])) for k in b if k in a])


def converting(v, given, ftype):
    K = v.size('K', 0)
    maps = Maps(v, K)
    convert = v.fn(CV, 'convert')
    src, dst = (lambda k: SStr([('fmt', 'in', num(k))])), (lambda k: SStr([('fmt', 'out', num(k))]))
    found, rows = [], IList()

    def pairs(I, args, kw):
        found.append(dict(bound_of(v.fn('strata.utils', 'find_singles_to_singles'), args, kw)))
        return generator(v.axis(K), lambda cs: (src(cs[0]), dst(cs[0])))

    def read(I, args, kw):
        p = bound_of(v.fn(RD, 'read_data_file'), args, kw)['filename']
        if not (isinstance(p, SStr) and [x[:2] for x in p.parts] == [('fmt', 'in')]):
            v.ensures('the files found are read', False)
            raise Unsupported('another file')
        k = numt(p.parts[0][2])
        return maps.one(k) + ({'path': p},)

    def write(I, args, kw):
        a = list(args)
        k = dict(kw)
        t = k.pop('ftype', 'default')
        path = a.pop(0) if a else k.pop('path')
        data = a.pop(0) if a else k.pop('data')
        rows.append((path, data, tuple(a), t, tuple(sorted(k.items()))))
    v.contract_of(v.fn('strata.utils', 'find_singles_to_singles'), pairs)
    v.contract_of(v.fn(RD, 'read_data_file'), read)
    v.contract_of(v.fn(WR, 'write'), write)
    quiet = v.decide(v.bool('quiet').t)
    fopts = {'begin': v.int('begin'), 'end': v.int('end'), 'ext': v.str('ext')} if given else {}
    if given == 'outext':
        fopts['outext'] = v.str('outext')
    kw = dict(fopts, quiet=quiet)
    if ftype:
        kw['ftype'] = ftype
    v.val(convert, 'base', 'output', **kw)
    v.ensures('the files are looked for once', len(found) == 1)
    b = dict(found[0])
    o = dict(b.pop('fopts', {}))
    v.ensures('from and to the paths given', And(b.get('base') == 'base', b.get('output') == 'output'))
    if given:
        v.ensures('with the numbers and extension given', And(*[bt(eq(o[k], fopts[k])) if k in o else FALSE for k in fopts]))
        if given != 'outext':
            v.ensures('the output extension is that of the input', Or('outext' not in o, bt(eq(o.get('outext'), fopts['ext']))))
    else:
        v.ensures('from number one', And(o.get('begin', 1) == 1, o.get('ext', '.dat') == '.dat', o.get('outext', '.dat') == '.dat'))
    v.ensures('nothing else is asked for', set(o) <= {'begin', 'end', 'ext', 'outext'})
    L = N.seq_len(rows)
    v.ensures('one output per input', L == K)
    k = v.index(K)
    row = rows.seq.fn((k,)) if rows.seq is not None else rows.items[0]
    path, data, rest, t, more = row
    d, info = maps.one(k)
    v.ensures('written to the path paired with the input', eq(path, dst(k)))
    v.ensures('the values of every bin under the same labels', same_map(data, d))
    v.ensures('with the information of the map', And(len(rest) == 1, same_info(rest[0], info)))
    v.ensures('in the format asked for', {'default': 'gmx'}.get(t, t) == (ftype or 'gmx'))


for _g in (None, 'numbers', 'outext'):
    for _t in ((None, 'simple') if _g else (None, 'gmx', 'simple', 'simple_plain')):
        def _c(v, g=_g, t=_t):
            converting(v, g, t)
        contract('C03', CV + '.convert', 'conversion of a series%s%s' % (' to %s' % _t if _t else '', ', %s given' % _g if _g else ''))(_c)


# ------------------------------------------------------------------ dispatch of writing and reading
def writing(v, ftype):
    gmx, sim = (importlib.import_module(m + '.main') for m in (GMX, SIM))
    calls = []
    for name, m in (('gmx', gmx), ('simple', sim)):
        v.contract_of(m.write_data, lambda I, args, kw, name=name: calls.append((name, tuple(args), dict(kw))))
    d, info = Maps(v, 1).one(IV(0))
    kw = {} if ftype is None else {'ftype': ftype}
    path = v.str('path')
    v.val(v.fn(WR, 'write'), path, d, info, **kw)
    v.ensures('one file is written', len(calls) == 1)
    if len(calls) != 1:
        return
    name, args, k = calls[0]
    v.ensures('by the writer of the format', name == ('gmx' if ftype in (None, 'default', 'gmx') else 'simple'))
    sig = inspect.signature(inspect.unwrap(gmx.write_data if name == 'gmx' else sim.write_data))
    a = dict(zip(('path', 'data', 'info') if name == 'gmx' else ('path', 'data', 'binary'), args))
    a.update(k)
    v.ensures('to the path given', eq(a.get('path'), path))
    v.ensures('the map given', a.get('data') is d or isinstance(a.get('data'), dict) and same_map(a['data'], d))
    if name == 'gmx':
        v.ensures('with its information and nothing else', And(isinstance(a.get('info'), dict) and same_info(a['info'], info), set(a) == {'path', 'data', 'info'}))
    else:
        v.ensures('binary or plain text as asked for', a.get('binary', True) is (ftype == 'simple'))
        v.ensures('nothing else is asked for', set(a) <= {'path', 'data', 'binary'})


for _t in (None, 'default', 'gmx', 'simple', 'simple_plain'):
    def _c(v, t=_t):
        writing(v, t)
    contract('C03', WR + '.write', 'written as %s' % (_t or 'default format'))(_c)


@contract('C03', WR + '.write', 'an unknown format is refused')
def c03_unknown(v):
    gmx, sim = (importlib.import_module(m + '.main') for m in (GMX, SIM))
    calls = []
    for m in (gmx, sim):
        v.contract_of(m.write_data, lambda I, args, kw: calls.append(args))
    d, info = Maps(v, 1).one(IV(0))
    for f in ('gmx2', '', 'plain', 'SIMPLE', None):
        o = v.call(v.fn(WR, 'write'), v.str('path'), d, info, ftype=f)
        v.ensures('an error', isinstance(o.exc, KeyError))
    v.ensures('nothing is written', not calls)


GMX_HEADER = b'FORMAT GMX_FLOW_%d\nORIGIN '
HEADS = {'gmx': GMX_HEADER % 1, 'gmx2': GMX_HEADER % 2, 'simple_plain': b'X Y N T M U V\n', 'simple': b''}


def opened(v, ftype, path):
    """Files of which the first bytes are those of the format; numbers in binary do not spell the marker of the other format."""
    paths = []

    def open_(I, args, kw):
        a = dict(zip(('file', 'mode'), args), **kw)
        paths.append(a['file'])
        if a.get('mode', 'r') != 'rb':
            raise Unsupported('text of an unknown file')
        return Reading(Head(HEADS[ftype], () if ftype.startswith('gmx') else (b'FORMAT GMX_FLOW_',)))
    v.contract_of(open, open_)
    return paths


def detecting(v, ftype):
    gmx, sim = (importlib.import_module(m + '.main') for m in (GMX, SIM))
    path = v.str('path')
    paths = opened(v, ftype, path)
    mine, other = (gmx, sim) if ftype.startswith('gmx') else (sim, gmx)
    d, info = Maps(v, 1).one(IV(0))
    calls = []
    v.contract_of(mine.read_data, lambda I, args, kw: calls.append((args, kw)) or (d, info))
    v.contract_of(other.read_data, lambda I, args, kw: calls.append(None) or (d, info))
    r, ri, meta = v.val(v.fn(RD, 'read_data_file'), path)
    v.ensures('the first bytes of the file decide', And(len(paths) >= 1, *[bt(eq(p, path)) for p in paths]))
    v.ensures('read once by the reader of the format', len(calls) == 1 and calls[0] is not None)
    if len(calls) != 1 or calls[0] is None:
        return
    args, kw = calls[0]
    v.ensures('from the path given', And(len(args) == 1, not kw, bt(eq(args[0], path))))
    v.ensures('what was read is returned', And(same_map(r, d), same_info(ri, info)))
    v.ensures('the path', And('path' in meta, bt(eq(meta['path'], path))))
    v.ensures('the module of the format', meta['module'] is mine)


for _t in HEADS:
    def _c(v, t=_t):
        detecting(v, t)
    contract('C03', RD + '.read_data_file', 'the format of a %s file' % _t)(_c)


@contract('C03', RD + '.read_from_files', 'a series of files')
def c03_series(v):
    K = v.size('K', 0)
    maps = Maps(v, K)
    name = lambda k: SStr([('fmt', 'in', num(k))])

    def read(I, args, kw):
        p = bound_of(v.fn(RD, 'read_data_file'), args, kw)['filename']
        if not (isinstance(p, SStr) and [x[:2] for x in p.parts] == [('fmt', 'in')]):
            v.ensures('the files given are read', False)
            raise Unsupported('another file')
        k = numt(p.parts[0][2])
        return maps.one(k) + ({'path': p},)
    v.contract_of(v.fn(RD, 'read_data_file'), read)
    f = v.fn(RD, 'read_from_files')
    r = v.val(list, v.val(f, StarSeq(v.list(K, name, 'tuple').seq)))
    L = N.seq_len(r)
    v.ensures('one map per file', L == K)
    k = v.index(K)
    d, info, meta = r.seq.fn((k,))
    want, winfo = maps.one(k)
    v.ensures('the maps of the files in order', And(same_map(d, want), same_info(info, winfo)))
    v.ensures('with their path', eq(meta['path'], name(k)))


# ------------------------------------------------------------------ the binned format
def closed(v):
    """No real file is touched: the path can be written, everything else about files is outside the contract."""
    def outside(I, args, kw):
        raise Unsupported('another use of files')
    for f in (open, io.open, os.open, np.fromfile, np.genfromtxt, np.loadtxt, np.memmap, np.savetxt, np.save, np.load, np.frombuffer):
        v.contract_of(f, outside)
    for f in (os.path.exists, os.path.lexists, os.path.isfile, os.path.isdir, os.access):
        v.contract_of(f, lambda I, args, kw: not str(args[0]).endswith('.dat'))
    for f in (os.makedirs, os.mkdir, os.rename, os.replace):
        v.contract_of(f, lambda I, args, kw: None)


class Binned:
    """The binned format on a ghost disk.  The search for the NUL in blocks of the file is replaced by its result (bounded check)."""

    def __init__(self, v):
        self.v = v
        closed(v)
        self.disk = BinDisk(v)
        v.local_contract('read_header_string', lambda I, run, args: args[0].text())
        v.contract_of(np.fromfile, self.fromfile)
        self.NX, self.NY = v.size('NX', 1), v.size('NY', 1)
        self.dx, self.dy, self.x0, self.y0 = (v.real(s, True) for s in ('dx', 'dy', 'x0', 'y0'))
        self.ax = v.axis(self.NX, self.NY)
        self.data = {l: v.arr(l, self.ax) for l in FIELDS}
        self.info = {'shape': (num(self.NX), num(self.NY)), 'spacing': (self.dx, self.dy), 'origin': (self.x0, self.y0),
                     'num_bins': num(t_mul(self.NX, self.NY))}
        for x in (self.data, self.info):
            v.I.born(x)

    def fromfile(self, I, args, kw):
        v = self.v
        a = bound_of(lambda file, dtype=float, count=-1, sep='', offset=0: None, args, kw)
        if a['sep'] != '' or a['offset'] != 0 or not hasattr(a['file'], 'numbers'):
            raise Unsupported('another use of fromfile')
        p = a['file'].numbers()
        v.ensures('numbers are read where they were written', p is not None)
        arr, width = p
        dt = np.dtype(a['dtype'])
        v.ensures('numbers are read as they were written', And(dt.itemsize == width, (dt.kind in 'iu') == (arr.dtype() == 'i')))
        v.ensures('as many numbers are read as were written', eq(lift(a['count']), num(arr.axes[0].length())))
        return N.copy_arr(arr)

    def write(self):
        return self.v.val(self.v.fn(GMX + '.write', 'write_data'), 'dir/f.dat', self.data, self.info)

    def read(self):
        return self.v.val(self.v.fn(GMX + '.read', 'read_data'), 'dir/f.dat')


@contract('C01', GMX + '.write.write_data', 'written and read: every bin and the grid')
def c01_round(v):
    s = Binned(v)
    before = {l: s.data[l].reader() for l in FIELDS}
    s.write()
    r, info = s.read()
    v.ensures('shape', And(bt(eq(info['shape'][0], num(s.NX))), bt(eq(info['shape'][1], num(s.NY)))))
    v.ensures('number of bins', eq(info['num_bins'], num(t_mul(s.NX, s.NY))))
    near = lambda a, b: And(bt((a - b) * 2000000 <= 1), bt((b - a) * 2000000 <= 1))
    for k, want in (('spacing', (s.dx, s.dy)), ('origin', (s.x0, s.y0))):
        for a, b in zip(info[k], want):
            v.ensures('%s to six decimals' % k, near(a, b))
    v.ensures('all fields', sorted(r) == sorted(FIELDS))
    i, j = v.index(s.NX, s.NY)
    pos = s.ax.pos((i, j))
    for l in FIELDS:
        v.ensures('one value per bin (%s)' % l, And(r[l].ndim == 1, bt(eq(num(r[l].axes[0].length()), num(t_mul(s.NX, s.NY))))))
        got = r[l].at(r[l].axes[0].coords(pos) if not N.same_axis(r[l].axes[0], s.ax) else (i, j))
        if l in LABELS:
            v.ensures('%s of every bin with mass, zero of the others' % l, eq(got, Ite_num(bt(eq(before['M']((i, j)), 0)), num(0), before[l]((i, j)))))
        else:
            o, d, k = (info['origin'][0], info['spacing'][0], i) if l == 'X' else (info['origin'][1], info['spacing'][1], j)
            v.ensures('%s is the position of the bin centre' % l, eq(got, o + d * (num(k) + half())))
    v.reset()
    for l in FIELDS:
        cs = s.ax.fresh('q')
        v.ensures('the map written is not changed', eq(s.data[l].at(cs), before[l](cs)), s.ax.guard(cs))


def Ite_num(c, a, b):
    return SNum(Ite(c, toreal(numt(a)), toreal(numt(b))))


# ------------------------------------------------------------------ the simple formats
@contract('C02', SIM + '.read.calc_information', 'the grid from the coordinates')
def c02_info(v):
    NX, NY = v.size('NX', 2), v.size('NY', 2)
    dx, dy, x0, y0 = (v.real(s, True) for s in ('dx', 'dy', 'x0', 'y0'))
    v.require(dx > 0, dy * 9999 >= 1)
    v.c.mark_nonzero(dx.t)
    v.c.mark_nonzero(dy.t)
    ax = v.axis(NX, NY)
    X, Y = array([ax], lambda cs: x0 + num(cs[0]) * dx), array([ax], lambda cs: y0 + num(cs[1]) * dy)
    v.c.extra_terms += [NX - 2]
    info = v.val(v.fn(SIM + '.read', 'calc_information'), X, Y)
    v.lemma('number of columns', eq(info['shape'][0], num(NX)))
    v.ensures('number of rows', eq(info['shape'][1], num(NY)))
    v.ensures('number of bins', eq(info['num_bins'], num(t_mul(NX, NY))))
    v.ensures('spacing', And(bt(eq(info['spacing'][0], dx)), bt(eq(info['spacing'][1], dy))))
    v.ensures('origin', And(bt(eq(info['origin'][0], x0)), bt(eq(info['origin'][1], y0))))


@contract('C02', SIM + '.write.write_data', 'binary: every field of every bin in order')
def c02_binary(v):
    n = v.size('n', 1)
    data = {l: v.arr(l, v.axis(n)) for l in FIELDS}
    v.I.born(data)
    before = {l: data[l].reader() for l in FIELDS}
    closed(v)
    disk = {}

    def fromfile(I, args, kw):
        a = bound_of(lambda file, dtype=float, count=-1, sep='', offset=0: None, args, kw)
        if a['sep'] != '' or a['offset'] != 0 or a['count'] != -1 or a['file'] not in disk:
            raise Unsupported('another use of fromfile')
        arr, width = disk[a['file']]
        dt = np.dtype(a['dtype'])
        v.ensures('numbers are read as they were written', And(dt.itemsize == width, dt.kind == 'f', arr.dtype() == 'f'))
        return N.copy_arr(N.ravel(arr))
    v.contract_of(np.fromfile, fromfile)
    v.I.ghost['tofile'] = disk
    v.val(v.fn(SIM + '.write', 'write_data'), 'dir/f.dat', data)
    v.ensures('one file is written', list(disk) == ['dir/f.dat'])
    r = v.val(v.fn(SIM + '.read', 'read_binsimple'), 'dir/f.dat')
    v.ensures('all fields', sorted(r) == sorted(FIELDS))
    i = v.index(n)
    for l in FIELDS:
        v.ensures('one value per bin (%s)' % l, And(r[l].ndim == 1, bt(eq(num(r[l].axes[0].length()), num(n)))))
        v.ensures('%s of every bin' % l, eq(r[l].at(r[l].axes[0].coords(i)), before[l]((i,))))
    v.reset()
    for l in FIELDS:
        cs = data[l].axes[0].fresh('q')
        v.ensures('the map written is not changed', eq(data[l].at(cs), before[l](cs)), data[l].axes[0].guard(cs))


@contract('C02', SIM + '.read.read_data', 'the fields read on the grid of the coordinates')
def c02_read(v):
    closed(v)
    n, NX, NY = v.size('n', 1), v.size('NX', 2), v.size('NY', 2)
    v.require(num(n) == num(t_mul(NX, NY)))
    dx, dy, x0, y0 = (v.real(s, True) for s in ('dx', 'dy', 'x0', 'y0'))
    data = {l: v.arr(l, v.axis(n)) for l in FIELDS}
    before = {l: data[l].reader() for l in FIELDS}
    info = {'shape': (num(NX), num(NY)), 'spacing': (dx, dy), 'origin': (x0, y0), 'num_bins': num(n)}
    read, calls = [], []
    binary = v.decide(v.bool('binary').t)
    v.local_contract('guess_read_function', lambda I, run, args: v.fn(SIM + '.read', 'read_binsimple' if binary else 'read_plainsimple'))
    for f in ('read_binsimple', 'read_plainsimple'):
        v.contract_of(v.fn(SIM + '.read', f), lambda I, args, kw, f=f: read.append((f, tuple(args))) or dict(data))

    def calc(I, args, kw):
        a = bound_of(v.fn(SIM + '.read', 'calc_information'), args, kw)
        i = v.index(n)
        for l in 'XY':
            v.ensures('the grid is that of the coordinates to five decimals', And(
                bt(eq(num(a[l].axes[0].length()), num(n))),
                bt((a[l].at((i,)) - before[l]((i,))) * 100000 <= 1), bt((before[l]((i,)) - a[l].at((i,))) * 100000 <= 1)))
        v.reset()
        calls.append(1)
        return info
    v.contract_of(v.fn(SIM + '.read', 'calc_information'), calc)
    r, ri = v.val(v.fn(SIM + '.read', 'read_data'), 'dir/f.dat')
    v.ensures('read once by the reader of the format', read == [('read_binsimple' if binary else 'read_plainsimple', ('dir/f.dat',))])
    v.ensures('the grid of the coordinates', And(len(calls) == 1, same_info(ri, info)))
    v.ensures('all fields', sorted(r) == sorted(FIELDS))
    for l in LABELS:
        i = v.index(n)
        v.ensures('%s as read' % l, And(bt(eq(num(r[l].axes[0].length()), num(n))), bt(eq(r[l].at(r[l].axes[0].coords(i)), before[l]((i,))))))
        v.reset()
    i, j = v.index(NX, NY)
    ax = v.axis(NX, NY)
    for l in 'XY':
        got = r[l].at((i, j) if N.same_axis(r[l].axes[0], ax) else r[l].axes[0].coords(ax.pos((i, j))))
        v.ensures('%s exactly on the grid, along y first' % l, eq(got, x0 + num(i) * dx if l == 'X' else y0 + num(j) * dy))


@contract('C02', SIM + '.write.write_data', 'plain text: every field of every bin in order')
def c02_text(v):
    n = v.size('n', 1)
    data = {l: v.arr(l, v.axis(n)) for l in FIELDS}
    v.I.born(data)
    before = {l: data[l].reader() for l in FIELDS}
    closed(v)
    saved = []
    v.contract_of(np.savetxt, lambda I, args, kw: saved.append(bound_of(
        lambda fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None: None, args, kw)))

    def genfromtxt(I, args, kw):
        a = bound_of(np.genfromtxt, args, kw)
        given = {k: x for k, x in a.items() if k not in ('fname', 'names', 'dtype', 'encoding')}
        plain = {k: p.default for k, p in inspect.signature(np.genfromtxt).parameters.items()}
        if not saved or a['fname'] != 'dir/f.dat' or a['names'] is not True or a['dtype'] not in (float, np.float64) \
                or any(x != plain[k] for k, x in given.items() if k in plain and isinstance(plain[k], (str, int, bool, type(None)))):
            raise Unsupported('another use of genfromtxt')
        s = saved[0]
        m = re.fullmatch(r'%\d*(?:\.(\d+))?f', s['fmt']) if isinstance(s['fmt'], str) else None
        if not m or s['newline'] != '\n' or s['footer'] or s['delimiter'].strip() or not s['delimiter'] or s['comments'] not in ('', '#', '# '):
            raise Unsupported('text of another kind')
        names = s['header'].split()
        X = s['X']
        v.ensures('a column for every name', And(X.ndim == 2, bt(eq(num(X.axes[1].length()), num(len(names))))))
        f = X.reader()
        return record([X.axes[0]], {l: (lambda cs, q=q: SNum(N.fixed(toreal(numt(f(tuple(cs) + (IV(q),)))), int(m.group(1) or 6)), True))
                                    for q, l in enumerate(names)}, tuple(names), {l: 'f' for l in names})
    v.contract_of(np.genfromtxt, genfromtxt)
    v.val(v.fn(SIM + '.write', 'write_data'), 'dir/f.dat', data, binary=False)
    v.ensures('one file is written', len(saved) == 1 and saved[0]['fname'] == 'dir/f.dat')
    r = v.val(v.fn(SIM + '.read', 'read_plainsimple'), 'dir/f.dat')
    v.ensures('all fields', sorted(r) == sorted(FIELDS))
    i = v.index(n)
    for l in FIELDS:
        v.ensures('one value per bin (%s)' % l, And(r[l].ndim == 1, bt(eq(num(r[l].axes[0].length()), num(n)))))
        a, b = r[l].at(r[l].axes[0].coords(i)), before[l]((i,))
        v.ensures('%s of every bin to six decimals' % l, And(bt((a - b) * 2000000 <= 1), bt((b - a) * 2000000 <= 1)))
    v.reset()
    for l in FIELDS:
        cs = data[l].axes[0].fresh('q')
        v.ensures('the map written is not changed', eq(data[l].at(cs), before[l](cs)), data[l].axes[0].guard(cs))
