"""C15, C16: the droplet edges found by the interface searches."""
import inspect
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, num
from pv.arrays import *
from pv.interp import IList, IGen
from .pf_grid import eq, flow_of, getattr_
from pv import npmodel as N

DI = 'droplets.interface'


def cloud(v, n, labels=('X', 'Y', 'M'), name=''):
    """Records at any positions."""
    ax = v.axis(n)
    cols = {l: v.arr(name + l, ax) for l in labels}
    return record((ax,), {l: cols[l].reader() for l in labels}, tuple(labels), {l: 'f' for l in labels}), cols


@contract('C15', DI + '._get_indices_in_radius', 'records in the radius')
def c15_radius(v):
    n = v.size('n', 1)
    d, cols = cloud(v, n)
    cell, r = v.size('cell', 0), v.real('r')
    v.require(cell < n, r >= 0)
    out = v.val(v.fn(DI, '_get_indices_in_radius'), num(cell), d, r)
    at = lambda l, k: cols[l].at((k,))
    dist2 = lambda k: (at('X', k) - at('X', cell)) * (at('X', k) - at('X', cell)) + (at('Y', k) - at('Y', cell)) * (at('Y', k) - at('Y', cell))
    within = lambda k: And(k != cell, bt(dist2(k) <= r * r))
    want = v.sum([n], lambda k: n_ite(within(k), num(1), num(0)))
    v.ensures('as many as other records within the closed radius', eq(num(out.axes[0].length()), want))

    e = v.index(out.axes[0])
    v.ensures('only other records within the closed radius', within(out.at((e,) if not isinstance(e, tuple) else e).t))


@contract('C15', DI + '._cell_is_droplet', 'droplet cells')
def c15_cell(v):
    n = v.size('n', 1)
    d, cols = cloud(v, n)
    cell, r, cut, bins = v.size('cell', 0), v.real('r'), v.real('cutoff'), v.int('bins')
    v.require(cell < n, r >= 0)
    given = v.decide(v.bool('bins_given').t)
    kw = {'cutoff_bins': bins} if given else {}
    out = v.val(v.fn(DI, '_cell_is_droplet'), num(cell), d, 'M', r, cut, **kw)
    at = lambda l, k: cols[l].at((k,))
    dist2 = lambda k: (at('X', k) - at('X', cell)) * (at('X', k) - at('X', cell)) + (at('Y', k) - at('Y', cell)) * (at('Y', k) - at('Y', cell))
    counts = lambda k: And(k != cell, bt(dist2(k) <= r * r), bt(at('M', k) >= cut))
    number = v.sum([n], lambda k: n_ite(counts(k), num(1), num(0)))
    want = And(bt(at('M', cell) >= cut), bt(number >= (bins if given else 1)))
    v.ensures('own value and enough neighbours reach the cutoff', bt(out) == want)


@contract('C15', DI + '._cell_is_droplet', 'droplet cells of a reduced map')
def c15_reduced(v):
    """Leaving out the records below the cutoff changes nothing."""
    n = v.size('n', 1)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in 'XYM'}
    at = lambda l, k: cols[l].at((k,))
    cell, r, cut, bins = v.size('cell', 0), v.real('r'), v.real('cutoff'), v.int('bins')
    v.require(cell < n, r >= 0, bt(at('M', cell) >= cut))
    part = v.axis(n, mask=lambda cs: bt(at('M', cs[0]) >= cut))
    d = record((part,), {l: cols[l].reader() for l in cols}, tuple(cols), {l: 'f' for l in cols})
    out = v.val(v.fn(DI, '_cell_is_droplet'), num(part.pos((cell,))), d, 'M', r, cut, cutoff_bins=bins)
    dist2 = lambda k: (at('X', k) - at('X', cell)) * (at('X', k) - at('X', cell)) + (at('Y', k) - at('Y', cell)) * (at('Y', k) - at('Y', cell))
    counts = lambda k: And(k != cell, bt(dist2(k) <= r * r), bt(at('M', k) >= cut))
    number = v.sum([n], lambda k: n_ite(counts(k), num(1), num(0)))
    v.ensures('as in the whole map', bt(out) == bt(number >= bins))


class Search:
    """A map of distinct positions and the cells that _cell_is_droplet finds to be part of the droplet."""

    def __init__(self, v, cut, connected=False):
        self.v = v
        self.n = n = v.size('n', 1)
        ax = v.axis(n)
        self.cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M')}
        self.flow = flow_of(v, list(self.cols.items()))
        x, y = (lambda k, l=l: self.cols[l].at((k,)).t for l in 'XY')
        self.D = D = v.fun('D', 1, 'Bool')
        self.x, self.y = x, y
        # no two cells at one position
        a, b = v.c.index('a'), v.c.index('b')
        v.c.forall(x(a), [a], (b,), lambda t: Implies(And(t[0] != a, a >= 0, a < n, t[0] >= 0, t[0] < n), Or(x(t[0]) != x(a), y(t[0]) != y(a))),
                   TRUE, match='own')


@contract('C15', DI + '.get_interface', 'outermost cells of each height')
def c15(v):
    """On the contract of _cell_is_droplet."""
    cut, r = v.real('cutoff'), v.real('radius')
    s = Search(v, cut)
    n = s.n
    lims = {'lower': v.decide(v.bool('has_ymin').t), 'upper': v.decide(v.bool('has_ymax').t)}
    ymin, ymax = v.real('ymin'), v.real('ymax')

    def cell(I, args, kw):
        b = inspect.signature(v.fn(DI, '_cell_is_droplet')).bind(*args, **kw).arguments
        sysm, k = b['system'], numt(b['cell'])
        a = sysm.axes[0]
        if sysm.ndim != 1 or a.m != 1 or a.order != 'lex':
            raise Unsupported('another system of cells')
        q = v.c.index('z')
        # the records that reach the cutoff, in their order
        v.ensures('searched among the cells that reach the cutoff', Implies(And(q >= 0, q < n, s.cols['M'].at((q,)).t >= cut.t), a.guard((q,))))
        v.ensures('searched among the cells of the map', And(*[bt(eq(sysm.fieldview(l).at((q,)), s.cols[l].at((q,)))) for l in s.cols]), a.guard((q,)))
        v.ensures('cutoff passed on', eq(b['cutoff'], cut))
        v.ensures('radius passed on', eq(b['radius'], r))
        v.ensures('field passed on', b['label'] == 'M')
        v.reset()
        return SBool(s.D(a.coords(k)[0]))
    v.contract_of(v.fn(DI, '_cell_is_droplet'), cell)
    opts = {}
    if any(lims.values()):
        opts['ylims'] = (ymin if lims['lower'] else None, ymax if lims['upper'] else None)
    g = v.val(v.fn(DI, 'get_interface'), s.flow, 'M', cutoff=cut, cutoff_radius=r, **opts)
    out = g.force()
    if out.seq is None:
        v.ensures('no heights at all', len(out.items) == 0)
        return
    ax = out.seq.axis
    y, x, D = s.y, s.x, s.D
    inlim = lambda h: And(h >= ymin.t if lims['lower'] else TRUE, h <= ymax.t if lims['upper'] else TRUE)
    drop = lambda k: And(k >= 0, k < n, s.cols['M'].at((k,)).t >= cut.t, D(k))
    e = v.index(ax)
    el = out.seq.fn((e,))
    L, R = (numt(t) for t in v.I.items_of(el))
    q = v.c.index('q')
    v.ensures('record indices of droplet cells', And(drop(L), drop(R)))
    v.ensures('both of one height', y(L) == y(R))
    v.ensures('of a height within the limits', inlim(y(L)))
    v.ensures('no droplet cell of that height further left or right', And(x(L) <= x(q), x(q) <= x(R)), And(drop(q), y(q) == y(L)))
    e2 = v.index(ax)
    L2 = numt(v.I.items_of(out.seq.fn((e2,)))[0])
    v.ensures('heights from bottom to top', y(L) < y(L2), e < e2)
    v.reset()
    v.require(drop(q), inlim(y(q)))
    # the layer of the height of any droplet cell
    ranks = [d for d in v.c.uf_facts if d.startswith('uniqrank!')]
    if len(ranks) != 1:
        raise Unsupported('heights of another form')
    rank = z3.Function(ranks[0], z3.IntSort(), z3.IntSort())(q)
    v.ensures('every height with a droplet cell has a layer', ax.guard((rank,)))
