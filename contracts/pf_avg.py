"""Deductive contracts: averaging and combining simple maps."""
import z3
from pv.core import *
from pv.prove import contract, num, half, sterm
from pv.arrays import *
from pv.interp import StarSeq
from pv.prove import eqv as eq

SA = 'strata.dataformats.simple.average'
LABELS = ('M', 'N', 'T', 'U', 'V')


def maps_of(v, K, n, coords):
    """K symbolic maps over n bins: fields f_l(k, i), coordinates coords[l](k, i)."""
    ax = v.axis(n)
    fs = {l: v.fun(l, 2, facts=(lambda a, w: w >= 0) if l in 'MN' else None) for l in LABELS}

    def one(k):
        d = {l: array([ax], lambda cs, l=l: SNum(coords[l](k, cs[0]), True)) for l in ('X', 'Y')}
        for l in LABELS:
            d[l] = array([ax], lambda cs, l=l: SNum(fs[l](k, cs[0]), True))
        return d
    return ax, fs, one


@contract('C07', SA + '.average_data', 'average of maps with shared coordinates')
def c07(v):
    K, n = v.size('K', 1), v.size('n', 1)
    X, Y = v.fun('X', 1), v.fun('Y', 1)
    ax, fs, one = maps_of(v, K, n, {'X': lambda k, i: X(i), 'Y': lambda k, i: Y(i)})
    data = v.list(K, one, 'tuple').seq
    r = v.val(v.fn(SA, 'average_data'), StarSeq(data))
    v.ensures('fields of the average', sorted(r) == ['M', 'N', 'T', 'U', 'V', 'X', 'Y'])
    i = v.index(n)
    v.ensures('coordinates of the input maps', And(bt(eq(r['X'].at((i,)), num(X(i)))), bt(eq(r['Y'].at((i,)), num(Y(i))))))

    def tot(l, w=None):
        return v.sum([K], lambda k: num(fs[l](k, i)) * (num(fs[w](k, i)) if w else 1))
    for l in ('M', 'N'):
        v.ensures('arithmetic mean of ' + l, eq(r[l].at((i,)) * num(K), tot(l)))
    for l, w in (('U', 'M'), ('V', 'M'), ('T', 'N')):
        W = tot(w)
        v.ensures('weighted mean of %s by %s' % (l, w), eq(r[l].at((i,)) * W, tot(l, w)), Not(bt(eq(W, 0))))
        v.ensures('%s is zero where the weight is zero' % l, eq(r[l].at((i,)), 0), eq(W, 0))


@contract('C07', SA + '.average_data', 'input maps are left unmodified')
def c07_frame(v):
    K, n = v.size('K', 1), v.size('n', 1)
    X, Y = v.fun('X', 1), v.fun('Y', 1)
    ax, fs, one = maps_of(v, K, n, {'X': lambda k, i: X(i), 'Y': lambda k, i: Y(i)})
    a = one(IV(0))
    keys = list(a)
    rest = v.list(K, lambda k: one(k + 1), 'tuple').seq
    from pv.arrays import seq_concat
    before = {l: a[l].reader() for l in keys}
    v.val(v.fn(SA, 'average_data'), a, StarSeq(rest))
    i = v.index(n)
    v.ensures('the dictionary of a map keeps its fields', list(a) == keys)
    v.ensures('the values of a map stay', And(*[bt(eq(a[l].at((i,)), before[l]((i,)))) for l in keys]))


@contract('C07', SA + '.average_data', 'maps whose coordinates differ')
def c07_refuse(v):
    K, n = v.size('K', 2), v.size('n', 1)
    X, Y = v.fun('X', 2), v.fun('Y', 2)
    ax, fs, one = maps_of(v, K, n, {'X': X, 'Y': Y})
    which = v.decide(v.bool('in_x').t)
    F = X if which else Y
    j, i = v.index(t_sub(K, IV(1)), n)
    v.require(*v.quant)
    v.reset()
    a, b = num(F(IV(0), i)), num(F(j + 1, i))
    v.require(n_abs(a - b) > SNum(RV('1/500')), n_abs(b) <= 50)
    out = v.call(v.fn(SA, 'average_data'), StarSeq(v.list(K, one, 'tuple').seq))
    v.ensures('refused with a ValueError', isinstance(out.exc, ValueError))


@contract('C07', SA + '.average_data', 'no maps')
def c07_none(v):
    r = v.val(v.fn(SA, 'average_data'))
    v.ensures('empty result', r == {})


# ------------------------------------------------------------------ C08
@contract('C08', SA + '.combine_bins', 'combined bins')
def c08(v):
    NX, NY = v.size('NX', 1), v.size('NY', 1)
    nx, ny = v.size('nx', 1), v.size('ny', 1)
    v.require(nx <= NX, ny <= NY)
    dx, dy, x0, y0, ox, oy = (v.real(s, True) for s in ('dx', 'dy', 'x0', 'y0', 'ox', 'oy'))
    v.require(dx > 0, dy > 0)
    ax = v.axis(NX, NY)
    fs = {l: v.fun(l, 2, facts=(lambda a, w: w >= 0) if l in 'MN' else None) for l in LABELS}
    data = {'X': array([ax], lambda cs: x0 + num(cs[0]) * dx), 'Y': array([ax], lambda cs: y0 + num(cs[1]) * dy)}
    for l in LABELS:
        data[l] = array([ax], lambda cs, l=l: SNum(fs[l](*cs), True))
    info = {'shape': (num(NX), num(NY)), 'spacing': (dx, dy), 'origin': (ox, oy), 'num_bins': num(t_mul(NX, NY))}
    before = {l: data[l].reader() for l in data}
    r, ri = v.val(v.fn(SA, 'combine_bins'), data, info, num(nx), num(ny))
    SX, SY = v.int('SX'), v.int('SY')
    # whole blocks: SX nx <= NX < (SX + 1) nx
    v.ensures('shape counts the whole blocks along x', And(bt(ri['shape'][0] * num(nx) <= num(NX)),
                                                          bt(num(NX) < (ri['shape'][0] + 1) * num(nx))))
    v.ensures('shape counts the whole blocks along y', And(bt(ri['shape'][1] * num(ny) <= num(NY)),
                                                          bt(num(NY) < (ri['shape'][1] + 1) * num(ny))))
    v.ensures('spacing multiplied', And(bt(eq(ri['spacing'][0], dx * num(nx))), bt(eq(ri['spacing'][1], dy * num(ny)))))
    v.ensures('number of bins', eq(ri['num_bins'], ri['shape'][0] * ri['shape'][1]))
    # x-major order: record i*SY + j is block (i, j)
    sx, sy = sterm(ri['shape'][0]), sterm(ri['shape'][1])
    i, j = v.index(sx, sy)
    p = t_add(t_mul(i, sy), j)

    def at(l):
        a = r[l]
        return a.at(a.axes[0].coords(p))

    def tot(l, w=None):
        return v.sum([nx, ny], lambda a, b: num(fs[l](t_add(t_mul(nx, i), a), t_add(t_mul(ny, j), b)))
                     * (num(fs[w](t_add(t_mul(nx, i), a), t_add(t_mul(ny, j), b))) if w else 1))
    v.ensures('one record per block', And(*[bt(eq(num(r[l].axes[0].length()), num(t_mul(sx, sy)))) for l in r]))
    # mean of nx consecutive positions starting at nx*i is x0 + dx*(nx*i + (nx-1)/2)
    v.ensures('position along x is the mean of the covered bins', eq(at('X'), x0 + dx * (num(nx) * num(i) + half() * (num(nx) - 1))))
    v.ensures('position along y is the mean of the covered bins', eq(at('Y'), y0 + dy * (num(ny) * num(j) + half() * (num(ny) - 1))))
    for l in ('M', 'N'):
        v.ensures('sum of %s over the covered bins' % l, eq(at(l), tot(l)))
    for l, w in (('U', 'M'), ('V', 'M'), ('T', 'N')):
        W = tot(w)
        v.ensures('weighted mean of %s by %s over the covered bins' % (l, w), eq(at(l) * W, tot(l, w)), Not(bt(eq(W, 0))))
        v.ensures('%s is zero where the weight is zero' % l, eq(at(l), 0), eq(W, 0))
    v.reset()
    a, b = v.index(NX, NY)
    v.ensures('input unmodified', And(*[bt(eq(data[l].at((a, b)), before[l]((a, b)))) for l in before]))
