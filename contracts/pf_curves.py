"""Deductive contracts: spreading curves (C29) and power-law fits (C30), on the pandas model."""
import inspect
import numpy as np
import z3
from pv.core import *
from pv import core
from pv.prove import contract, num
from pv.arrays import *
from pv.interp import IList
from pv.prove import eqv as eq
from pv import npmodel as N
from contracts.pf_grid import getattr_
import pandas_model

VW = 'strata.spreading.view'
FT = 'strata.spreading.fit'


LOG10 = N._UN['log10']
POW10 = lambda x: N._POW(RV(10), x)


def curves(v, n, R=None, T=None, M=None):
    """Series of any lengths: n of them, with arbitrary times, radii and names."""
    if R is None:
        R, T = v.fun('radius', 2), v.fun('time', 2)
        M = v.fun('points', 1, 'Int', facts=lambda a, x: x >= 1)
    k = v.c.index('curve')
    v.require(k >= 0, k < (n.t if isinstance(n, SNum) else n))
    ax = v.axis(M(k))
    val = lambda f: array((ax,), lambda cs: SNum(f(k, cs[0]), True), 'f')
    s = v.I.call(pandas_model.Series, [val(R)], {'index': val(T), 'name': SStr([('fmt', '%d', num(k))])})
    one = memo(lambda cs: subst(s, [(k, cs[0])]))
    return R, T, M, v.list(n, lambda a: one((a,)))


def item(v, l, k):
    return v.I.getitem(l, num(k))


def same_curve(v, name, s, k, R, T, M):
    m = v.c.index('m')
    h = And(m >= 0, m < M(k))
    v.ensures(name, And(bt(eq(getattr_(v, s, 'values').at((m,)), SNum(R(k, m)))),
                        bt(eq(getattr_(v, getattr_(v, s, 'index'), 'values').at((m,)), SNum(T(k, m))))), h)


def factors(v, name, n, many):
    f = v.fun(name, 1, facts=lambda a, x: x != 0)
    if many:
        return (lambda k: SNum(f(k))), v.list(n, lambda a: SNum(f(a)))
    x = v.real(name + '0')
    v.require(Not(bt(eq(x, 0))))
    v.c.mark_nonzero(x.t)
    return (lambda k: x), x


@contract('C29', VW + '.scale_spreading_data', 'scaled curves')
def c29_scale(v):
    n = v.size('n', 1)
    R, T, M, data = curves(v, n)
    many = [v.decide(v.bool('many_' + s).t) for s in ('tau', 'R')]
    tau, ta = factors(v, 'tau', n, many[0])
    rad, ra = factors(v, 'rfactor', n, many[1])
    r = v.val(v.fn(VW, 'combine_spreading_data'), data, tau=ta, R=ra)
    v.ensures('one curve for every curve', eq(v.val(len, r), num(n)))
    k = v.index(n)
    v.require(*v.quant)
    v.reset()
    s = item(v, r, k)
    x, t = getattr_(v, s, 'values'), getattr_(v, getattr_(v, s, 'index'), 'values')
    v.ensures('as many points', And(bt(eq(v.val(len, x), num(M(k)))), bt(eq(v.val(len, t), num(M(k))))))
    m = v.c.index('m')
    h = And(m >= 0, m < M(k))
    v.ensures('radii divided by the factor of the curve', eq(x.at((m,)) * rad(k), SNum(R(k, m))), h)
    v.ensures('times divided by the factor of the curve', eq(t.at((m,)) * tau(k), SNum(T(k, m))), h)
    v.ensures('name kept', eq(getattr_(v, s, 'name'), SStr([('fmt', '%d', num(k))])))
    same_curve(v, 'the curves are not modified', item(v, data, k), k, R, T, M)


@contract('C29', VW + '.scale_spreading_data', 'factors that do not fit')
def c29_refuse(v):
    n, p = v.size('n', 2), v.size('p', 2)
    v.require(Not(n == p))
    R, T, M, data = curves(v, n)
    f = v.fun('factor', 1, facts=lambda a, x: x != 0)
    l = v.list(p, lambda a: SNum(f(a)))
    kw = {'tau': l} if v.decide(v.bool('times').t) else {'R': l}
    o = v.call(v.fn(VW, 'combine_spreading_data'), data, **kw)
    v.ensures('refused with TypeError', type(o.exc) is TypeError)


@contract('C29', VW + '.sync_time_at_radius', 'synchronised curves')
def c29_sync(v):
    n = v.size('n', 1)
    R, T, M, data = curves(v, n)
    rad = v.real('common')
    start = len(v.c.positions)
    r = v.val(v.fn(VW, 'combine_spreading_data'), data, sync_radius=rad)
    v.ensures('one curve for every curve', eq(v.val(len, r), num(n)))
    k = v.index(n)
    v.require(*v.quant)
    v.reset()
    s = item(v, r, k)
    x, t = getattr_(v, s, 'values'), getattr_(v, getattr_(v, s, 'index'), 'values')
    m = v.c.index('m')
    h = And(m >= 0, m < M(k))
    v.ensures('radii kept', eq(x.at((m,)), SNum(R(k, m))), h)
    at = lambda p, k: z3.substitute(p, *[(x, k) for x in p.children()])
    found = [p for p in v.c.positions[start:] if p.num_args() <= 1]
    if not found:
        raise Unsupported('points found in another way')
    dist = lambda m: n_abs(SNum(R(k, m)) - rad)
    for p in found:
        P = at(p, k)
        v.ensures('a point of the curve', And(P >= 0, P < M(k)))
        v.ensures('closest to the radius', dist(P) <= dist(m), h)
        v.ensures('the first such point', dist(P) < dist(m), h, m < P)
    first = found[0]
    for p in found[1:]:
        v.ensures('the same point', at(p, k) == at(first, k))
        if p.num_args():
            kk, = p.children()
            v.c.forall(p, [kk], (), lambda t, p=p, kk=kk: Implies(And(kk >= 0, kk < n), p == at(first, kk)), TRUE)
    e = N.extremum([n], None, lambda cs: SNum(T(cs[0], at(first, cs[0]))), 'min')
    v.ensures('moved by the time of the closest point, to the earliest of them', eq(t.at((m,)), SNum(T(k, m)) - SNum(T(k, at(first, k))) + e), h)
    v.ensures('the times of the closest points coincide', eq(t.at((at(first, k),)), e))
    same_curve(v, 'the curves are not modified', item(v, data, k), k, R, T, M)


def limits(v, name):
    """None or a number, for each limit."""
    return [v.real(name + s) if v.decide(v.bool('has_' + name + s).t) else None for s in ('min', 'max')]


def inside(t, lims):
    return And(*[bt(t >= lims[0])] if lims[0] is not None else [], *[bt(t <= lims[1])] if lims[1] is not None else [])


@contract('C30', FT + '.get_fitting_parameters', 'amplitude and index of a law')
def c30_fit(v):
    import scipy.optimize
    n = v.size('n', 1)
    amp, ind = v.fun('amplitude', 1, facts=lambda a, x: [x > 0, POW10(LOG10(x)) == x]), v.fun('index', 1)
    lims = limits(v, 't')
    T = v.fun('time', 2)
    # the data follow the law at positive times inside the limits
    R = v.fun('radius', 2, facts=lambda a, x: Implies(And(T(*a) > 0, inside(SNum(T(*a)), lims)), And(
        x == amp(a[0]) * N._POW(T(*a), ind(a[0])), x > 0,
        LOG10(x) == LOG10(amp(a[0])) + ind(a[0]) * LOG10(T(*a)))))
    first, second = v.fun('first', 1, 'Int'), v.fun('second', 1, 'Int')
    M = v.fun('points', 1, 'Int', facts=lambda a, x: [x >= 1] + [c for p in (first(*a), second(*a)) for c in (
        p >= 0, p < x, T(a[0], p) > 0, inside(SNum(T(a[0], p)), lims))] + [LOG10(T(a[0], first(*a))) != LOG10(T(a[0], second(*a)))])
    R, T, M, data = curves(v, n, R, T, M)
    used = []

    def leastsq(I, args, kw):
        b = inspect.signature(scipy.optimize.leastsq).bind(*args, **kw).arguments
        xs, ys = b['args']
        ax = xs.axes[0]
        cs = ax.fresh('i')
        g = ax.guard(cs)
        t = [x for x in core.apps_in(lift(xs.at(cs)).t) if core.name_of(x) == 'time']
        if len(t) != 1 or b.get('full_output') is None and 'Dfun' in b:
            raise Unsupported('another fit')
        k, i = t[0].children()
        v.ensures('fit of the points at positive times inside the limits', And(T(k, i) > 0, inside(SNum(T(k, i)), lims)), g)
        m = v.c.index('m')
        h = And(m >= 0, m < M(k), T(k, m) > 0, inside(SNum(T(k, m)), lims))
        v.ensures('all of them are fitted', z3.substitute(g, (i, m)) if i.get_id() == cs[0].get_id() else False, h)

        def residual(a, s):
            return I.call(b['func'], [IList([a, s])] + list(b['args']))
        la, s = SNum(LOG10(amp(k))), SNum(ind(k))
        r = residual(la, s)
        v.ensures('one residual per point', eq(num(r.axes[0].length()), num(ax.length())))
        v.ensures('no residual at the amplitude and index of the law', eq(r.at(cs), 0), g)
        a2, s2 = v.real('a_other'), v.real('s_other')
        q = residual(a2, s2)
        p1, p2 = (lift(q.at((f(k),))) for f in (first, second))
        v.ensures('other parameters leave residuals', And(bt(eq(a2, la)), bt(eq(s2, s))), bt(eq(p1, 0)), bt(eq(p2, 0)), k >= 0, k < n)
        used.append(k)
        return ((la, s),)
    v.contract_of(scipy.optimize.leastsq, leastsq)
    r = v.val(v.fn(FT, 'get_fitting_parameters'), data, tuple(lims))
    v.ensures('fitted', bool(used))
    v.ensures('one pair for every curve', eq(v.val(len, r), num(n)))
    k = v.index(n)
    v.require(*v.quant)
    v.reset()
    a, s = item(v, r, k)
    v.ensures('amplitude of the law', eq(a, SNum(amp(k))))
    v.ensures('index of the law', eq(s, SNum(ind(k))))


@contract('C30', FT + '.get_fitted_data', 'curves of the law')
def c30_curve(v):
    n = v.size('n', 1)
    amp, ind = v.fun('amplitude', 1), v.fun('index', 1)
    lims = limits(v, 'out')
    R, T, some = v.fun('radius', 2), v.fun('time', 2), v.fun('some', 1, 'Int')
    M = v.fun('points', 1, 'Int', facts=lambda a, x: [x >= 1, some(*a) >= 0, some(*a) < x, inside(SNum(T(a[0], some(*a))), lims)])
    v.c.wits.add('some')
    R, T, M, data = curves(v, n, R, T, M)
    params = v.list(n, lambda k: (SNum(amp(k)), SNum(ind(k))))
    r = v.val(v.fn(FT, 'get_fitted_data'), params, data, tuple(lims))
    v.ensures('one curve for every curve', eq(v.val(len, r), num(n)))
    k = v.index(n)
    v.require(*v.quant)
    v.reset()
    s = item(v, r, k)
    x, t = getattr_(v, s, 'values'), getattr_(v, getattr_(v, s, 'index'), 'values')
    i = v.c.index('i')
    h = And(i >= 0, i < M(k), inside(SNum(T(k, i)), lims))
    ax = t.axes[0]
    if ax.m != 1 or ax.order != 'lex':
        raise Unsupported('order of the points')
    v.ensures('the times inside the limits', And(ax.guard((i,)), bt(eq(t.at((i,)), SNum(T(k, i))))), h)
    v.ensures('no others', h, ax.guard((i,)))
    v.ensures('the law at the times', eq(x.at((i,)), SNum(amp(k) * N._POW(T(k, i), ind(k)))), h)
    v.ensures('as many values', eq(num(x.axes[0].length()), num(ax.length())))
    same_curve(v, 'the curves are not modified', item(v, data, k), k, R, T, M)


IW = 'strata.interface.view'


def bundles(v, n):
    """Interfaces with any numbers of layers, up the left side and down the right side, at any heights.  For the height of
    layer i of the first one: it occurs in interface k at where(k) if it occurs in all, and not in missing if not."""
    c = v.c
    i, miss = c.index('i'), c.index('miss')
    X = v.fun('x', 2)
    yd = z3.Function('y', z3.IntSort(), z3.IntSort(), z3.RealSort())
    Md = z3.Function('layers', z3.IntSort(), z3.IntSort())
    sides = []
    for side in (0, 1):
        first, last = (lambda k: IV(0), Md) if side == 0 else (Md, lambda k: 2 * Md(k))
        present, where = v.bool('present%d' % side).t, z3.Function('where%d' % side, z3.IntSort(), z3.IntSort())
        h = yd(IV(0), first(IV(0)) + i)
        sides.append((first, last, present, where, h))
    # heights of an interface that lacks the height
    Y = v.fun('y', 2, facts=lambda a, y: [Implies(And(Not(p), a[0] == miss, a[1] >= f(a[0]), a[1] < l(a[0])), y != h) for f, l, p, w, h in sides])
    M = v.fun('layers', 1, 'Int', facts=lambda a, m: [m >= 1] + [Implies(And(p, a[0] >= 0, a[0] < n), And(
        w(a[0]) >= f(a[0]), w(a[0]) < l(a[0]), yd(a[0], w(a[0])) == h)) for f, l, p, w, h in sides])
    c.wits |= {'where0', 'where1'}
    a, b, d = c.index('a'), c.index('b'), c.index('d')
    c.forall(Y(a, b), [a, b], (d,), lambda t: And(Implies(And(b >= 0, b < t[0], t[0] < M(a)), Y(a, b) < Y(a, t[0])),
                                                  Implies(And(b >= M(a), b < t[0], t[0] < 2 * M(a)), Y(a, b) > Y(a, t[0]))), TRUE, match='own')
    k = c.index('map')
    v.require(k >= 0, k < n, miss >= 0, miss < n, i >= 0, i < M(IV(0)))
    ax = v.axis(2 * M(k))
    l = [array((ax,), lambda cs, f=f: SNum(f(k, cs[0]), True), 'f') for f in (X, Y)]
    one = memo(lambda cs: subst(tuple(l), [(k, cs[0])]))
    return X, Y, i, sides, v.list(n, lambda q: one((q,)))


@contract('C28', IW + '.average_interfaces', 'mean of a bundle')
def c28(v):
    n = v.size('n', 1)
    X, Y, i, sides, data = bundles(v, n)
    r = v.val(v.fn(IW, 'average_interfaces'), data)
    x, y = getattr_(v, r, 'values'), getattr_(v, getattr_(v, r, 'index'), 'values')
    ax = [getattr(d.axes[0], 'parts', None) for d in (x, y)]
    if None in ax or any(a.m != 1 or a.order != 'lex' for p in ax for a in p):
        raise Unsupported('order of the heights')
    v.ensures('as many heights as positions', eq(num(x.axes[0].length()), num(y.axes[0].length())))
    v.ensures('one position for every height', all(N.same_axis(a, b) for a, b in zip(*ax)))
    n_left = ax[1][0].length()
    for side, (part, (first, last, present, where, h)) in enumerate(zip(ax[1], sides)):
        name = ('left: ', 'right: ')[side]
        p = part.pos((i,))
        p = p if side == 0 else t_add(n_left, p)
        kept = part.guard((i,))
        v.ensures(name + 'a height present in all interfaces', kept, present)
        v.ensures(name + 'no other height', Not(kept), Not(present))
        v.ensures(name + 'the heights of the side', eq(y.at((p,)), SNum(h)), kept)
        total = v.sum([n], lambda k, where=where: SNum(X(k, where(k))))
        # the sum for the height, over the interfaces
        px = ax[0][side].pos((i,))
        xi = x.at((px if side == 0 else t_add(n_left, px),))
        sums = [q for q in core.apps_in(lift(xi).t) if core.name_of(q) in v.c.sums and q.num_args() == 1
                and q.children()[0].eq(i)]
        if len(sums) != 1:
            raise Unsupported('mean of the positions found in another way')
        s = sums[0].decl()(i)
        sizes, (k,), mask, body = v.c.sums[core.name_of(s)].inst((i,))
        hyp = [present, kept, k >= 0, k < n]
        v.ensures(name + 'the mean of the positions', eq(xi, SNum(s / z3.ToReal(n))), kept)
        v.ensures(name + 'every interface counts', And(len(sizes) == 1 and bt(eq(num(sizes[0]), num(n))), mask), *hyp)
        v.ensures(name + 'the position of every interface at the height', body == X(k, where(k)), *hyp)
    j = v.c.index('j')
    a, b = ax[1]
    at = lambda part, q: y.at((part.pos((q,)) if part is a else t_add(n_left, part.pos((q,))),))
    v.ensures('left: upwards', at(a, i) < at(a, j), a.guard((i,)), a.guard((j,)), i < j)
    v.ensures('right: downwards', at(b, i) > at(b, j), b.guard((i,)), b.guard((j,)), i < j)
    k, m = v.c.index('k'), v.c.index('m')
    ix, iy = data.seq.fn((k,)) if hasattr(data, 'seq') else (None, None)
    v.ensures('the interfaces are not modified', And(bt(eq(ix.at((m,)), SNum(X(k, m)))), bt(eq(iy.at((m,)), SNum(Y(k, m))))), k >= 0, k < n)
