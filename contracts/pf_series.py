"""Deductive contracts: periodic unwrapping, interface measures, series."""
import z3
from pv.core import *
from pv.prove import contract
from pv.arrays import *

SC = 'strata.spreading.collect'


# ------------------------------------------------------------------ C17
def _edges(v, tag, B):
    """True edges L < R narrower than the box, with box-relative positions and whole box counts."""
    xl, xr = v.real('xl' + tag), v.real('xr' + tag)
    kl, kr = v.int('kl' + tag), v.int('kr' + tag)
    v.require(xl >= 0, xl < B, xr >= 0, xr < B)
    w = v.int('w' + tag)
    v.require(kr == kl + w)
    # 0 < R - L < B  with R - L = xr - xl + w B
    wb = v.real('wb' + tag)
    v.require(wb == n_mul(w, B), (xr - xl) + wb > 0, (xr - xl) + wb < B)
    # products of the integer w with the positive box (sign rule instances)
    v.require(Implies(bt(w >= 2), bt(wb >= B * 2)), Implies(bt(w <= -1), bt(wb <= -B)),
              Implies(bt(w == 1), bt(wb == B)), Implies(bt(w == 0), bt(wb == 0)))
    return xl, xr, kl, kr, w


@contract('C17', SC + '.init_periodic_info, check_and_update_periodic_info', 'first frame')
def c17_first(v):
    B = v.real('B')
    v.require(B > 0)
    xl, xr, kl, kr, w = _edges(v, '', B)
    info = v.val(v.fn(SC, 'init_periodic_info'))
    info = v.val(v.fn(SC, 'check_and_update_periodic_info'), info, B, xl, xr)
    v.ensures('counted once when left is ahead of right',
              And(bt(eq(info.pbc_multiplier_left, 0)),
                  bt(eq(info.pbc_multiplier_right, n_ite(bt(xl > xr), lift(1), lift(0))))))
    v.ensures('same whole number of boxes for both edges',
              eq(info.pbc_multiplier_left - kl, info.pbc_multiplier_right - kr))
    v.ensures('positions remembered', And(bt(eq(info.xleft_prev, xl)), bt(eq(info.xright_prev, xr))))


def eq(a, b):
    return lift(a) == lift(b)


@contract('C17', SC + '.check_and_update_periodic_info', 'step')
def c17_step(v):
    B = v.real('B')
    v.require(B > 0)
    xl0, xr0, kl0, kr0, w0 = _edges(v, '0', B)
    xl1, xr1, kl1, kr1, w1 = _edges(v, '1', B)
    K = v.int('K')
    # at most one of the edges crosses; each moves by less than a quarter of the box
    dl, dr = v.int('dl'), v.int('dr')
    v.require(kl1 == kl0 + dl, kr1 == kr0 + dr, (dl == 0) | (dr == 0))
    for d, a, b in ((dl, xl0, xl1), (dr, xr0, xr1)):
        db = v.real('db%s' % d.t)
        v.require(db == n_mul(d, B))
        v.require(Implies(bt(d >= 2), bt(db >= B * 2)), Implies(bt(d <= -2), bt(db <= B * -2)),
                  Implies(bt(d == 1), bt(db == B)), Implies(bt(d == 0), bt(db == 0)), Implies(bt(d == -1), bt(db == -B)))
        v.require((b - a) + db < B / 4, (a - b) - db < B / 4)
    info = v.fn(SC, 'PeriodicInfo')(xl0, xr0, kl0 + K, kr0 + K)
    new = v.val(v.fn(SC, 'check_and_update_periodic_info'), info, B, xl1, xr1)
    v.ensures('left differs from the true count by the same constant', eq(new.pbc_multiplier_left, kl1 + K))
    v.ensures('right differs from the true count by the same constant', eq(new.pbc_multiplier_right, kr1 + K))
    v.ensures('positions remembered', And(bt(eq(new.xleft_prev, xl1)), bt(eq(new.xright_prev, xr1))))


@contract('C17', SC + '.check_and_update_periodic_info', 'any step keeps whole boxes')
def c17_any(v):
    """For arbitrary positions the multipliers stay integers changed by at most one in total."""
    B = v.real('B')
    v.require(B > 0)
    xs = [v.real(n) for n in ('xl0', 'xr0', 'xl1', 'xr1')]
    ml, mr = v.int('ml'), v.int('mr')
    info = v.fn(SC, 'PeriodicInfo')(xs[0], xs[1], ml, mr)
    new = v.val(v.fn(SC, 'check_and_update_periodic_info'), info, B, xs[2], xs[3])
    a, b = new.pbc_multiplier_left - ml, new.pbc_multiplier_right - mr
    v.ensures('whole boxes only', lift(a).isint and lift(b).isint)
    v.ensures('at most one edge by one box', n_abs(a) + n_abs(b) <= 1)
    v.ensures('no change unless the order of the edges flips',
              Implies(bt((xs[0] > xs[1])) == bt(xs[2] > xs[3]), bt((n_abs(a) + n_abs(b)) == 0)))


@contract('C17', SC + '.add_pbc_multipliers_to_edges', 'absolute positions')
def c17_add(v):
    B, xl, xr = v.real('B'), v.real('xl'), v.real('xr')
    ml, mr = v.int('ml'), v.int('mr')
    info = v.fn(SC, 'PeriodicInfo')(v.real('p0'), v.real('p1'), ml, mr)
    l, r = v.val(v.fn(SC, 'add_pbc_multipliers_to_edges'), info, B, xl, xr)
    v.ensures('left plus its whole boxes', eq(l, xl + ml * B))
    v.ensures('right plus its whole boxes', eq(r, xr + mr * B))


# ------------------------------------------------------------------ C26
IS = 'strata.interface.sample'


@contract('C26', IS + '.calc_length', 'polyline length')
def c26_length(v):
    n = v.size('n', 1)
    xs, ys = v.arr('x', n), v.arr('y', n)
    r = v.val(v.fn(IS, 'calc_length'), xs, ys)

    def seg(i):
        dx, dy = xs.at((i + 1,)) - xs.at((i,)), ys.at((i + 1,)) - ys.at((i,))
        from pv.npmodel import n_sqrt
        return n_sqrt(dx * dx + dy * dy)
    v.ensures('sum of distances between consecutive points', eq(r, v.sum([n - 1], seg)))


@contract('C26', IS + '.get_area_of_interface', 'trapezoid area')
def c26_area(v):
    h = v.size('h', 1)
    n = t_mul(IV(2), h)
    xs = v.arr('x', n)
    ly = v.fun('ly', 1)
    # heights shared by both sides: y[k] for the left, mirrored for the right
    ys = array([v.axis(n)], lambda cs: SNum(Ite(cs[0] < h, ly(cs[0]), ly(n - 1 - cs[0])), True))
    r = v.val(v.fn(IS, 'get_area_of_interface'), xs, ys)

    def width(i):
        return xs.at((n - 1 - i,)) - xs.at((i,))

    def trap(i):
        return SNum(ly(i + 1) - ly(i)) * (width(i) + width(i + 1)) * SNum(RV('1/2'))
    v.ensures('trapezoidal integral of the width over height', eq(r, v.sum([h - 1], trap)))


@contract('C26', IS + '.get_area_of_interface', 'sides that do not share heights')
def c26_refuse(v):
    h = v.size('h', 1)
    n = t_mul(IV(2), h)
    xs, ys = v.arr('x', n), v.arr('y', n)
    k = v.index(h)
    a, b = ys.at((k,)), ys.at((n - 1 - k,))
    far = n_abs(a - b) > SNum(RV('1/100')) * (n_abs(b) + 1)
    v.require(And(*v.quant), far)
    out = v.call(v.fn(IS, 'get_area_of_interface'), xs, ys)
    v.ensures('refused', isinstance(out.exc, TypeError))
