"""Models of the Python builtins, numpy and library functions the repository calls.

These are trusted contracts on dependencies: each model states, over unbounded
symbolic arrays, what the documented function returns.  Handlers are keyed by
the identity of the called object, so a change of the called function in the
repository changes the model that applies."""
import ast
import itertools
import math
import re
import types
import inspect
import pandas as pd
from fractions import Fraction
import numpy as np
import numpy.lib.recfunctions
import z3
from .core import *
from .core import Guarded
from . import core
from .core import _mmul, _padd, _pmul
from .arrays import *
from .arrays import W
from .sums import mk_sum, count_term
from .interp import MODELS, model, Meth, Bound, IFunc, IGen, StarSeq, is_symbolic, Interp

NPDT = {'f': np.dtype('float64'), 'i': np.dtype('int64'), 'b': np.dtype('bool'), 'O': np.dtype('object')}


# ------------------------------------------------------------------ small helpers
def code_of(dt):
    """'f','i','b','O' of a dtype-like."""
    k = np.dtype(dt).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(k, 'O')


def val_code(v):
    if isinstance(v, (SBool, bool, np.bool_)):
        return 'b'
    if isinstance(v, SNum):
        return 'i' if v.isint else 'f'
    if isinstance(v, (int, np.integer)):
        return 'i'
    if isinstance(v, (float, np.floating)):
        return 'f'
    if isinstance(v, NDArr):
        return v.dtype() if not v.isrec else 'V'
    return 'O'


def as_int(t):
    return SNum(t) if not isnumeral(t) else numval(t)


def npnum(v):
    """Value as a numpy scalar."""
    if isinstance(v, SNum):
        return v if v.np else SNum(v.t, True, v.nan, v.pinf, v.ninf)
    if isinstance(v, SBool) or isinstance(v, (bool, np.bool_)):
        return v
    if isconc(v):
        l = lift(v)
        return SNum(l.t, True, l.nan, l.pinf, l.ninf)
    return v


def cast(v, dt):
    if dt == 'f':
        if isinstance(v, SBool):
            v = lift(v)
        if is_num(v):
            l = lift(v)
            return SNum(toreal(l.t), True, l.nan, l.pinf, l.ninf)
        raise_py(ValueError, 'could not convert to float')
    if dt == 'i':
        if isinstance(v, SBool):
            v = lift(v)
        if is_num(v):
            l = lift(v)
            if not l.finite:
                raise Unsupported('non-finite value stored as integer')
            return SNum(t_trunc(l.t), True)
        raise_py(ValueError, 'invalid literal for int()')
    if dt == 'b':
        if isinstance(v, (SBool, bool, np.bool_)):
            return v
        return n_cmp('!=', v, 0)
    if dt == 'o':
        return obj_of(v)
    return v


def index_term(v):
    if isinstance(v, SNum):
        if not v.isint:
            if v.t.decl().kind() == z3.Z3_OP_TO_REAL:
                return v.t.arg(0)
            raise_py(IndexError, 'only integers are valid indices')
        return v.t
    if isinstance(v, (bool, np.bool_)):
        return IV(int(v))
    if isinstance(v, (int, np.integer)):
        return IV(int(v))
    if isinstance(v, (float, np.floating)):
        raise_py(TypeError, 'indices must be integers')
    raise Unsupported('index %r' % type(v))


def int_term(v):
    """Term of a value used as a size or count (must be integral)."""
    l = lift(v)
    if l.isint:
        return l.t
    if isconc(v):
        raise_py(TypeError, "'float' object cannot be interpreted as an integer")
    raise_py(TypeError, "'float' object cannot be interpreted as an integer")


def axes_len(axes):
    t = IV(1)
    for a in axes:
        t = t_mul(t, a.length())
    return t


def reg_len(t, axis):
    c = cur()
    if not axis.simple and not isnumeral(t):
        c.len_dims[normal(t).get_id()] = (normal(t), axis)
    return t


def axis_for(n):
    """An index set of length n; re-uses the structured index set whose length n is."""
    n = n if isnumeral(n) else normal(n)
    hit = cur().len_dims.get(n.get_id())
    if hit is not None:
        return hit[1]
    return Axis((n,))


def nonneg_len(n):
    from .sums import nonneg
    return nonneg(n)


def ravel_axis(axes):
    """One axis enumerating all axes in lexicographic order (unit axes dropped).  Returns (axis, used)."""
    used = [k for k, a in enumerate(axes) if not (a.simple and isnumeral(a.sizes[0]) and numval(a.sizes[0]) == 1)]
    if not used and axes:
        used = [len(axes) - 1]
    sel = [axes[k] for k in used]
    if len(sel) == 1:
        return sel[0], used
    if any(a.order != 'lex' for a in sel):
        raise Unsupported('ravel of an index set in unknown order')
    sizes = [s for a in sel for s in a.sizes]
    mask = None
    if any(a.mask is not None for a in sel):
        def mask(cs, sel=sel):
            g, k = [], 0
            for a in sel:
                if a.mask is not None:
                    g.append(a.mask(tuple(cs[k:k + a.m])))
                k += a.m
            return And(*g)
    return Axis(sizes, mask), used


def pos_to_coords(ax, p):
    return ax.coords(p)


def view(arr, axes, colmap):
    """New view of arr: colmap[j] for arr view coordinate j is ('v', j2, off) or ('c', term)."""
    bm = []
    for e in arr.bmap:
        if e[0] == 'c':
            bm.append(e)
            continue
        f = colmap[e[1]]
        if f[0] == 'c':
            t = f[1] if e[2] is None else t_add(f[1], e[2])
            bm.append(('c', t))
        else:
            off = f[2]
            if e[2] is not None:
                off = e[2] if off is None else t_add(off, e[2])
            bm.append(('v', f[1], off))
    return NDArr(arr.buf, arr.field, axes, bm)


def frozen_copy(arr, axes, fmap):
    """Read-only rearrangement: value at cs is arr at fmap(cs)."""
    arr.buf.readonly_views = True
    if arr.isrec:
        r = record(axes, {l: (lambda cs, f=arr.reader(l): f(tuple(fmap(cs)))) for l in arr.fields()}, arr.fields(), arr.buf.dtypes)
    else:
        f = arr.reader()
        r = array(axes, lambda cs: f(tuple(fmap(cs))), arr.dtype())
    r.buf.readonly = True
    return r


def copy_arr(arr):
    if arr.isrec:
        return record(arr.axes, {l: arr.reader(l) for l in arr.fields()}, arr.fields(), arr.buf.dtypes)
    return array(arr.axes, arr.reader(), arr.dtype())


def ravel(arr):
    if arr.ndim == 1:
        return arr
    if arr.ndim == 0:
        return view(arr, [Axis((IV(1),))], {})
    ax, used = ravel_axis(arr.axes)
    cm, k, j = {}, 0, 0
    for n, a in enumerate(arr.axes):
        for q in range(a.m):
            if n in used:
                cm[k] = ('v', j, None)
                j += 1
            else:
                cm[k] = ('c', IV(0))
            k += 1
    r = view(arr, [ax], cm)
    reg_len(ax.length(), ax)
    return r


def arr_of(v):
    """Any array-like as NDArr (scalars give 0-d arrays)."""
    c = cur()
    if isinstance(v, NDArr):
        return v
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            raise Unsupported('concrete record array')
        items = v.tolist()
        return arr_of(IList(from_list(items)))if v.ndim else array((), lambda cs: npnum(items), val_code(items))
    if is_num(v) or isinstance(v, SBool):
        return array((), lambda cs: v, val_code(v))
    if v is None or isinstance(v, SObj):
        return array((), lambda cs: obj_of(v), 'o')
    if isinstance(v, IGen):
        raise Unsupported('array of a generator')
    if isinstance(v, (IList, list, tuple, Seq)):
        if isinstance(v, IList) and v.concrete or isinstance(v, (list, tuple)):
            items = list(v.items if isinstance(v, IList) else v)
            if not items:
                return array((Axis((IV(0),)),), lambda cs: SNum(RV(0), True), 'f')
            subs = [arr_of(x) for x in items]
            if any(s.isrec for s in subs):
                raise Unsupported('array of records')
            ax0 = Axis((IV(len(items)),))
            first = subs[0]
            maps = []
            for s in subs:
                if s.ndim != first.ndim:
                    raise Unsupported('ragged array')
                maps.append(None)
                for a, b in zip(first.axes, s.axes):
                    if not same_axis(a, b):
                        ua = unify_axis(a, b)
                        if ua[0] is not a:
                            raise Unsupported('ragged array')
            dt = 'f' if any(s.dtype() == 'f' for s in subs) else 'i' if any(s.dtype() == 'i' for s in subs) else subs[0].dtype()
            fns = []
            for s in subs:
                mp = [unify_axis(a, b)[2] for a, b in zip(first.axes, s.axes)]
                fns.append(mapped(s.reader(), first.axes, mp))

            def fn(cs):
                i = cs[0]
                if isnumeral(i):
                    return cast(fns[numval(i)](cs[1:]), dt)
                r = fns[-1](cs[1:])
                r = cast(r, dt)
                for k in range(len(fns) - 2, -1, -1):
                    r = merge(i == IV(k), cast(fns[k](cs[1:]), dt), r)
                return r
            return array((ax0,) + first.axes, fn, dt)
        s = as_seq(v)
        ph = s.axis.fresh('el')
        c.pc.append(s.axis.guard(ph))
        try:
            e = s.fn(ph)
            sub = arr_of(e)
        finally:
            c.pc.pop()
        if sub.isrec:
            raise Unsupported('array of records')
        ids = {p.get_id() for p in ph}
        for a in sub.axes:
            if any(i in ids for z in a.sizes for i in consts_of(z)):
                raise Unsupported('ragged array')
        m = s.axis.m
        dt = sub.dtype()
        if sub.ndim == 0:
            return array((s.axis,), lambda cs: npnum(cast(arr_of(s.fn(cs)).at(()), dt)), dt)
        return array((s.axis,) + sub.axes, lambda cs: npnum(arr_of(s.fn(tuple(cs[:m]))).at(tuple(cs[m:]))), dt)
    raise Unsupported('array from %s' % type(v).__name__)


def from_list(items):
    return [IList(from_list(x)) if isinstance(x, list) else x for x in items]


def mapped(fn, axes, maps):
    """fn over other axes, reached from axes by the coordinate maps (None = identity)."""
    if all(m is None for m in maps):
        return fn

    def g(cs):
        out, k = [], 0
        for a, m in zip(axes, maps):
            part = tuple(cs[k:k + a.m])
            out.extend(part if m is None else m(part))
            k += a.m
        return fn(tuple(out))
    return g


def is_unit(a):
    return a.mask is None and all(isnumeral(s) and numval(s) == 1 for s in a.sizes)


def unify_axis(a, b):
    """Broadcast two axes: (axis, map to a, map to b); maps None for identity."""
    c = cur()
    if a is b:
        return a, None, None
    if is_unit(a) and not is_unit(b):
        return b, (lambda cs, m=a.m: tuple(IV(0) for _ in range(m))), None
    if is_unit(b):
        return a, None, (lambda cs, m=b.m: tuple(IV(0) for _ in range(m)))
    if same_axis(a, b):
        return a, None, None
    la, lb = a.length(), b.length()
    if not c.same(la, lb):
        if not c.decide(la == lb):
            if c.decide(la == IV(1)):
                return b, (lambda cs: a.coords(IV(0))), None
            if c.decide(lb == IV(1)):
                return a, None, (lambda cs: b.coords(IV(0)))
            raise_py(ValueError, 'operands could not be broadcast together with shapes')
        if same_axis(a, b):
            return a, None, None
    if a.simple and not b.simple:
        return b, (lambda cs: (b.pos(cs),)), None
    return a, None, (lambda cs: b.coords(a.pos(cs)))


def broadcast(vals):
    """vals: scalars or NDArr -> (axes or None, [fn(cs)])."""
    arrs = [v for v in vals if isinstance(v, NDArr) and v.ndim > 0]
    if not arrs:
        return None, None
    nd = max(a.ndim for a in arrs)
    axes = None
    maps = [None] * len(vals)
    res = [None] * nd
    for v in arrs:
        off = nd - v.ndim
        for k, a in enumerate(v.axes):
            j = off + k
            res[j] = a if res[j] is None else unify_axis(res[j], a)[0]
    fns = []
    for v in vals:
        if not isinstance(v, NDArr):
            fns.append(lambda cs, v=v: v)
            continue
        f = v.reader()
        if v.ndim == 0:
            x = f(())
            fns.append(lambda cs, x=x: x)
            continue
        off = nd - v.ndim
        mp = [unify_axis(res[off + k], a)[2] for k, a in enumerate(v.axes)]
        skip = sum(res[k].m for k in range(off))
        g = mapped(f, res[off:], mp)
        fns.append(lambda cs, g=g, skip=skip: g(tuple(cs[skip:])))
    return tuple(res), fns


def arrayish(v):
    return isinstance(v, (NDArr, np.ndarray)) and not (isinstance(v, np.ndarray) and v.ndim == 0)


def ufunc(f, args, dt=None):
    """Apply f elementwise."""
    vals = [arr_of(v) if isinstance(v, (np.ndarray, IList, list, Seq)) or isinstance(v, tuple) else v for v in args]
    axes, fns = broadcast(vals)
    if axes is None:
        vals = [v.at(()) if isinstance(v, NDArr) else v for v in vals]
        return f(*vals)
    if dt is None:
        cs = []
        c = cur()
        k = [a.fresh('u') for a in axes]
        cs = tuple(x for t in k for x in t)
        c.pc.append(And(*[a.guard(t) for a, t in zip(axes, k)]))
        try:
            dt = val_code(f(*[g(cs) for g in fns]))
        finally:
            c.pc.pop()
    return array(axes, lambda cs: f(*[g(cs) for g in fns]), dt)


def elements(arr):
    """(sizes, mask fn, value fn) of all elements."""
    sizes = arr.csizes()
    mask = None
    if any(a.mask is not None for a in arr.axes):
        axes = arr.axes

        def mask(cs):
            g, k = [], 0
            for a in axes:
                if a.mask is not None:
                    g.append(a.mask(tuple(cs[k:k + a.m])))
                k += a.m
            return And(*g)
    return sizes, mask, arr.reader()


def reduce_axes(arr, axis):
    """Split axes: (kept axes, reduced axes, fn(kept coords, reduced coords))."""
    if axis is None:
        return (), arr.axes, lambda kc, rc: rc
    n = arr.ndim
    if isinstance(axis, tuple):
        red = [a % n for a in axis]
    else:
        if not isinstance(axis, (int, np.integer)):
            raise Unsupported('symbolic axis')
        if axis >= n or axis < -n:
            raise_py(np.AxisError, 'axis %d is out of bounds for array of dimension %d' % (axis, n))
        red = [int(axis) % n]
    kept = [k for k in range(n) if k not in red]

    def order(kc, rc):
        out, ik, ir = [], 0, 0
        for k, a in enumerate(arr.axes):
            if k in red:
                out.extend(rc[ir:ir + a.m])
                ir += a.m
            else:
                out.extend(kc[ik:ik + a.m])
                ik += a.m
        return tuple(out)
    return tuple(arr.axes[k] for k in kept), tuple(arr.axes[k] for k in red), order


def reduction(arr, axis, f):
    """f(red sizes, mask fn, value fn, red axes) -> scalar; applied over the reduced axes."""
    kept, red, order = reduce_axes(arr, axis)
    val = arr.reader()
    sizes = [s for a in red for s in a.sizes]

    def mask(rc):
        g, k = [], 0
        for a in red:
            if a.mask is not None:
                g.append(a.mask(tuple(rc[k:k + a.m])))
            k += a.m
        return And(*g)
    mk = mask if any(a.mask is not None for a in red) else None

    def at(kc):
        return f(sizes, mk, lambda rc: val(order(kc, rc)), red)
    if not kept:
        return at(())
    dt = 'f'
    k = [a.fresh('u') for a in kept]
    r = at(tuple(x for t in k for x in t))
    dt = val_code(r)
    return array(kept, at, dt)


def sum_of(arr, axis=None):
    if arr.dtype() == 'b':
        return reduction(arr, axis, lambda s, m, v, red: mk_sum(s, (lambda rc: And(m(rc) if m else TRUE, bt(v(rc)))), lambda rc: SNum(IV(1))))

    def f(s, m, v, red):
        r = mk_sum(s, m, v)
        return SNum(r.t, True)
    return reduction(arr, axis, f)


def mean_of(arr, axis=None):
    def f(s, m, v, red):
        n = axes_len(red)
        if arr.dtype() == 'b':
            t = mk_sum(s, (lambda rc: And(m(rc) if m else TRUE, bt(v(rc)))), lambda rc: SNum(IV(1)))
        else:
            t = mk_sum(s, m, v)
        if t.finite and not isnumeral(n) and not cur().known_nonzero(toreal(n)) and cur().valid(n > IV(0), 500):
            if m is None and len(s) == 1:       # the mean of equal values
                i = cur().index('u')
                x = normal(toreal(lift(v((i,))).t))
                if i.get_id() not in consts_of(x):
                    return SNum(x, True)
            return SNum(t_div(toreal(t.t), toreal(n)), True)
        return n_div(SNum(toreal(t.t), True), SNum(n, True))
    return reduction(arr, axis, f)


def lattice_split(t, cs):
    """t = c0 + s * ToReal(e) with c0, s free of the index constants cs and e an integer term; or None."""
    try:
        p = to_poly(t)
    except Unsupported:
        return None
    ids = {x.get_id() for x in cs}
    dep = {i for i, a in p.atoms.items() if ids & set(consts_of(a))}
    const = {m: v for m, v in p.d.items() if not any(i in dep for i, _ in m)}
    rest = {m: v for m, v in p.d.items() if m not in const}
    if not rest or not const and len(rest) == 0:
        return None
    common = None
    for m in rest:
        f = {i: e for i, e in m if i not in dep}
        common = f if common is None else {i: e for i, e in common.items() if f.get(i) == e}
    scale = None
    q, atoms = {}, {}
    for m, v in rest.items():
        r = []
        for i, e in m:
            if i in common:
                continue
            a = p.atoms[i]
            if e < 0 or not z3.is_app_of(a, z3.Z3_OP_TO_REAL):
                return None
            b = a.arg(0)
            atoms[b.get_id()] = b
            r.append((b.get_id(), e))
        q[tuple(sorted(r))] = v
    scale = min((abs(v) for v in q.values()), default=Fraction(1))
    q = {m: v / scale for m, v in q.items()}
    if any(v.denominator != 1 for v in q.values()):
        return None
    e = from_poly(core.Poly(q, atoms), True)
    if e is None:
        return None
    st = from_poly(core.Poly({tuple(sorted(common.items())): scale}, p.atoms), False)
    c0 = from_poly(core.Poly(const, p.atoms), False)
    return toreal(c0), toreal(st), e


def few(sizes, mask):
    """All coordinates of a small index set of known size, or None."""
    if mask is not None or not all(isnumeral(n) for n in sizes):
        return None
    t = 1
    for n in sizes:
        t *= numval(n)
    if not 1 <= t <= 4:
        return None
    return list(itertools.product(*[[IV(k) for k in range(numval(n))] for n in sizes]))


def extremum_few(vals, kind):
    """Extremum of a few values; of multiples of one step where they are."""
    c = cur()
    vals = [SNum(normal(v.t), v.np) for v in vals]
    sp = None
    if len(vals) > 1 and not all(v.isint for v in vals):
        ps = [to_poly(toreal(v.t)) for v in vals]
        const = {m: q for m, q in ps[0].d.items() if all(p.d.get(m) == q for p in ps[1:])}
        c0 = from_poly(core.Poly(const, ps[0].atoms), False)
        es, st0, ok = [], None, True
        for p in ps:
            rest = {m: q for m, q in p.d.items() if m not in const}
            if not rest:
                es.append(IV(0))
                continue
            # rest = step * integer
            ints = {a for a, x in p.atoms.items() if z3.is_app_of(x, z3.Z3_OP_TO_REAL)}
            steps = {tuple((a, e) for a, e in m if a not in ints) for m in rest}
            if len(steps) != 1 or any(q.denominator != 1 for q in rest.values()):
                ok = False
                break
            st = next(iter(steps))
            if not st or st0 is not None and st != st0[0]:
                ok = False
                break
            st0 = (st, p.atoms)
            q, at = {}, {}
            for m, co in rest.items():
                r = []
                for a, e in m:
                    if a in ints:
                        if e < 0:
                            ok = False
                        b = p.atoms[a].arg(0)
                        at[b.get_id()] = b
                        r.append((b.get_id(), e))
                q[tuple(sorted(r))] = co
            e = from_poly(core.Poly(q, at), True) if ok else None
            if e is None:
                ok = False
                break
            es.append(e)
        if ok and st0 is not None:
            st = from_poly(core.Poly({st0[0]: Fraction(1)}, st0[1]), False)
            pos = c.valid(st > RV(0))
            if pos or c.valid(st < RV(0)):
                k = kind if pos else {'min': 'max', 'max': 'min'}[kind]
                r = extremum_few([SNum(e) for e in es], k)
                return SNum(normal(toreal(c0) + toreal(st) * toreal(r.t)), True)
    r = vals[0]
    for v in vals[1:]:
        r = num_pick(kind, r, v)
    return SNum(r.t, True)


def extremum(sizes, mask, val, kind):
    """min/max of val over the index set (assumed non-empty)."""
    c = cur()
    pts = few(sizes, mask)
    if pts is not None:
        vals = [lift(val(p)) for p in pts]
        if all(v.finite for v in vals):
            return extremum_few(vals, kind)
    op = (lambda x, y: x <= y) if kind == 'min' else (lambda x, y: x >= y)
    cs = tuple(c.index('x') for _ in sizes)
    g = And(*[inrange(x, n) for x, n in zip(cs, sizes)], mask(cs) if mask is not None else TRUE)
    v = lift(val(cs))
    if not v.finite:
        if c.valid(Implies(g, Not(Or(v.nan, v.pinf, v.ninf)))):
            v = SNum(v.t, v.np)
        else:
            raise Unsupported('extremum of possibly non-finite values')
    # attained at a corner?
    if mask is None:
        for corner in itertools.product(*[(0, 1)] * len(sizes)):
            pt = tuple(IV(0) if k == 0 else t_sub(n, IV(1)) for k, n in zip(corner, sizes))
            w = lift(val(pt)).t
            if c.valid(Implies(g, op(w, v.t))):
                return SNum(normal(w), True)
    else:
        # values independent of the masked coordinates
        if not any(x.get_id() in consts_of(v.t) for x in cs):
            return SNum(v.t, True)
    sp = None if v.isint else lattice_split(v.t, cs)
    if sp is not None:
        c0, st, e = sp
        pos = c.valid(st > RV(0))
        if pos or c.valid(st < RV(0)):
            other = {'min': 'max', 'max': 'min'}[kind]
            r = extremum(sizes, mask, lambda t: SNum(z3.substitute(e, *list(zip(cs, t)))), kind if pos else other)
            return SNum(normal(c0 + st * toreal(r.t)), True)
    app, params, new = c.determined(kind, 'Int' if v.isint else 'Real', cs, [g, normal(v.t)])
    nm = app.decl().name()
    if new:
        I = z3.IntSort()
        ws = [z3.Function('%sw%d' % (nm, k), *([I] * len(params) + [I])) for k in range(len(cs))]
        wa = [w(*params) for w in ws]
        c.wits |= {w.name() for w in ws}
        sub = list(zip(cs, wa))
        gw, vw = (z3.substitute(g, *sub), z3.substitute(v.t, *sub)) if sub else (g, v.t)
        # attained if the index set is not empty: guarded by non-emptiness through the witness of any element
        ne = z3.Function('%sn' % nm, *([I] * len(params) + [z3.BoolSort()]))
        nea = ne(*params)
        c.define(app, params, [Implies(nea, And(gw, app == vw))], TRUE)
        c.forall(app, params, cs, lambda t: Implies(z3.substitute(g, *list(zip(cs, t))),
                                                    And(op(app, z3.substitute(v.t, *list(zip(cs, t)))), nea)), TRUE)
        c.ext_ne[nm] = ne
    nea = c.ext_ne[nm](*params)
    # the caller has established non-emptiness
    c.assume(nea)
    return SNum(app, True)


def nonempty(sizes, mask, red):
    """Decide whether the index set is non-empty."""
    c = cur()
    return c.decide(axes_len(red) > IV(0))


def extremum_of(arr, axis, kind):
    if axis is None:
        arr = value_set(arr)

    def f(s, m, v, red):
        ln = axes_len(red)
        c = cur()
        if not c.valid(ln > IV(0)):
            if axis is not None:
                raise Unsupported('extremum over a possibly empty axis')
            if not c.decide(ln > IV(0)):
                raise_py(ValueError, 'zero-size array to reduction operation %simum which has no identity' % kind)
        return extremum(s, m, v, kind)
    return reduction(arr, axis, f)


def quant(arr, kind):
    """all / any over an array of booleans."""
    c = cur()
    sizes, mask, val = elements(arr)
    if not sizes:
        return val(())
    pts = few(sizes, mask)
    if pts is not None:
        bs = [bt(x) if isinstance(x, (SBool, bool, np.bool_)) else bt(n_cmp('!=', x, 0)) for x in (val(p) for p in pts)]
        return mkbool(And(*bs) if kind == 'all' else Or(*bs))
    cs = tuple(c.index('x') for _ in sizes)
    g = And(*[inrange(x, n) for x, n in zip(cs, sizes)], mask(cs) if mask is not None else TRUE)
    v = val(cs)
    b = bt(v) if isinstance(v, (SBool, bool, np.bool_)) else bt(n_cmp('!=', v, 0))
    if kind == 'any':
        b = Not(b)
    # value of all(b)
    if z3.is_true(b) or c.valid(Implies(g, b)):
        return kind == 'all'
    app, ps, new = c.determined(kind, 'Bool', cs, [g, b])
    if new:
        all_ = app if kind == 'all' else Not(app)
        wit = tuple((z3.Function('%s_w%d' % (app.decl().name(), k), *([z3.IntSort()] * (len(ps) + 1)))(*ps) if ps
                     else z3.Int('%s_w%d' % (app.decl().name(), k))) for k in range(len(cs)))
        sub = list(zip(cs, wit))
        c.define(app, ps, [Or(all_, z3.substitute(And(g, Not(b)), *sub))], TRUE)
        c.forall(app, ps, cs, lambda t: Implies(all_, z3.substitute(Implies(g, b), *list(zip(cs, t)))), TRUE)
    return SBool(app)


# ------------------------------------------------------------------ element access
def check_index(k, n):
    """Normalise index k for length n; raises IndexError."""
    c = cur()
    if isnumeral(k):
        if numval(k) < 0:
            k = t_add(n, k)
            k = k if isnumeral(k) else k
            if not isnumeral(k) and not c.valid(k >= IV(0)):
                if not c.decide(k >= IV(0)):
                    raise_py(IndexError, 'index out of range')
            elif isnumeral(k) and numval(k) < 0:
                raise_py(IndexError, 'index out of range')
            return k
    else:
        if not c.valid(k >= IV(0)):
            if c.decide(k < IV(0)):
                k = t_add(n, k)
                if not c.decide(k >= IV(0)):
                    raise_py(IndexError, 'index out of range')
    if not c.decide(lt_t(k, n)):
        raise_py(IndexError, 'index out of range')
    return k


def clip_bound(v, n, default):
    """Slice bound -> term in [0, n]."""
    c = cur()
    if v is None:
        return default
    t = index_term(v)
    if isnumeral(t) and numval(t) < 0:
        t = t_add(n, t)
    elif not isnumeral(t) and not c.valid(t >= IV(0)):
        if c.valid(t < IV(0)):
            t = t_add(n, t)
        elif c.frames and c.decide(t < IV(0)):
            t = t_add(n, t)
    lo_ok = isnumeral(t) and numval(t) >= 0 or c.valid(t >= IV(0))
    hi_ok = t.eq(n) or (isnumeral(t) and isnumeral(n) and numval(t) <= numval(n)) or c.valid(t <= n)
    if not lo_ok:
        t = z3.If(t < IV(0), IV(0), t)
    if not hi_ok:
        t = z3.If(t > n, n, t)
    return t


def slice_len(lo, hi):
    c = cur()
    d = normal(t_sub(hi, lo)) if not (isnumeral(lo) and isnumeral(hi)) else t_sub(hi, lo)
    if isnumeral(d):
        return d if numval(d) > 0 else IV(0)
    if c.valid(d >= IV(0)):
        return d
    return z3.If(d >= IV(0), d, IV(0))


def clip_back(v, n, default):
    """Slice bound of a negative step -> term in [-1, n-1]."""
    c = cur()
    if v is None:
        return default
    t = index_term(v)
    if isnumeral(t) and numval(t) < 0 or not isnumeral(t) and not c.valid(t >= IV(0)) and c.decide(t < IV(0)):
        t = t_add(n, t)
        return t if c.valid(t >= IV(-1)) else z3.If(t < IV(-1), IV(-1), t)
    last = t_sub(n, IV(1))
    return t if c.valid(t <= last) else z3.If(t > last, last, t)


def step_slice(sl, n):
    """(length, position of the i-th element) of a slice with a constant step other than 1."""
    if not isinstance(sl.step, int):
        raise Unsupported('slice step')
    k = abs(sl.step)
    if sl.step < 0:
        lo = clip_back(sl.start, n, t_sub(n, IV(1)))
        d = slice_len(clip_back(sl.stop, n, IV(-1)), lo)
        pos = lambda i: t_sub(lo, i if k == 1 else t_mul(IV(k), i))
    else:
        lo = clip_bound(sl.start, n, IV(0))
        d = slice_len(lo, clip_bound(sl.stop, n, n))
        pos = lambda i: t_add(lo, t_mul(IV(k), i))
    return d if k == 1 else t_idiv(t_add(d, IV(k - 1)), IV(k)), pos


def slice_seq(items, sl):
    """Slice of a concrete list with possibly symbolic bounds, or of a Seq."""
    c = cur()
    if isinstance(items, list) and all(not isinstance(x, SNum) for x in (sl.start, sl.stop, sl.step)):
        return items[sl]
    s = as_seq(items)
    ax = s.axis
    n = ax.length()
    step = 1 if sl.step is None else sl.step
    fn = s.fn
    if step != 1:
        ln, pos = step_slice(sl, n)
        return Seq(Axis((ln,)), lambda cs: fn(ax.coords(pos(cs[0]))))
    lo = clip_bound(sl.start, n, IV(0))
    hi = clip_bound(sl.stop, n, n)
    ln = slice_len(lo, hi)
    if isinstance(items, list) and isnumeral(lo) and isnumeral(hi):
        return items[numval(lo):numval(hi)]
    if isnumeral(lo) and numval(lo) == 0 and ln.eq(n):
        return Seq(ax, fn)
    return Seq(Axis((ln,)), lambda cs: fn(ax.coords(t_add(cs[0], lo))))


def mklist(v):
    r = IList()
    if isinstance(v, list):
        r.items = v
    elif isnumeral(v.axis.length()) and numval(v.axis.length()) <= 64 and v.axis.simple:
        r.items = [v.fn((IV(k),)) for k in range(numval(v.axis.length()))]
    else:
        r.seq = v
    return r


def seq_item(s, k):
    k = check_index(k, s.axis.length())
    return s.fn(s.axis.coords(k))


def getitem(o, k, interp=None):
    c = cur()
    if type(o).__module__ == 'pandas_model':
        m = special(interp, o, '__getitem__') if interp is not None else None
        if m is None:
            raise Unsupported('item of a series')
        return m(k)
    if isinstance(k, IList):
        k = k if not k.concrete else k
    if isinstance(o, IGen):
        raise_py(TypeError, "'generator' object is not subscriptable")
    if isinstance(o, dict):
        if isinstance(k, (SStr, SNum)):
            raise Unsupported('symbolic dictionary key')
        try:
            return o[k]
        except KeyError as e:
            raise IExc(e)
        except TypeError as e:
            raise IExc(e)
    if isinstance(o, IList):
        if o.seq is not None:
            if isinstance(k, slice):
                return mklist(slice_seq(o.seq, k))
            if isinstance(o.seq, Pending):
                return Elem(o, check_index(index_term(k), o.seq.axis.length()), None)
            r = seq_item(o.seq, index_term(k))
            if isinstance(r, IList):
                return Elem(o, check_index(index_term(k), o.seq.axis.length()), r)
            return r
        if isinstance(k, slice):
            return mklist(slice_seq(list(o.items), k))
        return item_of_list(o.items, k)
    if isinstance(o, Seq):
        if isinstance(k, slice):
            r = slice_seq(o, k)
            r.kind = o.kind
            return r
        return seq_item(o, index_term(k))
    if type(o) in (list, tuple) or isinstance(o, tuple):
        if isinstance(k, slice):
            if any(isinstance(x, SNum) for x in (k.start, k.stop, k.step)):
                return slice_seq(list(o), k)
            return o[k]
        return item_of_list(list(o), k)
    if isinstance(o, np.ndarray):
        if is_symbolic(k) or o.dtype.names is None:
            return getitem(arr_of(o), k, interp)
    if isinstance(o, NDArr):
        return nd_getitem(o, k)
    if isinstance(o, SStr):
        raise Unsupported('subscript of a symbolic string')
    if hasattr(o, '_pv_getitem'):
        return o._pv_getitem(k)
    if is_symbolic(k):
        raise Unsupported('symbolic subscript of %s' % type(o).__name__)
    try:
        return o[k]
    except Exception as e:
        raise IExc(e)


def item_of_list(items, k):
    if isinstance(k, (float, np.floating)) or isinstance(k, (str, SStr)) or isinstance(k, tuple) or k is None:
        raise_py(TypeError, 'list indices must be integers or slices')
    t = index_term(k)
    if isnumeral(t):
        try:
            return items[numval(t)]
        except IndexError as e:
            raise IExc(e)
    t = check_index(t, IV(len(items)))
    if isnumeral(t):
        return items[numval(t)]
    # branch on the few possibilities
    c = cur()
    for j in range(len(items) - 1):
        if c.decide(t == IV(j)):
            return items[j]
    c.assume(t == IV(len(items) - 1))
    return items[-1]


def nd_getitem(o, k):
    c = cur()
    if isinstance(k, str):
        r = o.fieldview(k)
        return r.at(()) if r.ndim == 0 else r
    if isinstance(k, IList) and k.concrete and k.items and all(isinstance(x, str) for x in k.items):
        raise Unsupported('multi-field index')
    if isinstance(k, tuple) and any(isinstance(x, (NDArr, IList, np.ndarray)) for x in k):
        if len(k) == 1:
            return nd_getitem(o, k[0])
        raise Unsupported('mixed index')
    if isinstance(k, IList) and k.concrete and not k.items:
        k = array((Axis((IV(0),)),), lambda cs: SNum(IV(0), True), 'i')
    if isinstance(k, (NDArr, np.ndarray)) or isinstance(k, (IList, Seq)):
        ix = arr_of(k)
        if ix.dtype() == 'b':
            return mask_index(o, ix)
        return fancy_index(o, ix)
    key = k if isinstance(k, tuple) else (k,)
    if any(x is Ellipsis for x in key):
        j = next(n for n, x in enumerate(key) if x is Ellipsis)
        used = sum(1 for x in key if x is not Ellipsis and x is not None)
        key = key[:j] + (slice(None),) * (o.ndim - used) + key[j + 1:]
    axes, cm = [], {}
    col, newcol, ax_i = 0, 0, 0
    flipped = []
    for x in key:
        if x is None:
            axes.append(Axis((IV(1),)))
            newcol += 1
            continue
        if ax_i >= o.ndim:
            raise_py(IndexError, 'too many indices for array')
        a = o.axes[ax_i]
        ax_i += 1
        if isinstance(x, slice):
            step = 1 if x.step is None else x.step
            n = a.length()
            if x.start is None and x.stop is None and step == 1:
                for q in range(a.m):
                    cm[col + q] = ('v', newcol, None)
                    newcol += 1
                axes.append(a)
                col += a.m
                continue
            if step != 1 and len(key) == 1:
                ln, pos = step_slice(x, n)
                return frozen_copy(o, (Axis((ln,)),) + o.axes[1:], lambda cs: tuple(a.coords(pos(cs[0]))) + tuple(cs[1:]))
            if step != 1:
                raise Unsupported('slice step')
            lo = clip_bound(x.start, n, IV(0))
            hi = clip_bound(x.stop, n, n)
            ln = slice_len(lo, hi)
            if not a.simple:
                if len(key) != 1 or o.ndim != 1:
                    raise Unsupported('slice of a structured axis')
                if ln.eq(n):
                    return o
                return frozen_copy(o, (Axis((ln,)),), lambda cs: a.coords(t_add(cs[0], lo)))
            axes.append(Axis((ln,)))
            cm[col] = ('v', newcol, None if isnumeral(lo) and numval(lo) == 0 else lo)
            newcol += 1
            col += 1
            continue
        t = check_index(index_term(x), a.length())
        for q, ct in enumerate(a.coords(t)):
            cm[col + q] = ('c', ct)
        col += a.m
    while ax_i < o.ndim:
        a = o.axes[ax_i]
        for q in range(a.m):
            cm[col + q] = ('v', newcol, None)
            newcol += 1
        col += a.m
        axes.append(a)
        ax_i += 1
    r = view(o, axes, cm)
    if r.ndim == 0 and not r.isrec:
        return npnum(r.at(()))
    return r


def mask_index(o, m):
    c = cur()
    if m.ndim > o.ndim:
        raise_py(IndexError, 'too many indices for array')
    head, rest = o.axes[:m.ndim], o.axes[m.ndim:]
    mp = []
    for a, b in zip(head, m.axes):
        u = unify_axis(a, b)
        if u[0] is a:
            mp.append(u[2])
        elif u[1] is None:
            mp.append(None)
        else:
            raise_py(IndexError, 'boolean index did not match indexed array')
    mf = mapped(m.reader(), head, mp)
    if len(head) == 1:
        a = head[0]
        base = a.mask

        def mask(cs, a=a, base=base):
            return And(base(cs) if base is not None else TRUE, bt(mf(tuple(cs))))
        q = a.fresh('m')
        if z3.is_true(z3.simplify(bt(mf(q)))):
            return copy_arr(o)             # nothing is excluded
        ax = Axis(a.sizes, memo1(mask), a.order, parts=a.parts)
        ax.base = a
        iv = interval_axis(ax) if c.intervals and len(o.axes) == 1 else None
        if iv is not None:
            sh = lambda f: lambda cs: f(tuple(t_add(lo, x) for (lo, _), x in zip(iv, cs)))
            nax = (Axis(tuple(ln for _, ln in iv), None, a.order),)
            if o.isrec:
                return record(nax, {l: sh(o.reader(l)) for l in o.fields()}, o.fields(), o.buf.dtypes)
            return array(nax, sh(o.reader()), o.dtype())
        cm = {j: ('v', j, None) for j in range(o.nc())}
        axes = (ax,) + rest
    else:
        flat, used = ravel_axis(head)
        if len(used) != len(head):
            raise Unsupported('mask over unit axes')
        base = flat.mask

        def mask(cs):
            return And(base(cs) if base is not None else TRUE, bt(mf(tuple(cs))))
        ax = Axis(flat.sizes, memo1(mask), flat.order, parts=flat.parts)
        axes = (ax,) + rest
    if o.isrec:
        return record(axes, {l: o.reader(l) for l in o.fields()}, o.fields(), o.buf.dtypes)
    return array(axes, o.reader(), o.dtype())


def memo1(fn):
    return memo(fn)


def fancy_index(o, ix):
    """o[integer array] over the first axis (a copy)."""
    c = cur()
    a = o.axes[0]
    rest = o.axes[1:]
    n = a.length()
    ks = [x.fresh('f') for x in ix.axes]
    flatk = tuple(x for t in ks for x in t)
    g = And(*[x.guard(t) for x, t in zip(ix.axes, ks)])
    f = ix.reader()
    src = getattr(ix, 'positions_of', None)
    if src is None or src is not a:
        v = index_term(f(flatk))
        if not c.valid(Implies(g, And(v >= IV(0), v < n))):
            raise Unsupported('index array possibly out of range')
    m = sum(x.m for x in ix.axes)

    def cm(cs):
        if src is not None and src is a:
            return tuple(cs[:m])
        return a.coords(index_term(f(tuple(cs[:m]))))
    axes = ix.axes + rest
    if o.isrec:
        return record(axes, {l: (lambda cs, r=o.reader(l): r(tuple(cm(cs)) + tuple(cs[m:]))) for l in o.fields()}, o.fields(), o.buf.dtypes)
    r = o.reader()
    return array(axes, lambda cs: r(tuple(cm(cs)) + tuple(cs[m:])), o.dtype())


def setitem(interp, o, k, v):
    c = cur()
    if isinstance(o, dict):
        if isinstance(k, (SStr, SNum)):
            raise Unsupported('symbolic dictionary key')
        had, old = k in o, o.get(k)
        order = list(o.items())

        def undo():
            o.clear()
            o.update(order)
        c.log(undo, ('dset', o, k, v))
        o[k] = v
        return
    if isinstance(o, IList):
        t = index_term(k) if not isinstance(k, slice) else None
        if t is not None and isinstance(o.seq, ASeq) and isinstance(v, (bool, SBool, SObj)):
            setitem(interp, o.seq.arr, k, v)
            return
        if t is None or o.seq is not None:
            raise Unsupported('assignment to an element of a symbolic list')
        if not isnumeral(t):
            t = check_index(t, IV(len(o.items)))
            old = list(o.items)
            new = [merge(t == IV(j), v, x) for j, x in enumerate(old)]
        else:
            old = list(o.items)
            new = list(old)
            try:
                new[numval(t)] = v
            except IndexError as e:
                raise IExc(e)

        def undo():
            o.items = old
        c.log(undo, ('lset', o, k, v))
        o.items = new
        return
    if isinstance(o, NDArr):
        if isinstance(k, str):
            w = o.fieldview(k)
            return store(w, v)
        if isinstance(k, (NDArr, np.ndarray)) or isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], NDArr):
            ix = arr_of(k[0] if isinstance(k, tuple) else k)
            if ix.dtype() != 'b':
                raise Unsupported('assignment through an index array')
            if isinstance(v, NDArr) and v.ndim or isinstance(v, IList):
                raise Unsupported('assignment of an array through a mask')
            if o.isrec:
                raise Unsupported('mask assignment to records')
            mp = [unify_axis(a, b)[2] for a, b in zip(o.axes, ix.axes)]
            mf = mapped(ix.reader(), o.axes, mp)
            old, dt = o.reader(), o.dtype()
            x = cast(v.at(()) if isinstance(v, NDArr) else v, dt)
            o.write(lambda cs: merge(bt(mf(tuple(cs))), x, old(cs)))
            return
        if isinstance(k, IList):
            raise Unsupported('assignment through an index list')
        if isinstance(k, tuple) and any(isinstance(x, (NDArr, IList, np.ndarray)) for x in k):
            return scatter(o, k, v)
        w = nd_getitem_view(o, k)
        return store(w, v)
    if isinstance(o, np.ndarray):
        raise Unsupported('assignment to a concrete array')
    if isinstance(o, (tuple, str, SStr)) or isinstance(o, Seq) and o.kind != 'list':
        raise_py(TypeError, "object does not support item assignment")
    if hasattr(o, '_pv_setitem'):
        return o._pv_setitem(k, v)
    raise Unsupported('item assignment to %s' % type(o).__name__)


def scatter(o, k, v):
    """o[i, j] = v with index arrays: of the elements that name a cell the last one is stored there."""
    c = cur()
    ixs = [arr_of(x) for x in k] if all(isinstance(x, NDArr) for x in k) else None
    if ixs is None or len(ixs) != o.ndim or o.isrec or any(x.dtype() != 'i' or x.ndim != 1 for x in ixs) or c.loop_ix \
            or not all(a.simple for a in o.axes):
        raise Unsupported('mixed index')
    ax = ixs[0].axes[0]
    if not all(same_axis(ax, x.axes[0]) for x in ixs[1:]):
        raise Unsupported('index arrays of different extents')
    fs = [x.reader() for x in ixs]
    at = lambda t: [index_term(f(tuple(t))) for f in fs]
    e = ax.fresh('f')
    for ix, n in zip(at(e), (a.length() for a in o.axes)):
        if not c.valid(Implies(ax.guard(e), And(ix >= IV(0), ix < n))):
            raise Unsupported('index array possibly out of range')
    if isinstance(v, NDArr) and v.ndim:
        if v.ndim != 1:
            raise_py(ValueError, 'shape mismatch')
        u = unify_axis(ax, v.axes[0])
        if u[0] is not ax and u[1] is not None:
            raise Unsupported('values of another extent')
        vf = mapped(v.reader(), (ax,), [u[2]])
    else:
        x = v.at(()) if isinstance(v, NDArr) else v
        vf = lambda cs: x
    I, m, dt = z3.IntSort(), o.ndim, o.dtype()
    j = next(c.counter)
    hit = z3.Function('named!%d' % j, *([I] * m + [z3.BoolSort()]))
    ws = [z3.Function('named!%d_%d' % (j, q), *([I] * m + [I])) for q in range(ax.m)]
    c.wits |= {w.name() for w in ws}
    ps = [c.index('p') for _ in range(m)]
    wa = [w(*ps) for w in ws]
    c.define(hit(*ps), ps, [Implies(hit(*ps), And(ax.guard(wa), *[a == b for a, b in zip(at(wa), ps)]))], TRUE)

    def later(t):
        w = [f(*at(t)) for f in ws]
        r = TRUE
        for a, b in reversed(list(zip(w, t))):
            r = Or(a > b, And(a == b, r))
        return r
    if ax.order != 'lex':
        raise Unsupported('index arrays in no known order')
    c.forall(hit(*ps), ps, e, lambda t: Implies(ax.guard(t), And(hit(*at(t)), later(t))), TRUE)
    old = o.reader()
    o.write(lambda cs: merge(hit(*cs), cast(vf(tuple(w(*cs) for w in ws)), dt), old(cs)))


def nd_getitem_view(o, k):
    """Like nd_getitem but keeps 0-d views."""
    fld = o.field
    r = nd_getitem(o, k)
    if isinstance(r, NDArr):
        return r
    # scalar element: rebuild the view
    key = k if isinstance(k, tuple) else (k,)
    cm, col = {}, 0
    for x, a in zip(key, o.axes):
        t = check_index(index_term(x), a.length())
        for q, ct in enumerate(a.coords(t)):
            cm[col + q] = ('c', ct)
        col += a.m
    return view(o, (), cm)


def store(w, v):
    """Assign v (broadcast) to the view w."""
    if getattr(w.buf, 'readonly_views', False):
        raise Unsupported('write to an array with a rearranged view')
    if isinstance(v, (IList, list, Seq, np.ndarray)) or type(v) is tuple and not w.isrec:
        v = arr_of(v)
    if w.isrec:
        if isinstance(v, NDArr) and v.isrec:
            for l, l2 in zip(w.fields(), v.fields()):
                store(w.fieldview(l), v.fieldview(l2))
            return
        if isinstance(v, tuple):
            for l, x in zip(w.fields(), v):
                store(w.fieldview(l), x)
            return
        raise Unsupported('assignment to records')
    dt = w.dtype()
    if isinstance(v, NDArr) and v.ndim > 0:
        if v.isrec:
            raise Unsupported('assignment of records to a field')
        f = v.reader()
        if v.ndim > w.ndim:
            if not all(is_unit(a) for a in v.axes[:v.ndim - w.ndim]):
                raise_py(ValueError, 'could not broadcast input array')
            drop = sum(a.m for a in v.axes[:v.ndim - w.ndim])
            f0 = f
            f = lambda cs: f0((IV(0),) * drop + tuple(cs))
            vaxes = v.axes[v.ndim - w.ndim:]
        else:
            vaxes = v.axes
        off = w.ndim - len(vaxes)
        mp = []
        for a, b in zip(w.axes[off:], vaxes):
            u = unify_axis(a, b)
            if u[0] is not a and u[1] is not None:
                # target has the simpler structure: address the source by position
                if cur().same(a.length(), b.length()):
                    mp.append(lambda cs, a=a, b=b: b.coords(a.pos(cs)))
                    continue
                raise_py(ValueError, 'could not broadcast input array')
            mp.append(u[2])
        skip = sum(a.m for a in w.axes[:off])
        g = mapped(f, w.axes[off:], mp)
        w.write(memo(lambda cs: cast(g(tuple(cs[skip:])), dt)))
        return
    x = v.at(()) if isinstance(v, NDArr) else v
    x = cast(x, dt)
    w.write(lambda cs: x)


# ------------------------------------------------------------------ operators
_NUM = {ast.Add: n_add, ast.Sub: n_sub, ast.Mult: n_mul, ast.Div: n_div, ast.FloorDiv: n_floordiv, ast.Mod: n_mod,
        ast.Pow: lambda a, b: n_power(a, b)}
_PY = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
       ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b,
       ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b}

_POW = z3.Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())


def n_power(a, b):
    if isinstance(b, SNum) and b.finite and isnumeral(b.t):
        b = Fraction(numval(b.t))
        b = int(b) if b.denominator == 1 else float(b)
    if isconc(b) and float(b) == int(b) and 0 <= int(b) <= 4:
        return n_pow(a, int(b))
    if isconc(b) and float(b) == 0.5:
        return n_sqrt(a)
    a, b = lift(a), lift(b)
    if a.finite and b.finite:
        return SNum(_POW(toreal(a.t), toreal(b.t)), a.np or b.np)
    raise Unsupported('power')


DUNDER = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__', ast.FloorDiv: '__floordiv__',
          ast.Mod: '__mod__', ast.Pow: '__pow__', ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.Gt: '__gt__', ast.GtE: '__ge__',
          ast.Lt: '__lt__', ast.LtE: '__le__', ast.Eq: '__eq__', ast.NotEq: '__ne__'}
MIRROR = {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def special(I, o, name):
    """Special method of an object of the pandas model."""
    if type(o).__module__ == 'pandas_model':
        f = inspect.getattr_static(type(o), name, None)
        if isinstance(f, types.FunctionType):
            return lambda *args: I.call_real(f, [o] + list(args), {})
    return None


def operate(I, op, a, b):
    """Operator with an object of the pandas model: NotImplemented if there is none."""
    if type(a).__module__ != 'pandas_model' and type(b).__module__ != 'pandas_model':
        return NotImplemented
    if type(a).__module__ == 'pandas_model' and type(b).__module__ == 'pandas_model':
        raise Unsupported('alignment of labels')
    if type(a).__module__ == 'pandas_model':
        m = special(I, a, DUNDER.get(op, ''))
        if m is not None:
            return m(b)
    elif op in MIRROR:
        m = special(I, b, DUNDER[MIRROR[op]])
        if m is not None:
            return m(a)
    else:
        m = special(I, b, DUNDER.get(op, '').replace('__', '__r', 1))
        if m is not None:
            return m(a)
    raise Unsupported('operator on a series')


def binop(interp, op, a, b):
    r = operate(interp, op, a, b)
    if r is not NotImplemented:
        return r
    if isinstance(a, (str, SStr)) and op is ast.Mod:
        return percent(interp, a, b)
    if isinstance(a, SStr) or isinstance(b, SStr):
        if op is ast.Add and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return SStr([a, b])
        if op is ast.Add:
            raise_py(TypeError, 'can only concatenate str')
        raise Unsupported('string operator')
    if hasattr(a, '_pv_binop'):
        return a._pv_binop(interp, op, a, b)
    if hasattr(b, '_pv_binop'):
        return b._pv_binop(interp, op, a, b)
    if isinstance(a, (IList, Seq)) or isinstance(b, (IList, Seq)):
        if isinstance(a, (NDArr, np.ndarray)) or isinstance(b, (NDArr, np.ndarray)):
            return arith(op, a, b)
        if (isinstance(a, SNum) and a.np or isinstance(b, SNum) and b.np or isinstance(a, (np.floating, np.integer)) or
                isinstance(b, (np.floating, np.integer))) and op is not ast.Mult:
            return arith(op, a, b)
        return list_op(op, a, b)
    if type(a) is tuple and type(b) is tuple and op is ast.Add:
        return a + b
    if arrayish(a) or arrayish(b) or isinstance(a, NDArr) or isinstance(b, NDArr):
        if not is_symbolic(a) and not is_symbolic(b):
            with np.errstate(all='ignore'):
                try:
                    return _PY[op](a, b)
                except Exception as e:
                    raise IExc(e)
        return arith(op, a, b)
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
            return bool_op(op, a, b)
    sa, sb = is_symbolic(a), is_symbolic(b)
    if not sa and not sb:
        try:
            with np.errstate(all='ignore'):
                return _PY[op](a, b)
        except Exception as e:
            raise IExc(e)
    if isinstance(a, (SNum, SBool)) and (is_num(b) or isinstance(b, SBool)) or isinstance(b, (SNum, SBool)) and is_num(a):
        if op in _NUM:
            return _NUM[op](a if not isinstance(a, SBool) else lift(a), b if not isinstance(b, SBool) else lift(b))
        raise Unsupported('operator')
    if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
        other = b if isinstance(a, (SNum, SBool)) else a
        if other is None or isinstance(other, (str, dict, tuple)):
            raise_py(TypeError, 'unsupported operand type(s)')
    raise Unsupported('operator on %s and %s' % (type(a).__name__, type(b).__name__))


def bool_op(op, a, b):
    x, y = bt(a), bt(b)
    if op is ast.BitAnd:
        return mkbool(And(x, y))
    if op is ast.BitOr:
        return mkbool(Or(x, y))
    return mkbool(z3.Xor(x, y))


def arith(op, a, b):
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        return ufunc(lambda x, y: bool_op(op, x, y), [a, b], 'b')
    f = _NUM.get(op)
    if f is None:
        raise Unsupported('array operator')
    if isinstance(a, NDArr) and a.isrec or isinstance(b, NDArr) and b.isrec:
        raise_py(TypeError, 'unsupported operand type(s) for records')
    if a is None or b is None:
        raise_py(TypeError, 'unsupported operand type(s)')

    def g(x, y):
        return npnum(f(npnum(lift(x)), npnum(lift(y))))
    return ufunc(g, [a, b])


def list_op(op, a, b):
    if op is ast.Add:
        if not isinstance(a, (IList, Seq)) or not isinstance(b, (IList, Seq)):
            raise_py(TypeError, 'can only concatenate list to list')
        x = a if isinstance(a, Seq) else (a.seq if a.seq is not None else list(a.items))
        y = b if isinstance(b, Seq) else (b.seq if b.seq is not None else list(b.items))
        r = seq_concat(x, y)
        return mklist(r)
    if op is ast.Mult:
        l, n = (a, b) if isinstance(a, (IList, Seq)) else (b, a)
        if isinstance(n, (int, np.integer)):
            if isinstance(l, IList) and l.concrete:
                return IList(list(l.items) * int(n))
            s = as_seq(l)
            r = IList()
            if int(n) == 1:
                r.seq = s
                return r
            ln = s.axis.length()
            fn, ax = s.fn, s.axis
            r.seq = Seq(Axis((t_mul(IV(int(n)), ln),)), lambda cs: fn(ax.coords(t_imod(cs[0], ln))))
            return r
        if isinstance(n, SNum) and isinstance(l, IList) and l.concrete and len(l.items) == 1:
            x = l.items[0]
            r = IList()
            ax = Axis((nonneg_len(int_term(n)),))
            r.seq = ASeq(array((ax,), lambda cs: SBool(bt(x)), 'b')) if isinstance(x, (bool, SBool)) else ASeq(array((ax,), lambda cs: x, 'o')) if isinstance(x, SObj) else Seq(ax, lambda cs: x)
            return r
    raise Unsupported('list operator')


def unary(interp, op, v):
    if op is ast.USub:
        if isinstance(v, NDArr):
            return ufunc(lambda x: npnum(n_neg(x)), [v])
        if isinstance(v, SNum):
            return n_neg(v)
        try:
            return -v
        except Exception as e:
            raise IExc(e)
    if op is ast.UAdd:
        return v
    if op is ast.Invert:
        if isinstance(v, NDArr):
            return ufunc(lambda x: mkbool(Not(bt(x))), [v], 'b')
        if isinstance(v, SBool):
            return mkbool(Not(v.t))
        return ~v
    raise Unsupported('unary operator')


_OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def compare(interp, op, a, b):
    c = cur()
    if op in (ast.Is, ast.IsNot) and (isinstance(a, SObj) and b is None or isinstance(b, SObj) and a is None):
        op = ast.Eq if op is ast.Is else ast.NotEq
    if op is ast.Is:
        return is_same(a, b)
    if op is ast.IsNot:
        return not is_same(a, b)
    if op in (ast.In, ast.NotIn):
        r = contains(interp, a, b)
        if op is ast.NotIn:
            return mkbool(Not(bt(r))) if isinstance(r, SBool) else not r
        return r
    r = operate(interp, op, a, b)
    if r is not NotImplemented:
        return r
    o = _OPS[op]
    if isinstance(a, (NDArr, np.ndarray)) or isinstance(b, (NDArr, np.ndarray)):
        if isinstance(a, NDArr) and a.isrec or isinstance(b, NDArr) and b.isrec:
            return rec_compare(o, a, b)
        if not is_symbolic(a) and not is_symbolic(b):
            from .core import _CMP
            return _CMP[o](a, b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if o in ('==', '!='):
                x = a if isinstance(a, NDArr) else b
                r = o == '!='
                return array(x.axes, lambda cs: r, 'b') if x.ndim else r
            raise_py(TypeError, "'%s' not supported" % o)
        return ufunc(lambda x, y: n_cmp(o, x, y), [a, b], 'b')
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        if o == '==':
            return str_eq(a, b)
        if o == '!=':
            r = str_eq(a, b)
            return mkbool(Not(bt(r)))
        if isinstance(a, str) and isinstance(b, str):
            from .core import _CMP
            return _CMP[o](a, b)
        raise Unsupported('order of symbolic strings')
    if isinstance(a, SObj) or isinstance(b, SObj):
        if o not in ('==', '!='):
            raise_py(TypeError, "'%s' not supported" % o)
        r = obj_of(a).t == obj_of(b).t
        return mkbool(r if o == '==' else Not(r))
    if isinstance(a, (SNum, SBool)) or isinstance(b, (SNum, SBool)):
        if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)) and o in ('==', '!='):
            r = bt(a) == bt(b) if o == '==' else bt(a) != bt(b)
            if isinstance(b, (bool, np.bool_)):
                r = bt(a) if bool(b) == (o == '==') else Not(bt(a))
            elif isinstance(a, (bool, np.bool_)):
                r = bt(b) if bool(a) == (o == '==') else Not(bt(b))
            return mkbool(r)
        other = b if isinstance(a, (SNum, SBool)) else a
        if isinstance(other, (IList, Seq, dict, set)) and o in ('==', '!='):
            return o == '!='
        return n_cmp(o, a, b)
    seqs = (IList, Seq, list)
    if isinstance(a, seqs) and isinstance(b, seqs):
        if o in ('==', '!='):
            r = seq_equal(interp, a, b)
            return r if o == '==' else mkbool(Not(bt(r)))
        raise Unsupported('order of lists')
    if type(a) is tuple and type(b) is tuple and (is_symbolic(a) or is_symbolic(b)):
        if o in ('==', '!='):
            if len(a) != len(b):
                return o == '!='
            r = And(*[bt(compare(interp, ast.Eq, x, y)) for x, y in zip(a, b)])
            return mkbool(r if o == '==' else Not(r))
        raise Unsupported('order of tuples')
    if (isinstance(a, seqs) != isinstance(b, seqs)) and o in ('==', '!='):
        return o == '!='
    if isinstance(a, dict) and isinstance(b, dict) and o in ('==', '!='):
        if set(a) != set(b):
            return o == '!='
        r = And(*[bt(compare(interp, ast.Eq, a[k], b[k])) for k in a])
        return mkbool(r if o == '==' else Not(r))
    from .core import _CMP
    if is_symbolic(a) or is_symbolic(b):
        if o in ('==', '!='):
            if a is None or b is None or type(a) is not type(b):
                return o == '!='
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    try:
        return _CMP[o](a, b)
    except Exception as e:
        raise IExc(e)


def rec_compare(o, a, b):
    if o not in ('==', '!='):
        raise Unsupported('order of records')
    if not (isinstance(a, NDArr) and a.isrec and isinstance(b, NDArr) and b.isrec and set(a.fields()) == set(b.fields())):
        raise Unsupported('comparison of records')
    r = None
    for l in a.fields():
        x, y = a.fieldview(l), b.fieldview(l)
        x = x.at(()) if x.ndim == 0 else x
        y = y.at(()) if y.ndim == 0 else y
        e = ufunc(lambda p, q: n_cmp('==', p, q), [x, y])
        r = e if r is None else ufunc(lambda p, q: mkbool(And(bt(p), bt(q))), [r, e])
    if o == '!=':
        r = ufunc(lambda p: mkbool(Not(bt(p))), [r])
    elif isinstance(r, NDArr) and r.ndim == 1 and 0 in (a.ndim, b.ndim):
        r.point = True        # the records equal to one record: perhaps a single one
    return r


def single_point(ax, mask):
    """The coordinates of the only member of the index set ax that passes mask, if that can be proved."""
    c = cur()
    cs = ax.fresh('p')
    g = And(ax.guard(cs), mask(cs))
    ids = {x.get_id(): k for k, x in enumerate(cs)}
    positions = {}
    for _, pos, cos in c.axis_syms.values():
        if len(cos) == 1:
            positions[cos[0](IV(0)).decl().name()] = pos

    def solve(p, q, t):
        # p == q for one of the coordinates
        for i, k in ids.items():
            if i not in consts_of(p):
                continue
            d = normal(t_sub(p, cs[k]))
            if not set(consts_of(d)) & set(ids):
                t[k] = normal(t_sub(q, d))
            elif z3.is_app(p) and p.num_args() and name_of(p) in positions:
                solve(p.arg(p.num_args() - 1), positions[name_of(p)](q), t)
    tried = set()
    for e in conjuncts(g):
        if not z3.is_eq(e):
            continue
        for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if not (z3.is_app(x) and z3.is_app(y) and y.num_args()) or set(consts_of(y)) & set(ids):
                continue
            for w in apps_in(x):
                if not w.decl().eq(y.decl()) or not set(consts_of(w)) & set(ids):
                    continue
                t = {}
                for p, q in zip(w.children(), y.children()):
                    solve(p, q, t)
                if len(t) < len(cs):
                    continue
                t = tuple(t[k] for k in range(len(cs)))
                if t in tried:
                    continue
                tried.add(t)
                if c.valid(z3.substitute(g, *list(zip(cs, t)))) and c.valid(Implies(g, And(*[x == y for x, y in zip(cs, t)]))):
                    return t
    return None


def seq_equal(interp, a, b):
    c = cur()
    la, lb = seq_len(a), seq_len(b)
    if isnumeral(la) and isnumeral(lb):
        if numval(la) != numval(lb):
            return False
        x, y = as_seq(a), as_seq(b)
        return mkbool(And(*[bt(compare(interp, ast.Eq, x.fn(x.axis.coords(IV(k))), y.fn(y.axis.coords(IV(k))))) for k in range(numval(la))]))
    for l in (la, lb):
        if isnumeral(l) and numval(l) == 0:
            return mkbool(la == lb)
    raise Unsupported('equality of symbolic lists')


def seq_len(v):
    if isinstance(v, IList):
        return IV(len(v.items)) if v.seq is None else v.seq.axis.length()
    if isinstance(v, Seq):
        return v.axis.length()
    return IV(len(v))


def is_same(a, b):
    if a is b:
        return True
    if isinstance(a, (SNum, SBool, NDArr, IList, Seq, SStr)) or isinstance(b, (SNum, SBool, NDArr, IList, Seq, SStr)):
        if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
            raise Unsupported('identity of a symbolic bool')
        return False
    return a is b


def contains(interp, x, coll):
    if isinstance(coll, dict) and not isinstance(x, (SNum, SStr)):
        return x in coll
    if isinstance(coll, (str, SStr)):
        if isinstance(coll, str) and isinstance(x, str):
            return x in coll
        raise Unsupported('substring test on a symbolic string')
    if isinstance(coll, (set, frozenset)) and not is_symbolic(x):
        return x in coll
    it = iter_of(interp, coll)
    if it[0] == 'conc':
        acc = []
        for y in it[1]:
            if x is y:
                return True
            r = compare(interp, ast.Eq, x, y)
            if isinstance(r, (NDArr, np.ndarray)):
                if isinstance(r, NDArr):
                    raise_py(ValueError, 'The truth value of an array with more than one element is ambiguous')
                r = bool(r)
            if r is True:
                return True
            if r is not False:
                acc.append(bt(r))
        return mkbool(Or(*acc))
    c = cur()
    ax, fn = it[1], it[2]
    return quant(array((ax,), lambda cs: compare(interp, ast.Eq, x, fn(cs)), 'b'), 'any')


def inplace(interp, op, old, v):
    if old.isrec:
        raise_py(TypeError, 'ufunc did not contain a loop for records')
    if v is None or isinstance(v, str):
        raise_py(TypeError, 'unsupported operand type(s)')
    r = arith(op, old, v)
    if isinstance(r, NDArr) and r.ndim > old.ndim:
        raise_py(ValueError, 'non-broadcastable output operand')
    if isinstance(r, NDArr) and old.dtype() == 'i' and r.dtype() == 'f':
        raise_py(np.core._exceptions._UFuncOutputCastingError, np.add, 'same_kind', np.dtype('f8'), np.dtype('i8'), 0) if False else \
            raise_py(TypeError, 'Cannot cast ufunc output from float64 to int64')
    # broadcasting must not enlarge the target
    store(old, r)
    return old


# ------------------------------------------------------------------ iteration
def seqof(axis, fn, kind='list'):
    return Seq(axis, fn, kind)


def iter_of(interp, v):
    if isinstance(v, IList):
        return ('conc', list(v.items)) if v.seq is None else ('sym', v.seq.axis, v.seq.fn)
    if isinstance(v, Seq):
        if v.kind == 'inf':
            return ('sym', v.axis, v.fn, True)
        return ('sym', v.axis, v.fn)
    if isinstance(v, IGen):
        l = v.force()
        cu = v.cursor
        if l.seq is None:
            if isinstance(cu, SNum):
                raise Unsupported('symbolic position in a generator')
            r = list(l.items)[cu:]
            advance_to_end(v, l)
            return ('conc', r)
        s = l.seq
        if isinstance(cu, int) and cu == 0:
            r = ('sym', s.axis, s.fn)
        else:
            t = numt(cu)
            ax = s.axis
            n = ax.length()
            fn = s.fn
            r = ('sym', Axis((t_sub(n, t),)), lambda cs: fn(ax.coords(t_add(cs[0], t))))
        if not v.infinite:
            advance_to_end(v, l)
        return r + (True,) if v.infinite else r
    if isinstance(v, NDArr):
        if v.ndim == 0:
            raise_py(TypeError, 'iteration over a 0-d array')
        a = v.axes[0]

        def el(cs, v=v, a=a):
            cm = {q: ('c', cs[q]) for q in range(a.m)}
            for j in range(a.m, v.nc()):
                cm[j] = ('v', j - a.m, None)
            r = view(v, v.axes[1:], cm)
            return npnum(r.at(())) if r.ndim == 0 and not r.isrec else r
        return ('sym', a, el)
    if isinstance(v, (tuple, list, set, frozenset, dict, str, range)) or isinstance(v, (type({}.keys()), type({}.items()), type({}.values()))):
        if isinstance(v, (set, frozenset)):
            try:
                return ('conc', sorted(v))
            except TypeError:
                return ('conc', list(v))
        return ('conc', list(v))
    if isinstance(v, np.ndarray):
        return ('conc', list(v))
    if v is None or isinstance(v, (SNum, SBool)) or is_num(v):
        raise_py(TypeError, "object is not iterable")
    if isinstance(v, SStr):
        raise Unsupported('iteration over a symbolic string')
    if hasattr(v, '_pv_items'):
        return v._pv_items(interp)
    if isinstance(v, types.GeneratorType) or hasattr(v, '__iter__'):
        return ('conc', list(v))
    raise_py(TypeError, "'%s' object is not iterable" % type(v).__name__)


def advance_to_end(g, l):
    old = g.cursor
    new = len(l.items) if l.seq is None else SNum(l.seq.axis.length())

    def undo():
        g.cursor = old
    cur().log(undo, ('cursorset', g, new))
    g.cursor = new


def tolist(it):
    r = IList()
    if it[0] == 'conc':
        r.items = list(it[1])
    else:
        if len(it) > 3 and it[3]:
            raise Unsupported('list of an infinite generator')
        r = mklist(Seq(it[1], it[2]))
    return r


def lenval(t):
    return numval(t) if isnumeral(t) else SNum(t)


@model(len)
def m_len(I, args, kw):
    v = args[0]
    if isinstance(v, (IList, Seq)):
        t = seq_len(v)
        if isinstance(v, Seq):
            reg_len(t, v.axis)
        elif v.seq is not None:
            reg_len(t, v.seq.axis)
        return lenval(t)
    if isinstance(v, NDArr):
        if v.ndim == 0:
            raise_py(TypeError, 'len() of unsized object')
        return lenval(reg_len(v.axes[0].length(), v.axes[0]))
    if isinstance(v, (IGen, SNum)):
        raise_py(TypeError, 'object has no len()')
    if isinstance(v, SStr):
        raise Unsupported('length of a symbolic string')
    if hasattr(v, '_pv_len'):
        return v._pv_len()
    m = special(I, v, '__len__')
    if m is not None:
        return m()
    try:
        return len(v)
    except Exception as e:
        raise IExc(e)


@model(range)
def m_range(I, args, kw):
    if all(isinstance(a, (int, np.integer)) for a in args):
        return range(*args)
    for a in args:
        if not is_num(a) or not lift(a).isint:
            raise_py(TypeError, "object cannot be interpreted as an integer")
    if len(args) == 1:
        lo, hi, st = IV(0), numt(args[0]), 1
    else:
        lo, hi = numt(args[0]), numt(args[1])
        st = args[2] if len(args) > 2 else 1
    c = cur()
    if isconc(st) and int(st) == 1:
        n = slice_len(lo, hi)
        return Seq(Axis((n,)), lambda cs: as_int(t_add(cs[0], lo) if not isnumeral(lo) or numval(lo) else cs[0]), 'range')
    if isconc(st) and int(st) == -1:
        n = slice_len(hi, lo)
        return Seq(Axis((n,)), lambda cs: as_int(t_sub(lo, cs[0])), 'range')
    stt = numt(st)
    if c.valid(stt > IV(0)):
        num = normal(t_sub(t_add(hi, stt), t_add(lo, IV(1))))
        n = nonneg_len(t_idiv(num, stt))
        return Seq(Axis((n,)), lambda cs: as_int(t_add(lo, t_mul(cs[0], stt))), 'range')
    raise Unsupported('range step')


@model(enumerate)
def m_enumerate(I, args, kw):
    start = kw.get('start', args[1] if len(args) > 1 else 0)
    it = iter_of(I, args[0])
    if it[0] == 'conc':
        return [(n_add(start, k) if isinstance(start, SNum) else start + k, x) for k, x in enumerate(it[1])]
    ax, fn = it[1], it[2]
    r = Seq(ax, lambda cs: (simple_add(SNum(ax.pos(cs)), start), fn(cs)), 'iter')
    if len(it) > 3 and it[3]:
        r.kind = 'inf'
    return r


def simple_add(a, k):
    return a if isconc(k) and k == 0 else n_add(a, k)


@model(zip)
def m_zip(I, args, kw):
    its = [iter_of(I, a) for a in args]
    if not its:
        return []
    if all(i[0] == 'conc' for i in its):
        return list(zip(*[i[1] for i in its]))
    c = cur()
    fin = [i for i in its if not (len(i) > 3 and i[3])]
    if not fin:
        raise Unsupported('zip of infinite sequences')
    lens = [IV(len(i[1])) if i[0] == 'conc' else i[1].length() for i in fin]
    conc = [len(i[1]) for i in fin if i[0] == 'conc']
    base = None
    syms = [i for i in fin if i[0] == 'sym']
    if all(c.same(l, lens[0]) for l in lens[1:]):
        if conc:
            base = Axis((IV(conc[0]),))
        else:
            structured = [i[1] for i in syms if not i[1].simple]
            base = structured[0] if structured else syms[0][1]
    else:
        m = lens[0]
        for l in lens[1:]:
            if c.valid(m <= l):
                continue
            if c.valid(l <= m):
                m = l
            else:
                m = z3.If(m <= l, m, l)
        base = Axis((m,))
    if isnumeral(base.length()) and base.simple:
        k = numval(base.length())
        out = []
        for j in range(k):
            out.append(tuple(i[1][j] if i[0] == 'conc' else i[2](i[1].coords(IV(j))) for i in its))
        return out
    fns = []
    for i in its:
        if i[0] == 'conc':
            s = as_seq(i[1])
            fns.append(lambda cs, s=s: s.fn((base.pos(cs),)))
        elif i[1] is base or same_axis(i[1], base):
            fns.append(i[2])
        else:
            fns.append(lambda cs, a=i[1], f=i[2]: f(a.coords(base.pos(cs))))
    return Seq(base, lambda cs: tuple(f(cs) for f in fns), 'iter')


@model(list)
def m_list(I, args, kw):
    if not args:
        return IList()
    return tolist(iter_of(I, args[0]))


@model(tuple)
def m_tuple(I, args, kw):
    if not args:
        return ()
    it = iter_of(I, args[0])
    if it[0] == 'conc':
        return tuple(it[1])
    l = it[1].length()
    if isnumeral(l):
        return tuple(it[2](it[1].coords(IV(k))) for k in range(numval(l)))
    return Seq(it[1], it[2], 'tuple')


class ISet(set):
    """A set of concrete elements; changes and reads are recorded."""
    __slots__ = ('born',)

    def __init__(self, *a):
        super().__init__(*a)
        self.born = stamp()

    __hash__ = object.__hash__

    def read(self):
        cur().log(lambda: None, ('sread', self))

    def __len__(self):
        self.read()
        return set.__len__(self)

    def __bool__(self):
        return len(self) > 0

    def __contains__(self, x):
        self.read()
        return set.__contains__(self, x)

    def __iter__(self):
        self.read()
        return set.__iter__(self)


def s_add(I, o, a, k):
    if is_symbolic(a[0]):
        raise Unsupported('symbolic element of a set')
    had = set.__contains__(o, a[0])

    def undo():
        if not had:
            set.discard(o, a[0])
    set.add(o, a[0])
    cur().log(undo, ('sadd', o, a[0]))


def s_pop(I, o, a, k):
    n = len(o)
    if n == 0:
        raise_py(KeyError, 'pop from an empty set')
    if n > 1:
        raise Unsupported('an arbitrary element of a set')
    x = set.pop(o)
    cur().log(lambda: set.add(o, x), ('schange', o))
    return x


SET_METHODS = {'add': s_add, 'pop': s_pop}


@model(set)
def m_set(I, args, kw):
    if not args:
        return ISet()
    it = iter_of(I, args[0])
    if it[0] != 'conc' or any(is_symbolic(x) for x in it[1]):
        raise Unsupported('set of symbolic values')
    try:
        return ISet(it[1])
    except TypeError as e:
        raise IExc(e)


@model(dict)
def m_dict(I, args, kw):
    d = {}
    if args:
        if isinstance(args[0], dict):
            d.update(args[0])
        else:
            it = iter_of(I, args[0])
            if it[0] != 'conc':
                raise Unsupported('dict of a symbolic sequence')
            for x in it[1]:
                k, v = I.unpack(x, 2)
                d[k] = v
    d.update(kw)
    I.born(d)
    return d


@model(reversed)
def m_reversed(I, args, kw):
    it = iter_of(I, args[0])
    if it[0] == 'conc':
        return list(reversed(it[1]))
    ax, fn = it[1], it[2]
    n = ax.length()
    return Seq(Axis((n,)), lambda cs: fn(ax.coords(t_sub(t_sub(n, IV(1)), cs[0]))), 'iter')


@model(sorted)
def m_sorted(I, args, kw):
    it = iter_of(I, args[0])
    if it[0] == 'conc' and not any(is_symbolic(x) for x in it[1]) and 'key' not in kw:
        try:
            return IList(sorted(it[1], **kw))
        except Exception as e:
            raise IExc(e)
    raise Unsupported('sorted')


@model(slice)
def m_slice(I, args, kw):
    return slice(*args)


@model(iter)
def m_iter(I, args, kw):
    if isinstance(args[0], IGen):
        return args[0]
    g = IGen(None)
    g.list = tolist(iter_of(I, args[0]))
    return g


@model(next)
def m_next(I, args, kw):
    g = args[0]
    if not isinstance(g, IGen):
        if isinstance(g, (Seq, list)):
            raise Unsupported('next of a native iterator')
        return I.native(next, args, kw)
    l = g.force()
    c = cur()
    k = g.cursor
    old = k

    def undo():
        g.cursor = old
    if l.seq is None:
        if isinstance(k, SNum):
            t = normal(k.t)
            if not isnumeral(t):
                if not c.decide(t < IV(len(l.items))):
                    if len(args) > 1:
                        return args[1]
                    raise_py(StopIteration)
                c.log(undo, ('cursor', g))
                g.cursor = n_add(SNum(t), 1)
                return item_of_list(l.items, SNum(t))
            k = numval(t)
        if k >= len(l.items):
            if len(args) > 1:
                return args[1]
            raise_py(StopIteration)
        c.log(undo, ('cursor', g))
        g.cursor = k + 1
        return l.items[k]
    s = l.seq
    t = numt(k)
    if not g.infinite:
        if not c.decide(t < s.axis.length()):
            if len(args) > 1:
                return args[1]
            raise_py(StopIteration)
    c.log(undo, ('cursor', g))
    g.cursor = as_int(normal(t_add(t, IV(1))))
    return s.fn(s.axis.coords(t))


def extremum_seq(I, items, kind):
    r = items[0]
    for x in items[1:]:
        r = num_pick(kind, r, x)
    return r


def num_pick(kind, r, x):
    if isconc(r) and isconc(x):
        return min(r, x) if kind == 'min' else max(r, x)
    t = n_cmp('<' if kind == 'min' else '>', x, r)
    if isinstance(t, bool):
        return x if t else r
    c = cur()
    if c.valid(t.t):
        return x
    if c.valid(Not(t.t)):
        return r
    u = n_cmp('<=' if kind == 'min' else '>=', x, r)
    if isinstance(u, SBool) and c.valid(u.t):      # then the larger (smaller) one or an equal value
        return x
    return n_ite(t.t, x, r)


def _minmax(kind):
    def h(I, args, kw):
        if len(args) == 1:
            it = iter_of(I, args[0])
            if it[0] == 'conc':
                items = it[1]
            else:
                ln = it[1].length()
                c = cur()
                if not c.decide(ln > IV(0)):
                    if 'default' in kw:
                        return kw['default']
                    raise_py(ValueError, '%s() arg is an empty sequence' % kind)
                return extremum(list(it[1].sizes), it[1].mask, it[2], kind)
        else:
            items = args
        if not items:
            if 'default' in kw:
                return kw['default']
            raise_py(ValueError, '%s() arg is an empty sequence' % kind)
        if kw.get('key') is not None:
            raise Unsupported('min/max key')
        if not any(is_symbolic(x) for x in items):
            try:
                return (min if kind == 'min' else max)(items)
            except Exception as e:
                raise IExc(e)
        for x in items:
            if not is_num(x) and not isinstance(x, SBool):
                if x is None or isinstance(x, str):
                    raise_py(TypeError, 'not supported between instances')
                raise Unsupported('min/max of %s' % type(x).__name__)
        return extremum_seq(I, list(items), kind)
    return h


model(min)(_minmax('min'))
model(max)(_minmax('max'))


@model(sum)
def m_sum(I, args, kw):
    start = args[1] if len(args) > 1 else kw.get('start', 0)
    it = iter_of(I, args[0])
    if it[0] == 'conc':
        r = start
        for x in it[1]:
            r = I.binop(ast.Add, r, x)
        return r
    ax, fn = it[1], it[2]
    s = mk_sum(list(ax.sizes), ax.mask, lambda cs: bool_num(fn(cs)))
    return s if isconc(start) and start == 0 else n_add(start, s)


def bool_num(v):
    if isinstance(v, (SNum, SBool)) or is_num(v):
        return lift(v)
    raise Unsupported('sum of %s' % type(v).__name__)


@model(all)
def m_all(I, args, kw):
    return _allany(I, args[0], True)


@model(any)
def m_any(I, args, kw):
    return _allany(I, args[0], False)


def _allany(I, v, isall):
    it = iter_of(I, v)
    if it[0] == 'conc':
        for x in it[1]:
            if I.truth(x) != isall:
                return not isall
        return isall
    return quant(array((it[1],), lambda cs: it[2](cs), 'b'), 'all' if isall else 'any')


@model(abs, np.abs, np.absolute)
def m_abs(I, args, kw):
    v = args[0]
    if isinstance(v, (NDArr, IList, Seq)):
        return ufunc(lambda x: npnum(n_abs(x)), [v])
    if isinstance(v, SNum):
        return n_abs(v)
    return I.native(abs, args, kw)


@model(int)
def m_int(I, args, kw):
    v = args[0] if args else 0
    if isinstance(v, NDArr) and v.ndim == 0:
        v = v.at(())
    if isinstance(v, SBool):
        v = lift(v)
    if isinstance(v, SNum):
        if not v.finite:
            c = cur()
            if c.decide(bt(v.nan)):
                raise_py(ValueError, 'cannot convert float NaN to integer')
            if c.decide(Or(v.pinf, v.ninf)):
                raise_py(OverflowError, 'cannot convert float infinity to integer')
        t = t_trunc(v.t)
        return as_int(t)
    if isinstance(v, SStr):
        return str_to_num(v, 'Int')
    if isinstance(v, (IList, Seq, NDArr, dict)) or v is None:
        raise_py(TypeError, 'int() argument must be a string or a number')
    return I.native(int, args, kw)


@model(float, np.float64)
def m_float(I, args, kw):
    v = args[0] if args else 0.
    if isinstance(v, NDArr) and v.ndim == 0:
        v = v.at(())
    if isinstance(v, SBool):
        v = lift(v)
    if isinstance(v, SNum):
        return SNum(toreal(v.t), False, v.nan, v.pinf, v.ninf)
    if isinstance(v, SStr):
        return str_to_num(v, 'Real')
    if isinstance(v, (IList, Seq, NDArr, dict)) or v is None:
        raise_py(TypeError, 'float() argument must be a string or a number')
    return I.native(float, args, kw)


def str_to_num(v, sort):
    if len(v.parts) == 1 and v.parts[0][0] == 'fmt' and is_num(v.parts[0][2]):
        p = v.parts[0]
        if p[1] in ('%d', '%05d', '', '!s', '%s', '%r', '!r'):
            l = lift(p[2])
            return l if sort == 'Int' or not l.isint else SNum(toreal(l.t))
        m = re.fullmatch(r'%-?\d*(?:\.(\d+))?f', p[1])
        l = lift(p[2])
        if m and sort == 'Real' and l.finite:
            return SNum(fixed(toreal(l.t), int(m.group(1) or 6)))
    raise Unsupported('number from a symbolic string')


def fixed(x, d):
    """The number written with d decimals: at most half a unit of the last one away."""
    c = cur()
    f = z3.Function('fixed%d' % d, z3.RealSort(), z3.RealSort())
    c.uf_facts.setdefault(f.name(), lambda a: [And(2 * 10 ** d * (f(a) - a) <= 1, 2 * 10 ** d * (a - f(a)) <= 1)])
    return f(x)


@model(bool)
def m_bool(I, args, kw):
    v = args[0]
    if isinstance(v, SBool):
        return v
    return I.truth(v)


@model(round, np.round, np.around, np.round_)
def m_round(I, args, kw):
    v = args[0]
    nd = args[1] if len(args) > 1 else kw.get('decimals', kw.get('ndigits'))
    if not is_symbolic(v):
        return I.native(np.round, args, kw) if isinstance(v, np.ndarray) else I.native(round, [v] + ([nd] if nd is not None else []), {})

    def f(x):
        l = lift(x)
        if not l.finite:
            raise Unsupported('round of a non-finite value')
        if nd is None or nd == 0:
            t = t_round(l.t)
            return t
        if not isinstance(nd, int) or l.isint:
            raise Unsupported('round')
        s = Fraction(10) ** nd
        return t_mul(toreal(t_round(normal(t_mul(l.t, RV(s))))), RV(1 / s))
    if isinstance(v, NDArr) or isinstance(v, IList):
        return ufunc(lambda x: SNum(toreal(f(x)) if lift(x).t.is_real() else f(x), True), [v])
    r = f(v)
    if nd is None and not v.np:
        return as_int(r)
    return SNum(toreal(r) if v.t.is_real() and (nd is not None or v.np) else r, v.np)


def py_type(v):
    if isinstance(v, SNum):
        return (np.int64 if v.isint else np.float64) if v.np else (int if v.isint else float)
    if isinstance(v, SBool):
        return bool
    if isinstance(v, NDArr):
        return np.ndarray if v.ndim or not v.isrec else np.void
    if isinstance(v, IList):
        return list
    if isinstance(v, Seq):
        return {'tuple': tuple, 'list': list}.get(v.kind, list)
    if isinstance(v, SStr):
        return str
    if isinstance(v, IGen):
        return types.GeneratorType
    if isinstance(v, (IFunc, Bound)):
        return types.FunctionType
    return type(v)


@model(type)
def m_type(I, args, kw):
    if len(args) != 1:
        raise Unsupported('type()')
    return py_type(args[0])


@model(isinstance)
def m_isinstance(I, args, kw):
    v, t = args
    if not is_symbolic(v):
        try:
            return isinstance(v, t)
        except TypeError as e:
            raise IExc(e)
    return issubclass(py_type(v), t)


@model(callable)
def m_callable(I, args, kw):
    return isinstance(args[0], (IFunc, Bound, Meth)) or callable(args[0])


@model(hasattr)
def m_hasattr(I, args, kw):
    try:
        I.getattr(args[0], args[1])
        return True
    except IExc:
        return False


@model(getattr)
def m_getattr(I, args, kw):
    try:
        return I.getattr(args[0], args[1])
    except IExc:
        if len(args) > 2:
            return args[2]
        raise


@model(setattr)
def m_setattr(I, args, kw):
    I.setattr(args[0], args[1], args[2])


@model(map)
def m_map(I, args, kw):
    f, xs = args[0], args[1:]
    if len(xs) == 1:
        it = iter_of(I, xs[0])
        if it[0] == 'conc':
            return [I.call(f, [x]) for x in it[1]]
        ax, fn = it[1], it[2]
        return Seq(ax, lambda cs: I.call(f, [fn(cs)]), 'iter')
    raise Unsupported('map')


@model(print)
def m_print(I, args, kw):
    cur().log(lambda: None, ('print',))
    return None


# ------------------------------------------------------------------ attributes and methods of modelled values
def getattribute(I, o, name):
    if isinstance(o, NDArr):
        return nd_attr(I, o, name)
    if isinstance(o, (IList, list)):
        f = LIST_METHODS.get(name)
        if f is None:
            raise_py(AttributeError, "'list' object has no attribute '%s'" % name)
        return Meth(name, o, f)
    if isinstance(o, Seq):
        raise_py(AttributeError, "object has no attribute '%s'" % name)
    if isinstance(o, dict):
        f = DICT_METHODS.get(name)
        if f is None:
            if hasattr(o, name):
                raise Unsupported('dict.%s' % name)
            raise_py(AttributeError, "'dict' object has no attribute '%s'" % name)
        return Meth(name, o, f)
    if isinstance(o, (str, SStr)):
        f = STR_METHODS.get(name)
        if f is None:
            if isinstance(o, str):
                try:
                    return getattr(o, name)
                except AttributeError as e:
                    raise IExc(e)
            raise Unsupported('str.%s' % name)
        return Meth(name, o, f)
    if isinstance(o, (SNum, SBool)):
        if name == 'dtype':
            return NPDT[val_code(o)]
        if name in ('item', 'copy'):
            return Meth(name, o, lambda I, v, a, k: v)
        if name in ('all', 'any'):
            return Meth(name, o, lambda I, v, a, k: v)
        if name in ('min', 'max', 'sum', 'mean'):
            return Meth(name, o, lambda I, v, a, k: v)
        if name == 'size':
            return 1
        if name == 'shape':
            return ()
        raise_py(AttributeError, "'float' object has no attribute '%s'" % name)
    if isinstance(o, tuple):
        if name in ('index', 'count'):
            raise Unsupported('tuple.%s' % name)
        if hasattr(type(o), '_fields') and name in o._fields:
            return getattr(o, name)
        if name == '_replace' and hasattr(type(o), '_fields'):
            return Meth(name, o, lambda I, v, a, k: v._replace(**k))
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise IExc(e)
    if isinstance(o, (set, frozenset)):
        if isinstance(o, ISet):
            f = SET_METHODS.get(name)
            if f is None:
                raise Unsupported('set.%s' % name)
            return Meth(name, o, f)
        if name in ('add', 'pop', 'remove', 'discard', 'update', 'clear'):
            raise Unsupported('modification of a set display')
        return getattr(o, name)
    if isinstance(o, IGen):
        if name == '__next__':
            return Meth(name, o, lambda I, v, a, k: m_next(I, [v], {}))
        raise Unsupported('generator attribute')
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))


def nd_dtype(o):
    if o.isrec:
        return np.dtype([(l, NPDT[o.buf.dtypes.get(l, 'f')]) for l in o.fields()])
    return NPDT[o.dtype()]


def nd_attr(I, o, name):
    if name == 'shape':
        return tuple(lenval(reg_len(a.length(), a)) for a in o.axes)
    if name == 'size':
        if o.ndim == 1:
            return lenval(reg_len(o.axes[0].length(), o.axes[0]))
        t = axes_len(o.axes)
        if o.ndim > 1 and all(a.order == 'lex' for a in o.axes):
            ax, _ = ravel_axis(o.axes)
            reg_len(t, ax)
        return lenval(t)
    if name == 'ndim':
        return o.ndim
    if name == 'dtype':
        return nd_dtype(o)
    if name == 'T':
        return transpose(o)
    f = ND_METHODS.get(name)
    if f is None:
        if hasattr(np.ndarray, name):
            raise Unsupported('ndarray.%s' % name)
        raise_py(AttributeError, "'numpy.ndarray' object has no attribute '%s'" % name)
    return Meth(name, o, f)


def setattribute(I, o, name, v):
    raise Unsupported('assignment to array attribute %s' % name)


def transpose(o):
    if o.ndim < 2:
        return o
    offs, k = [], 0
    for a in o.axes:
        offs.append(k)
        k += a.m
    order = list(reversed(range(o.ndim)))
    return permute(o, order)


def permute(o, order):
    offs, k = [], 0
    for a in o.axes:
        offs.append(k)
        k += a.m
    cm, j = {}, 0
    for n in order:
        for q in range(o.axes[n].m):
            cm[offs[n] + q] = ('v', j, None)
            j += 1
    return view(o, [o.axes[n] for n in order], cm)


def shape_list(I, v):
    if isinstance(v, (int, np.integer, SNum)):
        return [int_term(v)]
    it = iter_of(I, v)
    if it[0] == 'conc':
        return [int_term(x) for x in it[1]]
    n = it[1].length()
    if isnumeral(n):
        return [int_term(it[2](it[1].coords(IV(k)))) for k in range(numval(n))]
    raise Unsupported('symbolic number of dimensions')


def sums_facts(app, params, facts):
    """Facts triggered by a count term."""
    c = cur()
    if app.num_args() == 0 or [x.get_id() for x in app.children()] == [x.get_id() for x in params]:
        c.define(app, params, facts, TRUE)


def interval_axis(a):
    """First index and number of the kept indices along each coordinate of a masked axis, if the mask is a
    product of intervals (proved); else None."""
    c = cur()
    if a.mask is None:
        return None
    cs = a.fresh('p')
    rng = And(*[inrange(x, n) for x, n in zip(cs, a.sizes)])
    groups = [[] for _ in cs]
    for q in conjuncts(a.mask(cs)):
        ids = consts_of(q)
        ks = [k for k, x in enumerate(cs) if x.get_id() in ids]
        if len(ks) == 1:
            groups[ks[0]].append(q)
        elif not c.valid(Implies(rng, q), 3000):
            return None
    out = []
    from .sums import count_term
    for x, n, g in zip(cs, a.sizes, groups):
        if not g:
            out.append((IV(0), n))
            continue
        m = And(*g)
        p, q = c.index('p'), c.index('p')
        if not c.valid(Implies(And(inrange(p, n), inrange(q, n), p < x, x < q,
                                   z3.substitute(m, (x, p)), z3.substitute(m, (x, q))), m), 4000):
            return None
        lo, params, new = c.determined('lo', 'Int', [x], [m, n])
        ln, _, _ = c.determined('ln', 'Int', [x], [m, n])
        if new:
            cnt = count_term([n], (x,), m)
            c.define(ln, params, [ln >= IV(0), lo >= IV(0), lo + ln <= n, Implies(n >= IV(0), TRUE), cnt == ln], TRUE)
            c.define(lo, params, [ln >= IV(0), lo >= IV(0), lo + ln <= n], TRUE)
            if z3.is_app(cnt) and cnt.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                sums_facts(cnt, params, [cnt == ln])
            for s in (lo, ln):
                c.forall(s, params, (x,), lambda z: Implies(inrange(z[0], n), z3.substitute(m, (x, z[0])) == And(lo <= z[0], z[0] < lo + ln)))
        # the contract may name the first and last index itself
        from .sums import index_consts
        names = index_consts(list(c.pc))
        linear = lambda q: c.check_unsat(c.pc + [Not(q)], None)
        for z in names:
            if linear(lo == z):
                lo = z
                for y in names:
                    if linear(ln == y - z + 1):
                        ln = normal(y - z + 1)
                        break
                break
        out.append((lo, ln))
    return out


def unmask(o):
    """o over plain ranges, if its (only) axis is a product of intervals."""
    iv = interval_axis(o.axes[0])
    if iv is None:
        return o
    ax = Axis(tuple(n for _, n in iv))
    return view(o, [ax], {k: ('v', k, None if isnumeral(lo) and numval(lo) == 0 else lo) for k, (lo, _) in enumerate(iv)})


def reshape(o, dims):
    """View (or read-only copy) of o with the given dimension terms."""
    c = cur()
    if o.ndim == 1 and o.axes[0].mask is not None and len(dims) > 1 and o.axes[0].order == 'lex':
        o = unmask(o)
    neg = [k for k, d in enumerate(dims) if isnumeral(d) and numval(d) == -1]
    total = axes_len(o.axes)
    if neg:
        if len(dims) == 1:
            return ravel(o)
        raise Unsupported('reshape with -1')
    prod = IV(1)
    for d in dims:
        prod = t_mul(prod, d)
    if not c.same(prod, total):
        if not c.decide(prod == total):
            raise_py(ValueError, 'cannot reshape array')
    # regroup coordinates
    flat = ravel(o) if o.ndim != 1 else o
    a = flat.axes[0]
    if a.mask is None and a.order == 'lex':
        sizes = list(a.sizes)
        out, k, ok = [], 0, True
        for n, d in enumerate(dims):
            if isnumeral(d) and numval(d) == 1 and not (k < len(sizes) and isnumeral(sizes[k]) and numval(sizes[k]) == 1):
                out.append(())
                continue
            grp, t = [], IV(1)
            while k < len(sizes):
                grp.append(k)
                t = t_mul(t, sizes[k])
                k += 1
                if c.same(t, d):
                    break
            else:
                ok = False
            if not grp or not c.same(t, d):
                ok = False
            if not ok:
                break
            out.append(tuple(grp))
        if ok and k == len(sizes):
            axes, cm, j = [], {}, 0
            for grp in out:
                if not grp:
                    axes.append(Axis((IV(1),)))
                    j += 1
                    continue
                axes.append(Axis(tuple(sizes[g] for g in grp)))
                for g in grp:
                    cm[g] = ('v', j, None)
                    j += 1
            return view(flat, axes, cm)
        if len(dims) == 1:
            return flat
    if len(dims) == 1:
        return flat
    axes = [Axis((d,)) for d in dims]

    def f(cs):
        p = cs[0]
        for x, d in zip(cs[1:], dims[1:]):
            p = t_add(t_mul(p, d), x)
        return a.coords(p)
    return frozen_copy(flat, axes, f)


def nd_inplace_shape(o, new):
    """Replace the layout of the array object o by that of the view new (same buffer)."""
    c = cur()
    oa, ob = o.axes, o.bmap

    def undo():
        o.axes, o.bmap = oa, ob
    c.log(undo, None)
    o.axes, o.bmap = new.axes, new.bmap


def kwarg(args, kw, k, name, default):
    if len(args) > k:
        return args[k]
    return kw.get(name, default)


def m_sortarr(I, o, args, kw):
    order = kw.get('order')
    if kw.get('axis', args[0] if args else -1) not in (-1, 0, None):
        raise Unsupported('sort along an axis')
    r = sorted_array(I, o, order)
    c = cur()
    if o.buf.born and r.buf is o.buf:
        nd_inplace_shape(o, r)
        return None
    # contents change place: rewrite the buffer of o
    oa, ob, obuf, of = o.axes, o.bmap, o.buf, o.field

    def undo():
        o.axes, o.bmap, o.buf, o.field = oa, ob, obuf, of
    c.log(undo, None)
    o.axes, o.bmap, o.buf, o.field = r.axes, r.bmap, r.buf, r.field
    return None


def key_terms(o, order, cs):
    return [lift(o.reader(l)(cs)).t for l in order]


def sorted_array(I, o, order):
    """The sorted version of a 1-d array; the result shares the buffer if only the enumeration order changes."""
    c = cur()
    if o.ndim != 1:
        raise Unsupported('sort of a multi-dimensional array')
    if isinstance(order, str):
        order = [order]
    if isinstance(order, IList):
        order = list(order.items)
    if o.isrec:
        if order is None:
            order = list(o.fields())
        for l in order:
            if l not in o.fields():
                raise_py(ValueError, 'unknown field name: %s' % l)
        keyf = lambda cs: [lift(o.reader(l)(cs)) for l in order]
    else:
        keyf = lambda cs: [lift(o.reader()(cs))]
    a = o.axes[0]
    n = a.m
    cs, ds = a.fresh('p'), a.fresh('q')
    ga, gb = a.guard(cs), a.guard(ds)
    ka, kb = keyf(cs), keyf(ds)
    if not all(x.finite for x in ka):
        raise Unsupported('sort by non-finite keys')

    def lexlt(xs, ys):
        r = FALSE
        for x, y in reversed(list(zip(xs, ys))):
            r = Or(x.t < y.t, And(x.t == y.t, r))
        return r
    perms = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n))]
    for pm in perms:
        def clt(x, y):
            r = FALSE
            for k in reversed(pm):
                r = Or(x[k] < y[k], And(x[k] == y[k], r))
            return r
        if c.valid(Implies(And(ga, gb, clt(cs, ds)), lexlt(ka, kb)), 4000):
            # sorted order is the lexicographic order of the permuted coordinates
            sizes = tuple(a.sizes[k] for k in pm)
            mask = None
            if a.mask is not None:
                def mask(xs, pm=pm):
                    back = [None] * n
                    for j, k in enumerate(pm):
                        back[k] = xs[j]
                    return a.mask(tuple(back))
            ax = Axis(sizes, mask, 'lex')
            cm = {k: ('v', j, None) for j, k in enumerate(pm)}
            return view(o, [ax], cm)
    # general case: an unknown permutation that orders the keys
    return sorted_general(o, keyf)


def sorted_general(o, keyf):
    c = cur()
    a = o.axes[0]
    n = a.length()
    k = next(c.counter)
    I = z3.IntSort()
    probe = tuple(z3.Int('cq%d' % j) for j in range(a.m))
    ps = c.loop_params([a.guard(probe), n] + [x.t for x in keyf(probe)])
    m = len(ps)
    permd = z3.Function('perm!%d' % k, *([I] * (m + 2)))       # sorted position -> old position
    invd = z3.Function('iperm!%d' % k, *([I] * (m + 2)))
    perm, inv = lambda p: permd(*ps, p), lambda p: invd(*ps, p)

    def at_args(t, args):
        pr = [(p, x) for p, x in zip(ps, args) if not p.eq(x)]
        return [z3.substitute(t, *pr)] if pr else [t]

    def pf(*args):
        p = args[m]
        return at_args(Implies(And(p >= IV(0), p < n), And(perm(p) >= IV(0), perm(p) < n, inv(perm(p)) == p)), args)

    def qf(*args):
        p = args[m]
        return at_args(Implies(And(p >= IV(0), p < n), And(inv(p) >= IV(0), inv(p) < n, perm(inv(p)) == p)), args)
    c.uf_facts[permd.name()] = pf
    c.uf_facts[invd.name()] = qf
    ax = Axis((n,))
    ax.perm_of = (a, perm, inv)

    def at(cs):
        return a.coords(perm(cs[0]))
    # ordering fact, instantiated pairwise
    x, y = c.index('x'), c.index('y')
    kx, ky = keyf(at((x,))), keyf(at((y,)))
    r = TRUE
    for p, q in reversed(list(zip(kx, ky))):
        r = Or(p.t < q.t, And(p.t == q.t, r))
    order = Guarded([], Implies(And(x >= IV(0), x < y, y < n), r))
    order.matched = 'own'
    c.qdefs.setdefault(permd.name(), []).append((list(ps) + [c.index('dummy')], (x, y), order))
    if a.m == 1:
        # every member has its place
        z = c.index('z')
        p = a.pos((z,))
        place = Guarded([], Implies(a.guard((z,)), And(p >= IV(0), p < n, inv(p) >= IV(0), inv(p) < n, perm(inv(p)) == p)))
        place.matched = 'index'
        c.qdefs[permd.name()].append((list(ps) + [c.index('dummy')], (z,), place))
        c.wits.add(invd.name())
    if o.isrec:
        return record((ax,), {l: (lambda cs, f=o.reader(l): f(tuple(at(cs)))) for l in o.fields()}, o.fields(), o.buf.dtypes)
    f = o.reader()
    return array((ax,), lambda cs: f(tuple(at(cs))), o.dtype())


def m_resize(I, o, args, kw):
    dims = shape_list(I, args[0] if len(args) == 1 else tuple(args))
    c = cur()
    prod = IV(1)
    for d in dims:
        prod = t_mul(prod, d)
    if not c.same(prod, axes_len(o.axes)):
        raise Unsupported('resize to another size')
    nd_inplace_shape(o, reshape(o, dims))
    return None


def m_astype(I, o, args, kw):
    dt = code_of(args[0])
    f = o.reader()
    return array(o.axes, lambda cs: cast(f(cs), dt), dt)


def m_tolist(I, o, args, kw):
    return tolist(iter_of(I, o)) if o.ndim else o.at(())


def arg_extremum(o, kind):
    c = cur()
    if o.ndim != 1:
        o = ravel(o)
    a = o.axes[0]
    if not c.decide(a.length() > IV(0)):
        raise_py(ValueError, 'attempt to get arg%s of an empty sequence' % kind)
    f = o.reader()
    m = extremum(list(a.sizes), a.mask, f, kind)
    # position of the first element equal to the extremum
    cs = a.fresh('x')
    v = lift(f(cs))

    def facts(p):
        pc = a.coords(p)
        return [p >= IV(0), p < a.length(), lift(f(pc)).t == m.t]
    p = c.skolem('arg' + kind, 'Int', [m.t, v.t] if not any(x.get_id() in consts_of(v.t) for x in cs) else
                 [m.t] + [t for t in index_only(v.t, cs)], facts)
    ps = list(p.children())
    q = c.index('x')
    c.forall(p, ps, (q,), lambda t: Implies(And(t[0] >= IV(0), t[0] < p), Not(lift(f(a.coords(t[0]))).t == m.t)))
    c.positions.append(p)
    return SNum(p, True)


def index_only(t, cs):
    from .sums import index_consts
    ids = {x.get_id() for x in cs}
    return [x for x in index_consts([t]) if x.get_id() not in ids]


ND_METHODS = {
    'ravel': lambda I, o, a, k: ravel(o),
    'flatten': lambda I, o, a, k: copy_arr(ravel(o)),
    'copy': lambda I, o, a, k: copy_arr(o),
    'reshape': lambda I, o, a, k: reshape(o, shape_list(I, a[0] if len(a) == 1 else tuple(a))),
    'resize': m_resize,
    'sort': m_sortarr,
    'sum': lambda I, o, a, k: sum_of(o, kwarg(a, k, 0, 'axis', None)),
    'mean': lambda I, o, a, k: mean_of(o, kwarg(a, k, 0, 'axis', None)),
    'min': lambda I, o, a, k: extremum_of(o, kwarg(a, k, 0, 'axis', None), 'min'),
    'max': lambda I, o, a, k: extremum_of(o, kwarg(a, k, 0, 'axis', None), 'max'),
    'std': lambda I, o, a, k: std_of(o),
    'all': lambda I, o, a, k: quant(o, 'all'),
    'any': lambda I, o, a, k: quant(o, 'any'),
    'argmin': lambda I, o, a, k: arg_extremum(o, 'min'),
    'argmax': lambda I, o, a, k: arg_extremum(o, 'max'),
    'astype': m_astype,
    'tolist': m_tolist,
    'transpose': lambda I, o, a, k: transpose(o) if not a else permute(o, [int(x) for x in (a[0] if len(a) == 1 else a)]),
    'swapaxes': lambda I, o, a, k: permute(o, swap(o.ndim, a[0], a[1])),
    'fill': lambda I, o, a, k: store(o, a[0]),
    'item': lambda I, o, a, k: o.at(()),
    'round': lambda I, o, a, k: m_round(I, [o] + list(a), k),
    'tofile': lambda I, o, a, k: to_file(I, o, *a, **k),
}


def to_file(I, o, fp, **k):
    width = getattr(o.buf, 'width', 8 if o.dtype() == 'i' else None)
    if isinstance(fp, str) and not k and 'tofile' in I.ghost and width is not None:
        I.ghost['tofile'][fp] = (copy_arr(o), width)
        return
    if k or not hasattr(fp, '_pv_tofile'):
        raise Unsupported('array written to a file')
    fp._pv_tofile(copy_arr(o), width)


def swap(n, i, j):
    l = list(range(n))
    l[i], l[j] = l[j], l[i]
    return l


def l_append(I, o, a, k):
    if isinstance(o, list):
        raise Unsupported('append to a native list')
    o.append(a[0])


def l_pop(I, o, a, k):
    c = cur()
    i = a[0] if a else -1
    if o.seq is not None:
        s = o.seq
        ln = s.axis.length()
        if not c.decide(ln > IV(0)):
            raise_py(IndexError, 'pop from empty list')
        if isinstance(i, int) and i == 0:
            fn, ax = s.fn, s.axis
            v = fn(ax.coords(IV(0)))
            o.set([], Seq(Axis((t_sub(ln, IV(1)),)), lambda cs: fn(ax.coords(t_add(cs[0], IV(1))))))
            return v
        if isinstance(i, int) and i == -1:
            fn, ax = s.fn, s.axis
            v = fn(ax.coords(t_sub(ln, IV(1))))
            o.set([], Seq(Axis((t_sub(ln, IV(1)),)), lambda cs: fn(ax.coords(cs[0]))))
            return v
        raise Unsupported('pop at a symbolic position')
    if isinstance(i, SNum):
        raise Unsupported('pop at a symbolic position')
    items = list(o.items)
    try:
        v = items.pop(i)
    except IndexError as e:
        raise IExc(e)
    old = o.items

    def undo():
        o.items = old
    c.log(undo, ('lset', o, None, None))
    o.items = items
    return v


def l_insert(I, o, a, k):
    c = cur()
    if o.seq is not None or isinstance(a[0], SNum):
        raise Unsupported('insert into a symbolic list')
    items = list(o.items)
    items.insert(a[0], a[1])
    old = o.items

    def undo():
        o.items = old
    c.log(undo, ('lset', o, None, None))
    o.items = items


def l_index(I, o, a, k):
    if o.seq is not None:
        raise Unsupported('index in a symbolic list')
    for j, x in enumerate(o.items):
        if I.truth(compare(I, ast.Eq, x, a[0])):
            return j
    raise_py(ValueError, 'not in list')


def l_sort(I, o, a, k):
    if o.seq is not None or any(is_symbolic(x) for x in o.items) or k:
        raise Unsupported('sort of a symbolic list')
    items = sorted(o.items)
    old = o.items

    def undo():
        o.items = old
    cur().log(undo, ('lset', o, None, None))
    o.items = items


LIST_METHODS = {
    'append': l_append,
    'extend': lambda I, o, a, k: I.list_extend(o, a[0]),
    'pop': l_pop,
    'insert': l_insert,
    'copy': lambda I, o, a, k: tolist(iter_of(I, o)),
    'index': l_index,
    'sort': l_sort,
    'count': lambda I, o, a, k: sum(1 for x in o.items if I.truth(compare(I, ast.Eq, x, a[0]))),
}


def d_change(o, f):
    """Apply f to the dict with an undo record."""
    c = cur()
    order = list(o.items())

    def undo():
        o.clear()
        o.update(order)
    c.log(undo, ('dset', o, None, None))
    return f()


def d_pop(I, o, a, k):
    if isinstance(a[0], (SStr, SNum)):
        raise Unsupported('symbolic key')
    if a[0] not in o:
        if len(a) > 1:
            return a[1]
        raise_py(KeyError, a[0])
    return d_change(o, lambda: o.pop(a[0]))


def d_update(I, o, a, k):
    def f():
        for x in a:
            if isinstance(x, dict):
                o.update(x)
            else:
                for y in I.items_of(x):
                    kk, vv = I.unpack(y, 2)
                    o[kk] = vv
        o.update(k)
    d_change(o, f)


def d_copy(I, o, a, k):
    d = dict(o)
    I.born(d)
    return d


def d_popitem(I, o, a, k):
    if not o:
        raise_py(KeyError, 'popitem(): dictionary is empty')
    return d_change(o, lambda: o.popitem())


def d_setdefault(I, o, a, k):
    if a[0] in o:
        return o[a[0]]
    v = a[1] if len(a) > 1 else None

    def f():
        o[a[0]] = v
    d_change(o, f)
    return v


DICT_METHODS = {
    'get': lambda I, o, a, k: o.get(a[0], a[1] if len(a) > 1 else None),
    'pop': d_pop,
    'popitem': d_popitem,
    'items': lambda I, o, a, k: [(x, y) for x, y in o.items()],
    'keys': lambda I, o, a, k: KeysView(o.keys()),
    'values': lambda I, o, a, k: list(o.values()),
    'update': d_update,
    'copy': d_copy,
    'setdefault': d_setdefault,
    'clear': lambda I, o, a, k: d_change(o, lambda: o.clear()),
}


# ------------------------------------------------------------------ strings
def fmt_part(I, spec, v):
    """One formatted value; spec like '%05d'."""
    conv = spec[-1]
    if isinstance(v, NDArr) and v.ndim == 0:
        v = v.at(())
    if isinstance(v, (str, SStr)):
        if conv == 's' and spec == '%s':
            return v
        if isinstance(v, str):
            try:
                return spec % (v,)
            except TypeError as e:
                raise IExc(e)
        if conv in 'dfgei':
            raise_py(TypeError, '%%%s format: a number is required, not str' % conv)
        return ('fmt', spec, v)
    if isinstance(v, SNum):
        if conv in 'di':
            if not v.finite:
                c = cur()
                if c.decide(bt(v.nan)):
                    raise_py(ValueError, 'cannot convert float NaN to integer')
                if c.decide(Or(v.pinf, v.ninf)):
                    raise_py(OverflowError, 'cannot convert float infinity to integer')
            t = t_trunc(v.t)
            if isnumeral(t):
                return spec % numval(t)
            return ('fmt', spec, SNum(normal(t)))
        return ('fmt', spec, v)
    if is_symbolic(v):
        if conv in 'dfgei':
            raise_py(TypeError, 'a number is required')
        return ('fmt', spec, opaque_str(v))
    try:
        return spec % (to_nat(v),)
    except Exception as e:
        raise IExc(e)


def to_nat(v):
    from .interp import to_native
    return to_native(v)


def opaque_str(v):
    return SStr((('sym', 'obj!%d' % id(v)),))


def percent(I, a, b):
    from .interp import to_native
    import re
    if isinstance(a, SStr):
        raise Unsupported('symbolic format string')
    args = list(b) if type(b) is tuple else [b]
    if not is_symbolic(b):
        try:
            return a % (tuple(to_native(x) for x in args) if type(b) is tuple else to_native(b))
        except Exception as e:
            raise IExc(e)
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%([#0\- +]*)(\*|\d+)?(\.\d+)?([diouxXeEfFgGcrsa%])', a):
        out.append(a[pos:m.start()])
        pos = m.end()
        if m.group(4) == '%':
            out.append('%')
            continue
        if k >= len(args):
            raise_py(TypeError, 'not enough arguments for format string')
        out.append(fmt_part(I, m.group(0), args[k]))
        k += 1
    out.append(a[pos:])
    if k < len(args):
        raise_py(TypeError, 'not all arguments converted during string formatting')
    if all(isinstance(p, str) for p in out):
        return ''.join(out)
    return SStr(out)


def format_value(I, v, spec, conv=''):
    """format(v, spec) as str, SStr or part."""
    if isinstance(spec, SStr):
        raise Unsupported('symbolic format specification')
    if isinstance(v, NDArr) and v.ndim == 0:
        v = v.at(())
    if conv in ('!r', '!s') and not is_symbolic(v):
        v = repr(v) if conv == '!r' else str(v)
        return format(v, spec)
    if not is_symbolic(v):
        try:
            return format(to_nat(v), spec)
        except Exception as e:
            raise IExc(e)
    if isinstance(v, SStr):
        if spec == '' and conv in ('', '!s'):
            return v
        return ('fmt', conv + ':' + spec, v)
    if isinstance(v, SNum):
        if spec and spec[-1] in 'fFgGdeE' and not conv:
            if spec[-1] == 'd':
                if not v.isint:
                    raise_py(ValueError, "Unknown format code 'd' for object of type 'float'")
                return ('fmt', '%' + spec, v)
            return ('fmt', '%' + spec, v)
        return ('fmt', '%' + (conv[1:] or 's') if not spec else conv + ':' + spec, v)
    return ('fmt', conv + ':' + spec, opaque_str(v))


def s_format(I, o, a, k):
    import string
    if isinstance(o, SStr):
        raise Unsupported('symbolic format string')
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        else:
            if field not in k:
                raise Unsupported('format field %s' % field)
            v = k[field]
        out.append(format_value(I, v, spec or '', '!' + conv if conv else ''))
    if all(isinstance(p, str) for p in out):
        return ''.join(out)
    return SStr(out)


def s_join(I, o, a, k):
    it = iter_of(I, a[0])
    if it[0] != 'conc':
        raise Unsupported('join of a symbolic sequence')
    items = it[1]
    if all(isinstance(x, str) for x in items) and isinstance(o, str):
        return o.join(items)
    out = []
    for j, x in enumerate(items):
        if not isinstance(x, (str, SStr)):
            raise_py(TypeError, 'sequence item: expected str instance')
        if j:
            out.append(o)
        out.append(x)
    return SStr(out)


def _native_str(name):
    def h(I, o, a, k):
        if isinstance(o, str) and not any(is_symbolic(x) for x in a):
            return I.native(getattr(o, name), a, k)
        raise Unsupported('str.%s on a symbolic string' % name)
    return h


def s_lower(I, o, a, k):
    if isinstance(o, str):
        return o.lower()
    return SStr((('fn', 'lower', (o,)),))


def tokens(s, maxsplit=-1):
    """Words of a string with symbolic parts: numbers have no blanks inside, text in front of the words may be blank."""
    out, glued = [], False
    for p in s.parts if isinstance(s, SStr) else (s,):
        if isinstance(p, str):
            ws = p.split()
            if not ws:
                glued = False
                continue
            if glued and not p[0].isspace():
                out[-1] = SStr([out[-1], ws.pop(0)])
            out += ws
            glued = not p[-1].isspace()
        elif p[0] == 'fmt' and is_num(p[2]):
            if glued:
                raise Unsupported('words of a symbolic string')
            out.append(SStr([p]))
            glued = True
        else:
            raise Unsupported('words of a symbolic string')
    return out


def s_split(I, o, a, k):
    if isinstance(o, str):
        return I.native(o.split, a, k)
    n = k.get('maxsplit', a[1] if len(a) > 1 else -1)
    if a and a[0] is not None or k.get('sep') is not None or not isinstance(n, int):
        raise Unsupported('str.split at a separator')
    ws = tokens(o)
    if n >= 0 and len(ws) > n:
        rest = SStr(o.parts)
        # the remainder, known only when it starts behind literal words
        first = o.parts[0] if isinstance(o.parts[0], str) else ''
        ks = first.split(None, n)
        if len(first.split()) <= n and not (n and len(first.split()) == n and first[-1:].isspace()):
            raise Unsupported('remainder of a symbolic string')
        tail = ks[n] if len(ks) > n else ''
        return IList(list(ks[:n]) + [SStr((tail,) + tuple(o.parts[1:]))])
    return IList(ws)


def s_splitlines(I, o, a, k):
    if isinstance(o, str) or a or k:
        return _native_str('splitlines')(I, o, a, k)
    lines = [[]]
    for p in o.parts:
        if isinstance(p, str):
            qs = p.split('\n')
            if any(len(q.splitlines()) > 1 for q in qs):
                raise Unsupported('unusual ends of lines')
            lines[-1].append(qs[0])
            lines += [[q] for q in qs[1:]]
        elif p[0] == 'fmt' and is_num(p[2]):
            lines[-1].append(p)
        else:
            raise Unsupported('lines of a symbolic string')
    if not any(lines[-1]):
        lines.pop()
    return IList([l[0] if len(l) == 1 and isinstance(l[0], str) else SStr(l) for l in lines])


def s_strip(I, o, a, k):
    if isinstance(o, str) or a or k:
        return _native_str('strip')(I, o, a, k)
    if len(o.parts) == 1 and o.parts[0][0] == 'fmt' and is_num(o.parts[0][2]):
        return o
    raise Unsupported('str.strip on a symbolic string')


def s_startswith(I, o, a, k):
    if isinstance(o, SStr) and len(a) == 1 and isinstance(a[0], str) and isinstance(o.parts[0], str):
        m = min(len(a[0]), len(o.parts[0]))
        if a[0][:m] != o.parts[0][:m] or len(a[0]) <= m:
            return a[0][:m] == o.parts[0][:m]
    return _native_str('startswith')(I, o, a, k)


STR_METHODS = {'format': s_format, 'join': s_join}
for _n in ('split', 'strip', 'startswith', 'endswith', 'upper', 'rsplit', 'lstrip', 'rstrip', 'index', 'find', 'replace', 'count',
           'capitalize', 'title', 'isdigit', 'encode', 'splitlines', 'ljust', 'rjust', 'zfill', 'partition', 'rpartition'):
    STR_METHODS[_n] = _native_str(_n)
STR_METHODS['lower'] = s_lower
STR_METHODS.update(split=s_split, splitlines=s_splitlines, strip=s_strip, startswith=s_startswith,
                   encode=lambda I, o, a, k: I.native(o.encode, a, k) if isinstance(o, str) else o)


@model(str)
def m_str(I, args, kw):
    if not args:
        return ''
    v = args[0]
    if isinstance(v, SStr):
        return v
    if not is_symbolic(v):
        return str(to_nat(v))
    p = format_value(I, v, '', '!s')
    return SStr([p])


@model(repr)
def m_repr(I, args, kw):
    v = args[0]
    if not is_symbolic(v):
        return repr(to_nat(v))
    return SStr([format_value(I, v, '', '!r')])


# ------------------------------------------------------------------ numpy
def dtype_arg(kw, args=None, k=None):
    dt = kw.get('dtype')
    if dt is None and args is not None and len(args) > k:
        dt = args[k]
    if isinstance(dt, IList):
        return np.dtype([tuple(x) for x in dt.items])
    return np.dtype(dt) if dt is not None else None


@model(np.dtype)
def m_dtype(I, args, kw):
    v = args[0]
    if isinstance(v, IList):
        if not v.concrete:
            raise Unsupported('symbolic dtype')
        items = []
        for x in v.items:
            l, t = x
            items.append((l, t))
        try:
            return np.dtype(items)
        except Exception as e:
            raise IExc(e)
    return I.native(np.dtype, args, kw)


def new_filled(I, dims, dt, val):
    axes = tuple(axis_for(d) for d in dims)
    if dt is not None and dt.names:
        return record(axes, {l: (lambda cs, q=code_of(dt[l]): cast(val, q)) for l in dt.names}, dt.names,
                      {l: code_of(dt[l]) for l in dt.names})
    code = 'f' if dt is None else code_of(dt)
    x = cast(val, code)
    return array(axes, lambda cs: x, code)


def _filled(val):
    def h(I, args, kw):
        dims = shape_list(I, args[0] if args else kw['shape'])
        c = cur()
        for d in dims:
            if not c.valid(d >= IV(0)):
                if not c.decide(d >= IV(0)):
                    raise_py(ValueError, 'negative dimensions are not allowed')
        return new_filled(I, dims, dtype_arg(kw, args, 1), val)
    return h


model(np.zeros)(_filled(0))
model(np.ones)(_filled(1))


@model(np.empty)
def m_empty(I, args, kw):
    dims = shape_list(I, args[0])
    dt = dtype_arg(kw, args, 1)
    return unknown_array(dims, dt)


def unknown_array(dims, dt):
    c = cur()
    axes = tuple(axis_for(d) for d in dims)
    n = sum(a.m for a in axes)
    deps = list(c.loop_ix)

    def one(code):
        f = c.fresh_fun('undef', n + len(deps), {'f': 'Real', 'i': 'Int', 'b': 'Bool'}[code])
        return lambda cs: SBool(f(*deps, *cs)) if code == 'b' else SNum(f(*deps, *cs), True)
    if dt is not None and dt.names:
        return record(axes, {l: one(code_of(dt[l])) for l in dt.names}, dt.names, {l: code_of(dt[l]) for l in dt.names})
    code = 'f' if dt is None else code_of(dt)
    if code == 'O':
        raise Unsupported('object array')
    return array(axes, one(code), code)


def _like(kind):
    def h(I, args, kw):
        a = arr_of(args[0])
        dt = dtype_arg(kw, args, 1)
        if a.isrec and dt is None:
            if kind is None:
                dims = None
                c = cur()
                n = a.nc()
                fns = {}
                for l in a.fields():
                    f = c.fresh_fun('undef', n, {'f': 'Real', 'i': 'Int'}[a.buf.dtypes.get(l, 'f')])
                    fns[l] = lambda cs, f=f: SNum(f(*cs), True)
                return record(a.axes, fns, a.fields(), a.buf.dtypes)
            return record(a.axes, {l: (lambda cs, q=a.buf.dtypes.get(l, 'f'): cast(kind, q)) for l in a.fields()}, a.fields(), a.buf.dtypes)
        if dt is not None and dt.names:
            if kind is None:
                u = unknown_array([t for x in a.axes for t in x.sizes], dt)
                return record(a.axes, {l: u.reader(l) for l in dt.names}, dt.names, u.buf.dtypes)
            return record(a.axes, {l: (lambda cs, q=code_of(dt[l]): cast(kind, q)) for l in dt.names}, dt.names,
                          {l: code_of(dt[l]) for l in dt.names})
        code = code_of(dt) if dt is not None else a.dtype()
        if kind is None:
            f = cur().fresh_fun('undef', a.nc(), {'f': 'Real', 'i': 'Int', 'b': 'Bool'}[code])
            return array(a.axes, lambda cs: SNum(f(*cs), True), code)
        x = cast(kind, code)
        return array(a.axes, lambda cs: x, code)
    return h


model(np.zeros_like)(_like(0))
model(np.ones_like)(_like(1))
model(np.empty_like)(_like(None))


@model(np.array, np.asarray)
def m_array(I, args, kw):
    v = args[0]
    dt = dtype_arg(kw, args, 1)
    if not is_symbolic(v) and not isinstance(v, IList):
        return I.native(np.array, args, kw)
    if isinstance(v, IList) and not is_symbolic(v):
        return I.native(np.array, args, kw)
    if isinstance(v, IGen):
        raise Unsupported('array of a generator')
    r = arr_of(v)
    if r.isrec:
        return copy_arr(r)
    if dt is not None:
        if dt.names:
            raise Unsupported('array of records')
        code = code_of(dt)
        f = r.reader()
        a = array(r.axes, lambda cs: cast(f(cs), code), code)
        a.buf.width = dt.itemsize
        return a
    return copy_arr(r)


@model(np.size)
def m_size(I, args, kw):
    v = args[0]
    if len(args) > 1 or kw:
        raise Unsupported('np.size axis')
    if isinstance(v, SNum):
        return 1
    if is_symbolic(v) or isinstance(v, IList):
        return nd_attr(I, arr_of(v), 'size')
    return I.native(np.size, args, kw)


@model(np.shape)
def m_shape(I, args, kw):
    return nd_attr(I, arr_of(args[0]), 'shape')


@model(np.ravel)
def m_ravel(I, args, kw):
    return ravel(arr_of(args[0]))


@model(np.reshape)
def m_reshape(I, args, kw):
    return reshape(arr_of(args[0]), shape_list(I, args[1]))


@model(np.copy)
def m_copy(I, args, kw):
    return copy_arr(arr_of(args[0]))


@model(np.sum)
def m_npsum(I, args, kw):
    a = arr_of(args[0])
    return sum_of(a, kwarg(args, kw, 1, 'axis', None)) if a.ndim else a.at(())


@model(np.mean)
def m_npmean(I, args, kw):
    a = arr_of(args[0])
    return mean_of(a, kwarg(args, kw, 1, 'axis', None)) if a.ndim else a.at(())


@model(np.min, np.amin)
def m_npmin(I, args, kw):
    a = arr_of(args[0])
    return extremum_of(a, kwarg(args, kw, 1, 'axis', None), 'min') if a.ndim else a.at(())


@model(np.max, np.amax)
def m_npmax(I, args, kw):
    a = arr_of(args[0])
    return extremum_of(a, kwarg(args, kw, 1, 'axis', None), 'max') if a.ndim else a.at(())


def std_of(a):
    def f(s, m, v, red):
        n = axes_len(red)
        t = mk_sum(s, m, v)
        mu = n_div(SNum(toreal(t.t), True), SNum(n, True))
        if not mu.finite:
            c = cur()
            if c.valid(n > IV(0)):
                mu = SNum(toreal(t.t) / toreal(n), True)
            elif c.decide(n > IV(0)):
                mu = SNum(toreal(t.t) / toreal(n), True)
            else:
                return SNum(RV(0), True, nan=TRUE)
        q = mk_sum(s, m, lambda rc: n_pow(n_sub(v(rc), mu), 2))
        return n_sqrt(SNum(toreal(q.t) / toreal(n), True))
    return reduction(a, None, f)


@model(np.std)
def m_npstd(I, args, kw):
    return std_of(arr_of(args[0]))


@model(np.average)
def m_average(I, args, kw):
    a = arr_of(args[0])
    w = kw.get('weights', args[2] if len(args) > 2 else None)
    axis = kwarg(args, kw, 1, 'axis', None)
    if w is None:
        return mean_of(a, axis)
    w = arr_of(w)
    if axis is not None:
        raise Unsupported('np.average along an axis')
    for x, y in zip(a.axes, w.axes):
        pass
    if a.ndim != w.ndim:
        raise_py(TypeError, 'Axis must be specified when shapes of a and weights differ.')
    axes, fns = broadcast([a, w])
    if axes is None:
        raise Unsupported('average of scalars')
    c = cur()
    prod = array(axes, lambda cs: n_mul(fns[0](cs), fns[1](cs)), 'f')
    sw = sum_of(array(axes, fns[1], w.dtype()))
    if c.decide(n_cmp('==', sw, 0)):
        raise_py(ZeroDivisionError, "Weights sum to zero, can't be normalized")
    sp = sum_of(prod)
    return SNum(t_div(toreal(sp.t), toreal(sw.t)), True)


@model(np.all)
def m_npall(I, args, kw):
    a = arr_of(args[0])
    return quant(a, 'all')


@model(np.any)
def m_npany(I, args, kw):
    return quant(arr_of(args[0]), 'any')


def isclose_f(rtol, atol):
    def f(x, y):
        x, y = lift(x), lift(y)
        if not (x.finite and y.finite):
            raise Unsupported('isclose of non-finite values')
        d = n_abs(SNum(normal(numt(n_sub(x, y)))))
        return n_cmp('<=', d, n_add(atol, n_mul(rtol, n_abs(y))))
    return f


@model(np.isclose)
def m_isclose(I, args, kw):
    return ufunc(isclose_f(kw.get('rtol', 1e-5), kw.get('atol', 1e-8)), args[:2], None)


@model(np.allclose)
def m_allclose(I, args, kw):
    r = ufunc(isclose_f(kw.get('rtol', 1e-5), kw.get('atol', 1e-8)), args[:2], None)
    return quant(r, 'all') if isinstance(r, NDArr) else r


@model(np.array_equal)
def m_array_equal(I, args, kw):
    a, b = arr_of(args[0]), arr_of(args[1])
    if a.ndim != b.ndim:
        return False
    c = cur()
    for x, y in zip(a.axes, b.axes):
        if not same_axis(x, y) and not c.same(x.length(), y.length()) and not c.decide(x.length() == y.length()):
            return False
    r = ufunc(lambda x, y: n_cmp('==', x, y), [a, b], 'b')
    return quant(r, 'all') if isinstance(r, NDArr) else r


@model(np.nan_to_num)
def m_nan_to_num(I, args, kw):
    big = 1.7976931348623157e308
    nan = kw.get('nan', 0.0)

    def f(x):
        l = lift(x)
        if l.finite:
            return SNum(l.t, True)
        t = l.t
        if l.nan is not False:
            t = Ite(l.nan, toreal(numt(nan)), t)
        if l.pinf is not False:
            t = Ite(l.pinf, RV(big), t)
        if l.ninf is not False:
            t = Ite(l.ninf, RV(-big), t)
        return SNum(t, True)
    return ufunc(f, [args[0]])


def _fname(name):
    return z3.Function(name, z3.RealSort(), z3.RealSort())


_SQRT = _fname('sqrt')
_UN = {n: _fname(n) for n in ('arctan', 'arccos', 'cos', 'sin', 'exp', 'log', 'log10', 'tan', 'arcsin')}
_ATAN2 = z3.Function('arctan2', z3.RealSort(), z3.RealSort(), z3.RealSort())
PI = z3.Real('pi')


def n_sqrt(x):
    l = lift(x)
    t = toreal(l.t)
    if isnumeral(t):
        f = Fraction(numval(t))
        if f >= 0:
            p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return SNum(RV(Fraction(p, q)), True)
    nt = normal(t)
    c = cur()
    c.uf_facts.setdefault('sqrt', lambda a: [z3.Implies(a >= 0, z3.And(_SQRT(a) >= 0, _SQRT(a) * _SQRT(a) == a))])
    neg = nt < RV(0)
    try:
        p = to_poly(nt)
        if all(co >= 0 and all(e % 2 == 0 for _, e in m) for m, co in p.d.items()):
            neg = FALSE
    except Unsupported:
        pass
    if not z3.is_false(neg) and sum_squares(t):
        neg = FALSE
    nan = flag(Or(l.nan, l.ninf, And(Not(Or(l.nan, l.pinf, l.ninf)), neg) if not l.finite else neg))
    return SNum(_SQRT(nt), True, nan, l.pinf, False)


def sum_squares(t):
    """Is t syntactically a sum of squares (with positive factors)?"""
    k = t.decl().kind() if z3.is_app(t) else None
    if isnumeral(t):
        return numval(t) >= 0
    if k == z3.Z3_OP_ADD:
        return all(sum_squares(x) for x in t.children())
    if k == z3.Z3_OP_MUL and t.num_args() == 2:
        a, b = t.children()
        return a.eq(b) or (sum_squares(a) and sum_squares(b))
    c = cur()
    return c.valid(t >= (IV(0) if t.is_int() else RV(0)))


@model(np.sqrt, math.sqrt)
def m_sqrt(I, args, kw):
    return ufunc(n_sqrt, args[:1], 'f') if isinstance(args[0], (NDArr, IList)) else n_sqrt(args[0])


def _unary_model(name):
    d = _UN[name]

    def f(x):
        l = lift(x)
        nan = l.nan
        if name in ('log', 'log10'):
            nan = flag(Or(l.nan, toreal(l.t) <= 0))       # -inf at 0: not told apart
            if not l.finite or True:
                pass
        if name in ('arccos', 'arcsin'):
            if not l.finite:
                nan = flag(Or(l.nan, l.pinf, l.ninf))
        elif not l.finite and name != 'arctan':
            nan = flag(Or(l.nan, l.pinf, l.ninf))
        elif not l.finite:
            t = Ite(l.pinf, PI / 2, Ite(l.ninf, -PI / 2, d(normal(toreal(l.t)))))
            return SNum(t, True, l.nan)
        return SNum(d(normal(toreal(l.t))), True, nan)

    def h(I, args, kw):
        return ufunc(f, args[:1]) if is_symbolic(args[0]) or isinstance(args[0], IList) else I.native(getattr(np, name), args, kw)
    return h


for _n in _UN:
    model(getattr(np, _n))(_unary_model(_n))
    if hasattr(math, _n):
        pass
model(math.cos)(_unary_model('cos'))
model(math.sin)(_unary_model('sin'))
model(math.exp)(_unary_model('exp'))


def n_arctan2(y, x):
    y, x = lift(y), lift(x)
    if not (y.finite and x.finite):
        nan = flag(Or(y.nan, x.nan))
        if not (y.pinf is False and y.ninf is False and x.pinf is False and x.ninf is False):
            raise Unsupported('arctan2 of infinite values')
        return SNum(_ATAN2(normal(toreal(y.t)), normal(toreal(x.t))), True, nan)
    return SNum(_ATAN2(normal(toreal(y.t)), normal(toreal(x.t))), True)


@model(np.arctan2, math.atan2)
def m_arctan2(I, args, kw):
    if not any(is_symbolic(a) or isinstance(a, IList) for a in args[:2]):
        return I.native(np.arctan2, args[:2], {})
    return ufunc(n_arctan2, args[:2])


def n_degrees(x):
    l = lift(x)
    return SNum(toreal(l.t) * RV(180) / PI, True, l.nan, l.pinf, l.ninf)


@model(np.degrees, np.rad2deg, math.degrees)
def m_degrees(I, args, kw):
    if not is_symbolic(args[0]):
        return I.native(np.degrees, args, kw)
    return ufunc(n_degrees, args[:1])


@model(np.radians, np.deg2rad, math.radians)
def m_radians(I, args, kw):
    if not is_symbolic(args[0]):
        return I.native(np.radians, args, kw)
    return ufunc(lambda x: SNum(toreal(lift(x).t) * PI / RV(180), True), args[:1])


@model(np.mod, np.remainder)
def m_mod(I, args, kw):
    def f(x, y):
        x = lift(x)
        if not x.finite:
            r = n_mod(SNum(x.t, True), y)
            return SNum(r.t, True, flag(Or(x.nan, x.pinf, x.ninf)))
        return npnum(n_mod(npnum(x), y))
    return ufunc(f, args[:2])


@model(np.square)
def m_square(I, args, kw):
    return ufunc(lambda x: npnum(n_pow(x, 2)), args[:1])


def _elem2(pyop):
    def h(I, args, kw):
        return binop(I, pyop, arr_of(args[0]) if isinstance(args[0], IList) else args[0], arr_of(args[1]) if isinstance(args[1], IList) else args[1])
    return h


model(np.add)(_elem2(ast.Add))
model(np.subtract)(_elem2(ast.Sub))
model(np.multiply)(_elem2(ast.Mult))


def _cmp2(o):
    def h(I, args, kw):
        return ufunc(lambda x, y: n_cmp(o, x, y), args[:2])
    return h


model(np.greater_equal)(_cmp2('>='))
model(np.less_equal)(_cmp2('<='))
model(np.greater)(_cmp2('>'))
model(np.less)(_cmp2('<'))


@model(np.logical_and)
def m_land(I, args, kw):
    return ufunc(lambda x, y: mkbool(And(bt(x), bt(y))), args[:2])


@model(np.logical_or)
def m_lor(I, args, kw):
    return ufunc(lambda x, y: mkbool(Or(bt(x), bt(y))), args[:2])


@model(np.logical_not)
def m_lnot(I, args, kw):
    return ufunc(lambda x: mkbool(Not(bt(x))), args[:1])


@model(np.minimum)
def m_minimum(I, args, kw):
    return ufunc(lambda x, y: num_pick('min', x, y), args[:2])


@model(np.maximum)
def m_maximum(I, args, kw):
    return ufunc(lambda x, y: num_pick('max', x, y), args[:2])


@model(np.isnan)
def m_isnan(I, args, kw):
    return ufunc(lambda x: mkbool(bt(lift(x).nan)), args[:1])


@model(np.isfinite)
def m_isfinite(I, args, kw):
    def f(x):
        l = lift(x)
        return mkbool(Not(Or(l.nan, l.pinf, l.ninf)))
    return ufunc(f, args[:1])


def _rounder(kind):
    def f(x):
        l = lift(x)
        if not l.finite:
            raise Unsupported('floor of a non-finite value')
        if l.isint:
            return SNum(l.t, True)
        if kind == 'floor':
            return SNum(toreal(t_floor(l.t)), True)
        if kind == 'ceil':
            return SNum(toreal(t_neg_i(t_floor(normal(t_neg_r(l.t))))), True)
        return SNum(toreal(t_trunc(l.t)), True)

    def h(I, args, kw):
        if not is_symbolic(args[0]):
            return I.native(getattr(np, kind), args, kw)
        return ufunc(f, args[:1])
    return h


for _n in ('floor', 'ceil', 'trunc'):
    model(getattr(np, _n))(_rounder(_n))


@model(math.floor)
def m_mfloor(I, args, kw):
    if not is_symbolic(args[0]):
        return I.native(math.floor, args, kw)
    return as_int(t_floor(lift(args[0]).t))


@model(math.ceil)
def m_mceil(I, args, kw):
    if not is_symbolic(args[0]):
        return I.native(math.ceil, args, kw)
    t = lift(args[0]).t
    return as_int(t if t.is_int() else t_neg_i(t_floor(normal(t_neg_r(t)))))


def poly_divide(a, b):
    """Exact quotient of the term a by the term b (real sort), or None."""
    try:
        p, d = to_poly(a), to_poly(b)
    except Unsupported:
        return None
    if not d.d:
        return None
    if not p.d:
        return RV(0)
    ids = sorted(set(i for m in list(p.d) + list(d.d) for i, _ in m))

    def key(m):
        dm = dict(m)
        return tuple(dm.get(i, 0) for i in ids)
    ld = max(d.d, key=key)
    rem = Poly(dict(p.d), dict(p.atoms))
    rem.atoms.update(d.atoms)
    q = Poly({}, dict(rem.atoms))
    for _ in range(60):
        if not rem.d:
            return from_poly(q, False)
        lm = max(rem.d, key=key)
        m = _mmul(lm, tuple((i, -e) for i, e in ld))
        if any(e < 0 for _, e in m):
            return None
        co = rem.d[lm] / d.d[ld]
        t = Poly({m: co}, dict(rem.atoms))
        q = _padd(q, t)
        rem = _padd(rem, _pmul(t, d), -1)
    return None


@model(np.linspace)
def m_linspace(I, args, kw):
    a, b = args[0], args[1]
    num = kwarg(args, kw, 2, 'num', 50)
    if not any(is_symbolic(x) for x in (a, b, num)) and 'endpoint' not in kw:
        return I.native(np.linspace, args, kw)
    if kw.get('endpoint', True) is not True:
        raise Unsupported('linspace endpoint')
    n = int_term(num)
    c = cur()
    if not c.valid(n >= IV(0)) and not c.decide(n >= IV(0)):
        raise_py(ValueError, 'Number of samples must be non-negative')
    ta, tb = toreal(numt(a)), toreal(numt(b))
    diff = normal(t_sub(tb, ta))
    den = toreal(normal(t_sub(n, IV(1))))
    q = poly_divide(diff, den) if not isnumeral(den) else None
    if q is None:
        q = t_div(diff, den) if not isnumeral(den) or numval(den) != 0 else RV(0)
    ax = axis_for(n)

    def fn(cs):
        k = toreal(ax.pos(cs))
        return SNum(t_add(ta, t_mul(k, q)), True)
    return array((ax,), fn, 'f')


@model(np.arange)
def m_arange(I, args, kw):
    if not any(is_symbolic(a) for a in args):
        return I.native(np.arange, args, kw)
    if len(args) == 1:
        lo, hi, st = 0, args[0], 1
    else:
        lo, hi = args[0], args[1]
        st = args[2] if len(args) > 2 else 1
    lo, hi, st = lift(lo), lift(hi), lift(st)
    c = cur()
    if not (lo.finite and hi.finite and st.finite):
        raise Unsupported('arange of non-finite values')
    allint = lo.isint and hi.isint and st.isint
    d = numt(n_sub(hi, lo))
    if allint and isnumeral(st.t) and numval(st.t) == 1:
        n = nonneg_len(normal(d))
    else:
        q = t_div(toreal(normal(d)), toreal(st.t))
        r = normal(toreal(q))
        n = t_neg_i(t_floor(normal(t_neg_r(r))))
        n = n if isnumeral(n) else normal(n)
        n = nonneg_len(n)
    ax = axis_for(n)

    def fn(cs):
        k = ax.pos(cs)
        if allint:
            return SNum(t_add(lo.t, t_mul(k, st.t)), True)
        return SNum(t_add(toreal(lo.t), t_mul(toreal(k), toreal(st.t))), True)
    return array((ax,), fn, 'i' if allint else 'f')


@model(np.meshgrid)
def m_meshgrid(I, args, kw):
    if not any(is_symbolic(a) for a in args):
        return I.native(np.meshgrid, args, kw)
    if len(args) != 2:
        raise Unsupported('meshgrid')
    x, y = [ravel(arr_of(a)) for a in args]
    ix = kw.get('indexing', 'xy')
    fx, fy = x.reader(), y.reader()
    ax, ay = x.axes[0], y.axes[0]
    if ix == 'ij':
        axes = (ax, ay)
        m = ax.m
        X = array(axes, lambda cs: fx(tuple(cs[:m])), x.dtype())
        Y = array(axes, lambda cs: fy(tuple(cs[m:])), y.dtype())
    else:
        axes = (ay, ax)
        m = ay.m
        X = array(axes, lambda cs: fx(tuple(cs[m:])), x.dtype())
        Y = array(axes, lambda cs: fy(tuple(cs[:m])), y.dtype())
    return IList([X, Y])


@model(np.where)
def m_where(I, args, kw):
    if len(args) == 3:
        cnd, a, b = args
        vals = [arr_of(v) if isinstance(v, (IList, np.ndarray)) else v for v in (cnd, a, b)]
        dt = None
        if isinstance(vals[1], NDArr) and vals[1].isrec:
            raise Unsupported('where on records')

        def f(x, y, z):
            return npnum(merge(bt(x) if isinstance(x, (SBool, bool, np.bool_)) else bt(n_cmp('!=', x, 0)), npnum(lift(y)), npnum(lift(z))))
        return ufunc(f, vals)
    a = arr_of(args[0])
    if a.ndim != 1:
        raise Unsupported('where on a multi-dimensional array')
    ax0 = a.axes[0]
    f = a.reader()
    base = ax0.mask

    def mask(cs):
        v = f(tuple(cs))
        b = bt(v) if isinstance(v, (SBool, bool, np.bool_)) else bt(n_cmp('!=', v, 0))
        return And(base(cs) if base is not None else TRUE, b)
    if getattr(a, 'point', False):
        t = single_point(ax0, mask)
        if t is not None:
            return (array((Axis((IV(1),)),), lambda cs: SNum(ax0.pos(t), True), 'i'),)
    ax = Axis(ax0.sizes, memo1(mask), ax0.order, parts=ax0.parts)
    r = array((ax,), lambda cs: SNum(ax0.pos(cs), True), 'i')
    r.positions_of = ax0
    return (r,)


@model(np.diff)
def m_diff(I, args, kw):
    a = arr_of(args[0])
    if a.ndim != 1 or len(args) > 1:
        raise Unsupported('diff')
    ax = a.axes[0]
    n = ax.length()
    f = a.reader()
    ln = slice_len(IV(1), n)
    return array((Axis((ln,)),), lambda cs: npnum(n_sub(f(ax.coords(t_add(cs[0], IV(1)))), f(ax.coords(cs[0])))), a.dtype())


@model(np.gradient)
def m_gradient(I, args, kw):
    a = arr_of(args[0])
    hs = list(args[1:])
    eo = kw.get('edge_order', 1)
    axis = kw.get('axis')
    c = cur()
    which = list(range(a.ndim)) if axis is None else [int(axis) % a.ndim] if not isinstance(axis, (tuple, IList)) else [int(x) % a.ndim for x in axis]
    if len(hs) == 0:
        hs = [1.0] * len(which)
    elif len(hs) == 1 and len(which) > 1:
        hs = hs * len(which)
    elif len(hs) != len(which):
        raise_py(TypeError, 'invalid number of arguments')
    f = a.reader()
    outs = []
    offs, k = [], 0
    for x in a.axes:
        offs.append(k)
        k += x.m
    for w, h in zip(which, hs):
        ax = a.axes[w]
        if not ax.simple:
            raise Unsupported('gradient along a structured axis')
        if isinstance(h, NDArr):
            raise Unsupported('gradient with coordinate arrays')
        n = ax.sizes[0]
        if not c.decide(n >= IV(eo + 1)):
            raise_py(ValueError, 'Shape of array too small to calculate a numerical gradient')
        ht = toreal(numt(h))
        o = offs[w]

        def at(cs, k, o=o):
            return toreal(numt(f(tuple(cs[:o]) + (k,) + tuple(cs[o + 1:]))))

        def fn(cs, o=o, n=n, ht=ht, at=at):
            i = cs[o]
            mid = (at(cs, t_add(i, IV(1))) - at(cs, t_sub(i, IV(1)))) / (RV(2) * ht)
            if eo == 2:
                lo = (-RV(Fraction(3, 2)) * at(cs, IV(0)) + RV(2) * at(cs, IV(1)) - RV(Fraction(1, 2)) * at(cs, IV(2))) / ht
                m1, m2, m3 = t_sub(n, IV(1)), t_sub(n, IV(2)), t_sub(n, IV(3))
                hi = (RV(Fraction(3, 2)) * at(cs, m1) - RV(2) * at(cs, m2) + RV(Fraction(1, 2)) * at(cs, m3)) / ht
            else:
                lo = (at(cs, IV(1)) - at(cs, IV(0))) / ht
                hi = (at(cs, t_sub(n, IV(1))) - at(cs, t_sub(n, IV(2)))) / ht
            return SNum(Ite(eq_t(i, IV(0)), lo, Ite(eq_t(i, t_sub(n, IV(1))), hi, mid)), True)
        outs.append(array(a.axes, fn, 'f'))
    return outs[0] if axis is not None and len(outs) == 1 or a.ndim == 1 else IList(outs)


@model(np.argmin)
def m_argmin(I, args, kw):
    return arg_extremum(arr_of(args[0]), 'min')


@model(np.argmax)
def m_argmax(I, args, kw):
    return arg_extremum(arr_of(args[0]), 'max')


@model(np.sort)
def m_npsort(I, args, kw):
    a = copy_arr(arr_of(args[0]))
    ax = kwarg(args, kw, 1, 'axis', -1)
    if ax is None:
        a = ravel(a)
    return copy_arr(sorted_array(I, a, kw.get('order')))


@model(np.swapaxes)
def m_swapaxes(I, args, kw):
    o = arr_of(args[0])
    return permute(o, swap(o.ndim, args[1], args[2]))


@model(np.transpose)
def m_transpose(I, args, kw):
    return transpose(arr_of(args[0]))


@model(np.append)
def m_append(I, args, kw):
    return concat([ravel(arr_of(args[0])), ravel(arr_of(args[1]))])


@model(np.concatenate)
def m_concatenate(I, args, kw):
    if kwarg(args, kw, 1, 'axis', 0) != 0:
        raise Unsupported('concatenate along an axis')
    r = None
    for x in I.items_of(args[0]):
        a = arr_of(x)
        if a.ndim != 1:
            raise Unsupported('concatenate')
        r = a if r is None else concat([r, a])
    return r


def concat(two):
    a, b = two
    xa, xb = a.axes[0], b.axes[0]
    na, nb = xa.length(), xb.length()
    ax = Axis((normal(t_add(na, nb)),), parts=(xa, xb))

    def mk(fa, fb):
        return lambda cs: merge(lt_t(cs[0], na), lambda: fa(xa.coords(cs[0])), lambda: fb(xb.coords(normal(t_sub(cs[0], na)))))
    if a.isrec:
        return record((ax,), {l: mk(a.reader(l), b.reader(l)) for l in a.fields()}, a.fields(), a.buf.dtypes)
    return array((ax,), mk(a.reader(), b.reader()), 'f' if 'f' in (a.dtype(), b.dtype()) else a.dtype())


def conjuncts(t):
    if z3.is_and(t):
        out = []
        for x in t.children():
            out.extend(conjuncts(x))
        return out
    return [t]


class KeysView(list):
    """The keys of a dictionary: a list with the set operations (whose order is not defined: that of the dictionary)."""

    def __sub__(self, other):
        other = set(other)
        return KeysView(x for x in self if x not in other)

    def __and__(self, other):
        other = set(other)
        return KeysView(x for x in self if x in other)


def unique_axis(a, f, val_at):
    """np.unique of a 1-d array over axis a with value function f, if the value is a strictly increasing
    function of a single coordinate and that coordinate's mask separates.  Returns an array or None."""
    c = cur()
    cs = a.fresh('p')
    v = lift(f(cs))
    if not v.finite:
        return None
    dep = [k for k, x in enumerate(cs) if x.get_id() in consts_of(v.t)]
    if len(dep) != 1:
        return None
    k = dep[0]
    d = c.index('q')
    v2 = z3.substitute(v.t, (cs[k], d))
    n = a.sizes[k]
    if not c.valid(Implies(And(inrange(cs[k], n), inrange(d, n), cs[k] < d), v.t < v2), 4000):
        return None
    other = [j for j in range(a.m) if j != k]
    if a.mask is None:
        for j in other:
            if not c.valid(a.sizes[j] > IV(0)):
                if not c.decide(a.sizes[j] > IV(0)):
                    return array((Axis((IV(0),)),), lambda z: SNum(RV(0), True), 'f')
        return array((Axis((n,)),), lambda z: SNum(z3.substitute(v.t, (cs[k], z[0])), True), 'f')
    m = a.mask(cs)
    mine, rest = [], []
    for q in conjuncts(z3.simplify(m) if False else m):
        ids = consts_of(q)
        hk = cs[k].get_id() in ids
        ho = any(cs[j].get_id() in ids for j in other)
        if (hk or ho) and c.valid(Implies(And(*[inrange(x, s) for x, s in zip(cs, a.sizes)]), q), 3000):
            continue
        if hk and ho:
            # may be separable by monotonicity; give up
            return None
        (rest if ho else mine).append(q)
    mk_ = And(*mine)
    if rest or other:
        # exists an element in the other coordinates
        R = And(*rest)
        cnt = count_term([a.sizes[j] for j in other], tuple(cs[j] for j in other), R) if other else IV(1)
        ne = cnt > IV(0)
        if other and (c.valid(ne) or not c.feasible(Not(ne))):
            ne = TRUE
    else:
        ne = TRUE
    ax = Axis((n,), None if z3.is_true(mk_) and z3.is_true(ne) else memo1(lambda z: And(z3.substitute(mk_, (cs[k], z[0])), ne)))
    return array((ax,), lambda z: SNum(z3.substitute(v.t, (cs[k], z[0])), True), 'f')


@model(np.unique)
def m_unique(I, args, kw):
    if kw:
        raise Unsupported('unique options')
    a = arr_of(args[0])
    if a.isrec:
        raise Unsupported('unique of records')
    a = ravel(a)
    f = a.reader()
    r = unique_axis(a.axes[0], f, None)
    if r is None:
        r = unique_general(a)
        r.buf.set_of = (r.buf.fns[None], copy_arr(a))
    return r


def value_set(a):
    """An array with the same set of values as a, in simpler terms."""
    b = a.buf
    if b.set_of is not None and b.set_of[0] is b.fns[None] and a.field is None and a.axes is b.home:
        return value_set(b.set_of[1])
    return a


def unique_general(a):
    """Sorted distinct values: uninterpreted strictly increasing enumeration."""
    c = cur()
    if c.loop_ix:
        raise Unsupported('unique inside a loop')
    ax0 = a.axes[0]
    f = a.reader()
    cs = ax0.fresh('p')
    v = lift(f(cs))
    if not v.finite:
        raise Unsupported('unique of non-finite values')
    key = ('uniq', ax0.guard(tuple(z3.Int('cq%d' % k) for k in range(ax0.m))).sexpr(),
           lift(f(tuple(z3.Int('cq%d' % k) for k in range(ax0.m)))).t.sexpr())
    cache = c.uniq_cache
    if key in cache:
        return copy_arr(cache[key])
    k = next(c.counter)
    I = z3.IntSort()
    srt = z3.IntSort() if v.isint else z3.RealSort()
    n = z3.Int('nuniq!%d' % k)
    val = z3.Function('uniq!%d' % k, I, srt)
    src = [z3.Function('uniqsrc%d!%d' % (j, k), I, I) for j in range(ax0.m)]
    rank = z3.Function('uniqrank!%d' % k, *([I] * ax0.m + [I]))

    def vf(p):
        w = tuple(s(p) for s in src)
        return [Implies(And(p >= IV(0), p < n), And(ax0.guard(w), lift(f(w)).t == val(p), rank(*w) == p))]
    c.uf_facts[val.name()] = vf

    def rf(*w):
        r = rank(*w)
        return [Implies(ax0.guard(w), And(r >= IV(0), r < n, val(r) == lift(f(w)).t))]
    c.uf_facts[rank.name()] = rf
    x, y = c.index('x'), c.index('y')
    order = Guarded([], Implies(And(x >= IV(0), x < y, y < n), val(x) < val(y)))
    order.matched = 'own'
    c.qdefs.setdefault(val.name(), []).append(([c.index('dummy')], (x, y), order))
    ln = ax0.length()
    c.const_facts['nuniq!%d' % k] = [n >= IV(0), n <= ln, (n > IV(0)) == (ln > IV(0))]
    ax = Axis((n,))
    r = array((ax,), lambda z: SNum(val(z[0]), True), a.dtype())
    r.uniq = (ax0, rank, val)
    cache[key] = r
    return copy_arr(r)


def single_positions(v):
    """(axis, mask fn) if v is (a 1-tuple of) positions into one index set, in increasing order."""
    if type(v) is tuple and len(v) == 1:
        v = v[0]
    src = getattr(v, 'positions_of', None) if isinstance(v, NDArr) else None
    if src is None or src.order != 'lex' and src.mask is not None:
        return None
    return src, v.axes[0]


@model(np.intersect1d)
def m_intersect1d(I, args, kw):
    if kw:
        raise Unsupported('intersect1d options')
    p, q = single_positions(args[0]), single_positions(args[1])
    if p is None or q is None or not same_axis(p[0], q[0]) or p[0].mask is not None:
        raise Unsupported('intersect1d')
    ax0, a, b = p[0], p[1], q[1]
    ax = Axis(ax0.sizes, memo1(lambda cs: And(a.mask(cs) if a.mask else TRUE, b.mask(cs) if b.mask else TRUE)), ax0.order)
    r = array((ax,), lambda cs: SNum(ax0.pos(cs), True), 'i')
    r.positions_of = ax0
    return r


@model(np.argsort)
def m_argsort(I, args, kw):
    a = arr_of(args[0])
    order = kw.get('order')
    if a.ndim != 1:
        raise Unsupported('argsort')
    s = sorted_array(I, a, order)
    ax0 = a.axes[0]
    sx = s.axes[0]
    if getattr(sx, 'perm_of', None) is not None:
        _, perm, inv = sx.perm_of
        r = array((sx,), lambda cs: SNum(perm(cs[0]), True), 'i')
        return r
    # permuted coordinates
    bm = {}
    for e, f in zip(s.bmap, a.bmap):
        if f[0] == 'v':
            bm[f[1]] = e
    def fn(cs):
        back = tuple(cs[bm[j][1]] for j in range(ax0.m))
        return SNum(ax0.pos(back), True)
    r = array((sx,), fn, 'i')
    r.positions_perm = (ax0, lambda cs: tuple(cs[bm[j][1]] for j in range(ax0.m)))
    return r


# ------------------------------------------------------------------ scipy
try:
    from scipy.stats import linregress as _linregress

    @model(_linregress)
    def m_linregress(I, args, kw):
        """Assumed contract: least-squares slope and intercept of y against x, ValueError if all x are equal."""
        c = cur()
        x, y = arr_of(args[0]), arr_of(args[1])
        if kw or x.ndim != 1 or y.ndim != 1:
            raise Unsupported('linregress options')
        axes, (fx, fy) = broadcast([x, y])
        n = SNum(axes_len(axes), True)
        tot = lambda f: sum_of(array(axes, f))
        X, Y = (lambda cs: lift(fx(cs))), (lambda cs: lift(fy(cs)))
        sx, sy = tot(X), tot(Y)
        sxx, sxy = tot(lambda cs: n_mul(X(cs), X(cs))), tot(lambda cs: n_mul(X(cs), Y(cs)))
        den = n_sub(n_mul(n, sxx), n_mul(sx, sx))
        if not c.valid(bt(n_cmp('!=', den, 0))) and c.decide(n_cmp('==', den, 0)):
            raise_py(ValueError, 'Cannot calculate a linear regression if all x values are identical')
        q = lambda t: SNum(t_div(toreal(t.t), toreal(den.t)), True)
        slope = q(n_sub(n_mul(n, sxy), n_mul(sx, sy)))
        icpt = q(n_sub(n_mul(sy, sxx), n_mul(sx, sxy)))
        rest = [SNum(c.skolem('linreg', 'Real'), True) for _ in range(3)]
        c.trusted.add('scipy.stats.linregress: least-squares slope and intercept')
        return (slope, icpt) + tuple(rest)
except ImportError:
    pass


# ------------------------------------------------------------------ no-ops and library objects
class Quiet:
    """Context manager without effect."""
    _pv_symbolic = True

    def _pv_enter(self, I):
        return None

    def _pv_exit(self, I):
        return None

    def _pv_getattr(self, I, name):
        return Meth(name, self, lambda I, o, a, k: None)


import warnings as _warnings


@model(_warnings.catch_warnings, np.errstate)
def m_quiet(I, args, kw):
    return Quiet()


@model(_warnings.simplefilter, _warnings.filterwarnings, np.seterr)
def m_nop(I, args, kw):
    return None


@model(_warnings.warn)
def m_warn(I, args, kw):
    c = cur()
    I.ghost.setdefault('warnings', [])
    w = I.ghost['warnings']
    w.append(args)
    c.log(lambda: w.pop(), ('warn',))
    return None


try:
    import progressbar as _pbar

    class Progress:
        _pv_symbolic = True

        def __init__(self, maxv):
            self.maxv = maxv

        def _pv_getattr(self, I, name):
            if name == 'update':
                return Meth(name, self, pb_update)
            return Meth(name, self, lambda I, o, a, k: o)

    def pb_update(I, o, a, k):
        v = a[0] if a else k.get('value')
        if v is not None and o.maxv is not None:
            if I.truth(n_cmp('>', v, o.maxv)):
                raise_py(ValueError, 'Value out of range')
        return None

    @model(_pbar.ProgressBar)
    def m_progress(I, args, kw):
        return Progress(kw.get('max_value', kw.get('maxval')))

    for _w in ('Bar', 'SimpleProgress', 'ETA', 'Percentage', 'Counter', 'Timer'):
        if hasattr(_pbar, _w):
            model(getattr(_pbar, _w))(lambda I, a, k: None)
except ImportError:
    pass

import sys as _sys
model(_sys.exit)(lambda I, a, k: raise_py(SystemExit, *a))


@model(np.lib.recfunctions.append_fields)
def m_append_fields(I, args, kw):
    base, names, data = args[0], kwarg(args, kw, 1, 'names', None), kwarg(args, kw, 2, 'data', None)
    if set(kw) - {'names', 'data', 'dtypes', 'usemask'} or not isinstance(base, NDArr) or not base.isrec or base.ndim != 1:
        raise Unsupported('append_fields')
    if isinstance(names, (tuple, IList)):
        names, data = list(names), list(data)
    else:
        names, data = [names], [data]
    data = [arr_of(d) for d in data]
    if len(names) != len(data):
        raise_py(ValueError, 'The number of arrays does not match the number of names')
    dts = kw.get('dtypes')
    if dts is None:
        codes = [d.dtype() for d in data]
    elif isinstance(dts, (tuple, IList)):
        codes = [code_of(np.dtype(t)) for t in dts]
        codes = codes * len(data) if len(codes) == 1 else codes
    else:
        codes = [code_of(np.dtype(dts))] * len(data)
    if len(codes) != len(data):
        raise_py(ValueError, 'The dtypes argument must be None, a dtype, or a list')
    c = cur()
    for d in data:
        if d.isrec or d.ndim != 1:
            raise Unsupported('append_fields data')
        if not c.same(d.axes[0].length(), base.axes[0].length()):
            raise Unsupported('append_fields of another length')
    fns, dt = {l: base.reader(l) for l in base.fields()}, {l: base.dtype(l) for l in base.fields()}
    axes = base.axes
    for l, d, q in zip(names, data, codes):
        if l in fns:
            raise_py(ValueError, 'field %r occurs more than once' % l)
        f = broadcast([base.fieldview(base.fields()[0]), d])
        if f[0] is None or not all(same_axis(x, y) for x, y in zip(f[0], axes)):
            raise Unsupported('append_fields along another axis')
        fns[l] = (lambda g, q: lambda cs: cast(g(cs), q))(f[1][1], q)
        dt[l] = q
    return record(axes, fns, tuple(fns), dt)


# ---------------------------------------------------------------- pandas
@model(pd.Series)
def m_series(I, args, kw):
    import pandas_model
    return I.call(pandas_model.Series, args, kw)


@model(pd.DataFrame)
def m_frame(I, args, kw):
    import pandas_model
    return I.call(pandas_model.DataFrame, args, kw)


def m_sorted_together(I, args, kw):
    keys, values, ascending = args
    k, v = arr_of(keys), arr_of(values)
    if k.ndim != 1 or v.ndim != 1 or not same_axis(k.axes[0], v.axes[0]) or not isinstance(ascending, (bool, np.bool_)):
        raise Unsupported('sort of a series')
    c = cur()
    a = k.axes[0]
    if not ascending and a.m == 1:
        x, y = a.fresh('p'), a.fresh('q')
        f = k.reader()
        if c.valid(Implies(And(a.guard(x), a.guard(y), x[0] < y[0]), lift(f(x)).t > lift(f(y)).t)):
            return (keys, values)
    r = sorted_array(I, record(k.axes, {'k': k.reader(), 'v': v.reader()}, ('k', 'v'), {'k': k.dtype(), 'v': v.dtype()}), ['k'])
    if not ascending:
        r = getitem(r, slice(None, None, -1), I)
    return tuple(copy_arr(getitem(r, l, I)) for l in ('k', 'v'))


import pandas_model as _pandas_model
model(_pandas_model.sorted_together)(m_sorted_together)


@model(np.broadcast)
def m_broadcast(I, args, kw):
    """Iteration over sequences and scalars together, as a list of tuples."""
    c = cur()
    n, parts = None, []
    for a in args:
        if isinstance(a, tuple):
            a = IList(list(a))
        if isinstance(a, IList) or isinstance(a, NDArr) and a.ndim == 1:
            a = a if isinstance(a, IList) else tolist(iter_of(I, a))
            L = seq_len(a)
            if c.decide(L == IV(1)):
                parts.append(getitem(a, 0, I))
                if n is None:
                    n = IV(1)
            else:
                if n is not None and not c.decide(n == IV(1)) and not c.decide(n == L):
                    raise_py(ValueError, 'shape mismatch: objects cannot be broadcast to a single shape')
                if n is None or c.valid(n == IV(1)):
                    n = L
                if a.seq is None:
                    raise Unsupported('broadcast of a list of known length')
                parts.append(a.seq)
        elif is_num(a) or isinstance(a, SNum):
            parts.append(a)
        else:
            raise Unsupported('broadcast of %s' % type(a).__name__)
    if n is None:
        raise Unsupported('broadcast of scalars')
    ax = next((p.axis for p in parts if isinstance(p, Seq)), None)
    if ax is None:
        return IList([tuple(parts)])

    def at(cs):
        k = ax.pos(cs)
        return tuple(p.fn(cs if p.axis is ax else p.axis.coords(k)) if isinstance(p, Seq) else p for p in parts)
    r = IList()
    r.items, r.seq = [], Seq(ax, memo(at))
    return r


# ---------------------------------------------------------------- further spellings of the same operations

def _conc(args):
    return not any(is_symbolic(a) or isinstance(a, IList) for a in args)


def _binary(fn, f, dt=None):
    @model(fn)
    def h(I, args, kw):
        if kw or len(args) != 2:
            raise Unsupported('%s with options' % fn.__name__)
        if _conc(args):
            return I.native(fn, args, kw)
        return ufunc(f, args, dt)


for _fn, _f in ((np.add, n_add), (np.subtract, n_sub), (np.multiply, n_mul), (np.divide, n_div), (np.power, n_pow),
                (np.hypot, lambda x, y: n_sqrt(n_add(n_pow(x, 2), n_pow(y, 2))))):
    _binary(_fn, lambda x, y, f=_f: npnum(f(x, y)))
for _fn, _o in ((np.less, '<'), (np.less_equal, '<='), (np.greater, '>'), (np.greater_equal, '>=')):
    _binary(_fn, lambda x, y, o=_o: mkbool(bt(n_cmp(o, x, y))), 'b')


@model(np.negative)
def m_negative(I, args, kw):
    if _conc(args):
        return I.native(np.negative, args, kw)
    return ufunc(lambda x: npnum(n_sub(0, x)), args[:1])


@model(np.fabs)
def m_fabs(I, args, kw):
    if _conc(args):
        return I.native(np.fabs, args, kw)
    return ufunc(lambda x: npnum(n_abs(x)), args[:1], 'f')


@model(np.isinf)
def m_isinf(I, args, kw):
    if _conc(args):
        return I.native(np.isinf, args, kw)

    def f(x):
        l = lift(x)
        return mkbool(bt(Or(l.pinf, l.ninf)))
    return ufunc(f, args[:1], 'b')


@model(np.clip)
def m_clip(I, args, kw):
    x, lo, hi = args[0], kwarg(args, kw, 1, 'a_min', None), kwarg(args, kw, 2, 'a_max', None)
    if len(args) > 3 or set(kw) - {'a_min', 'a_max'}:
        raise Unsupported('clip with options')
    if _conc([x, lo, hi]):
        return I.native(np.clip, [x, lo, hi], {})
    if lo is not None:
        x = ufunc(lambda a, b: num_pick('max', a, b), [x, lo])
    if hi is not None:
        x = ufunc(lambda a, b: num_pick('min', a, b), [x, hi])
    return x


def _nonzero_mask(a):
    if a.dtype() == 'b':
        return a
    return ufunc(lambda x: mkbool(bt(n_cmp('!=', x, 0))), [a], 'b')


@model(np.count_nonzero)
def m_count_nonzero(I, args, kw):
    if kw or len(args) > 1:
        raise Unsupported('count_nonzero along an axis')
    if _conc(args):
        return I.native(np.count_nonzero, args, kw)
    return sum_of(_nonzero_mask(arr_of(args[0])))


@model(np.flatnonzero)
def m_flatnonzero(I, args, kw):
    if _conc(args):
        return I.native(np.flatnonzero, args, kw)
    a = arr_of(args[0])
    if a.ndim != 1:
        raise Unsupported('flatnonzero of a multi-dimensional array')
    return m_where(I, [a], {})[0]


@model(np.nonzero)
def m_nonzero(I, args, kw):
    if _conc(args):
        return I.native(np.nonzero, args, kw)
    return m_where(I, args, kw)


@model(np.hstack)
def m_hstack(I, args, kw):
    if kw:
        raise Unsupported('hstack with options')
    return m_concatenate(I, args, {})


def _rows(I, v):
    rows = I.items_of(v)
    if any(arr_of(r).ndim != 1 for r in rows):
        raise Unsupported('stack of multi-dimensional arrays')
    return m_array(I, [IList(list(rows))], {})


@model(np.stack)
def m_stack(I, args, kw):
    axis = kwarg(args, kw, 1, 'axis', 0)
    if set(kw) - {'axis'} or axis not in (0, 1, -1):
        raise Unsupported('stack with options')
    r = _rows(I, args[0])
    return r if axis == 0 else transpose(arr_of(r))


@model(np.vstack)
def m_vstack(I, args, kw):
    if kw:
        raise Unsupported('vstack with options')
    return _rows(I, args[0])


@model(np.column_stack)
def m_column_stack(I, args, kw):
    return transpose(arr_of(_rows(I, args[0])))
