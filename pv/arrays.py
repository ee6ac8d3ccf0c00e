"""Arrays and sequences of symbolic extent.

An Axis is an index set: coordinates c1..cm with 0 <= ck < sizes[k], optionally
restricted by a mask, enumerated in lexicographic order ('lex') or in some
unknown order.  A Buf stores one value function over buffer coordinates per
field; an NDArr is a (basic) view of a Buf; a Seq is a list-like object over
one axis whose elements are arbitrary values."""
import weakref
import itertools
import numpy as np
import z3
from .core import *
from .core import _sum
from . import core

_stamp = itertools.count(1)


def stamp():
    return next(_stamp)


def memo(fn):
    cache = {}

    def g(cs):
        key = tuple(c.get_id() for c in cs)
        hit = cache.get(key)
        if hit is not None:
            return hit[0]
        r = fn(cs)
        cache[key] = (r, cs)
        return r
    return g


def inrange(c, n):
    return And(c >= IV(0), c < n)


# ------------------------------------------------------------------ axes
class Axis:
    def __init__(self, sizes, mask=None, order='lex', name=None, parts=None):
        self.sizes = tuple(sizes)
        self.parts = parts        # the axes one after the other along the only coordinate
        self.mask = mask
        self.order = order
        self.name = name or 'ax%d' % stamp()
        self._len = None
        self._pos = None
        self._coord = None

    @property
    def m(self):
        return len(self.sizes)

    @property
    def simple(self):
        return self.mask is None and self.order == 'lex' and len(self.sizes) == 1

    def guard(self, cs):
        g = [inrange(c, n) for c, n in zip(cs, self.sizes)]
        if self.mask is not None:
            g.append(self.mask(cs))
        return And(*g)

    def length(self):
        if self._len is None:
            if self.mask is None:
                t = self.sizes[0]
                for s in self.sizes[1:]:
                    t = t_mul(t, s)
                self._len = t
            else:
                from .sums import mk_count
                self._len = mk_count(self)
        return self._len

    def fresh(self, prefix='c'):
        return tuple(cur().index(prefix) for _ in self.sizes)

    def pos(self, cs):
        """Position of the element with coordinates cs."""
        if self.simple:
            return cs[0]
        if self.mask is None and self.order == 'lex':
            p = cs[0]
            for c, n in zip(cs[1:], self.sizes[1:]):
                p = t_add(t_mul(p, n), c)
            return p
        return cur().axis_pos(self)(*cs)

    def coords(self, p):
        """Coordinates of position p."""
        if self.simple:
            return (p,)
        c = cur()
        if id(self) in c.axis_syms and z3.is_app(p) and p.num_args() and p.decl().eq(c.axis_pos(self).decl):
            k = c.axis_pos(self).nparams
            cs = tuple(p.children())[k:]
            if c.axis_pos(self)(*cs).eq(p):
                return cs
        if self.mask is None and self.order == 'lex':
            out = []
            for n in reversed(self.sizes[1:]):
                q, r = split_divmod(p, n)
                out.append(r)
                p = q
            out.append(p)
            return tuple(reversed(out))
        fs = c.axis_coord(self)
        return tuple(f(p) for f in fs)


def split_divmod(p, n):
    """(p div n, p mod n) with p = a*n + b simplified when 0 <= b < n is known."""
    try:
        pp, pn = to_poly(p), to_poly(n)
    except Unsupported:
        return t_idiv(p, n), t_imod(p, n)
    if len(pn.d) == 1:
        (mn, cn), = pn.d.items()
        q, r = {}, {}
        for m, co in pp.d.items():
            k = core._mmul(m, tuple((i, -e) for i, e in mn))
            if all(e > 0 for _, e in k) and (co / cn).denominator == 1 and (mn or True):
                q[k] = co / cn
            else:
                r[m] = co
        if mn and q:
            at = dict(pp.atoms)
            at.update(pn.atoms)
            qt, rt = from_poly(Poly(q, at), True), from_poly(Poly(r, at), True)
            if qt is not None and rt is not None and cur().valid(And(rt >= IV(0), rt < n)):
                return qt, rt
    elif len(pn.d) > 1:
        # p = q n + r with the quotient read off one monomial of n
        for mn, cn in pn.d.items():
            if not mn:
                continue
            q = {}
            for m, co in pp.d.items():
                k = core._mmul(m, tuple((i, -e) for i, e in mn))
                if all(e > 0 for _, e in k) and (co / cn).denominator == 1:
                    q[k] = co / cn
            if not q:
                continue
            at = dict(pp.atoms)
            at.update(pn.atoms)
            qt = from_poly(Poly(q, at), True)
            if qt is None:
                continue
            rt = normal(t_sub(p, t_mul(qt, n)))
            if cur().valid(And(rt >= IV(0), rt < n)):
                return qt, rt
    if cur().valid(And(p >= IV(0), p < n)):
        return IV(0), p
    return t_idiv(p, n), t_imod(p, n)


def range_axis(n):
    return Axis((n,))


def same_axis(a, b):
    """Are two axes the same index set in the same order (proved)?"""
    if a is b:
        return True
    if a.order != b.order or a.m != b.m:
        if a.mask is None and b.mask is None and a.order == b.order == 'lex':
            return None      # regrouping may help
        return False
    c = cur()
    for x, y in zip(a.sizes, b.sizes):
        if not c.same(x, y):
            return False
    if (a.mask is None) != (b.mask is None):
        return False
    if a.mask is not None and a.mask is not b.mask:
        cs = a.fresh()
        if not c.valid(z3.Implies(And(*[inrange(x, n) for x, n in zip(cs, a.sizes)]), a.mask(cs) == b.mask(cs))):
            return False
    return True


# ------------------------------------------------------------------ buffers and arrays
class Buf:
    def __init__(self, sizes, fns, names=None, dtypes=None, readonly=False):
        self.sizes = tuple(sizes)
        self.fns = dict(fns)               # field -> fn(coords)->value; None for plain arrays
        self.names = tuple(names) if names is not None else None
        self.dtypes = dict(dtypes or {})   # field -> 'f' | 'i' | 'b' | 'O'
        self.born = stamp()
        self.readonly = readonly
        self.derived = False               # a substituted copy: other references would not see writes
        self.dep = frozenset()
        self.set_of = None                 # (values at creation, array with the same set of values)
        self.home = None                   # axes of the whole array: only their coordinates are ever read

    def write(self, field, w):
        """w: W record over buffer coordinates."""
        if self.readonly:
            raise Unsupported('write through a read-only view')
        if self.derived:
            raise Unsupported('write to an array that is an element of a list')
        old = self.fns[field]
        self.fns[field] = memo(lambda b, w=w, old=old: w.apply(b, old))
        c = cur()

        def undo(s=self, f=field, o=old):
            s.fns[f] = o
        c.log(undo, ('w', self, field, w))


class W:
    """A region write: for each bounded dimension d lo <= b[d] < hi, and extra(b); value val(b)."""

    def __init__(self, bounds, extra, val):
        self.bounds = bounds      # {d: (lo, hi)}
        self.extra = extra        # fn(b) -> z3 Bool or None
        self.val = val            # fn(b) -> value

    def region(self, b):
        g = []
        for d, (lo, hi) in self.bounds.items():
            if hi is None:
                g.append(eq_t(b[d], lo))
            else:
                g.append(And(le_t(lo, b[d]), lt_t(b[d], hi)))
        if self.extra is not None:
            g.append(self.extra(b))
        return And(*g)

    def apply(self, b, old):
        r = self.region(b)
        if z3.is_true(r):
            return self.val(b)
        if z3.is_false(r):
            return old(b)
        return merge(r, self.val(b), old(b))


def eq_t(a, b):
    if a.eq(b):
        return TRUE
    if isnumeral(a) and isnumeral(b):
        return TRUE if numval(a) == numval(b) else FALSE
    d = normal(t_sub(a, b))
    if isnumeral(d):
        return TRUE if numval(d) == 0 else FALSE
    return a == b


def le_t(a, b):
    if isnumeral(a) and isnumeral(b):
        return TRUE if numval(a) <= numval(b) else FALSE
    return a <= b


def lt_t(a, b):
    if isnumeral(a) and isnumeral(b):
        return TRUE if numval(a) < numval(b) else FALSE
    return a < b


def bmapped(bmap, cs):
    out = []
    for e in bmap:
        if e[0] == 'c':
            out.append(e[1])
        else:
            out.append(cs[e[1]] if e[2] is None else t_add(cs[e[1]], e[2]))
    return out


class NDArr:
    """View of a Buf.  bmap[k] for buffer coordinate k: ('v', j, off) = view coordinate j plus off
    (off None for 0), or ('c', term)."""

    def __init__(self, buf, field, axes, bmap=None):
        self.buf = buf
        self.field = field
        self.axes = tuple(axes)
        if bmap is None:
            bmap = [('v', j, None) for j in range(sum(a.m for a in self.axes))]
        self.bmap = tuple(bmap)

    # -- structure
    @property
    def ndim(self):
        return len(self.axes)

    @property
    def isrec(self):
        return self.buf.names is not None and self.field is None

    def dims(self):
        return [a.length() for a in self.axes]

    def nc(self):
        return sum(a.m for a in self.axes)

    def csizes(self):
        return [s for a in self.axes for s in a.sizes]

    def bcoords(self, cs):
        return bmapped(self.bmap, cs)

    def reader(self, field=None):
        """Snapshot: fn(view coords) -> value."""
        f = self.buf.fns[self.field if field is None else field]
        bmap = self.bmap                   # the view may be replaced in place later
        return lambda cs: f(tuple(bmapped(bmap, cs)))

    def at(self, cs):
        return self.reader()(tuple(cs))

    def fields(self):
        return self.buf.names

    def dtype(self, field=None):
        return self.buf.dtypes.get(self.field if field is None else field, 'f')

    def fieldview(self, name):
        if self.buf.names is None or self.field is not None:
            raise_py(IndexError, 'only integers, slices are valid indices')
        if name not in self.buf.names:
            raise_py(ValueError, 'no field of name %s' % name)
        return NDArr(self.buf, name, self.axes, self.bmap)

    def guard(self, cs):
        g, k = [], 0
        for a in self.axes:
            g.append(a.guard(cs[k:k + a.m]))
            k += a.m
        return And(*g)

    def split(self, cs):
        out, k = [], 0
        for a in self.axes:
            out.append(tuple(cs[k:k + a.m]))
            k += a.m
        return out

    def __repr__(self):
        return 'NDArr(%s; %s)' % (self.field or self.buf.names, ', '.join('x'.join(map(str, a.sizes)) for a in self.axes))

    # operators for specifications
    def __getitem__(self, k):
        from .npmodel import getitem
        return getitem(self, k)

    def __hash__(self):
        return id(self)

    def home_mask(self, a, k):
        """Is the mask of view axis a (first coordinate k) the one the whole array was made with?  Then it
        holds at every coordinate that is ever read and restricts nothing."""
        d = 0
        for h in self.buf.home or ():
            if h.mask is not None and h.m == a.m and all(self.bmap[d + q] == ('v', k + q, None) for q in range(a.m)):
                if h.mask is a.mask:
                    return True
                cs = tuple(z3.Int('hm!%d' % q) for q in range(a.m))
                return bool(h.mask(cs).eq(a.mask(cs)))
            d += h.m
        return False

    def write(self, val, field=None):
        """Assign val(view coords) to every element of the view."""
        f = self.field if field is None else field
        bounds, inv = {}, {}
        cs_sizes = self.csizes()
        for d, e in enumerate(self.bmap):
            if e[0] == 'c':
                bounds[d] = (e[1], None)
            else:
                off = e[2]
                lo = off if off is not None else IV(0)
                hi = t_add(lo, cs_sizes[e[1]])
                inv[e[1]] = (d, off)
                if off is None and cs_sizes[e[1]].eq(self.buf.sizes[d]):
                    continue
                bounds[d] = (lo, hi)
        extra = None
        masked, k = [], 0
        for a in self.axes:
            if a.mask is not None and not self.home_mask(a, k):
                masked.append((a, k))
            k += a.m
        if masked:
            def extra(b, masked=masked, inv=inv):
                cs = [IV(0) if j not in inv else t_sub(b[inv[j][0]], inv[j][1]) if inv[j][1] is not None else b[inv[j][0]]
                      for j in range(len(cs_sizes))]
                return And(*[a.mask(tuple(cs[k:k + a.m])) for a, k in masked])

        def v(b):
            cs = [IV(0) if j not in inv else t_sub(b[inv[j][0]], inv[j][1]) if inv[j][1] is not None else b[inv[j][0]]
                      for j in range(len(cs_sizes))]
            return val(tuple(cs))
        self.buf.write(f, W(bounds, extra, v))


def array(axes, fn, dtype='f', readonly=False):
    """New array with value function fn(coords)."""
    sizes = [s for a in axes for s in a.sizes]
    return at_home(NDArr(Buf(sizes, {None: memo(fn)}, None, {None: dtype}, readonly), None, axes))


def at_home(a):
    a.buf.home = a.axes
    return a


def record(axes, fns, names=None, dtypes=None):
    sizes = [s for a in axes for s in a.sizes]
    names = tuple(names or fns.keys())
    fn = {l: memo(fns[l]) for l in names}
    fn[None] = None
    return at_home(NDArr(Buf(sizes, fn, names, dtypes or {l: 'f' for l in names}), None, axes))


def scalar_record(arr):
    return arr.isrec and arr.ndim == 0


class Seq:
    """A list of symbolic length (mutable) over an axis."""

    def __init__(self, axis, fn, kind='list'):
        self.axis = axis
        self.fn = fn          # fn(coords) -> value
        self.kind = kind
        self.born = stamp()

    def __repr__(self):
        return 'Seq(%s)' % (self.axis.sizes,)


class ASeq(Seq):
    """Elements that are assigned to: held by an array.  A reader stops working when the elements change after it was made."""

    def __init__(self, arr, kind='list'):
        Seq.__init__(self, arr.axes[0], None, kind)
        self.arr = arr

    @property
    def fn(self):
        arr, old = self.arr, self.arr.buf.fns[self.arr.field]
        r = arr.reader()

        def read(cs):
            if arr.buf.fns[arr.field] is not old:
                raise Unsupported('list read after it was changed')
            return r(cs)
        return read

    @fn.setter
    def fn(self, f):
        pass


class IList:
    """A Python list: concrete items, or symbolic content (Seq) after symbolic appends."""
    frozen = False          # an element of a symbolic list: changes would be lost

    def __init__(self, items=()):
        self.items = list(items)
        self.seq = None
        self.born = stamp()

    @property
    def concrete(self):
        return self.seq is None

    def set(self, items, seq):
        if self.frozen:
            raise Unsupported('change of a list in a symbolic list')
        oi, os_ = self.items, self.seq

        def undo(s=self):
            s.items, s.seq = oi, os_
        cur().log(undo, None)
        self.items, self.seq = items, seq

    def append(self, v):
        if self.frozen:
            raise Unsupported('change of a list in a symbolic list')
        oi, os_ = self.items, self.seq

        def undo(s=self):
            s.items, s.seq = oi, os_
        cur().log(undo, ('app', self, v))
        if self.seq is None:
            self.items = oi + [v]
        else:
            self.seq = seq_append(os_, v)

    def __repr__(self):
        return 'IList(%r)' % (self.items if self.seq is None else self.seq)

    def __iter__(self):
        if self.seq is not None:
            raise Unsupported('native iteration of a symbolic list')
        return iter(list(self.items))

    def __len__(self):
        if self.seq is not None:
            raise Unsupported('native length of a symbolic list')
        return len(self.items)

    def __getitem__(self, k):
        from .npmodel import getitem
        return getitem(self, k)


class Pending(Seq):
    """Lists that are appended to in a loop: not readable until the loop is done."""

    def __init__(self, axis):
        Seq.__init__(self, axis, self.unreadable)

    @staticmethod
    def unreadable(cs):
        raise Unsupported('lists read while they are filled')


class Elem(IList):
    """The list at position k of a symbolic list of lists."""

    def __init__(self, parent, k, content):
        IList.__init__(self, content.items or () if content is not None else ())
        self.parent, self.k = parent, k
        self.seq = content.seq if content is not None else Pending(parent.seq.axis)
        self.frozen = True

    def append(self, v):
        p = self.parent
        if p.frozen:
            raise Unsupported('change of a list in a symbolic list')
        old, mine = p.seq, (self.items, self.seq)

        def undo(s=self):
            p.seq = old
            s.items, s.seq = mine
        cur().log(undo, ('scat', p, self.k, v))
        p.seq = Pending(old.axis)
        self.items, self.seq = [], Pending(old.axis)


def seq_append(s, v):
    if not s.axis.simple:
        raise Unsupported('append to a filtered list')
    n = s.axis.sizes[0]
    old = s.fn
    return Seq(range_axis(t_add(n, IV(1))), lambda cs: merge(eq_t(cs[0], n), v, old(cs)))


def seq_concat(a, b):
    """a, b: (items list | Seq); result Seq (or list)."""
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    if isinstance(a, list) and not a:
        return b
    if isinstance(b, list) and not b:
        return a
    a, b = as_seq(a), as_seq(b)
    if not a.axis.simple or not b.axis.simple:
        raise Unsupported('concatenation of filtered lists')
    na, nb = a.axis.sizes[0], b.axis.sizes[0]
    fa, fb = a.fn, b.fn
    return Seq(range_axis(t_add(na, nb)), lambda cs: merge(lt_t(cs[0], na), lambda: fa(cs), lambda: fb((t_sub(cs[0], na),))))


def as_seq(v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, IList):
        return v.seq if v.seq is not None else as_seq(v.items)
    items = list(v)

    def fn(cs):
        i = cs[0]
        if isnumeral(i):
            k = numval(i)
            if 0 <= k < len(items):
                return items[k]
            raise Unsupported('index outside a concrete list')
        if not items:
            raise Unsupported('element of an empty list')
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = merge(i == IV(k), items[k], r)
        return r
    return Seq(range_axis(IV(len(items))), fn)


def merge(c, a, b):
    """if c then a else b, for arbitrary values (callables are delayed values)."""
    if isinstance(c, SBool):
        c = c.t
    if z3.is_true(c):
        return a() if callable(a) and getattr(a, '__name__', '') == '<lambda>' else a
    if z3.is_false(c):
        return b() if callable(b) and getattr(b, '__name__', '') == '<lambda>' else b
    if callable(a) and getattr(a, '__name__', '') == '<lambda>':
        a = a()
    if callable(b) and getattr(b, '__name__', '') == '<lambda>':
        b = b()
    if a is b:
        return a
    if isinstance(a, SObj) or isinstance(b, SObj):
        a, b = obj_of(a), obj_of(b)
        return a if a.t.eq(b.t) else SObj(Ite(c, a.t, b.t))
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return mkbool(z3.simplify(z3.If(c, bt(a), bt(b))) if False else ite_bool(c, bt(a), bt(b)))
    if is_num(a) and is_num(b) or isinstance(a, SBool) and is_num(b) or is_num(a) and isinstance(b, SBool):
        if isconc(a) and isconc(b) and type(a) == type(b) and (a == b or a != a and b != b):
            return a
        return n_ite(c, a, b)
    if type(a) == tuple and type(b) == tuple and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: merge(c, a[k], b[k]) for k in a}
    if isinstance(a, NDArr) and isinstance(b, NDArr) and len(a.axes) == len(b.axes):
        if all(same_axis(x, y) for x, y in zip(a.axes, b.axes)):
            if a.isrec and b.isrec and a.fields() == b.fields():
                return record(a.axes, {l: (lambda cs, fa=a.reader(l), fb=b.reader(l): merge(c, fa(cs), fb(cs))) for l in a.fields()},
                              a.fields(), a.buf.dtypes)
            if not a.isrec and not b.isrec:
                fa, fb = a.reader(), b.reader()
                return array(a.axes, lambda cs: merge(c, fa(cs), fb(cs)), a.dtype())
    if isinstance(a, IList) and isinstance(b, IList) and a.concrete and b.concrete and len(a) == len(b):
        return IList([merge(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SStr) or isinstance(b, SStr):
        if str_same(a, b):
            return a
        return SStr((('ite', c, a, b),))
    if isinstance(a, str) and isinstance(b, str):
        return a if a == b else SStr((('ite', c, a, b),))
    if a is None and b is None:
        return None
    try:
        if type(a) == type(b) and a == b:
            return a
    except PVError:
        raise
    except Exception:
        pass
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def ite_bool(c, a, b):
    if a.eq(b):
        return a
    if z3.is_true(a) and z3.is_false(b):
        return c
    if z3.is_false(a) and z3.is_true(b):
        return Not(c)
    if z3.is_true(a):
        return Or(c, b)
    if z3.is_false(a):
        return And(Not(c), b)
    if z3.is_true(b):
        return Or(Not(c), a)
    if z3.is_false(b):
        return And(c, a)
    return z3.If(c, a, b)


# ------------------------------------------------------------------ strings
class SStr:
    """A symbolic string: parts are literals, ('sym', name), ('fmt', spec, value), ('fn', name, args)."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                for q in p.parts:
                    _addpart(out, q)
            else:
                _addpart(out, p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')


def _addpart(out, p):
    if isinstance(p, str):
        if p == '':
            return
        if out and isinstance(out[-1], str):
            out[-1] += p
            return
    out.append(p)


def str_shape(s, args):
    """Structure of a string with its numeric arguments collected in args."""
    if isinstance(s, str):
        return ('lit', s)
    sh = []
    for p in s.parts:
        if isinstance(p, str):
            sh.append(('lit', p))
        elif p[0] == 'sym':
            sh.append(p)
        elif p[0] == 'fmt':
            v = p[2]
            if is_num(v):
                args.append(numt(v))
                sh.append(('fmt', p[1], 'num'))
            else:
                sh.append(('fmt', p[1], str_shape(v, args)))
        elif p[0] == 'fn':
            sh.append(('fn', p[1], tuple(str_shape(a, args) if isinstance(a, (str, SStr)) else _numshape(a, args) for a in p[2])))
        else:
            raise Unsupported('structure of a conditional string')
    if len(sh) == 1 and sh[0][0] == 'lit':
        return sh[0]
    return tuple(sh)


def _numshape(a, args):
    args.append(numt(a))
    return 'num'


def str_same(a, b):
    try:
        x, y = [], []
        if str_shape(a, x) != str_shape(b, y):
            return False
    except Unsupported:
        return False
    return len(x) == len(y) and all(p.eq(q) or (p.sort() == q.sort() and cur().same(p, q)) for p, q in zip(x, y))


def strip_common(a, b):
    """The strings without their common leading and trailing symbols."""
    p = list(a.parts) if isinstance(a, SStr) else [a] if a else []
    q = list(b.parts) if isinstance(b, SStr) else [b] if b else []
    same = lambda x, y: type(x) is type(y) and (x == y if isinstance(x, str) or x[0] == 'sym' and y[0] == 'sym' else False)
    while p and q and same(p[0], q[0]):
        p.pop(0)
        q.pop(0)
    while p and q and same(p[-1], q[-1]):
        p.pop()
        q.pop()
    return SStr(p), SStr(q)


def longer(a, b):
    """a is surely longer than b: it holds every symbol of b and more text than b."""
    na = sum(len(p) for p in a.parts if isinstance(p, str))
    nb = sum(len(p) for p in b.parts if isinstance(p, str))
    sa = [p for p in a.parts if not isinstance(p, str)]
    sb = [p for p in b.parts if not isinstance(p, str)]
    if any(p[0] != 'sym' for p in sb):
        return False
    for p in sb:
        if p not in [x for x in sa if x[0] == 'sym']:
            return False
        sa.remove(p)
    return na > nb


def str_eq(a, b):
    """Equality of two strings as bool/SBool; undetermined structures give an opaque Bool."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    for u, w in ((a, b), (b, a)):
        if isinstance(u, SStr) and len(u.parts) == 1 and not isinstance(u.parts[0], str) and u.parts[0][0] == 'ite':
            _, cnd, p, q = u.parts[0]
            return mkbool(z3.If(cnd, bt(str_eq(p, w)), bt(str_eq(q, w))))
    a, b = strip_common(a, b)
    if longer(a, b) or longer(b, a):
        return False
    x, y = [], []
    sa, sb = str_shape(a, x), str_shape(b, y)
    if sa == sb and len(x) == len(y):
        return mkbool(And(*[eq_t(p, q) if p.sort() == q.sort() else (toreal(p) == toreal(q)) for p, q in zip(x, y)]))
    c = cur()
    return mkbool(c.string_equal(sa, sb, x, y))


# ------------------------------------------------------------------ substitution and snapshots
def snum_map(v, f):
    def fl(x):
        return x if x is False else flag(f(x))
    return SNum(f(v.t), v.np, fl(v.nan), fl(v.pinf), fl(v.ninf))


def subst(v, pairs):
    """Replace index terms in a value; pairs: [(old, new)]."""
    if not pairs:
        return v

    def f(t):
        return z3.substitute(t, *pairs)
    return vmap(v, f)


def vmap(v, f):
    if isinstance(v, SNum):
        return snum_map(v, f)
    if isinstance(v, SBool):
        return mkbool(f(v.t))
    if isinstance(v, SObj):
        return SObj(f(v.t))
    if isinstance(v, tuple):
        if hasattr(v, '_fields'):
            return type(v)(*[vmap(x, f) for x in v])
        return tuple(vmap(x, f) for x in v)
    if isinstance(v, dict):
        return {k: vmap(x, f) for k, x in v.items()}
    if isinstance(v, IList):
        r = IList([vmap(x, f) for x in v.items or ()])
        if v.seq is not None:
            r.seq = vmap(v.seq, f)
        r.frozen = True
        return r
    if isinstance(v, Seq):
        ax, back = axmap(v.axis, f)
        fn = v.fn
        return Seq(ax, back(fn), v.kind)
    if isinstance(v, NDArr):
        return ndmap(v, f)
    if isinstance(v, SStr):
        return SStr([strpart(p, f) for p in v.parts])
    if isinstance(v, slice):
        return slice(vmap(v.start, f), vmap(v.stop, f), vmap(v.step, f))
    if getattr(v, '_pv_iter', False):
        return v.vmap(f)
    if hasattr(v, '__dict__') and not isinstance(v, type) and type(v).__module__.split('.')[0] in ('droplets', 'strata', 'pandas_model'):
        o = object.__new__(type(v))
        for k, x in v.__dict__.items():
            o.__dict__[k] = vmap(x, f)
        try:
            DERIVED.add(o)
        except TypeError:
            pass
        return o
    if hasattr(v, '_pv_bound'):
        return type(v)(v.fn, vmap(v.obj, f))
    return v


def strpart(p, f):
    if isinstance(p, str) or p[0] == 'sym':
        return p
    if p[0] == 'fmt':
        return ('fmt', p[1], vmap(p[2], f))
    if p[0] == 'fn':
        return ('fn', p[1], tuple(vmap(a, f) for a in p[2]))
    return ('ite', f(p[1]), vmap(p[2], f), vmap(p[3], f))


_INTCACHE = {}


def neutral(cs, f):
    """Fresh placeholders for coordinates so that f does not touch them."""
    c = cur()
    ph = tuple(c.index('nb') for _ in cs)
    return ph, [(p, x) for p, x in zip(ph, cs)]


def wrapfn(fn, f):
    """fn(cs) with f applied to everything but the coordinates passed in."""
    def g(cs):
        ph, back = neutral(cs, f)
        r = fn(ph)
        r = vmap(r, f)
        return vmap(r, lambda t: z3.substitute(t, *back))
    return memo(g)


def axmap(a, f):
    sizes = tuple(f(s) for s in a.sizes)
    if all(x.eq(y) for x, y in zip(sizes, a.sizes)) and a.mask is None:
        return a, lambda fn: wrapfn(fn, f)
    mask = None
    if a.mask is not None:
        am = a.mask

        def mask(cs):
            ph, back = neutral(cs, f)
            return z3.substitute(f(am(ph)), *back)
    return Axis(sizes, mask, a.order), lambda fn: wrapfn(fn, f)


DERIVED = weakref.WeakSet()       # substituted copies of objects: other references would not see changes of attributes


def ndmap(v, f):
    axes = []
    for a in v.axes:
        x, _ = axmap(a, f)
        axes.append(x)
    if v.isrec:
        r = record(axes, {l: wrapfn(v.reader(l), f) for l in v.fields()}, v.fields(), v.buf.dtypes)
    else:
        r = array(axes, wrapfn(v.reader(), f), v.dtype())
    r.buf.derived = True
    return r


def snapshot(v):
    """An immutable copy of the current contents."""
    if isinstance(v, NDArr):
        if v.isrec:
            return record(v.axes, {l: v.reader(l) for l in v.fields()}, v.fields(), v.buf.dtypes)
        return array(v.axes, v.reader(), v.dtype())
    if isinstance(v, tuple) and not hasattr(v, '_fields'):
        return tuple(snapshot(x) for x in v)
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, IList):
        r = IList([snapshot(x) for x in v.items or ()])
        r.seq = Seq(v.seq.axis, v.seq.fn, v.seq.kind) if isinstance(v.seq, ASeq) else v.seq
        return r
    if getattr(v, '_pv_iter', False):
        return v.snapshot()
    if hasattr(v, '__dict__') and not isinstance(v, type) and type(v).__module__.split('.')[0] in ('droplets', 'strata', 'pandas_model'):
        import types
        if isinstance(v, types.FunctionType) or isinstance(v, types.ModuleType):
            return v
        o = object.__new__(type(v))
        for k, x in v.__dict__.items():
            o.__dict__[k] = snapshot(x)
        return o
    return v
