"""Symbolic values, path exploration, solving.

Numbers are mathematical: Python ints and numpy integers are z3 Ints, floats
are z3 Reals, with explicit nan/+inf/-inf flags where a division can produce
them.  Everything below works on z3 terms; `Ctx` holds the path condition of
the path being explored and the facts known about uninterpreted functions."""
import itertools
import time
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 7)


class PVError(BaseException):
    """Engine-level control flow: never visible to interpreted code."""


class Unsupported(PVError):
    pass


class Infeasible(PVError):
    pass


class Budget(PVError):
    pass


class IExc(Exception):
    """An exception raised by interpreted code; .exc is a real exception object."""

    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc


def raise_py(cls, *args):
    raise IExc(cls(*args))


# ---------------------------------------------------------------- values
class SObj:
    """An object the code only passes on and compares with None, as a number (NONE for None)."""
    __slots__ = ('t',)
    NONE = z3.IntVal(-1)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SObj(%s)' % self.t

    def __bool__(self):
        raise Unsupported('native truth test of a symbolic object')


def obj_of(v):
    if isinstance(v, SObj):
        return v
    if v is None:
        return SObj(SObj.NONE)
    raise Unsupported('object of type %s in an array of objects' % type(v).__name__)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def __bool__(self):
        raise Unsupported('native truth test of a symbolic bool')

    def __and__(self, o):
        return mkbool(And(self.t, bt(o)))

    def __or__(self, o):
        return mkbool(Or(self.t, bt(o)))

    def __invert__(self):
        return mkbool(Not(self.t))


class SNum:
    """t: z3 Int or Real term.  np: value has numpy scalar semantics.
    nan/pinf/ninf: False or z3 Bool (value term is then meaningless)."""
    __slots__ = ('t', 'np', 'nan', 'pinf', 'ninf')

    def __init__(self, t, np=False, nan=False, pinf=False, ninf=False):
        self.t = t
        self.np = np
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    @property
    def isint(self):
        return self.t.is_int()

    @property
    def finite(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    def __repr__(self):
        return 'SNum(%s%s)' % (self.t, '' if self.finite else ' flagged')

    def __hash__(self):
        raise Unsupported('hash of symbolic number')

    def __bool__(self):
        raise Unsupported('native truth test of a symbolic number')

    def __index__(self):
        raise Unsupported('native index of a symbolic number')

    # operators (used by specifications)
    def __add__(self, o): return n_add(self, o)
    def __radd__(self, o): return n_add(o, self)
    def __sub__(self, o): return n_sub(self, o)
    def __rsub__(self, o): return n_sub(o, self)
    def __mul__(self, o): return n_mul(self, o)
    def __rmul__(self, o): return n_mul(o, self)
    def __neg__(self): return n_neg(self)
    def __truediv__(self, o): return n_div(self, o)
    def __rtruediv__(self, o): return n_div(o, self)
    def __floordiv__(self, o): return n_floordiv(self, o)
    def __rfloordiv__(self, o): return n_floordiv(o, self)
    def __mod__(self, o): return n_mod(self, o)
    def __pow__(self, o): return n_pow(self, o)
    def __lt__(self, o): return n_cmp('<', self, o)
    def __le__(self, o): return n_cmp('<=', self, o)
    def __gt__(self, o): return n_cmp('>', self, o)
    def __ge__(self, o): return n_cmp('>=', self, o)
    def __eq__(self, o): return n_cmp('==', self, o)
    def __ne__(self, o): return n_cmp('!=', self, o)


# ---------------------------------------------------------------- bool terms
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def bt(b):
    if isinstance(b, SBool):
        return b.t
    if b is True or b is False:
        return TRUE if b else FALSE
    if isinstance(b, z3.BoolRef):
        return b
    import numpy as np
    if isinstance(b, np.bool_):
        return TRUE if b else FALSE
    raise Unsupported('not a boolean: %r' % (b,))


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def And(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return FALSE
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return TRUE
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(x):
    if x is True:
        return FALSE
    if x is False:
        return TRUE
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if c is True or (not isinstance(c, bool) and z3.is_true(c)):
        return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)):
        return b
    if a.eq(b):
        return a
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    return z3.If(c, a, b)


def flag(x):
    """Normalise a flag to False or a z3 Bool."""
    if x is False or (not isinstance(x, bool) and z3.is_false(x)):
        return False
    if x is True:
        return TRUE
    return x


# ---------------------------------------------------------------- numbers
def IV(i):
    return z3.IntVal(int(i))


def RV(f):
    fr = Fraction(f)
    return z3.RealVal(fr)


def isnumeral(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def numval(t):
    if z3.is_int_value(t):
        return t.as_long()
    return t.as_fraction()


def toreal(t):
    if t.is_int():
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            return z3.If(t.arg(0), toreal(t.arg(1)), toreal(t.arg(2)))
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            return _sum([toreal(c) for c in t.children()])
        if k == z3.Z3_OP_SUB:
            c = [toreal(x) for x in t.children()]
            r = c[0]
            for x in c[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_MUL:
            c = [toreal(x) for x in t.children()]
            r = c[0]
            for x in c[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -toreal(t.arg(0))
        return z3.ToReal(t)
    return t


def _sum(ts):
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    return r


def is_num(v):
    import numpy as np
    return isinstance(v, (SNum, int, float, np.floating, np.integer)) and not isinstance(v, bool) \
        or isinstance(v, (bool, np.bool_))


def isconc(v):
    """A concrete Python/numpy number."""
    import numpy as np
    return isinstance(v, (int, float, bool, np.floating, np.integer, np.bool_))


def lift(v):
    """Any number -> SNum."""
    import numpy as np
    if isinstance(v, SNum):
        return v
    if isinstance(v, (bool, np.bool_)):
        return SNum(IV(int(v)))
    if isinstance(v, (int,)):
        return SNum(IV(v))
    if isinstance(v, np.integer):
        return SNum(IV(int(v)), True)
    if isinstance(v, (float, np.floating)):
        isn = isinstance(v, np.floating)
        f = float(v)
        if f != f:
            return SNum(RV(0), isn, nan=TRUE)
        if f == float('inf'):
            return SNum(RV(0), isn, pinf=TRUE)
        if f == float('-inf'):
            return SNum(RV(0), isn, ninf=TRUE)
        return SNum(RV(f), isn)
    if isinstance(v, SBool):
        return SNum(z3.If(v.t, IV(1), IV(0)), True)
    if isinstance(v, z3.ArithRef):
        return SNum(v)
    raise Unsupported('not a number: %r' % (type(v),))


def numt(v):
    return lift(v).t


def _pair(a, b):
    a, b = lift(a), lift(b)
    ta, tb = a.t, b.t
    if ta.is_int() != tb.is_int():
        ta, tb = toreal(ta), toreal(tb)
    return a, b, ta, tb


def _fold2(op, ta, tb):
    if isnumeral(ta) and isnumeral(tb):
        r = op(numval(ta), numval(tb))
        return IV(r) if ta.is_int() else RV(r)
    return None


def t_add(ta, tb):
    r = _fold2(lambda x, y: x + y, ta, tb)
    if r is not None:
        return r
    if isnumeral(ta) and numval(ta) == 0:
        return tb
    if isnumeral(tb) and numval(tb) == 0:
        return ta
    return ta + tb


def t_sub(ta, tb):
    r = _fold2(lambda x, y: x - y, ta, tb)
    if r is not None:
        return r
    if isnumeral(tb) and numval(tb) == 0:
        return ta
    if ta.eq(tb):
        return IV(0) if ta.is_int() else RV(0)
    return ta - tb


def t_mul(ta, tb):
    r = _fold2(lambda x, y: x * y, ta, tb)
    if r is not None:
        return r
    for x, y in ((ta, tb), (tb, ta)):
        if isnumeral(x):
            if numval(x) == 0:
                return x
            if numval(x) == 1:
                return y
    return ta * tb


def n_add(a, b):
    a, b, ta, tb = _pair(a, b)
    n = a.np or b.np
    if a.finite and b.finite:
        return SNum(t_add(ta, tb), n)
    nan = flag(Or(a.nan, b.nan, And(a.pinf, b.ninf), And(a.ninf, b.pinf)))
    return SNum(t_add(ta, tb), n, nan,
                flag(And(Not(nan), Or(a.pinf, b.pinf))), flag(And(Not(nan), Or(a.ninf, b.ninf))))


def n_neg(a):
    a = lift(a)
    t = (IV(-numval(a.t)) if a.isint else RV(-numval(a.t))) if isnumeral(a.t) else -a.t
    return SNum(t, a.np, a.nan, a.ninf, a.pinf)


def n_sub(a, b):
    a, b, ta, tb = _pair(a, b)
    if a.finite and b.finite:
        return SNum(t_sub(ta, tb), a.np or b.np)
    return n_add(a, n_neg(b))


def n_mul(a, b):
    a, b, ta, tb = _pair(a, b)
    n = a.np or b.np
    if a.finite and b.finite:
        return SNum(t_mul(ta, tb), n)
    z = RV(0) if not ta.is_int() else IV(0)
    infa, infb = Or(a.pinf, a.ninf), Or(b.pinf, b.ninf)
    zero_a = And(Not(Or(infa, a.nan)), ta == z)
    zero_b = And(Not(Or(infb, b.nan)), tb == z)
    nan = flag(Or(a.nan, b.nan, And(infa, zero_b), And(infb, zero_a)))
    posa = Or(a.pinf, And(Not(a.ninf), ta > z))
    posb = Or(b.pinf, And(Not(b.ninf), tb > z))
    anyinf = And(Not(nan), Or(infa, infb))
    same = posa == posb
    return SNum(t_mul(ta, tb), n, nan, flag(And(anyinf, same)), flag(And(anyinf, Not(same))))


def n_div(a, b):
    """True division.  Python semantics raise on a zero divisor, numpy gives flags."""
    a, b, ta, tb = _pair(a, b)
    ta, tb = toreal(ta), toreal(tb)
    c = cur()
    if not (a.np or b.np):
        if not (a.finite and b.finite):
            raise Unsupported('division of non-finite python floats')
        if c.decide(tb == RV(0)):
            raise IExc(ZeroDivisionError('division by zero'))
        return SNum(t_div(ta, tb), False)
    if a.finite and b.finite and c.known_nonzero(tb):
        return SNum(t_div(ta, tb), True)
    if not (b.pinf is False and b.ninf is False):
        raise Unsupported('division by a possibly infinite value')
    z = tb == RV(0)
    zero_a = And(Not(Or(a.pinf, a.ninf)), ta == RV(0))
    nan = flag(Or(a.nan, b.nan, And(z, zero_a)))
    pos = Or(a.pinf, And(Not(a.ninf), ta > RV(0)))
    neg = Or(a.ninf, And(Not(a.pinf), ta < RV(0)))
    inf_a = Or(a.pinf, a.ninf)
    return SNum(Ite(z, RV(0), t_div(ta, tb)), True, nan,
                flag(And(Not(nan), Or(And(z, pos), And(inf_a, Not(z), pos == (tb > 0))))),
                flag(And(Not(nan), Or(And(z, neg), And(inf_a, Not(z), pos != (tb > 0))))))


def t_div(ta, tb):
    """ta/tb for tb != 0 (real sort), cancelling common factors."""
    if isnumeral(tb):
        if isnumeral(ta):
            return RV(Fraction(numval(ta)) / Fraction(numval(tb)))
        if numval(tb) == 1:
            return ta
        return ta * RV(1 / Fraction(numval(tb)))
    if ta.eq(tb):
        return RV(1)
    r = poly_cancel(ta, tb)
    if r is not None:
        return r
    return ta / tb


_DIV = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
_MOD = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())


def t_idiv(ta, tb):
    if isnumeral(ta) and isnumeral(tb) and numval(tb) != 0:
        return IV(numval(ta) // numval(tb))
    if isnumeral(tb) and numval(tb) == 1:
        return ta
    if isnumeral(tb) and numval(tb) > 0:
        return ta / tb
    p = poly_cancel(ta, tb, integer=True)
    if p is not None:
        return p
    return _DIV(ta, tb)


def t_imod(ta, tb):
    if isnumeral(ta) and isnumeral(tb) and numval(tb) != 0:
        return IV(numval(ta) % numval(tb))
    if isnumeral(tb) and numval(tb) == 1:
        return IV(0)
    if isnumeral(tb) and numval(tb) > 0:
        return ta % tb
    return _MOD(ta, tb)


def n_floordiv(a, b):
    a, b, ta, tb = _pair(a, b)
    if not (a.finite and b.finite):
        raise Unsupported('floor division of non-finite values')
    if cur().decide(tb == (IV(0) if tb.is_int() else RV(0))):
        if a.np or b.np:
            raise Unsupported('numpy floor division by zero')
        raise IExc(ZeroDivisionError('integer division or modulo by zero'))
    if ta.is_int():
        return SNum(t_idiv(ta, tb), a.np or b.np)
    return SNum(toreal(t_floor(t_div(ta, tb))), a.np or b.np)


def n_mod(a, b):
    a, b, ta, tb = _pair(a, b)
    if not (a.finite and b.finite):
        raise Unsupported('modulo of non-finite values')
    if cur().decide(tb == (IV(0) if tb.is_int() else RV(0))):
        if a.np or b.np:
            raise Unsupported('numpy modulo by zero')
        raise IExc(ZeroDivisionError('integer division or modulo by zero'))
    if ta.is_int():
        return SNum(t_imod(ta, tb), a.np or b.np)
    if isnumeral(tb) and numval(tb) > 0 and any(name_of(x) in ('arccos', 'arcsin', 'arctan', 'arctan2') for x in apps_in(ta)):
        # an angle: what is known of its remainder is that it is one
        c = cur()
        r, ps, new = c.determined('mod', 'Real', [], [normal(ta), tb])
        if new:
            if ps:
                c.define(r, ps, [r >= 0, r < tb], TRUE)
            else:
                c.define(r, [], [r >= 0, r < tb], TRUE)
        return SNum(r, a.np or b.np)
    return SNum(ta - tb * toreal(t_floor(t_div(ta, tb))), a.np or b.np)


def n_pow(a, b):
    if isconc(b) and float(b) == int(b) and 0 <= int(b) <= 4:
        r = 1
        a = lift(a)
        if int(b) == 0:
            return SNum(IV(1) if a.isint else RV(1), a.np)
        r = a
        for _ in range(int(b) - 1):
            r = n_mul(r, a)
        return r
    raise Unsupported('power')


def n_abs(a):
    a = lift(a)
    z = IV(0) if a.isint else RV(0)
    if isnumeral(a.t):
        v = abs(numval(a.t))
        t = IV(v) if a.isint else RV(v)
    else:
        t = z3.If(a.t >= z, a.t, -a.t)
    return SNum(t, a.np, a.nan, flag(Or(a.pinf, a.ninf)), False)


_CMP = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
        '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}


def n_cmp(op, a, b):
    import numpy as np
    if a is None or b is None or isinstance(a, (str, bytes, tuple)) or isinstance(b, (str, bytes, tuple)):
        if op == '==':
            return False
        if op == '!=':
            return True
        raise IExc(TypeError("'%s' not supported between these operands" % op))
    if not is_num(a) or not is_num(b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            a, b = lift(a), lift(b)
        else:
            if op == '==':
                return False
            if op == '!=':
                return True
            raise Unsupported('comparison of %r and %r' % (type(a), type(b)))
    if isconc(a) and isconc(b):
        return bool(_CMP[op](a, b))
    a, b, ta, tb = _pair(a, b)
    if isnumeral(ta) and isnumeral(tb):
        base = TRUE if _CMP[op](numval(ta), numval(tb)) else FALSE
    elif ta.eq(tb):
        base = TRUE if op in ('<=', '>=', '==') else FALSE
    else:
        base = _CMP[op](ta, tb)
    if a.finite and b.finite:
        return mkbool(base)
    nan = Or(a.nan, b.nan)
    infs = Or(a.pinf, a.ninf, b.pinf, b.ninf)
    # extended-real comparison through ranks -1, 0, 1
    def rank(x):
        return z3.If(bt(x.pinf), IV(1), z3.If(bt(x.ninf), IV(-1), IV(0)))
    ra, rb = z3.simplify(rank(a)), z3.simplify(rank(b))
    ext = {'<': ra < rb, '<=': ra <= rb, '>': ra > rb, '>=': ra >= rb, '==': ra == rb, '!=': ra != rb}[op]
    core = z3.simplify(Ite(infs, ext, base))
    if op == '!=':
        return mkbool(Or(nan, core))
    return mkbool(And(Not(nan), core))


def n_ite(c, a, b):
    """if-then-else on numbers (c z3 Bool)."""
    if isinstance(c, SBool):
        c = c.t
    if c is True or (not isinstance(c, bool) and z3.is_true(c)):
        return a
    if c is False or (not isinstance(c, bool) and z3.is_false(c)):
        return b
    a, b, ta, tb = _pair(a, b)

    def fl(x, y):
        if x is False and y is False:
            return False
        return flag(Or(And(c, x), And(Not(c), y)))
    return SNum(Ite(c, ta, tb), a.np or b.np, fl(a.nan, b.nan), fl(a.pinf, b.pinf), fl(a.ninf, b.ninf))


# floor / truncation / rounding -------------------------------------------
_FLOOR = z3.Function('rfloor', z3.RealSort(), z3.IntSort())
_ROUND = z3.Function('rround', z3.RealSort(), z3.IntSort())


def t_floor(t):
    if t.is_int():
        return t
    if isnumeral(t):
        f = Fraction(numval(t))
        return IV(f.numerator // f.denominator)
    i, rest = int_part(t)
    if rest is None:
        return i
    if isnumeral(rest):
        f = Fraction(numval(rest))
        k = f.numerator // f.denominator
        return t_add(i, IV(k))
    return t_add(i, _FLOOR(rest)) if i is not None else _FLOOR(t)


def t_trunc(t):
    if t.is_int():
        return t
    i, rest = int_part(t)
    if rest is None:
        return i
    f = t_floor(t)
    g = t_neg_i(t_floor(t_neg_r(t)))
    if f.eq(g):
        return f
    return Ite(t >= RV(0), f, g)


def t_neg_i(t):
    return IV(-numval(t)) if isnumeral(t) else -t


def t_neg_r(t):
    return RV(-numval(t)) if isnumeral(t) else -t


def t_round(t):
    """Round half to even (Python round / numpy round with 0 decimals)."""
    if t.is_int():
        return t
    if isnumeral(t):
        return IV(round(Fraction(numval(t))))
    i, rest = int_part(t)
    if rest is None:
        return i
    return _ROUND(t)


# ---------------------------------------------------------------- polynomials
class Poly:
    """Polynomial over z3 atoms: {monomial: Fraction}; monomial = sorted tuple of (id, power)."""
    __slots__ = ('d', 'atoms')

    def __init__(self, d=None, atoms=None):
        self.d = d or {}
        self.atoms = atoms if atoms is not None else {}


def _padd(a, b, s=1):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + s * c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    at = dict(a.atoms)
    at.update(b.atoms)
    return Poly(d, at)


def _mmul(m1, m2):
    d = dict(m1)
    for k, p in m2:
        d[k] = d.get(k, 0) + p
    return tuple(sorted((k, p) for k, p in d.items() if p))


def _pmul(a, b):
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = _mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    at = dict(a.atoms)
    at.update(b.atoms)
    return Poly(d, at)


def to_poly(t, depth=0):
    if isnumeral(t):
        v = Fraction(numval(t))
        return Poly({(): v} if v else {}, {})
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        r = Poly()
        for c in t.children():
            r = _padd(r, to_poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        r = to_poly(ch[0])
        for c in ch[1:]:
            r = _padd(r, to_poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return _padd(Poly(), to_poly(t.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = Poly({(): Fraction(1)}, {})
        for c in t.children():
            r = _pmul(r, to_poly(c))
            if len(r.d) > 400:
                raise Unsupported('polynomial too large')
        return r
    if k == z3.Z3_OP_TO_REAL:
        inner = to_poly(t.arg(0))
        # lift integer atoms to real atoms
        d, at = {}, {}
        ren = {}
        for i, a in inner.atoms.items():
            if a.is_int():
                ra = z3.ToReal(a)
                ren[i] = ra.get_id()
                at[ra.get_id()] = ra
            else:
                ren[i] = i
                at[i] = a
        for m, c in inner.d.items():
            d[tuple(sorted((ren[i], p) for i, p in m))] = c
        return Poly(d, at)
    if k == z3.Z3_OP_DIV:
        num = to_poly(t.arg(0))
        den = t.arg(1)
        if isnumeral(den):
            c = 1 / Fraction(numval(den))
            return Poly({m: v * c for m, v in num.d.items()}, num.atoms)
        dp = to_poly(den)
        if len(dp.d) == 1:
            (m, c), = dp.d.items()
            inv = Poly({tuple((i, -p) for i, p in m): 1 / c}, dp.atoms)
            return _pmul(num, inv)
        if len(dp.d) > 1:
            lead = dp.d[min(dp.d, key=lambda m: (len(m), m))]
            nd = from_poly(Poly({m: v / lead for m, v in dp.d.items()}, dp.atoms), False)
            inv = Poly({((nd.get_id(), -1),): 1 / lead}, {nd.get_id(): nd})
            return _pmul(num, inv)
    i = t.get_id()
    return Poly({((i, 1),): Fraction(1)}, {i: t})


def from_poly(p, isint):
    terms = []
    for m, c in sorted(p.d.items(), key=lambda kv: (len(kv[0]), kv[0])):
        num, den = None, None
        for i, pw in m:
            a = p.atoms[i]
            for _ in range(abs(pw)):
                if pw > 0:
                    num = a if num is None else num * a
                else:
                    den = a if den is None else den * a
        if isint:
            if den is not None or c.denominator != 1:
                return None
            if num is None:
                terms.append(IV(c))
            else:
                terms.append(num if c == 1 else IV(c) * num)
        else:
            if num is None and den is None:
                terms.append(RV(c))
                continue
            t = num if num is not None else RV(1)
            if den is not None:
                t = t / den
            terms.append(t if c == 1 else RV(c) * t)
    if not terms:
        return IV(0) if isint else RV(0)
    return _sum(terms)


def _rebuild(t, nc):
    if all(a.eq(b) for a, b in zip(nc, t.children())):
        return t
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return _sum(nc)
    if k == z3.Z3_OP_MUL:
        r = nc[0]
        for x in nc[1:]:
            r = r * x
        return r
    if k == z3.Z3_OP_SUB and len(nc) > 2:
        r = nc[0]
        for x in nc[1:]:
            r = r - x
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(*nc)
    if k == z3.Z3_OP_OR:
        return z3.Or(*nc)
    return t.decl()(*nc)


def normal(t):
    """Polynomial normal form of an arithmetic term."""
    p = to_poly(t)
    r = from_poly(p, t.is_int())
    return t if r is None else r


def poly_cancel(ta, tb, integer=False):
    """ta/tb if every monomial of ta is divisible by the single monomial tb, else None."""
    try:
        pb = to_poly(tb)
        if len(pb.d) != 1:
            return None
        pa = to_poly(ta)
    except Unsupported:
        return None
    (mb, cb), = pb.d.items()
    d = {}
    for m, c in pa.d.items():
        q = _mmul(m, tuple((i, -p) for i, p in mb))
        if any(p < 0 for _, p in q) and not any(p < 0 for _, p in m):
            return None
        d[q] = c / cb
    at = dict(pa.atoms)
    at.update(pb.atoms)
    if integer and (any(c.denominator != 1 for c in d.values()) or any(p < 0 for m in d for _, p in m)):
        return None
    return from_poly(Poly(d, at), integer)


def int_part(t):
    """Split real term t = i + rest with i an Int term; rest None if t is an integer."""
    try:
        p = to_poly(t)
    except Unsupported:
        return None, t
    di, dr = {}, {}
    for m, c in p.d.items():
        ok = c.denominator == 1 and all(pw > 0 and z3.is_app_of(p.atoms[i], z3.Z3_OP_TO_REAL) for i, pw in m)
        (di if ok else dr)[m] = c
    # integer part
    terms = []
    for m, c in sorted(di.items(), key=lambda kv: (len(kv[0]), kv[0])):
        f = None
        for i, pw in m:
            for _ in range(pw):
                a = p.atoms[i].arg(0)
                f = a if f is None else f * a
        if f is None:
            terms.append(IV(c))
        else:
            terms.append(f if c == 1 else IV(c) * f)
    it = _sum(terms) if terms else IV(0)
    if not dr:
        return it, None
    return it, from_poly(Poly(dr, p.atoms), False)


# ---------------------------------------------------------------- context
_CUR = [None]


def cur():
    return _CUR[0]


class Frame:
    def __init__(self, prefix, work, pc_len):
        self.prefix = prefix
        self.taken = []
        self.work = work


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}

    def add(self, backend, dt):
        self.queries += 1
        self.time += dt
        e = self.by.setdefault(backend, [0, 0.0])
        e[0] += 1
        e[1] += dt


STATS = Stats()
_FEAS_CACHE = {}


_CONSTS = {}


def consts_of(t, acc=None, seen=None):
    """All uninterpreted 0-ary constants of t."""
    if acc is None and seen is None:
        hit = _CONSTS.get(t.get_id())
        if hit is None:
            if len(_CONSTS) > 200000:
                _CONSTS.clear()
            hit = _CONSTS[t.get_id()] = (t, consts_of(t, {}, set()))
        return hit[1]
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc[x.get_id()] = x
            else:
                stack.extend(x.children())
    return acc


def apps_of(ts, seen):
    """All uninterpreted function applications in ts not containing bound variables."""
    out = []
    stack = list(ts)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen[i] = x
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out


_APPS = {}


def apps_in(t):
    hit = _APPS.get(t.get_id())
    if hit is None:
        if len(_APPS) > 400000:
            _APPS.clear()
        hit = _APPS[t.get_id()] = (t, [a for a in apps_of([t], {}) if a.num_args()])
    return hit[1]


_DECLS = {}
_SEED = z3.Function('seed', z3.IntSort(), z3.BoolSort())


def decls_in(t):
    """The uninterpreted symbols of a formula, also inside quantifiers."""
    hit = _DECLS.get(t.get_id())
    if hit is None:
        if len(_DECLS) > 100000:
            _DECLS.clear()
        seen, ds, stack = set(), {}, [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    d = x.decl()
                    ds[d.get_id()] = d
                stack.extend(x.children())
        hit = _DECLS[t.get_id()] = (t, tuple(ds.values()))
    return hit[1]


_NAMES = {}


def name_of(x):
    """Name of the function symbol of an application (cached)."""
    hit = _NAMES.get(x.get_id())
    if hit is None:
        if len(_NAMES) > 400000:
            _NAMES.clear()
        hit = _NAMES[x.get_id()] = (x.decl().name(), x)
    return hit[0]


class Guarded:
    """A fact that holds under guards (most of them are usually part of the query and need not be repeated)."""
    matched = False

    def __init__(self, guards, f):
        self.guards, self.f = guards, f

    def subst(self, pr):
        return Guarded([z3.substitute(g, *pr) for g in self.guards], z3.substitute(self.f, *pr)) if pr else self

    def given(self, ids):
        gs = [g for g in self.guards if g.get_id() not in ids]
        return Implies(And(*gs), self.f) if gs else self.f


def _conj(g):
    if z3.is_and(g):
        return [x for q in g.children() for x in _conj(q)]
    return [] if z3.is_true(g) else [g]


class Ctx:
    def __init__(self, deadline=None):
        self.pc = []
        self.frames = []
        self.counter = itertools.count()
        self.journal = []
        self.uf_facts = {}
        self.qfacts = []
        self.extra_terms = []
        self.lmemo, self.nlmemo = {}, {}
        self.wits = set()          # names of witnesses of extrema
        self.intervals = False     # rewrite selections that are proved to be intervals as ranges
        self.qdefs = {}           # symbol -> universally quantified defining facts
        self.nonzero = {}
        self.sums = {}
        self.sum_keys = {}
        self.cut = 0              # inside a function replaced by its contract: nothing of a path outlives it
        self.loop_ix = []
        self.axis_syms = {}
        self.positions = []      # terms of argmin, argmax
        self.wit = {}
        self.streq = {}
        self.det = {}
        self.cmemo = {}
        self.ext_ne = {}
        self.uniq_cache = {}
        self.inputs = set()
        self._vcache = {}
        self._qconsts = None
        self._axcache = {}
        self._ucache, self._qcache, self._icache, self._mcache = {}, {}, {}, {}
        self._fcache = {}
        self.keep = []
        self.len_dims = {}
        self.deadline = deadline
        self.inst_terms = []
        self.const_facts = {}
        self.trusted = set()
        self.functions = set()
        self.max_paths = 400
        self.obligs = None
        self.defs = []
        _install_builtin_facts(self)

    def __enter__(self):
        self._prev = _CUR[0]
        _CUR[0] = self
        return self

    def __exit__(self, *a):
        _CUR[0] = self._prev
        return False

    # -- names
    def index(self, prefix='i'):
        return z3.Int('ix!%s!%d' % (prefix, next(self.counter)))

    def canon(self, bound, terms):
        """(canonical text, parameters) of terms that determine a value; bound: bound index constants."""
        from .sums import index_consts
        ids = {b.get_id() for b in bound}
        terms = [self.canon_term(t) for t in terms]       # parameters that cancel are not parameters
        params = [x for x in index_consts(list(terms)) if x.get_id() not in ids]
        pr = [(b, z3.Int('cb%d' % k)) for k, b in enumerate(bound)] + [(x, z3.Int('cp%d' % k)) for k, x in enumerate(params)]
        return tuple(self.canon_term(z3.substitute(t, *pr) if pr else t).get_id() for t in terms), params

    def canon_term(self, t):
        """A normal form independent of the order in which terms were created."""
        m = self.cmemo
        hit = m.get(t.get_id())
        if hit is not None:
            return hit[1]
        ch = t.children()
        if not ch:
            r = t
        else:
            nc = [self.canon_term(x) for x in ch]
            k = t.decl().kind()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                u = sorted({x.get_id(): x for x in nc}.values(), key=lambda x: x.get_id())
                r = u[0] if len(u) == 1 else (z3.And if k == z3.Z3_OP_AND else z3.Or)(*u)
            elif k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
                r = _rebuild(t, nc)
                try:
                    r = normal(r)
                except Unsupported:
                    pass
            elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(nc[0]):
                a, b = nc
                if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    a, b = b, a
                try:
                    d = normal(a - b)
                    if k == z3.Z3_OP_EQ:
                        e = normal(b - a)
                        if e.get_id() < d.get_id():
                            d = e
                except Unsupported:
                    d = a - b
                z = IV(0) if d.is_int() else RV(0)
                r = d <= z if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else d < z if k in (z3.Z3_OP_LT, z3.Z3_OP_GT) else d == z
            elif k == z3.Z3_OP_EQ and nc[1].get_id() < nc[0].get_id():
                r = nc[1] == nc[0]
            else:
                r = _rebuild(t, nc)
        m[t.get_id()] = (t, r)
        m.setdefault(r.get_id(), (r, r))
        return r

    def determined(self, prefix, sort, bound, terms):
        """-> (application, parameters, is new): a value determined by the content of terms."""
        k, params = self.canon(bound, terms)
        key = (prefix, sort) + k
        d = self.det.get(key)
        new = d is None
        if new:
            n = '%s!%d' % (prefix, next(self.counter))
            rs = {'Real': z3.RealSort(), 'Int': z3.IntSort(), 'Bool': z3.BoolSort()}[sort]
            d = self.det[key] = z3.Function(n, *([z3.IntSort()] * len(params) + [rs]))
        return d(*params), params, new

    def skolem(self, prefix, sort='Int', deps=(), facts=None):
        """A fresh value determined by the index constants in deps and the enclosing loop indices.
        facts(app) -> formulas that hold of it (under the current path condition)."""
        from .sums import index_consts
        ps = list(self.loop_ix)
        ids = {p.get_id() for p in ps}
        for x in index_consts(list(deps)):
            if x.get_id() not in ids:
                ids.add(x.get_id())
                ps.append(x)
        n = '%s!%d' % (prefix, next(self.counter))
        rs = {'Real': z3.RealSort(), 'Int': z3.IntSort(), 'Bool': z3.BoolSort()}[sort]
        if not ps:
            app = z3.Const(n, rs)
        else:
            app = z3.Function(n, *([z3.IntSort()] * len(ps) + [rs]))(*ps)
        if facts is not None:
            self.define(app, ps, facts(app))
        return app

    def define(self, app, ps, formulas, guard=None):
        gs = list(self.pc) if guard is None else _conj(guard)
        fs = [Guarded(gs, bt(f)) for f in formulas]
        name = app.decl().name()
        if not ps:
            old = self.const_facts.get(name, [])
            self.const_facts[name] = old + fs
        else:
            prev = self.uf_facts.get(name)

            def fn(*args, fs=fs, ps=ps, prev=prev):
                r = [f.subst([(p, a) for p, a in zip(ps, args)]) for f in fs]
                return (prev(*args) if prev else []) + r
            self.uf_facts[name] = fn

    def forall(self, app, ps, cs, make, guard=None, match=False):
        """Register for the defined symbol app: for all index terms t: make(ts).  Instantiated at the
        relevant index terms of a query."""
        gs = list(self.pc) if guard is None else _conj(guard)
        body = Guarded(gs, bt(make(cs)))
        self.qdefs.setdefault(app.decl().name(), []).append((ps, cs, body))
        if match:
            body.matched = match
            self.keep.append(body)

    def scoped(self, run):
        """run(), forgetting the quantified facts registered meanwhile."""
        before = {k: len(x) for k, x in self.qdefs.items()}
        try:
            return run()
        finally:
            for k, x in self.qdefs.items():
                del x[before.get(k, 0):]

    def match_terms(self, body, cs, query):
        """Values of the bound variable at which an application in body is one of those in the query."""
        if len(cs) != 1:
            return []
        v = cs[0]
        vi = v.get_id()
        out = {}
        for p in apps_in(body):
            if vi not in consts_of(p):
                continue
            nm = name_of(p)
            for q in query:
                if len(out) > 8:
                    break
                key = (p.get_id(), vi, q.get_id())
                hit = self._mcache.get(key)
                if hit is None:
                    r = []
                    for g in apps_in(q):
                        if name_of(g) == nm and g.decl().eq(p.decl()):
                            for x, y in zip(p.children(), g.children()):
                                d = normal(t_sub(x, v)) if x.is_int() else None
                                if d is not None and vi not in consts_of(d):
                                    r.append(normal(t_sub(y, d)))
                                elif d is not None:
                                    d = normal(t_add(x, v))
                                    if vi not in consts_of(d):
                                        r.append(normal(t_sub(d, y)))
                    hit = self._mcache[key] = (r, p, v, q)
                for t in hit[0]:
                    out[t.get_id()] = t
        return list(out.values())[:12]

    def rel_indices(self, ts):
        out, seen = [], set()
        for t in ts:
            for c in consts_of(t).values():
                if c.get_id() not in seen and c.decl().name().startswith('ix!'):
                    seen.add(c.get_id())
                    out.append(c)
        return out

    def witness(self, app, cs):
        k = app.get_id()
        if k not in self.wit:
            self.wit[k] = (app, tuple(self.skolem('wit', 'Int', deps=[app]) for _ in cs))
        return self.wit[k][1]

    def axis_pos(self, ax):
        self._axis(ax)
        return self.axis_syms[id(ax)][1]

    def axis_coord(self, ax):
        self._axis(ax)
        return self.axis_syms[id(ax)][2]

    def _axis(self, ax):
        if id(ax) in self.axis_syms:
            return
        n = next(self.counter)
        ints = [z3.IntSort()]
        ln = ax.length()
        # inside a loop the positions are functions of the iteration
        probe = tuple(z3.Int('cq%d' % k) for k in range(ax.m))
        ps = self.loop_params([ax.guard(probe), ln])
        np_ = len(ps)
        posd = z3.Function('pos!%d' % n, *(ints * (np_ + ax.m) + ints))
        cod = [z3.Function('co%d!%d' % (k, n), *(ints * (np_ + 1) + ints)) for k in range(ax.m)]
        pos = lambda *cs: posd(*ps, *cs)
        pos.decl = posd
        pos.nparams = np_
        cos = [(lambda p, d=d: d(*ps, p)) for d in cod]
        self.axis_syms[id(ax)] = (ax, pos, cos)

        def at(ts, args):
            pr = [(p, a) for p, a in zip(ps, args) if not p.eq(a)]
            return [z3.substitute(t, *pr) for t in ts] if pr else ts

        def posfacts(*args):
            cs = args[np_:]
            p = pos(*cs)
            g = ax.guard(cs)
            return at([Implies(g, And(p >= IV(0), p < ln))] + [Implies(g, co(p) == c) for co, c in zip(cos, cs)], args)

        def cofacts(*args):
            p = args[np_]
            cs = tuple(co(p) for co in cos)
            return at([Implies(And(p >= IV(0), p < ln), And(ax.guard(cs), pos(*cs) == p))], args)
        self.uf_facts[posd.name()] = posfacts
        for d in cod:
            self.uf_facts[d.name()] = cofacts

    def loop_params(self, ts):
        """The indices of enclosing loops that occur in the terms."""
        if not self.loop_ix:
            return []
        occ = set()
        for t in ts:
            occ |= set(consts_of(t))
        return [p for p in self.loop_ix if p.get_id() in occ]

    def string_equal(self, sa, sb, x, y):
        key = (sa, sb)
        if key not in self.streq:
            sorts = [t.sort() for t in x] + [t.sort() for t in y]
            self.streq[key] = z3.Function('streq!%d' % next(self.counter), *(sorts + [z3.BoolSort()])) if sorts \
                else z3.Bool('streq!%d' % next(self.counter))
        d = self.streq[key]
        return d(*(x + y)) if x or y else d

    # -- quick validity under the path condition
    def valid(self, f, timeout=1500):
        f = bt(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        s = z3.simplify(f)
        if z3.is_true(s):
            return True
        key = tuple(h.get_id() for h in self.pc) + (f.get_id(), len(self.uf_facts), len(self.qdefs), len(self.const_facts))
        if key in self._vcache:
            return self._vcache[key]
        self.keep.append((list(self.pc), f))
        r = self.check_unsat(self.pc + [Not(f)], timeout)
        self._vcache[key] = r
        return r

    def linear(self, t):
        """t with every non-linear product or quotient replaced by a constant that stands for it."""
        m = self.lmemo
        hit = m.get(t.get_id())
        if hit is not None:
            return hit[1]
        ch = t.children()
        r = t
        if ch:
            nc = [self.linear(x) for x in ch]
            r = _rebuild(t, nc)
            k = t.decl().kind()
            nl = False
            if k == z3.Z3_OP_MUL:
                nl = sum(1 for x in nc if not isnumeral(x)) > 1
            elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
                nl = not isnumeral(nc[1])
            if nl:
                key = t
                try:
                    key = normal(t)
                except Unsupported:
                    pass
                if key.get_id() not in self.nlmemo:
                    self.nlmemo[key.get_id()] = (key, z3.Const('nl!%d' % len(self.nlmemo), t.sort()))
                r = self.nlmemo[key.get_id()][1]
                if r.sort() != t.sort():
                    r = z3.ToReal(r) if t.is_real() else t
        m[t.get_id()] = (t, r)
        return r

    def check_unsat(self, fs, timeout=1500):
        self.check_time()
        if self.native(fs, 300):
            return True
        allf = fs + self.instantiate(fs)
        lf = [self.linear(f) for f in allf]
        if not all(x.eq(y) for x, y in zip(lf, allf)):
            s = z3.Solver()
            s.set('timeout', min(timeout or 1500, 700))
            s.add(*lf)
            t0 = time.time()
            r = s.check()
            STATS.add('z3-linear', time.time() - t0)
            if r == z3.unsat:
                return True
        if timeout is None:
            return False
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*allf)
        t0 = time.time()
        r = s.check()
        STATS.add('z3-side', time.time() - t0)
        return r == z3.unsat

    def same(self, x, y):
        return self.same_h(x, y, None)

    def same_h(self, x, y, hyps):
        if x.eq(y):
            return True
        if x.sort() != y.sort():
            x, y = toreal(x), toreal(y)
        if isnumeral(x) and isnumeral(y):
            return numval(x) == numval(y)
        d = normal(t_sub(x, y))
        if isnumeral(d):
            return numval(d) == 0
        if hyps is None:
            return self.valid(x == y)
        return self.check_unsat(list(hyps) + [x != y])

    def fresh(self, prefix, sort='Int'):
        n = '%s!%d' % (prefix, next(self.counter))
        if sort == 'Int':
            return z3.Int(n)
        if sort == 'Real':
            return z3.Real(n)
        return z3.Bool(n)

    def fresh_fun(self, prefix, arity, sort='Real'):
        n = '%s!%d' % (prefix, next(self.counter))
        rs = {'Real': z3.RealSort(), 'Int': z3.IntSort(), 'Bool': z3.BoolSort()}[sort]
        return z3.Function(n, *([z3.IntSort()] * arity + [rs]))

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    # -- journal
    def log(self, undo, record=None):
        self.journal.append((undo, record))

    def mark(self):
        return len(self.journal)

    def rollback(self, mark):
        recs = []
        while len(self.journal) > mark:
            undo, rec = self.journal.pop()
            undo()
            if rec is not None:
                recs.append(rec)
        recs.reverse()
        return recs

    # -- assumptions
    def assume(self, t):
        t = bt(t)
        if not z3.is_true(t):
            self.pc.append(t)

    def known_nonzero(self, t):
        if isnumeral(t):
            return numval(t) != 0
        try:
            p = to_poly(t)
        except Unsupported:
            return False
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if all(i in self.nonzero for i, _ in m):
                return True
        # the path condition may contain it literally
        for f in self.pc:
            if z3.is_not(f) and z3.is_eq(f.arg(0)):
                e = f.arg(0)
                if (e.arg(0).eq(t) and isnumeral(e.arg(1)) and numval(e.arg(1)) == 0):
                    return True
        return False

    def mark_nonzero(self, t):
        """Record that atom t is nonzero (t itself and its real image)."""
        self.nonzero[t.get_id()] = t
        if t.is_int():
            r = z3.ToReal(t)
            self.nonzero[r.get_id()] = r

    # -- deciding branches
    def decide(self, cond, check=True):
        if isinstance(cond, SBool):
            cond = cond.t
        if cond is True or cond is False:
            return cond
        if isinstance(cond, z3.BoolRef):
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
        else:
            return bool(cond)
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            raise Unsupported('branch outside exploration')
        if len(fr.taken) < len(fr.prefix):
            v = fr.prefix[len(fr.taken)]
            fr.taken.append(v)
            self.pc.append(cond if v else Not(cond))
            return v
        ft = self.feasible(cond) if check else True
        ff = self.feasible(Not(cond)) if ft and check else True
        if ft and ff:
            fr.work.append(list(fr.taken) + [False])
            if len(fr.work) > self.max_paths:
                raise Unsupported('too many paths')
            v = True
        elif ft:
            v = True
        else:
            v = False
        fr.taken.append(v)
        self.pc.append(cond if v else Not(cond))
        return v

    def feasible(self, extra, timeout=700):
        self.check_time()
        fs = self.pc + [extra]
        key = tuple(f.get_id() for f in fs) + (len(self.uf_facts), len(self.qdefs), len(self.const_facts))
        hit = self._fcache.get(key)
        if hit is not None:
            return hit[0]
        if self.native(fs, 300):
            self._fcache[key] = (False, fs)
            return False
        all_fs = fs + self.instantiate(fs)
        s = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        s.set('timeout', timeout)
        for f in all_fs:
            s.add(f)
        t0 = time.time()
        r = s.check()
        STATS.add('z3-feasibility', time.time() - t0)
        res = r != z3.unsat
        self._fcache[key] = (res, fs)
        return res

    def explore(self, fn, max_paths=None):
        """Run fn once per feasible path.  Nested use: state is rolled back after each path.
        Returns list of (result, pathcond list, journal records)."""
        work = [[]]
        out = []
        base = len(self.pc)
        nested = bool(self.frames)
        while work:
            self.check_time()
            prefix = work.pop()
            fr = Frame(prefix, work, base)
            self.frames.append(fr)
            mark = self.mark()
            try:
                try:
                    res = fn()
                except Infeasible:
                    res = Infeasible
                pcs = self.pc[base:]
                recs = self.rollback(mark)
                if res is not Infeasible:
                    out.append((res, pcs, recs))
            finally:
                self.frames.pop()
                del self.pc[base:]
                if len(self.journal) > mark:
                    self.rollback(mark)
            if len(out) > (max_paths or self.max_paths):
                raise Unsupported('too many paths')
        return out

    # -- facts about uninterpreted functions
    def register_facts(self, decl, fn):
        self.uf_facts[decl.name()] = fn

    def instantiate(self, fs, rounds=4, limit=4000):
        """Ground facts for the registered functions occurring in fs."""
        seen, csee = {}, {}
        facts = []
        todo = list(fs)
        qseen = set()
        ids = {f.get_id() for f in fs}
        cache = self._ucache
        qapps = []
        for _ in range(rounds):
            new = []
            for f in todo:
                for a in apps_in(f):
                    i = a.get_id()
                    if i in seen:
                        continue
                    seen[i] = a
                    nm = name_of(a)
                    fn = self.uf_facts.get(nm)
                    if fn is not None:
                        hit = cache.get((fn, i))
                        if hit is None:
                            hit = cache[(fn, i)] = (a, fn(*a.children()))
                        new.extend(hit[1])
                    if nm in self.qdefs:
                        qapps.append(a)
            if self.const_facts or self.qdefs:
                for f in todo:
                    for i, c in consts_of(f).items():
                        if i not in csee:
                            csee[i] = c
                            nm = name_of(c)
                            g = self.const_facts.get(nm)
                            if g:
                                new.extend(g)
                            if nm in self.qdefs:
                                qapps.append(c)
            if self.qdefs:
                new.extend(self._inst_q(list(fs) + facts + [n for n in new if not isinstance(n, Guarded)]
                                        + [n.f for n in new if isinstance(n, Guarded)], seen, csee, qapps, qseen, fs, ids))
            new = [n.given(ids) if isinstance(n, Guarded) else n for n in new]
            if not new:
                break
            facts.extend(new)
            if len(facts) > limit:
                break
            todo = new
        return facts

    # -- the registered facts as axioms with triggers, for the solver's own matching
    def axioms(self, decl):
        """Quantified forms of the facts registered for a symbol."""
        nm = decl.name()
        fn = self.uf_facts.get(nm)
        cf = self.const_facts.get(nm, ()) if not decl.arity() else ()
        qd = self.qdefs.get(nm, ())
        sd = self.sums.get(nm)
        if sd is not None:
            return self.count_axioms(sd)
        if fn is None and not cf and not qd:
            return ()
        key = (decl.get_id(), id(fn)) + tuple(id(x) for x in cf) + tuple(id(x[2]) for x in qd)
        hit = self._axcache.get(key)
        if hit is not None:
            return hit[0]
        full = lambda f: Implies(And(*f.guards), f.f) if isinstance(f, Guarded) else f
        out = [full(f) for f in cf]
        vs = [z3.Const('ix!ax%s!%d' % (decl.domain(k), k), decl.domain(k)) for k in range(decl.arity())]
        if fn is not None and vs:
            app = decl(*vs)
            body = And(*[full(f) for f in fn(*vs)])
            if not z3.is_true(body):
                out.append(z3.ForAll(vs, body, patterns=[app]))
        for ps, cs, g in qd:
            matched = getattr(g, 'matched', False)
            body = full(g)
            zs = [z3.Int('ix!az!%d' % k) for k in range(len(cs))]
            pr = [(p, v) for p, v in zip(ps, vs)] + list(zip(cs, zs))
            body = z3.substitute(body, *pr)
            occ = consts_of(body)
            free = [v for v in vs if v.get_id() in occ]
            need = {v.get_id() for v in free + zs}
            app = decl(*vs) if vs else None
            pats = []

            def pattern(*ts):
                got = set()
                for t in ts:
                    got |= set(consts_of(t)) & need
                if got != need and app is not None and free:
                    ts = ts + (app,)
                    for v in vs:
                        if v.get_id() not in need:
                            need.add(v.get_id())
                            free.append(v)
                    got |= {v.get_id() for v in vs}
                if got == need:
                    pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            if not zs:
                if app is None:
                    out.append(body)
                    continue
                pats.append(app)
                for v in vs:
                    if v.get_id() not in need:
                        free.append(v)
            elif matched == 'own':
                if app is None:
                    continue
                k = len(vs) - 1
                pattern(*[decl(*(vs[:k] + [z])) for z in zs])
            elif matched == 'index':
                pattern(*[_SEED(z) for z in zs])
            else:
                zids = {z.get_id() for z in zs}
                for a in apps_in(body):
                    ch = a.children()
                    if zids <= set(consts_of(a)) and all(x.get_id() in need or not (set(consts_of(x)) & need) for x in ch):
                        pattern(a)
                        if len(pats) > 5:
                            break
                    elif len(zs) == 1 and zids <= set(consts_of(a)):
                        # an argument z + d or d - z: renamed so that the argument is the variable
                        for x in ch:
                            if zs[0].get_id() not in consts_of(x) or not x.is_int():
                                continue
                            for sg in (1, -1):
                                d = normal(t_sub(x, zs[0]) if sg > 0 else t_add(x, zs[0]))
                                if zs[0].get_id() in consts_of(d):
                                    continue
                                inv = normal(t_sub(zs[0], d) if sg > 0 else t_sub(d, zs[0]))
                                b2 = z3.substitute(body, (zs[0], inv))
                                h = a.decl()(*[zs[0] if y.eq(x) else z3.substitute(y, (zs[0], inv)) for y in ch])
                                keep, pats = pats, []
                                pattern(h)
                                if pats:
                                    out.append(z3.ForAll(free + zs, b2, patterns=pats))
                                pats = keep
                                break
                pattern(*[_SEED(z) for z in zs])
            if pats:
                out.append(z3.ForAll(free + zs, body, patterns=pats))
        self._axcache[key] = (tuple(out), fn, list(cf), list(qd), decl)
        return self._axcache[key][0]

    def count_axioms(self, d):
        """The number of members of a set: not negative, positive exactly if there is a member."""
        hit = self._axcache.get(id(d))
        if hit is not None:
            return hit[0]
        out = []
        if isnumeral(d.body) and numval(d.body) == 1:
            vs = [z3.Int('ix!ax!%d' % k) for k in range(len(d.params))]
            zs = [z3.Int('ix!az!%d' % k) for k in range(len(d.cs))]
            w = [z3.Function('wit!%d!%s' % (k, d.decl.name()), *([z3.IntSort()] * (len(vs) + 1)))(*vs) for k in range(len(zs))]
            app = d.decl(*vs)
            sub = lambda t, to: z3.substitute(t, *(list(zip(d.params, vs)) + list(zip(d.cs, to))))
            inside = lambda to: And(*[And(x >= IV(0), x < z3.substitute(n, *zip(d.params, vs)) if vs else x < n)
                                      for x, n in zip(to, d.sizes)], sub(d.mask, to))
            body = And(app >= 0, Implies(app > 0, inside(w)))
            if len(d.sizes) == 1:
                n = z3.substitute(d.sizes[0], *zip(d.params, vs)) if vs else d.sizes[0]
                body = And(body, app <= Ite(n > 0, n, IV(0)))
            member = Implies(inside(zs), app >= 1)
            if vs:
                out.append(z3.ForAll(vs, body, patterns=[app]))
            else:
                out.append(body)
            ts = [_SEED(z) for z in zs] + ([app] if vs else [])
            pats = [z3.MultiPattern(*ts) if len(ts) > 1 else ts[0]]
            zids = {z.get_id() for z in zs}
            for a in apps_in(member):
                if zids <= set(consts_of(a)) and all(z3.is_const(x) or not set(consts_of(x)) & zids for x in a.children()) and len(pats) < 5:
                    pats.append(z3.MultiPattern(a, app) if vs else a)
            out.append(z3.ForAll(vs + zs, member, patterns=pats))
        self._axcache[id(d)] = (tuple(out), d)
        return self._axcache[id(d)][0]

    def native(self, fs, timeout):
        """Is fs unsatisfiable with the registered facts as axioms?"""
        from .sums import index_consts
        seen, out = set(), list(fs)
        todo = list(fs)
        quant = False
        while todo:
            f = todo.pop()
            for d in decls_in(f):
                if d.get_id() in seen:
                    continue
                seen.add(d.get_id())
                for ax in self.axioms(d):
                    out.append(ax)
                    todo.append(ax)
        if len(out) == len(fs):
            return False
        for x in list(index_consts(fs)) + [x for x in self.extra_terms if x.is_int()]:
            out.append(_SEED(x))
        t0 = time.time()
        r = None
        tries = [{}] if timeout < 1000 else [{}, {'smt.relevancy': 0}, {'smt.mbqi': True}]
        if timeout > 2000:
            tries += [{'context': True}, {'context': True, 'smt.relevancy': 0}]
        for opts in tries:
            fresh = opts.pop('context', False)
            s = z3.Solver(ctx=z3.Context()) if fresh else z3.Solver()
            s.set('timeout', timeout, 'auto_config', False, 'smt.mbqi', False)
            s.set(**opts)
            if fresh:
                s.from_string(text)
            else:
                s.add(*out)
            r = s.check()
            if r == z3.unsat or time.time() - t0 > timeout / 2000:
                break
            if timeout > 2000 and not fresh:
                text = s.to_smt2()
        STATS.add('z3-axioms', time.time() - t0)
        return r == z3.unsat

    def nested(self, x):
        """Is a symbol applied to something that contains an application of it?"""
        nm = name_of(x)
        return any(name_of(y) == nm for ch in x.children() for y in apps_in(ch))

    def query_consts(self, query):
        q = self._qconsts
        if q is None or q[0] is not query:
            q = self._qconsts = (query, {i for f in query for i in consts_of(f)})
        return q[1]

    def _inst_q(self, ts, seen, csee, apps, qseen, query, ids):
        if not apps:
            return []
        from .sums import index_consts
        terms = {x.get_id(): x for x in index_consts(ts)}
        for x in apps:
            if z3.is_arith(x) and x.is_int():
                terms[x.get_id()] = x
        for k in self.extra_terms:
            terms[k.get_id()] = k
        if self.wits:
            for d in (seen, csee):
                for x in d.values():
                    if name_of(x) in self.wits:
                        terms[x.get_id()] = x
        out = []
        for a in apps:
            ai = a.get_id()
            for n, (ps, cs, body) in enumerate(self.qdefs[name_of(a)]):
                hit = self._qcache.get((ai, n))
                if hit is None or hit[1] is not body:
                    g = body if isinstance(body, Guarded) else Guarded([], body)
                    hit = self._qcache[(ai, n)] = (a, body, g.subst(list(zip(ps, a.children()))), g.matched)
                b, matched = hit[2], hit[3]
                f = b.given(ids)
                fi = f.get_id()
                vals = list(terms.values())
                if matched == 'own':
                    # the arguments at which the symbol itself is applied
                    k = a.num_args() - 1
                    if self.nested(a):
                        continue
                    vals = list({x.arg(k).get_id(): x.arg(k) for x in apps if x.decl().eq(a.decl()) and
                                 all(x.arg(j).eq(a.arg(j)) for j in range(k)) and not self.nested(x)}.values())
                elif matched == 'index':
                    vals = [x for x in vals if not x.num_args() and x.get_id() in self.query_consts(query)]
                elif matched:
                    vals = vals + [a - 1, IV(0)] + self.match_terms(b.f, cs, query)
                for tt in itertools.product(vals, repeat=len(cs)):
                    key = (ai, fi) + tuple(x.get_id() for x in tt)
                    if key in qseen:
                        continue
                    qseen.add(key)
                    r = self._icache.get(key[1:])
                    if r is None:
                        r = self._icache[key[1:]] = (z3.substitute(f, *list(zip(cs, tt))), f, tt)
                    out.append(r[0])
                    if len(out) > 300:
                        return out
        return out


def _install_builtin_facts(ctx):
    Z, R0 = z3.IntVal(0), z3.RealVal(0)

    def divfacts(x, y):
        q = _DIV(x, y)
        m = x - q * y
        return [z3.Implies(y > 0, z3.And(m >= 0, m < y)),
                z3.Implies(z3.And(y > 0, x >= 0), q >= 0),
                z3.Implies(z3.And(y > 0, x >= y), q >= 1),
                z3.Implies(z3.And(y > 0, x >= 0), q <= x)]

    def modfacts(x, y):
        q = _DIV(x, y)
        return [z3.Implies(y > 0, z3.And(_MOD(x, y) == x - q * y, _MOD(x, y) >= 0, _MOD(x, y) < y))] + divfacts(x, y)

    def floorfacts(x):
        f = z3.ToReal(_FLOOR(x))
        return [f <= x, x < f + 1]

    def roundfacts(x):
        i = _ROUND(x)
        f = z3.ToReal(i)
        h = z3.RealVal('1/2')
        return [f - h <= x, x <= f + h,
                z3.Implies(z3.Or(x == f + h, x == f - h), i % 2 == 0)]
    ctx.uf_facts['idiv'] = divfacts
    ctx.uf_facts['imod'] = modfacts
    ctx.uf_facts['rfloor'] = floorfacts
    ctx.uf_facts['rround'] = roundfacts
