"""Finite sums as terms: S(params) = sum over 0 <= c < sizes, mask(c) of body(c)."""
import itertools
import z3
from .core import *
from .core import _sum, _mmul, _pmul
from . import core
from .arrays import inrange, eq_t, lt_t


class SumDef:
    __slots__ = ('decl', 'params', 'sizes', 'cs', 'mask', 'body')

    def inst(self, args):
        pairs = [(p, a) for p, a in zip(self.params, args) if not p.eq(a)]

        def f(t):
            return z3.substitute(t, *pairs) if pairs else t
        return [f(s) for s in self.sizes], self.cs, f(self.mask), f(self.body)


def index_consts(ts):
    seen, out = {}, {}
    for t in ts:
        for c in consts_of(t, None, None).values():
            if c.decl().name().startswith('ix!'):
                out[c.get_id()] = c
    return [out[k] for k in sorted(out, key=lambda i: int(out[i].decl().name().rsplit('!', 1)[1]))]


def _depends(t, ids):
    return any(i in ids for i in consts_of(t))


def mk_sum(sizes, mask, fn, isint=None):
    """Sum of fn(cs) (SNum) over the box sizes with optional mask fn."""
    c = cur()
    sizes = [normal(s) if not isnumeral(s) else s for s in sizes]
    if any(isnumeral(s) and numval(s) <= 0 for s in sizes):
        return SNum(RV(0), True)
    # expand coordinates of concrete small size
    for k, s in enumerate(sizes):
        if isnumeral(s) and numval(s) <= 6:
            r = None
            rest = sizes[:k] + sizes[k + 1:]
            for v in range(numval(s)):
                def f2(cs, v=v):
                    return fn(cs[:k] + (IV(v),) + cs[k:])

                def m2(cs, v=v):
                    return mask(cs[:k] + (IV(v),) + cs[k:])
                if rest:
                    t = mk_sum(rest, m2 if mask else None, f2)
                else:
                    t = f2(())
                    if mask:
                        t = n_ite(mask((IV(v),)), t, 0)
                r = t if r is None else n_add(r, t)
            return r
    cs = tuple(c.index('s') for _ in sizes)
    mt = mask(cs) if mask is not None else TRUE
    c.pc.append(And(*[inrange(x, n) for x, n in zip(cs, sizes)], mt))
    try:
        v = lift(fn(cs))
        v = SNum(resolve_ites(c, v.t), v.np, v.nan, v.pinf, v.ninf)
    finally:
        c.pc.pop()
    if not v.finite:
        fl = And(*[inrange(x, n) for x, n in zip(cs, sizes)], mt, Or(v.nan, v.pinf, v.ninf))
        if c.feasible(fl):
            raise Unsupported('sum of possibly non-finite values')
    return SNum(sum_term(sizes, cs, mt, v.t), True)


def leaves(axis, also=None):
    """The axes that a (concatenated) axis is made of: [(axis, member(cs), position(cs))]."""
    masks = [m for m in (axis.mask, also) if m is not None]
    mask = (lambda cs: And(*[bt(m(cs)) for m in masks])) if masks else (lambda cs: TRUE)
    if axis.parts is None:
        return [(axis, mask, lambda cs: cs)]
    start, out = IV(0), []
    for part in axis.parts:
        at = lambda cs, part=part, start=start: (t_add(part.pos(cs), start),)
        for x, m, to in leaves(part, lambda cs, at=at: mask(at(cs))):
            out.append((x, m, lambda cs, at=at, to=to: at(to(cs))))
        start = normal(t_add(start, part.length()))
    return out


def resolve_ites(c, t):
    """Replace conditions of the term that are decided by the path condition."""
    from .prove import ite_conds, reduce_ite
    for _ in range(6):
        conds = ite_conds([t])
        if not conds or len(conds) > 12:
            return t
        pairs = []
        for q in conds:
            if c.valid(q, 400):
                pairs.append((q, TRUE))
            elif c.valid(Not(q), 400):
                pairs.append((q, FALSE))
        if not pairs:
            return t
        t = reduce_ite(z3.substitute(t, *pairs))
    return t


def sum_term(sizes, cs, mask, body):
    ids = {x.get_id() for x in cs}
    while z3.is_app_of(body, z3.Z3_OP_ITE):
        a, b = body.arg(1), body.arg(2)
        if isnumeral(b) and numval(b) == 0:
            mask, body = And(mask, body.arg(0)), a
        elif isnumeral(a) and numval(a) == 0:
            mask, body = And(mask, Not(body.arg(0))), b
        else:
            break
    isint = body.is_int()
    p = to_poly(body)
    # pull guards out of single-atom products:  c*ite(g, x, 0)
    groups = {}
    for mono, co in p.d.items():
        dep = tuple((i, e) for i, e in mono if _depends(p.atoms[i], ids))
        ind = tuple((i, e) for i, e in mono if not _depends(p.atoms[i], ids))
        groups.setdefault(dep, {})[ind] = co
    terms = []
    for dep, coef in sorted(groups.items()):
        fac = from_poly(Poly(coef, p.atoms), isint)
        if fac is None:
            fac = from_poly(Poly(coef, p.atoms), False)
        if not dep:
            s = count_term(sizes, cs, mask)
        else:
            b = from_poly(Poly({dep: core.Fraction(1)}, p.atoms), isint)
            if b is None:
                b = from_poly(Poly({dep: core.Fraction(1)}, p.atoms), False)
            m2 = mask
            if len(dep) >= 1:
                b, m2 = pull_guards(dep, p, isint, mask)
            if not _depends(b, ids) and not m2.eq(mask):
                t = count_term(sizes, cs, m2)
                b, t, fac = (toreal(x) for x in (b, t, fac))
                terms.append(t_mul(fac, t_mul(b, t)))
                continue
            flat = flatten(sizes, cs, m2, b)
            if flat is not None:
                s = sum_app(*flat)
            else:
                s = sum_app(sizes, cs, m2, b)
        if s.is_int() != fac.is_int():
            s, fac = toreal(s), toreal(fac)
        terms.append(t_mul(fac, s))
    if not terms:
        return IV(0) if isint else RV(0)
    if any(not t.is_int() for t in terms):
        terms = [toreal(t) for t in terms]
    return _sum(terms)


def pull_guards(dep, p, isint, mask):
    d2 = {}
    r = Poly({(): core.Fraction(1)}, {})
    for i, e in dep:
        a = p.atoms[i]
        while z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = a.arg(1), a.arg(2)
            if isnumeral(y) and numval(y) == 0:
                mask, a = And(mask, a.arg(0)), x
            elif isnumeral(x) and numval(x) == 0:
                mask, a = And(mask, Not(a.arg(0))), y
            else:
                break
        q = to_poly(a)
        if e < 0:
            if len(q.d) != 1:
                q = Poly({((a.get_id(), 1),): core.Fraction(1)}, {a.get_id(): a})
            (m, co), = q.d.items()
            q = Poly({tuple((j, -k) for j, k in m): 1 / co}, q.atoms)
        for _ in range(abs(e)):
            r = _pmul(r, q)
    b = from_poly(r, isint)
    if b is None:
        b = from_poly(r, False)
    return b, mask


def count_term(sizes, cs, mask):
    if z3.is_true(mask):
        t = IV(1)
        for s in sizes:
            t = t_mul(t, nonneg(s))
        return t
    ids = {x.get_id() for x in cs}
    parts = conjuncts(mask)
    const = [q for q in parts if not _depends(q, ids)]
    if const:
        return Ite(And(*const), count_term(sizes, cs, And(*[q for q in parts if _depends(q, ids)])), IV(0))
    if len(cs) > 1 and not any(_depends(n, ids) for n in sizes):
        # coordinates without a condition
        free = [k for k, x in enumerate(cs) if not any(_depends(q, {x.get_id()}) for q in parts)]
        if free:
            t = count_term([n for k, n in enumerate(sizes) if k not in free], tuple(x for k, x in enumerate(cs) if k not in free), mask)
            for k in free:
                t = t_mul(t, nonneg(sizes[k]))
            return t
    return sum_app(sizes, cs, mask, IV(1))


def conjuncts(t):
    if z3.is_and(t):
        return [q for x in t.children() for q in conjuncts(x)]
    return [t]


def nonneg(s):
    """max(s, 0)"""
    if isnumeral(s):
        return s if numval(s) > 0 else IV(0)
    if cur().valid(s >= IV(0)):
        return s
    return z3.If(s >= 0, s, IV(0))


def mk_count(axis):
    c = cur()
    cs = axis.fresh('s')
    t = count_term(list(axis.sizes), cs, axis.mask(cs))
    return t


def flatten(sizes, cs, mask, b):
    c = cur()
    t = b.arg(0) if z3.is_app_of(b, z3.Z3_OP_TO_REAL) else b
    if not (z3.is_app(t) and t.decl().name() in c.sums):
        return None
    d = c.sums[t.decl().name()]
    isz, ics, im, ib = d.inst(t.children())
    ids = {x.get_id() for x in cs}
    if any(_depends(s, ids) for s in isz):
        return None
    ncs = tuple(c.index('s') for _ in ics)
    pr = list(zip(ics, ncs))
    return (list(sizes) + isz, tuple(cs) + ncs, And(mask, z3.substitute(im, *pr)), z3.substitute(ib, *pr))


def sum_app(sizes, cs, mask, body):
    c = cur()
    # drop ranges already implied; canonical key
    key, params = c.canon(cs, list(sizes) + [mask, body])
    hit = c.sum_keys.get(key)
    if hit is not None:
        d = hit
        return d.decl(*params) if params else d.decl()
    d = SumDef()
    name = 'S!%d' % next(c.counter)
    rs = z3.IntSort() if body.is_int() else z3.RealSort()
    d.decl = z3.Function(name, *([z3.IntSort()] * len(params) + [rs]))
    d.params, d.sizes, d.cs, d.mask, d.body = params, list(sizes), tuple(cs), mask, body
    c.sums[name] = d
    c.sum_keys[key] = d
    return d.decl(*params) if params else d.decl()


def sum_apps(c, ts):
    return [a for a in all_apps(ts) if name_of(a) in c.sums]


_ALL = {}


def all_apps(ts):
    """All applications (constants included) of uninterpreted symbols."""
    out, seen = [], set()
    for t in ts:
        hit = _ALL.get(t.get_id())
        if hit is None:
            if len(_ALL) > 200000:
                _ALL.clear()
            hit = _ALL[t.get_id()] = (t, all_apps1(t))
        for x in hit[1]:
            i = x.get_id()
            if i not in seen:
                seen.add(i)
                out.append(x)
    return out


def all_apps1(t):
    out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    out.reverse()
    return out


def sum_lemmas(c, ts, hyps, depth=0, prover=None):
    """Lemmas about the sum terms occurring in ts, each proved in a sub-proof under hyps."""
    apps, seen = [], set()
    for a in sum_apps(c, ts):
        if a.get_id() not in seen:
            seen.add(a.get_id())
            apps.append(a)
    out = []
    if len(apps) > 14:
        apps = apps[:14]
    info = {}
    for a in apps:
        info[a.get_id()] = c.sums[a.decl().name()].inst(a.children())
    for a in apps:
        sizes, cs, mask, body = info[a.get_id()]
        z = IV(0) if a.is_int() else RV(0)
        rng = [inrange(x, n) for x, n in zip(cs, sizes)] + [mask]
        # empty
        out.append(z3.Implies(z3.Or(*[s <= 0 for s in sizes]), a == z))
        if prover(And(*hyps, *rng), body >= z, depth):
            out.append(a >= z)
            if a.is_int() and isnumeral(body) and numval(body) == 1:
                tot = sizes[0]
                for s in sizes[1:]:
                    tot = tot * s
                out.append(z3.Implies(And(*[s >= 0 for s in sizes]), a <= tot))
                if len(sizes) == 1:
                    # a count is positive at a witness, and positive means a witness
                    w = c.witness(a, cs)
                    out.append(z3.Implies(a > 0, z3.substitute(And(*rng), *list(zip(cs, w)))))
                    for ix in c.rel_indices(ts):
                        out.append(z3.Implies(z3.substitute(And(*rng), (cs[0], ix)), a > 0))
    for a, b in itertools.combinations(apps, 2):
        if a.sort() != b.sort():
            continue
        sa, sb = info[a.get_id()], info[b.get_id()]
        if len(sa[0]) != len(sb[0]):
            continue
        if extensional(c, sa, sb, hyps, depth, prover):
            out.append(a == b)
    # vanishing: sum of non-negative terms is zero -> each term zero
    for a in apps:
        sizes, cs, mask, body = info[a.get_id()]
        z = IV(0) if a.is_int() else RV(0)
        if not any(f.eq(a >= z) for f in out):
            continue
        for b in apps:
            if b is a or b.get_id() == a.get_id():
                continue
            sb = info[b.get_id()]
            if len(sb[0]) != len(sizes):
                continue
            if not all(c.same_h(x, y, hyps) for x, y in zip(sizes, sb[0])):
                continue
            pr = list(zip(sb[1], cs))
            mb, bb = z3.substitute(sb[2], *pr), z3.substitute(sb[3], *pr)
            rng = [inrange(x, n) for x, n in zip(cs, sizes)]
            zb = IV(0) if b.is_int() else RV(0)
            if prover(And(*hyps, *rng, z3.Implies(mask, body == z), mb), bb == zb, depth):
                out.append(z3.Implies(a == z, b == zb))
    return out


def extensional(c, sa, sb, hyps, depth, prover):
    n = len(sa[0])
    perms = itertools.permutations(range(n)) if n <= 3 else [tuple(range(n))]
    for pm in perms:
        if not all(c.same_h(sa[0][k], sb[0][pm[k]], hyps) for k in range(n)):
            continue
        cs = tuple(c.index('e') for _ in range(n))
        pa = list(zip(sa[1], cs))
        pb = [(sb[1][pm[k]], cs[k]) for k in range(n)]
        ma, ba = z3.substitute(sa[2], *pa), z3.substitute(sa[3], *pa)
        mb, bb = z3.substitute(sb[2], *pb), z3.substitute(sb[3], *pb)
        h = And(*hyps, *[inrange(x, s) for x, s in zip(cs, sa[0])])
        if not ma.eq(mb) and not prover(h, ma == mb, depth):
            continue
        if ba.eq(bb) or prover(And(h, ma), ba == bb, depth):
            return True
    return False
