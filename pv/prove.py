"""Contracts over the real functions and the discharge of their obligations."""
import importlib
import io
import itertools
import subprocess
import tempfile
import time
import traceback
import z3
from .core import *
from .core import STATS, _FEAS_CACHE, _pmul, _padd, _mmul
from . import core
from .arrays import *
from .arrays import Axis, Buf, NDArr, Seq, IList, array, record
from .interp import Interp, IGen
from . import npmodel, loops
from .sums import sum_lemmas, sum_apps, mk_sum, leaves, resolve_ites, extensional

CONTRACTS = {}


def contract(prop, target, label=None, bounded=None):
    """Register a contract: fn(v) sets up symbolic inputs, runs the target(s) and states obligations."""
    def deco(fn):
        CONTRACTS.setdefault(prop, []).append((label or fn.__name__, target, fn, bounded))
        return fn
    return deco


class Out:
    """Outcome of a call: value or exc."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc


class Abort(BaseException):
    pass


class V:
    """The view a contract has of one execution path."""

    def __init__(self, ctx, prover, label):
        self.c = ctx
        self.I = Interp(ctx)
        self.p = prover
        self.label = label
        self.quant = []

    # ---- symbolic inputs
    def _reg(self, t):
        self.c.inputs.add(t.decl().name() if isinstance(t, z3.ExprRef) else t.name())
        return t

    def real(self, name, np=False):
        return SNum(self._reg(z3.Real(name)), np)

    def int(self, name, np=False):
        return SNum(self._reg(z3.Int(name)), np)

    def bool(self, name):
        return SBool(self._reg(z3.Bool(name)))

    def str(self, name):
        return SStr((('sym', name),))

    def size(self, name, lo=1):
        n = self._reg(z3.Int(name))
        self.c.assume(n >= lo)
        if lo >= 1:
            self.c.mark_nonzero(n)
        return n

    def fun(self, name, arity, sort='Real', facts=None):
        """Uninterpreted input function over integers; facts(args, app) -> z3 Bool holds at every point."""
        rs = {'Real': z3.RealSort(), 'Int': z3.IntSort(), 'Bool': z3.BoolSort()}[sort]
        f = z3.Function(name, *([z3.IntSort()] * arity + [rs]))
        self.c.inputs.add(name)
        if facts is not None:
            self.c.uf_facts[name] = lambda *a, f=f: [bt(x) for x in _tolist(facts(a, f(*a)))]
        return f

    def axis(self, *sizes, **kw):
        return Axis([s.t if isinstance(s, SNum) else (IV(s) if isinstance(s, int) else s) for s in sizes], **kw)

    def arr(self, name, *axes, sort='Real', facts=None, dtype=None):
        axes = [a if isinstance(a, Axis) else self.axis(a) for a in axes]
        f = self.fun(name, sum(a.m for a in axes), sort, facts)
        return array(axes, lambda cs: SNum(f(*cs), True) if sort != 'Bool' else SBool(f(*cs)),
                     dtype or {'Real': 'f', 'Int': 'i', 'Bool': 'b'}[sort])

    def rec(self, name, axes, fields, facts=None, order=None, sorts=None):
        axes = [a if isinstance(a, Axis) else self.axis(a) for a in axes]
        fns, dts = {}, {}
        for l in fields:
            s = (sorts or {}).get(l, 'Real')
            if callable(fields[l] if isinstance(fields, dict) else None):
                fns[l] = fields[l]
                dts[l] = 'f'
                continue
            f = self.fun('%s_%s' % (name, l), sum(a.m for a in axes), s, (facts or {}).get(l))
            fns[l] = (lambda cs, f=f: SNum(f(*cs), True))
            dts[l] = {'Real': 'f', 'Int': 'i', 'Bool': 'b'}[s]
        return record(axes, fns, tuple(fields), dts)

    def list(self, n, fn, kind='list'):
        """List of symbolic length n; fn(i) -> element."""
        ax = n if isinstance(n, Axis) else self.axis(n)
        s = Seq(ax, lambda cs: fn(*cs), kind)
        l = IList()
        l.set(None, s)
        return l

    def require(self, *bs):
        for b in bs:
            self.c.assume(bt(b))

    # ---- running
    def fn(self, module, name):
        m = importlib.import_module(module)
        for part in name.split('.'):
            m = getattr(m, part)
        return m

    def call(self, fn, *args, **kw):
        try:
            r = self.I.call(fn, list(args), kw)
            if isinstance(r, IGen):
                r.force()
            return Out(r)
        except IExc as e:
            return Out(None, e.exc)

    def val(self, fn, *args, **kw):
        """Call that must not raise."""
        o = self.call(fn, *args, **kw)
        if o.exc is not None:
            self.ensures('no exception', False, note='%s: %s' % (type(o.exc).__name__, o.exc))
            raise Abort()
        return o.value

    def contract_of(self, fn, handler):
        self.I.overrides[id(fn)] = (fn, handler)

    # ---- specifications
    def index(self, *sizes):
        """Arbitrary index tuple within the sizes (or axes); hypotheses are attached to later obligations."""
        out = []
        for s in sizes:
            if isinstance(s, Axis):
                cs = s.fresh('q')
                self.quant.append(s.guard(cs))
                out.extend(cs)
            else:
                s = s.t if isinstance(s, SNum) else (IV(s) if isinstance(s, int) else s)
                i = self.c.index('q')
                self.quant.append(And(i >= 0, i < s))
                out.append(i)
        return out[0] if len(out) == 1 else tuple(out)

    def given(self, *bs):
        self.quant.extend(bt(b) for b in bs)

    def reset(self):
        self.quant = []

    def ensures(self, name, cond, *hyps, note=''):
        self.p.oblige(self, name, cond, list(self.quant) + [bt(h) for h in hyps], note)

    def equal(self, name, a, b, *hyps):
        """Equality of two values: numbers, booleans, None, strings, tuples."""
        self.ensures(name, eqv(a, b), *hyps)

    def loop_invariant(self, kinds, inv):
        """An invariant of the loops whose body assigns the names in kinds ('int', 'optint' or 'bool').
        inv(L): [(name, formula)] holds before iteration L.i; a formula is a z3 Bool, ForAll or Given."""
        self.I.loop_invs.append((self, kinds, inv))

    def loop_value(self, key, fn):
        """The value fn(k) of a variable, or of the attribute (object, name), before iteration k of the loops assigning it."""
        self.I.loop_values.append((self, key, fn))

    def local_contract(self, name, handler):
        """Contract of a function defined inside another: handler(I, run, args) verifies run() and gives the result."""
        self.I.local_contracts[name] = handler

    def cases(self, run, check):
        """check(result) on every path of run(); without effects."""
        c = self.c

        def once():
            mark, start = c.mark(), stamp()
            r = run()
            for _, x in c.journal[mark:]:
                if x is not None and (x[0] not in ('w', 'app', 'ext', 'lset', 'dset', 'attr', 'cursor', 'cursorset') or self.I.born_of(x[1]) <= start):
                    raise Unsupported('effects of a function with a contract')
            check(r)
        c.cut += 1
        try:
            c.explore(lambda: c.scoped(once))
        finally:
            c.cut -= 1

    def mention(self, *ts):
        """Terms for the solver to match facts on."""
        for t in ts:
            self.c.assume(z3.Function('mentioned', t.sort(), z3.BoolSort())(t))

    def lemma(self, name, f, *hyps):
        """An obligation that later ones of this path may use."""
        self.ensures(name, f, *hyps)
        self.c.assume(Implies(And(*[bt(h) for h in hyps]), bt(f)) if hyps else bt(f))

    def cond(self, b):
        """Truth of b as a z3 term."""
        return bt(b)

    def sum(self, sizes, fn, mask=None):
        sizes = [s.t if isinstance(s, SNum) else (IV(s) if isinstance(s, int) else s) for s in sizes]
        return mk_sum(sizes, (lambda cs: bt(mask(*cs))) if mask else None, lambda cs: fn(*cs))

    def interval(self, name, sizes, mask, lo, hi):
        """The number of members of a set of integers that is shown to be lo .. hi (hi >= lo - 1)."""
        i = self.c.index('q')
        n, lo, hi = (numt(lift(x)) for x in (sizes[0], lo, hi))
        self.ensures(name + ': the members', And(i >= 0, i < n, mask(i)) == And(i >= lo, i <= hi))
        self.ensures(name + ': not negative', hi >= lo - 1)
        t = self.sum(sizes, lambda i: num(IV(1)), mask)
        self.c.assume(numt(t) == hi - lo + 1)
        return num(hi - lo + 1)

    def parts(self, axis):
        return leaves(axis)

    def ranks(self, *at):
        """The position of an element of a filtered sequence is the number of elements before it."""
        c = self.c
        for ax, pos, _ in list(c.axis_syms.values()):
            if ax.m == 1 and ax.mask is not None and ax.order == 'lex' and not pos.nparams:
                j = c.index('j')
                n = mk_sum([j], lambda cs, ax=ax: ax.mask(cs), lambda cs: lift(1))
                p = pos(j)
                c.forall(p, [j], (), lambda t, f=Implies(ax.guard((j,)), toreal(p) == toreal(n.t)): f, TRUE)
                self.mention(*[pos(i) for i in at])

    def under(self, cond, fn):
        """fn() where cond holds, with the conditions that decides resolved."""
        self.c.pc.append(cond)
        try:
            t = fn()
            t = numt(t) if not z3.is_expr(t) else t
            t = resolve_ites(self.c, t)
            return normal(t) if z3.is_arith(t) else t
        finally:
            self.c.pc.pop()

    def decide(self, b):
        """Case split of the specification."""
        return self.c.decide(b)


class ForAll:
    """For all values of the index constants ps (and cs): body; instantiated where app occurs."""

    def __init__(self, app, ps, body, cs=()):
        self.app, self.ps, self.body, self.cs = app, ps, body, tuple(cs)

    def register(self, c, guard=None):
        c.forall(self.app, self.app.children(), self.cs, lambda t: self.body, guard)


class Given:
    """A defining equation of a ghost function."""
    given = True

    def __init__(self, f):
        self.f = f


def _tolist(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def eqv(a, b):
    if isinstance(a, SObj) or isinstance(b, SObj):
        return obj_of(a).t == obj_of(b).t
    if isinstance(a, (SNum,)) or isinstance(b, (SNum,)):
        if not is_num(a) or not is_num(b):
            return False
        a, b = lift(a), lift(b)
        ta, tb = a.t, b.t
        if ta.is_int() != tb.is_int():
            ta, tb = toreal(ta), toreal(tb)
        if a.finite and b.finite:
            return ta == tb
        fl = And(bt(a.nan) == bt(b.nan), bt(a.pinf) == bt(b.pinf), bt(a.ninf) == bt(b.ninf))
        return And(fl, Or(bt(a.nan), bt(a.pinf), bt(a.ninf), ta == tb))
    if isinstance(a, (SBool, z3.BoolRef)) or isinstance(b, (SBool, z3.BoolRef)):
        return bt(a) == bt(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[bt(eqv(x, y)) for x, y in zip(a, b)])
    if isinstance(a, NDArr) and isinstance(b, NDArr):
        if a.ndim == 0 and b.ndim == 0:
            return eqv(a.at(()), b.at(()))
        raise Unsupported('array equality in a specification')
    if isinstance(a, SStr) or isinstance(b, SStr):
        return str_eq(a, b)
    if is_num(a) and is_num(b):
        return eqv(lift(a), lift(b))
    return a is b or (type(a) is type(b) and bool(a == b))


MATH = {'arctan2', 'arctan', 'arccos', 'arcsin', 'cos', 'sin', 'tan', 'exp', 'log', 'sqrt'}


NATIVE = 1000      # milliseconds for a first attempt with the facts as axioms


class Prover:
    def __init__(self, ctx, timeout=8000):
        self.c = ctx
        self.results = {}      # name -> record
        self.order = []
        self.timeout = timeout
        self.prefix = ''
        self._pcache = {}
        self._eqcache = {}
        self.keepalive = []

    # ---- bookkeeping
    def oblige(self, v, name, cond, hyps, note):
        c = self.c
        r = self.results.get(name)
        if r is None:
            r = self.results[name] = {'name': name, 'paths': 0, 'status': 'proved', 'why': '', 'backends': set(),
                                      's': 0.0, 'reach': False, 'model': None}
            self.order.append(name)
        r['paths'] += 1
        t0 = time.time()
        if isinstance(cond, (list, tuple)):
            goals = [bt(x) for x in cond]
        else:
            goals = [bt(cond)]
        if not r['reach']:
            if c.feasible(And(*hyps)):
                r['reach'] = True
        for g in goals:
            st, be, info = self.prove(list(c.pc) + hyps, g)
            r['backends'].add(be)
            if st != 'proved':
                rank = {'proved': 0, 'unknown': 1, 'refuted': 2}
                if rank[st] > rank.get(r['status'], 0):
                    r['status'] = st
                    r['why'] = (note + ' ' if note else '') + str(info)[:1500]
        r['s'] += time.time() - t0

    # ---- proving
    def prove(self, hyps, goal, depth=0, timeout=None):
        """-> (status, backend, info)"""
        gs = conjuncts(goal)
        be = 'trivial'
        for g in gs:
            st, b, info = self.prove1(hyps, g, depth, timeout)
            if st != 'proved':
                return st, b, info
            if b != 'trivial':
                be = b
        return 'proved', be, ''

    def prove1(self, hyps, g, depth, timeout=None):
        c = self.c
        c.check_time()
        if z3.is_true(g):
            return 'proved', 'trivial', ''
        g2 = z3.simplify(g, som=False)
        if z3.is_true(g2):
            return 'proved', 'z3-simplify', ''
        # implications and negated disjunctions: move hypotheses over
        if z3.is_or(g) and depth < 50:
            ch = g.children()
            eqs = [x for x in ch if not z3.is_not(x) and (z3.is_eq(x) or z3.is_and(x))]
            if len(eqs) == 1 and len(ch) > 1:
                rest = [Not(x) for x in ch if x is not eqs[0]]
                return self.prove(hyps + rest, eqs[0], depth, timeout)
        if self.normal_eq(g, hyps):
            return 'proved', 'normalisation', ''
        if depth > 3:
            return 'unknown', 'depth', ''
        if depth == 0 and c.native(hyps + [Not(g)], NATIVE):
            return 'proved', 'z3 with axioms', ''
        if depth == 0:
            pairs = self.equal_sums(hyps, g)
            if pairs:
                g1 = z3.substitute(g, *pairs)
                h1 = [z3.substitute(h, *pairs) for h in hyps]
                if self.normal_eq(g1, h1) or z3.is_true(z3.simplify(g1)):
                    return 'proved', 'sum congruence + normalisation', ''
                st, be, info = self.prove(h1, g1, 0.5, timeout)
                if st == 'proved':
                    return st, 'sum congruence + ' + be, info
        if depth == 0.5:
            depth = 0
        if self.linear_sums(g, hyps, depth):
            return 'proved', 'sum congruence + z3', ''
        if depth == 0:
            m = self.same_functions(g, hyps)
            if m is not None:
                return 'proved', m, ''
        T = timeout or self.timeout
        key = (tuple(sorted(h.get_id() for h in hyps)), g.get_id(), depth > 0)
        if key in self._pcache:
            return self._pcache[key]
        self.keepalive.append((hyps, g))
        st, be, info, model = self.z3_try(hyps, g, min(T, 1500) if depth == 0 else 700, depth, lemmas=False)
        if st != 'proved' and depth == 0 and c.native(hyps + [Not(g)], T):
            self._pcache[key] = ('proved', 'z3 with axioms', '')
            return self._pcache[key]
        if st != 'proved' and sum_apps(c, hyps + [g]):
            st, be, info, model = self.z3_try(hyps, g, T if depth == 0 else 2500, depth, lemmas=True)
        if st == 'unknown' and depth == 0:
            cs = self.case_split(hyps, g, depth, T)
            if cs:
                st, be, info = 'proved', 'case split + normalisation', ''
        if st == 'unknown' and depth == 0:
            st2 = self.z3_try(hyps, g, T, depth, lemmas=True)
            if st2[0] != 'unknown':
                st, be, info, model = st2
        if st == 'unknown' and depth == 0:
            r = self.cvc5_try(hyps, g, T)
            if r:
                st, be, info = 'proved', 'cvc5', ''
        res = (st, be, info)
        self._pcache[key] = res
        return res

    def sub(self, hyp, goal, depth):
        """Sub-proof callback for lemmas."""
        if depth >= 3:
            return False
        st, _, _ = self.prove([hyp] if not z3.is_true(hyp) else [], goal, depth + 1)
        return st == 'proved'

    def normal_eq(self, g, hyps):
        if not z3.is_eq(g):
            return False
        a, b = g.arg(0), g.arg(1)
        if not z3.is_arith(a):
            return False
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        try:
            p = clear_denominators(to_poly(t_sub(a, b)))
        except Unsupported:
            return False
        return not p.d

    def same_functions(self, g, hyps):
        """Equality of two terms whose mathematical functions are applied to provably equal arguments."""
        if not z3.is_eq(g) or not z3.is_arith(g.arg(0)):
            return None

        def outermost(t, out):
            if z3.is_app(t):
                if t.decl().name() in MATH:
                    out[t.get_id()] = t
                elif not z3.is_var(t):
                    for x in t.children():
                        outermost(x, out)
            return out
        a, b = (list(outermost(x, {}).values()) for x in g.children())
        if len(a) != 1 or len(b) != 1 or not a[0].decl().eq(b[0].decl()) or a[0].eq(b[0]):
            return None
        if not self.normal_eq(z3.substitute(g, (a[0], b[0])), hyps):
            return None
        for x, y in zip(a[0].children(), b[0].children()):
            if self.prove(hyps, x == y)[0] != 'proved':
                return None
        return 'argument by argument'

    def equal_sums(self, hyps, g):
        """Pairs (later, earlier) of sum terms that are equal because their index sets and summands are."""
        c = self.c
        if len(sum_apps(c, [g])) < 2 and not (sum_apps(c, [g]) and sum_apps(c, hyps)):
            return []
        apps, seen = [], set()
        for a in sum_apps(c, [g] + list(hyps)):
            if a.get_id() not in seen:
                seen.add(a.get_id())
                apps.append(a)
        if len(apps) > 24:
            return []
        apps.sort(key=lambda a: int(a.decl().name().split('!')[1]))
        pairs, reps = [], []
        for a in apps:
            ia = c.sums[a.decl().name()].inst(a.children())
            ia = [z3.substitute(x, *pairs) if pairs and z3.is_expr(x) else x for x in ia]
            ia[0] = [z3.substitute(x, *pairs) if pairs else x for x in ia[0]]
            for b, ib in reps:
                if a.sort() != b.sort() or len(ia[0]) != len(ib[0]):
                    continue
                key = (tuple(h.get_id() for h in c.pc), a.get_id(), b.get_id(), len(pairs))
                if key not in self._eqcache:
                    self.keepalive.append((a, b, list(c.pc)))
                    self._eqcache[key] = extensional(c, ib, ia, list(c.pc), 1, self.sub)
                if self._eqcache[key]:
                    pairs.append((a, b))
                    break
            else:
                reps.append((a, ia))
        return pairs

    def linear_sums(self, g, hyps, depth):
        """An equation that is linear in sums over the same ranges: prove it for the summands."""
        c = self.c
        if not z3.is_eq(g) or not z3.is_arith(g.arg(0)) or not sum_apps(c, [g]):
            return False
        a, b = g.arg(0), g.arg(1)
        if a.sort() != b.sort():
            a, b = toreal(a), toreal(b)
        try:
            p = clear_denominators(to_poly(t_sub(a, b)))
        except Unsupported:
            return False
        groups = []
        for m, co in p.d.items():
            sm = [(i, e) for i, e in m if _is_sum(c, p.atoms[i])]
            if len(sm) != 1 or sm[0][1] != 1:
                return False
            i = sm[0][0]
            at = p.atoms[i]
            if z3.is_app_of(at, z3.Z3_OP_TO_REAL):
                at = at.arg(0)
            sizes, cs, mask, body = c.sums[at.decl().name()].inst(at.children())
            rest = tuple((j, e) for j, e in m if j != i)
            fac = from_poly(Poly({rest: co}, {j: p.atoms[j] for j, _ in rest}), False)
            for gr in groups:
                if len(gr[0]) == len(sizes):
                    for pm in (itertools.permutations(range(len(sizes))) if len(sizes) <= 3 else [tuple(range(len(sizes)))]):
                        if all(c.same_h(gr[0][k], sizes[pm[k]], hyps) for k in range(len(sizes))):
                            pr = [(cs[pm[k]], gr[1][k]) for k in range(len(sizes))]
                            gr[2].append((fac, z3.substitute(mask, *pr), z3.substitute(body, *pr)))
                            break
                    else:
                        continue
                    break
            else:
                ncs = tuple(c.index('e') for _ in sizes)
                pr = list(zip(cs, ncs))
                groups.append((sizes, ncs, [(fac, z3.substitute(mask, *pr), z3.substitute(body, *pr))]))
        for sizes, cs, terms in groups:
            if len(terms) < 2:
                return False
        for sizes, cs, terms in groups:
            rng = [inrange(x, n) for x, n in zip(cs, sizes)]
            parts = [t_mul(f, toreal(Ite(mk, bd, IV(0) if bd.is_int() else RV(0)))) for f, mk, bd in terms]
            goal = core._sum(parts) == RV(0)
            h = list(hyps) + rng
            if not (self.normal_eq(goal, h) or self.case_split(h, goal, depth + 1, 2500)
                    or self.prove(h, goal, depth + 1)[0] == 'proved'):
                return False
        return True

    def query(self, hyps, g, depth, lemmas):
        c = self.c
        fs = list(hyps) + [Not(g)]
        fs = fs + c.instantiate(fs)
        if lemmas:
            ls = sum_lemmas(c, fs, list(hyps), depth, self.sub)
            if ls:
                fs += ls
                fs += c.instantiate(ls)
                # a second round: sums inside lemmas' sub terms are already covered
        return fs

    def z3_try(self, hyps, g, T, depth, lemmas):
        c = self.c
        fs = self.query(hyps, g, depth, lemmas)
        s = z3.Solver()
        s.set('timeout', int(T))
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        STATS.add('z3', time.time() - t0)
        if r == z3.unsat:
            return 'proved', 'z3' + (' + sum lemmas' if lemmas else ''), '', None
        if r == z3.sat:
            m = s.model()
            txt = '; '.join('%s=%s' % (d.name(), m[d]) for d in list(m.decls())[:40])
            if self.complete(fs):
                return 'refuted', 'z3', 'goal %s; counterexample %s' % (str(g)[:300], txt), m
            return 'unknown', 'z3', 'goal %s; candidate %s' % (str(g)[:300], txt), m
        return 'unknown', 'z3', 'goal %s; solver gave up (%s)' % (str(g)[:300], s.reason_unknown()), None

    def complete(self, fs):
        """Are all uninterpreted symbols inputs, so that a model is a real counterexample?"""
        c = self.c
        for a in all_syms(fs):
            n = a
            if n in c.inputs or n.startswith('ix!'):
                continue
            return False
        return True

    def case_split(self, hyps, g, depth, T):
        """Split on if-then-else conditions of the goal, prove each case by normalisation or z3."""
        conds = ite_conds([g])
        if not conds or len(conds) > 8:
            return False
        budget = [48]

        def rec(hs, goal, k):
            self.c.check_time()
            goal = z3.simplify(goal) if False else goal
            if z3.is_true(goal) or self.normal_eq(goal, hs):
                return True
            cs = ite_conds([goal])
            if not cs:
                budget[0] -= 1
                if budget[0] < 0:
                    return False
                st = self.z3_try(hs, goal, min(T, 3000), depth, lemmas=bool(sum_apps(self.c, hs + [goal])))
                return st[0] == 'proved'
            x = cs[0]
            for val in (True, False):
                h = x if val else Not(x)
                if self.c.check_unsat(hs + [h], 500):
                    continue
                ng = reduce_ite(z3.substitute(goal, (x, z3.BoolVal(val))))
                if not rec(hs + [h], ng, k + 1):
                    return False
            return True
        return rec(list(hyps), g, 0)

    def cvc5_try(self, hyps, g, T):
        try:
            import cvc5
        except ImportError:
            return False
        fs = self.query(hyps, g, 0, True)
        s = z3.Solver()
        s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        t0 = time.time()
        try:
            slv = cvc5.Solver()
            slv.setOption('tlimit-per', str(int(T)))
            prs = cvc5.InputParser(slv)
            prs.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = prs.getSymbolManager()
            out = ''
            while True:
                cmd = prs.nextCommand()
                if cmd.isNull():
                    break
                out += str(cmd.invoke(slv, sm))
            return 'unsat' in out
        except Exception:
            return False
        finally:
            STATS.add('cvc5', time.time() - t0)


def _is_sum(c, a):
    if z3.is_app_of(a, z3.Z3_OP_TO_REAL):
        a = a.arg(0)
    return z3.is_app(a) and a.decl().name() in c.sums


def all_syms(fs):
    from .sums import all_apps
    return {name_of(x) for x in all_apps(fs)}


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for x in g.children():
            out.extend(conjuncts(x))
        return out
    return [g]


def ite_conds(ts):
    out, seen, done = [], set(), set()
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            q = x.arg(0)
            if q.get_id() not in seen:
                seen.add(q.get_id())
                out.append(q)
        stack.extend(x.children())
    # innermost (no ite inside) conditions first
    out.sort(key=lambda q: (len(ite_conds_flat(q)), q.get_id()))
    return out


def ite_conds_flat(q):
    n, stack, seen = [], [q], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            n.append(x)
        stack.extend(x.children())
    return n


def reduce_ite(t, memo=None):
    """Resolve ite with literal conditions (no other rewriting)."""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    ch = t.children()
    if not ch:
        r = t
    else:
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            q0 = reduce_ite(t.arg(0), memo)
            q = z3.simplify(q0)
            if z3.is_true(q):
                r = reduce_ite(t.arg(1), memo)
            elif z3.is_false(q):
                r = reduce_ite(t.arg(2), memo)
            else:
                r = z3.If(q0, reduce_ite(t.arg(1), memo), reduce_ite(t.arg(2), memo))
        else:
            nc = [reduce_ite(x, memo) for x in ch]
            r = t if all(a.eq(b) for a, b in zip(nc, ch)) else rebuild(t, nc)
    memo[k] = (t, r)
    return r


rebuild = core._rebuild


def clear_denominators(p):
    """Multiply out negative powers of compound atoms (a zero polynomial stays zero and conversely)."""
    for _ in range(6):
        worst = {}
        for m in p.d:
            for i, e in m:
                if e < 0:
                    a = p.atoms[i]
                    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD:
                        worst[i] = min(worst.get(i, 0), e)
        if not worst:
            return p
        i, e = sorted(worst.items())[0]
        a = p.atoms[i]
        pa = to_poly(a)
        r = Poly()
        for m, co in p.d.items():
            has = dict(m).get(i, 0)
            k = has - e            # remaining positive multiplicity
            rest = tuple((j, x) for j, x in m if j != i)
            q = Poly({rest: co}, {j: p.atoms[j] for j, _ in rest})
            for _ in range(k):
                q = _pmul(q, pa)
            r = _padd(r, q)
            if len(r.d) > 3000:
                raise Unsupported('polynomial too large')
        p = r
    return p


# ---------------------------------------------------------------- driver
def run_contract(prop, label, target, fn, deadline):
    """Run one contract over all paths; returns list of obligation records."""
    with Ctx(deadline) as c:
        pr = Prover(c)
        status = None
        why = ''
        npaths = [0]
        snap = save(c)

        def one():
            restore(c, snap)
            npaths[0] += 1
            v = V(c, pr, label)
            try:
                fn(v)
            except Abort:
                pass
            return None
        try:
            c.explore(one)
        except Unsupported as e:
            status, why = 'unsupported', '%s' % e
        except Budget as e:
            status, why = 'budget', '%s' % e
        except IExc as e:
            status, why = 'unsupported', 'unexpected exception %s: %s' % (type(e.exc).__name__, e.exc)
        except (RecursionError, z3.Z3Exception) as e:
            status, why = 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:300])
            if DEBUG:
                traceback.print_exc()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            status, why = 'unsupported', 'engine: %s: %s at %s:%s' % (type(e).__name__, str(e)[:200], tb.filename.split('/')[-1], tb.lineno)
            if DEBUG:
                traceback.print_exc()
        out = []
        for n in pr.order:
            r = pr.results[n]
            st = r['status']
            w = r['why']
            if status and st == 'proved':
                st, w = status, why
            if st == 'proved' and not r['reach'] and not n.endswith('no exception'):
                st, w = 'vacuous', 'no path reaches this obligation'
            out.append({'name': '%s: %s' % (label, n), 'function': target, 'status': st, 'why': w, 'paths': r['paths'],
                        'backend': ', '.join(sorted(r['backends'] - {'trivial'})) or 'trivial', 's': round(r['s'], 3)})
        if not out or status:
            if not out:
                out.append({'name': '%s: (all obligations)' % label, 'function': target,
                            'status': status or 'vacuous', 'why': why or 'no obligation stated', 'paths': 0, 'backend': '-', 's': 0})
        return out, c.functions, c.trusted, npaths[0]


DEBUG = False


class Counter:
    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n


def save(c):
    c.counter = Counter()
    return {k: dict(getattr(c, k)) for k in ('uf_facts', 'const_facts', 'qdefs', 'sums', 'sum_keys', 'nonzero', 'axis_syms', 'wit',
                                             'streq', 'len_dims', 'det', 'ext_ne', 'uniq_cache')}


def restore(c, snap):
    c.counter.n = 0
    for k, d in snap.items():
        cur_ = getattr(c, k)
        # keep superseded objects alive so that ids stay unique
        c.keep.append(dict(cur_))
        setattr(c, k, {a: (list(b) if isinstance(b, list) else b) for a, b in d.items()})
    c.loop_ix = []
    c.inputs = set()


# ---------------------------------------------------------------- specification helpers
def sterm(x):
    """z3 term of a size-like value."""
    return x.t if isinstance(x, SNum) else (IV(x) if isinstance(x, int) else x)


def num(t):
    return SNum(t) if isinstance(t, z3.ExprRef) else lift(t)


def half():
    return SNum(RV('1/2'))
