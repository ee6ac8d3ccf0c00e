"""Loops over symbolic ranges: one generic iteration is executed and generalised.

Iteration index i.  The state at the start of iteration i is obtained in closed
form (constant increments and sums for counters, "value of the previous
iteration" otherwise); array writes are generalised by an inverse i*(b) of the
written region that is proved unique; early exits define K, the first iteration
that leaves the loop."""
import ast
import numpy as np
import z3
from .core import *
from . import core
from .arrays import *
from .arrays import W
from .sums import mk_sum, index_consts
from .interp import dset, _Break, _Continue, _Return, CarriedOpaque, Lazy, Scope, IGen, IList, assigned_names, is_symbolic


class Out:
    """Outcome of one path of the generic iteration."""

    def __init__(self, kind, env, recs, value=None):
        self.kind, self.env, self.recs, self.value = kind, env, recs, value


def names_in(t, names):
    return any(a.decl().name() in names for a in all_decl_apps(t))


def all_decl_apps(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out


def terms_of(v, acc=None, depth=0):
    """All z3 terms in a value (arrays evaluated at fresh coordinates)."""
    acc = [] if acc is None else acc
    if depth > 6:
        return acc
    if isinstance(v, SNum):
        acc.append(v.t)
        for f in (v.nan, v.pinf, v.ninf):
            if f is not False:
                acc.append(f)
    elif isinstance(v, (SBool, SObj)):
        acc.append(v.t)
    elif isinstance(v, (tuple, list)):
        for x in v:
            terms_of(x, acc, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            terms_of(x, acc, depth + 1)
    elif isinstance(v, IList):
        for x in v.items:
            terms_of(x, acc, depth + 1)
        if v.seq is not None:
            terms_of(v.seq, acc, depth + 1)
    elif isinstance(v, Seq):
        acc.extend(v.axis.sizes)
        cs = v.axis.fresh('t')
        terms_of(v.fn(cs), acc, depth + 1)
        if v.axis.mask is not None:
            acc.append(v.axis.mask(cs))
    elif isinstance(v, NDArr):
        cs = []
        for a in v.axes:
            acc.extend(a.sizes)
            c = a.fresh('t')
            if a.mask is not None:
                acc.append(a.mask(c))
            cs.extend(c)
        for l in (v.fields() if v.isrec else [v.field]):
            terms_of(v.reader(l)(tuple(cs)), acc, depth + 1)
    elif isinstance(v, SStr):
        for p in v.parts:
            if not isinstance(p, str):
                if p[0] == 'fmt':
                    terms_of(p[2], acc, depth + 1)
                elif p[0] == 'fn':
                    terms_of(p[2], acc, depth + 1)
                elif p[0] == 'ite':
                    acc.append(p[1])
                    terms_of(p[2], acc, depth + 1)
                    terms_of(p[3], acc, depth + 1)
    elif isinstance(v, BaseException):
        pass
    elif hasattr(v, '_pv_bound'):
        terms_of(v.obj, acc, depth + 1)
    elif hasattr(v, '__dict__') and not isinstance(v, type) and type(v).__module__.split('.')[0] in ('droplets', 'strata', 'pandas_model'):
        for x in v.__dict__.values():
            terms_of(x, acc, depth + 1)
    return acc


def mentions(v, names):
    if not names:
        return False
    return any(names_in(t, names) for t in terms_of(v))


def either(pcs):
    """The disjunction of path conditions, with complementary cases joined."""
    sets = []
    for f in pcs:
        out, todo = {}, [f]
        while todo:
            x = todo.pop(0)
            if z3.is_and(x):
                todo = x.children() + todo
            elif not z3.is_true(x):
                out[x.get_id()] = x
        sets.append(out)
    again = True
    while again:
        again = False
        for a in range(len(sets)):
            for b in range(a + 1, len(sets)):
                da = [x for k, x in sets[a].items() if k not in sets[b]]
                db = [x for k, x in sets[b].items() if k not in sets[a]]
                if not da or not db or len(da) == 1 and len(db) == 1 and (Not(da[0]).eq(db[0]) or Not(db[0]).eq(da[0])):
                    drop = {x.get_id() for x in (da if da and db else [])}
                    keep = sets[b] if not db else sets[a]
                    sets[a] = {k: x for k, x in keep.items() if k not in drop}
                    del sets[b]
                    again = True
                    break
            if again:
                break
    return Or(*[And(*s.values()) for s in sets])


def group(pairs):
    """[(pc, number)] with equal numbers joined."""
    out = []
    for pc, x in pairs:
        x = lift(x)
        for g in out:
            if x.finite and g[1].finite and g[1].t.eq(x.t) and g[1].np == x.np:
                g[0].append(pc)
                break
        else:
            out.append(([pc], x))
    return [(either(p) if len(p) > 1 else p[0], x) for p, x in out]


class Loop:
    def __init__(self, I, sc, N, run, names, axis_guard=None, body_nodes=None):
        """run(i, K): executes one iteration at index term i (may raise control flow); N None = unbounded."""
        self.I, self.sc, self.N, self.run, self.names = I, sc, N, run, names
        self.c = I.ctx
        self.guard = axis_guard
        # values given by the contract: of variables, and of attributes assigned in the body
        self.specs, self.attrs = {}, {}
        stored = {x.attr for s in body_nodes or () for x in ast.walk(s) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        for v, key, fn in I.loop_values:
            if isinstance(key, str):
                if key in names and key in sc.vars:
                    self.specs[key] = (v, fn)
            elif key[1] in stored:
                self.attrs[key[1]] = (v, key[0], fn)

    def range_(self, i):
        g = [i >= IV(0)]
        if self.N is not None:
            g.append(i < self.N)
        if self.guard is not None:
            g.append(self.guard(i))
        return And(*g)

    # -------------------------------------------------------------- generic iteration
    def explore(self, i, closed, bufsub, cursors):
        c, sc, I = self.c, self.sc, self.I
        saved = dict(sc.vars)
        savedbufs = [(b, f, b.fns[f]) for b, f in bufsub]
        savedcur = [(g, g.cursor) for g in cursors]
        savedlists = [(l, l.seq) for l in self.filled]
        savedattr = [(o, a, o.__dict__[a]) for a, (_, o, _) in self.attrs.items()]
        self.carried = {}

        def once():
            sc.vars = dict(saved)
            for n in self.names:
                if n in saved:
                    if n in closed:
                        sc.vars[n] = Lazy(lambda n=n: closed[n](i))
                    else:
                        sc.vars[n] = self.placeholder(n, saved[n], i)
            for a, (_, o, fn) in self.attrs.items():
                dset(o, a, fn(i))
            for (b, f), ph in bufsub.items():
                b.fns[f] = ph
            for g, fn in cursors.items():
                g.cursor = fn(i)
            for l in self.filled:
                l.seq = Pending(l.seq.axis)
            mark = c.mark()
            kind, val = 'next', None
            try:
                self.run(i)
            except _Break:
                kind = 'break'
            except _Continue:
                kind = 'next'
            except _Return as r:
                kind, val = 'return', r.v
            except IExc as e:
                kind, val = 'raise', e.exc
            except StopLoop:
                kind = 'exit'
            env = {}
            for n in self.names:
                if n in sc.vars:
                    v = sc.vars[n]
                    env[n] = v if isinstance(v, (Lazy, CarriedOpaque)) else snapshot(v)
            for a, (_, o, _) in self.attrs.items():
                env[a + ' of', o] = snapshot(o.__dict__[a])
            recs = [self.snap(r) for _, r in c.journal[mark:] if r is not None]
            return Out(kind, env, recs, val)
        c.loop_ix.append(i)
        npc = len(c.pc)
        c.pc.append(self.range_(i))
        try:
            res = c.explore(once)
        finally:
            del c.pc[npc:]
            c.loop_ix.pop()
            sc.vars = saved
            for b, f, fn in savedbufs:
                b.fns[f] = fn
            for g, cu in savedcur:
                g.cursor = cu
            for l, x in savedlists:
                l.seq = x
            for o, a, x in savedattr:
                dset(o, a, x)
        outs = []
        for o, pcs, _ in res:
            o.pc = And(*pcs)
            outs.append(o)
        return outs

    def snap(self, r):
        if r[0] in ('app',):
            return (r[0], r[1], snapshot(r[2]))
        if r[0] == 'scat':
            return r[:3] + (snapshot(r[3]),)
        return r

    def placeholder(self, n, v, i):
        c = self.c
        if n in self.carried:
            return self.carried[n][0]
        if isinstance(v, (SBool, bool, np.bool_)):
            d = z3.Function('car!%s!%d' % (n, next(c.counter)), z3.IntSort(), z3.BoolSort())
            p = SBool(d(i))
        elif isinstance(v, (SNum, int, float, np.integer, np.floating)) and (isinstance(v, SNum) or v == v and abs(v) != float('inf')):
            l = lift(v)
            d = z3.Function('car!%s!%d' % (n, next(c.counter)), z3.IntSort(), z3.IntSort() if l.isint else z3.RealSort())
            p = SNum(d(i), l.np)
        elif isinstance(v, (str, SStr)):
            d = z3.Function('car!%s!%d' % (n, next(c.counter)), z3.IntSort(), z3.IntSort())
            p = SStr((('fn', 'car', (SNum(d(i)),)),))
        else:
            return CarriedOpaque(n)
        self.carried[n] = (p, d.name())
        return p

    # -------------------------------------------------------------- driver
    def execute(self):
        c, sc, I = self.c, self.sc, self.I
        pre = dict(sc.vars)
        closed, bufsub, cursors = {}, {}, {}
        for n, (_, fn) in self.specs.items():
            closed[n] = fn
        i = c.index('L')
        self.i = i
        start = stamp()
        self.filled = []
        carb = {}
        for attempt in range(6):
            outs = self.explore(i, closed, bufsub, cursors)
            carnames = {nm for _, nm in self.carried.values()}
            nexts = [o for o in outs if o.kind == 'next']
            progress = False
            # buffers written in the loop
            for o in outs:
                for r in o.recs:
                    if r[0] == 'w' and r[1].born < start and (r[1], r[2]) not in bufsub:
                        b, f = r[1], r[2]
                        dt = b.dtypes.get(f, 'f')
                        srt = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 'o': z3.IntSort()}.get(dt)
                        if srt is None:
                            raise Unsupported('loop writes to an array of objects')
                        d = z3.Function('carb!%d' % next(c.counter), *([z3.IntSort()] * (len(b.sizes) + 1) + [srt]))
                        carb[(b, f)] = d
                        isb = dt == 'b'
                        bufsub[(b, f)] = memo(lambda cs, d=d, isb=isb, dt=dt: SBool(d(i, *cs)) if isb else SObj(d(i, *cs)) if dt == 'o' else SNum(d(i, *cs), True))
                        progress = True
                    elif r[0] == 'scat' and r[1].born < start and not any(l is r[1] for l in self.filled):
                        self.filled.append(r[1])
                        progress = True
                    elif r[0] == 'cursor' and r[1].born < start and r[1] not in cursors:
                        g = r[1]
                        deltas = set()
                        for o2 in nexts:
                            deltas.add(sum(1 for q in o2.recs if q[0] == 'cursor' and q[1] is g))
                        if len(deltas) != 1:
                            raise Unsupported('generator advanced irregularly in a loop')
                        dlt = deltas.pop()
                        c0 = g.cursor
                        cursors[g] = lambda k, c0=c0, dlt=dlt: simp(n_add(c0, n_mul(SNum(k), dlt)))
                        progress = True
            if progress:
                continue
            # carried scalars
            used = False
            if carnames:
                for o in outs:
                    if names_in(o.pc, carnames):
                        used = True
                for o in outs:
                    if not used:
                        used = any(mentions(r[2] if r[0] == 'app' else self.wterms(r), carnames) for r in o.recs) \
                            or (o.value is not None and mentions(o.value, carnames)) \
                            or any(mentions(v, carnames) for n, v in o.env.items() if not isinstance(v, (Lazy, CarriedOpaque)) and
                                   not (n in self.carried and v is self.carried[n][0]))
            if not used:
                # no carried scalar is read: closed forms only for the state after the loop
                break
            for n in self.names:
                if n in closed or n not in pre or n not in self.carried:
                    continue
                cf = self.closed_form(n, pre[n], nexts, carnames, i)
                if cf is not None:
                    closed[n] = cf
                    progress = True
            if not progress:
                bad = [n for n in self.carried if n not in closed]
                raise Unsupported('loop-carried variable %s has no closed form' % ', '.join(bad))
        else:
            raise Unsupported('loop state did not stabilise')
        self.outs, self.nexts = outs, nexts
        self.check_specs(pre, nexts, i)
        for n in self.names:
            if n in pre and n not in closed:
                cf = self.closed_form(n, pre[n], nexts, {nm for _, nm in self.carried.values()}, i, final=True)
                if cf is not None:
                    closed[n] = cf
        exits = [o for o in outs if o.kind != 'next']
        # first exiting iteration
        if exits:
            E = Or(*[o.pc for o in exits])
            N = self.N
            E = self.elim_carb_bool(E, carb)

            K, ps, new = c.determined('K', 'Int', (i,), [E] + ([N] if N is not None else []))
            if new:
                EK = z3.substitute(E, (i, K))
                f = [K >= IV(0)]
                if N is not None:
                    f += [Implies(N >= IV(0), K <= N), Implies(N < IV(0), K == IV(0)), Implies(K < N, EK)]
                else:
                    f.append(EK)
                c.define(K, ps, f, TRUE if N is not None else None)
                k = c.index('q')
                c.forall(K, ps, (k,), lambda t: Implies(And(t[0] >= IV(0), t[0] < K), Not(z3.substitute(E, (i, t[0])))), TRUE, match=True)
            # relevance: the fact is instantiated at K-1 and at index terms
        else:
            if self.N is None:
                if any(o.kind == 'next' for o in outs):
                    self.infinite(nexts, closed, i, carb)
                    return 'infinite'
                raise Unsupported('unbounded loop')
            K = self.N
        self.K = K
        self.apply_effects(nexts, K, i, carb, closed, start)
        self.set_env(pre, closed, nexts, K, i)
        for a, (_, o, fn) in self.attrs.items():
            I.setattr(o, a, fn(K))
        for g, fn in cursors.items():
            self.set_cursor(g, fn(K))
        if exits:
            leave = TRUE if self.N is None else (K < self.N)
            if c.decide(leave):
                c.assume(And(self.range_(K), z3.substitute(E, (i, K))))
                try:
                    self.run(K)
                except _Break:
                    return 'break'
                except StopLoop:
                    return 'done'
                except _Continue:
                    raise Infeasible()
                raise Infeasible()
            return 'done'
        return 'done'

    def check_specs(self, pre, nexts, i):
        """The values given by the contract are those at the start and after every iteration."""
        from .prove import eqv
        for n, v, fn, first, key in [(n, v, fn, pre[n], n) for n, (v, fn) in self.specs.items()] + \
                [(a, v, fn, o.__dict__[a], (a + ' of', o)) for a, (v, o, fn) in self.attrs.items()]:
            old, v.quant = v.quant, []
            v.ensures('value of %s at the start of the loop' % n, eqv(first.thunk() if isinstance(first, Lazy) else first, fn(IV(0))))
            for o in nexts:
                x = o.env[key]
                x = x.thunk() if isinstance(x, Lazy) else x
                v.ensures('value of %s after an iteration' % n, eqv(x, fn(normal(t_add(i, IV(1))))), self.range_(i), o.pc)
            v.quant = old

    def wterms(self, r):
        if r[0] == 'scat':
            return [SNum(r[2]), r[3]]
        if r[0] != 'w':
            return None
        _, b, f, w = r
        cs = tuple(self.c.index('t') for _ in b.sizes)
        return [mkbool(w.region(cs)) if True else None, w.val(cs)]

    def merged(self, vals):
        """vals: [(pc, value)] -> merged value."""
        r = vals[-1][1]
        for pc, v in reversed(vals[:-1]):
            r = merge(pc, v, r)
        return r

    def closed_form(self, n, pre, nexts, carnames, i, final=False):
        c = self.c
        vals = []
        for o in nexts:
            if n not in o.env:
                return None
            v = o.env[n]
            if isinstance(v, Lazy):
                v = v.thunk()
            if isinstance(v, CarriedOpaque):
                return (lambda k, pre=pre: pre) if all(isinstance(q.env.get(n), CarriedOpaque) for q in nexts) else None
            vals.append((o.pc, v))
        if not vals:
            return lambda k, pre=pre: pre
        ph = self.carried.get(n)
        if ph is not None and all(v is ph[0] for _, v in vals):
            return lambda k, pre=pre: pre
        try:
            v = self.merged(vals)
        except Unsupported:
            return None
        if not mentions(v, carnames):
            def cf(k, v=v, pre=pre):
                prev = subst(v, [(i, t_sub(k, IV(1)) if not isnumeral(k) else IV(numval(k) - 1))])
                if isnumeral(k) and numval(k) == 0:
                    return pre
                if self.c.valid(k > IV(0)):
                    return prev
                return merge(eq_t(k, IV(0)), pre, prev)
            return cf
        if ph is None or not isinstance(v, SNum) or not v.finite:
            return None
        # additive: new = old + g
        pg = []
        for pc, x in vals:
            x = lift(x)
            if not x.finite:
                return None
            a, b = x.t, ph[0].t
            if a.is_int() != b.is_int():
                a, b = toreal(a), toreal(b)
            d = normal(t_sub(a, b))
            if names_in(d, carnames):
                return None
            pg.append((pc, SNum(d)))
        if all(x.t.eq(pg[0][1].t) for _, x in pg):
            g = pg[0][1]
        elif any(names_in(pc, carnames) for pc, _ in pg):
            return None
        else:
            g = self.merged(group(pg))
        g = lift(g)
        isnp = any(lift(x).np for _, x in vals)
        if not z3.is_app(g.t) or not names_in_index(g.t, i):
            def cf2(k, g=g, pre=pre):
                return simp(with_np(n_add(pre, n_mul(SNum(k), g)), isnp or lift(pre).np))
            return cf2

        def cf3(k, g=g, pre=pre):
            s = mk_sum([k], None, lambda cs: SNum(z3.substitute(g.t, (i, cs[0]))))
            return n_add(pre, s)
        return cf3

    # -------------------------------------------------------------- effects
    def elim_carb_bool(self, E, carb):
        names = {d.name(): k for k, d in carb.items()}
        if not names or not names_in(E, set(names)):
            return E
        raise Unsupported('loop exit depends on an array written in the loop')

    def apply_effects(self, nexts, K, i, carb, closed, start):
        c = self.c
        written = {}
        lists = {}
        sets, sread = {}, []
        for o in nexts:
            for r in o.recs:
                if r[0] == 'w':
                    if r[1].born < start:
                        written.setdefault((r[1], r[2]), None)
                elif r[0] in ('app', 'ext'):
                    if r[1].born < start:
                        if r[1] not in lists:
                            lists[r[1]] = r[0]
                elif r[0] == 'cursor' or r[0] == 'cursorset' and r[1].born > start:
                    continue
                elif r[0] in ('attr', 'dset', 'nonlocal', 'lset'):
                    if r[0] == 'attr' and (self.I.born_of(r[1]) > start or r[2] in self.attrs and self.attrs[r[2]][1] is r[1]):
                        continue
                    if r[0] == 'dset' and self.I.born_of(r[1]) > start:
                        continue
                    if r[0] == 'lset' and r[1].born > start:
                        continue
                    raise Unsupported('%s modified in a symbolic loop' % r[0])
                elif r[0] == 'scat':
                    continue
                elif r[0] == 'scattered' and r[1].born > start:
                    continue
                elif r[0] == 'sadd':
                    if r[1].born < start:
                        sets.setdefault(id(r[1]), (r[1], []))[1].append((o, r[2]))
                elif r[0] in ('sread', 'schange'):
                    if r[1].born < start:
                        sread.append(r)
                elif r[0] in ('warn', 'print'):
                    self.I.ghost[r[0] + ' in a loop'] = True
                elif r[0] == 'ghost':
                    self.ghost_effect(r, nexts, K, i)
                else:
                    raise Unsupported('effect %s in a symbolic loop' % r[0])
        for (b, f) in written:
            self.combine_writes(b, f, nexts, K, i, carb)
        for lst in lists:
            self.combine_appends(lst, nexts, K, i)
        for lst in self.filled:
            self.combine_scatter(lst, nexts, K, i)
        if any(r[0] == 'schange' or id(r[1]) in sets for r in sread):
            raise Unsupported('a set read and changed in a symbolic loop')
        for st, adds in sets.values():
            for x in {id(x): x for _, x in adds}.values():
                if self.guard is not None or not all(any(q is o and y is x for q, y in adds) for o in nexts):
                    raise Unsupported('conditional addition to a set in a symbolic loop')
                if c.decide(K > IV(0)):
                    self.I.call(self.I.getattr(st, 'add'), [x], {})

    def ghost_effect(self, r, nexts, K, i):
        raise Unsupported('external effect in a symbolic loop')

    def combine_appends(self, lst, nexts, K, i):
        c = self.c
        per = []
        for o in nexts:
            vals = [r[2] for r in o.recs if r[0] in ('app', 'ext') and r[1] is lst]
            if any(r[0] == 'ext' and r[1] is lst for r in o.recs):
                raise Unsupported('list extended by a sequence in a symbolic loop')
            per.append((o.pc, vals))
        counts = {len(v) for _, v in per}
        guard = self.guard
        if counts == {1}:
            val = self.merged([(pc, v[0]) for pc, v in per])
            mask = None
            if guard is not None:
                def mask(cs):
                    return guard(cs[0])
        elif counts == {0, 1}:
            one = [(pc, v[0]) for pc, v in per if len(v) == 1]
            val = self.merged(one)
            cond = either([pc for pc, _ in one])

            def mask(cs):
                r = z3.substitute(cond, (i, cs[0]))
                return And(guard(cs[0]), r) if guard is not None else r
        else:
            raise Unsupported('several appends per iteration')
        ax = Axis((K,), mask)
        seq = Seq(ax, memo(lambda cs: subst(val, [(i, cs[0])])))
        old = lst.seq if lst.seq is not None else list(lst.items)
        r = seq_concat(old, seq)
        oi, os_ = lst.items, lst.seq

        def undo():
            lst.items, lst.seq = oi, os_
        c.log(undo, ('ext', lst, seq))
        lst.items, lst.seq = [], r

    def combine_scatter(self, lst, nexts, K, i):
        """List a of a list of lists gets the values of the iterations that append to it, in order."""
        per = [(o.pc, [r for r in o.recs if r[0] == 'scat' and r[1] is lst]) for o in nexts]
        if any(len(rs) > 1 for _, rs in per):
            raise Unsupported('several appends per iteration')
        per = [(pc, rs[0]) for pc, rs in per if rs]
        val = self.merged([(pc, r[3]) for pc, r in per])
        hit = [(pc, r[2]) for pc, r in per]
        guard, old = self.guard, lst.seq
        if isinstance(old, Pending):
            raise Unsupported('lists read while they are filled')

        def element(cs):
            a = old.axis.pos(cs)

            def mask(ks):
                m = Or(*[z3.substitute(And(pc, k == a_), (i, ks[0])) for pc, k in hit for a_ in (z3.Int('pos!scatter'),)])
                m = z3.substitute(m, (z3.Int('pos!scatter'), a))
                return And(guard(ks[0]), m) if guard is not None else m
            before = old.fn(cs)
            new = Seq(Axis((K,), mask), memo(lambda ks: subst(val, [(i, ks[0])])))
            r = seq_concat(before.seq if before.seq is not None else list(before.items), new)
            l = IList()
            l.items, l.seq = [], r
            l.frozen = True
            return l

        def undo():
            lst.seq = old
        self.c.log(undo, ('scattered', lst))
        lst.seq = Seq(old.axis, element)

    def combine_writes(self, b, f, nexts, K, i, carb):
        c = self.c
        d = carb.get((b, f))
        old = b.fns[f]
        # per path: list of W
        paths = [(o.pc, [r[3] for r in o.recs if r[0] == 'w' and r[1] is b and r[2] == f]) for o in nexts]
        paths = [(pc, ws) for pc, ws in paths if ws]
        guard = self.guard

        def region(idx, bs):
            return Or(*[And(z3.substitute(pc, (i, idx)), Or(*[z3.substitute(w.region(bs), (i, idx)) for w in ws])) for pc, ws in paths])

        def value(idx, bs):
            """Value written at bs by iteration idx (last write of the iteration wins)."""
            r = None
            for pc, ws in reversed(paths):
                v = None
                for w in ws:
                    x = subst(w.val(bs), [(i, idx)])
                    v = x if v is None else merge(z3.substitute(w.region(bs), (i, idx)), x, v)
                r = v if r is None else merge(z3.substitute(pc, (i, idx)), v, r)
            return r
        bs = tuple(c.index('b') for _ in b.sizes)
        dname = d.name() if d is not None else None
        allcarb = {x.name() for x in carb.values()}
        # 1. accumulation  new = old + g(i, b)
        v = value(i, bs)
        npc = len(c.pc)
        c.pc.append(And(self.range_(i), *[inrange(x, n) for x, n in zip(bs, b.sizes)]))
        try:
            reg = region(i, bs)
            reads = [a for t in terms_of(v) + [reg] for a in all_decl_apps(t) if a.decl().name() in allcarb]
            reads = list({a.get_id(): a for a in reads}.values())
            if reads and isinstance(v, SNum):
                r = self.accumulation(b, f, v, reg, reads, dname, bs, i, K, old)
                if r:
                    return
            # 2. reads of the array must not see writes of earlier iterations
            sub = []
            for a in reads:
                args = a.children()
                bb = next(k for k, dd in carb.items() if dd.name() == a.decl().name())
                kq = c.index('k')
                pth = [(o.pc, [r[3] for r in o.recs if r[0] == 'w' and r[1] is bb[0] and r[2] == bb[1]]) for o in nexts]
                earlier = Or(*[And(z3.substitute(pc, (i, kq)), Or(*[z3.substitute(w.region(tuple(args[1:])), (i, kq)) for w in ws]))
                               for pc, ws in pth if ws])
                # (i occurs in args too: substitute i only in the region's own terms)
                earlier = Or(*[And(z3.substitute(pc, (i, kq)), Or(*[self.region_at(w, args[1:], i, kq) for w in ws]))
                               for pc, ws in pth if ws])
                if not c.valid(Implies(And(kq >= IV(0), kq < i, reg), Not(earlier))):
                    raise Unsupported('loop iteration reads what another iteration writes')
                o0 = bb[0].fns[bb[1]](tuple(args[1:]))
                sub.append((a, o0.t if isinstance(o0, SObj) else bt(o0) if isinstance(o0, (SBool, bool)) else (toreal(numt(o0)) if a.is_real() else numt(o0))))
            # 3. inverse of the region
            if not names_in_index(reg, i):
                if not names_in_index_v(v, i):
                    inv = lambda bs_: IV(0)
                else:
                    inv = lambda bs_: t_sub(K, IV(1))
            else:
                inv = self.inverse(paths, bs, reg, i)
                if inv is None:
                    raise Unsupported('written region has no provable inverse')
        finally:
            del c.pc[npc:]
        rng = self.range_

        def fin(bs_):
            k = inv(bs_)
            rg = And(k >= IV(0), k < K, *( [guard(k)] if guard is not None else []), reg_at(k, bs_))
            vv = value(k, bs_)
            if sub:
                vv = subst(vv, [(z3.substitute(x, *list(zip(bs, bs_)), (i, k)), z3.substitute(y, *list(zip(bs, bs_)), (i, k))) for x, y in sub])
            return rg, vv

        def reg_at(k, bs_):
            return region(k, bs_)
        # keep bounds that do not involve i for enclosing loops
        bounds = self.common_bounds(paths, i)
        w = W(bounds, lambda bs_: fin(bs_)[0], lambda bs_: fin(bs_)[1])
        w.hints = self.hints(paths, i)
        b.write(f, w)

    def region_at(self, w, args, i, kq):
        cs = tuple(self.c.index('z') for _ in args)
        r = z3.substitute(w.region(cs), (i, kq))
        return z3.substitute(r, *list(zip(cs, args)))

    def accumulation(self, b, f, v, reg, reads, dname, bs, i, K, old):
        c = self.c
        if len(reads) != 1 or reads[0].decl().name() != dname:
            return False
        a = reads[0]
        if not all(x.eq(y) for x, y in zip(a.children()[1:], bs)):
            return False
        if not v.finite:
            return False
        g = normal(t_sub(toreal(v.t), toreal(a)))
        if names_in(g, {dname}):
            return False

        def val(bs_):
            pr = list(zip(bs, bs_))
            s = mk_sum([K], lambda cs: z3.substitute(z3.substitute(reg, *pr), (i, cs[0])),
                       lambda cs: SNum(z3.substitute(z3.substitute(g, *pr), (i, cs[0]))))
            return n_add(old(bs_), s)
        b.write(f, W({}, None, val))
        return True

    def hints(self, paths, i):
        out = []
        for pc, ws in paths:
            for w in ws:
                for d, (lo, hi) in w.bounds.items():
                    out.append((d, lo, hi))
                out.extend(getattr(w, 'hints', []))
        return out

    def common_bounds(self, paths, i):
        ws = [w for _, l in paths for w in l]
        out = {}
        first = ws[0]
        for d, (lo, hi) in first.bounds.items():
            if names_in_index(lo, i) or (hi is not None and names_in_index(hi, i)):
                continue
            if all(d in w.bounds and w.bounds[d][0].eq(lo) and ((w.bounds[d][1] is None) == (hi is None)) and
                   (hi is None or w.bounds[d][1].eq(hi)) for w in ws):
                out[d] = (lo, hi)
        return out

    def inverse(self, paths, bs, reg, i):
        c = self.c
        cands = []
        for d, lo, hi in self.hints(paths, i):
            if not names_in_index(lo, i):
                continue
            # lo = alpha*i + beta
            p = to_poly(lo)
            pi = {m: co for m, co in p.d.items() if any(j == i.get_id() for j, _ in m)}
            if any(dict(m).get(i.get_id()) != 1 for m in pi):
                continue
            alpha = from_poly(Poly({tuple((j, e) for j, e in m if j != i.get_id()): co for m, co in pi.items()}, p.atoms), True)
            beta = from_poly(Poly({m: co for m, co in p.d.items() if m not in pi}, p.atoms), True)
            if alpha is None or beta is None:
                continue
            if isnumeral(alpha) and numval(alpha) == 1:
                cands.append(lambda b_, d=d, beta=beta: normal(t_sub(b_[d], beta)))
            elif isnumeral(alpha) and numval(alpha) == -1:
                cands.append(lambda b_, d=d, beta=beta: normal(t_sub(beta, b_[d])))
            else:
                cands.append(lambda b_, d=d, beta=beta, alpha=alpha: t_idiv(normal(t_sub(b_[d], beta)), alpha))
        # the pair i // n, i % n
        hs = [(d, lo) for d, lo, hi in self.hints(paths, i) if hi is None and z3.is_app(lo) and lo.num_args() == 2 and lo.arg(0).eq(i)]
        for d, lo in hs:
            if lo.decl().name() == 'idiv':
                for d2, lo2 in hs:
                    if d2 != d and lo2.decl().name() == 'imod' and lo2.arg(1).eq(lo.arg(1)):
                        cands.insert(0, lambda b_, d=d, d2=d2, n=lo.arg(1): t_add(t_mul(b_[d], n), b_[d2]))
                        break
                break
        weak = {}
        for pc, ws in paths:
            for w in ws:
                t = W(w.bounds, None, None).region(bs)
                weak[t.get_id()] = t
        weak = Or(*weak.values())
        for inv in cands:
            k = inv(bs)
            if c.valid(Implies(weak, k == i), 2000) or c.valid(Implies(reg, k == i), 4000):
                return inv
        return None

    # -------------------------------------------------------------- state after the loop
    def set_env(self, pre, closed, nexts, K, i):
        sc = self.sc
        for n in self.names:
            if n in pre:
                if n in closed:
                    cf = closed[n]
                    sc.vars[n] = Lazy(lambda cf=cf: cf(K))
                else:
                    vals = [o.env.get(n) for o in nexts]
                    if vals and all(isinstance(v, CarriedOpaque) for v in vals) or not vals:
                        sc.vars[n] = pre[n]
                    else:
                        sc.vars[n] = CarriedOpaque(n)
            else:
                vals = [(o.pc, o.env[n]) for o in nexts if n in o.env]
                if not vals or len(vals) < len(nexts):
                    if vals:
                        sc.vars[n] = CarriedOpaque(n)
                    continue

                def last(vals=vals, n=n):
                    if not self.c.decide(K > IV(0)):
                        raise_py(UnboundLocalError, 'variable %s of an empty loop' % n)
                    v = self.merged([(pc, v.thunk() if isinstance(v, Lazy) else v) for pc, v in vals])
                    return subst(v, [(i, t_sub(K, IV(1)))])
                sc.vars[n] = Lazy(last)

    def set_cursor(self, g, v):
        old = g.cursor

        def undo():
            g.cursor = old
        for _ in range(1):
            self.c.log(undo, ('cursorset', g, v))
        g.cursor = v

    def infinite(self, nexts, closed, i, carb):
        """An unbounded loop whose only effect is yielding one value per iteration."""
        c = self.c
        gens = set()
        for o in nexts:
            for r in o.recs:
                if r[0] == 'app':
                    gens.add(r[1])
                elif r[0] == 'w' or r[0] == 'attr':
                    raise Unsupported('unbounded loop with effects')
        if len(gens) != 1:
            raise Unsupported('unbounded loop')
        lst = gens.pop()
        N = c.skolem('inf', 'Int', [], lambda a: [a >= IV(0)])
        self.combine_appends(lst, nexts, N, i)
        lst.infinite = True


class StopLoop(Exception):
    """The test of a while loop is false."""


def simp(v):
    return SNum(normal(v.t), v.np, v.nan, v.pinf, v.ninf) if isinstance(v, SNum) else v


def with_np(v, isnp):
    return SNum(v.t, isnp, v.nan, v.pinf, v.ninf)


def names_in_index(t, i):
    return i.get_id() in consts_of(t)


def names_in_index_v(v, i):
    return any(names_in_index(t, i) for t in terms_of(v))


class At:
    """The state before an iteration, for an invariant given by the contract."""

    def __init__(self, env, i, N, elem, ps, k):
        self.env, self.i, self.N, self.elem, self.ps, self.k = env, i, N, elem, ps, k
        self.view = None        # the elements as the contract describes them (after an obligation that they are)

    def ghost(self, name, *args, sort='Int'):
        """A ghost function of the loop (and of the enclosing iterations)."""
        rs = {'Real': z3.RealSort(), 'Int': z3.IntSort(), 'Bool': z3.BoolSort()}[sort]
        return z3.Function('%s!%d' % (name, self.k), *([z3.IntSort()] * (len(self.ps) + len(args)) + [rs]))(*self.ps, *args)


def with_invariant(I, n, sc, N, run, elem, spec):
    """A loop with an invariant given by the contract: it holds at the start, an iteration keeps it, it is known after."""
    v, kinds, inv = spec
    c = I.ctx
    pre = dict(sc.vars)
    k = next(c.counter)
    i = c.index('L')
    names = assigned_names(n.body) + [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
    ps = [] if c.cut else list(c.loop_ix)
    view = []

    def entries(at):
        L = At({x: sc.vars[x] for x in kinds}, at, N, elem, ps, k)
        out = inv(L)
        if L.view is not None:
            view[:] = [L.view]
        for _, f in out:
            if getattr(f, 'given', False):
                if hasattr(f.f, 'app'):
                    f.f.register(c, TRUE)
                else:
                    c.assume(bt(f.f))
        return [(x, f) for x, f in out if not getattr(f, 'given', False)]

    def check(when, at):
        old, v.quant = v.quant, []
        for name, f in entries(at):
            v.ensures('loop invariant %s: %s' % (when, name), f.body if hasattr(f, 'app') else f)
        v.quant = old

    def symbol(kd, x, at, sort):
        return z3.Function('%s!%s!%d' % (kd, x, k), *([z3.IntSort()] * (len(ps) + 1) + [sort]))(*ps, at)

    def havoc(at):
        for x in names:
            if x not in kinds:
                sc.vars.pop(x, None)
        for x, kd in kinds.items():
            if kd == 'optint':
                if c.decide(symbol('none', x, at, z3.BoolSort()), False):
                    sc.vars[x] = None
                    continue
            if kd == 'bool':
                sc.vars[x] = SBool(symbol('inv', x, at, z3.BoolSort()))
            else:
                sc.vars[x] = SNum(symbol('inv', x, at, z3.IntSort()))
        for _, f in entries(at):
            if hasattr(f, 'app'):
                f.register(c)
            else:
                c.assume(bt(f))
    check('at the start', IV(0))

    def once():
        sc.vars = dict(pre)
        havoc(i)
        mark = c.mark()
        try:
            run(i, view[0] if view else elem)
        except _Continue:
            pass
        except (_Break, _Return, IExc):
            raise Unsupported('exit from a loop with an invariant')
        for _, r in c.journal[mark:]:
            if r is not None:
                raise Unsupported('effects of a loop with an invariant')
        check('kept', normal(t_add(i, IV(1))))
    c.loop_ix.append(i)
    npc = len(c.pc)
    c.pc.append(And(i >= IV(0), i < N))
    try:
        c.explore(lambda: c.scoped(once))
    finally:
        del c.pc[npc:]
        c.loop_ix.pop()
        sc.vars = dict(pre)
    if c.decide(N > IV(0)):
        havoc(N)


def for_loop(I, n, sc, axis, fn, infinite=False):
    names = [x for x in assigned_names(n.body)]
    for spec in I.loop_invs:
        if set(spec[1]) <= set(names) and all(x in sc.vars for x in spec[1]) and not infinite and not n.orelse:
            if len(axis.sizes) == 1 and axis.mask is not None:
                coords = lambda i: axis.coords(i)
            else:
                coords = lambda i: axis.coords(i) if len(axis.sizes) > 1 else (i,)

            def body(i, el):
                I.assign(n.target, el(i), sc)
                I.exec_block(n.body, sc)
            with_invariant(I, n, sc, axis.length(), body, lambda j: fn(coords(j)), spec)
            return
    targets = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
    allnames = targets + [x for x in names if x not in targets]
    c = I.ctx
    if len(axis.sizes) == 1:
        N = axis.sizes[0]
        guard = (lambda i: axis.mask((i,))) if axis.mask is not None else None
        coords = lambda i: (i,)
        if axis.mask is not None and any(isinstance(x, (ast.Break, ast.Return)) for s in n.body for x in ast.walk(s)):
            pass
    elif axis.mask is None and axis.order == 'lex':
        N = axis.length()
        guard = None
        coords = lambda i: axis.coords(i)
    else:
        raise Unsupported('loop over an index set of several coordinates')
    if infinite:
        N = None

    def run(i):
        I.assign(n.target, fn(coords(i)), sc)
        I.exec_block(n.body, sc)
    L = Loop(I, sc, N, run, allnames, guard, n.body)
    if guard is not None:
        L.masked = True
    r = L.execute()
    if r == 'done':
        I.exec_block(n.orelse, sc)


def while_loop(I, n, sc):
    names = assigned_names(n.body)

    def run(i):
        if not I.truth(I.eval(n.test, sc)):
            raise StopLoop()
        I.exec_block(n.body, sc)
    L = Loop(I, sc, None, run, names, None, n.body)
    r = L.execute()
    if r == 'infinite':
        raise _Return(None)
    if r == 'done':
        I.exec_block(n.orelse, sc)


def comp_loop(I, sc, axis, fn, one, targets):
    if len(axis.sizes) == 1:
        N = axis.sizes[0]
        guard = (lambda i: axis.mask((i,))) if axis.mask is not None else None

        def run(i):
            one(fn((i,)))
        Loop(I, sc, N, run, targets, guard).execute()
        return
    raise Unsupported('comprehension over an index set of several coordinates')
