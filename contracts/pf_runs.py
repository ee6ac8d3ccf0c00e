"""C16: the longest connected stretch of droplet cells of each height, across the periodic boundary."""
import inspect
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, num, ForAll, Given
from pv.arrays import *
from pv.interp import IList, IGen
from .pf_grid import eq, flow_of, getattr_
from .pf_search import DI
from pv import npmodel as N


@contract('C16', DI + '.get_interface', 'longest stretch of each height')
def c16(v):
    cut, r = v.real('cutoff'), v.real('radius')
    n, nx, ny = v.size('n', 1), v.size('nx', 1), v.size('ny', 1)
    dx, dy = v.real('dx'), v.real('dy')
    v.require(r >= 0, dx > 0, dy > 0)
    ax = v.axis(n)
    cols = {l: v.arr(l, ax) for l in ('X', 'Y', 'M')}
    flow = flow_of(v, list(cols.items()), {'shape': (num(nx), num(ny)), 'spacing': (dx, dy)})
    x, y = (lambda k, l=l: cols[l].at((k,)).t for l in 'XY')
    box = numt(dx * num(nx))
    # distinct positions within one period
    a, b = v.c.index('a'), v.c.index('b')
    v.c.forall(x(a), [a], (b,), lambda t: Implies(And(t[0] != a, a >= 0, a < n, t[0] >= 0, t[0] < n),
                                                  And(Or(x(t[0]) != x(a), y(t[0]) != y(a)), x(t[0]) < x(a) + box)), TRUE, match='own')
    D = z3.Function('D', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())
    v.c.inputs.add('D')
    st = {}

    def cell(I, args, kw):
        b = inspect.signature(v.fn(DI, '_cell_is_droplet')).bind(*args, **kw).arguments
        sysm, k = b['system'], numt(b['cell'])
        v.ensures('searched in the cells around the layer', sysm is st['data'])
        v.ensures('cutoff passed on', eq(b['cutoff'], cut))
        v.ensures('radius passed on', eq(b['radius'], r))
        v.ensures('field passed on', b['label'] == 'M')
        return SBool(D(*[numt(sysm.fieldview(l).at(sysm.axes[0].coords(k))) for l in 'XYM']))
    v.contract_of(v.fn(DI, '_cell_is_droplet'), cell)

    def inv(L):
        e = L.env
        F = lambda j: L.ghost('F', j, sort='Bool')
        R = lambda j: L.ghost('R', j)
        st['F'], st['R'], st['env'] = F, R, e
        G, m = st['G'], st['m']
        i, N = L.i, L.N
        none = lambda x: e[x] is None
        no = TRUE if none('ibegin') else FALSE
        b, k = v.c.index('b'), v.c.index('k')
        out = [('', Given(R(IV(0)) == 0)),
               ('', Given(ForAll(F(b), [b], Implies(And(b >= 0, b < m), F(b) == G(b))))),
               ('', Given(ForAll(F(b), [b], Implies(And(b >= m, b < 2 * m), F(b) == G(b - m))))),
               ('', Given(Implies(And(i >= 0, i < N), R(i + 1) == Ite(F(i), R(i) + 1, IV(0))))),
               ('', Given(Implies(And(i > 0, i <= N), R(i) == Ite(F(i - 1), R(i - 1) + 1, IV(0))))),
               ('length of the current stretch', And(R(i) >= 0, R(i) <= i, numt(e['len_current']) == R(i), no == (R(i) == 0))),
               ('the stretch before each cell', ForAll(R(b), [b], Implies(And(0 <= b, b <= i), And(R(b) >= 0, R(b) <= b, Or(b == R(b), Not(F(b - R(b) - 1))))))),
               ('cells of these stretches', ForAll(R(b), [b], Implies(And(0 <= b, b <= i, b - R(b) <= k, k < b), F(k)), (k,))),
               ('longest stretch so far', ForAll(R(b), [b], Implies(And(0 <= b, b < i, Not(F(b))), R(b) <= numt(e['len_best']))))]
        if not none('ibegin'):
            out.append(('start of the current stretch', numt(e['ibegin']) == i - R(i)))
        if none('index_best'):
            out.append(('no stretch yet', numt(e['len_best']) == 0))
            out.append(('filled cells before the first stretch ends', ForAll(F(b), [b], Implies(And(0 <= b, b < i, F(b)), b >= i - R(i)))))
        else:
            end = numt(e['index_best']) + numt(e['len_best'])
            out.append(('best stretch', And(numt(e['len_best']) > 0, numt(e['index_best']) >= 0, end < i, R(end) == numt(e['len_best']), Not(F(end)))))
        if isnumeral(i):
            # F is the layer and its copy
            within = And(b >= 0, b < m)
            first = bt(L.elem(b)[1])
            copy = bt(L.elem(b + m)[1])
            i1, i2 = t_imod(b, m), t_imod(b + m, m)
            v.ensures('position in the layer', i1 == b, within)
            v.ensures('position in its copy', i2 == b, within)
            at = z3.substitute(first, (i1, b))
            if not z3.substitute(copy, (i2, b)).eq(at):
                raise Unsupported('another copy of the layer')
            v.ensures('doubled layer', at == st['cell'](b), within)
            L.view = lambda i: (SNum(i), SBool(F(i)))
            v.ensures('length of the doubled layer', N == 2 * m)
        return out
    v.loop_invariant({'index_best': 'optint', 'len_best': 'int', 'ibegin': 'optint', 'len_current': 'int'}, inv)

    def edges(I, run, args):
        layer, data = args
        key = tuple(f.get_id() for f in v.c.pc)
        known = key in st.setdefault('verified', {})
        if not known:
            verify(I, run, layer, data)
            st['verified'][key] = list(v.c.pc)
        lx, ps = layer.axes[0], list(v.c.loop_ix)
        m = lx.length()
        f = lambda nm, sort: z3.Function(nm, *([z3.IntSort()] * len(ps) + [sort]))(*ps)
        st['ps'], st['row'] = ps, lambda l, j: numt(layer.fieldview(l).at(lx.coords(j)))
        if v.c.decide(f('noedges', z3.BoolSort()), False):
            return None
        out = [f('edge1', z3.IntSort()), f('edge2', z3.IntSort())]
        for t in out:
            ForAll(t, ps, And(t >= 0, t < m)).register(v.c)
        return tuple(SNum(t) for t in out)

    def verify(I, run, layer, data):
        lx = layer.axes[0]
        ps = list(v.c.loop_ix)
        row = lambda l, j: numt(layer.fieldview(l).at(lx.coords(j)))
        m = st['m'] = lx.length()
        Gf = z3.Function('G', *([z3.IntSort()] * (len(ps) + 1) + [z3.BoolSort()]))
        G = st['G'] = lambda j: Gf(*ps, j)
        st['data'] = data
        # the layer: all cells of one height, from left to right
        a, j = v.c.index('a'), v.c.index('j')
        v.ensures('layer from left to right', row('X', j) < row('X', j + 1), And(j >= 0, j + 1 < m))
        v.ensures('cells of one height', row('Y', j) == row('Y', IV(0)), And(j >= 0, j < m))
        v.ensures('as many cells as the height has', eq(num(m), v.sum([n], lambda k: n_ite(y(k) == row('Y', IV(0)), num(1), num(0)))))
        # the cells around it, with the periodic images
        rx, ry, rr = row('X', j), row('Y', j), numt(r)
        u, w = z3.Real('u'), z3.Real('w')
        v.ensures('near in each direction', And(u <= rr, -u <= rr), u * u + w * w <= rr * rr)
        shifts = {'own': RV(0), 'right': box, 'left': -box}
        for leaf, member, at in v.parts(data.axes[0]):
            if leaf.m != 1:
                raise Unsupported('another region of cells')
            inside = And(a >= 0, a < leaf.sizes[0], member((a,)))
            val = {l: v.under(inside, lambda: data.fieldview(l).at(at((a,)))) for l in 'XYM'}
            name = [k for k, d in shifts.items() if v.c.same(val['X'], x(a) + d)]
            if not name:
                raise Unsupported('another region of cells')
            X, Y = x(a) + shifts.pop(name[0]), y(a)
            name = '%s cells' % name[0] if name[0] == 'own' else 'images to the %s' % name[0]
            v.ensures('region around the layer: the %s' % name, And(a < n, val['Y'] == Y, val['M'] == numt(cols['M'].at((a,)))), inside)
            near = And(X - rx <= rr, rx - X <= rr, Y - ry <= rr, ry - Y <= rr)
            v.ensures('region around the layer: all %s in the radius' % name, v.under(And(a >= 0, a < n, near), lambda: member((a,))), And(j >= 0, j < m, a >= 0, a < n, near))
        v.ensures('region around the layer: cells and images on both sides', not shifts)
        st['cell'] = lambda j: D(*[row(l, j) for l in 'XYM'])

        def check(res):
            b = v.c.index('b')
            F, R = st['F'], st['R']
            if res is None:
                v.ensures('no stretch only without droplet cells', Not(G(b)), And(b >= 0, b < m))
                return
            e1, e2 = (numt(t) for t in I.items_of(res))
            w = t_imod(e2 - e1, m) + 1
            e = st['env']
            st['k'], st['s'], st['l'] = v.c.index('k'), v.c.index('s'), v.c.index('l')
            v.mention(R(st['s'] + st['l']))
            if e['index_best'] is None:
                c2 = R(2 * m)
                v.mention(F(2 * m - 1), F(m - 1))
                v.lemma('more than the layer', c2 > m)
                v.mention(F(3 * m - c2 - 1), F(2 * m - c2 - 1))
                v.lemma('all of the doubled layer', c2 == 2 * m)
                v.lemma('first cell to last cell', And(e1 == 0, e2 == m - 1))
                v.lemma('as many cells as the layer has', w == m)
            else:
                I1, L = numt(e['index_best']), numt(e['len_best'])
                v.lemma('shorter than the layer', L < m)
                v.mention(R(I1 + L), F(I1 - 1), F(m + L), F(m - 1), F(m + L - R(m + L) - 1), F(L - R(m + L) - 1), F(I1 + st['k']))
                i1 = t_imod(I1, m)
                for E1, c1 in ((I1, I1 < m), (I1 - m, I1 >= m)):
                    for E2, c2 in ((E1 + L - 1, E1 + L - 1 < m), (E1 + L - 1 - m, E1 + L - 1 >= m)):
                        v.ensures('first edge', e1 == E1, c1, c2)
                        v.ensures('second edge', z3.substitute(e2, (i1, E1)) == E2, c1, c2)
                        v.ensures('length', t_imod(E2 - E1, m) + 1 == L, c1, c2)
                        goals(E1, E2, L, c1, c2)
                return
            goals(e1, e2, w)

        def goals(e1, e2, w, *given):
            G, m = st['G'], st['m']
            k = st['k']
            cyc = lambda j: Ite(j < m, G(j), G(j - m))
            v.ensures('edges are cells of the layer', And(e1 >= 0, e1 < m, e2 >= 0, e2 < m), *given)
            v.ensures('all cells from edge to edge', cyc(e1 + k), And(k >= 0, k < w), *given)
            v.ensures('not the cell right of it', Not(cyc(e1 + w)), w < m, *given)
            v.ensures('not the cell left of it', Not(cyc(Ite(e1 == 0, m, e1) - 1)), w < m, *given)
            # any other stretch s, ..., s + l - 1
            F, R, s, l = st['F'], st['R'], st['s'], st['l']
            t = s + l - R(s + l) - 1
            v.ensures('no longer stretch', l <= w, And(s >= 0, s < m, l >= 1, l < m), Not(F(s + l)), Implies(And(t >= s, t < s + l), F(t)), *given)
        v.cases(run, check)

    v.local_contract('find_interface_edges_in_layer', edges)
    g = v.val(v.fn(DI, 'get_interface'), flow, 'M', cutoff=cut, cutoff_radius=r, search_longest_connected=True)
    out = g.force()
    ax = out.seq.axis
    e = v.index(ax)
    el = v.I.items_of(out.seq.fn((e,)))
    for side, t in zip(('left', 'right'), el):
        k = numt(t)
        edge = z3.Function('edge1' if side == 'left' else 'edge2', z3.IntSort(), z3.IntSort())(st['ps'][0])
        for l in 'XYM':
            want = z3.substitute(st['row'](l, edge), (st['ps'][0], e))
            v.ensures('record index of the %s edge' % side, And(k >= 0, k < n, cols[l].at((k,)).t == want))
    e2 = v.index(ax)
    low = lambda i: z3.substitute(st['row']('Y', IV(0)), (st['ps'][0], i))
    v.ensures('heights from bottom to top', low(e) < low(e2), e < e2)
    v.reset()
    q = v.c.index('q')
    rank = [d for d in v.c.uf_facts if d.startswith('uniqrank!')]
    if len(rank) != 1:
        raise Unsupported('heights of another form')
    rank = z3.Function(rank[0], z3.IntSort(), z3.IntSort())(q)
    v.ensures('every height is searched', ax.guard((rank,)), And(q >= 0, q < n), Not(z3.Function('noedges', z3.IntSort(), z3.BoolSort())(rank)))
    v.ensures('layer of each height', low(rank) == y(q), And(q >= 0, q < n))
