"""Deductive contracts: file discovery, bundling and numbering (C04, C05), backups (C06)."""
import inspect
import re
import os
import numpy as np
import z3
from pv.core import *
from pv.prove import contract, num
from pv.arrays import *
from pv.prove import eqv as eq
from pv import npmodel as N
from pv.interp import IGen

U = 'strata.utils'


def files(v, base, ext):
    """A ghost directory: file number k of the base exists iff E(k)."""
    E = v.fun('exists', 1, 'Bool')

    def access(I, args, kw):
        k = number_of(args[0], base, ext)
        if k is None:
            return SBool(v.c.skolem('other', 'Bool'))
        return SBool(E(k))
    for f in (os.access, os.path.exists, os.path.isfile, os.path.lexists):
        v.contract_of(f, access)
    return E


def number_of(path, base, ext):
    """k when the path is base, %05d of k, extension."""
    if not isinstance(path, SStr):
        return None
    parts = list(path.parts)
    if len(parts) >= 2 and parts[0] == base.parts[0] and parts[1][0] == 'fmt' and parts[1][1] == '%05d' \
            and SStr(parts[2:]).parts == SStr([ext]).parts:
        return numt(parts[1][2])
    return None


def name(base, k, ext):
    return SStr([base, ('fmt', '%05d', num(k)), ext])


def items(r):
    """Length and elements of a list, tuple or generator."""
    if isinstance(r, IGen):
        r = r.force()
    if isinstance(r, (list, tuple)) or isinstance(r, IList) and r.seq is None:
        xs = list(r.items if isinstance(r, IList) else r)
        if len(xs) > 1:
            raise Unsupported('a concrete list of several items')
        return IV(len(xs)), (lambda i: xs[0])
    s = r.seq if isinstance(r, IList) else r
    return N.seq_len(r), lambda i: s.fn(s.axis.coords(i))


def discovery(v, base, ext, begin, end, kw):
    """begin, end: numbers (end None: unbounded), kw: the keyword arguments passed for them."""
    E = files(v, base, ext)
    past = (lambda k: k > end.t) if end is not None else (lambda k: FALSE)
    r = v.val(v.fn(U, 'find_datamap_files'), base, **kw)
    L, at = items(r)
    if v.decide(L > 0):
        i = v.index(SNum(L))
        v.ensures('every path is base, five-digit number and extension', eq(at(i), name(base, begin.t + i, ext)))
        v.ensures('every yielded file exists and is not past the end', And(E(begin.t + i), Not(past(begin.t + i))))
        v.reset()
    v.ensures('the run stops only at the end or a missing file', Or(past(begin.t + L), Not(E(begin.t + L))))
    if not v.I.ghost.get('warnings'):
        v.ensures('a warning is given when not even the first file exists', Or(E(begin.t), past(begin.t)))


def sequence_of_names(v):
    """The contract of gen_filenames in place of its body (proved below)."""
    f = v.fn(U, 'gen_filenames')

    def handler(I, args, kw):
        b = inspect.signature(f).bind(*args, **kw)
        b.apply_defaults()
        a = b.arguments
        k = dict(a['kwargs'])
        begin, ext, end = k.pop('begin', 1), k.pop('ext', '.dat'), a['end']
        if not is_num(begin) or not is_num(end):
            raise Unsupported('file numbers that are no numbers')
        begin = lift(begin)
        g = IGen(None)
        end = lift(end)
        g.infinite = end.pinf is not False and z3.is_true(z3.simplify(bt(end.pinf)))
        if g.infinite:
            n = v.c.skolem('inf', 'Int', [], lambda x: [x >= IV(0)])
        elif end.finite and end.isint and begin.isint:
            n = z3.If(end.t >= begin.t, end.t - begin.t + 1, IV(0))
        else:
            raise Unsupported('file numbers that are not integers')
        g.list = IList()
        g.list.seq = Seq(Axis((n,)), lambda cs: name(a['base'], n_add(begin, SNum(cs[0])), ext))
        return g
    v.contract_of(f, handler)


@contract('C04', U + '.gen_filenames', 'numbered file names up to an end')
def c04_gen(v):
    base, ext, begin, end = v.str('base'), v.str('ext'), v.int('begin'), v.int('end')
    L, at = items(v.val(v.fn(U, 'gen_filenames'), base, end=end, begin=begin, ext=ext))
    v.ensures('one name per number from begin to end', L == z3.If(end.t >= begin.t, end.t - begin.t + 1, 0))
    if v.decide(L > 0):
        i = v.index(SNum(L))
        v.ensures('base, five-digit number and extension', eq(at(i), name(base, begin.t + i, ext)))


@contract('C04', U + '.gen_filenames', 'numbered file names without an end')
def c04_geninf(v):
    base, ext, begin = v.str('base'), v.str('ext'), v.int('begin')
    g = v.val(v.fn(U, 'gen_filenames'), base, begin=begin, ext=ext)
    L, at = items(g)
    v.ensures('the names go on', g.infinite is True)
    i = v.index(SNum(L))
    v.ensures('base, five-digit number and extension', eq(at(i), name(base, begin.t + i, ext)))


@contract('C04', U + '.find_datamap_files', 'consecutive run of existing files up to an end')
def c04(v):
    base, ext, begin, end = v.str('base'), v.str('ext'), v.int('begin'), v.int('end')
    discovery(v, base, ext, begin, end, dict(begin=begin, end=end, ext=ext))


@contract('C04', U + '.find_datamap_files', 'consecutive run of existing files without an end')
def c04_inf(v):
    base, ext, begin = v.str('base'), v.str('ext'), v.int('begin')
    discovery(v, base, ext, begin, None, dict(begin=begin, ext=ext))


@contract('C04', U + '.find_datamap_files', 'default numbering and extension')
def c04_def(v):
    base = v.str('base')
    discovery(v, base, '.dat', num(1), None, {})


def incomplete(v, E, first, g, end, what):
    """There is no complete bundle first .. first + g - 1."""
    full = v.bool('next_complete').t
    v.c.uf_facts['exists'] = lambda k: [Implies(And(full, k >= first, k < first + g), E(k))]
    v.ensures(what, Not(full), Implies(full, first + g - 1 <= end.t) if end is not None else TRUE)


def bundles(v, rolling, bounded):
    base, ext = v.str('base'), v.str('ext')
    begin, g = v.int('begin'), v.int('group')
    kw = dict(begin=begin, ext=ext, group=g, rolling=rolling)
    end = v.int('end') if bounded else None
    if bounded:
        kw['end'] = end
    v.require(g.t >= 1)
    E = files(v, base, ext)
    sequence_of_names(v)
    r = v.val(v.fn(U, 'find_datamap_files'), base, **kw)
    L, at = items(r)
    step = IV(1) if rolling else g.t
    if v.decide(L > 0):
        b = v.index(SNum(L))
        n, one = items(at(b))
        v.ensures('every bundle holds group files', n == g.t)
        j = v.index(g)
        k = begin.t + b * step + j
        v.ensures('the files of a bundle are consecutive', eq(one(j), name(base, k, ext)))
        v.ensures('the files of a bundle exist and do not pass the end', And(E(k), k <= end.t) if bounded else E(k))
        v.reset()
    incomplete(v, E, begin.t + L * step, g.t, end, 'the bundles end only where no complete bundle is left')


for _r in (False, True):
    for _b in (True, False):
        def _c(v, r=_r, b=_b):
            bundles(v, r, b)
        contract('C05', U + '.find_datamap_files', '%s bundles%s' % ('rolling' if _r else 'disjoint', ' up to an end' if _b else ''))(_c)


def outputs(v, rolling, bounded, other):
    """find_datamap_files is replaced by its contract: some sequence of bundles, determined by its arguments."""
    base, ext, out = v.str('base'), v.str('ext'), v.str('output')
    begin, g = v.int('begin'), v.int('group')
    v.require(g.t >= 1)
    kw = dict(begin=begin, ext=ext, group=g, rolling=rolling)
    end = None
    if bounded:
        kw['end'] = end = v.int('end')
    oext = ext
    if other:
        kw['outext'] = oext = v.str('outext')
    sequence_of_names(v)
    L = v.size('bundles', 0)
    calls = []

    def handler(I, args, k):
        calls.append((args, dict(k)))
        r = IGen(None)
        r.infinite = False
        r.list = IList()
        r.list.seq = Seq(Axis((L,)), lambda bs: SStr((('fn', 'bundle', (SNum(bs[0]),)),)))
        return r
    v.contract_of(v.fn(U, 'find_datamap_files'), handler)
    n, at = items(v.val(v.fn(U, 'find_groups_to_singles'), base, out, **kw))
    if not calls:
        raise Unsupported('the bundles come from elsewhere')
    (args, k), = calls
    v.ensures('the bundles asked for are the requested ones', And(
        len(args) == 1, bt(eq(args[0], base)), bt(eq(k.get('begin', 1), begin)), bt(eq(k.get('ext', '.dat'), ext)),
        bt(eq(k.get('end', np.inf), end if bounded else np.inf)), bt(eq(k.get('group', 1), g)), bool(k.get('rolling', False)) == rolling))
    v.ensures('one output per bundle', n == L)
    if v.decide(n > 0):
        b = v.index(SNum(n))
        x, o = at(b)
        v.ensures('every bundle is yielded in its place', eq(x, SStr((('fn', 'bundle', (SNum(b),)),))))
        if rolling:
            v.ensures('outputs are numbered from the begin number', eq(o, name(out, begin.t + b, oext)))
        else:
            m = number_of(o, out, oext)
            if m is None:
                v.ensures('the output is base, number and extension', False)
                return
            q = toreal(m) - toreal(b)
            f = toreal(begin.t) / toreal(g.t)
            v.ensures('outputs are numbered from begin / group rounded up', And(q >= f, q < f + 1, TRUE if m.is_int() else z3.IsInt(q)))


for _r in (False, True):
    for _b in (True, False):
        for _o in (False, True):
            def _c(v, r=_r, b=_b, o=_o):
                outputs(v, r, b, o)
            contract('C05', U + '.find_groups_to_singles', 'outputs of %s bundles%s%s' % (
                'rolling' if _r else 'disjoint', ' up to an end' if _b else '', ', other extension' if _o else ''))(_c)


def singles(v, bounded, other):
    base, ext, out = v.str('base'), v.str('ext'), v.str('output')
    begin = v.int('begin')
    kw = dict(begin=begin, ext=ext)
    end = None
    if bounded:
        kw['end'] = end = v.int('end')
    oext = ext
    if other:
        kw['outext'] = oext = v.str('outext')
    E = files(v, base, ext)
    sequence_of_names(v)
    L, at = items(v.val(v.fn(U, 'find_singles_to_singles'), base, out, **kw))
    if v.decide(L > 0):
        i = v.index(SNum(L))
        a, b = at(i)
        v.ensures('inputs in order', eq(a, name(base, begin.t + i, ext)))
        v.ensures('outputs numbered as their inputs', eq(b, name(out, begin.t + i, oext)))
        v.ensures('inputs exist and do not pass the end', And(E(begin.t + i), begin.t + i <= end.t) if bounded else E(begin.t + i))
        v.reset()
    incomplete(v, E, begin.t + L, IV(1), end, 'the pairs end only where no input is left')


for _b in (True, False):
    for _o in (False, True):
        def _c(v, b=_b, o=_o):
            singles(v, b, o)
        contract('C05', U + '.find_singles_to_singles', 'one to one%s%s' % (' up to an end' if _b else '', ' with another extension' if _o else ''))(_c)


# ---------------------------------------------------------------- backups
class Disk:
    """A ghost directory tree.  Paths are dir/file with symbolic non-empty names without slashes; a path exists iff
    file_exists (the path written to), dir_exists (its directory) or backup(N) (dir/#file.N#)."""

    def __init__(self, v, indir):
        self.v = v
        self.dir, self.file = v.str('dir'), v.str('file')
        self.path = SStr([self.dir, '/', self.file]) if indir else self.file
        self.indir = indir
        self.taken = v.bool('file_exists').t
        self.hasdir = v.bool('dir_exists').t if indir else TRUE
        v.require(Implies(self.taken, self.hasdir))
        self.backup = v.fun('backup_exists', 1, 'Bool')
        self.other = v.fun('other_exists', 1, 'Bool')
        self.ops = []
        for s in (self.dir, self.file):
            v.require(Not(bt(eq(s, ''))))
        c = v.contract_of
        for f in (os.path.exists, os.path.lexists):
            c(f, lambda I, a, k: mkbool(self.exists(a[0])))
        c(os.path.isfile, lambda I, a, k: mkbool(self.exists(a[0])))
        c(os.access, lambda I, a, k: mkbool(self.exists(a[0])))
        c(os.path.isdir, lambda I, a, k: mkbool(self.exists(a[0])))
        c(os.path.split, lambda I, a, k: self.split(a[0]))
        c(os.path.dirname, lambda I, a, k: self.split(a[0])[0])
        c(os.path.basename, lambda I, a, k: self.split(a[0])[1])
        c(os.path.join, lambda I, a, k: self.join(*a))
        for name in ('rename', 'makedirs', 'replace', 'mkdir', 'remove', 'unlink', 'rmdir'):
            c(getattr(os, name), lambda I, a, k, name=name: self.op(name, a, k))

    def op(self, name, a, k):
        self.ops.append((name, tuple(a), dict(k)))
        self.v.c.log(self.ops.pop, ('ghost',))

    def split(self, p):
        if isinstance(p, SStr) and '/' not in [x for x in p.parts if isinstance(x, str)] and not any('/' in x for x in p.parts if isinstance(x, str)):
            return ('', p)
        if isinstance(p, SStr) and p.parts[:2] == (self.dir.parts[0], '/'):
            return (self.dir, SStr(p.parts[2:]))
        raise Unsupported('split of an unknown path')

    def join(self, *a):
        out = a[0]
        for x in a[1:]:
            if isinstance(out, SStr) and len(out.parts) == 1 and out.parts[0][0] == 'ite':
                _, cnd, p, q = out.parts[0]
                out = SStr((('ite', cnd, self.join(p, x), self.join(q, x)),))
            elif isinstance(out, str) and out == '':
                out = x
            else:
                out = SStr([out, '/', x])
        return out

    def resolve(self, p):
        """The case of a conditional path that holds on this execution path."""
        while isinstance(p, SStr) and len(p.parts) == 1 and p.parts[0][0] == 'ite':
            _, cnd, a, b = p.parts[0]
            p = a if self.v.c.decide(cnd) else b
        return p

    def backup_number(self, p):
        """N when p is the path of backup number N, else None."""
        p = self.resolve(p)
        parts = list(p.parts) if isinstance(p, SStr) else []
        pre = [[self.dir.parts[0], '/#']] if self.indir else [['#'], ['./#']]
        for q in pre:
            n = len(q)
            if parts[:n] == q and len(parts) == n + 2 and parts[n] == self.file.parts[0] and isinstance(parts[n + 1], str):
                m = re.fullmatch(r'\.(0|[1-9][0-9]*)#', parts[n + 1])
                if m:
                    return IV(int(m.group(1)))
            if parts[:n] == q and len(parts) == n + 4 and parts[n] == self.file.parts[0] and parts[n + 1] == '.' and parts[n + 3] == '#' \
                    and parts[n + 2][0] == 'fmt' and parts[n + 2][1] in ('%d', '%s', '%i', ':d', ':'):
                return numt(parts[n + 2][2])
        return None

    def exists(self, p):
        if isinstance(p, SStr) and len(p.parts) == 1 and not isinstance(p.parts[0], str) and p.parts[0][0] == 'ite':
            _, cnd, a, b = p.parts[0]
            return z3.If(cnd, self.exists(a), self.exists(b))
        if isinstance(p, str):
            return TRUE if p == '.' else self.v.c.skolem('exists', 'Bool')
        if p.parts == self.path.parts or not self.indir and p.parts == ('./',) + self.path.parts:
            return self.taken
        if p.parts == self.dir.parts:
            return self.hasdir
        n = self.backup_number(p)
        if n is not None:
            return self.backup(n)
        if len(p.parts) == 1 and p.parts[0][0] == 'fn' and p.parts[0][1] == 'car':
            return self.other(numt(p.parts[0][2][0]))
        return self.v.c.skolem('exists', 'Bool')


def stub(path, *args, **kwargs):
    pass


def prepared(v, indir, make):
    """make(): (the function called with a path, the function that it prepares the path for)"""
    d = Disk(v, indir)
    calls = []

    def write(I, a, k):
        calls.append((tuple(a), dict(k), len(d.ops)))
        v.c.log(calls.pop, None)
        return 'result'
    wrapper, inner = make()
    v.contract_of(inner, write)
    x = v.int('argument')
    r = v.val(wrapper, d.path, x, key=x)
    moves = [o for o in d.ops if o[0] in ('rename', 'replace')]
    made = [o for o in d.ops if o[0] in ('makedirs', 'mkdir')]
    v.ensures('no file is removed', len(moves) + len(made) == len(d.ops))
    v.ensures('the output is written once, after the path is prepared, with the same arguments',
              len(calls) == 1 and calls[0][2] == len(d.ops) and len(calls[0][0]) == 2 and calls[0][1] == {'key': x} and calls[0][0][1] is x
              and r == 'result')
    if len(calls) == 1:
        v.ensures('the output is written to the path', eq(calls[0][0][0], d.path))
    v.ensures('a free path moves no file, a taken path moves one', d.taken if len(moves) == 1 else Not(d.taken) if not moves else False)
    if len(moves) == 1:
        src, dst = moves[0][1][:2]
        v.ensures('the old file is moved', eq(src, d.path))
        n = d.backup_number(dst)
        v.ensures('to its backup name in the same directory', n is not None)
        if n is not None:
            v.ensures('under a positive number that is free', And(n >= 1, Not(d.backup(n))))
            k = v.c.index('k')
            v.ensures('the smallest such number', d.backup(k), k >= 1, k < n)
    v.ensures('a missing directory is created, an existing one is not', Not(d.hasdir) if len(made) == 1 else d.hasdir if not made else False)
    if len(made) == 1:
        v.ensures('the directory of the path and those above it', eq(made[0][1][0], d.dir) if made[0][0] == 'makedirs' else False)


def decorated(v):
    return v.val(v.fn(U, 'prepare_path'), stub), stub


@contract('C06', U + '.prepare_path', 'path in a directory')
def c06_dir(v):
    prepared(v, True, lambda: decorated(v))


@contract('C06', U + '.prepare_path', 'path in the current directory')
def c06_cwd(v):
    prepared(v, False, lambda: decorated(v))


WRITERS = (('strata.dataformats.simple.write', 'write_data'), ('strata.dataformats.gmx_flow_version_1.write', 'write_data'),
           ('strata.interface.sample', 'write_header'), ('strata.interface.collect', 'write_interface_data'),
           ('strata.interface.angle', 'write_angle_data'), ('strata.contact_line_analysis', 'write_header'),
           ('strata.sample_average', 'write_header'), ('strata.spreading.collect', 'write_header'),
           ('strata.spreading.fit', 'write_fitting_data'), ('strata.spreading.view', 'write_spreading_data'))


def writer(v, module, fname):
    """The function that writes is reached through a wrapper that prepares the path."""
    f = v.fn(module, fname)
    cells = [c.cell_contents for c in (getattr(f, '__closure__', None) or ()) if inspect.isfunction(c.cell_contents)]
    cells = [g for g in cells if g.__module__ == module]
    if len(cells) != 1:
        raise Unsupported('%s is no wrapper of one function of its module' % fname)
    return f, cells[0]


for _m, _n in WRITERS:
    def _c(v, m=_m, n=_n):
        prepared(v, True, lambda: writer(v, m, n))
    contract('C06', _m + '.' + _n, 'output of %s.%s' % (_m[7:], _n))(_c)
