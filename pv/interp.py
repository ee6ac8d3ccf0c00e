"""Symbolic execution of the real functions: their current source is parsed and interpreted."""
import ast
import builtins
import inspect
import types
import numpy as np
import z3
from .core import *
from . import core
from .arrays import *
from .arrays import W

REPO_PACKAGES = ('droplets', 'strata', 'pandas_model')     # interpreted
MODELS = {}           # id(callable) -> (callable, handler(interp, args, kwargs))
_SRC = {}             # filename -> (tree, {(lineno, name): node})


def model(*objs):
    def deco(h):
        for o in objs:
            MODELS[id(o)] = (o, h)
        return h
    return deco


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class CarriedOpaque:
    def __init__(self, name):
        self.name = name


class Lazy:
    def __init__(self, thunk):
        self.thunk = thunk


class Scope:
    def __init__(self, globs, parent=None, cells=None):
        self.vars = {}
        self.globs = globs
        self.parent = parent
        self.cells = cells or {}
        self.nonlocals = set()
        self.globals_ = set()
        self.gen = None

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                v = s.vars[name]
                if isinstance(v, Lazy):
                    v = v.thunk()
                    s.vars[name] = v
                if isinstance(v, CarriedOpaque):
                    raise Unsupported('loop-carried variable %s of unsupported type' % name)
                return v
            if name in s.cells:
                try:
                    return s.cells[name].cell_contents
                except ValueError:
                    raise IExc(NameError("free variable '%s' referenced before assignment" % name))
            s = s.parent
        if name in self.globs:
            return self.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise IExc(NameError("name '%s' is not defined" % name))

    def store(self, name, v):
        if name in self.globals_:
            raise Unsupported('assignment to a global variable')
        s = self
        if name in self.nonlocals:
            s = self.parent
            while s is not None and name not in s.vars:
                s = s.parent
            if s is None:
                raise Unsupported('nonlocal assignment to a native closure')
            old = s.vars[name]

            def undo(s=s):
                s.vars[name] = old
            cur().log(undo, ('nonlocal', s, name, v))
        s.vars[name] = v


class IFunc:
    def __init__(self, node, scope, defaults, kwdefaults, name, qual):
        self.node, self.scope, self.defaults, self.kwdefaults = node, scope, defaults, kwdefaults
        self.__name__ = name
        self.qual = qual


class Bound:
    _pv_bound = True

    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Meth:
    """A modelled method of a modelled value."""

    def __init__(self, name, obj, fn):
        self.name, self.obj, self.fn = name, obj, fn


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class IGen:
    """A generator: contents computed on first use."""
    _pv_iter = True

    def __init__(self, thunk):
        self.thunk = thunk
        self.list = None
        self.cursor = 0
        self.infinite = False
        self.after = None
        self.born = stamp()

    def force(self):
        if self.list is None:
            lst, self.infinite = self.thunk()
            self.list = lst

            def undo(s=self):
                s.list = None
            cur().log(undo, None)
        return self.list

    def snapshot(self):
        return self

    def vmap(self, f):
        g = IGen(None)
        g.list = vmap(self.force(), f)
        g.cursor = vmap(self.cursor, f) if isinstance(self.cursor, SNum) else self.cursor
        return g


class FrameInfo:
    pass


def node_index(filename):
    if filename not in _SRC:
        with open(filename) as fp:
            src = fp.read()
        tree = ast.parse(src, filename)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                name = getattr(n, 'name', '<lambda>')
                lines = {n.lineno}
                for d in getattr(n, 'decorator_list', []):
                    lines.add(d.lineno)
                for l in lines:
                    idx.setdefault((l, name), []).append(n)
        _SRC[filename] = (tree, idx)
    return _SRC[filename]


def node_of(fn):
    code = fn.__code__
    tree, idx = node_index(code.co_filename)
    c = idx.get((code.co_firstlineno, code.co_name), [])
    if len(c) == 1:
        return c[0]
    if len(c) > 1:
        for n in c:
            if isinstance(n, ast.Lambda) and [a.arg for a in n.args.args] == list(code.co_varnames[:code.co_argcount]):
                return n
    raise Unsupported('source of %s not found' % fn.__qualname__)


def has_yield(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(stmts):
    out = []

    def add(n):
        if n not in out:
            out.append(n)
    stack = list(stmts)
    while stack:
        n = stack.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                add((a.asname or a.name).split('.')[0])
        stack.extend(ast.iter_child_nodes(n))
    return out


def is_symbolic(v, depth=0):
    if isinstance(v, (SNum, SBool, SObj, NDArr, Seq, SStr, IGen)):
        return True
    if isinstance(v, IList):
        return v.seq is not None or any(is_symbolic(x, depth + 1) for x in v.items)
    if depth > 6:
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(is_symbolic(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(is_symbolic(x, depth + 1) for x in v.values())
    if isinstance(v, slice):
        return any(is_symbolic(x) for x in (v.start, v.stop, v.step))
    if isinstance(v, (IFunc, Bound, Meth, StarSeq)):
        return True
    return getattr(v, '_pv_iter', False) or getattr(v, '_pv_symbolic', False)


def to_native(v):
    if isinstance(v, IList):
        return [to_native(x) for x in v.items]
    if type(v) == tuple:
        return tuple(to_native(x) for x in v)
    if type(v) == dict:
        return {k: to_native(x) for k, x in v.items()}
    return v


def from_native(v):
    if type(v) == list:
        return IList([from_native(x) for x in v])
    if type(v) == tuple:
        return tuple(from_native(x) for x in v)
    return v


def straight(n):
    """An if statement made of plain assignments only."""
    ok = (ast.Assign, ast.AugAssign, ast.Pass)
    return all(isinstance(x, ok) or isinstance(x, ast.If) and straight(x) for x in n.body + n.orelse)


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.overrides = {}      # id(fn) -> handler: a callee's contract used instead of its body
        self.depth = 0
        self.loop_values = []     # values of loop variables given by the contract
        self.loop_invs = []       # invariants given by the contract
        self.local_contracts = {}  # name of an inner function -> handler(I, run, args)
        self.ghost = {}

    # ------------------------------------------------------------ calls
    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        self.ctx.check_time()
        if isinstance(fn, IFunc):
            return self.call_ifunc(fn, args, kwargs)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.obj] + args, kwargs)
        if isinstance(fn, Meth):
            return fn.fn(self, fn.obj, args, kwargs)
        ov = self.overrides.get(id(fn))
        if ov is not None:
            return ov[1](self, args, kwargs)
        h = MODELS.get(id(fn))
        if h is not None and h[0] is fn:
            return h[1](self, args, kwargs)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + args, kwargs)
        if isinstance(fn, types.FunctionType) and (fn.__module__ or '').split('.')[0] in REPO_PACKAGES:
            return self.call_real(fn, args, kwargs)
        if isinstance(fn, type):
            if fn.__module__.split('.')[0] in REPO_PACKAGES:
                return self.construct(fn, args, kwargs)
            if issubclass(fn, BaseException):
                try:
                    return fn(*[a if not is_symbolic(a) else '<symbolic>' for a in args])
                except Exception as e:
                    raise IExc(e)
        if hasattr(fn, '_pv_call'):
            return fn._pv_call(self, args, kwargs)
        if not any(is_symbolic(a) for a in args) and not any(is_symbolic(a) for a in kwargs.values()):
            return self.native(fn, args, kwargs)
        raise Unsupported('call of %s with symbolic arguments' % getattr(fn, '__qualname__', getattr(fn, '__name__', fn)))

    def native(self, fn, args, kwargs):
        if not callable(fn):
            raise IExc(TypeError('%r object is not callable' % type(fn).__name__))
        m = getattr(fn, '__module__', '') or ''
        if fn in (open, exec, eval) or m.split('.')[0] in ('os', 'posix', 'shutil', 'subprocess', 'pandas', 'matplotlib', 'sys'):
            if m not in ('posixpath',):
                raise Unsupported('call of %s' % getattr(fn, '__qualname__', fn))
        try:
            with np.errstate(all='ignore'):
                return from_native(fn(*[to_native(a) for a in args], **{k: to_native(v) for k, v in kwargs.items()}))
        except PVError:
            raise
        except Exception as e:
            raise IExc(e)

    def construct(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return cls(*[str(a) for a in args])
        if cls.__new__ is not object.__new__:
            if hasattr(cls, '_fields'):
                return cls(*args, **kwargs)
            raise Unsupported('construction of %s' % cls.__name__)
        o = object.__new__(cls)
        self.born(o)
        init = cls.__init__
        if isinstance(init, types.FunctionType):
            self.call_real(init, [o] + list(args), kwargs)
        return o

    def born(self, o):
        self.ghost.setdefault('born', {})[id(o)] = (o, stamp())

    def born_of(self, o):
        if hasattr(o, 'born') and isinstance(o, (Buf, IList, Seq, IGen)):
            return o.born
        b = self.ghost.get('born', {}).get(id(o))
        return b[1] if b else 0

    def call_real(self, fn, args, kwargs):
        node = node_of(fn)
        self.ctx.functions.add('%s.%s' % (fn.__module__, fn.__qualname__))
        cells = {}
        if fn.__closure__:
            cells = dict(zip(fn.__code__.co_freevars, fn.__closure__))
        scope = Scope(fn.__globals__, None, cells)
        return self.run_function(node, scope, fn.__defaults__ or (), fn.__kwdefaults__ or {}, args, kwargs, fn.__name__)

    def call_ifunc(self, f, args, kwargs):
        scope = Scope(f.scope.globs, f.scope)
        h = self.local_contracts.get(f.__name__)
        if h is not None and not kwargs:
            return h(self, lambda: self.run_function(f.node, Scope(f.scope.globs, f.scope), f.defaults, f.kwdefaults, args, kwargs, f.__name__), args)
        return self.run_function(f.node, scope, f.defaults, f.kwdefaults, args, kwargs, f.__name__)

    def run_function(self, node, scope, defaults, kwdefaults, args, kwargs, name):
        self.bind(node.args, scope, defaults, kwdefaults, args, kwargs, name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion too deep')
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, scope)
            if has_yield(node):
                return IGen(lambda: self.run_generator(node, scope))
            try:
                self.exec_block(node.body, scope)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def run_generator(self, node, scope):
        scope.gen = IList()
        scope.gen.infinite = False
        try:
            self.exec_block(node.body, scope)
        except _Return:
            pass
        return scope.gen, getattr(scope.gen, 'infinite', False)

    def bind(self, a, scope, defaults, kwdefaults, args, kwargs, name):
        v = scope.vars
        kwargs = dict(kwargs)
        pos = list(a.posonlyargs) + list(a.args)
        star = None
        if args and isinstance(args[-1], StarSeq):
            star = args[-1].seq
            args = args[:-1]
        if len(args) > len(pos):
            if a.vararg is None:
                raise IExc(TypeError('%s() takes %d positional arguments but %d were given' % (name, len(pos), len(args))))
        for p, x in zip(pos, args):
            v[p.arg] = x
        rest = list(args[len(pos):])
        if star is not None:
            if a.vararg is None or len(args) < len(pos):
                raise Unsupported('symbolic star argument')
            v[a.vararg.arg] = star if not rest else seq_concat(rest, star)
        elif a.vararg is not None:
            v[a.vararg.arg] = tuple(rest)
        nd = len(defaults)
        for k, p in enumerate(pos):
            if p.arg in kwargs:
                if k < len(args):
                    raise IExc(TypeError("%s() got multiple values for argument '%s'" % (name, p.arg)))
                v[p.arg] = kwargs.pop(p.arg)
            elif k >= len(args):
                j = k - (len(pos) - nd)
                if j < 0:
                    raise IExc(TypeError("%s() missing required argument '%s'" % (name, p.arg)))
                v[p.arg] = from_native_default(defaults[j])
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                v[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                v[p.arg] = from_native_default(kwdefaults[p.arg])
            else:
                raise IExc(TypeError("%s() missing keyword-only argument '%s'" % (name, p.arg)))
        if a.kwarg is not None:
            d = dict(kwargs)
            self.born(d)
            v[a.kwarg.arg] = d
        elif kwargs:
            raise IExc(TypeError("%s() got an unexpected keyword argument '%s'" % (name, list(kwargs)[0])))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, sc):
        for s in stmts:
            self.exec(s, sc)

    def exec(self, n, sc):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        try:
            return m(n, sc)
        except Unsupported as e:
            if not getattr(e, 'where', None):
                e.where = getattr(n, 'lineno', '?')
                e.args = ('%s (line %s)' % (e.args[0] if e.args else '', e.where),)
            raise

    def x_Expr(self, n, sc):
        if isinstance(n.value, ast.Constant):
            return
        self.eval(n.value, sc)

    def x_Pass(self, n, sc):
        pass

    def x_Break(self, n, sc):
        raise _Break()

    def x_Continue(self, n, sc):
        raise _Continue()

    def x_Return(self, n, sc):
        raise _Return(self.eval(n.value, sc) if n.value else None)

    def x_Global(self, n, sc):
        sc.globals_.update(n.names)

    def x_Nonlocal(self, n, sc):
        sc.nonlocals.update(n.names)

    def x_Import(self, n, sc):
        import importlib
        for a in n.names:
            m = self.import_(a.name)
            if a.asname:
                sc.store(a.asname, m)
            else:
                sc.store(a.name.split('.')[0], self.import_(a.name.split('.')[0]))

    def import_(self, name):
        import importlib
        try:
            return importlib.import_module(name)
        except ImportError as e:
            raise IExc(e)

    def x_ImportFrom(self, n, sc):
        if n.level:
            raise Unsupported('relative import')
        m = self.import_(n.module)
        for a in n.names:
            if not hasattr(m, a.name):
                sc.store(a.asname or a.name, self.import_(n.module + '.' + a.name))
            else:
                sc.store(a.asname or a.name, getattr(m, a.name))

    def x_Delete(self, n, sc):
        for t in n.targets:
            if isinstance(t, ast.Name):
                sc.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, n, sc):
        f = self.make_func(n, sc, n.name)
        for d in reversed(n.decorator_list):
            f = self.call(self.eval(d, sc), [f])
        sc.store(n.name, f)

    def make_func(self, n, sc, name):
        return IFunc(n, sc, [self.eval(d, sc) for d in n.args.defaults],
                     {p.arg: self.eval(d, sc) for p, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None},
                     name, name)

    def x_Assign(self, n, sc):
        v = self.eval(n.value, sc)
        for t in n.targets:
            self.assign(t, v, sc)

    def x_AnnAssign(self, n, sc):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, sc), sc)

    def x_AugAssign(self, n, sc):
        t = n.target
        v = None
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), sc)
            v = self.eval(n.value, sc)
            r = self.inplace(type(n.op), old, v)
            sc.store(t.id, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            k = self.eval(t.slice, sc)
            v = self.eval(n.value, sc)
            old = self.getitem(o, k)
            r = self.inplace(type(n.op), old, v)
            self.setitem(o, k, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, sc)
            v = self.eval(n.value, sc)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(type(n.op), old, v))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, old, v):
        from . import npmodel
        if isinstance(old, IList):
            if op is ast.Add:
                self.list_extend(old, v)
                return old
            if op is ast.Mult:
                r = self.binop(op, old, v)
                c = r
                old.set(c.items, c.seq)
                return old
        if isinstance(old, NDArr) and old.ndim > 0:
            return npmodel.inplace(self, op, old, v)
        if isinstance(old, np.ndarray) and is_symbolic(v):
            raise Unsupported('in-place update of a concrete array')
        if isinstance(old, (set, dict)) or isinstance(old, np.ndarray):
            raise Unsupported('in-place update')
        if type(old).__module__ == 'pandas_model':
            m = npmodel.special(self, old, npmodel.DUNDER[op].replace('__', '__i', 1))
            if m is not None:
                return m(v)
        return self.binop(op, old, v)

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            sc.store(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                items = self.items_of(v)
                k = next(j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                m = len(t.elts) - 1
                if len(items) < m:
                    raise IExc(ValueError('not enough values to unpack'))
                tail = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, sc)
                self.assign(t.elts[k].value, IList(items[k:len(items) - tail]), sc)
                for e, x in zip(t.elts[k + 1:], items[len(items) - tail:]):
                    self.assign(e, x, sc)
                return
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, sc)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, sc)
            self.setitem(o, self.eval(t.slice, sc), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, sc), t.attr, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, NDArr) and v.ndim >= 1:
            ln = v.axes[0].length()
            if not self.ctx.same(ln, IV(n)):
                if not self.ctx.decide(ln == IV(n)):
                    raise IExc(ValueError('wrong number of values to unpack'))
            return [self.getitem(v, k) for k in range(n)]
        if isinstance(v, (Seq, IGen)) or isinstance(v, IList) and v.seq is not None:
            it = self.iter_of(v)
            if it[0] == 'sym':
                ln = it[1].length()
                if not self.ctx.decide(ln == IV(n)):
                    raise IExc(ValueError('wrong number of values to unpack'))
                return [it[2](it[1].coords(IV(k))) for k in range(n)]
        items = self.items_of(v)
        if len(items) > n:
            raise IExc(ValueError('too many values to unpack (expected %d)' % n))
        if len(items) < n:
            raise IExc(ValueError('not enough values to unpack (expected %d, got %d)' % (n, len(items))))
        return items

    def items_of(self, v):
        it = self.iter_of(v)
        if it[0] == 'conc':
            return list(it[1])
        ln = it[1].length()
        if isnumeral(ln):
            return [it[2](it[1].coords(IV(k))) for k in range(numval(ln))]
        raise Unsupported('iteration over a symbolic sequence here')

    def iter_of(self, v):
        from . import npmodel
        return npmodel.iter_of(self, v)

    def x_If(self, n, sc):
        if self.ctx.loop_ix and straight(n) and self.merged_if(n, sc):
            return
        if self.truth(self.eval(n.test, sc)):
            self.exec_block(n.body, sc)
        else:
            self.exec_block(n.orelse, sc)

    def merged_if(self, n, sc):
        """A conditional of plain assignments inside a generic iteration: its branches are joined
        instead of forking the iteration.  False: not possible, nothing has been done."""
        from .loops import merge
        c = self.ctx
        names = assigned_names([n])
        saved = dict(sc.vars)
        if any(isinstance(saved.get(x), (Lazy, CarriedOpaque)) for x in names):
            return False

        def once():
            sc.vars = dict(saved)
            mark = c.mark()
            if self.truth(self.eval(n.test, sc)):
                self.exec_block(n.body, sc)
            else:
                self.exec_block(n.orelse, sc)
            env = {x: snapshot(sc.vars[x]) for x in names if x in sc.vars}
            return env, [r for _, r in c.journal[mark:] if r is not None]
        try:
            res = c.explore(once)
        except (IExc, Unsupported):
            return False
        finally:
            sc.vars = saved
        if len(res) < 2 or any(r[0] != 'w' for (_, rs), _, _ in res for r in rs):
            return False
        part = [x for x in names if len({x in e for (e, _), _, _ in res}) == 2]
        pcs = [And(*ps) for _, ps, _ in res]
        env = {}
        for x in res[0][0][0]:
            if x in part:
                continue
            if all(e[x] is res[0][0][0][x] for (e, _), _, _ in res):
                env[x] = res[0][0][0][x]
                continue
            try:
                v = res[-1][0][0][x]
                for ((e, _), _, _), pc in reversed(list(zip(res[:-1], pcs))):
                    v = merge(pc, e[x], v)
            except Unsupported:
                return False
            env[x] = v
        for x in part:
            env[x] = CarriedOpaque(x)
        c.assume(Or(*pcs))
        sc.vars.update(env)
        for ((_, rs), _, _), pc in zip(res, pcs):
            for _, b, f, w in rs:
                ex = w.extra
                g = W(w.bounds, (lambda bs, ex=ex, pc=pc: pc if ex is None else And(pc, ex(bs))), w.val)
                if hasattr(w, 'hints'):
                    g.hints = w.hints
                b.write(f, g)
        return True

    def x_Assert(self, n, sc):
        if not self.truth(self.eval(n.test, sc)):
            raise IExc(AssertionError())

    def x_Raise(self, n, sc):
        if n.exc is None:
            e = self.ghost.get('handling')
            raise IExc(e[-1] if e else RuntimeError('No active exception to reraise'))
        e = self.eval(n.exc, sc)
        if isinstance(e, type):
            e = e()
        if type(e) is NotImplementedError and sc.globs.get('__name__') == 'pandas_model':
            raise Unsupported('pandas: %s' % e)
        raise IExc(e)

    def x_With(self, n, sc):
        if len(n.items) != 1:
            raise Unsupported('with')
        it = n.items[0]
        cm = self.eval(it.context_expr, sc)
        if hasattr(cm, '_pv_enter'):
            v = cm._pv_enter(self)
        elif type(cm).__module__ in ('warnings', 'contextlib', 'numpy', 'numpy.core._ufunc_config'):
            v = None
        else:
            raise Unsupported('context manager %s' % type(cm).__name__)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc)
        try:
            self.exec_block(n.body, sc)
        finally:
            if hasattr(cm, '_pv_exit'):
                cm._pv_exit(self)

    def x_Try(self, n, sc):
        try:
            try:
                self.exec_block(n.body, sc)
            except IExc as e:
                self.handle(n, e, sc)
            else:
                self.exec_block(n.orelse, sc)
        finally:
            if n.finalbody:
                import sys
                if not isinstance(sys.exc_info()[1], PVError):
                    self.exec_block(n.finalbody, sc)

    def handle(self, n, e, sc):
        for h in n.handlers:
            if h.type is None:
                ok = True
            else:
                t = self.eval(h.type, sc)
                try:
                    ok = isinstance(e.exc, t)
                except TypeError:
                    raise Unsupported('exception type')
            if ok:
                if h.name:
                    sc.store(h.name, e.exc)
                st = self.ghost.setdefault('handling', [])
                st.append(e.exc)
                try:
                    self.exec_block(h.body, sc)
                finally:
                    st.pop()
                return
        raise e

    # -- loops
    def x_For(self, n, sc):
        from . import loops
        v = self.eval(n.iter, sc)
        it = self.iter_of(v)
        if it[0] == 'sym' and isnumeral(it[1].length()) and numval(it[1].length()) <= 8:
            it = ('conc', [it[2](it[1].coords(IV(k))) for k in range(numval(it[1].length()))])
        if it[0] == 'conc':
            for x in it[1]:
                self.assign(n.target, x, sc)
                try:
                    self.exec_block(n.body, sc)
                except _Break:
                    break
                except _Continue:
                    continue
            else:
                self.exec_block(n.orelse, sc)
            return
        loops.for_loop(self, n, sc, it[1], it[2], it[3] if len(it) > 3 else False)

    def x_While(self, n, sc):
        from . import loops
        names = assigned_names(n.body)
        count = 0
        while True:
            generic = any(name in sc.vars and isinstance(sc.vars[name], SNum) and not isnumeral(sc.vars[name].t) for name in names)
            t = None
            if not generic:
                t = self.tentative(n.test, sc)
                generic = not isinstance(t, bool)
            if generic or count > 200 or count == 0 and has_yield(n) and t:
                loops.while_loop(self, n, sc)
                return
            if not t:
                break
            count += 1
            try:
                self.exec_block(n.body, sc)
            except _Break:
                return
            except _Continue:
                pass
        self.exec_block(n.orelse, sc)

    def tentative(self, e, sc):
        """Truth value of e if it is concrete, else None."""
        v = self.eval(e, sc)
        if isinstance(v, SBool):
            return None
        if isinstance(v, SNum):
            return None
        return bool(self.truth(v))

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        c = self.ctx
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, SBool):
            return c.decide(v.t)
        if isinstance(v, SNum):
            return c.decide(n_cmp('!=', v, 0))
        if isinstance(v, IList):
            if v.seq is None:
                return bool(v.items)
            return c.decide(v.seq.axis.length() > IV(0))
        if isinstance(v, Seq):
            return c.decide(v.axis.length() > IV(0))
        if isinstance(v, NDArr):
            if v.ndim == 0:
                return self.truth(v.at(()))
            raise Unsupported('truth value of an array')
        if isinstance(v, SStr):
            if any(isinstance(p, str) for p in v.parts):
                return True
            raise Unsupported('truth value of a symbolic string')
        if isinstance(v, (IFunc, Bound, Meth, IGen)):
            return True
        try:
            return bool(v)
        except Exception as e:
            raise IExc(e)

    def eval(self, n, sc):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, sc)

    def e_Constant(self, n, sc):
        return n.value

    def e_Name(self, n, sc):
        return sc.lookup(n.id)

    def e_NamedExpr(self, n, sc):
        v = self.eval(n.value, sc)
        sc.store(n.target.id, v)
        return v

    def e_Tuple(self, n, sc):
        return tuple(self.elts(n.elts, sc))

    def e_List(self, n, sc):
        return IList(self.elts(n.elts, sc))

    def e_Set(self, n, sc):
        return set(self.elts(n.elts, sc))

    def elts(self, es, sc):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.items_of(self.eval(e.value, sc)))
            else:
                out.append(self.eval(e, sc))
        return out

    def e_Dict(self, n, sc):
        d = {}
        self.born(d)
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.eval(v, sc))
            else:
                d[self.eval(k, sc)] = self.eval(v, sc)
        return d

    def e_Lambda(self, n, sc):
        return self.make_func(n, sc, '<lambda>')

    def e_IfExp(self, n, sc):
        t = self.eval(n.test, sc)
        if isinstance(t, SBool) and pure(n.body) and pure(n.orelse):
            return merge(t.t, self.eval(n.body, sc), self.eval(n.orelse, sc))
        return self.eval(n.body if self.truth(t) else n.orelse, sc)

    def e_BoolOp(self, n, sc):
        last = None
        isand = isinstance(n.op, ast.And)
        acc = None
        for k, e in enumerate(n.values):
            if acc is not None and pure(e):
                try:
                    v = self.eval(e, sc)
                except IExc:
                    if self.truth(acc) != isand:
                        return not isand
                    acc = None
                    v = self.eval(e, sc)
                    last = v
                    continue
                if isinstance(v, (SBool, bool)):
                    acc = mkbool(And(bt(acc), bt(v)) if isand else Or(bt(acc), bt(v)))
                    if isinstance(acc, bool):
                        last = acc
                        if acc != isand:
                            return acc
                        acc = None
                    continue
                if self.truth(acc) != isand:
                    return not isand
                acc = None
            elif acc is not None:
                if self.truth(acc) != isand:
                    return not isand
                acc = None
                v = self.eval(e, sc)
            else:
                v = self.eval(e, sc)
            if isinstance(v, SBool):
                acc = v
                continue
            last = v
            if k < len(n.values) - 1 and self.truth(v) != isand:
                return v
        return acc if acc is not None else last

    def e_UnaryOp(self, n, sc):
        v = self.eval(n.operand, sc)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(Not(v.t))
            return not self.truth(v)
        from . import npmodel
        return npmodel.unary(self, type(n.op), v)

    def e_BinOp(self, n, sc):
        return self.binop(type(n.op), self.eval(n.left, sc), self.eval(n.right, sc))

    def binop(self, op, a, b):
        from . import npmodel
        return npmodel.binop(self, op, a, b)

    def e_Compare(self, n, sc):
        left = self.eval(n.left, sc)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, sc)
            v = self.compare(type(op), left, right)
            if acc is None:
                acc = v
            else:
                if isinstance(acc, (SBool, bool)) and isinstance(v, (SBool, bool)):
                    acc = mkbool(And(bt(acc), bt(v)))
                elif not self.truth(acc):
                    return acc
                else:
                    acc = v
            left = right
        return acc

    def compare(self, op, a, b):
        from . import npmodel
        return npmodel.compare(self, op, a, b)

    def e_Subscript(self, n, sc):
        return self.getitem(self.eval(n.value, sc), self.eval(n.slice, sc))

    def e_Slice(self, n, sc):
        return slice(*[self.eval(x, sc) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def getitem(self, o, k):
        from . import npmodel
        return npmodel.getitem(o, k, self)

    def setitem(self, o, k, v):
        from . import npmodel
        return npmodel.setitem(self, o, k, v)

    def e_Attribute(self, n, sc):
        return self.getattr(self.eval(n.value, sc), n.attr)

    def getattr(self, o, name):
        from . import npmodel
        if isinstance(o, (SNum, SBool, NDArr, Seq, IList, SStr, IGen, str, dict, set, frozenset)) or type(o) in (list, tuple) \
                or getattr(o, '_pv_iter', False):
            return npmodel.getattribute(self, o, name)
        if isinstance(o, IFunc):
            if name == '__name__':
                return o.__name__
            if name in o.__dict__:
                return o.__dict__[name]
            raise Unsupported('attribute %s of a function' % name)
        if hasattr(o, '_pv_getattr'):
            return o._pv_getattr(self, name)
        t = type(o)
        if not isinstance(o, (type, types.ModuleType, types.FunctionType)) and t.__module__.split('.')[0] in REPO_PACKAGES:
            d = inspect.getattr_static(t, name, None)
            if isinstance(d, property):
                return self.call_real(d.fget, [o], {})
            if name in getattr(o, '__dict__', {}):
                return o.__dict__[name]
            if isinstance(d, types.FunctionType):
                return Bound(d, o)
            if d is None:
                if hasattr(o, name):
                    return getattr(o, name)
                raise IExc(AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name)))
            return getattr(o, name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise IExc(e)

    def setattr(self, o, name, v):
        t = type(o)
        if isinstance(o, NDArr):
            from . import npmodel
            return npmodel.setattribute(self, o, name, v)
        d = inspect.getattr_static(t, name, None) if not isinstance(o, types.ModuleType) else None
        if isinstance(d, property):
            if d.fset is None:
                raise IExc(AttributeError("can't set attribute"))
            self.call_real(d.fset, [o, v], {})
            return
        from .arrays import DERIVED
        if not isinstance(o, (type, types.ModuleType)) and type(o).__module__.split('.')[0] in REPO_PACKAGES and o in DERIVED:
            raise Unsupported('attribute of an object that is an element of a list')
        dd = o.__dict__
        had, old = name in dd, dd.get(name)

        def undo():
            if had:
                dset(o, name, old)
            else:
                ddel(o, name)
        self.ctx.log(undo, ('attr', o, name, v))
        dset(o, name, v)

    def e_JoinedStr(self, n, sc):
        from . import npmodel
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, sc)
                spec = self.eval(v.format_spec, sc) if v.format_spec else ''
                conv = {-1: '', 115: '!s', 114: '!r', 97: '!a'}[v.conversion]
                parts.append(npmodel.format_value(self, x, spec, conv))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SStr(parts)

    def e_FormattedValue(self, n, sc):
        raise Unsupported('formatted value')

    def e_Call(self, n, sc):
        fn = self.eval(n.func, sc)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, sc)
                it = self.iter_of(v)
                if it[0] == 'conc':
                    args.extend(it[1])
                elif isnumeral(it[1].length()):
                    args.extend(self.items_of(v))
                else:
                    if a is not n.args[-1]:
                        raise Unsupported('symbolic star argument')
                    args.append(StarSeq(Seq(it[1], it[2])))
            else:
                args.append(self.eval(a, sc))
        kw = {}
        for k in n.keywords:
            v = self.eval(k.value, sc)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported('** of a non-dict')
                for kk, vv in v.items():
                    if kk in kw:
                        raise IExc(TypeError("got multiple values for keyword argument '%s'" % kk))
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise IExc(TypeError("got multiple values for keyword argument '%s'" % k.arg))
                kw[k.arg] = v
        return self.call(fn, args, kw)

    # -- yields
    def e_Yield(self, n, sc):
        v = self.eval(n.value, sc) if n.value else None
        sc2 = self.genscope(sc)
        sc2.gen.append(v)
        return None

    def genscope(self, sc):
        while sc.gen is None:
            sc = sc.parent
            if sc is None:
                raise Unsupported('yield outside a generator')
        return sc

    def e_YieldFrom(self, n, sc):
        v = self.eval(n.value, sc)
        g = self.genscope(sc).gen
        it = self.iter_of(v)
        if len(it) > 3 and it[3]:
            g.infinite = True
        self.list_extend(g, v, it)
        return None

    def list_extend(self, lst, v, it=None):
        it = it or self.iter_of(v)
        if it[0] == 'conc':
            for x in it[1]:
                lst.append(x)
            return
        old = lst.seq if lst.seq is not None else list(lst.items)
        r = seq_concat(old, Seq(it[1], it[2]))
        oi, os_ = lst.items, lst.seq

        def undo():
            lst.items, lst.seq = oi, os_
        self.ctx.log(undo, ('ext', lst, Seq(it[1], it[2])))
        lst.items, lst.seq = [], r

    # -- comprehensions
    def e_ListComp(self, n, sc):
        return self.comp(n, sc, lambda s: self.eval(n.elt, s))

    def e_GeneratorExp(self, n, sc):
        return self.comp(n, sc, lambda s: self.eval(n.elt, s))

    def e_SetComp(self, n, sc):
        return set(self.items_of(self.comp(n, sc, lambda s: self.eval(n.elt, s))))

    def e_DictComp(self, n, sc):
        l = self.comp(n, sc, lambda s: (self.eval(n.key, s), self.eval(n.value, s)))
        d = dict(self.items_of(l))
        self.born(d)
        return d

    def comp(self, n, sc, elt):
        inner = Scope(sc.globs, sc)
        inner.nonlocals = set()
        out = IList()
        self.comp_gen(n.generators, 0, inner, elt, out)
        return out

    def comp_gen(self, gens, k, sc, elt, out):
        if k == len(gens):
            out.append(elt(sc))
            return
        g = gens[k]
        it = self.iter_of(self.eval(g.iter, sc))
        if it[0] == 'sym' and isnumeral(it[1].length()) and numval(it[1].length()) <= 8:
            it = ('conc', [it[2](it[1].coords(IV(j))) for j in range(numval(it[1].length()))])

        def one(x):
            self.assign(g.target, x, sc)
            for c in g.ifs:
                if not self.truth(self.eval(c, sc)):
                    return
            self.comp_gen(gens, k + 1, sc, elt, out)
        if it[0] == 'conc':
            for x in it[1]:
                one(x)
            return
        from . import loops
        loops.comp_loop(self, sc, it[1], it[2], one, [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)])


def dset(o, name, v):
    if isinstance(o, type) or isinstance(o, types.ModuleType) or isinstance(o, types.FunctionType):
        setattr(o, name, v)
    else:
        o.__dict__[name] = v


def ddel(o, name):
    if isinstance(o, (types.FunctionType, types.ModuleType)):
        delattr(o, name)
    else:
        o.__dict__.pop(name, None)


def from_native_default(v):
    return v


def pure(n):
    """Expressions that cannot raise or have effects (names, constants, comparisons, arithmetic on them)."""
    for x in ast.walk(n):
        if not isinstance(x, (ast.Name, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Load, ast.cmpop, ast.boolop,
                              ast.unaryop, ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.Attribute)):
            return False
        if isinstance(x, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in x.ops):
            return False
    return True
