"""Abstract interpreter for Python source (ast), over the abstract numpy of npm.py.

The analysed sources are parsed, never imported.  Functions and classes of the analysed package become IFunc
objects and synthetic classes whose method bodies are syntax trees evaluated here.
"""
import ast
import builtins
import functools
import operator
import types
import sys
from . import dims as D
from .dims import AnalysisSignal, Unsupported, Dim, ORACLE
from . import npm

sys.setrecursionlimit(20000)


class Anchor(AnalysisSignal):
    """A public construct the property is anchored in does not exist any more."""


class _Return(AnalysisSignal):
    pass


class _Break(Exception):
    _src = True


class _Continue(Exception):
    _src = True


class IStop(Exception):
    """StopIteration of the analysed program (a real one cannot cross generator frames)."""
    _src = True

    def __init__(self, orig):
        Exception.__init__(self)
        self.orig = orig


MISSING = object()
_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
        ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
        ast.MatMult: operator.matmul, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
        ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
_IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
         ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow,
         ast.MatMult: operator.imatmul, ast.BitAnd: operator.iand, ast.BitOr: operator.ior,
         ast.BitXor: operator.ixor, ast.LShift: operator.ilshift, ast.RShift: operator.irshift}
_CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
        ast.Gt: operator.gt, ast.GtE: operator.ge}


class Trace(object):
    """Where the analysis is and what it has visited."""

    def __init__(self):
        self.stack = []
        self.steps = 0
        self.limit = 4000000
        self.functions = set()
        self.calls = 0
        self.branch_hook = None

    def reset(self):
        self.stack = []
        self.steps = 0

    def where(self):
        return ' <- '.join('%s:%s in %s' % (f, getattr(n, 'lineno', '?'), q)
                           for f, q, n in reversed(self.stack[-6:]))


TR = Trace()


class Frame(object):
    __slots__ = ('vars', 'locals', 'parent', 'mod', 'globs', 'func', 'node', 'nonloc', 'exc')

    def __init__(self, mod, parent=None, locals_=None, globs=(), nonloc=(), func=None):
        self.vars = {}
        self.locals = locals_
        self.parent = parent
        self.mod = mod
        self.globs = globs
        self.nonloc = nonloc
        self.func = func
        self.exc = None


class Scope(ast.NodeVisitor):
    """Local names of a function body."""

    def __init__(self):
        self.names = set()
        self.globs = set()
        self.nonloc = set()
        self.gen = False

    def bind(self, t):
        if isinstance(t, ast.Name):
            self.names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x)
        elif isinstance(t, ast.Starred):
            self.bind(t.value)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for x in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(x)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        for x in n.args.defaults:
            self.visit(x)

    def _comp(self, n):
        self.visit(n.generators[0].iter)
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                self.bind(sub.target)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Global(self, n):
        self.globs.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonloc.update(n.names)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    def visit_YieldFrom(self, n):
        self.gen = True
        self.generic_visit(n)


def scope_of(node, body):
    s = getattr(node, '_scope', None)
    if s is None:
        s = Scope()
        for b in body:
            s.visit(b)
        s.names -= s.globs | s.nonloc
        node._scope = s
    return s


class IFunc(object):
    """A function of the analysed program."""

    def __init__(self, interp, node, frame, name, qual, defaults, kwdefaults, doc=None):
        self.interp = interp
        self.node = node
        self.frame = frame
        self.__name__ = name
        self.__qualname__ = qual
        self.__module__ = frame.mod.__name__
        self.__doc__ = doc
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = None
        self.file = frame.mod.__dict__.get('__file__', '?')
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        body = [ast.Return(node.body)] if isinstance(node, ast.Lambda) else node.body
        if isinstance(node, ast.Lambda):
            if not hasattr(node, '_body'):
                ast.copy_location(body[0], node.body)
                node._body = body
            body = node._body
        self.body = body
        self.scope = scope_of(node, body)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __repr__(self):
        return '<ifunc %s>' % self.__qualname__

    def bind(self, args, kwargs):
        v = {}
        n = len(self.pos)
        name = self.__name__
        for p, x in zip(self.pos, args):
            v[p] = x
        if len(args) > n:
            if self.vararg is None:
                raise src(TypeError('%s() takes %d positional arguments but %d were given' % (name, n, len(args))))
            v[self.vararg] = tuple(args[n:])
        elif self.vararg:
            v[self.vararg] = ()
        extra = {}
        for k, x in kwargs.items():
            if k in self.pos or k in self.kwonly:
                if k in v:
                    raise src(TypeError('%s() got multiple values for argument %r' % (name, k)))
                v[k] = x
            elif self.kwarg is not None:
                extra[k] = x
            else:
                raise src(TypeError('%s() got an unexpected keyword argument %r' % (name, k)))
        if self.kwarg is not None:
            v[self.kwarg] = extra
        nd = len(self.defaults)
        for i, p in enumerate(self.pos):
            if p not in v:
                j = i - (n - nd)
                if j < 0:
                    raise src(TypeError('%s() missing required argument: %r' % (name, p)))
                v[p] = self.defaults[j]
        for p in self.kwonly:
            if p not in v:
                if p not in self.kwdefaults:
                    raise src(TypeError('%s() missing keyword-only argument: %r' % (name, p)))
                v[p] = self.kwdefaults[p]
        return v

    def __call__(self, *args, **kwargs):
        hook = HOOKS.get(self.__module__ + '.' + self.__qualname__) if HOOKS else None
        if hook is not None:
            r = hook(self, args, kwargs)
            if r is not MISSING:
                return r
        fr = Frame(self.frame.mod, self.frame, self.scope.names, self.scope.globs, self.scope.nonloc, self)
        fr.vars = self.bind(args, kwargs)
        TR.functions.add((self.file, self.__qualname__))
        TR.calls += 1
        gen = self.run(fr)
        if self.scope.gen:
            return gen
        try:
            while True:
                next(gen)
        except StopIteration as e:
            return e.value
        except IStop as e:
            stop = e.orig
        raise stop

    def run(self, fr):
        if self.scope.gen:
            return self._rungen(fr)
        return self._runplain(fr)

    def _runplain(self, fr):
        TR.stack.append([self.file, self.__qualname__, self.node])
        if len(TR.stack) > 400:
            raise Unsupported('call depth')
        try:
            r = yield from self.interp.block(self.body, fr)
            return r[0] if r is not None else None
        except BaseException as e:
            if not hasattr(e, '_where'):
                e._where = TR.where()
            raise
        finally:
            TR.stack.pop()

    def _rungen(self, fr):
        # generator: the frame is on the stack only while running
        g = self.interp.block(self.body, fr)
        send = None
        while True:
            TR.stack.append([self.file, self.__qualname__, self.node])
            try:
                y = g.send(send)
            except IStop:
                raise src(RuntimeError('generator raised StopIteration'))
            except StopIteration as e:
                r = e.value
                return r[0] if r is not None else None
            except BaseException as e:
                if not hasattr(e, '_where'):
                    e._where = TR.where()
                raise
            finally:
                TR.stack.pop()
            send = yield y


HOOKS = {}


def src(e):
    e._src = True
    return e


def truth(x):
    return bool(x)


class Mod(object):
    """Module object (analysed or modelled)."""

    def __init__(self, name, ns=None, fallback=None):
        self.__dict__['__name__'] = name
        self.__dict__.update(ns or {})
        self.__dict__['_fb'] = fallback

    def __getattr__(self, k):
        fb = self.__dict__.get('_fb')
        if fb is not None:
            return fb(k)
        raise src(AttributeError("module %r has no attribute %r" % (self.__dict__['__name__'], k)))

    def __repr__(self):
        return '<module %s>' % self.__name__


class Interp(object):
    def __init__(self, sources, models, builtins_):
        """sources: name -> (path, tree); models: name -> Mod; builtins_: dict."""
        self.sources = sources
        self.models = models
        self.modules = {}
        self.builtins = builtins_

    # -- modules --
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.sources:
            path, tree, ispkg = self.sources[name]
            m = Mod(name, {'__file__': path, '__doc__': None})
            self.modules[name] = m
            if '.' in name:
                parent = self.load(name.rsplit('.', 1)[0])
            m.__dict__['__package__'] = name if ispkg else name.rpartition('.')[0]
            fr = Frame(m)
            fr.vars = m.__dict__
            TR.stack.append([path, '<module>', tree])
            try:
                for _ in self.block(tree.body, fr):
                    pass
            except AnalysisSignal:
                self.modules.pop(name, None)
                raise
            finally:
                TR.stack.pop()
            if '.' in name:
                parent.__dict__[name.rsplit('.', 1)[1]] = m
            return m
        if name in self.models:
            return self.models[name]
        raise Unsupported('import of module %s' % name)

    def resolve_from(self, mod, level, name):
        if level == 0:
            return name
        pkg = mod.__dict__['__package__']
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        return pkg + ('.' + name if name else '')

    # -- statements: generators so that `yield` works; return value None or (result,) for return --
    def block(self, body, fr):
        for st in body:
            m = self._st.get(type(st))
            if m is None:
                raise Unsupported('statement %s' % type(st).__name__)
            if TR.stack:
                TR.stack[-1][2] = st
            TR.steps += 1
            if TR.steps > TR.limit:
                raise Unsupported('analysis budget exhausted')
            r = m(self, st, fr)
            if r is not None:          # compound statement: generator
                r = yield from r
                if r is not None:
                    return r
        return None

    def s_Expr(self, st, fr):
        v = st.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self.yield_(v, fr)
        if isinstance(v, ast.Constant):
            return None
        self.ev(v, fr)

    def yield_(self, v, fr, then=None):
        if isinstance(v, ast.YieldFrom):
            x = yield from self.iterate(self.ev(v.value, fr))
        else:
            x = yield (self.ev(v.value, fr) if v.value is not None else None)
        if then is not None:
            then(x)
        return None

    def s_Assign(self, st, fr):
        v = st.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            def then(x):
                for t in st.targets:
                    self.assign(t, x, fr)
            return self.yield_(v, fr, then)
        x = self.ev(v, fr)
        for t in st.targets:
            self.assign(t, x, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        op = _IBIN[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            r = self.native(op, (cur, self.ev(st.value, fr)))
            self.assign(t, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            r = self.native(op, (cur, self.ev(st.value, fr)))
            self.native(setattr, (o, t.attr, r))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev_index(t.slice, fr)
            cur = self.getitem(o, i)
            r = self.native(op, (cur, self.ev(st.value, fr)))
            self.setitem(o, i, r)
        else:
            raise Unsupported('augmented assignment')

    def s_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else None
        return self._ret(v)

    def _ret(self, v):
        return (v,)
        yield

    def s_If(self, st, fr):
        if truth(self.ev(st.test, fr)):
            return self.block(st.body, fr)
        if st.orelse:
            return self.block(st.orelse, fr)

    def s_For(self, st, fr):
        it = self.iterate(self.ev(st.iter, fr))
        broke = False
        for x in self.safe_iter(it):
            self.assign(st.target, x, fr)
            try:
                r = yield from self.block(st.body, fr)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
            if r is not None:
                return r
        if not broke and st.orelse:
            r = yield from self.block(st.orelse, fr)
            return r
        return None

    def s_While(self, st, fr):
        n = 0
        while truth(self.ev(st.test, fr)):
            n += 1
            if n > 5000:
                raise Unsupported('unbounded while loop')
            try:
                r = yield from self.block(st.body, fr)
            except _Break:
                return None
            except _Continue:
                continue
            if r is not None:
                return r
        if st.orelse:
            r = yield from self.block(st.orelse, fr)
            return r
        return None

    def s_Break(self, st, fr):
        raise _Break()

    def s_Continue(self, st, fr):
        raise _Continue()

    def s_Pass(self, st, fr):
        return None

    def s_Assert(self, st, fr):
        if not truth(self.ev(st.test, fr)):
            msg = self.ev(st.msg, fr) if st.msg is not None else ''
            raise src(AssertionError(msg))

    def s_Raise(self, st, fr):
        if st.exc is None:
            f = fr
            while f is not None:
                if f.exc is not None:
                    raise f.exc
                f = f.parent
            raise src(RuntimeError('No active exception to reraise'))
        e = self.ev(st.exc, fr)
        if isinstance(e, type):
            e = e()
        if not isinstance(e, BaseException):
            raise src(TypeError('exceptions must derive from BaseException'))
        if isinstance(e, StopIteration):
            raise IStop(e)
        raise src(e)

    def s_Try(self, st, fr):
        res = None
        try:
            try:
                res = yield from self.block(st.body, fr)
            except (AnalysisSignal, _Break, _Continue, GeneratorExit):
                raise
            except BaseException as e:
                h = None
                for hd in st.handlers:
                    if hd.type is None:
                        h = hd
                        break
                    tp = self.ev(hd.type, fr)
                    if isinstance(e.orig if isinstance(e, IStop) else e, tp):
                        h = hd
                        break
                if h is None:
                    raise
                old = fr.exc
                fr.exc = e
                if h.name:
                    fr.vars[h.name] = e
                try:
                    res = yield from self.block(h.body, fr)
                finally:
                    fr.exc = old
                    if h.name:
                        fr.vars.pop(h.name, None)
            else:
                if res is None and st.orelse:
                    res = yield from self.block(st.orelse, fr)
        except AnalysisSignal:
            raise
        except BaseException:
            if st.finalbody:
                r2 = yield from self.block(st.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if st.finalbody:
            r2 = yield from self.block(st.finalbody, fr)
            if r2 is not None:
                return r2
        return res

    def s_With(self, st, fr):
        res = yield from self.with_(st.items, 0, st.body, fr)
        return res

    def with_(self, items, i, body, fr):
        if i == len(items):
            r = yield from self.block(body, fr)
            return r
        cm = self.ev(items[i].context_expr, fr)
        enter = self.getattr(cm, '__enter__')
        exit_ = self.getattr(cm, '__exit__')
        v = self.call(enter, (), {})
        if items[i].optional_vars is not None:
            self.assign(items[i].optional_vars, v, fr)
        try:
            r = yield from self.with_(items, i + 1, body, fr)
        except AnalysisSignal:
            raise
        except (_Break, _Continue):
            self.call(exit_, (None, None, None), {})
            raise
        except BaseException as e:
            if not self.call(exit_, (type(e), e, None), {}):
                raise
            return None
        self.call(exit_, (None, None, None), {})
        return r

    def s_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr, st.name)
        for d in reversed(st.decorator_list):
            f = self.call(self.ev(d, fr), (f,), {})
        self.setname(st.name, f, fr)

    def mkfunc(self, st, fr, name):
        a = st.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        # class bodies are not enclosing scopes of their methods
        outer = fr
        prefix = ''
        if getattr(fr, 'func', None) == 'class':
            prefix = fr.node + '.'
            outer = fr.parent
        elif isinstance(fr.func, IFunc):
            prefix = fr.func.__qualname__ + '.<locals>.'
        doc = ast.get_docstring(st) if isinstance(st, ast.FunctionDef) else None
        return IFunc(self, st, outer, name, prefix + name, defaults, kwd, doc)

    def s_ClassDef(self, st, fr):
        bases = tuple(self.ev(b, fr) for b in st.bases)
        meta = {k.arg: self.ev(k.value, fr) for k in st.keywords}
        cf = Frame(fr.mod, fr if fr.func != 'class' else fr.parent, None, (), (), 'class')
        cf.node = st.name
        cf.vars['__module__'] = fr.mod.__name__
        cf.vars['__qualname__'] = st.name
        d = ast.get_docstring(st)
        if d:
            cf.vars['__doc__'] = d
        for _ in self.block(st.body, cf):
            pass
        ns = dict(cf.vars)
        mc = meta.pop('metaclass', None)
        if not bases:
            bases = (object,)
        try:
            cls = types.new_class(st.name, bases, dict(meta, **({'metaclass': mc} if mc else {})),
                                  lambda n: n.update(ns))
        except AnalysisSignal:
            raise
        except Exception as e:
            raise Unsupported('class %s: %s' % (st.name, e))
        for v in ns.values():
            g = v
            if isinstance(g, (classmethod, staticmethod)):
                g = g.__func__
            if isinstance(g, property):
                for h in (g.fget, g.fset, g.fdel):
                    if isinstance(h, IFunc):
                        h.owner = cls
            if isinstance(g, IFunc):
                g.owner = cls
        for dd in reversed(st.decorator_list):
            cls = self.call(self.ev(dd, fr), (cls,), {})
        self.setname(st.name, cls, fr)

    def s_Import(self, st, fr):
        for a in st.names:
            m = self.load(a.name)
            if a.asname:
                # `import a.b as c` binds a.b
                self.setname(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.setname(top, self.load(top), fr)

    def s_ImportFrom(self, st, fr):
        if st.module == '__future__':
            return
        name = self.resolve_from(fr.mod, st.level, st.module or '')
        m = self.load(name)
        for a in st.names:
            if a.name == '*':
                d = m.__dict__
                names = d.get('__all__')
                if names is None:
                    names = [k for k in d if not k.startswith('_')]
                for k in names:
                    self.setname(k, getattr(m, k), fr)
                continue
            sub = name + '.' + a.name
            v = m.__dict__.get(a.name, MISSING)
            if v is MISSING and (sub in self.sources or sub in self.models):
                v = self.load(sub)
            if v is MISSING:
                try:
                    v = getattr(m, a.name)
                except AttributeError:
                    raise src(ImportError('cannot import name %r from %r' % (a.name, name)))
            self.setname(a.asname or a.name, v, fr)

    def s_Global(self, st, fr):
        return None
    s_Nonlocal = s_Global

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in fr.vars:
                    del fr.vars[t.id]
                else:
                    raise src(NameError(t.id))
            elif isinstance(t, ast.Subscript):
                self.native(operator.delitem, (self.ev(t.value, fr), self.ev_index(t.slice, fr)))
            elif isinstance(t, ast.Attribute):
                self.native(delattr, (self.ev(t.value, fr), t.attr))
            else:
                raise Unsupported('del')

    _st = {}

    # -- names --
    def setname(self, name, v, fr):
        if name in fr.globs:
            fr.mod.__dict__[name] = v
        elif name in fr.nonloc:
            f = fr.parent
            while f is not None:
                if f.locals is not None and name in f.locals or name in f.vars:
                    f.vars[name] = v
                    return
                f = f.parent
            raise Unsupported('nonlocal %s' % name)
        else:
            fr.vars[name] = v

    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.vars:
                if not (name in f.globs):
                    return f.vars[name]
            elif f.locals is not None and name in f.locals and name not in f.globs:
                if first:
                    raise src(UnboundLocalError("local variable %r referenced before assignment" % name))
                raise src(NameError("free variable %r referenced before assignment" % name))
            if name in f.globs:
                break
            f = f.parent
            first = False
        g = fr.mod.__dict__
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        if name == '__builtins__':
            raise Unsupported('__builtins__')
        if hasattr(builtins, name):
            raise Unsupported('builtin %s' % name)
        raise src(NameError('name %r is not defined' % name))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = list(self.safe_iter(self.iterate(v)))
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            n = len(t.elts)
            if stars:
                i = stars[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    raise src(ValueError('not enough values to unpack'))
                for x, y in zip(t.elts[:i], vals[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, vals[i:len(vals) - after], fr)
                for x, y in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(x, y, fr)
                return
            if len(vals) != n:
                raise src(ValueError('too many values to unpack (expected %d)' % n if len(vals) > n else
                                     'not enough values to unpack (expected %d, got %d)' % (n, len(vals))))
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.native(setattr, (self.ev(t.value, fr), t.attr, v))
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported('assignment target')

    # -- expressions --
    def ev(self, e, fr):
        m = self._ex.get(type(e))
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(self, e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, fr)
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.safe_iter(self.iterate(self.ev(x.value, fr))))
                else:
                    out.append(self.ev_index(x, fr))
            return tuple(out)
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return slice(self.ev(s.lower, fr) if s.lower is not None else None,
                     self.ev(s.upper, fr) if s.upper is not None else None,
                     self.ev(s.step, fr) if s.step is not None else None)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.safe_iter(self.iterate(self.ev(x.value, fr))))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                d[kk] = self.ev(v, fr)
        return d

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(_BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        return self.native(op, (a, b))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, npm.AbsBool):
                return ~v
            return not truth(v)
        if isinstance(e.op, ast.USub):
            return self.native(operator.neg, (v,))
        if isinstance(e.op, ast.UAdd):
            return self.native(operator.pos, (v,))
        return self.native(operator.invert, (v,))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = truth(v)
            if isand and not t:
                return v if not isinstance(v, npm.AbsBool) else False
            if not isand and t:
                return v if not isinstance(v, npm.AbsBool) else True
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(right, fr)
            res = self.compare(op, left, r)
            if i < len(e.ops) - 1:
                if not truth(res):
                    return res if not isinstance(res, npm.AbsBool) else False
            left = r
        return res

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, ast.In):
            return self.native(operator.contains, (b, a))
        if isinstance(op, ast.NotIn):
            return not self.native(operator.contains, (b, a))
        return self.native(_CMP[type(op)], (a, b))

    def e_IfExp(self, e, fr):
        return self.ev(e.body if truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.func == 'comp':
            f = f.parent
        self.setname(e.target.id, v, f)
        return v

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, fr)
                if v.conversion == 114:
                    x = repr(x)
                elif v.conversion == 115:
                    x = str(x)
                sp = self.ev(v.format_spec, fr) if v.format_spec is not None else ''
                try:
                    out.append(format(x, sp))
                except AnalysisSignal:
                    raise
                except Exception:
                    out.append(repr(x))
        return ''.join(out)

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.safe_iter(self.iterate(self.ev(x.value, fr))))
            else:
                args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                for kk in d:
                    if kk in kw:
                        raise src(TypeError('got multiple values for keyword argument %r' % kk))
                    kw[kk] = d[kk]
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if f is self.builtins.get('super') and not args:
            g = fr
            while not isinstance(g.func, IFunc) or g.func.owner is None:
                g = g.parent
                if g is None:
                    raise Unsupported('super()')
            return super(g.func.owner, g.vars[g.func.pos[0]])
        if f is self.builtins.get('locals') or f is self.builtins.get('globals'):
            return dict(fr.vars)
        if TR.stack:
            TR.stack[-1][2] = e
        return self.call(f, args, kw)

    def comp(self, e, fr, elt):
        """Generator over comprehension elements."""
        cf = Frame(fr.mod, fr, None, (), (), 'comp')
        gens = e.generators
        first = self.iterate(self.ev(gens[0].iter, fr))

        def rec(i, itr):
            g = gens[i]
            for x in self.safe_iter(itr):
                self.assign(g.target, x, cf)
                ok = True
                for c in g.ifs:
                    if not truth(self.ev(c, cf)):
                        ok = False
                        break
                if not ok:
                    continue
                if i + 1 < len(gens):
                    yield from rec(i + 1, self.iterate(self.ev(gens[i + 1].iter, cf)))
                else:
                    yield elt(cf)
        return rec(0, first)

    def e_ListComp(self, e, fr):
        return list(self.comp(e, fr, lambda cf: self.ev(e.elt, cf)))

    def e_SetComp(self, e, fr):
        return set(self.comp(e, fr, lambda cf: self.ev(e.elt, cf)))

    def e_DictComp(self, e, fr):
        return dict(self.comp(e, fr, lambda cf: (self.ev(e.key, cf), self.ev(e.value, cf))))

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr, lambda cf: self.ev(e.elt, cf))

    def e_Yield(self, e, fr):
        raise Unsupported('yield inside an expression')
    e_YieldFrom = e_Yield

    _ex = {}

    # -- primitive operations --
    def native(self, f, args, kw=None):
        try:
            return f(*args, **(kw or {}))
        except AnalysisSignal:
            raise
        except StopIteration as ex:
            raise IStop(ex)
        except GeneratorExit:
            raise
        except BaseException as ex:
            raise self.classify(ex, f, args, kw)

    def classify(self, ex, f, args, kw):
        """Is ex an exception of the analysed program or a limitation of the engine?"""
        if getattr(ex, '_src', False) or getattr(ex, '_model', False):
            return ex
        if isinstance(ex, (KeyboardInterrupt, SystemExit, MemoryError, RecursionError)):
            return Unsupported('%s in %r' % (type(ex).__name__, f))
        tb = ex.__traceback__
        inside = False
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.endswith(('mpsa/npm.py', 'mpsa/tn.py', 'mpsa/dims.py')):
                inside = True
            elif fn.endswith('mpsa/interp.py') or fn.endswith('mpsa/models.py'):
                pass
            tb = tb.tb_next
        abstract = any(npm.is_abs(x) for x in args) or any(npm.is_abs(x) for x in (kw or {}).values())
        if inside or (abstract and isinstance(ex, (TypeError, AttributeError, ValueError, OverflowError))
                      and not isinstance(ex, npm.real.exceptions.AxisError if hasattr(npm.real, 'exceptions')
                                         else ())):
            if not inside and isinstance(ex, TypeError) and 'unsupported operand' in str(ex) and \
                    not any(isinstance(x, npm.Arr) for x in args) and any(
                        x is None or isinstance(x, (str, list, tuple, dict)) for x in args):
                return src(ex)
            return Unsupported('engine: %s: %s [%r]' % (type(ex).__name__, ex, f))
        return src(ex)

    def getattr(self, o, name):
        if isinstance(o, npm.real.ndarray) and name in _ND_METHODS:
            return RealMethod(o, name)
        if isinstance(o, (npm.Arr, npm.Sca, types.FunctionType, functools.partial)) and not hasattr_(o, name):
            # attribute that the models lack: a limitation of the engine unless numpy lacks it as well
            if isinstance(o, npm.Arr) and not hasattr(npm.real.ndarray, name) \
                    and name not in ('itemset', 'newbyteorder', 'ptp', 'tostring'):
                raise src(AttributeError("'numpy.ndarray' object has no attribute %r" % name))
            if isinstance(o, npm.Sca) and not hasattr(npm.real.complex128, name):
                raise src(AttributeError("'numpy.complex128' object has no attribute %r" % name))
            raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
        return self.native(getattr, (o, name))

    def getitem(self, o, i):
        if isinstance(o, (list, tuple)):
            if isinstance(i, npm.real.integer):
                i = int(i)
            elif isinstance(i, Dim):
                raise Unsupported('list index of symbolic value')
        elif isinstance(o, npm.real.ndarray) and npm.is_abs(i):
            return npm.getitem(npm.arr_of(o), i)
        return self.native(operator.getitem, (o, i))

    def setitem(self, o, i, v):
        if isinstance(o, npm.real.ndarray) and (npm.has_arr(v) or npm.is_abs(i)) and o.dtype != object:
            raise Unsupported('abstract value stored in a concrete array')
        self.native(operator.setitem, (o, i, v))

    def call(self, f, args, kw):
        return self.native(f, args, kw)

    def iterate(self, x):
        if isinstance(x, Dim):
            raise src(TypeError("'int' object is not iterable"))
        if isinstance(x, npm.Sca):
            raise src(TypeError("'numpy.float64' object is not iterable"))
        return self.native(iter, (x,))

    def safe_iter(self, it):
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            except AnalysisSignal:
                raise
            except BaseException as ex:
                raise self.classify(ex, it, (), None)
            yield x


def hasattr_(o, name):
    try:
        getattr(o, name)
    except AttributeError:
        return False
    except BaseException:
        return True
    return True


class RealMethod(object):
    """Method of a concrete array that may receive abstract arguments."""

    def __init__(self, o, name):
        self.o = o
        self.name = name

    def __call__(self, *a, **k):
        if npm.is_abs(list(a) + list(k.values())) or (self.o.dtype == object and npm.has_arr(list(self.o.flat))):
            return getattr(npm.arr_of(self.o), self.name)(*a, **k)
        return getattr(self.o, self.name)(*a, **k)


_ND_METHODS = {'dot', 'reshape', 'transpose', 'sum', 'prod', 'take', 'repeat', 'trace', 'round', 'searchsorted'}

for _k in dir(Interp):
    if _k.startswith('s_') and hasattr(ast, _k[2:]):
        Interp._st[getattr(ast, _k[2:])] = getattr(Interp, _k)
    elif _k.startswith('e_') and hasattr(ast, _k[2:]):
        Interp._ex[getattr(ast, _k[2:])] = getattr(Interp, _k)
