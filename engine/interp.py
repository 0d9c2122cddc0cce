"""Symbolic interpreter for the real Python functions under /repo."""
import ast
import builtins
import enum
import functools
import inspect
import types
import operator
import z3

from .core import Ctx, Signal, PathKill, Unsupported, EngineError
from .values import *
from . import values as V

REPO = '/repo/'


class ReturnSig(Signal):
    def __init__(self, value):
        self.value = value


class BreakSig(Signal):
    pass


class ContinueSig(Signal):
    pass


class Seg(Sym):
    """Marker element of a native list/tuple standing for a whole symbolic sequence."""

    def __init__(self, seq):
        self.seq = seq


class OverlayKey:
    def __repr__(self):
        return '<overlay>'


OVERLAY = OverlayKey()   # key of the SDict that replaces the contents of a native dict
NOTHANDLED = object()


def has_seg(v):
    for x in v:
        if type(x) is Seg:
            return True
    return False


class FuncVal:
    """Function or lambda defined inside interpreted code."""

    def __init__(self, node, frame, defaults, kw_defaults, name):
        self.node, self.frame, self.defaults, self.kw_defaults = node, frame, defaults, kw_defaults
        self.__name__ = name


class BoundMethod:
    def __init__(self, func, obj):
        self.func, self.obj = func, obj


class SymMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class GenVal:
    """Generator expression, evaluated lazily by its consumer."""

    def __init__(self, node, frame, first):
        self.node, self.frame, self.first = node, frame, first


class ModelFn:
    """Specification-level stand-in for an external function: fn(interp, args, kwargs)."""

    def __init__(self, fn, name='model'):
        self.fn, self.__name__ = fn, name


class Frame:
    def __init__(self, func, globs, name, localnames=None, parent=None, classcell=None):
        self.func = func
        self.globals = globs
        self.name = name
        self.locals = {}
        self.localnames = localnames
        self.parent = parent          # enclosing Frame (closures of FuncVal)
        self.closure = {}
        self.global_decl = set()
        self.nonlocal_decl = set()
        self.classcell = classcell
        self.exc = []
        self.node = None
        self.ghost = {}
        from .values import CTX
        if CTX[0] is not None:
            CTX[0].journal.record('alloc', self, None, _nothing)

    def all_names(self):
        return self.locals


def _nothing():
    pass


def mark(e):
    try:
        e.__pyvc__ = True
    except Exception:
        pass
    return e


def marked(e):
    return getattr(e, '__pyvc__', False)


_SRC = {}


def file_index(filename):
    if filename not in _SRC:
        with open(filename, encoding='utf-8') as f:
            tree = ast.parse(f.read(), filename)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                line = n.lineno
                if getattr(n, 'decorator_list', None):
                    line = min(d.lineno for d in n.decorator_list)
                idx.setdefault(line, []).append(n)
        _SRC[filename] = idx
    return _SRC[filename]


def func_node(fn):
    code = fn.__code__
    cands = file_index(code.co_filename).get(code.co_firstlineno, [])
    if len(cands) > 1:
        named = [c for c in cands if getattr(c, 'name', '<lambda>') == code.co_name]
        if len(named) == 1:
            return named[0]
        # several lambdas on a line: compare argument names and constants
        named2 = [c for c in (named or cands) if [a.arg for a in c.args.args] == list(code.co_varnames[:code.co_argcount])]
        if len(named2) == 1:
            return named2[0]
        raise Unsupported('ambiguous source of %s' % code.co_name)
    if not cands:
        raise Unsupported('no source for %s' % code.co_name)
    return cands[0]


def is_repo_func(f):
    return isinstance(f, types.FunctionType) and (f.__code__.co_filename.startswith(REPO))


def is_repo_class(c):
    return isinstance(c, type) and _repo_module(c.__module__)


_repo_mods = {}


def _repo_module(name):
    if name not in _repo_mods:
        import sys
        m = sys.modules.get(name)
        f = getattr(m, '__file__', None) or ''
        _repo_mods[name] = f.startswith(REPO)
    return _repo_mods[name]


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_,
          ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
          ast.RShift: operator.rshift}
BINNAMES = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
            ast.Mod: 'mod', ast.Pow: 'pow', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
            ast.LShift: 'lshift', ast.RShift: 'rshift'}
OP2AST = {v: k for k, v in BINOPS.items()}


class Interp:
    MAX_DEPTH = 120

    def __init__(self, ctx):
        self.ctx = ctx
        self.stack = []
        self.models = {}            # id(callable) -> ModelFn, for external callables
        self.model_refs = []
        self.eq_models = {}         # type -> fn(interp, a, b): == with an object of that type
        self.method_models = {}     # (type, name) -> fn(interp, obj, args, kwargs)
        self.call_hook = None       # spec hook: (interp, fn, args, kwargs) -> value or NOTHANDLED
        self.loop_hook = None       # spec hook: (interp, node, frame, seq or None) -> NOTHANDLED or None
        self.native_ok = set()
        self.while_cap = 400
        self.write_ok = None
        self.read_log = None        # set of (id(object), attribute) read, while a loop iteration is re-executed
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ utilities
    def model(self, target, fn):
        self.models[id(target)] = fn if isinstance(fn, ModelFn) else ModelFn(fn)
        self.model_refs.append(target)

    def raise_py(self, exc):
        raise mark(exc)

    def truth(self, v):
        if isinstance(v, (bool, int, float, str, bytes, tuple, list, dict, set, frozenset, type(None))) and \
                not isinstance(v, enum.Enum):
            if isinstance(v, dict) and OVERLAY in v:
                return self.truth(v[OVERLAY])
            if isinstance(v, (list, tuple)) and has_seg(v):
                return self.ctx.branch(self.length_term(v) != 0)
            return bool(v)
        if isinstance(v, SBool):
            return self.ctx.branch(v.t)
        if isinstance(v, (SInt, SReal)):
            return self.ctx.branch(v.t != 0)
        if isinstance(v, SEnum):
            m = self.class_attr(v.cls, '__bool__')
            if isinstance(m, types.FunctionType):
                return self.truth(self.call(m, [v]))
            if issubclass(v.cls, enum.IntEnum):
                return self.ctx.branch(v.t != 0)
            return True
        if isinstance(v, (SStr, SSeq)) or type(v).__name__ in ('SBytes', 'SByteArray'):
            return self.ctx.branch(self.length_term(v) != 0)
        if isinstance(v, SAtom):
            return self.truth(self.force_atom(v))
        if isinstance(v, SAtoms):
            return self.ctx.branch(v.arr != z3.EmptySet(Atom))
        if isinstance(v, SDict):
            raise Unsupported('truth of a symbolic dict')
        if isinstance(v, (Poison, Lazy)):
            raise Unsupported('use of dead value')
        if isinstance(v, Sym):
            t = getattr(v, 'truth', None)
            if t is not None:
                return t(self)
            raise Unsupported('truth of %r' % v)
        m = self.class_attr(type(v), '__bool__')
        if isinstance(m, types.FunctionType):
            return self.truth(self.call(m, [v]))
        if m is None:
            m = self.class_attr(type(v), '__len__')
            if isinstance(m, types.FunctionType):
                return self.truth(self.binop_cmp('ne', self.call(m, [v]), 0))
        return self.native(bool, [v])

    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return None

    def native(self, f, args=(), kwargs=None):
        try:
            return f(*args, **(kwargs or {}))
        except Signal:
            raise
        except Exception as e:
            raise mark(e)

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        args = list(args)
        kwargs = dict(kwargs or {})
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.obj] + args, kwargs)
        if isinstance(f, SymMethod):
            from . import models
            return models.sym_method(self, f.obj, f.name, args, kwargs)
        m = self.models.get(id(f))
        if m is not None:
            return m.fn(self, args, kwargs)
        if isinstance(f, ModelFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [f.__self__] + args, kwargs)
        if isinstance(f, FuncVal):
            return self.call_funcval(f, args, kwargs)
        if isinstance(f, types.FunctionType):
            if getattr(f, '__pyvc_native__', False):
                return f(*args, **kwargs)
            if is_repo_func(f):
                return self.call_repo(f, args, kwargs)
            w = getattr(f, '__wrapped__', None)
            if w is not None and is_repo_func(w):
                raise Unsupported('decorated function %s' % f.__name__)
            return self.call_native(f, args, kwargs)
        if isinstance(f, functools.partial):
            kw = dict(f.keywords)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + args, kw)
        if isinstance(f, type):
            return self.call_class(f, args, kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.BuiltinMethodType)):
            s = getattr(f, '__self__', None)
            if s is not None and not isinstance(s, types.ModuleType):
                return self.call_native_method(s, f.__name__, f, args, kwargs)
            return self.call_native(f, args, kwargs)
        if isinstance(f, Sym):
            c = getattr(f, 'call', None)
            if c is not None:
                return c(self, args, kwargs)
            raise Unsupported('call of %r' % f)
        cm = self.class_attr(type(f), '__call__')
        if isinstance(cm, types.FunctionType) and (is_repo_func(cm) or getattr(cm, '__pyvc_native__', False)):
            return self.call(cm, [f] + args, kwargs)
        if isinstance(f, types.MethodDescriptorType):
            # unbound builtin method, e.g. str.lower
            if args:
                return self.call(self.load_attr(args[0], f.__name__), args[1:], kwargs)
        if isinstance(f, types.WrapperDescriptorType):
            if f.__name__ == '__init__' and isinstance(args[0], BaseException):
                return self.native(f, args, kwargs)
            if f.__name__ == '__init__' and f is object.__init__:
                return None
        if isinstance(f, operator.attrgetter) or isinstance(f, operator.itemgetter) or \
                isinstance(f, operator.methodcaller):
            r = f.__reduce__()
            if isinstance(f, operator.attrgetter) and len(r[1]) == 1:
                o = args[0]
                for part in r[1][0].split('.'):
                    o = self.load_attr(o, part)
                return o
            if isinstance(f, operator.itemgetter) and len(r[1]) == 1:
                return self.load_sub(args[0], r[1][0])
            if isinstance(f, operator.methodcaller):
                raise Unsupported('methodcaller')
        if not callable(f):
            self.raise_py(TypeError('%r object is not callable' % type(f).__name__))
        return self.call_native(f, args, kwargs)

    def call_native(self, f, args, kwargs):
        if id(f) not in self.native_ok and not getattr(f, '__pyvc_native__', False):
            for a in list(args) + list(kwargs.values()):
                if contains_sym(a, 3) or isinstance(a, (FuncVal, BoundMethod, GenVal, SymMethod, ModelFn)):
                    raise Unsupported('native call %s with symbolic argument' % getattr(f, '__qualname__', f))
        return self.native(f, args, kwargs)

    def call_native_method(self, obj, name, f, args, kwargs):
        from . import models
        r = models.native_method(self, obj, name, args, kwargs)
        if r is not NOTHANDLED:
            return r
        mm = self.method_models.get((type(obj), name))
        if mm is not None:
            return mm(self, obj, args, kwargs)
        if contains_sym(obj, 2):
            raise Unsupported('method %s of container with symbolic content' % name)
        return self.call_native(f, args, kwargs)

    def call_class(self, cls, args, kwargs):
        if getattr(cls, '__pyvc_native__', False):
            return cls(*args, **kwargs)
        if isinstance(cls, enum.EnumMeta):
            if len(args) == 1 and isinstance(args[0], Sym):
                return self.enum_from_value(cls, args[0])
            return self.native(cls, args, kwargs)
        if is_repo_class(cls) or (issubclass(cls, BaseException)):
            new = self.class_attr(cls, '__new__')
            if isinstance(new, staticmethod):
                raise Unsupported('__new__ of %s' % cls.__name__)
            if issubclass(cls, BaseException):
                obj = self.native(cls.__new__, [cls] + args, kwargs if not is_repo_class(cls) else {})
            elif cls.__new__ is object.__new__:
                obj = self.native(object.__new__, [cls])
            else:
                raise Unsupported('instantiation of %s' % cls.__name__)
            self.ctx.journal.record('alloc', obj, None, _nothing)
            init = self.class_attr(cls, '__init__')
            if isinstance(init, types.FunctionType) and is_repo_func(init):
                self.call(init, [obj] + args, kwargs)
            elif isinstance(init, types.FunctionType):
                raise Unsupported('foreign __init__ of %s' % cls.__name__)
            elif issubclass(cls, BaseException):
                self.native(init, [obj] + args, kwargs)
            elif args or kwargs:
                self.raise_py(TypeError('%s() takes no arguments' % cls.__name__))
            return obj
        return self.call_native(cls, args, kwargs)

    def enum_from_value(self, cls, v):
        if isinstance(v, SEnum) and v.cls is cls:
            return v
        if not isinstance(v, SInt):
            raise Unsupported('%s(%r)' % (cls.__name__, v))
        ok = z3.Or([v.t == m.value for m in cls])
        if not self.ctx.branch(ok):
            self.raise_py(ValueError('not a valid %s' % cls.__name__))
        return self.mk_enum(cls, v.t)

    def mk_enum(self, cls, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return cls(t.as_long())
        return SEnum(cls, t)

    def qualname(self, f):
        return '%s.%s' % (f.__module__, f.__qualname__)

    def call_repo(self, f, args, kwargs):
        if self.call_hook is not None:
            r = self.call_hook(self, f, args, kwargs)
            if r is not NOTHANDLED:
                return r
        return self.run_repo(f, args, kwargs)

    def run_repo(self, f, args, kwargs):
        """Interpret the body of a repository function (no contract applied to this call)."""
        if len(self.stack) > self.MAX_DEPTH:
            raise Unsupported('recursion in %s is not cut by a contract' % f.__qualname__)
        node = func_node(f)
        try:
            ba = inspect.signature(f).bind(*args, **kwargs)
        except TypeError as e:
            raise mark(e)
        ba.apply_defaults()
        code = f.__code__
        if code.co_flags & (inspect.CO_GENERATOR | inspect.CO_COROUTINE | inspect.CO_ASYNC_GENERATOR):
            raise Unsupported('generator %s' % f.__qualname__)
        fr = Frame(f, f.__globals__, f.__qualname__,
                   localnames=set(code.co_varnames) | set(code.co_cellvars))
        if f.__closure__:
            for n, c in zip(code.co_freevars, f.__closure__):
                fr.closure[n] = c
        fr.locals.update(ba.arguments)
        self.ctx.report.functions.add(self.qualname(f))
        return self.run_body(fr, node)

    def run_body(self, fr, node):
        fr.node = node
        self.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            self.block(node.body, fr)
            return None
        except ReturnSig as r:
            return r.value
        finally:
            self.stack.pop()

    def call_funcval(self, f, args, kwargs):
        a = f.node.args
        fr = Frame(f, f.frame.globals, f.__name__, parent=f.frame, classcell=f.frame.classcell)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        if len(args) > len(names):
            if a.vararg:
                vals[a.vararg.arg] = tuple(args[len(names):])
            else:
                self.raise_py(TypeError('too many arguments'))
        elif a.vararg:
            vals[a.vararg.arg] = ()
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in vals:
                    self.raise_py(TypeError('multiple values for %s' % k))
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_py(TypeError('unexpected argument %s' % k))
        if a.kwarg:
            vals[a.kwarg.arg] = extra
        for n, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vals.setdefault(n, d)
        for n, d in zip(kwonly, f.kw_defaults):
            if d is not None:
                vals.setdefault(n, d[0])
        for n in names + kwonly:
            if n not in vals:
                self.raise_py(TypeError('missing argument %s' % n))
        fr.locals.update(vals)
        if len(self.stack) > self.MAX_DEPTH:
            raise Unsupported('recursion in %s' % f.__name__)
        if isinstance(f.node, ast.FunctionDef):
            fr.localnames = set(local_names(f.node)) | set(vals)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    raise Unsupported('generator function')
        return self.run_body(fr, f.node)

    # ------------------------------------------------------------------ names
    def load_name(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.locals and not (first and name in f.global_decl):
                v = f.locals[name]
                if isinstance(v, Poison):
                    raise Unsupported('value of %s after a loop cut (%s)' % (name, v.why))
                return v
            if first and f.localnames is not None and name in f.localnames and name not in f.global_decl and \
                    name not in f.nonlocal_decl:
                self.raise_py(UnboundLocalError(name))
            if name in f.closure:
                try:
                    return f.closure[name].cell_contents
                except ValueError:
                    self.raise_py(NameError(name))
            first = False
            f = f.parent
        g = fr.globals
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_py(NameError(name))

    def store_name(self, name, v, fr):
        if name in fr.global_decl:
            g = fr.globals
            old = g.get(name, NOTHANDLED)

            def undo():
                if old is NOTHANDLED:
                    g.pop(name, None)
                else:
                    g[name] = old
            self.ctx.journal.record('global', g, name, undo)
            g[name] = v
            return
        if name in fr.nonlocal_decl:
            f = fr.parent
            while f is not None:
                if name in f.locals:
                    self._set_local(f, name, v)
                    return
                f = f.parent
            raise Unsupported('nonlocal')
        self._set_local(fr, name, v)

    def _set_local(self, fr, name, v):
        d = fr.locals
        old = d.get(name, NOTHANDLED)

        def undo():
            if old is NOTHANDLED:
                d.pop(name, None)
            else:
                d[name] = old
        self.ctx.journal.record('local', fr, name, undo)
        d[name] = v

    # ------------------------------------------------------------------ attributes
    def load_attr(self, obj, name):
        if isinstance(obj, Sym):
            return self.sym_attr(obj, name)
        if isinstance(obj, (Poison, Lazy)):
            raise Unsupported('dead value')
        if isinstance(obj, types.ModuleType):
            return self.native(getattr, [obj, name])
        if isinstance(obj, SuperVal):
            mro = type(obj.obj).__mro__ if not isinstance(obj.obj, type) else obj.obj.__mro__
            after = mro[mro.index(obj.cls) + 1:]
            for c in after:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, types.FunctionType):
                        return BoundMethod(a, obj.obj)
                    if isinstance(a, staticmethod):
                        return a.__func__
                    if isinstance(a, classmethod):
                        return BoundMethod(a.__func__, type(obj.obj))
                    if isinstance(a, property):
                        return self.call(a.fget, [obj.obj])
                    return BoundMethod(a, obj.obj) if callable(a) else a
            self.raise_py(AttributeError(name))
        if isinstance(obj, type):
            if not is_repo_class(obj):
                return self.native(getattr, [obj, name])
            for c in obj.__mro__:
                if name in c.__dict__:
                    a = c.__dict__[name]
                    if isinstance(a, staticmethod):
                        return a.__func__
                    if isinstance(a, classmethod):
                        return BoundMethod(a.__func__, obj)
                    if isinstance(a, types.FunctionType):
                        return a
                    break
            return self.native(getattr, [obj, name])
        cls = type(obj)
        if name == '__class__':
            return cls
        if name == '__dict__':
            d = obj.__dict__
            return d
        ca = self.class_attr(cls, name)
        if isinstance(ca, property):
            if isinstance(ca.fget, types.FunctionType):
                return self.call(ca.fget, [obj])
            return self.native(getattr, [obj, name])
        d = getattr(obj, '__dict__', None)
        if d is not None and name in d and not isinstance(obj, enum.Enum):
            v = d[name]
            if self.read_log is not None:
                self.read_log.add((id(obj), name))
            if isinstance(v, Lazy):
                m = self.ctx.journal.mark()
                v = v.make()
                self.ctx.journal.relabel(m, 'lazy')
                d_ = d
                old = d[name]
                self.ctx.journal.record('lazy', obj, name, lambda: d_.__setitem__(name, old))
                d[name] = v
            if isinstance(v, Poison):
                raise Unsupported('attribute %s after a loop cut (%s)' % (name, v.why))
            return v
        if isinstance(ca, types.FunctionType):
            return BoundMethod(ca, obj)
        if isinstance(ca, staticmethod):
            return ca.__func__
        if isinstance(ca, classmethod):
            return BoundMethod(ca.__func__, cls)
        if isinstance(ca, (int, str, float, bytes, tuple, list, dict, type(None), enum.Enum)) and ca is not None:
            return ca
        if ca is None:
            ga = self.class_attr(cls, '__getattr__')
            if isinstance(ga, types.FunctionType):
                return self.call(ga, [obj, name])
        return self.native(getattr, [obj, name])

    def sym_attr(self, obj, name):
        h = getattr(obj, 'attr', None)
        if h is not None:
            r = h(self, name)
            if r is not NOTHANDLED:
                return r
        if name == '__class__':
            return obj.pytype
        if isinstance(obj, SEnum):
            if name in ('value', '_value_'):
                return mk_int(obj.t)
            if name in ('name', '_name_'):
                return self.enum_name(obj)
            a = self.class_attr(obj.cls, name)
            if isinstance(a, types.FunctionType):
                return BoundMethod(a, obj)
            if isinstance(a, staticmethod):
                return a.__func__
            if isinstance(a, property) and isinstance(a.fget, types.FunctionType):
                return self.call(a.fget, [obj])
            raise Unsupported('attribute %s of %r' % (name, obj))
        if isinstance(obj, SAtom):
            return self.load_attr(self.force_atom(obj), name)
        t = obj.pytype
        if isinstance(obj, Opaque) and t is object:
            raise Unsupported('attribute %s of %s' % (name, obj.label))
        if t is not None and isinstance(t, type) and not hasattr(t, name) and t is not object:
            self.raise_py(AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name)))
        return SymMethod(obj, name)

    def enum_name(self, e):
        t = None
        for m in e.cls:
            x = z3.StringVal(m.name)
            t = x if t is None else z3.If(e.t == m.value, x, t)
        return mk_str([ZS(t)])

    def store_attr(self, obj, name, v):
        if isinstance(obj, Sym):
            h = getattr(obj, 'set_attr', None)
            if h is not None:
                return h(self, name, v)
            if isinstance(obj, SAtom) or obj.pytype in (int, str, float, bool):
                self.raise_py(AttributeError(name))
            raise Unsupported('attribute store on %r' % obj)
        if not isinstance(obj, type):
            ca = self.class_attr(type(obj), name)
            if isinstance(ca, property):
                if ca.fset is None:
                    self.raise_py(AttributeError("can't set attribute"))
                self.call(ca.fset, [obj, v])
                return
            sa = self.class_attr(type(obj), '__setattr__')
            if isinstance(sa, types.FunctionType):
                if getattr(sa, '__pyvc_native__', False):
                    sa(obj, name, v)
                    return
                raise Unsupported('__setattr__')
            if obj is None or isinstance(obj, (int, str, float, bytes, list, tuple, dict)) and \
                    not hasattr(obj, '__dict__'):
                self.raise_py(AttributeError(name))
        self.ctx.set_attr(obj, name, v)

    # ------------------------------------------------------------------ atoms
    def force_atom(self, a):
        if self.ctx.branch(Atom.is_Num(a.t)):
            n = Atom.num(a.t)
            if self.ctx.branch(a.isint):
                return SInt(z3.ToInt(n)) if self.assume_int(n) else None
            return SReal(n)
        if self.ctx.branch(Atom.is_Str(a.t)):
            return mk_str([ZS(Atom.str(a.t))])
        return a.null

    def assume_int(self, n):
        self.ctx.assume(z3.IsInt(n))
        return True

    def atom_term(self, v):
        """Atom term of an atomic Python value (None if the value is not atomic)."""
        if isinstance(v, SAtom):
            return v.t
        if isinstance(v, bool) or isinstance(v, SBool):
            return Atom.Num(real_term(v))
        if isinstance(v, (int, float, SInt, SReal)):
            return Atom.Num(real_term(v))
        if isinstance(v, (str, SStr)):
            return Atom.Str(str_z3(v))
        if type(v).__name__ == 'ASTNullVal':
            return Atom.Null
        return None

    def as_atoms(self, v):
        """View of a collection as a set of atoms: SAtoms or None."""
        if isinstance(v, SAtoms):
            return v
        if isinstance(v, (set, frozenset, list, tuple)) and not has_seg(v):
            ts = [self.atom_term(x) for x in v]
            if any(t is None for t in ts):
                return None
            return SAtoms(atom_set(ts), type(v), None)
        if isinstance(v, SSeq) or (isinstance(v, (list, tuple)) and has_seg(v)):
            seq = self.as_seq(v)
            key = id(seq)
            mem = getattr(seq, 'atoms', None)
            if mem is not None:
                return SAtoms(mem, list, None)
            return self._atoms_of_seq(seq)
        return None

    def _atoms_of_seq(self, seq):
        ctx = self.ctx
        k = z3.Int(ctx.name('ai'))
        cell = []

        def run():
            ctx.assume(z3.And(0 <= k, k < seq.n))
            na = len(ctx.assumed)
            v = seq.at(k)
            t = self.atom_term(v)
            if t is None:
                raise Unsupported('set of non-atomic values')
            cell.append((z3.And(ctx.assumed[na:]) if len(ctx.assumed) > na else z3.BoolVal(True), t))
        ctx.explore(run)
        if not cell:
            return SAtoms(z3.EmptySet(Atom), list, None)
        at = cell[-1][1]
        for pc, t in reversed(cell[:-1]):
            at = z3.If(pc, t, at)
        at = z3.simplify(at)
        canon = z3.substitute(at, (k, z3.Int('canonical!index')))
        key = (z3.simplify(seq.n).sexpr(), canon.sexpr())
        # one set constant per (length, element term): equal sequences denote the same set
        name = ctx.setnames.setdefault(key, len(ctx.setnames))
        arr = z3.Const('setof!%d' % name, z3.SetSort(Atom))
        if ctx.set_axioms(name):
            wit = z3.Function('witof!%d' % name, Atom, I)
            i = z3.Int(ctx.name('i'))
            a = z3.Const(ctx.name('a'), Atom)
            ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < seq.n), z3.Select(arr, z3.substitute(at, (k, i))))))
            ctx.assume(z3.ForAll([a], z3.Implies(z3.Select(arr, a), z3.And(0 <= wit(a), wit(a) < seq.n,
                                                                           z3.substitute(at, (k, wit(a))) == a)),
                                 patterns=[z3.Select(arr, a)]))
        return SAtoms(arr, list, None)

    # ------------------------------------------------------------------ sequences
    def as_seq(self, v):
        """Uniform view of list-like values as SSeq."""
        if isinstance(v, SSeq):
            return v
        if isinstance(v, Sym) and getattr(v, 'as_seq', None) is not None:
            return v.as_seq(self)
        if isinstance(v, (list, tuple)):
            if len(v) == 1 and type(v[0]) is Seg:
                return v[0].seq
            items = list(v)
            if not has_seg(items):
                n = len(items)

                def gen(i):
                    for j in range(n):
                        if self.ctx.branch(i == j):
                            return items[j]
                    raise PathKill()
                return SSeq(z3.IntVal(n), gen, type(v))
            bounds = []
            off = z3.IntVal(0)
            for x in items:
                if type(x) is Seg:
                    nxt = off + x.seq.n
                else:
                    nxt = off + 1
                bounds.append((off, nxt, x))
                off = nxt

            def gen2(i):
                for lo, hi, x in bounds:
                    if self.ctx.branch(z3.And(lo <= i, i < hi)):
                        return x.seq.at(z3.simplify(i - lo)) if type(x) is Seg else x
                raise PathKill()
            return SSeq(z3.simplify(off), gen2, type(v))
        raise Unsupported('not a sequence: %r' % (v,))

    def length_term(self, v):
        if isinstance(v, SStr):
            t = z3.IntVal(0)
            for p in v.pieces:
                if isinstance(p, str):
                    t = t + len(p)
                elif isinstance(p, ZS):
                    t = t + z3.Length(p.t)
                elif isinstance(p, SL):
                    if p.mode is not None:
                        raise Unsupported('length of case-mapped text')
                    t = t + (p.j - p.i)
                else:
                    raise Unsupported('length of number text')
            return z3.simplify(t)
        if isinstance(v, SSeq):
            return v.n
        if isinstance(v, (list, tuple)):
            t = z3.IntVal(0)
            for x in v:
                t = t + (x.seq.n if type(x) is Seg else 1)
            return z3.simplify(t)
        h = getattr(v, 'length_term', None)
        if h is not None:
            return h(self)
        raise Unsupported('len of %r' % (v,))

    # ------------------------------------------------------------------ comparison
    def eq(self, a, b):
        """Python a == b; bool or SBool."""
        if a is b and not isinstance(a, (SReal, float)):
            if type(a) in (str, int, bool, type(None)) or isinstance(a, (type, enum.Enum)):
                m = self.class_attr(type(a), '__eq__')
                if not isinstance(m, types.FunctionType):
                    return True
        if isinstance(a, (Poison, Lazy)) or isinstance(b, (Poison, Lazy)):
            raise Unsupported('dead value')
        for x, y in ((a, b), (b, a)):
            m = self.eq_models.get(type(x))
            if m is not None:
                return m(self, x, y)
        # user-defined __eq__ (also on symbolic enum members)
        for x, y in ((a, b), (b, a)):
            c = pytype_of(x)
            if isinstance(x, SAtom) or c is None:
                continue
            if isinstance(c, type):
                m = self.class_attr(c, '__eq__')
                if isinstance(m, types.FunctionType) and (is_repo_func(m) or getattr(m, '__pyvc_native__', False)):
                    r = self.call(m, [x, y])
                    if r is not NotImplemented:
                        return r
        if isinstance(a, SAtom) or isinstance(b, SAtom):
            ta, tb = self.atom_term(a), self.atom_term(b)
            if ta is not None and tb is not None:
                return mk_bool(ta == tb)
            x = self.force_atom(a) if isinstance(a, SAtom) else a
            y = self.force_atom(b) if isinstance(b, SAtom) else b
            return self.eq(x, y)
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            ca, cb = pytype_of(a), pytype_of(b)
            if ca is cb:
                ta = a.t if isinstance(a, SEnum) else z3.IntVal(a.value)
                tb = b.t if isinstance(b, SEnum) else z3.IntVal(b.value)
                return mk_bool(ta == tb)
            if issubclass(ca, int) and issubclass(cb, int):
                return mk_bool(self.num_term(a) == self.num_term(b))
            return False
        num = (int, float, SInt, SReal, SBool)
        if isinstance(a, num) and isinstance(b, num) and (isinstance(a, Sym) or isinstance(b, Sym)):
            if isinstance(a, SReal) or isinstance(b, SReal) or isinstance(a, float) or isinstance(b, float):
                return mk_bool(real_term(a) == real_term(b))
            return mk_bool(int_term(a) == int_term(b))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            from . import models
            return models.str_eq(self, a, b)
        h = getattr(a, 'sym_eq', None) or None
        if h is not None and isinstance(a, Sym):
            r = h(self, b)
            if r is not NOTHANDLED:
                return r
        h = getattr(b, 'sym_eq', None) or None
        if h is not None and isinstance(b, Sym):
            r = h(self, a)
            if r is not NOTHANDLED:
                return r
        setlike = (set, frozenset)
        ta, tb = pytype_of(a), pytype_of(b)
        if ta in setlike and tb in setlike and (isinstance(a, Sym) or isinstance(b, Sym) or contains_sym(a, 1) or
                                                contains_sym(b, 1)):
            x, y = self.as_atoms(a), self.as_atoms(b)
            if x is None or y is None:
                raise Unsupported('equality of sets')
            return mk_bool(x.arr == y.arr)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b):
                return False
            if has_seg(a) or has_seg(b):
                if len(a) == len(b) and all(x is y or (type(x) is Seg and type(y) is Seg and x.seq is y.seq)
                                            for x, y in zip(a, b)):
                    return True
                from . import loops
                return loops.seq_eq(self, a, b)
            if len(a) != len(b):
                return False
            return self.all_of([self.eq_or_is(x, y) for x, y in zip(a, b)])
        if isinstance(a, dict) and isinstance(b, dict):
            if OVERLAY in a or OVERLAY in b:
                raise Unsupported('equality of symbolic dicts')
            if set(a) != set(b):
                return False
            return self.all_of([self.eq_or_is(a[k], b[k]) for k in a])
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (SSeq, SAtoms, SDict)) or isinstance(b, (SSeq, SAtoms, SDict)):
                if ta is tb or not (isinstance(ta, type) and isinstance(tb, type)):
                    raise Unsupported('equality of %r and %r' % (a, b))
                return False
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('equality with opaque value')
            return False         # different kinds
        return self.native(operator.eq, [a, b])

    def eq_or_is(self, a, b):
        if a is b:
            return True
        return self.eq(a, b)

    def all_of(self, bs):
        ts = []
        for b in bs:
            if b is False:
                return False
            if b is True:
                continue
            if not isinstance(b, SBool):
                b = self.truth(b)
                if not b:
                    return False
                continue
            ts.append(b.t)
        return mk_bool(z3.And(ts)) if ts else True

    def any_of(self, bs):
        ts = []
        for b in bs:
            if b is True:
                return True
            if b is False:
                continue
            if not isinstance(b, SBool):
                if self.truth(b):
                    return True
                continue
            ts.append(b.t)
        return mk_bool(z3.Or(ts)) if ts else False

    def neg(self, b):
        if isinstance(b, SBool):
            return mk_bool(z3.Not(b.t))
        return not self.truth(b)

    def num_term(self, v):
        if isinstance(v, SEnum):
            return v.t
        if isinstance(v, enum.IntEnum):
            return z3.IntVal(int(v))
        if isinstance(v, (SReal, float)):
            return real_term(v)
        return int_term(v)

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            c = pytype_of(a)
            m = self.class_attr(c, '__ne__') if isinstance(c, type) else None
            if isinstance(m, types.FunctionType) and is_repo_func(m):
                r = self.call(m, [a, b])
                if r is not NotImplemented:
                    return r
            return self.neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        return self.order({ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(a, (Poison, Lazy)) or isinstance(b, (Poison, Lazy)):
            raise Unsupported('dead value')
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SEnum) and pytype_of(y) is x.cls:
                ty = y.t if isinstance(y, SEnum) else z3.IntVal(y.value)
                return mk_bool(x.t == ty)
            if isinstance(x, SBool) and isinstance(y, bool):
                return mk_bool(x.t == y)
            if isinstance(x, SAtom) and (y is None or isinstance(y, bool)):
                return False
            if isinstance(x, Opaque) and y is None:
                return False
        if isinstance(a, Sym) and isinstance(b, Sym) and pytype_of(a) is pytype_of(b):
            raise Unsupported('identity of symbolic values')
        return False

    def order(self, name, a, b):
        f = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}[name]
        if isinstance(a, SAtom):
            a = self.force_atom(a)
        if isinstance(b, SAtom):
            b = self.force_atom(b)
        c = pytype_of(a)
        m = self.class_attr(c, '__%s__' % name) if isinstance(c, type) else None
        if isinstance(m, types.FunctionType) and is_repo_func(m):
            r = self.call(m, [a, b])
            if r is not NotImplemented:
                return r
        num = (int, float, SInt, SReal, SBool, enum.IntEnum)

        def isnum(v):
            return isinstance(v, num) or (isinstance(v, SEnum) and issubclass(v.cls, int))
        if isnum(a) and isnum(b) and (isinstance(a, Sym) or isinstance(b, Sym)):
            if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
                ra = z3.ToReal(a.t) if isinstance(a, SEnum) else real_term(a)
                rb = z3.ToReal(b.t) if isinstance(b, SEnum) else real_term(b)
                return mk_bool(f(ra, rb))
            return mk_bool(f(self.num_term(a), self.num_term(b)))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and (isinstance(a, Sym) or isinstance(b, Sym)):
            from . import models
            return models.str_order(self, name, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = pytype_of(a), pytype_of(b)
            if isinstance(a, SAtoms) and isinstance(b, (SAtoms, set)) or isinstance(b, SAtoms) and isinstance(a, set):
                x, y = self.as_atoms(a), self.as_atoms(b)
                le = z3.IsSubset(x.arr, y.arr)
                ge = z3.IsSubset(y.arr, x.arr)
                if ta is set and tb is set:
                    return mk_bool({'le': le, 'ge': ge, 'lt': z3.And(le, z3.Not(ge)),
                                    'gt': z3.And(ge, z3.Not(le))}[name])
            if ta is tb and ta not in (int, float, bool, str):
                raise Unsupported('ordering of %r and %r' % (a, b))
            self.raise_py(TypeError("'%s' not supported between instances of '%s' and '%s'" %
                                    (name, getattr(ta, '__name__', ta), getattr(tb, '__name__', tb))))
        return self.native(f, [a, b])

    def binop_cmp(self, name, a, b):
        if name == 'ne':
            return self.neg(self.eq(a, b))
        return self.order(name, a, b)

    def contains(self, c, x):
        from . import models
        return models.contains(self, c, x)

    # ------------------------------------------------------------------ arithmetic
    def binop(self, opcls, a, b):
        from . import models
        if isinstance(a, (Poison, Lazy)) or isinstance(b, (Poison, Lazy)):
            raise Unsupported('dead value')
        name = BINNAMES[opcls]
        for x, y, n in ((a, b, '__%s__' % name), (b, a, '__r%s__' % name)):
            c = pytype_of(x)
            if isinstance(c, type) and not isinstance(x, SAtom):
                m = self.class_attr(c, n)
                if isinstance(m, types.FunctionType) and is_repo_func(m):
                    r = self.call(m, [x, y])
                    if r is not NotImplemented:
                        return r
        if not contains_sym(a, 3) and not contains_sym(b, 3):
            return self.native(BINOPS[opcls], [a, b])
        if isinstance(a, SAtom):
            a = self.force_atom(a)
        if isinstance(b, SAtom):
            b = self.force_atom(b)
        return models.sym_binop(self, opcls, a, b)

    # ------------------------------------------------------------------ subscripts
    def load_sub(self, obj, idx):
        from . import models
        return models.load_sub(self, obj, idx)

    def store_sub(self, obj, idx, v):
        from . import models
        return models.store_sub(self, obj, idx, v)

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        """Concrete Python iterator over v, or None if v is symbolic."""
        if isinstance(v, GenVal):
            return self.iterate_gen(v)
        if isinstance(v, (list, tuple)) and has_seg(v):
            return None
        if isinstance(v, dict):
            if OVERLAY in v:
                return self.iterate(v[OVERLAY])
            return iter(v)
        if isinstance(v, SDict):
            if v.unknown:
                raise Unsupported('iteration over a symbolic dict')
            return iter([k for k, x in v.entries if x is not ABSENT])
        if isinstance(v, Sym):
            h = getattr(v, 'iterate', None)
            if h is not None:
                return h(self)
            if isinstance(v, (SSeq, SAtoms, SStr)):
                return None
            if v.pytype in (int, float, bool) or isinstance(v, SEnum):
                self.raise_py(TypeError('object is not iterable'))
            raise Unsupported('iteration over %r' % v)
        if isinstance(v, type) and issubclass(v, enum.Enum):
            return iter(v)
        if type(v) in (str, bytes, bytearray, set, frozenset, range) or hasattr(v, '__next__') or \
                isinstance(v, (list, tuple)):
            return iter(v)
        if type(v).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
            return iter(v)
        it = self.class_attr(type(v), '__iter__')
        if isinstance(it, types.FunctionType) and is_repo_func(it):
            return self.iterate(self.call(it, [v]))
        if it is None and self.class_attr(type(v), '__getitem__') is None:
            self.raise_py(TypeError("'%s' object is not iterable" % type(v).__name__))
        if it is not None and not is_repo_class(type(v)):
            return self.native(iter, [v])
        raise Unsupported('iteration over %s' % type(v).__name__)

    def iterate_gen(self, g):
        node, fr = g.node, Frame(None, g.frame.globals, '<genexpr>', parent=g.frame, classcell=g.frame.classcell)

        def rec(k):
            if k == len(node.generators):
                yield self.ev(node.elt, fr)
                return
            gen = node.generators[k]
            itv = g.first if k == 0 else self.ev(gen.iter, fr)
            it = self.iterate(itv)
            if it is None:
                raise Unsupported('generator over symbolic sequence')
            for x in it:
                self.assign(gen.target, x, fr)
                if all(self.truth(self.ev(c, fr)) for c in gen.ifs):
                    yield from rec(k + 1)
        return rec(0)

    # ------------------------------------------------------------------ expressions
    def ev(self, node, fr):
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(node).__name__)
        return m(node, fr)

    def ev_Constant(self, n, fr):
        return n.value

    def ev_Name(self, n, fr):
        v = self.load_name(n.id, fr)
        return v.make() if isinstance(v, Lazy) else v

    def ev_Attribute(self, n, fr):
        return self.load_attr(self.ev(n.value, fr), self.mangle(n.attr, fr))

    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            f = fr
            while f is not None and not isinstance(f.func, types.FunctionType):
                f = f.parent
            if f is not None and '.' in f.func.__qualname__:
                cls = f.func.__qualname__.split('.')[-2]
                return '_%s%s' % (cls.lstrip('_'), name)
        return name

    def ev_Subscript(self, n, fr):
        return self.load_sub(self.ev(n.value, fr), self.ev(n.slice, fr))

    def ev_Slice(self, n, fr):
        return slice(self.ev(n.lower, fr) if n.lower else None, self.ev(n.upper, fr) if n.upper else None,
                     self.ev(n.step, fr) if n.step else None)

    def ev_Tuple(self, n, fr):
        return tuple(self.ev_seq(n.elts, fr))

    def alloc(self, obj):
        """Note a container created by interpreted code (writes to it are not effects on older state)."""
        self.ctx.journal.record('alloc', obj, None, _nothing)
        return obj

    def ev_List(self, n, fr):
        return self.alloc(self.ev_seq(n.elts, fr))

    def ev_seq(self, elts, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, fr)
                it = self.iterate(v)
                if it is None:
                    out.extend(list(v) if isinstance(v, (list, tuple)) else [Seg(self.as_seq(v))])
                else:
                    out.extend(it)
            else:
                out.append(self.ev(e, fr))
        return out

    def ev_Set(self, n, fr):
        vals = self.ev_seq(n.elts, fr)
        return self.make_set(vals)

    def make_set(self, vals):
        from . import models
        return models.make_set(self, vals)

    def ev_Dict(self, n, fr):
        d = self.alloc({})
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, fr)
                if contains_sym(src, 0) or (isinstance(src, dict) and OVERLAY in src):
                    raise Unsupported('dict unpacking')
                d.update(src)
                continue
            kv = self.ev(k, fr)
            self.store_sub(d, kv, self.ev(v, fr))
        return d

    def ev_BoolOp(self, n, fr):
        last = None
        for i, x in enumerate(n.values):
            last = self.ev(x, fr)
            if i == len(n.values) - 1:
                return last
            t = self.truth(last)
            if isinstance(n.op, ast.And):
                if not t:
                    return False if isinstance(last, SBool) else last
            else:
                if t:
                    return True if isinstance(last, SBool) else last
        return last

    def ev_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return self.neg(v)
        if isinstance(v, SAtom):
            v = self.force_atom(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, SInt):
                return mk_int(-v.t)
            if isinstance(v, SReal):
                return SReal(-v.t)
            if isinstance(v, Sym):
                raise Unsupported('negation')
            return self.native(operator.neg, [v])
        if isinstance(n.op, ast.UAdd):
            if isinstance(v, (SInt, SReal)):
                return v
            return self.native(operator.pos, [v])
        if isinstance(v, Sym):
            raise Unsupported('invert')
        return self.native(operator.invert, [v])

    def ev_BinOp(self, n, fr):
        return self.binop(type(n.op), self.ev(n.left, fr), self.ev(n.right, fr))

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                if res is True:
                    return r
                return self.all_of([res, r])
            # chained comparison: later operands are evaluated only if this one holds
            if not self.truth(r):
                return r if not isinstance(r, SBool) else False
            left = right
        return res

    def ev_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.name == '<comp>' and f.parent is not None:
            f = f.parent
        self.assign(n.target, v, f)
        return v

    def ev_Lambda(self, n, fr):
        return self.make_func(n, fr, '<lambda>')

    def make_func(self, n, fr, name):
        return FuncVal(n, fr, [self.ev(d, fr) for d in n.args.defaults],
                       [(self.ev(d, fr),) if d is not None else None for d in n.args.kw_defaults], name)

    def ev_JoinedStr(self, n, fr):
        from . import models
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                parts.append(models.format_value(self, x, spec or '', v.conversion))
        return models.concat_str(self, parts)

    def ev_FormattedValue(self, n, fr):
        return self.ev_JoinedStr(ast.JoinedStr(values=[n]), fr)

    def ev_Starred(self, n, fr):
        raise Unsupported('starred')

    def ev_GeneratorExp(self, n, fr):
        g = GenVal(n, fr, self.ev(n.generators[0].iter, fr))
        self.ctx.journal.record('alloc', g, None, _nothing)
        return g

    def ev_ListComp(self, n, fr):
        from . import loops
        return loops.comprehension(self, n, fr, 'list')

    def ev_SetComp(self, n, fr):
        from . import loops
        return loops.comprehension(self, n, fr, 'set')

    def ev_DictComp(self, n, fr):
        from . import loops
        return loops.comprehension(self, n, fr, 'dict')

    def ev_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = self.load_name('super', fr)
            if f is builtins.super:
                return self.zero_super(fr)
        f = self.ev(n.func, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                it = self.iterate(v)
                if it is None:
                    args.append(Seg(self.as_seq(v)))
                else:
                    args.extend(it)
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        if f is builtins.globals and not args and not kwargs and isinstance(fr.globals, dict):
            return fr.globals
        if f is builtins.locals or f is builtins.globals or f is builtins.vars:
            raise Unsupported('locals()/globals()')
        return self.call(f, args, kwargs)

    def zero_super(self, fr):
        f = fr
        while f is not None and not isinstance(f.func, types.FunctionType):
            f = f.parent
        cls = f.closure['__class__'].cell_contents
        first = f.func.__code__.co_varnames[0]
        return SuperVal(cls, f.locals[first])

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.st(s, fr)

    def st(self, node, fr):
        m = getattr(self, 'st_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(node).__name__)
        return m(node, fr)

    def st_Expr(self, n, fr):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and not n.value.keywords and \
                not any(isinstance(a, ast.Starred) for a in n.value.args) and len(n.value.args) > 1:
            f = self.ev(n.value.func, fr)
            if f is map or f is filter:          # lazy, and the result is dropped
                for a in n.value.args:
                    self.ev(a, fr)
                return
        self.ev(n.value, fr)

    def st_Pass(self, n, fr):
        pass

    def st_Global(self, n, fr):
        fr.global_decl.update(n.names)

    def st_Nonlocal(self, n, fr):
        fr.nonlocal_decl.update(n.names)

    def st_Return(self, n, fr):
        raise ReturnSig(self.ev(n.value, fr) if n.value else None)

    def st_Break(self, n, fr):
        raise BreakSig()

    def st_Continue(self, n, fr):
        raise ContinueSig()

    def st_If(self, n, fr):
        self.block(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def st_Assert(self, n, fr):
        if not self.truth(self.ev(n.test, fr)):
            self.raise_py(AssertionError())

    def st_FunctionDef(self, n, fr):
        if n.decorator_list:
            raise Unsupported('decorated nested function')
        self.store_name(n.name, self.make_func(n, fr, n.name), fr)

    def st_Import(self, n, fr):
        import importlib
        for a in n.names:
            m = self.native(importlib.import_module, [a.name])
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                self.store_name(a.name.split('.')[0], importlib.import_module(a.name.split('.')[0]), fr)

    def st_ImportFrom(self, n, fr):
        import importlib
        m = self.native(importlib.import_module, [n.module])
        for a in n.names:
            self.store_name(a.asname or a.name, self.native(getattr, [m, a.name]), fr)

    def st_Assign(self, n, fr):
        v = self.load_name(n.value.id, fr) if isinstance(n.value, ast.Name) else self.ev(n.value, fr)
        if isinstance(v, Lazy) and not (len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Name))):
            v = v.make()
        for t in n.targets:
            self.assign(t, v, fr)

    def st_AnnAssign(self, n, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, fr), fr)

    def st_AugAssign(self, n, fr):
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            new = self.inplace(n.op, cur, self.ev(n.value, fr))
            if new is not cur or not isinstance(cur, list):
                self.store_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            name = self.mangle(t.attr, fr)
            cur = self.load_attr(o, name)
            self.store_attr(o, name, self.inplace(n.op, cur, self.ev(n.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            i = self.ev(t.slice, fr)
            cur = self.load_sub(o, i)
            self.store_sub(o, i, self.inplace(n.op, cur, self.ev(n.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        if isinstance(op, ast.Add) and isinstance(cur, list):
            from . import models
            if isinstance(v, GenVal) and models.is_symbolic_iter(self, v.first):
                from . import loops
                v = loops.gen_comprehension(self, v, 'list')
            it = self.iterate(v)
            self.ctx.touch(cur)
            if it is None:
                cur.extend(list(v) if isinstance(v, (list, tuple)) else [Seg(self.as_seq(v))])
            else:
                cur.extend(list(it))
            return cur
        if isinstance(cur, set) or isinstance(cur, SAtoms) and not isinstance(op, ast.Add):
            if isinstance(cur, set) and not contains_sym(v, 1):
                self.ctx.touch(cur)
                return self.native({ast.BitOr: operator.ior, ast.BitAnd: operator.iand, ast.Sub: operator.isub,
                                    ast.BitXor: operator.ixor}.get(type(op), operator.ior), [cur, v])
            raise Unsupported('in-place set operation')
        if isinstance(cur, bytearray) or type(cur).__name__ == 'SByteArray':
            from . import ropes
            return ropes.iadd(self, cur, v)
        return self.binop(type(op), cur, v)

    def st_Delete(self, n, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.locals:
                    self.raise_py(UnboundLocalError(t.id))
                d, old, name = fr.locals, fr.locals[t.id], t.id
                self.ctx.journal.record('local', fr, name, lambda d=d, name=name, old=old: d.__setitem__(name, old))
                del fr.locals[t.id]
            elif isinstance(t, ast.Attribute):
                try:
                    self.ctx.del_attr(self.ev(t.value, fr), self.mangle(t.attr, fr))
                except AttributeError as e:
                    raise mark(e)
            elif isinstance(t, ast.Subscript):
                from . import models
                models.del_sub(self, self.ev(t.value, fr), self.ev(t.slice, fr))
            else:
                raise Unsupported('del')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.store_sub(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            it = self.iterate(v)
            if it is None:
                seq = self.as_seq(v)
                if any(isinstance(e, ast.Starred) for e in t.elts):
                    raise Unsupported('starred unpacking of symbolic sequence')
                if not self.ctx.branch(seq.n == len(t.elts)):
                    self.raise_py(ValueError('unpacking'))
                vals = [seq.at(z3.IntVal(i)) for i in range(len(t.elts))]
            else:
                vals = list(it)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                rest = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_py(ValueError('not enough values to unpack'))
                mid = vals[k:len(vals) - rest]
                parts = vals[:k] + [mid] + vals[len(vals) - rest:]
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vals) != len(t.elts):
                self.raise_py(ValueError('wrong number of values to unpack'))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def st_Raise(self, n, fr):
        if n.exc is None:
            f = fr
            while f is not None:
                if f.exc:
                    raise f.exc[-1]
                f = f.parent
            for g in reversed(self.stack):
                if g.exc:
                    raise g.exc[-1]
            self.raise_py(RuntimeError('No active exception to reraise'))
        e = self.ev(n.exc, fr)
        if n.cause is not None:
            self.ev(n.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [])
        if not isinstance(e, BaseException):
            if isinstance(e, Sym):
                raise Unsupported('raise of symbolic value')
            self.raise_py(TypeError('exceptions must derive from BaseException'))
        raise mark(e)

    def st_Try(self, n, fr):
        def body():
            try:
                self.block(n.body, fr)
            except Signal:
                raise
            except RecursionError:
                raise Unsupported('recursion limit')
            except BaseException as e:
                if not marked(e):
                    raise EngineError('internal: %s: %s' % (type(e).__name__, e)) from e
                for h in n.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = isinstance(e, t)
                    if ok:
                        fr.exc.append(e)
                        try:
                            if h.name:
                                self.store_name(h.name, e, fr)
                            self.block(h.body, fr)
                        finally:
                            fr.exc.pop()
                            if h.name:
                                fr.locals.pop(h.name, None)
                        return
                raise
            else:
                self.block(n.orelse, fr)
        if not n.finalbody:
            body()
            return
        try:
            body()
        except (PathKill, Unsupported):
            raise
        except BaseException as e:
            if isinstance(e, Signal) and not isinstance(e, (ReturnSig, BreakSig, ContinueSig)):
                raise
            self.block(n.finalbody, fr)
            raise
        else:
            self.block(n.finalbody, fr)

    def st_With(self, n, fr):
        def rec(k):
            if k == len(n.items):
                self.block(n.body, fr)
                return
            item = n.items[k]
            cm = self.ev(item.context_expr, fr)
            v = self.call(self.load_attr(cm, '__enter__'), [])
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
            try:
                rec(k + 1)
            except (PathKill, Unsupported):
                raise
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(self.load_attr(cm, '__exit__'), [None, None, None])
                raise
            except Signal:
                raise
            except BaseException as e:
                if not marked(e):
                    raise
                if self.truth(self.call(self.load_attr(cm, '__exit__'), [type(e), e, None])):
                    return
                raise
            else:
                self.call(self.load_attr(cm, '__exit__'), [None, None, None])
        rec(0)

    def st_While(self, n, fr):
        if self.loop_hook is not None:
            if self.loop_hook(self, n, fr, None) is not NOTHANDLED:
                return
        count = 0
        while True:
            lv = self.ctx.levels[-1] if self.ctx.levels else None
            p0 = lv.pos if lv else 0
            t = self.truth(self.ev(n.test, fr))
            if not t:
                self.block(n.orelse, fr)
                return
            try:
                self.block(n.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                pass
            if lv is not None and lv.pos > p0:
                count += 1
                if count > self.while_cap_sym:
                    raise Unsupported('unbounded loop in %s' % fr.name)
            else:
                count += 0.01
                if count > 3000:
                    raise Unsupported('loop in %s does not terminate' % fr.name)
    while_cap_sym = 40

    def st_For(self, n, fr):
        v = self.ev(n.iter, fr)
        it = self.iterate(v)
        if it is None:
            from . import loops
            if self.loop_hook is not None:
                if self.loop_hook(self, n, fr, v) is not NOTHANDLED:
                    return
            if isinstance(v, (list, tuple)) and len(v) > 1:
                # piece by piece: concrete elements one by one, symbolic runs by the loop rules
                for x in list(v):
                    if type(x) is Seg:
                        r = loops.for_symbolic(self, n, fr, [x], orelse=False)
                        if r == 'break':
                            return
                        continue
                    self.assign(n.target, x, fr)
                    try:
                        self.block(n.body, fr)
                    except BreakSig:
                        return
                    except ContinueSig:
                        continue
                self.block(n.orelse, fr)
                return
            loops.for_symbolic(self, n, fr, v)
            return
        for x in it:
            self.assign(n.target, x, fr)
            try:
                self.block(n.body, fr)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.block(n.orelse, fr)

    def st_Match(self, n, fr):
        subj = self.ev(n.subject, fr)
        for c in n.cases:
            if self.match(c.pattern, subj, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                self.block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(p.name, v, fr)
            return True
        if isinstance(p, ast.MatchClass):
            from . import models
            if not self.truth(models.isinstance_(self, v, self.ev(p.cls, fr))):
                return False
            if p.patterns:
                raise Unsupported('positional class pattern')
            return all(self.match(q, self.load_attr(v, a), fr) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)) or has_seg(v):
                if isinstance(v, Sym):
                    raise Unsupported('sequence pattern')
                return False
            if len(v) != len(p.patterns) or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                    raise Unsupported('star pattern')
                return False
            return all(self.match(q, x, fr) for q, x in zip(p.patterns, v))
        raise Unsupported('match pattern')


def local_names(node):
    out = set()

    def walk(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            walk(c, False)
    walk(node, True)
    return out
