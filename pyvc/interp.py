"""Symbolic interpreter of Python syntax trees (the real functions of the package under verification)."""
from __future__ import annotations

import ast
import builtins
import collections
import enum
import functools
import inspect
import itertools
import logging
import operator
import re
import struct
import types

import z3

from .sym import *
from . import charset
from .vc import VC, PathEnd, Restart, MBA

_FILES: dict = {}
MISSING = object()


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


CTRL = (_Return, _Break, _Continue)


def file_index(fn):
    if fn not in _FILES:
        with open(fn, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        idx: dict = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = min([n.lineno] + [d.lineno for d in getattr(n, 'decorator_list', [])])
                idx.setdefault((ln, getattr(n, 'name', '<lambda>')), []).append(n)
        _FILES[fn] = idx
    return _FILES[fn]


def fn_node(fn):
    c = fn.__code__
    try:
        ns = file_index(c.co_filename).get((c.co_firstlineno, c.co_name), [])
    except (OSError, SyntaxError) as e:
        raise Unsupported(f"no source of {fn.__qualname__}: {e}")
    if len(ns) > 1:                      # several lambdas on a line: the innermost one whose body covers the code
        pos = [p for p in c.co_positions() if None not in p and (p[1], p[3]) > (p[0], p[2])]

        def covers(n):
            x = n.body if isinstance(n, ast.Lambda) else n
            return all((x.lineno, x.col_offset) <= (p[0], p[2]) and (p[1], p[3]) <= (x.end_lineno, x.end_col_offset) for p in pos)
        cov = [n for n in ns if covers(n)]
        ns = [n for n in cov if not any(m is not n and any(q is m for q in ast.walk(n)) for m in cov)]
    if len(ns) != 1:
        raise Unsupported(f"source of {fn.__qualname__} not identified")
    return ns[0]


def assigned_names(body):
    """Names bound in the statements (not in nested functions), minus global / nonlocal."""
    out, non = [], set()

    def target(t):
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                walk(g.iter)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None and False):
                target(n.target)
        elif isinstance(n, ast.For):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.append(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            non.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.append((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                target(t)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for s in body:
        walk(s)
    return list(dict.fromkeys(x for x in out if x not in non))


_INFO: dict = {}


def fn_info(node):
    k = id(node)
    if k not in _INFO:
        body = node.body if isinstance(node, ast.FunctionDef) else [ast.Return(node.body)]
        isgen = False
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                isgen = True
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                stack += list(ast.iter_child_nodes(n))
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        nonl = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    nonl.update(n.names)
        _INFO[k] = (body, isgen, set(names) | set(assigned_names(body)), node, {n: (ast.Global) for n in nonl})
    return _INFO[k]


class Frame:
    def __init__(self, name, glob, localnames, closure=None, parent=None, defcls=None, first=None):
        self.name, self.glob, self.localnames, self.closure, self.parent, self.defcls = name, glob, localnames, closure or {}, parent, defcls
        self.vars: dict = {}
        self.loop_n = 0
        self.exc = None
        self.first = first
        self.nonlocals = set()
        self.globals_ = set()


class IFunc:
    """A function defined by interpreted code (nested def / lambda)."""

    def __init__(self, node, frame, defaults, kwdefaults):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.__name__ = getattr(node, 'name', '<lambda>')
        self.attrs: dict = {}


class ICtx:
    def __init__(self, gen):
        self.gen = gen


class SuperObj:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SymSeq(Sym):
    """A sequence of unknown length; elem(vc, i) gives its i-th element. n: int or term."""

    def __init__(self, name, n, elem, kind=list, cat=None):
        self.name, self.n, self.elem, self.kind, self.cat = name, n, elem, kind, cat

    def __repr__(self):
        return f"<sequence {self.name}[{self.n}]>"


class Tail(Sym):
    """Inside a native list: stands for the elements of a symbolic sequence (made by the loop rule for list accumulators)."""

    def __init__(self, seq):
        self.seq = seq


def norm_seq(v):
    """A list with a symbolic tail -> SymSeq; anything else unchanged."""
    if isinstance(v, (list, tuple)) and any(isinstance(x, Tail) for x in v):
        parts, off = [], z3.IntVal(0)
        for x in v:
            n = iv(x.seq.n) if isinstance(x, Tail) else z3.IntVal(1)
            parts.append((off, n, x))
            off = z3.simplify(off + n)

        def elem(vc, i):
            for o, n, x in parts[:-1]:
                if vc.decide(i < o + n):
                    return x.seq.elem(vc, z3.simplify(i - o)) if isinstance(x, Tail) else x
            o, n, x = parts[-1]
            return x.seq.elem(vc, z3.simplify(i - o)) if isinstance(x, Tail) else x
        return SymSeq('list', off, elem, type(v))
    return v


class SymGen(Sym):
    """A generator known by its contract: more(vc) -> condition, next(vc) -> element (updates ghosts)."""

    def __init__(self, name, more, nxt, ghosts=(), inv=None):
        self.name, self.more, self.next, self.ghosts, self.inv = name, more, nxt, ghosts, inv


class SymMethod:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


def is_sym(v):
    return isinstance(v, (Sym, SymMethod))


def deep_sym(v, d=3):
    if isinstance(v, (Sym, SymMethod, IFunc, ICtx)):
        return True
    if d and isinstance(v, (list, tuple, set, frozenset)):
        return any(deep_sym(x, d - 1) for x in v)
    if d and isinstance(v, dict):
        return any(deep_sym(x, d - 1) for x in v.values()) or any(deep_sym(x, 1) for x in v)
    return False


def py_type(v):
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SReal):
        return float
    if isinstance(v, Rope):
        return {'bytes': bytes, 'bytearray': bytearray, 'str': str}[v.kind]
    if isinstance(v, MBA):
        return bytearray
    if isinstance(v, Opq):
        return v.typ
    if isinstance(v, SymSeq):
        return v.kind
    if isinstance(v, SymGen):
        return types.GeneratorType
    if isinstance(v, (IFunc, SymMethod)):
        return types.FunctionType
    if isinstance(v, Poison):
        raise Unsupported(f"use of {v.why}")
    return type(v)


NATIVE_CONTAINER = {list, dict, set, tuple, collections.defaultdict, collections.deque, types.MappingProxyType}
BASIC = {list, tuple, dict, set, frozenset, type(None), int, bool, float, str, bytes}
MUT = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', '__setitem__', '__delitem__'}


class Interp:
    def __init__(self, vc: VC, packages=('dliswriter', 'contracts')):
        self.vc = vc
        self.warnings, self.exact_enums = 0, False
        self.packages = packages
        self.models: dict = {}
        self.contracts: dict = {}
        self.stack: list = []
        self.opaque_str = 0
        self.lru: dict = {}             # results kept by functools.lru_cache
        from . import models
        models.install(self)

    # ================================================================== names
    def lookup(self, fr: Frame, name):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(f"variable {name}: {v.why}")
                return v
            if name in f.localnames and name not in f.globals_:
                raise PyRaise(UnboundLocalError(name))
            if name in f.closure:
                try:
                    return f.closure[name].cell_contents
                except ValueError:
                    raise PyRaise(NameError(name))
            last = f
            f = f.parent
        if name in last.glob:
            return last.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(name))

    def assign_name(self, fr, name, v):
        f = fr
        if name in fr.globals_:
            if self.vc.loopstack:
                raise Unsupported('assignment to a global in a loop')
            fr.glob[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.localnames:
                f = f.parent
            if f is None:
                raise Unsupported(f"nonlocal {name}")
            for ls in self.vc.loopstack:
                if ls.frame is not fr and ls.frame is not f or True:
                    if name not in ls.names and f is ls.frame:
                        raise Unsupported('nonlocal write in a loop')
        f.vars[name] = v

    # ================================================================== calls
    def in_package(self, fn):
        m = getattr(fn, '__module__', None) or ''
        return m.split('.')[0] in self.packages

    def call(self, fn, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(fn, IFunc):
            return self.run_function(fn.node, fn.frame.glob, args, kw, fn.defaults, fn.kwdefaults, parent=fn.frame,
                                     name=fn.__name__, defcls=fn.frame.defcls)
        if isinstance(fn, SymMethod):
            return self.sym_method(fn.obj, fn.name, args, kw)
        if isinstance(fn, Opq):
            if '__call__' in fn.methods:
                return fn.methods['__call__'](self, *args, **kw)
            raise PyRaise(TypeError('not callable'))
        if is_sym(fn):
            raise PyRaise(TypeError('not callable'))
        try:
            m = self.models.get(fn)
        except TypeError:
            m = None
        if m is not None:
            return m(self, *args, **kw)
        if isinstance(fn, types.MethodType):
            if isinstance(fn.__self__, logging.Logger):
                if fn.__name__ in ('warning', 'warn', 'error', 'exception', 'critical'):
                    self.warnings += 1
                return None
            return self.call(fn.__func__, [fn.__self__] + args, kw)
        if isinstance(fn, types.BuiltinMethodType) and not isinstance(fn.__self__, (types.ModuleType, type, type(None))):
            from . import models
            r = models.builtin_method(self, fn, args, kw)
            if r is not NotImplemented:
                return r
            return self.native(fn, args, kw)
        if isinstance(fn, types.MethodWrapperType) and fn.__name__ == '__setattr__' and getattr(fn, '__objclass__', None) is object and len(args) == 2:
            return self.raw_setattr(fn.__self__, args[0], args[1])
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + args, {**fn.keywords, **kw})
        if isinstance(fn, functools._lru_cache_wrapper):
            return self.lru_call(fn, args, kw)
        if isinstance(fn, types.FunctionType):
            c = self.contracts.get(fn.__code__)
            if c is not None:
                args, kw = positional(fn, args, kw)
                return c(self, *args, **kw)
            w = getattr(fn, '__wrapped__', None)
            if w is not None and fn.__module__ and fn.__code__.co_filename.endswith('contextlib.py'):
                return ICtx(self.call(w, args, kw))
            if self.in_package(fn) and '/dliswriter/' in fn.__code__.co_filename or fn.__module__.split('.')[0] == 'contracts':
                return self.run_real(fn, args, kw)
            if w is not None and self.in_package(w):
                return self.run_real(fn, args, kw)
            return self.native(fn, args, kw)
        if isinstance(fn, type):
            return self.construct(fn, args, kw)
        call = type(fn).__dict__.get('__call__') if type(fn).__module__.split('.')[0] in self.packages else None
        if isinstance(call, types.FunctionType):
            return self.call(call, [fn] + args, kw)
        return self.native(fn, args, kw)

    def same_key(self, x, y):
        """May a result kept for x be returned for y?  (Of the same type and equal, but not known to be: the function gives the same.)"""
        if x is y:
            return True
        if (is_sym(x) or is_sym(y)) and not isinstance(x, Opq) and not isinstance(y, Opq) and py_type(x) is py_type(y):
            return self.vc.simp_equal(x, y)
        return self.truth(self.equal(x, y))

    def lru_call(self, fn, args, kw):
        """functools.lru_cache: a call with arguments equal to earlier ones returns what that call returned (evictions are
        ignored: they give what a process without history gives)."""
        self.vc.trusted.add('functools.lru_cache: earlier results are returned for equal arguments; transparent within loops of unknown length')
        if self.vc.loopstack:
            return self.call(fn.__wrapped__, args, kw)
        typed = fn.cache_parameters().get('typed') if hasattr(fn, 'cache_parameters') else False
        earlier = self.lru.setdefault(id(fn), [])
        for x in list(args) + list(kw.values()):
            if isinstance(x, (list, dict, set, bytearray)):
                raise PyRaise(TypeError(f"unhashable type: '{type(x).__name__}'"))
        for a, k, r in reversed(earlier[-60:]):
            if len(a) != len(args) or list(k) != list(kw):
                continue
            if typed and any(py_type(x) is not py_type(y) for x, y in zip(list(a) + list(k.values()), list(args) + list(kw.values()))):
                continue
            if all(self.same_key(x, y) for x, y in zip(list(a) + list(k.values()), list(args) + list(kw.values()))):
                return r
        r = self.call(fn.__wrapped__, args, kw)
        earlier.append((args, dict(kw), r))
        return r

    def run_real(self, fn, args, kw):
        node = fn_node(fn)
        self.vc.functions.add(f"{fn.__module__}.{fn.__qualname__}")
        cl = dict(zip(fn.__code__.co_freevars, fn.__closure__ or ()))
        defcls = cl['__class__'].cell_contents if '__class__' in cl else None
        return self.run_function(node, fn.__globals__, args, kw, fn.__defaults__ or (), fn.__kwdefaults__ or {}, closure=cl,
                                 name=fn.__qualname__, defcls=defcls)

    def run_function(self, node, glob, args, kw, defaults, kwdefaults, closure=None, parent=None, name='', defcls=None):
        body, isgen, localnames, _, nonl = fn_info(node)
        fr = Frame(name, glob, localnames, closure, parent, defcls)
        for s in body:
            for n in ([s] if isinstance(s, (ast.Global, ast.Nonlocal)) else []):
                (fr.globals_ if isinstance(n, ast.Global) else fr.nonlocals).update(n.names)
        a = node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        if len(args) > len(pos) and not a.vararg:
            raise PyRaise(TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given"))
        vals = dict(zip(names, args))
        if a.vararg:
            fr.vars[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwnames = {x.arg for x in a.args} | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in kwnames:
                if k in vals:
                    raise PyRaise(TypeError(f"{name}() got multiple values for argument '{k}'"))
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(TypeError(f"{name}() got an unexpected keyword argument '{k}'"))
        if a.kwarg:
            self.vc.label(extra)
            fr.vars[a.kwarg.arg] = extra
        for x, d in zip(reversed(names), reversed(list(defaults))):
            vals.setdefault(x, d)
        for x in a.kwonlyargs:
            if x.arg not in vals and x.arg in kwdefaults:
                vals[x.arg] = kwdefaults[x.arg]
        miss = [x for x in names + [y.arg for y in a.kwonlyargs] if x not in vals]
        if miss:
            raise PyRaise(TypeError(f"{name}() missing required argument(s): {miss}"))
        fr.vars.update(vals)
        fr.first = fr.vars.get(names[0]) if names else None
        if isgen:
            return IGen(self, self.gen_body(body, fr), name)
        if len(self.stack) > 60:
            raise Unsupported('recursion')
        self.stack.append(name)
        try:
            for _ in self.ex(body, fr):
                raise Unsupported('yield')
        except _Return as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    def gen_body(self, body, fr):
        try:
            yield from self.ex(body, fr)
        except _Return as r:
            return r.v

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException):
            try:
                return cls(*args, **{k: v for k, v in kw.items()})
            except Exception as e:
                raise PyRaise(e)
        mod = (cls.__module__ or '').split('.')[0]
        if issubclass(cls, enum.Enum) and len(args) == 1 and isinstance(args[0], Rope) and args[0].kind == 'str' and not kw:
            # membership of an unknown string: either way
            key = ('member', cls, self.rope_key(args[0]))
            if key not in self.vc.memo:
                self.vc.memo[key] = charset.one_of(self, args[0], [m.value for m in cls if isinstance(m.value, str)]) if self.exact_enums else z3.Bool(self.vc.fname('member'))
            if self.vc.decide(self.vc.memo[key]):
                return Opq(cls, 'member', {'value': args[0]})
            raise PyRaise(ValueError(f"not a valid {cls.__name__}"))
        if mod in self.packages and not any('Enum' in b.__name__ for b in cls.__mro__):
            c = self.contracts.get(('class', cls))
            if c is not None:
                args, kw = positional(cls.__init__, [None, *args], kw)
                args = args[1:]
                return c(self, *args, **kw)
            obj = cls.__new__(cls)
            self.vc.label(obj)
            init = inspect.getattr_static(cls, '__init__', None)
            for b in cls.__mro__:
                if '__init__' in b.__dict__:
                    init = b.__dict__['__init__']
                    break
            if isinstance(init, types.FunctionType):
                self.call(init, [obj] + list(args), kw)
            elif deep_sym(args) or deep_sym(kw):
                raise Unsupported(f"construct {cls.__name__}")
            elif b is not object:
                init(obj, *args, **kw)
            return obj
        return self.native(cls, args, kw)

    def native(self, fn, args, kw):
        if getattr(fn, '__objclass__', None) is collections.defaultdict or fn is collections.defaultdict:
            args = [self.native_callable(a) if isinstance(a, IFunc) else a for a in args]
        if deep_sym(args) or deep_sym(kw):
            slf = getattr(fn, '__self__', None)
            if not (slf is not None and type(slf) in NATIVE_CONTAINER):
                raise Unsupported(f"library call {getattr(fn, '__qualname__', fn)} with symbolic arguments")
        try:
            return fn(*args, **kw)
        except (Unsupported, PathEnd, Restart):
            raise
        except PyRaise:
            raise
        except Exception as e:
            raise PyRaise(e)

    def native_callable(self, f):
        return lambda *a, **k: self.call(f, list(a), k)

    # ================================================================== attributes
    def getattr(self, obj, name, default=MISSING):
        try:
            return self._getattr(obj, name)
        except PyRaise as e:
            if default is not MISSING and isinstance(e.exc, AttributeError):
                return default
            raise

    def _getattr(self, obj, name):
        if isinstance(obj, Opq):
            if name in obj.fields:
                v = obj.fields[name]
                return v(self) if isinstance(v, types.FunctionType) and getattr(v, '_lazy', False) else v
            if name in obj.methods:
                return SymMethod(obj, name)
            if isinstance(obj.typ, type):
                raw = inspect.getattr_static(obj.typ, name, MISSING)
                if isinstance(raw, property) and (obj.typ.__module__ or '').split('.')[0] in self.packages:
                    return self.call(raw.fget, [obj])
                if isinstance(raw, types.FunctionType) and (obj.typ.__module__ or '').split('.')[0] in self.packages:
                    return functools.partial(raw, obj)
                if raw is not MISSING and not callable(raw) and not isinstance(raw, (property, types.MemberDescriptorType, types.GetSetDescriptorType)) and (obj.typ.__module__ or '').split('.')[0] in self.packages:
                    return raw
            if obj.fields.get('__closed__') or obj.methods.get('__closed__'):
                raise PyRaise(AttributeError(name))
            raise Unsupported(f"attribute {name} of {obj}")
        if isinstance(obj, Sym):
            t = py_type(obj)
            if getattr(obj, 'numpy', False):                 # a scalar taken from an array
                if name == 'item':
                    return functools.partial(type(obj).__bases__[0], obj.t)
                if name in ('dtype', 'astype', 'ndim', 'shape'):
                    raise Unsupported(f"{name} of a numpy scalar")
            if not hasattr(t, name):
                raise PyRaise(AttributeError(f"'{t.__name__}' object has no attribute '{name}'"))
            return SymMethod(obj, name)
        if isinstance(obj, IFunc):
            if name in ('__name__', '__qualname__'):
                return obj.__name__
            if name in obj.attrs:
                return obj.attrs[name]
            raise PyRaise(AttributeError(name))
        if isinstance(obj, SuperObj):
            mro = (obj.obj if isinstance(obj.obj, type) else type(obj.obj)).__mro__
            for b in mro[mro.index(obj.cls) + 1:]:
                if name in b.__dict__:
                    raw = b.__dict__[name]
                    return self.bind(raw, obj.obj, b)
            raise PyRaise(AttributeError(name))
        if isinstance(obj, IGen):
            return functools.partial(getattr(obj, 'm_' + name))
        if isinstance(obj, type):
            for b in type(obj).__mro__:
                if name in b.__dict__ and isinstance(b.__dict__[name], property) and b.__module__.split('.')[0] in self.packages:
                    return self.call(b.__dict__[name].fget, [obj])
            try:
                for b in obj.__mro__:
                    if name in b.__dict__:
                        raw = b.__dict__[name]
                        if isinstance(raw, classmethod):
                            return types.MethodType(raw.__func__, obj)
                        if isinstance(raw, staticmethod):
                            return raw.__func__
                        if isinstance(raw, types.FunctionType):
                            return raw
                        break
                return getattr(obj, name)
            except AttributeError as e:
                raise PyRaise(e)
        if isinstance(obj, types.ModuleType):
            try:
                return getattr(obj, name)
            except AttributeError as e:
                raise PyRaise(e)
        t = type(obj)
        if t.__module__.split('.')[0] in self.packages:
            for b in t.__mro__:
                if name in b.__dict__:
                    raw = b.__dict__[name]
                    if isinstance(raw, property):
                        return self.call(raw.fget, [obj])
                    d = getattr(obj, '__dict__', {})
                    if name in d:
                        break
                    if isinstance(raw, functools.cached_property):
                        v = self.call(raw.func, [obj])
                        self.vc.on_write(obj, name)
                        d[raw.attrname] = v
                        return v
                    return self.bind(raw, obj, b)
        try:
            v = getattr(obj, name)
        except AttributeError as e:
            raise PyRaise(e)
        if isinstance(v, Poison):
            raise Unsupported(f"field {name}: {v.why}")
        return v

    def bind(self, raw, obj, owner):
        if isinstance(raw, types.FunctionType):
            return types.MethodType(raw, obj) if not isinstance(obj, Sym) else functools.partial(raw, obj)
        if isinstance(raw, classmethod):
            return types.MethodType(raw.__func__, obj if isinstance(obj, type) else type(obj))
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, property):
            return self.call(raw.fget, [obj])
        if hasattr(raw, '__get__'):
            return raw.__get__(None if isinstance(obj, type) else obj, obj if isinstance(obj, type) else type(obj))
        return raw

    def setattr(self, obj, name, v):
        if isinstance(obj, Opq):
            self.vc.on_write(obj, name)
            h = obj.methods.get('__setattr__')
            if h:
                return h(self, name, v)
            obj.fields[name] = v
            return
        if isinstance(obj, Sym):
            raise PyRaise(AttributeError(name))
        if isinstance(obj, IFunc):
            obj.attrs[name] = v
            return
        t = type(obj)
        if not isinstance(obj, type) and t.__module__.split('.')[0] in self.packages:
            for b in t.__mro__:
                sa = b.__dict__.get('__setattr__')
                if sa is not None:
                    if isinstance(sa, types.FunctionType):
                        return self.call(sa, [obj, name, v])
                    break
        return self.raw_setattr(obj, name, v)

    def raw_setattr(self, obj, name, v):
        t = type(obj)
        if not isinstance(obj, type):
            for b in t.__mro__:
                raw = b.__dict__.get(name)
                if isinstance(raw, property):
                    if raw.fset is None:
                        raise PyRaise(AttributeError(f"property '{name}' has no setter"))
                    if isinstance(raw.fset, types.FunctionType):
                        self.call(raw.fset, [obj, v])
                        return
        self.vc.on_write(obj, name)
        try:
            (object if not isinstance(obj, type) else type).__setattr__(obj, name, v)
        except AttributeError as e:
            raise PyRaise(e)

    # ================================================================== operators
    def truth(self, v):
        v = norm_seq(v)
        if isinstance(v, SBool):
            return self.vc.decide(v.t)
        if isinstance(v, SInt):
            return self.vc.decide(v.t != 0)
        if isinstance(v, SReal):
            return self.vc.decide(v.t != 0)
        if isinstance(v, Rope):
            return self.vc.decide(iv(v.n) > 0)
        if isinstance(v, MBA):
            return self.vc.decide(iv(v.rope.n) > 0)
        if isinstance(v, SymSeq):
            return self.vc.decide(iv(v.n) > 0)
        if isinstance(v, Opq):
            if '__bool__' in v.methods:
                return self.truth(v.methods['__bool__'](self))
            if '__len__' in v.methods:
                return self.truth(v.methods['__len__'](self))
            return True
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, (IFunc, ICtx, SymMethod, Sym)):
            return True
        t = type(v)
        if t.__module__.split('.')[0] in self.packages:
            for b in t.__mro__:
                for m in ('__bool__', '__len__'):
                    f = b.__dict__.get(m)
                    if isinstance(f, types.FunctionType):
                        return self.truth(self.call(f, [v]))
        try:
            return bool(v)
        except Exception as e:
            raise PyRaise(e)

    def as_num(self, v):
        """('i'|'r', term) or None"""
        if isinstance(v, SInt):
            return 'i', v.t
        if isinstance(v, SBool):
            return 'i', z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, SReal):
            return 'r', v.t
        if isinstance(v, bool):
            return 'i', z3.IntVal(int(v))
        if isinstance(v, int):
            return 'i', z3.IntVal(int(v))
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return None
            from fractions import Fraction
            fr = Fraction(v)
            return 'r', z3.RealVal(f"{fr.numerator}/{fr.denominator}")
        return None

    def binop(self, op, a, b):
        sa, sb = is_sym(a), is_sym(b)
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poison operand')
        if not sa and not sb:
            return self.native_binop(op, a, b)
        if isinstance(a, Opq) and op in a.methods:
            return a.methods[op](self, b)
        if isinstance(b, Opq) and 'r' + op in b.methods:
            return b.methods['r' + op](self, a)
        # sequences
        if isinstance(a, MBA):
            a = a.rope
        if isinstance(b, MBA):
            b = b.rope
        seqa = isinstance(a, (Rope, bytes, bytearray, str))
        seqb = isinstance(b, (Rope, bytes, bytearray, str))
        if seqa or seqb:
            if op == 'Add':
                if seqa and seqb and (py_type(a) is str) == (py_type(b) is str):
                    return concat({str: 'str', bytes: 'bytes', bytearray: 'bytearray'}[py_type(a)], a, b)
                raise PyRaise(TypeError('cannot concatenate'))
            if op == 'Mult':
                s, n = (a, b) if seqa else (b, a)
                nn = self.as_num(n)
                if nn is None or nn[0] != 'i':
                    raise PyRaise(TypeError("can't multiply sequence by non-int"))
                return self.rope_repeat(rope(s), nn[1])
            if op == 'Mod' and py_type(a) is str:
                return self.opaque_text()
            raise PyRaise(TypeError(f"bad operand types for {op}"))
        x, y = self.as_num(a), self.as_num(b)
        if x is None or y is None:
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                if op == 'Mult':
                    l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
                    k = self.concretize(n)
                    return l * k
            if isinstance(a, (Opq, SymSeq, SymGen)) or isinstance(b, (Opq, SymSeq, SymGen)) or isinstance(a, float) or isinstance(b, float):
                raise Unsupported(f"operator {op} on {a!r}, {b!r}")
            raise PyRaise(TypeError(f"unsupported operand types for {op}: {py_type(a).__name__}, {py_type(b).__name__}"))
        real = x[0] == 'r' or y[0] == 'r'
        p, q = x[1], y[1]
        if real:
            p, q = (z3.ToReal(p) if x[0] == 'i' else p), (z3.ToReal(q) if y[0] == 'i' else q)
        mk = (lambda t: SReal(z3.simplify(t))) if real else (lambda t: SInt(z3.simplify(t)))
        if op == 'Add':
            return mk(p + q)
        if op == 'Sub':
            return mk(p - q)
        if op == 'Mult':
            return mk(p * q)
        if op == 'Div':
            if self.vc.decide(q == 0):
                raise PyRaise(ZeroDivisionError())
            p, q = (p if real else z3.ToReal(p)), (q if real else z3.ToReal(q))
            self.vc.trusted.add('float arithmetic treated as exact')
            return SReal(z3.simplify(p / q))
        if op in ('FloorDiv', 'Mod'):
            if self.vc.decide(q == 0):
                raise PyRaise(ZeroDivisionError())
            if real:
                if op == 'Mod' and z3.is_rational_value(z3.simplify(q)) and z3.simplify(q).as_fraction() == 1:
                    return SReal(p - z3.ToReal(z3.ToInt(p)))
                raise Unsupported('real division')
            if self.vc.valid(q > 0):
                return SInt(z3.simplify(p / q if op == 'FloorDiv' else p % q))
            # python floors; z3 division is Euclidean
            d, m = -((-p) / q) if False else None, None
            raise Unsupported('division by a possibly negative number')
        if op == 'Pow' and z3.is_int_value(z3.simplify(q)) and 0 <= z3.simplify(q).as_long() <= 4:
            r = z3.IntVal(1)
            for _ in range(z3.simplify(q).as_long()):
                r = r * p
            return mk(r)
        if op in ('LShift', 'RShift') and z3.is_int_value(z3.simplify(q)):
            k = 2 ** z3.simplify(q).as_long()
            return mk(p * k if op == 'LShift' else p / k)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
                f = {'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op]
                return SBool(f(self.bterm(a), self.bterm(b)))
            if op == 'BitAnd':
                for u, w in ((p, q), (q, p)):
                    w = z3.simplify(w)
                    if z3.is_int_value(w) and (w.as_long() + 1) & w.as_long() == 0 and w.as_long() >= 0 and self.vc.valid(u >= 0):
                        return mk(u % (w.as_long() + 1))
            for u, w in ((p, q), (q, p)):
                w = z3.simplify(w)
                if op != 'BitAnd' and z3.is_int_value(w) and w.as_long() > 0:
                    low = w.as_long() & -w.as_long()        # no common bits: a sum
                    if self.vc.valid(z3.And(u >= 0, u < low)):
                        return mk(u + w)
            if self.vc.valid(z3.And(p >= 0, p < 2 ** 32, q >= 0, q < 2 ** 32)):
                f = {'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor}[op]
                return mk(z3.BV2Int(f(z3.Int2BV(p, 32), z3.Int2BV(q, 32))))
        raise Unsupported(f"operator {op}")

    def bterm(self, v):
        return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))

    OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
           'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift, 'RShift': operator.rshift, 'BitAnd': operator.and_,
           'BitOr': operator.or_, 'BitXor': operator.xor, 'MatMult': operator.matmul}

    def native_binop(self, op, a, b):
        if op == 'Mod' and isinstance(a, str) and deep_sym(b):
            return self.opaque_text()
        if type(a).__module__.split('.')[0] in self.packages and not isinstance(a, (int, str)):
            raise Unsupported(f"operator on {type(a).__name__}")
        try:
            r = self.OPS[op](a, b)
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as e:
            raise PyRaise(e)
        if isinstance(r, (list, dict, set)):
            self.vc.label(r)
        return r

    def rope_repeat(self, s, n):
        n = z3.simplify(n)
        if z3.is_int_value(n):
            k = max(0, n.as_long())
            if len(s.pieces) == 1 and isinstance(s.pieces[0], Lit) and s.pieces[0].n * k <= 4096:
                return Rope(s.kind, [Lit(s.pieces[0].items * k)])
            if k <= 8:
                return concat(s.kind, *([s] * k)) if k else Rope(s.kind, [])
        if len(s.pieces) == 1 and isinstance(s.pieces[0], Lit) and s.pieces[0].n == 1:
            m = n if self.vc.valid(n >= 0) else z3.simplify(z3.If(n > 0, n, 0))
            return Rope(s.kind, [Rep(s.pieces[0].items[0], m)])
        if not s.pieces:
            return s
        raise Unsupported('repetition of a sequence')

    def concretize(self, v, limit=300):
        """Enumerate the (provably few) values of an integer: one path each."""
        if not is_sym(v):
            return v
        k, t = self.as_num(v)
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        for _ in range(limit):
            # pick a feasible value deterministically through the trace
            if self.vc.pos < len(self.vc.trace):
                val = self.vc.trace[self.vc.pos]
                self.vc.pos += 1
            else:
                r, m = self.vc.check(z3.BoolVal(True))
                if r != z3.sat:
                    raise PathEnd() if r == z3.unsat else Unsupported('concretize')
                val = m.eval(t, model_completion=True).as_long()
                self.vc.trace.append(val)
                self.vc.pos += 1
            if self.vc.decide(t == val):
                return val
        raise Unsupported('too many values')

    def opaque_text(self):
        r = self.vc.str(f"text", inp=False)
        return r

    # ------------------------------------------------------------------ comparisons
    def compare(self, op, a, b):
        """-> python bool or SBool"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('poison operand')
        if op == 'Is' or op == 'IsNot':
            r = self.identical(a, b)
            return r if op == 'Is' else self.neg(r)
        if op == 'In' or op == 'NotIn':
            r = self.contains(b, a)
            return r if op == 'In' else self.neg(r)
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            return r if op == 'Eq' else self.neg(r)
        if not is_sym(a) and not is_sym(b):
            if deep_sym(a) or deep_sym(b):
                raise Unsupported('ordering of containers')
            try:
                return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
            except Exception as e:
                raise PyRaise(e)
        if isinstance(a, Opq) and op in a.methods:
            return a.methods[op](self, b)
        if isinstance(b, Opq):
            inv = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}[op]
            if inv in b.methods:
                return b.methods[inv](self, a)
        x, y = self.as_num(a), self.as_num(b)
        if x is None or y is None:
            if isinstance(a, (Opq, Rope)) or isinstance(b, (Opq, Rope)) or isinstance(a, float) or isinstance(b, float):
                if type(py_type(a)) is type and py_type(a) in (int, float, str, bytes, bool) and py_type(b) in (int, float, str, bytes, bool) \
                        and (py_type(a) in (str, bytes)) != (py_type(b) in (str, bytes)):
                    raise PyRaise(TypeError('unorderable types'))
                raise Unsupported(f"ordering of {a!r}, {b!r}")
            raise PyRaise(TypeError(f"'{op}' not supported between {py_type(a).__name__} and {py_type(b).__name__}"))
        p, q = x[1], y[1]
        if x[0] != y[0]:
            p, q = (z3.ToReal(p) if x[0] == 'i' else p), (z3.ToReal(q) if y[0] == 'i' else q)
        t = z3.simplify({'Lt': p < q, 'LtE': p <= q, 'Gt': p > q, 'GtE': p >= q}[op])
        return SBool(t)

    def neg(self, r):
        if isinstance(r, Opq) and 'Invert' in r.methods:
            return r.methods['Invert'](self)
        return SBool(z3.Not(r.t)) if isinstance(r, SBool) else not r

    def identical(self, a, b):
        if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
            s, c = (a, b) if isinstance(a, SBool) else (b, a)
            return SBool(s.t == c)
        if a is b:
            return True
        if isinstance(a, Opq) and isinstance(b, Opq) and a.term is not None and b.term is not None:
            return SBool(a.term == b.term)
        if is_sym(a) and is_sym(b) and not isinstance(a, Opq) and py_type(a) is py_type(b):
            raise Unsupported('identity of symbolic values')
        return False

    def equal(self, a, b):
        if a is b and not isinstance(a, (float, Opq)):
            return True
        if isinstance(a, Opq) and 'Eq' in a.methods:
            return a.methods['Eq'](self, b)
        if isinstance(b, Opq) and 'Eq' in b.methods:
            return b.methods['Eq'](self, a)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if a is b:
                return True
            if isinstance(a, Opq) and isinstance(b, Opq) and a.term is not None and b.term is not None:
                return SBool(a.term == b.term)
            if a is None or b is None:
                return False
            raise Unsupported(f"equality of {a!r}, {b!r}")
        if isinstance(a, MBA):
            a = a.rope
        if isinstance(b, MBA):
            b = b.rope
        if not is_sym(a) and not is_sym(b):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and type(a) is type(b) and (deep_sym(a) or deep_sym(b)):
                if len(a) != len(b):
                    return False
                acc = []
                for x, y in zip(a, b):
                    r = self.equal(x, y)
                    if r is False:
                        return False
                    if isinstance(r, SBool):
                        acc.append(r.t)
                return SBool(z3.And(*acc)) if acc else True
            if type(a) in BASIC and type(b) in BASIC and type(a) is not type(b) and {type(a), type(b)} not in ({set, frozenset}, {int, bool}, {int, float}, {float, bool}):
                return False
            if deep_sym(a) or deep_sym(b):
                raise Unsupported('equality of containers')
            for u, w in ((a, b), (b, a)):
                t = type(u)
                if t.__module__.split('.')[0] in self.packages:
                    f = inspect.getattr_static(t, '__eq__', None)
                    if isinstance(f, types.FunctionType) and self.in_package(f):
                        r = self.call(f, [u, w])
                        return r
            try:
                return a == b
            except Exception as e:
                raise PyRaise(e)
        ra, rb = isinstance(a, (Rope, str, bytes, bytearray)), isinstance(b, (Rope, str, bytes, bytearray))
        if ra and rb:
            if (py_type(a) is str) != (py_type(b) is str):
                return False
            x, y = rope(a), rope(b)
            if self.vc._same(x, y):
                return True
            for u, w in ((x, y), (y, x)):
                if isinstance(w.n, int) and w.n <= 300 and (w.n == 0 or all(isinstance(p, Lit) for p in w.pieces)):
                    if not self.vc.decide(iv(u.n) == w.n):
                        return False
                    return SBool(z3.simplify(z3.And(True, *[iv(u.get(self.vc, k)) == iv(w.get(self.vc, k)) for k in range(w.n)])))
            return SBool(self.rope_eq_atom(x, y))
        if ra or rb:
            return False
        x, y = self.as_num(a), self.as_num(b)
        if x is not None and y is not None:
            p, q = x[1], y[1]
            if x[0] != y[0]:
                p, q = (z3.ToReal(p) if x[0] == 'i' else p), (z3.ToReal(q) if y[0] == 'i' else q)
            return SBool(z3.simplify(p == q))
        if isinstance(a, (SymSeq, SymGen)) or isinstance(b, (SymSeq, SymGen)) or isinstance(a, (SymMethod,)) or isinstance(b, SymMethod):
            raise Unsupported('equality of symbolic sequences')
        return False

    def rope_eq_atom(self, x, y):
        """An uninterpreted truth value for the equality of two unknown sequences (symmetric, memoised)."""
        kx, ky = self.rope_key(x), self.rope_key(y)
        key = ('eq',) + tuple(sorted([kx, ky]))
        if key not in self.vc.memo:
            t = self.rope_id(x, kx) == self.rope_id(y, ky)
            self.vc.add(z3.Implies(t, iv(x.n) == iv(y.n)))
            self.vc.memo[key] = t
        return self.vc.memo[key]

    def rope_id(self, r, key):
        """A number which is the same for equal sequences only (of known sequences: a constant)."""
        ids = self.vc.memo.setdefault(('rope ids',), {})
        if key not in ids:
            known = all(isinstance(p, Lit) for p in r.pieces) and all(isinstance(i, int) or z3.is_int_value(z3.simplify(iv(i))) for p in r.pieces for i in p.items)
            ids[key] = z3.IntVal(-1 - len(ids)) if known else z3.Int(self.vc.fname('id'))
        return ids[key]

    def rope_key(self, r):
        out = []
        for p in r.pieces:
            if isinstance(p, Lit):
                out.append('L' + ','.join(str(z3.simplify(iv(i))) for i in p.items))
            elif isinstance(p, Base):
                out.append(f"B{p.name}:{z3.simplify(iv(p.off))}:{z3.simplify(iv(p.n))}")
            elif isinstance(p, Rep):
                out.append(f"R{p.b}:{p.n}")
            else:
                out.append(f"S{id(p)}")
        return '|'.join(out)

    def contains(self, c, x):
        c = norm_seq(c)
        if isinstance(c, SymSet):
            c = list(c.items)
        if isinstance(c, Opq) and '__contains__' in c.methods:
            return c.methods['__contains__'](self, x)
        if isinstance(c, Rope) or is_sym(x) and isinstance(c, (str, bytes)):
            if isinstance(x, (str, Rope)):
                key = ('in', self.rope_key(rope(c)), self.rope_key(rope(x)))
                if key not in self.vc.memo:
                    self.vc.memo[key] = z3.Bool(self.vc.fname('in'))
                return SBool(self.vc.memo[key])
            raise Unsupported('containment')
        if isinstance(c, (list, tuple, set, frozenset)) or isinstance(c, (dict, types.MappingProxyType, type({}.keys()), type({}.values()))):
            if not deep_sym(list(c)) and not is_sym(x) and not deep_sym(x):
                if all(type(y).__module__.split('.')[0] not in self.packages or isinstance(y, (int, str, type)) for y in [x, *c]):
                    try:
                        return x in c
                    except Exception as e:
                        raise PyRaise(e)
            if isinstance(c, (dict, set, frozenset)) and not deep_sym(x) and not any(is_sym(k) for k in c):
                try:
                    return x in c
                except Exception as e:
                    raise PyRaise(e)
            acc = []
            for y in list(c):
                y = unbox(y)
                r = True if y is x else self.equal(y, x)
                if r is True:
                    return True
                if isinstance(r, SBool):
                    acc.append(r.t)
            return SBool(z3.Or(*acc)) if acc else False
        if is_sym(c):
            raise Unsupported('containment')
        f = inspect.getattr_static(type(c), '__contains__', None)
        if isinstance(f, types.FunctionType) and self.in_package(f):
            return self.truth(self.call(f, [c, x]))
        if isinstance(c, (IGen,)):
            raise Unsupported('containment in a generator')
        try:
            return x in c
        except Exception as e:
            raise PyRaise(e)

    # ================================================================== subscripts
    def clamp(self, t, n, default):
        """Python slice index -> term in 0..n"""
        if t is None:
            return default
        x = self.as_num(t)
        if x is None or x[0] != 'i':
            raise PyRaise(TypeError('slice indices must be integers'))
        t = z3.simplify(x[1])
        if z3.is_int_value(t) and isinstance(n, int):
            v = t.as_long()
            v = v + n if v < 0 else v
            return max(0, min(v, n))
        n = iv(n)
        if not self.vc.valid(t >= 0):
            t = z3.If(t < 0, z3.If(t + n < 0, 0, t + n), t)
        if not self.vc.valid(t <= n):
            t = z3.If(t > n, n, t)
        return z3.simplify(t)

    def rope_slice(self, r, lo, hi):
        n = r.n
        a, b = self.clamp(lo, n, 0), self.clamp(hi, n, n)
        kind = r.kind
        if isinstance(a, int) and isinstance(b, int) and b <= a:
            return Rope(kind, [])
        if not (isinstance(a, int) and isinstance(b, int)) and not self.vc.valid(iv(a) <= iv(b)):
            b = z3.simplify(z3.If(iv(a) <= iv(b), iv(b), iv(a)))
        out = []
        off = 0
        for p in r.pieces:
            L = p.n
            a1, b1 = a - off, b - off            # relative
            off = off + L
            if isinstance(a1, int) and isinstance(b1, int) and isinstance(L, int):
                s, e = max(0, min(a1, L)), max(0, min(b1, L))
            else:
                s = self._cl(a1, L)
                e = self._cl(b1, L)
            if isinstance(s, int) and isinstance(e, int):
                if e <= s:
                    continue
                if isinstance(p, Lit):
                    out.append(Lit(p.items[s:e]))
                    continue
            ln = e - s
            ln = z3.simplify(ln) if not isinstance(ln, int) else ln
            if z3.is_expr(ln) and z3.is_int_value(ln):
                ln = ln.as_long()
                if ln <= 0:
                    continue
            if isinstance(p, Base):
                o = z3.simplify(iv(p.off) + iv(s))
                out.append(Base(p.f, o, ln, p.name, p.chars, p.asc))
            elif isinstance(p, Rep):
                out.append(Rep(p.b, ln))
            elif isinstance(p, Lit) and len(p.items) == 1 and False:
                out.append(Rep(p.items[0], ln))
            else:
                out.append(Sub(p, s, ln))
        return concat(kind, Rope(kind, out))

    def _cl(self, x, L):
        """min(max(x,0),L), simplified with the path condition"""
        x = z3.simplify(iv(x))
        if self.vc.valid(x <= 0):
            return 0
        if self.vc.valid(x >= iv(L)):
            return L
        if not self.vc.valid(x >= 0):
            x = z3.If(x < 0, 0, x)
        if not self.vc.valid(x <= iv(L)):
            x = z3.If(x > iv(L), iv(L), x)
        return z3.simplify(x)

    def subscript(self, o, k):
        o = norm_seq(o)
        if isinstance(o, MBA):
            o = o.rope if not isinstance(k, slice) else Rope('bytearray', o.rope.pieces)
        if isinstance(o, Opq):
            h = o.methods.get('__getitem__')
            if h:
                return h(self, k)
            f = inspect.getattr_static(o.typ, '__getitem__', None) if isinstance(o.typ, type) else None
            if isinstance(f, types.FunctionType) and self.in_package(f):
                return self.call(f, [o, k])
            raise Unsupported(f"subscript of {o}")
        if isinstance(o, SymSeq):
            if isinstance(k, slice):
                return self.seq_slice(o, k)
            x = self.as_num(k)
            if x is None:
                raise PyRaise(TypeError('index'))
            i = x[1]
            if not self.vc.decide(z3.And(i < iv(o.n), i >= -iv(o.n))):
                raise PyRaise(IndexError())
            if not self.vc.valid(i >= 0):
                i = z3.If(i < 0, i + iv(o.n), i)
            return o.elem(self.vc, z3.simplify(i))
        if isinstance(o, Rope) or isinstance(o, (str, bytes, bytearray)) and (is_sym(k) or isinstance(k, slice) and deep_sym((k.start, k.stop, k.step))):
            r = rope(o)
            if isinstance(k, slice):
                if k.step is not None and not (isinstance(k.step, int) and k.step == 1):
                    raise Unsupported('slice step')
                return self.rope_slice(r, k.start, k.stop)
            x = self.as_num(k)
            if x is None:
                raise PyRaise(TypeError('index'))
            i = x[1]
            if not self.vc.decide(z3.And(i < iv(r.n), i >= -iv(r.n))):
                raise PyRaise(IndexError())
            if not self.vc.valid(i >= 0):
                i = z3.If(i < 0, i + iv(r.n), i)
            i = z3.simplify(i)
            t = r.get(self.vc, i.as_long() if z3.is_int_value(i) else i)
            if r.kind == 'str':
                return Rope('str', [Lit([t])])
            return t if isinstance(t, int) else SInt(t)
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                k = slice(self.concretize(k.start), self.concretize(k.stop), self.concretize(k.step))
                r = o[k]
                if isinstance(r, list):
                    self.vc.label(r)
                return r
            if is_sym(k):
                x = self.as_num(k)
                if x is None:
                    raise PyRaise(TypeError('index'))
                if not self.vc.decide(z3.And(x[1] < len(o), x[1] >= -len(o))):
                    raise PyRaise(IndexError())
                k = self.concretize(k)
        if isinstance(o, dict) and is_sym(k):
            for kk in o:
                if kk is k:
                    return o[kk]
            for kk in list(o):
                r = self.equal(kk, k)
                if self.truth(r):
                    return o[kk]
            raise PyRaise(KeyError('symbolic key'))
        if is_sym(k) and not isinstance(o, type):
            raise Unsupported(f"subscript of {type(o).__name__}")
        if isinstance(k, slice) and any(is_sym(x) for x in (k.start, k.stop, k.step)):
            k = slice(self.concretize(k.start), self.concretize(k.stop), self.concretize(k.step))
        t = type(o)
        if t.__module__.split('.')[0] in self.packages:
            f = inspect.getattr_static(t, '__getitem__', None)
            if isinstance(f, types.FunctionType) and self.in_package(f):
                return self.call(f, [o, k])
        try:
            if isinstance(o, collections.defaultdict) and k not in o:
                self.vc.on_write(o, '[]')
            r = o[k]
            if isinstance(r, (list, dict, set)):
                self.vc.label(r)
            return r
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as e:
            raise PyRaise(e)

    def seq_slice(self, o, k):
        step = 1 if k.step is None else k.step
        if step == -1 and k.start is None and k.stop is None:
            return SymSeq(o.name, o.n, lambda vc, i: o.elem(vc, z3.simplify(iv(o.n) - 1 - i)), o.kind)
        if step != 1 or isinstance(step, bool):
            raise Unsupported('slice step of a sequence of unknown length')
        a, b = self.clamp(k.start, o.n, 0), self.clamp(k.stop, o.n, o.n)
        if isinstance(a, int) and a == 0 and b is o.n:
            return SymSeq(o.name, o.n, o.elem, o.kind, o.cat)
        n = z3.simplify(iv(b) - iv(a))
        if not self.vc.valid(n >= 0):
            n = z3.simplify(z3.If(n < 0, 0, n))
        if z3.is_int_value(n):
            n = n.as_long()
            out = o.kind([o.elem(self.vc, z3.simplify(iv(a) + i)) for i in range(n)])
            if isinstance(out, list):
                self.vc.label(out)
            return out
        return SymSeq(o.name + '[:]', n, lambda vc, i: o.elem(vc, z3.simplify(iv(a) + i)), o.kind)

    def store(self, o, k, v):
        if isinstance(o, MBA):
            self.vc.on_write(o, 'rope')
            if isinstance(k, slice):
                if k.step is not None:
                    raise Unsupported('slice step')
                n = o.rope.n
                a, b = self.clamp(k.start, n, 0), self.clamp(k.stop, n, n)
                if not self.vc.valid(iv(a) <= iv(b)):
                    b = z3.simplify(z3.If(iv(a) <= iv(b), iv(b), iv(a)))
                if not isinstance(v, (Rope, bytes, bytearray, MBA)):
                    raise Unsupported('bytearray slice assignment')
                v = v.rope if isinstance(v, MBA) else rope(v)
                wrap = lambda t: t if isinstance(t, int) else SInt(t)
                o.rope = concat('bytearray', self.rope_slice(o.rope, 0, wrap(a)), v, self.rope_slice(o.rope, wrap(b), None))
                return
            raise Unsupported('bytearray item assignment')
        if isinstance(o, Opq):
            h = o.methods.get('__setitem__')
            if h:
                self.vc.on_write(getattr(o, 'root', o), '[]')
                return h(self, k, v)
            raise Unsupported(f"item assignment on {o}")
        if isinstance(o, Sym):
            raise PyRaise(TypeError('item assignment'))
        if isinstance(o, dict) and is_sym(k):
            raise Unsupported('symbolic dict key')
        if isinstance(o, list) and is_sym(k):
            k = self.concretize(k)
        self.vc.on_write(o, '[]')
        if norm_seq(o) is not o:
            raise Unsupported('item assignment in a list of unknown length')
        try:
            o[k] = v
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as e:
            raise PyRaise(e)

    # ================================================================== iteration
    def iterate(self, v):
        """Python iterator over a value of known length; None when the loop rule is needed."""
        v = norm_seq(v)
        if isinstance(v, (SymSeq, SymGen)):
            if isinstance(v, SymSeq) and isinstance(v.n, int) and v.n <= 64:
                return iter([v.elem(self.vc, z3.IntVal(i)) for i in range(v.n)])
            if isinstance(v, SymSeq) and self.vc.unroll is not None:
                return self._unrolled(v)
            return None
        if isinstance(v, IGen):
            return v.pyiter()
        if isinstance(v, Opq):
            if '__iter__' in v.methods:
                return self.iterate(v.methods['__iter__'](self))
            raise Unsupported(f"iteration over {v}")
        if isinstance(v, Rope):
            if isinstance(v.n, int):
                return iter([self.subscript(v, i) for i in range(v.n)])
            raise Unsupported('iteration over an unknown string')
        if isinstance(v, Sym):
            if isinstance(v, (SInt, SBool, SReal)):
                raise PyRaise(TypeError('not iterable'))
            raise Unsupported(f"iteration over {v!r}")
        t = type(v)
        if t.__module__.split('.')[0] in self.packages and not isinstance(v, type):
            f = inspect.getattr_static(t, '__iter__', None)
            if isinstance(f, types.FunctionType) and self.in_package(f):
                r = self.call(f, [v])
                return self._nexts(r) if self.is_iterator(r) else self.iterate(r)
            nx = inspect.getattr_static(t, '__next__', None)
            if isinstance(nx, types.FunctionType):
                return self._nexts(v)
        if isinstance(v, (set, frozenset)) and any(isinstance(x, Box) for x in v):
            raise Unsupported('iteration over a set of symbolic values')
        try:
            return iter(v)
        except TypeError as e:
            raise PyRaise(e)

    def is_iterator(self, v):
        t = type(v)
        return (t.__module__.split('.')[0] in self.packages and not isinstance(v, type)
                and isinstance(inspect.getattr_static(t, '__next__', None), types.FunctionType))

    def _unrolled(self, v):
        for i in range(self.vc.unroll + 1):
            if not self.vc.decide(z3.IntVal(i) < iv(v.n)):
                return
            if i >= self.vc.unroll:
                raise PathEnd()
            yield v.elem(self.vc, z3.IntVal(i))

    def _nexts(self, v):
        while True:
            try:
                x = self.call(type(v).__next__, [v])
            except PyRaise as e:
                if isinstance(e.exc, StopIteration):
                    return
                raise
            yield x

    def listof(self, v):
        it = self.iterate(v)
        if it is None:
            raise Unsupported('list of a symbolic sequence')
        return list(it)

    # ================================================================== expressions
    def ev(self, n, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup(fr, n.id)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        return self.binop(type(n.op).__name__, a, self.ev(n.right, fr))

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        if isinstance(v, Opq) and type(n.op).__name__ in v.methods:
            return v.methods[type(n.op).__name__](self)
        if is_sym(v):
            x = self.as_num(v)
            if x is None:
                raise Unsupported('unary operator')
            if isinstance(n.op, ast.USub):
                return (SInt if x[0] == 'i' else SReal)(z3.simplify(-x[1]))
            if isinstance(n.op, ast.UAdd):
                return (SInt if x[0] == 'i' else SReal)(x[1])
            raise Unsupported('unary operator')
        return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[type(n.op).__name__](v)

    def e_BoolOp(self, n, fr):
        for k, x in enumerate(n.values):
            v = self.ev(x, fr)
            if k == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not isinstance(v, SBool) else False
            if isinstance(n.op, ast.Or) and t:
                return v if not isinstance(v, SBool) else True

    def e_Compare(self, n, fr):
        a = self.ev(n.left, fr)
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(r, fr)
            res = self.compare(type(op).__name__, a, b)
            if k == len(n.ops) - 1:
                return res
            if not self.truth(res):
                return False
            a = b

    def e_IfExp(self, n, fr):
        return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        f = fr
        while f.name == '<comp>' and f.parent is not None:
            f = f.parent
        self.assign_name(f, n.target.id, v)
        return v

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        r = list(self.elts(n.elts, fr))
        self.vc.label(r)
        return r

    def e_Set(self, n, fr):
        r = list(self.elts(n.elts, fr))
        if deep_sym(r):
            raise Unsupported('set of symbolic values')
        r = set(r)
        self.vc.label(r)
        return r

    def elts(self, es, fr):
        for e in es:
            if isinstance(e, ast.Starred):
                yield from self.listof(self.ev(e.value, fr))
            else:
                yield self.ev(e, fr)

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(v, fr)
                if not isinstance(x, dict):
                    raise Unsupported('** of a symbolic mapping')
                d.update(x)
            else:
                kk = self.ev(k, fr)
                if is_sym(kk):
                    raise Unsupported('symbolic dict key')
                d[kk] = self.ev(v, fr)
        self.vc.label(d)
        return d

    def e_JoinedStr(self, n, fr):
        parts = []
        sym = False
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
                continue
            v = self.ev(p.value, fr)
            if p.conversion == -1 and p.format_spec is None and isinstance(v, (Rope, str)) and py_type(v) is str:
                parts.append(v)
                sym = sym or is_sym(v)
                continue
            spec = self.ev(p.format_spec, fr) if p.format_spec is not None else ''
            if is_sym(v) or deep_sym(v) or is_sym(spec) or type(v).__module__.split('.')[0] in self.packages or isinstance(v, (types.FunctionType, type)) \
                    or not isinstance(v, (int, float, str, bytes, type(None), list, tuple)) or isinstance(v, (list, tuple)):
                if isinstance(v, (int, bool)) and not is_sym(v):
                    parts.append(format(v, spec))
                    continue
                if not is_sym(v) and isinstance(v, str):
                    parts.append(str(v))
                    continue
                if isinstance(v, SInt) and p.conversion == -1:
                    from . import models
                    parts.append(models.format_int(self, v, spec))
                else:
                    parts.append(self.opaque_text())
                sym = True
                continue
            try:
                if p.conversion == 114:
                    v = repr(v)
                elif p.conversion == 115:
                    v = str(v)
                parts.append(format(v, spec))
            except Exception as e:
                raise PyRaise(e)
        if not sym:
            return ''.join(parts)
        return concat('str', *parts)

    def e_FormattedValue(self, n, fr):
        raise Unsupported('formatted value')

    def e_Lambda(self, n, fr):
        return IFunc(n, fr, [self.ev(d, fr) for d in n.args.defaults], {})

    def e_Starred(self, n, fr):
        raise Unsupported('starred')

    def e_Slice(self, n, fr):
        return slice(*[None if x is None else self.ev(x, fr) for x in (n.lower, n.upper, n.step)])

    def e_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        return self.subscript(o, self.ev(n.slice, fr))

    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f.parent is not None:
                f = f.parent
            return SuperObj(f.defcls, f.first)
        fn = self.ev(n.func, fr)
        args = list(self.elts(n.args, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Opq) and '__kwargs__' in v.fields:
                    v = v.fields['__kwargs__']
                if not isinstance(v, dict):
                    raise Unsupported('** of a symbolic mapping')
                kw.update(v)
            else:
                kw[k.arg] = v
        if fn is locals or fn is vars or fn is globals:
            raise Unsupported('locals()')
        return self.call(fn, args, kw)

    def comp(self, gens, fr, leaf):
        """Generator over the values of leaf(frame)."""
        def rec(k, f):
            if k == len(gens):
                yield leaf(f)
                return
            g = gens[k]
            src = self.ev(g.iter, f)
            it = self.iterate(src)
            if it is None:
                raise Unsupported('comprehension over a symbolic sequence')
            for x in it:
                self.bind_target(g.target, x, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    yield from rec(k + 1, f)
        f = Frame('<comp>', fr.glob, set(), parent=fr)
        return rec(0, f)

    def e_ListComp(self, n, fr):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            src = norm_seq(self.ev(n.generators[0].iter, fr))
            if self.iterate_needs_rule(src) and isinstance(src, SymSeq):
                g = n.generators[0]

                def elem(vc, i):
                    f = Frame('<comp>', fr.glob, set(), parent=fr)
                    self.bind_target(g.target, src.elem(vc, i), f)
                    return self.ev(n.elt, f)
                # the element expression must be total and effect free: evaluated for an arbitrary index
                if self.vc.decide(z3.Bool(self.vc.fname('an_element'))):
                    j = self.vc.int('anyidx', 0)
                    self.vc.assume(j.t < iv(src.n))
                    elem(self.vc, j.t)           # raises: a path of its own
                    raise PathEnd()
                return SymSeq(src.name + '.map', src.n, self.eager(src, elem), list)
            f = Frame('<comp>', fr.glob, set(), parent=fr)
            r = []
            for x in self.iterate(src):
                self.bind_target(n.generators[0].target, x, f)
                r.append(self.ev(n.elt, f))
        else:
            r = list(self.comp(n.generators, fr, lambda f: self.ev(n.elt, f)))
        self.vc.label(r)
        return r

    def eager(self, src, elem):
        """The elements of a comprehension belong to the state in which it is evaluated: a function of the index only."""
        j = self.vc.int('anyidx', 0)
        n0 = next(self.vc.fresh_n)
        hold = {}

        def local_symbols(t):
            todo, seen = [t], set()
            while todo:
                y = todo.pop()
                if y.get_id() in seen:
                    continue
                seen.add(y.get_id())
                nm = y.decl().name() if z3.is_app(y) else ''
                tail = nm.rsplit('!', 1)[-1]
                if '!' in nm and tail.isdigit() and int(tail) >= n0:
                    return True
                todo += y.children()
            return False

        def f():
            x = src.elem(self.vc, j.t)
            hold['src'] = x
            return elem(self.vc, j.t)
        ok, x = self.vc.uniform(j.t < iv(src.n), f)
        if ok:
            if not deep_sym(x):
                return lambda vc, i: x
            if x is hold['src']:
                return src.elem
            if isinstance(x, (SInt, SReal, SBool)) and not local_symbols(x.t):
                return lambda vc, i: type(x)(z3.substitute(x.t, (j.t, iv(i))))
        version = self.vc.version

        def lazy(vc, i):
            if vc.version != version:
                raise Unsupported('elements of a comprehension are used after the state has changed')
            return elem(vc, i)
        return lazy

    def iterate_needs_rule(self, v):
        return isinstance(v, SymGen) or isinstance(v, SymSeq) and not (isinstance(v.n, int) and v.n <= 64) and self.vc.unroll is None

    def e_SetComp(self, n, fr):
        r = list(self.comp(n.generators, fr, lambda f: self.ev(n.elt, f)))
        if deep_sym(r):
            return SymSet(r)
        r = set(r)
        self.vc.label(r)
        return r

    def e_DictComp(self, n, fr):
        d = {}
        for k, v in self.comp(n.generators, fr, lambda f: (self.ev(n.key, f), self.ev(n.value, f))):
            if is_sym(k):
                raise Unsupported('symbolic dict key')
            d[k] = v
        self.vc.label(d)
        return d

    def e_GeneratorExp(self, n, fr):
        return IGen(self, self.comp(n.generators, fr, lambda f: self.ev(n.elt, f)), '<genexpr>', genexp=True, n=n, fr=fr)

    # ================================================================== statements (a generator: program yields)
    def ex(self, body, fr):
        for s in body:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(s).__name__}")
            r = m(s, fr)
            if r is not None:
                yield from r

    def s_Pass(self, s, fr):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            return self._yield(s.value, fr)
        if isinstance(s.value, ast.YieldFrom):
            return self._yield_from(s.value, fr)
        self.ev(s.value, fr)

    def _yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        return (yield v)

    def _yield_from(self, n, fr):
        src = self.ev(n.value, fr)
        it = self.iterate(src)
        if it is None:
            v = src
            yield YieldAll(v)
            return
        for x in it:
            yield x

    def s_Assign(self, s, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self._assign_yield(s, fr)
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.bind_target(t, v, fr)

    def _assign_yield(self, s, fr):
        if isinstance(s.value, ast.YieldFrom):
            yield from self._yield_from(s.value, fr)
            v = None
        else:
            v = yield from self._yield(s.value, fr)
        for t in s.targets:
            self.bind_target(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bind_target(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.lookup(fr, t.id)
            self.assign_name(fr, t.id, self.inplace(op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            old = self.subscript(o, k)
            self.store(o, k, self.inplace(op, old, self.ev(s.value, fr)))

    def inplace(self, op, a, b):
        if isinstance(a, list) and op == 'Add':
            self.vc.on_write(a, '[]')
            a.extend(self.listof(b))
            return a
        if isinstance(a, MBA) and op == 'Add':
            self.vc.on_write(a, 'rope')
            a.rope = concat('bytearray', a.rope, b.rope if isinstance(b, MBA) else rope(b))
            return a
        if isinstance(a, (dict, set)) and not is_sym(b):
            self.vc.on_write(a, '[]')
            try:
                return {'BitOr': operator.ior, 'Sub': operator.isub, 'BitAnd': operator.iand}[op](a, b)
            except KeyError:
                raise Unsupported('in-place operator')
        return self.binop(op, a, b)

    def bind_target(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.store(o, self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.listof(v)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError('not enough values to unpack'))
                mid = vals[k:len(vals) - after]
                self.vc.label(mid)
                vals = vals[:k] + [mid] + vals[len(vals) - after:]
            if len(vals) != len(t.elts):
                raise PyRaise(ValueError('wrong number of values to unpack'))
            for e, x in zip(t.elts, vals):
                self.bind_target(e.value if isinstance(e, ast.Starred) else e, x, fr)
        else:
            raise Unsupported('assignment target')

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if is_sym(o) or deep_sym(k) or isinstance(k, slice) and deep_sym((k.start, k.stop)):
                    raise Unsupported('del')
                self.vc.on_write(o, '[]')
                try:
                    del o[k]
                except Exception as e:
                    raise PyRaise(e)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.vc.on_write(o, t.attr)
                try:
                    delattr(o, t.attr)
                except Exception as e:
                    raise PyRaise(e)

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_If(self, s, fr):
        return self.ex(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError())

    def s_Raise(self, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and f.exc is None:
                f = f.parent
            if f is None:
                raise PyRaise(RuntimeError('No active exception to reraise'))
            raise PyRaise(f.exc)
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = self.call(e)
        if not isinstance(e, BaseException):
            raise PyRaise(TypeError('exceptions must derive from BaseException'))
        raise PyRaise(e)

    def s_FunctionDef(self, s, fr):
        f = IFunc(s, fr, [self.ev(d, fr) for d in s.args.defaults],
                  {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f])
        self.assign_name(fr, s.name, f)

    def s_ClassDef(self, s, fr):
        raise Unsupported('class definition')

    def s_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split('.')[1:]:
                    m = getattr(m, p)
            self.assign_name(fr, a.asname or a.name.split('.')[0], m)

    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(('.' * s.level) + (s.module or ''), fr.glob.get('__package__'))
        for a in s.names:
            self.assign_name(fr, a.asname or a.name, getattr(m, a.name) if hasattr(m, a.name) else importlib.import_module(f"{m.__name__}.{a.name}"))

    def s_Try(self, s, fr):
        return self._try(s, fr)

    def _try(self, s, fr):
        try:
            try:
                yield from self.ex(s.body, fr)
            except PyRaise as e:
                h = self.match_handler(s, e.exc, fr)
                if h is None:
                    raise
                if h.name:
                    fr.vars[h.name] = e.exc
                old = fr.exc
                fr.exc = e.exc
                try:
                    yield from self.ex(h.body, fr)
                finally:
                    fr.exc = old
                    if h.name:
                        fr.vars.pop(h.name, None)
            else:
                yield from self.ex(s.orelse, fr)
        except (PyRaise,) + CTRL:
            yield from self.ex(s.finalbody, fr)
            raise
        else:
            yield from self.ex(s.finalbody, fr)

    def match_handler(self, s, exc, fr):
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            if isinstance(exc, t if isinstance(t, tuple) else (t,)):
                return h
        return None

    def s_With(self, s, fr):
        return self._with(s, s.items, fr)

    def _with(self, s, items, fr):
        if not items:
            yield from self.ex(s.body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        if isinstance(cm, ICtx):
            g = cm.gen.g
            try:
                v = next(g)
            except StopIteration:
                raise PyRaise(RuntimeError("generator didn't yield"))
            if it.optional_vars is not None:
                self.bind_target(it.optional_vars, v, fr)
            try:
                yield from self._with(s, items[1:], fr)
            except PyRaise as e:
                try:
                    g.throw(e)
                except StopIteration:
                    return                                   # swallowed
                except PyRaise:
                    raise
                raise PyRaise(RuntimeError("generator didn't stop after throw()"))
            except CTRL:
                self._ctx_exit(g)
                raise
            else:
                self._ctx_exit(g)
            return
        if isinstance(cm, Opq) and '__enter__' in cm.methods:
            enter, exit_ = functools.partial(cm.methods['__enter__'], self), functools.partial(cm.methods['__exit__'], self)
        elif not is_sym(cm) and type(cm).__module__.split('.')[0] in self.packages:
            enter = functools.partial(self.call, types.MethodType(type(cm).__enter__, cm))
            exit_ = lambda *a: self.call(types.MethodType(type(cm).__exit__, cm), a)
        elif not is_sym(cm) and hasattr(cm, '__enter__'):
            enter, exit_ = cm.__enter__, cm.__exit__
        else:
            raise Unsupported('context manager')
        v = enter()
        if it.optional_vars is not None:
            self.bind_target(it.optional_vars, v, fr)
        try:
            yield from self._with(s, items[1:], fr)
        except PyRaise as e:
            if self.truth(exit_(type(e.exc), e.exc, None)):
                return
            raise
        except CTRL:
            exit_(None, None, None)
            raise
        else:
            exit_(None, None, None)

    def _ctx_exit(self, g):
        try:
            next(g)
        except StopIteration:
            return
        raise PyRaise(RuntimeError("generator didn't stop"))

    # ------------------------------------------------------------------ loops
    def s_While(self, s, fr):
        return self._while(s, fr)

    def _while(self, s, fr):
        key = self.loop_key(s, fr)
        n = 0
        while True:
            c = self.ev(s.test, fr)
            sym = isinstance(c, (SBool, SInt, SReal, Rope)) and not self._const(c)
            if sym and isinstance(c, SBool) and self.vc.valid(z3.Not(c.t)):
                sym, c = False, False
            if sym and self.vc.unroll is None and n >= getattr(self.vc, 'peel', 0):
                yield from self.loop_rule(s, fr, key, None, None)
                return
            if sym and self.vc.unroll is not None and n > self.vc.unroll:
                raise PathEnd()
            if not self.truth(c):
                yield from self.ex(s.orelse, fr)
                return
            n += 1
            if n > 5000:
                raise Unsupported('long loop')
            try:
                yield from self.ex(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass

    def _const(self, c):
        if isinstance(c, SBool):
            t = z3.simplify(c.t)
            return z3.is_true(t) or z3.is_false(t)
        return False

    def loop_key(self, s, fr):
        return (tuple(self.stack), fr.name, s.lineno)

    def s_For(self, s, fr):
        return self._for(s, fr)

    def _for(self, s, fr):
        key = self.loop_key(s, fr)
        src = norm_seq(self.ev(s.iter, fr))
        it = self.iterate(src)
        forward = (len(s.body) == 1 and not s.orelse and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield)
                   and isinstance(s.target, ast.Name) and isinstance(s.body[0].value.value, ast.Name) and s.body[0].value.value.id == s.target.id)
        if it is None:
            if forward:                            # for x in src: yield x
                yield YieldAll(src)
                fr.vars[s.target.id] = Poison('target of a loop over a symbolic sequence')
                return
            while not isinstance(src, (SymSeq, SymGen)):
                src = norm_seq(src.methods['__iter__'](self) if isinstance(src, Opq)
                               else self.call(inspect.getattr_static(type(src), '__iter__'), [src]))
            yield from self.loop_rule(s, fr, key, src, s.target)
            return
        n = 0
        for x in it:
            if isinstance(x, YieldAll):
                if not forward:
                    raise Unsupported('nested symbolic yield')
                yield x
                fr.vars[s.target.id] = Poison('target of a loop over a symbolic sequence')
                continue
            n += 1
            self.bind_target(s.target, x, fr)
            try:
                yield from self.ex(s.body, fr)
            except _Break:
                return
            except _Continue:
                pass
        yield from self.ex(s.orelse, fr)

    def loop_rule(self, s, fr, key, src, target):
        from .loops import loop_rule
        return loop_rule(self, s, fr, key, src, target)

    # ================================================================== methods of symbolic values
    def sym_method(self, obj, name, args, kw):
        if isinstance(obj, Opq):
            return obj.methods[name](self, *args, **kw)
        from . import models
        return models.sym_method(self, obj, name, args, kw)


def positional(fn, args, kw):
    """Keyword arguments as positional ones, by the signature of the real function."""
    if not kw or not isinstance(fn, types.FunctionType):
        return args, kw
    ps = [p.name for p in inspect.signature(fn).parameters.values() if p.kind == p.POSITIONAL_OR_KEYWORD]
    args, kw = list(args), dict(kw)
    for p in ps[len(args):]:
        if p not in kw:
            break
        args.append(kw.pop(p))
    return args, kw


class SymSet(Sym):
    """A set display with symbolic elements (only its size is queried)."""

    def __init__(self, items):
        self.items = items


class Box(Sym):
    """A symbolic element of a native set (which may be equal to another element)."""
    __hash__ = object.__hash__

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other


def unbox(v):
    return v.v if isinstance(v, Box) else v


class YieldAll:
    """`yield from` of a sequence of unknown length."""

    def __init__(self, src):
        self.src = src


class IGen:
    def __init__(self, interp, g, name, genexp=False, n=None, fr=None):
        self.interp, self.g, self.name, self.genexp, self.n, self.fr = interp, g, name, genexp, n, fr

    def pyiter(self):
        return self.g

    def m___next__(self):
        try:
            return next(self.g)
        except StopIteration as e:
            raise PyRaise(StopIteration(e.value))

    def m_close(self):
        self.g.close()

    def m_send(self, v):
        try:
            return self.g.send(v)
        except StopIteration as e:
            raise PyRaise(StopIteration(e.value))
