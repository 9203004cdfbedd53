"""Models of builtins and library functions (trusted: each states what Python's documentation says)."""
from __future__ import annotations

import ast
import collections
import functools
import inspect
import logging
import operator
import os
import struct
import timeit
import types

import z3

from .sym import *
from . import charset
from .vc import MBA, PathEnd, Restart


def I():
    from . import interp
    return interp


def mi(v, t=None):
    """int term -> value"""
    t = z3.simplify(v) if z3.is_expr(v) else v
    if isinstance(t, int):
        return t
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def concrete(r):
    """Rope with known content -> native value, else None"""
    if not isinstance(r, Rope):
        return r
    out = []
    for p in r.pieces:
        if not isinstance(p, Lit):
            return None
        for x in p.items:
            if not isinstance(x, int):
                x = z3.simplify(x)
                if not z3.is_int_value(x):
                    return None
                x = x.as_long()
            out.append(x)
    return ''.join(map(chr, out)) if r.kind == 'str' else bytes(out)


# ---------------------------------------------------------------------------------------------------- builtins
def m_len(it, v):
    im = I()
    v = im.norm_seq(v)
    if isinstance(v, Rope):
        return mi(v.n)
    if isinstance(v, MBA):
        return mi(v.rope.n)
    if isinstance(v, im.SymSeq):
        return mi(v.n) if not isinstance(v.n, int) else v.n
    if isinstance(v, (set, frozenset)) and any(isinstance(x, im.Box) for x in v):
        v = im.SymSet([im.unbox(x) for x in v])
    if isinstance(v, im.SymSet):
        s = z3.IntVal(0)
        for k, x in enumerate(v.items):
            dup = []
            for y in v.items[:k]:
                e = it.equal(x, y)
                dup.append(e.t if isinstance(e, SBool) else z3.BoolVal(e))
            s = s + z3.If(z3.Or(*dup) if dup else z3.BoolVal(False), 0, 1)
        return mi(s)
    if isinstance(v, Opq):
        if '__len__' in v.methods:
            return v.methods['__len__'](it)
        raise Unsupported(f"len of {v}")
    if isinstance(v, Sym):
        if isinstance(v, (SInt, SBool, SReal)):
            raise PyRaise(TypeError('object has no len()'))
        raise Unsupported('len')
    t = type(v)
    if t.__module__.split('.')[0] in it.packages:
        for b in t.__mro__:
            f = b.__dict__.get('__len__')
            if isinstance(f, types.FunctionType):
                return it.call(f, [v])
    try:
        return len(v)
    except TypeError as e:
        raise PyRaise(e)


def m_isinstance(it, v, c):
    im = I()
    cs = c if isinstance(c, tuple) else (c,)
    if isinstance(v, Opq) and '__isinstance__' in v.methods:
        return v.methods['__isinstance__'](it, cs)
    if im.is_sym(v) or isinstance(v, (im.IFunc, im.IGen)):
        t = types.GeneratorType if isinstance(v, im.IGen) else im.py_type(v)
        if not isinstance(t, type):
            raise Unsupported(f"isinstance of {v!r}")
        flat = []
        for x in cs:
            flat += list(x) if isinstance(x, tuple) else [x]
        return any(issubclass(t, x) for x in flat)
    try:
        return isinstance(v, c)
    except TypeError as e:
        raise PyRaise(e)


def m_type(it, v, *a):
    if a:
        raise Unsupported('type()')
    im = I()
    return types.GeneratorType if isinstance(v, im.IGen) else im.py_type(v)


def m_int(it, v=0, base=None):
    if isinstance(v, Rope):
        c = concrete(v)
        if c is not None:
            v = c
        else:
            key = ('int', it.rope_key(v), base)
            if key not in it.vc.memo:
                it.vc.memo[key] = (z3.Bool(it.vc.fname('parses')), it.vc.int('parsed'))
            ok, r = it.vc.memo[key]
            if not it.vc.decide(ok):
                raise PyRaise(ValueError('invalid literal for int()'))
            return r
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, SReal):
        f = z3.ToInt(v.t)
        return mi(z3.If(z3.Or(v.t >= 0, z3.ToReal(f) == v.t), f, f + 1))
    if isinstance(v, Opq) and '__int__' in v.methods:
        return v.methods['__int__'](it)
    if isinstance(v, Sym):
        raise Unsupported(f"int of {v!r}")
    try:
        return int(v) if base is None else int(v, base)
    except Exception as e:
        raise PyRaise(e)


def m_float(it, v=0.0):
    x = it.as_num(v) if isinstance(v, Sym) else None
    if x is not None:
        return SReal(z3.ToReal(x[1]) if x[0] == 'i' else x[1])
    if isinstance(v, Rope):
        key = ('float', it.rope_key(v))
        if key not in it.vc.memo:
            it.vc.memo[key] = (z3.Bool(it.vc.fname('parses')), it.vc.real('parsed'))
        ok, r = it.vc.memo[key]
        if not it.vc.decide(ok):
            raise PyRaise(ValueError('could not convert string to float'))
        return r
    if isinstance(v, Sym):
        raise Unsupported('float')
    try:
        return float(v)
    except Exception as e:
        raise PyRaise(e)


def m_bool(it, v=False):
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return SBool(z3.simplify(v.t != 0))
    if isinstance(v, Rope):
        return SBool(z3.simplify(iv(v.n) > 0))
    return it.truth(v)


def dec_str(it, v):
    """Decimal text of an integer."""
    t = z3.simplify(v.t)
    if z3.is_int_value(t):
        return str(t.as_long())
    key = ('dec', t.sexpr())
    if key not in it.vc.memo:
        vc = it.vc
        L = vc.int('declen', 1).t
        a = z3.If(t < 0, -t, t)
        s = z3.If(t < 0, 1, 0)
        for k in range(1, 21):
            lo = 0 if k == 1 else 10 ** (k - 1)
            vc.add(z3.Implies(z3.And(a >= lo, a < 10 ** k), L == k + s))
        vc.add(z3.Implies(a >= 10 ** 20, L >= 21))
        it.vc.memo[key] = vc.base('dec', L, 'str', asc=z3.BoolVal(True))
    return it.vc.memo[key]


def format_int(it, v, spec):
    if spec in ('', 'd'):
        return dec_str(it, v)
    if it.vc.valid(z3.And(v.t >= 0, v.t < 300)):
        return format(it.concretize(v), spec)
    return it.opaque_text()


def m_str(it, v='', *a):
    im = I()
    if isinstance(v, Rope) and v.kind == 'str':
        return v
    if isinstance(v, SInt):
        return dec_str(it, v)
    if isinstance(v, Opq) and '__str__' in v.methods:
        return v.methods['__str__'](it)
    if im.is_sym(v) or im.deep_sym(v):
        key = ('str', id(v))
        if key not in it.vc.memo:
            it.vc.keep.append(v)
            it.vc.memo[key] = it.opaque_text()
        return it.vc.memo[key]
    if type(v).__module__.split('.')[0] in it.packages and not isinstance(v, (str, int)):
        return it.opaque_text()
    try:
        return str(v, *a)
    except Exception as e:
        raise PyRaise(e)


def m_repr(it, v):
    im = I()
    if im.is_sym(v) or im.deep_sym(v) or type(v).__module__.split('.')[0] in it.packages:
        return it.opaque_text()
    return repr(v)


def m_bytearray(it, v=b'', *a):
    if isinstance(v, (SInt, int)) and not isinstance(v, bool):
        t = iv(v.t if isinstance(v, SInt) else v)
        if it.vc.decide(t < 0):
            raise PyRaise(ValueError('negative count'))
        r = MBA(it.rope_repeat(Rope('bytearray', [Lit([0])]), t))
    elif isinstance(v, Rope) and v.kind != 'str':
        r = MBA(Rope('bytearray', v.pieces))
    elif isinstance(v, MBA):
        r = MBA(v.rope)
    elif isinstance(v, (bytes, bytearray)):
        r = MBA(Rope('bytearray', rope(v).pieces))
    else:
        raise Unsupported('bytearray()')
    it.vc.label(r)
    return r


def m_bytes(it, v=b'', *a):
    if isinstance(v, MBA):
        return Rope('bytes', v.rope.pieces)
    if isinstance(v, Rope) and v.kind != 'str':
        return Rope('bytes', v.pieces)
    if isinstance(v, SInt):
        return Rope('bytes', it.rope_repeat(Rope('bytes', [Lit([0])]), v.t).pieces)
    if isinstance(v, (list, tuple)) and I().deep_sym(v):
        for x in v:
            k = it.as_num(x)
            if k is None or k[0] != 'i':
                raise PyRaise(TypeError('bytes'))
            if not it.vc.decide(z3.And(k[1] >= 0, k[1] < 256)):
                raise PyRaise(ValueError('bytes must be in range(0, 256)'))
        return Rope('bytes', [Lit([it.as_num(x)[1] for x in v])])
    if isinstance(v, Sym):
        raise Unsupported('bytes()')
    try:
        return bytes(v, *a)
    except Exception as e:
        raise PyRaise(e)


def m_minmax(which):
    def m(it, *args, key=None, default=I):
        im = I()
        if len(args) == 1:
            args = it.listof(args[0])
            if not args:
                if default is not I:
                    return default
                raise PyRaise(ValueError('empty'))
        if key is not None:
            raise Unsupported('min/max with key')
        if not any(im.is_sym(a) for a in args):
            try:
                return (min if which == 'min' else max)(args)
            except Exception as e:
                raise PyRaise(e)
        r = args[0]
        for a in args[1:]:
            x, y = it.as_num(a), it.as_num(r)
            if x is None or y is None or x[0] != y[0]:
                raise Unsupported('min/max')
            c = x[1] < y[1] if which == 'min' else x[1] > y[1]
            t = z3.simplify(z3.If(c, x[1], y[1]))
            r = mi(t) if x[0] == 'i' else SReal(t)
        return r
    return m


def m_abs(it, v):
    if isinstance(v, Opq) and '__abs__' in v.methods:
        return v.methods['__abs__'](it)
    x = it.as_num(v)
    if isinstance(v, Sym) and x:
        t = z3.If(x[1] < 0, -x[1], x[1])
        return SInt(t) if x[0] == 'i' else SReal(t)
    return it.native(abs, [v], {})


def m_sum(it, v, start=0):
    r = start
    for x in it.listof(v):
        r = it.binop('Add', r, x)
    return r


def m_round(it, v, nd=None):
    if isinstance(v, SInt) and nd is None:
        return v
    if isinstance(v, SReal) and nd is None:
        f = z3.ToInt(v.t + z3.RealVal('1/2'))
        tie = z3.ToReal(f) == v.t + z3.RealVal('1/2')
        return mi(z3.If(z3.And(tie, f % 2 == 1), f - 1, f))
    if isinstance(v, Sym):
        raise Unsupported('round')
    return it.native(round, [v] if nd is None else [v, nd], {})


def m_divmod(it, a, b):
    if I().is_sym(a) or I().is_sym(b):
        return (it.binop('FloorDiv', a, b), it.binop('Mod', a, b))
    return it.native(divmod, [a, b], {})


def m_range(it, *a):
    im = I()
    if not any(im.is_sym(x) for x in a):
        return it.native(range, a, {})
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    for x in (lo, hi, step):
        k = it.as_num(x)
        if k is None or k[0] != 'i':
            raise PyRaise(TypeError('range'))
    l, h, st = it.as_num(lo)[1], it.as_num(hi)[1], it.as_num(step)[1]
    if not it.vc.valid(st > 0):
        if it.vc.decide(st == 0):
            raise PyRaise(ValueError('range() arg 3 must not be zero'))
        if not it.vc.decide(st > 0):
            raise Unsupported('descending range')
    d = h - l
    n = z3.If(d > 0, (d + st - 1) / st, 0) if not (z3.is_int_value(z3.simplify(st)) and z3.simplify(st).as_long() == 1) else z3.If(d > 0, d, 0)
    n = z3.simplify(n)
    if not z3.is_int_value(n):
        m = it.vc.int('range_n', 0).t
        it.vc.add(m == n)
        n = m
    else:
        n = n.as_long()
    return im.SymSeq('range', n, lambda vc, i: mi(l + i * st), range)


def m_enumerate(it, v, start=0):
    im = I()
    v = im.norm_seq(v)
    if isinstance(v, im.SymSeq):
        s = it.as_num(start)[1]
        return im.SymSeq(v.name + '.enum', v.n, lambda vc, i: (mi(i + s), v.elem(vc, i)), list, v.cat)
    x = it.iterate(v)
    if x is None:
        raise Unsupported('enumerate')
    return ((it.binop('Add', start, k), y) for k, y in enumerate(x))


def m_zip(it, *vs, strict=False):
    im = I()
    vs = tuple(im.norm_seq(v) for v in vs)
    if any(isinstance(v, im.SymSeq) for v in vs):
        if not all(isinstance(v, im.SymSeq) for v in vs):
            if all(isinstance(v, (im.SymSeq, list, tuple)) for v in vs):
                vs = tuple(v if isinstance(v, im.SymSeq) else im.SymSeq('lst', len(v), lambda vc, i, v=v: it.subscript(v, mi(i))) for v in vs)
            else:
                raise Unsupported('zip')
        n = iv(vs[0].n)
        for v in vs[1:]:
            n = z3.If(iv(v.n) < n, iv(v.n), n)
        return im.SymSeq('zip', z3.simplify(n), lambda vc, i: tuple(v.elem(vc, i) for v in vs))
    its = [it.iterate(v) for v in vs]
    if any(x is None for x in its):
        raise Unsupported('zip')
    return zip(*its)


def m_map(it, f, *vs):
    im = I()
    if any(isinstance(v, im.SymSeq) for v in vs):
        z = m_zip(it, *vs)
        if isinstance(z, im.SymSeq):
            return im.SymSeq('map', z.n, lambda vc, i: it.call(f, list(z.elem(vc, i))))
    return (it.call(f, list(xs)) for xs in m_zip(it, *vs))


def genexp_seq(it, v):
    """A generator expression over a sequence of unknown length (not started), as such a sequence; None for anything else."""
    im = I()
    if isinstance(v, im.IGen) and v.genexp and len(v.n.generators) == 1 and it.vc.unroll is None and getattr(v.n.generators[0], 'is_async', 0) == 0:
        src = im.norm_seq(it.ev(v.n.generators[0].iter, v.fr))
        if isinstance(src, im.SymSeq) and it.iterate_needs_rule(src):
            return src
    return None


def join_parts(it, sep, v):
    """The parts to be joined; those of a sequence of unknown length are joined by the loop rule: for x in seq: acc += x."""
    im = I()
    src = genexp_seq(it, v)
    empty = len(sep) == 0 if isinstance(sep, (str, bytes)) else isinstance(sep.n, int) and sep.n == 0
    if src is not None and empty:
        g = v.n.generators[0]
        return [join_loop(it, sep, src, g.target, v.n.elt, g.ifs, v.fr, (v.n.lineno, v.n.col_offset))]
    if empty and isinstance(v, list) and any(isinstance(x, im.Tail) for x in v):
        return [x for y in v for x in (join_parts(it, sep, y.seq) if isinstance(y, im.Tail) else [y])]
    v = im.norm_seq(v)
    if empty and isinstance(v, im.SymSeq) and it.iterate_needs_rule(v):
        x = ast.Name('%x', ast.Load())
        return [join_loop(it, sep, v, ast.Name('%x', ast.Store()), x, [], None, ('seq', v.name))]
    return it.listof(v)


def join_loop(it, sep, src, target, elt, ifs, parent, where):
    im = I()
    f = im.Frame('<join>', parent.glob if parent is not None else {}, set(), parent=parent)
    f.vars['%acc'] = Rope(sep.kind, []) if isinstance(sep, Rope) else type(sep)()
    body = [ast.AugAssign(ast.Name('%acc', ast.Store()), ast.Add(), elt)]
    for c in reversed(ifs):
        body = [ast.If(c, body, [])]
    s = ast.For(target, ast.Name('%src', ast.Load()), body, [])
    for n in ast.walk(s):
        if not hasattr(n, 'lineno'):
            n.lineno = n.end_lineno = where[0] if isinstance(where[0], int) else 0
            n.col_offset = n.end_col_offset = 0
    for _ in it.loop_rule(s, f, (tuple(it.stack), '<join>', where), src, target):
        raise Unsupported('yield in a join')
    return f.vars['%acc']


def m_filter(it, f, v):
    x = it.iterate(v)
    if x is None:
        raise Unsupported('filter over a symbolic sequence')
    return (y for y in x if it.truth(y if f is None else it.call(f, [y])))


def m_anyall(which):
    def m(it, v):
        im = I()
        if isinstance(v, im.IGen) and v.genexp and len(v.n.generators) == 1 and it.vc.unroll is None:
            g = v.n.generators[0]
            src = im.norm_seq(it.ev(g.iter, v.fr))
            if isinstance(src, im.SymSeq) and it.iterate_needs_rule(src):
                f = im.Frame('<comp>', v.fr.glob, set(), parent=v.fr)
                j = it.vc.int('anyidx', 0)
                stop = 'all' if which == 'all' else 'any'
                if it.vc.decide(z3.Bool(it.vc.fname('found'))):
                    # some element decides the outcome
                    it.vc.assume(j.t < iv(src.n))
                    it.bind_target(g.target, src.elem(it.vc, j.t), f)
                    for c in g.ifs:
                        if not it.truth(it.ev(c, f)):
                            raise PathEnd()
                    t = it.truth(it.ev(v.n.elt, f))
                    if t == (stop == 'all'):
                        raise PathEnd()
                    return stop == 'any'
                if it.truth(SBool(j.t < iv(src.n))):             # no element decides: shown for an arbitrary one
                    it.bind_target(g.target, src.elem(it.vc, j.t), f)
                    if all(it.truth(it.ev(c, f)) for c in g.ifs):
                        t = it.truth(it.ev(v.n.elt, f))
                        if t != (stop == 'all'):
                            raise PathEnd()
                return stop == 'all'
        x = it.iterate(v)
        if x is None:
            raise Unsupported(which)
        for y in x:
            t = it.truth(y)
            if which == 'any' and t:
                return True
            if which == 'all' and not t:
                return False
        return which == 'all'
    return m


def m_next(it, g, *d):
    im = I()
    if isinstance(g, im.IGen):
        try:
            return next(g.g)
        except StopIteration as e:
            if d:
                return d[0]
            raise PyRaise(StopIteration(e.value))
    if isinstance(g, im.SymGen):
        if not it.truth(g.more(it.vc)):
            if d:
                return d[0]
            raise PyRaise(StopIteration())
        return g.next(it.vc)
    if isinstance(g, Opq) and '__next__' in g.methods:
        return g.methods['__next__'](it)
    if isinstance(g, Sym):
        raise Unsupported('next')
    if type(g).__module__.split('.')[0] in it.packages:
        return it.call(it.getattr(g, '__next__'), [])
    try:
        return next(g, *d)
    except StopIteration as e:
        raise PyRaise(e)


def m_iter(it, v):
    im = I()
    v = im.norm_seq(v)
    if isinstance(v, (im.SymSeq, im.SymGen, im.IGen)):
        return v
    if type(v).__module__.split('.')[0] in it.packages and not isinstance(v, type):
        f = inspect.getattr_static(type(v), '__iter__', None)
        if isinstance(f, types.FunctionType) and it.in_package(f):
            r = it.call(f, [v])
            return r if it.is_iterator(r) else m_iter(it, r)
        if it.is_iterator(v):
            return v
    x = it.iterate(v)
    if x is None:
        raise Unsupported('iter')
    return x


def m_list(kind):
    def m(it, v=()):
        im = I()
        v = im.norm_seq(v)
        if genexp_seq(it, v) is not None and not v.n.generators[0].ifs:
            v = it.e_ListComp(v.n, v.fr)
        if isinstance(v, im.SymSeq) and it.iterate_needs_rule(v):
            return im.SymSeq(v.name, v.n, v.elem, kind, v.cat)
        r = kind(it.listof(v))
        if kind is list:
            it.vc.label(r)
        return r
    return m


def m_set(it, v=()):
    im = I()
    v = im.norm_seq(v)
    if isinstance(v, im.SymSeq) and it.iterate_needs_rule(v):
        # every element is the same constant: shown for an arbitrary one
        if not it.vc.decide(iv(v.n) > 0):
            r = set()
        else:
            j = it.vc.int('anyidx', 0)
            it.vc.assume(j.t < iv(v.n))
            p0 = it.vc.pos
            x = v.elem(it.vc, j.t)
            if it.vc.pos != p0 or im.deep_sym(x):
                raise Unsupported('set of a symbolic sequence')
            r = {x}
        it.vc.label(r)
        return r
    xs = it.listof(v)
    if im.deep_sym(xs):
        return im.SymSet(xs)
    r = set(xs)
    it.vc.label(r)
    return r


def m_dict(it, *a, **k):
    im = I()
    if a and isinstance(a[0], Sym):
        if isinstance(a[0], Opq) and 'copy' in a[0].methods:
            return a[0].methods['copy'](it)
        raise Unsupported('dict()')
    if a and not isinstance(a[0], dict):
        a = ([tuple(it.listof(x)) for x in it.listof(a[0])],)
    r = it.native_dict(*a, **k) if hasattr(it, 'native_dict') else dict(*a, **k)
    it.vc.label(r)
    return r


def m_getattr(it, o, n, *d):
    if not isinstance(n, str):
        raise Unsupported('getattr with a symbolic name')
    return it.getattr(o, n, *d)


def m_hasattr(it, o, n):
    try:
        it.getattr(o, n)
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


def m_setattr(it, o, n, v):
    if not isinstance(n, str):
        raise Unsupported('setattr with a symbolic name')
    it.setattr(o, n, v)


def m_callable(it, v):
    im = I()
    if isinstance(v, (im.IFunc, im.SymMethod)):
        return True
    if isinstance(v, Sym):
        return isinstance(v, Opq) and '__call__' in v.methods
    return callable(v)


def m_sorted(it, v, key=None, reverse=False):
    xs = it.listof(v)
    if I().deep_sym(xs):
        raise Unsupported('sorted')
    r = it.native(sorted, [xs], {'reverse': reverse, **({'key': key} if key is not None else {})})
    it.vc.label(r)
    return r


def m_reversed(it, v):
    xs = it.listof(v)
    return iter(xs[::-1])


def m_id(it, v):
    it.vc.keep.append(v)
    return id(v)


def m_ord(it, v):
    if isinstance(v, Rope):
        if not it.vc.decide(iv(v.n) == 1):
            raise PyRaise(TypeError('ord'))
        t = v.get(it.vc, 0)
        return mi(t)
    return it.native(ord, [v], {})


def m_wraps(it, f, *a, **k):
    return Opq(types.FunctionType, 'wraps', methods={'__call__': lambda it2, g: g})


def m_partial(it, f, *a, **k):
    return functools.partial(lambda *x, **y: None) if False else Opq(types.FunctionType, 'partial', methods={
        '__call__': lambda it2, *x, **y: it2.call(f, list(a) + list(x), {**k, **y})})


def m_timeit(it, stmt, *a, number=1000000, **k):
    if number != 1:
        raise Unsupported('timeit')
    it.call(stmt, [])
    return 0.0


def m_print(it, *a, **k):
    return None


# ---------------------------------------------------------------------------------------------------- struct
INT_FMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True), 'L': (4, False),
           'q': (8, True), 'Q': (8, False)}


def link_packed(it, t, fs, const, b):
    """The IEEE image of a number known to be a constant."""
    n, d = float(const).as_integer_ratio()
    for q, y in zip(fs, b):
        it.vc.axiom(z3.Implies(t == z3.Q(n, d), q == y))


def pack(it, fmt, args):
    im = I()
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not im.deep_sym(list(args)):
        try:
            r = struct.pack(fmt, *args)
        except Exception as e:
            raise PyRaise(e)
        if fmt in ('>f', '>d') and args[0] != 0 and abs(args[0]) < 1e300:        # (zero has a sign)
            known = it.vc.memo.setdefault(('packed constants', fmt[1]), {})
            if args[0] not in known:
                known[args[0]] = r
                for t, fs in it.vc.memo.setdefault(('packed terms', fmt[1]), {}).values():
                    link_packed(it, t, fs, args[0], r)
        return r
    if fmt[0] not in '>!' or len(fmt) - 1 != len(args) or any(c.isdigit() for c in fmt):
        if fmt[0] in '>!' and not any(c.isdigit() for c in fmt):
            raise PyRaise(struct.error('number of items'))
        raise Unsupported(f"struct format {fmt}")
    out = Rope('bytes', [])
    for c, v in zip(fmt[1:], args):
        x = it.as_num(v)
        if c in INT_FMT:
            w, signed = INT_FMT[c]
            if x is None or x[0] != 'i':
                if isinstance(v, Opq) and '__index__' in v.methods:
                    x = it.as_num(v.methods['__index__'](it))
                elif isinstance(v, Opq):
                    raise Unsupported(f"pack of {v}")
                else:
                    raise PyRaise(struct.error('required argument is not an integer'))
            t = x[1]
            lo, hi = (-2 ** (8 * w - 1), 2 ** (8 * w - 1)) if signed else (0, 2 ** (8 * w))
            if not it.vc.decide(z3.And(t >= lo, t < hi)):
                raise PyRaise(struct.error('argument out of range'))
            if signed:
                t = z3.If(t < 0, t + 2 ** (8 * w), t)
            out = concat('bytes', out, Rope('bytes', [Lit([z3.simplify((t / 256 ** (w - 1 - k)) % 256 if k else t / 256 ** (w - 1)) if w > 1
                                                           else z3.simplify(t) for k in range(w)])]))
        elif c in 'fd':
            if x is None:
                if isinstance(v, Opq):
                    raise Unsupported(f"pack of {v}")
                raise PyRaise(struct.error('required argument is not a float'))
            t = x[1] if x[0] == 'r' else z3.ToReal(x[1])
            w = 4 if c == 'f' else 8
            if c == 'f' and not it.vc.decide(z3.Function('fits_float32', z3.RealSort(), z3.BoolSort())(t)):
                raise PyRaise(OverflowError('float too large to pack with f format'))
            fs = [z3.Function(f"ieee_{c}_{k}", z3.RealSort(), z3.IntSort())(t) for k in range(w)]
            for q in fs:
                it.vc.axiom(z3.And(q >= 0, q < 256))
            known, terms = it.vc.memo.setdefault(('packed constants', c), {}), it.vc.memo.setdefault(('packed terms', c), {})
            if t.sexpr() not in terms:
                terms[t.sexpr()] = t, fs
                for const, b in known.items():
                    link_packed(it, t, fs, const, b)
            out = concat('bytes', out, Rope('bytes', [Lit(fs)]))
        else:
            raise Unsupported(f"struct format {fmt}")
    return out


# ---------------------------------------------------------------------------------------------------- methods
def ascii_cond(r):
    cs = []
    for p in r.pieces:
        if isinstance(p, Lit):
            cs += [iv(x) < 128 for x in p.items if not isinstance(x, int)]
            if any(isinstance(x, int) and x > 127 for x in p.items):
                cs.append(z3.BoolVal(False))
        elif isinstance(p, Base):
            if p.asc is None:
                raise Unsupported('ascii condition')
            whole = p.off == 0 if isinstance(p.off, int) else False
            cs.append(z3.Or(p.asc, iv(p.n) == 0) if True else None)
        elif isinstance(p, Rep):
            cs.append(iv(p.b) < 128)
        else:
            raise Unsupported('ascii condition of a clipped text')
    return z3.And(True, *cs)


ENC = {'ascii': 'ascii', 'us-ascii': 'ascii'}


def sym_method(it, o, name, args, kw):
    vc = it.vc
    if isinstance(o, MBA):
        if name in ('extend', '__iadd__'):
            it.inplace('Add', o, args[0])
            return None
        if name == 'clear':
            vc.on_write(o, 'rope')
            o.rope = Rope('bytearray', [])
            return None
        if name == 'copy':
            r = MBA(o.rope)
            vc.label(r)
            return r
        o = o.rope
    if isinstance(o, Rope):
        if o.kind == 'str' and name == 'encode':
            enc = (args[0] if args else kw.get('encoding', 'utf-8')).lower()
            errors = args[1] if len(args) > 1 else kw.get('errors', 'strict')
            c = ascii_cond(o)
            if vc.decide(c):
                return Rope('bytes', [Base(p.f, p.off, p.n, p.name, False, p.asc) if isinstance(p, Base) else p for p in o.pieces])
            if enc in ENC and errors == 'strict':
                raise PyRaise(UnicodeEncodeError('ascii', 'x', 0, 1, 'ordinal not in range(128)'))
            key = ('enc', enc, errors, it.rope_key(o))
            if key not in vc.memo:
                if enc in ENC and errors == 'replace':
                    n = o.n
                elif enc.replace('_', '-') in ('latin-1', 'latin1', 'iso-8859-1'):
                    if vc.decide(z3.Bool(vc.fname('beyond_latin1'))):
                        raise PyRaise(UnicodeEncodeError('latin-1', 'x', 0, 1, 'ordinal not in range(256)'))
                    n = o.n
                else:
                    n = vc.int('enclen', 0).t
                    vc.add(n >= iv(o.n) if errors == 'strict' else n >= 0)
                vc.memo[key] = vc.base('encoded', n, 'bytes')
            return vc.memo[key]
        if name == 'join':
            parts = join_parts(it, o, args[0])
            out = []
            for k, p in enumerate(parts):
                if k:
                    out.append(o)
                out.append(p)
            return concat(o.kind, *out)
        if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'format', 'ljust', 'rjust', 'center', 'zfill', 'casefold'):
            if name in ('ljust', 'rjust') and o.kind in ('str', 'bytes'):
                w = it.as_num(args[0])[1]
                fill = args[1] if len(args) > 1 else ' ' if o.kind == 'str' else b' '
                n = z3.simplify(z3.If(w > iv(o.n), w - iv(o.n), 0))
                pad = it.rope_repeat(rope(fill), n)
                return concat(o.kind, o, pad) if name == 'ljust' else concat(o.kind, pad, o)
            key = (name, it.rope_key(o), repr(args), repr(kw))
            if key not in vc.memo:
                n = vc.int(name + '_len', 0).t
                if name in ('strip', 'lstrip', 'rstrip'):
                    vc.add(n <= iv(o.n))
                asc = None
                if o.kind == 'str':
                    asc = z3.Bool(vc.fname(name + '_ascii'))
                    if name in ('strip', 'lstrip', 'rstrip', 'upper', 'lower'):
                        vc.add(z3.Implies(ascii_cond(o), asc))
                        if name in ('upper', 'lower'):
                            vc.add(z3.Implies(ascii_cond(o), n == iv(o.n)))
                vc.memo[key] = vc.base(name, n, o.kind, asc=asc)
            return vc.memo[key]
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isupper', 'isascii', 'isspace', 'isidentifier', 'isalnum', 'isnumeric', 'isdecimal', 'isprintable'):
            if name == 'isascii':
                return SBool(ascii_cond(o))
            key = (name, it.rope_key(o), repr(args))
            if key not in vc.memo:
                vc.memo[key] = z3.Bool(vc.fname(name))
            return SBool(vc.memo[key])
        if name in ('split', 'rsplit', 'partition', 'splitlines'):
            raise Unsupported(f"str.{name}")
    if isinstance(o, SReal) and name == 'is_integer':
        return SBool(z3.ToReal(z3.ToInt(o.t)) == o.t)
    if isinstance(o, SInt) and name == 'bit_length':
        raise Unsupported('bit_length')
    if isinstance(o, SInt) and name == 'to_bytes':
        w = args[0] if args else kw.get('length', 1)
        order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
        if not isinstance(w, int) or kw.get('signed'):
            raise Unsupported('to_bytes')
        t = o.t
        if not vc.decide(z3.And(t >= 0, t < 256 ** w)):
            raise PyRaise(OverflowError('int too big to convert'))
        bs = [z3.simplify((t / 256 ** (w - 1 - k)) % 256) for k in range(w)]
        return Rope('bytes', [Lit(bs if order == 'big' else bs[::-1])])
    from .interp import SymSeq
    if isinstance(o, SymSeq) and name == 'copy':
        return o
    raise Unsupported(f"method {name} of {o!r}")


def builtin_method(it, fn, args, kw):
    """Methods of native objects with symbolic arguments. NotImplemented: call natively."""
    im = I()
    o, name = fn.__self__, fn.__name__
    if isinstance(o, struct.Struct) and name == 'pack':
        return pack(it, o.format, args)
    if isinstance(o, (list, dict, set, collections.deque)) and name in MUTATORS:
        it.vc.on_write(o, '[]')
        if isinstance(o, dict) and args and isinstance(args[0], Sym) and name != 'update':
            raise Unsupported('symbolic dict key')
        if isinstance(o, set) and im.deep_sym(args):
            if name != 'add':
                raise Unsupported('set of symbolic values')
            args = [im.Box(args[0])]
        if im.norm_seq(o) is not o and name not in ('append', 'extend', 'clear'):
            raise Unsupported(f"{name} of a list of unknown length")
        if name == 'extend':
            x = im.norm_seq(args[0])
            if genexp_seq(it, x) is not None and not x.n.generators[0].ifs:
                x = it.e_ListComp(x.n, x.fr)
            args = [[im.Tail(x)] if isinstance(x, im.SymSeq) and it.iterate_needs_rule(x) else it.listof(x)]
        if name in ('sort', 'remove') and (im.deep_sym(o) or im.deep_sym(args) or kw):
            raise Unsupported(name)
        if name in ('pop', 'insert') and args and isinstance(args[0], Sym) and isinstance(o, list):
            raise Unsupported(name)
        try:
            r = fn(*args, **kw)
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as e:
            raise PyRaise(e)
        return r
    if isinstance(o, dict) and name in ('get',) and args and isinstance(args[0], Sym):
        try:
            return it.subscript(o, args[0])
        except PyRaise as e:
            if isinstance(e.exc, KeyError):
                return args[1] if len(args) > 1 else None
            raise
    if isinstance(o, dict) and name in ('get', 'keys', 'values', 'items', 'copy'):
        try:
            r = fn(*args, **kw)
        except Exception as e:
            raise PyRaise(e)
        if isinstance(r, (list, dict, set)):
            it.vc.label(r)
        return r
    if isinstance(o, (list, tuple)) and im.norm_seq(o) is not o:
        if name == 'copy':
            r = list(o)
            it.vc.label(r)
            return r
        raise Unsupported(f"{name} of a list of unknown length")
    if isinstance(o, (list, tuple)) and name in ('index', 'count'):
        if im.deep_sym(o) or im.deep_sym(args):
            n = 0
            for k, x in enumerate(list(o)):
                if x is args[0] or it.truth(it.equal(x, args[0])):
                    if name == 'index':
                        return k
                    n += 1
            if name == 'index':
                raise PyRaise(ValueError('not in list'))
            return n
        return NotImplemented
    if isinstance(o, (str, bytes)) and (im.deep_sym(args) or im.deep_sym(kw) or any(isinstance(a, (im.IGen, types.GeneratorType)) for a in args)):
        if name == 'join':
            parts = join_parts(it, o, args[0])
            if not im.deep_sym(parts):
                return it.native(fn, [parts], {})
            return sym_method(it, rope(o), 'join', [parts], {})
        if name == 'format':
            if len(args) == 1 and isinstance(args[0], SInt) and o.startswith('{') and o.endswith('}') and o.count('{') == 1 and not kw:
                spec = o[1:-1].lstrip('0') if ':' not in o else o[1:-1].split(':', 1)[1]
                return format_int(it, args[0], spec)
            return it.opaque_text()
        if name in ('startswith', 'endswith', 'encode', 'replace', 'strip'):
            return sym_method(it, rope(o), name, args, kw)
        raise Unsupported(f"{type(o).__name__}.{name}")
    import re
    if isinstance(o, re.Pattern) and args and isinstance(args[0], Rope):
        key = ('re', o.pattern, o.flags, name, it.rope_key(args[0]))
        if key not in it.vc.memo:
            t = charset.matches(it, o, name, args[0]) if len(args) == 1 and not kw else None
            it.vc.memo[key] = z3.Bool(it.vc.fname('matches')) if t is None else t
        return Opq(re.Match, 'match') if it.vc.decide(it.vc.memo[key]) else None
    return NotImplemented


MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', '__setitem__', '__delitem__', 'appendleft', 'popleft'}


def install(it):
    import builtins as b
    m = it.models
    m.update({len: m_len, isinstance: m_isinstance, type: m_type, int: m_int, float: m_float, bool: m_bool, str: m_str, repr: m_repr,
              bytearray: m_bytearray, bytes: m_bytes, min: m_minmax('min'), max: m_minmax('max'), abs: m_abs, sum: m_sum, round: m_round,
              divmod: m_divmod, range: m_range, enumerate: m_enumerate, zip: m_zip, map: m_map, filter: m_filter, any: m_anyall('any'),
              all: m_anyall('all'), next: m_next, iter: m_iter, list: m_list(list), tuple: m_list(tuple), set: m_set, dict: m_dict,
              getattr: m_getattr, hasattr: m_hasattr, setattr: m_setattr, callable: m_callable, sorted: m_sorted, reversed: m_reversed,
              id: m_id, ord: m_ord, functools.wraps: m_wraps, timeit.timeit: m_timeit, print: m_print, functools.partial: m_partial,
              frozenset: m_set, slice: lambda it, *a: slice(*a)})
    from . import npnum
    import re
    for nm in ('fullmatch', 'match', 'search'):
        m[getattr(re, nm)] = lambda it, p, s, flags=0, _n=nm: it.call(getattr(re.compile(p, flags), _n), [s])
    npnum.install(it)
    m[struct.pack] = lambda it, fmt, *a: pack(it, fmt, a)
    m[object.__setattr__] = lambda it, o, n, v: it.raw_setattr(o, n, v)
    try:
        import progressbar
        m[progressbar.progressbar] = lambda it, x, *a, **k: x
    except ImportError:
        pass


def trusted_names():
    return ['CPython builtins and operators on int/bool/str/bytes/bytearray/list/dict as modelled in pyvc/models.py and pyvc/interp.py',
            'struct.Struct.pack for integer formats; IEEE packing of floats is an uninterpreted function',
            'logging and progressbar have no effect on the data', 'str()/repr() of objects in messages terminate without effects']
