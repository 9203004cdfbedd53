"""numpy models (trusted): numbers in one-dimensional arrays of unknown length.

Elements are integers (with numpy's wrap-around) or finite reals; arithmetic between floating-point values is an unknown
function per operation and dtype (so equal operands give equal results; the sign of a difference is the exact one).
Statements about all elements are atoms with a witness: forall(p) holds, or p fails at the witness; instances are drawn
from the witnesses known in the path.  Numbers taken from an array are Python numbers; NaN and infinities are left out.
"""
from __future__ import annotations

import numpy as np

from .sym import *
from .npmodel import Arr, native, term_of, wrap, install as install_arrays
from . import npmodel

R, Z = z3.RealSort(), z3.IntSort()
GEN = z3.Int('J!generic')


def rng_of(d):
    i = np.iinfo(d)
    return int(i.min), int(i.max)


def exact(a, b):
    return np.can_cast(a, b, 'safe') and a.kind in 'iuf'


def num(vc, d, v):
    """The number named v of dtype d."""
    v = iv(v)
    d = native(d)
    nm = v.decl().name() if z3.is_app(v) else ''
    if nm.startswith('cast_'):
        a = np.dtype(nm.split('_')[1])
        if exact(a, d):
            t = num(vc, a, v.arg(0))
            return z3.simplify(z3.ToReal(t)) if d.kind == 'f' and a.kind in 'iu' else t
    t = z3.Function('num_' + d.name, Z, R if d.kind == 'f' else Z)(v)
    if d.kind in 'iu':
        lo, hi = rng_of(d)
        vc.axiom(z3.And(t >= lo, t <= hi))
    return t


class Pool:
    """Universal statements and the indices they are instantiated at."""

    def __init__(self):
        self.univ, self.inst, self.atoms, self.done = [], [], {}, set()

    def clone(self):
        p = Pool()
        p.univ, p.inst, p.atoms, p.done = list(self.univ), list(self.inst), dict(self.atoms), set(self.done)
        return p


def pool(vc):
    p = getattr(vc, 'npool', None)
    if p is None:
        p = vc.npool = Pool()
    return p


def saturate(vc):
    p = pool(vc)
    k = 0
    while k < len(p.univ):
        key, n, atom, pred = p.univ[k]
        for t in list(p.inst):
            if (key, t.sexpr()) in p.done:
                continue
            p.done.add((key, t.sexpr()))
            vc.axiom(z3.Implies(z3.And(atom, t >= 0, t < n), pred(vc, t)))
        k += 1


def instance(vc, t):
    p = pool(vc)
    t = z3.simplify(iv(t))
    if not any(t.eq(x) for x in p.inst):
        p.inst.append(t)
        saturate(vc)


def forall(vc, n, pred):
    n = z3.simplify(iv(n))
    p = pool(vc)
    g = z3.simplify(pred(vc, GEN))
    if z3.is_true(g):
        return z3.BoolVal(True)
    key = 'all', n.sexpr(), g.sexpr()
    if key not in p.atoms:
        a, w = z3.Bool(vc.fname('all')), z3.Int(vc.fname('witness'))
        p.atoms[key] = a
        vc.axiom(z3.Implies(n <= 0, a))
        vc.axiom(z3.Implies(z3.Not(a), z3.And(w >= 0, w < n, z3.Not(pred(vc, w)))))
        p.univ.append((key, n, a, pred))
        instance(vc, w)
        instance(vc, z3.IntVal(0))
        saturate(vc)
    return p.atoms[key]


def extreme(vc, n, f, d, least):
    n = z3.simplify(iv(n))
    p = pool(vc)
    key = 'min' if least else 'max', n.sexpr(), z3.simplify(f(vc, GEN)).sexpr()
    if key not in p.atoms:
        m = z3.Const(vc.fname(key[0]), R if d.kind == 'f' else Z)
        w = z3.Int(vc.fname('witness'))
        p.atoms[key] = m
        vc.axiom(z3.And(w >= 0, w < n, m == f(vc, w)))
        p.univ.append((key, n, z3.BoolVal(True), (lambda vc, j: m <= f(vc, j)) if least else (lambda vc, j: m >= f(vc, j))))
        instance(vc, w)
        saturate(vc)
    return p.atoms[key]


class NpReal(SReal):
    """A numpy scalar (used like a Python float)."""
    numpy = True


class NpInt(SInt):
    numpy = True


def scalar(t):
    t = z3.simplify(t)
    return NpReal(t) if t.sort() == R else NpInt(t)


def truth(t):
    t = z3.simplify(t)
    return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)


def opaque(name, vc, *args):
    return z3.Function(name, *[a.sort() for a in args], R)(*args)


def arith(vc, op, d, a, b):
    """One operation in dtype d (None: float64)."""
    if d.kind in 'iu' and op in ('Add', 'Sub', 'Mult'):
        t = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
        lo, hi = rng_of(d)
        if vc.entails(z3.And(t >= lo, t <= hi)):
            return t
        return z3.simplify((t - lo) % (hi - lo + 1) + lo)
    x, y = (z3.ToReal(q) if q.sort() == Z else q for q in (a, b))
    x, y = z3.simplify(x), z3.simplify(y)
    t = opaque(f"float_{op}_{d.name}", vc, x, y)
    if op == 'Sub':
        vc.axiom(z3.And((t > 0) == (x > y), (t < 0) == (x < y)))
    return t


class NArr(Opq):
    """n numbers; uniq: the distinct values of that sequence, ascending (only their number, extremes and all/any are known)."""

    def __init__(self, dt, n, fn, uniq=None):
        self.dt, self.n, self.fn, self.uniq = dt, z3.simplify(iv(n)), fn, uniq
        super().__init__(np.ndarray, 'numbers', {'dtype': dt, 'ndim': 1, 'shape': (self.count(),), 'size': self.count()})
        self.methods = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('m_')}

    def count(self):
        return wrap(self.uniq if self.uniq is not None else self.n)

    @staticmethod
    def of(v):
        if isinstance(v, NArr):
            return v
        if isinstance(v, Arr) and len(v.shape) == 1 and v.struct is None and not v.flip and v.dt.kind in 'iuf':
            return NArr(native(v.dt), term_of(v.shape[0]), lambda vc, j: num(vc, v.dt, v.val(vc, (z3.simplify(iv(j)),))))
        return None

    def some(self, it):
        if not it.vc.decide(self.n > 0):
            raise PyRaise(ValueError('zero-size array'))

    def m_min(self, it, *a, **k):
        self.plain(a, k)
        self.some(it)
        return scalar(extreme(it.vc, self.n, self.fn, self.dt, True))

    def m_max(self, it, *a, **k):
        self.plain(a, k)
        self.some(it)
        return scalar(extreme(it.vc, self.n, self.fn, self.dt, False))

    def m_item(self, it):
        raise Unsupported('item')

    def m_copy(self, it):
        return self

    def m_astype(self, it, dt, copy=True):
        d = it.call(np.dtype, [dt])
        if d == self.dt:
            return self
        if not exact(self.dt, d):
            raise Unsupported('conversion of numbers')
        if d.kind == 'f' and self.dt.kind in 'iu':
            return NArr(d, self.n, lambda vc, j: z3.ToReal(self.fn(vc, j)), self.uniq)
        return NArr(d, self.n, self.fn, self.uniq)

    def plain(self, a, k):
        if a or k:
            raise Unsupported('numpy reduction with options')

    def m___len__(self, it):
        return self.count()

    def m___getitem__(self, it, k):
        if isinstance(k, slice):
            if self.uniq is not None or k.step is not None:
                raise Unsupported('slice of numbers')
            nn = wrap(self.n)
            a, b = it.clamp(k.start, nn if isinstance(nn, int) else self.n, 0), it.clamp(k.stop, nn if isinstance(nn, int) else self.n, self.n)
            ln = z3.simplify(iv(b) - iv(a))
            ln = z3.simplify(z3.If(ln < 0, 0, ln)) if not it.vc.valid(ln >= 0) else ln
            return NArr(self.dt, ln, lambda vc, j: self.fn(vc, z3.simplify(iv(a) + j)))
        x = it.as_num(k)
        if x is None or x[0] != 'i':
            raise Unsupported('index of numbers')
        n = self.uniq if self.uniq is not None else self.n
        if not it.vc.decide(z3.And(x[1] < n, x[1] >= -n)):
            raise PyRaise(IndexError('out of bounds'))
        if self.uniq is not None:
            if k == 0:
                return self.m_min(it)
            if k == -1:
                return self.m_max(it)
            raise Unsupported('index of distinct values')
        i = z3.simplify(x[1] if it.vc.valid(x[1] >= 0) else z3.If(x[1] < 0, x[1] + n, x[1]))
        instance(it.vc, i)
        return scalar(self.fn(it.vc, i))

    # ---- element-wise
    def pair(self, it, other):
        """(element function of the other operand, dtype of the result, uniq)"""
        o = NArr.of(other)
        if o is not None:
            if self.uniq is not None or o.uniq is not None:
                raise Unsupported('distinct values combined')
            if not it.vc.decide(self.n == o.n):
                if it.vc.decide(z3.Or(self.n == 1, o.n == 1)):
                    raise Unsupported('broadcast')
                raise PyRaise(ValueError('operands could not be broadcast together'))
            return o.fn, np.promote_types(self.dt, o.dt), None
        x = it.as_num(other)
        if x is None:
            raise Unsupported(f"numbers and {other!r}")
        d = self.dt if x[0] == 'i' or self.dt.kind == 'f' else np.dtype('f8')
        return lambda vc, j: x[1], d, self.uniq

    def op(self, it, name, other, swap=False):
        g, d, u = self.pair(it, other)
        if name == 'Div' and d.kind in 'iu':
            d = np.dtype('f8')

        def fn(vc, j):
            a, b = self.fn(vc, j), g(vc, j)
            return arith(vc, name, d, *((b, a) if swap else (a, b)))
        return NArr(d, self.n, fn, u)

    def m_Add(self, it, o): return self.op(it, 'Add', o)
    def m_rAdd(self, it, o): return self.op(it, 'Add', o, True)
    def m_Sub(self, it, o): return self.op(it, 'Sub', o)
    def m_rSub(self, it, o): return self.op(it, 'Sub', o, True)
    def m_Mult(self, it, o): return self.op(it, 'Mult', o)
    def m_rMult(self, it, o): return self.op(it, 'Mult', o, True)
    def m_Div(self, it, o): return self.op(it, 'Div', o)
    def m_rDiv(self, it, o): return self.op(it, 'Div', o, True)
    def m_Pow(self, it, o): return self.op(it, 'Pow', o)

    def unary(self, name):
        return NArr(self.dt, self.n, lambda vc, j: opaque(f"float_{name}_{self.dt.name}", vc, *[z3.ToReal(t) if t.sort() == Z else t for t in [self.fn(vc, j)]]), self.uniq)

    def m_USub(self, it):
        return NArr(self.dt, self.n, lambda vc, j: -self.fn(vc, j), self.uniq)

    def compare(self, it, name, other):
        g, d, u = self.pair(it, other)

        def fn(vc, j):
            a, b = self.fn(vc, j), g(vc, j)
            if a.sort() != b.sort():
                a, b = (z3.ToReal(t) if t.sort() == Z else t for t in (a, b))
            return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[name]
        return BArr(self.n, fn, u)

    def m_Eq(self, it, o): return self.compare(it, 'Eq', o)
    def m_NotEq(self, it, o): return self.compare(it, 'NotEq', o)
    def m_Lt(self, it, o): return self.compare(it, 'Lt', o)
    def m_LtE(self, it, o): return self.compare(it, 'LtE', o)
    def m_Gt(self, it, o): return self.compare(it, 'Gt', o)
    def m_GtE(self, it, o): return self.compare(it, 'GtE', o)

    def m_all(self, it, *a, **k):
        return self.m_NotEq(it, 0).m_all(it)

    def m_any(self, it, *a, **k):
        return self.m_NotEq(it, 0).m_any(it)


class BArr(Opq):
    def __init__(self, n, fn, uniq=None):
        self.n, self.fn, self.uniq = n, fn, uniq
        super().__init__(np.ndarray, 'booleans', {'dtype': np.dtype(bool), 'ndim': 1})
        self.methods = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('m_')}

    def m_all(self, it):
        return truth(forall(it.vc, self.n, self.fn))

    def m_any(self, it):
        return truth(z3.Not(forall(it.vc, self.n, lambda vc, j: z3.Not(self.fn(vc, j)))))

    def m___len__(self, it):
        return wrap(self.uniq if self.uniq is not None else self.n)

    def m_Invert(self, it):
        return BArr(self.n, lambda vc, j: z3.Not(self.fn(vc, j)), self.uniq)

    def both(self, it, o, f):
        if not isinstance(o, BArr) or not self.n.eq(o.n) or (self.uniq is None) != (o.uniq is None) or self.uniq is not None and not self.uniq.eq(o.uniq):
            raise Unsupported('booleans combined')
        return BArr(self.n, lambda vc, j: f(self.fn(vc, j), o.fn(vc, j)), self.uniq)

    def m_BitAnd(self, it, o): return self.both(it, o, z3.And)
    def m_BitOr(self, it, o): return self.both(it, o, z3.Or)


def as_narr(v, what):
    a = NArr.of(v)
    if a is None:
        raise Unsupported(f"{what} of {v!r}")
    return a


def m_diff(it, v, *a, **k):
    im = npmodel.I()
    if not im.deep_sym(v):
        return it.native(np.diff, [v, *a], k)
    if a or k:
        raise Unsupported('np.diff with options')
    x = as_narr(v, 'np.diff')
    if x.uniq is not None:
        raise Unsupported('np.diff of distinct values')
    n = z3.simplify(x.n - 1)
    if not it.vc.valid(n >= 0):
        n = z3.simplify(z3.If(n < 0, 0, n))
    return NArr(x.dt, n, lambda vc, j: arith(vc, 'Sub', x.dt, x.fn(vc, z3.simplify(iv(j) + 1)), x.fn(vc, j)))


def m_unique(it, v, *a, **k):
    im = npmodel.I()
    if not im.deep_sym(v):
        return it.native(np.unique, [v, *a], k)
    if a or k:
        raise Unsupported('np.unique with options')
    x = as_narr(v, 'np.unique')
    if x.uniq is not None:
        return x
    vc = it.vc
    key = 'unique', x.n.sexpr(), z3.simplify(x.fn(vc, GEN)).sexpr()
    p = pool(vc)
    if key not in p.atoms:
        u = z3.Int(vc.fname('n_distinct'))
        p.atoms[key] = u
        same = forall(vc, x.n, lambda vc, j: x.fn(vc, j) == x.fn(vc, z3.IntVal(0)))
        vc.axiom(z3.And(u >= 0, u <= x.n, (u == 0) == (x.n == 0), z3.Implies(x.n > 0, (u == 1) == same)))
    return NArr(x.dt, x.n, x.fn, p.atoms[key])


def m_median(it, v, *a, **k):
    im = npmodel.I()
    if not im.deep_sym(v):
        return it.native(np.median, [v, *a], k)
    x = as_narr(v, 'np.median')
    if a or k or x.uniq is not None:
        raise Unsupported('np.median')
    x.some(it)
    vc = it.vc
    key = 'median', x.n.sexpr(), z3.simplify(x.fn(vc, GEN)).sexpr()
    p = pool(vc)
    if key not in p.atoms:
        p.atoms[key] = z3.Real(vc.fname('median'))
    return NpReal(p.atoms[key])


def m_isfinite(it, v, *a, **k):
    im = npmodel.I()
    if not im.deep_sym(v):
        return it.native(np.isfinite, [v, *a], k)
    it.vc.trusted.add('the numbers of an index channel are finite')
    x = NArr.of(v)
    if x is None:
        if it.as_num(v) is None:
            raise Unsupported('np.isfinite')
        return True
    return BArr(x.n, lambda vc, j: z3.BoolVal(True), x.uniq)


def m_isnan(it, v, *a, **k):
    r = m_isfinite(it, v, *a, **k)
    return r.m_Invert(it) if isinstance(r, BArr) else (not r if r is True else it.native(np.isnan, [v], {}))


def reduction(f, name):
    def m(it, v, *a, **k):
        im = npmodel.I()
        if not im.deep_sym(v):
            return it.native(f, [v, *a], k)
        if a or k:
            raise Unsupported(f"np.{name} with options")
        x = v if isinstance(v, (BArr, NArr)) else NArr.of(v)
        if x is None or name not in x.methods:
            raise Unsupported(f"np.{name} of {v!r}")
        return x.methods[name](it)
    return m


def elementwise(f, name):
    def m(it, v, *a, **k):
        im = npmodel.I()
        if not im.deep_sym(v):
            return it.native(f, [v, *a], k)
        if a or k:
            raise Unsupported(f"np.{name} with options")
        return as_narr(v, name).unary(name)
    return m


def delegate(name):
    def m(self, it, *a, **k):
        x = NArr.of(self)
        if x is None:
            raise Unsupported(f"{name} of {self!r}")
        it.vc.trusted.add('numpy: numbers in arrays')
        return x.methods[name](it, *a, **k)
    return m


for _n in ('min', 'max', 'all', 'any', 'Add', 'rAdd', 'Sub', 'rSub', 'Mult', 'rMult', 'Div', 'rDiv', 'Pow', 'USub', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE'):
    setattr(Arr, 'm_' + _n, delegate(_n))


def install(it):
    install_arrays(it)
    it.models.update({np.diff: m_diff, np.unique: m_unique, np.median: m_median, np.isfinite: m_isfinite, np.isnan: m_isnan,
                      np.abs: elementwise(np.abs, 'abs'), np.square: elementwise(np.square, 'square')})
    for f, nm in ((np.min, 'min'), (np.max, 'max'), (np.all, 'all'), (np.any, 'any'), (np.amin, 'min'), (np.amax, 'max')):
        it.models[f] = reduction(f, nm)
