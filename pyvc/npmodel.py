"""numpy models (trusted): only what numpy documents about the shape and the dtype of arrays."""
from __future__ import annotations

import numpy as np

from .sym import *


def I():
    from . import interp
    return interp


def shape_of(it, v):
    """Shape of np.array(v) for nested lists / tuples of scalars (possibly symbolic); ValueError when not regular."""
    im = I()
    v = im.norm_seq(v)
    if isinstance(v, im.SymSeq):
        e = v.elem(it.vc, z3.IntVal(0))
        if isinstance(e, (list, tuple, im.SymSeq)):
            raise Unsupported('array of an unknown number of lists')
        return (SInt(iv(v.n)),)
    if isinstance(v, (list, tuple)):
        shapes = [shape_of(it, x) for x in v]
        if not shapes:
            return (0,)
        for s in shapes[1:]:
            if len(s) != len(shapes[0]):
                raise PyRaise(ValueError('inhomogeneous shape'))
            for a, b in zip(s, shapes[0]):
                if not it.truth(it.equal(a, b)):
                    raise PyRaise(ValueError('inhomogeneous shape'))
        return (len(v),) + shapes[0]
    if isinstance(v, (SInt, SReal, SBool, int, float, Rope, str)) or v is None:
        return ()
    if isinstance(v, np.ndarray):
        return v.shape
    raise Unsupported(f"np.array of {v!r}")


def m_array(it, v, *a, **k):
    im = I()
    if not im.deep_sym(v, 6) and not im.deep_sym(a) and not im.deep_sym(k):
        return it.native(np.array, [v, *a], k)
    if a or k:
        raise Unsupported('np.array with options')
    it.vc.trusted.add('numpy: shape of np.array(nested lists)')
    return Opq(np.ndarray, 'np.array', {'shape': shape_of(it, v)})


def install(it):
    it.models.update({np.array: m_array})


# ---------------------------------------------------------------------------------------------------- arrays
# A value stored in an array is an integer name v of it; img_D(v, j) is the j-th byte of its big-endian image in dtype D;
# cast_D_E(v) names the value after numpy's conversion from D to E (the identity when they differ in byte order only).

def term_of(x):
    return x.t if isinstance(x, SInt) else iv(x)


def wrap(t):
    t = z3.simplify(iv(t))
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def native(d):
    return d.newbyteorder('=')


def cast(a, b, v):
    if native(a) == native(b):
        return v
    return z3.Function(f"cast_{a.name}_{b.name}", z3.IntSort(), z3.IntSort())(v)


def img(d, v, j):
    return z3.Function(f"img_{d.name}", z3.IntSort(), z3.IntSort(), z3.IntSort())(v, iv(j))


def big(d):
    return d.byteorder == '>'            # (a little-endian machine: '=' , '<' and '|' are not)


class SDT(Opq):
    """A structured dtype: [(name, scalar dtype, shape)] with possibly symbolic shapes."""

    def __init__(self, items):
        self.items = [(n, np.dtype(d), tuple(s)) for n, d, s in items]
        names = tuple(n for n, _, _ in self.items)
        super().__init__(np.dtype, 'structured dtype', {'names': names, 'ndim': 0, 'shape': (), 'kind': 'V'})
        self.methods = {'Eq': self.eq, '__getitem__': self.item, '__len__': lambda it: len(self.items)}

    def item(self, it, k):
        for n, d, s in self.items:
            if n == k:
                return d if not s else Opq(np.dtype, 'sub-array dtype', {'base': d, 'shape': s, 'subdtype': (d, s)})
        raise PyRaise(KeyError(k))

    def eq(self, it, other):
        o = sdt(other)
        if o is None or len(o.items) != len(self.items):
            return False
        acc = []
        for (n, d, s), (m, e, u) in zip(self.items, o.items):
            if n != m or d != e or len(s) != len(u):
                return False
            acc += [term_of(a) == term_of(b) for a, b in zip(s, u)]
        if not acc:
            return True
        t = z3.simplify(z3.And(*acc))
        return True if z3.is_true(t) else False if z3.is_false(t) else SBool(t)


def sdt(d):
    if isinstance(d, SDT):
        return d
    if isinstance(d, np.dtype) and d.names:
        return SDT([(n, d[n].base, d[n].shape) for n in d.names])
    return None


def m_dtype(it, *a, **k):
    im = I()
    if not im.deep_sym(a, 6) and not im.deep_sym(k):
        return it.native(np.dtype, list(a), k)
    if len(a) == 1 and not k:
        if isinstance(a[0], SDT):
            return a[0]
        if isinstance(a[0], list):
            out = []
            for x in a[0]:
                s = x[2] if len(x) > 2 else ()
                out.append((x[0], np.dtype(x[1]), tuple(s) if isinstance(s, (tuple, list)) else (s,)))
            if len({x[0] for x in out}) < len(out):
                raise PyRaise(ValueError('field name occurs more than once'))
            return SDT(out)
    raise Unsupported('np.dtype of symbolic values')


class Arr(Opq):
    """A numpy array (or scalar). val: function (vc, indices) -> name of the value, or {field: function} for structured ones."""

    def __init__(self, dt, shape, val, tag='array', root=None, frozen=False, flip=False, typ=None):
        self.dt, self.shape, self.val, self.flip = dt, tuple(shape), val, flip
        self.struct = sdt(dt)
        if typ is None:
            typ = np.ndarray if self.shape else (np.void if self.struct is not None else dt.type)
        super().__init__(typ, tag, {})
        self.root, self.frozen = root if root is not None else self, frozen
        self.version = 0                    # number of stores
        size = z3.IntVal(1)
        for d in self.shape:
            size = size * term_of(d)
        self.fields = {'dtype': dt, 'shape': self.shape, 'ndim': len(self.shape), 'size': wrap(size) if len(self.shape) < 2 else None}
        if self.fields['size'] is None:
            del self.fields['size']
        if self.struct is None:
            self.fields['itemsize'] = dt.itemsize
            self.fields['nbytes'] = wrap(size * dt.itemsize) if len(self.shape) < 2 else None
            if self.fields['nbytes'] is None:
                del self.fields['nbytes']
        self.fields['flags'] = Opq(object, 'flags', {'writeable': not self.root.frozen})
        self.methods = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('m_')}
        for k in ('getitem', 'setitem', 'len', 'iter', 'setattr'):
            self.methods[f'__{k}__'] = getattr(self, 'd_' + k)
        self.methods['Eq'] = self.d_eq

    field_of = None

    def view(self, shape, val, dt=None, typ=None):
        root, version = self.root, self.root.version

        def current(f):
            def g(vc, j):
                if root.version != version:
                    raise Unsupported('use of a view of an array which was stored into afterwards')
                return f(vc, j)
            return g
        val = {n: current(f) for n, f in val.items()} if isinstance(val, dict) else current(val)
        return Arr(dt if dt is not None else self.dt, shape, val, self.tag, root=root, flip=self.flip, typ=typ)

    def touched(self, it, what):
        if self.root.frozen:
            it.vc.prove('the data of the caller is left as it was', False, f"{what} on {self.root.tag}")
            from .vc import PathEnd
            raise PathEnd()

    def d_eq(self, it, other):
        if other is None or isinstance(other, (str, bytes)):
            return False
        from .npnum import NArr
        if NArr.of(self) is None:
            raise Unsupported('comparison of arrays')
        return NArr.of(self).m_Eq(it, other)

    def d_len(self, it):
        if not self.shape:
            raise PyRaise(TypeError('len() of unsized object'))
        return self.shape[0]

    def row(self, vc, i):
        rest = self.shape[1:]
        if self.struct is not None:
            return self.view(rest, {n: (lambda vc, k, f=f: f(vc, (i,) + k)) for n, f in self.val.items()})
        return self.view(rest, lambda vc, k: self.val(vc, (i,) + k))

    def d_iter(self, it):
        if not self.shape:
            if self.struct is not None:
                return [self.d_getitem(it, n) for n, _, _ in self.struct.items]
            raise PyRaise(TypeError('iteration over a 0-d array'))
        return I().SymSeq(self.tag + ' rows', term_of(self.shape[0]), self.row)

    def d_getitem(self, it, k):
        if isinstance(k, str):
            if self.struct is None:
                raise PyRaise(IndexError('only integers and slices are valid indices'))
            for n, d, s in self.struct.items:
                if n == k:
                    typ = None if self.shape or s else d.type
                    v = self.view(self.shape + s, self.val[n], d, typ)
                    if self.root is self:
                        v.field_of = (self, n)
                    return v
            raise PyRaise((ValueError if self.shape else ValueError)(f"no field of name {k}"))
        if not self.shape:
            if self.struct is not None and isinstance(k, int):
                return self.d_getitem(it, self.struct.items[k][0])
            raise PyRaise(IndexError('scalar'))
        n = term_of(self.shape[0])
        if isinstance(k, slice):
            if k.step is not None and not (isinstance(k.step, int) and k.step == 1):
                raise Unsupported('array slice step')
            nn = self.shape[0] if isinstance(self.shape[0], int) else n
            a, b = it.clamp(k.start, nn, 0), it.clamp(k.stop, nn, nn)
            ln = z3.simplify(iv(b) - iv(a))
            if not it.vc.valid(ln >= 0):
                ln = z3.simplify(z3.If(ln < 0, 0, ln))
            off = iv(a)
            sh = (wrap(ln),) + self.shape[1:]
            if self.struct is not None:
                return self.view(sh, {m: (lambda vc, j, f=f: f(vc, (z3.simplify(off + j[0]),) + j[1:])) for m, f in self.val.items()})
            return self.view(sh, lambda vc, j: self.val(vc, (z3.simplify(off + j[0]),) + j[1:]))
        if isinstance(k, tuple):
            if not k:
                return self
            if all(isinstance(x, slice) and x.start is None and x.stop is None and x.step is None for x in k[1:]):
                return self.d_getitem(it, k[0])
            raise Unsupported('multi-dimensional index')
        x = it.as_num(k)
        if x is None or x[0] != 'i':
            raise Unsupported('array index')
        i = x[1]
        if not it.vc.decide(z3.And(i < n, i >= -n)):
            raise PyRaise(IndexError('out of bounds'))
        if not it.vc.valid(i >= 0):
            i = z3.If(i < 0, i + n, i)
        return self.row(it.vc, z3.simplify(i))

    def d_setitem(self, it, k, v):
        self.touched(it, 'item assignment')
        if self.field_of is not None and (k is Ellipsis or self.whole(it, k)):
            return self.field_of[0].d_setitem(it, self.field_of[1], v)
        if self.root is not self or self.struct is None or not isinstance(k, str) or self.flip:
            raise Unsupported('array item assignment')
        for n, d, s in self.struct.items:
            if n == k:
                break
        else:
            raise PyRaise(ValueError(f"no field of name {k}"))
        if not isinstance(v, Arr) or v.struct is not None or v.flip:
            raise Unsupported('array assignment from something else')
        want = self.shape + s
        if len(v.shape) > len(want):
            raise Unsupported('array assignment from more dimensions')
        pad = len(want) - len(v.shape)
        pick = []
        for q, dim in enumerate(v.shape):
            w = want[pad + q]
            if it.vc.decide(term_of(dim) == term_of(w)):
                pick.append(True)
            elif it.vc.decide(term_of(dim) == 1):
                pick.append(False)
            else:
                raise PyRaise(ValueError('could not broadcast input array'))
        old = v.val

        def val(vc, j):
            return cast(v.dt, d, old(vc, tuple(x if p else z3.IntVal(0) for x, p in zip(j[pad:], pick))))
        self.val = dict(self.val)
        self.val[n] = val
        self.version += 1

    def whole(self, it, k):
        if not (isinstance(k, slice) and k.step is None and self.shape):
            return False
        n = term_of(self.shape[0])
        a, b = (x if x is None else it.as_num(x) for x in (k.start, k.stop))
        return (a is None or it.vc.valid(a[1] == 0)) and (b is None or it.vc.valid(b[1] >= n))

    def d_setattr(self, it, name, v):
        self.touched(it, f"assignment of .{name}")
        raise Unsupported(f"assignment of .{name} of an array")

    def store(name):
        def f(self, it, *a, **k):
            self.touched(it, name)
            raise Unsupported(f"{name} of an array")
        return f
    m_sort, m_fill, m_partition, m_put = store('sort'), store('fill'), store('partition'), store('put')
    m_resize, m_setflags, m_setfield = store('resize'), store('setflags'), store('setfield')
    del store

    # ---- methods
    def m_byteswap(self, it, inplace=False):
        if inplace and not self.shape and self.struct is None:
            raise PyRaise(ValueError('cannot byteswap a scalar in-place'))
        if inplace:
            self.touched(it, 'byteswap')
            raise Unsupported('in-place byteswap')
        if self.struct is not None:
            raise Unsupported('byteswap of structured data')
        return Arr(self.dt, self.shape, self.val, self.tag, flip=not self.flip, typ=self.typ)

    def m_copy(self, it, order='C'):
        return Arr(self.dt, self.shape, self.val, self.tag, flip=self.flip, typ=self.typ)
    m___copy__ = m_copy

    def m_astype(self, it, dt, copy=True, **k):
        if k or self.struct is not None or self.flip:
            raise Unsupported('astype')
        d = it.call(np.dtype, [dt])
        if not isinstance(d, np.dtype) or d.names:
            raise Unsupported('astype')
        if d == self.dt and self.shape and copy is not True and not it.truth(copy):
            return self
        return Arr(d, self.shape, lambda vc, j: cast(self.dt, d, self.val(vc, j)), self.tag)

    def m_view(self, it, dt=None):
        if dt is None:
            return self
        d = it.call(np.dtype, [dt])
        if self.struct is not None or not isinstance(d, np.dtype) or native(d) != native(self.dt):
            raise Unsupported('view')
        r = Arr(d, self.shape, self.val, self.tag, root=self.root)
        r.flip = self.flip != (big(d) != big(self.dt))
        return r

    def m_flatten(self, it, order='C'):
        if len(self.shape) != 1:
            raise Unsupported('flatten')
        return self
    m_ravel = m_flatten

    def m_tobytes(self, it, order='C'):
        if self.struct is not None:
            raise Unsupported('tobytes of structured data')
        d, isz = self.dt, self.dt.itemsize
        be = big(d) != self.flip
        if len(self.shape) == 0:
            v = self.val(it.vc, ())
            f = lambda k: img(d, v, k if be or isz == 1 else isz - 1 - k)
            return Rope('bytes', [Base(memo(it, self, 'tobytes', f), 0, isz, 'array')])
        if len(self.shape) == 1:
            w = term_of(self.shape[0])
            f = lambda k: img(d, self.val(it.vc, (z3.simplify(iv(k) / isz),)), z3.simplify(iv(k) % isz if be else isz - 1 - iv(k) % isz))
            n = z3.simplify(w * isz)
            return Rope('bytes', [Base(memo(it, self, 'tobytes', f), 0, n.as_long() if z3.is_int_value(n) else n, 'array')])
        raise Unsupported('tobytes of a table')
    m___bytes__ = m_tobytes


def memo(it, arr, what, f):
    return f


def m_zeros(it, shape, dtype=float, **k):
    if k:
        raise Unsupported('np.zeros with options')
    if isinstance(shape, (tuple, list)):
        if len(shape) != 1:
            raise Unsupported('np.zeros of a table')
        shape = shape[0]
    d = dtype if isinstance(dtype, SDT) else it.call(np.dtype, [dtype])
    if not it.vc.decide(term_of(shape) >= 0):
        raise PyRaise(ValueError('negative dimensions are not allowed'))
    zero = lambda vc, j: z3.Int('value_zero')
    if sdt(d) is not None:
        r = Arr(d, (shape,), {n: zero for n, _, _ in sdt(d).items}, 'chunk')
    else:
        r = Arr(d, (shape,), zero, 'chunk')
    it.vc.label(r)
    return r


def m_asarray(it, v, *a, **k):
    if isinstance(v, Arr) and not a and not k:
        return v
    return m_array(it, v, *a, **k)


def source(vc, name, dt, shape, frozen=True, typ=None):
    """An array of the caller: any values."""
    s = sdt(dt)

    def fun(nm, nd):
        f = z3.Function(vc.fname('data_' + nm), *[z3.IntSort()] * nd, z3.IntSort()) if nd else z3.Int(vc.fname('data_' + nm))
        return lambda vc, j: f(*j) if nd else f
    if s is not None:
        val = {n: fun(f"{name}_{n}", len(shape) + len(u)) for n, _, u in s.items}
    else:
        val = fun(name, len(shape))
    return Arr(dt, shape, val, name, frozen=frozen, typ=typ)


_install0 = install


def install(it):
    _install0(it)
    it.models.update({np.zeros: m_zeros, np.empty: m_zeros, np.dtype: m_dtype, np.asarray: m_asarray, np.ascontiguousarray: m_asarray})
