"""Attributes of metadata objects: from the value the caller assigns to the bytes of the attribute component (C05, C04, C12)."""
import datetime as dt

import z3

from pyvc.sym import *
from pyvc.interp import SymSeq
from pyvc.loops import SpecCat
from pyvc.vc import PathEnd
from . import spec as S
from .core import *
from .core import Exc, Ret
from .o_codes import RC, sym_datetime

A = 'logical_record.core.attribute.attribute:'
T = 'logical_record.core.attribute.subtypes:'


# ------------------------------------------------------------------------------------------------- kinds of attributes
class Kind:
    """How attributes of a kind are made, what the caller may assign, and how the standard encodes it."""

    def __init__(self, name, make, value, code, expected=None, multi=False, units=True, good=None):
        self.name, self.make, self.value, self.code, self.multi, self.units = name, make, value, code, multi, units
        self.expected = expected or (lambda v: v)
        self.good = good                 # condition on an element that makes it encodable (list obligations)


def C(path, *a, **k):
    def make():
        kk = {x: (RC(y[3:]) if isinstance(y, str) and y.startswith('rc:') else y) for x, y in k.items()}
        return real(path)(*a, **kk)
    return make


def fl(v):
    return float(v)


def rng(code):
    return {c: (lo, hi - 1) for c, (_, lo, hi) in S.INT_CODES.items()}.get(code, (0, 2 ** 30 - 1))


NUM = T + 'NumericAttribute'
KINDS = [
    Kind('text', C(T + 'TextAttribute', 'my_label'), lambda s: s.str('v'), 'ASCII', units=False),
    Kind('ident', C(T + 'IdentAttribute', 'my_label'), lambda s: s.str('v'), 'IDENT', units=False),
    Kind('status of a bool', C(T + 'StatusAttribute', 'my_label'), lambda s: s.bool('v'), 'STATUS', lambda v: 1 if v else 0, units=False),
    Kind('status of an int', C(T + 'StatusAttribute', 'my_label'), lambda s: s.int('v'), 'STATUS', units=False),
    Kind('number: int', C(NUM, 'my_label'), lambda s: s.int('v', -2 ** 53, 2 ** 53), 'FDOUBL', fl),
    Kind('number: float', C(NUM, 'my_label'), lambda s: s.real('v'), 'FDOUBL'),
    Kind('int only', C(NUM, 'my_label', int_only=True), lambda s: s.int('v', -2 ** 53, 2 ** 53), 'SLONG'),
    Kind('untyped int', C(A + 'Attribute', 'my_label'), lambda s: s.int('v'), 'SLONG'),
    Kind('untyped float', C(A + 'Attribute', 'my_label'), lambda s: s.real('v'), 'FDOUBL'),
    Kind('untyped text', C(A + 'Attribute', 'my_label'), lambda s: s.str('v'), 'ASCII'),
]
for _c in list(S.INT_CODES) + ['UVARI']:
    KINDS.append(Kind(f"number {_c}", C(NUM, 'my_label', representation_code='rc:' + _c),
                      (lambda c: lambda s: s.int('v', -2 ** 53, 2 ** 53) if c != 'UVARI' else s.int('v', 0, 2 ** 53))(_c), _c))
for _c in ('FSINGL', 'FDOUBL'):
    KINDS.append(Kind(f"number {_c}", C(NUM, 'my_label', representation_code='rc:' + _c), lambda s: s.real('v'), _c))


def with_units(attr, value, units):
    attr.value = value
    if units is not None:
        attr.units = units
    return attr.get_as_bytes()


def encode(code, v):
    if code in S.INT_CODES:
        return S.integer(code, v)
    if code in S.FLOAT_CODES:
        return S.floating(code, v)
    if code == 'UVARI':
        return S.uvari(v)
    if code == 'IDENT':
        return S.ident(v)
    if code == 'ASCII':
        return S.ascii_text(v)
    if code == 'STATUS':
        return S.status(v)
    raise AssertionError(code)


def component(code, count, units, values):
    """RP66 V1 3.2.2.1: an attribute component: descriptor 001CRUV(label absent), count, representation code, units, values."""
    descriptor = 0x21 + 0x04
    body = b''
    if count != 1:
        descriptor += 0x08
        body = S.uvari(count)
    body = body + S.ushort(S.CODE_NUMBERS[code])
    if units is not None and len(units) > 0:
        descriptor += 0x02
        body = body + S.ident(units)
    return S.ushort(descriptor) + body + values


def single_spec(kind):
    def spec(attr, value, units):
        return component(kind.code, 1, units, encode(kind.code, kind.expected(value)))
    return spec


def single(kind):
    def mk(s):
        v = kind.value(s)
        u = s.pick('units given', [None, 'some']) if kind.units else None
        return s.call(kind.make), v, (s.str('units') if u else None)
    return mk


for _k in KINDS:
    relational(f"attribute component: {_k.name}", 'C05 C04 C12', lambda: with_units, single_spec(_k), single(_k), contracts=['write_struct_uvari'])


# ------------------------------------------------------------------------------------------------- lists of any length
MULTI = []
for _md in (False, True):
    _kw = dict(multivalued=True, multidimensional=_md)
    _t = ' (multidimensional)' if _md else ''
    MULTI += [
        Kind('texts' + _t, C(T + 'TextAttribute', 'my_label', **_kw), lambda s: s.str('v'), 'ASCII', units=False, good=lambda s: s.ascii('v', 2 ** 29)),
        Kind('idents' + _t, C(T + 'IdentAttribute', 'my_label', **_kw), lambda s: s.str('v'), 'IDENT', units=False, good=lambda s: s.ascii('v', 255)),
        Kind('numbers: ints' + _t, C(NUM, 'my_label', **_kw), lambda s: s.int('v', -2 ** 53, 2 ** 53), 'FDOUBL', fl),
        Kind('numbers: floats' + _t, C(NUM, 'my_label', **_kw), lambda s: s.real('v'), 'FDOUBL'),
        Kind('numbers SLONG' + _t, C(NUM, 'my_label', representation_code='rc:SLONG', **_kw), lambda s: s.int('v', -2 ** 53, 2 ** 53), 'SLONG', good=lambda s: s.int('v', -2 ** 31, 2 ** 31 - 1)),
        Kind('untyped ints' + _t, C(A + 'Attribute', 'my_label', **_kw), lambda s: s.int('v'), 'SLONG', good=lambda s: s.int('v', -2 ** 31, 2 ** 31 - 1)),
        Kind('untyped floats' + _t, C(A + 'Attribute', 'my_label', **_kw), lambda s: s.real('v'), 'FDOUBL'),
        Kind('untyped texts' + _t, C(A + 'Attribute', 'my_label', **_kw), lambda s: s.str('v'), 'ASCII', good=lambda s: s.ascii('v', 2 ** 29)),
    ]
MULTI.append(Kind('dimensions', C(T + 'DimensionAttribute', 'my_label'), lambda s: s.int('v', -2 ** 53, 2 ** 53), 'UVARI', units=False,
                  good=lambda s: s.int('v', 0, 2 ** 30 - 1)))


def many_spec(kind):
    def spec(attr, values, units):
        b = b''
        for v in values:
            b += encode(kind.code, kind.expected(v))
        return component(kind.code, len(values), units, b)
    return spec


def many_replay(kind):
    def replay(values):
        try:
            src = ConcSrc(values)
            u = src.pick('units given', [None, 'some']) if kind.units else None
            vals = src.list('values', kind.value)
            u = 'm' if u else None
            attr, attr2 = kind.make(), kind.make()
        except ConcSrc.Reject:
            return None
        for vs in (vals, vals[:2], vals * 2, (vals * 200)[:200]):
            if vs:
                d = native_mismatch(native_outcome(with_units, [kind.make(), vs, u]), native_outcome(many_spec(kind), [None, vs, u]))
                if d:
                    return f"{type(attr).__name__} with {len(vs)} values {short(vs)} and units {u!r}: {d}"
        return None
    return replay


def many(kind, bad):
    def body(it, vc):
        src = SymSrc(it)
        u = src.pick('units given', [None, 'some']) if kind.units else None
        units = 'm' if u else None
        attr = it.call(kind.make, [])
        seq = src.list('values', kind.value if bad else kind.good or kind.value, 1, 2 ** 30 - 1)
        elem = seq.elem
        if bad:
            j = vc.int('bad index', 0)
            vc.assume(j.t < iv(seq.n))
            vc.loop_terms['bad'] = j.t
            b = elem(vc, j.t)
            r = outcome(it, encode, [kind.code, it.call(kind.expected, [b])])
            if isinstance(r, Ret):
                return
            vc.cover('precondition')
            r = outcome(it, with_units, [attr, seq, units])
            vc.cover('checked')
            vc.prove('a value that has no encoding is rejected', isinstance(r, Exc), f"{r!r}")
            return

        def contrib(i):
            r = outcome(it, encode, [kind.code, it.call(kind.expected, [elem(vc, i)])])
            if isinstance(r, Exc):
                raise PathEnd()
            return rope(r.v)
        cat = SpecCat(vc, 'encodings', contrib)
        if vc.unroll is not None:
            for k in range(vc.unroll):
                if not vc.decide(z3.IntVal(k) < iv(seq.n)):
                    break
                cat.touch(vc, z3.IntVal(k))
        vc.cover('precondition')
        n = SInt(iv(seq.n))
        r = outcome(it, with_units, [attr, seq, units])
        s = outcome(it, component, [kind.code, n, units, cat.upto(vc, cat.pos(vc, n.t))])
        if isinstance(s, Exc):
            return                                             # (units that cannot be written: see the single-valued contracts)
        relate(it, 'component of a list', r, s)
    return body


def encodable(code, v):
    encode(code, v)


for _k in MULTI:
    obligation(f"attribute component: {_k.name}", 'C05 C04', replay=many_replay(_k))(many(_k, False))
    if not _k.name.endswith(')') and _k.code not in ('FDOUBL',):
        obligation(f"attribute component: {_k.name}, one not encodable", 'C12', replay=many_replay(_k))(many(_k, True))
