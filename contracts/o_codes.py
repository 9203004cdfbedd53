"""Representation codes (C06; used by C01-C05, C07, C08, C12)."""
import datetime as dt

import z3

from pyvc.sym import *
from . import spec as S
from .core import *
from .core import Exc, Ret

W = 'utils.internal.struct_writer:'


def RC(name):
    return getattr(real('utils.internal.internal_enums:RepresentationCode'), name)


def convert(name):
    return lambda: (lambda value: RC(name).convert(value)) if False else RC(name).convert


for _c in S.INT_CODES:
    relational(f"convert[{_c}]", 'C06 C12 C05 C01', convert(_c), (lambda c: lambda value: S.integer(c, value))(_c), lambda s: (s.int('value'),))
    relational(f"write_struct[{_c}]", 'C06 C12 C05', W + 'write_struct', (lambda c: lambda code, value: S.integer(c, value))(_c),
               (lambda c: lambda s: (RC(c), s.int('value')))(_c))
for _c in S.FLOAT_CODES:
    relational(f"write_struct[{_c}]", 'C06 C12 C05', W + 'write_struct', (lambda c: lambda code, value: S.floating(c, value))(_c),
               (lambda c: lambda s: (RC(c), s.real('value')))(_c))
relational('write_struct_uvari', 'C06 C12 C03 C04', W + 'write_struct_uvari', S.uvari, lambda s: (s.int('value', 0),))
relational('write_struct_ident', 'C06 C12 C05 C07', W + 'write_struct_ident', S.ident, lambda s: (s.str('value'),))
relational('write_struct_ascii', 'C06 C12 C05', W + 'write_struct_ascii', S.ascii_text, lambda s: (s.str('value'),), contracts=['write_struct_uvari'])
relational('write_struct_status', 'C06 C12', W + 'write_struct_status', S.status, lambda s: (s.int('value'),))
relational('write_struct[UVARI]', 'C06 C12', W + 'write_struct', lambda c, v: S.uvari(v), lambda s: (RC('UVARI'), s.int('value', 0)))
relational('write_struct[IDENT]', 'C06 C12 C05', W + 'write_struct', lambda c, v: S.ident(v), lambda s: (RC('IDENT'), s.str('value')))
relational('write_struct[ASCII]', 'C06 C12 C05', W + 'write_struct', lambda c, v: S.ascii_text(v), lambda s: (RC('ASCII'), s.str('value')))
relational('write_struct[STATUS]', 'C06 C12 C05', W + 'write_struct', lambda c, v: S.status(v), lambda s: (RC('STATUS'), s.int('value')))


def check_codes():
    E = real('utils.internal.internal_enums:RepresentationCode')
    return [int(getattr(E, c).value) for c in sorted(S.CODE_NUMBERS)]


relational('representation code numbers', 'C06 C04 C08', lambda: check_codes, lambda: [S.CODE_NUMBERS[c] for c in sorted(S.CODE_NUMBERS)], lambda s: ())


# ---- lemmas over the specification: an independent decoder recovers the value and the exact length
def rt_uvari(value):
    return S.read_uvari(S.uvari(value))


def rt_uvari_want(value):
    return value, len(S.uvari(value))


relational('lemma: decoding UVARI', 'C06', lambda: rt_uvari, rt_uvari_want, lambda s: (s.int('value', 0, 2 ** 30 - 1),))


def rt_text(which):
    def f(value, rest):
        enc, dec = (S.ident, S.read_ident) if which == 'ident' else (S.ascii_text, S.read_ascii)
        e = enc(value)
        body, n = dec(e + rest)
        return body, n

    def want(value, rest):
        enc = S.ident if which == 'ident' else S.ascii_text
        return S.text_bytes(value), len(enc(value))
    return f, want


for _w in ('ident', 'ascii'):
    _f, _g = rt_text(_w)
    relational(f"lemma: decoding {_w.upper()}", 'C06', (lambda f: lambda: f)(_f), _g,
               (lambda w: lambda s: (s.str('value', 255 if w == 'ident' else 2 ** 30 - 1), s.bytes('rest')))(_w))


# ---- DTIME: any date-time; its UTC equivalent is what has to be found in the bytes
def sym_datetime(it, src, tag=''):
    """A datetime whose only admissible use is astimezone(UTC); the result is its UTC equivalent."""
    vc = it.vc
    F = [('year', 1, 9999), ('month', 1, 12), ('day', 1, 31), ('hour', 0, 23), ('minute', 0, 59), ('second', 0, 59), ('microsecond', 0, 999999)]
    utc = Opq(dt.datetime, 'utc' + tag, {k: src.int(k + tag, lo, hi) for k, lo, hi in F})
    loc = {k: vc.int('local_' + k + tag, lo, hi) for k, lo, hi in F}

    def astimezone(it2, tz=None):
        if tz is dt.timezone.utc:
            return utc
        return Opq(dt.datetime, 'other zone', {k: vc.int('other_' + k, lo, hi) for k, lo, hi in F})
    utc.methods['astimezone'] = astimezone
    return Opq(dt.datetime, 'date-time' + tag, loc, methods={'astimezone': astimezone}), utc


def dtime_obl(call):
    def body(it, vc):
        src = SymSrc(it)
        d, u = sym_datetime(it, src)
        vc.cover('precondition')
        r = outcome(it, *call(d))
        y = u.fields['year'].t
        ok = z3.And(y >= 1900, y <= 2155)
        if isinstance(r, Exc):
            vc.cover('rejected')
            vc.prove('DTIME', z3.Not(ok), f"{r!r}")
            return
        vc.cover('returned')
        vc.prove('DTIME', ok, 'a year outside 1900..2155 is accepted')
        b = r.v
        vc.prove('DTIME', iv(rope(b).n) == 8, 'length')
        f = {k: v.t for k, v in u.fields.items()}
        want = [y - 1900, 2 * 16 + f['month'], f['day'], f['hour'], f['minute'], f['second']]
        for k, w in enumerate(want):
            vc.prove('DTIME', iv(rope(b).get(vc, k)) == w, f"byte {k}")
        ms = iv(rope(b).get(vc, 6)) * 256 + iv(rope(b).get(vc, 7))
        us = f['microsecond']
        vc.prove('DTIME', z3.And(ms <= 999, ms * 1000 - us < 1000, us - ms * 1000 < 1000), 'milliseconds')
    return body


def dtime_replay(fn):
    def replay(values):
        try:
            d = dt.datetime(*[values[k] for k in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')], tzinfo=dt.timezone.utc)
        except (ValueError, KeyError):
            return None
        out = None
        for z in (0, 3, -7):
            try:
                v = d.astimezone(dt.timezone(dt.timedelta(hours=z)))
            except OverflowError:
                continue
            r = native_outcome(fn(), [v] if fn().__code__.co_argcount == 1 else [RC('DTIME'), v])
            if isinstance(r, Exc):
                if 1900 <= d.year <= 2155:
                    out = f"{v!r}: {r!r}"
                continue
            b = r.v
            ms = int.from_bytes(b[6:8], 'big')
            if not (1900 <= d.year <= 2155) or len(b) != 8 or list(b[:6]) != [d.year - 1900, 32 + d.month, d.day, d.hour, d.minute, d.second] \
                    or ms > 999 or abs(ms * 1000 - d.microsecond) >= 1000:
                out = f"{v!r}: {b!r}"
        return out
    return replay


obligation('write_struct_dtime', 'C06 C05 C12', replay=dtime_replay(lambda: real(W + 'write_struct_dtime')))(
    dtime_obl(lambda d: (real(W + 'write_struct_dtime'), [d])))
obligation('write_struct[DTIME]', 'C06 C05 C12', replay=dtime_replay(lambda: real(W + 'write_struct')))(
    dtime_obl(lambda d: (real(W + 'write_struct'), [RC('DTIME'), d])))
