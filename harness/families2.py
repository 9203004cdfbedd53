"""Families C06..C13."""
from __future__ import annotations
import io
import os
import random
import struct
from datetime import datetime, timedelta, timezone

import numpy as np

from . import rp66
from .engine import family, Skip, Violation
from .families import base, add_origin, add_frame, wr, rnd, write_opts, payload, MRLS, records
from .gen import G, random_scenario, data_arg, write, DTYPES, PRINTABLE, IDX_TYPES
from .model import Scenario, ObjRec, Val, TABLE, spec_of, compare, Mismatch, expected_rows, written_dtype

FIXED = {'SSHORT': ('>b', -2**7, 2**7 - 1), 'SNORM': ('>h', -2**15, 2**15 - 1), 'SLONG': ('>i', -2**31, 2**31 - 1),
         'USHORT': ('>B', 0, 2**8 - 1), 'UNORM': ('>H', 0, 2**16 - 1), 'ULONG': ('>I', 0, 2**32 - 1)}


def enc_uvari(v):
    return bytes([v]) if v < 128 else struct.pack('>H', v | 0x8000) if v < 16384 else struct.pack('>I', v | 0xC0000000)


def enc_dtime(d):
    """the standard's encoding(s): milliseconds to the nearest or truncated"""
    u = d.astimezone(timezone.utc)
    out = set()
    for ms in {u.microsecond // 1000, min(999, (u.microsecond + 500) // 1000)}:
        out.add(struct.pack('>BBBBBBH', u.year - 1900, (2 << 4) | u.month, u.day, u.hour, u.minute, u.second, ms))
    return out


def _struct_api():
    try:
        from dliswriter.utils.internal.struct_writer import write_struct
        from dliswriter import RepresentationCode
        return write_struct, RepresentationCode
    except ImportError as e:
        raise Skip(f"internal interface changed: {e}")


def expect_raise(fn, what):
    try:
        r = fn()
    except Exception:
        return
    raise Violation(f"{what}: accepted, gives {r!r}"[:300])


@family('C06', 40, on_raise='fail')
def primitive_codes(cx):
    """write_struct for each code on boundary and random values; out-of-range values must be rejected"""
    ws, RC = _struct_api()
    r = cx.r

    def same(code, v, want):
        got = cx.valid(ws, RC[code], v)
        if (bytes(got) not in want) if isinstance(want, set) else bytes(got) != want:
            raise Violation(f"{code} {v!r}: bytes {bytes(got).hex()[:80]}, standard says {want if isinstance(want, set) else want.hex()[:80]}")
    n = 0
    for code, (f, lo, hi) in FIXED.items():
        for v in {lo, lo + 1, hi - 1, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi)} | ({-1} if lo < 0 else set()):
            same(code, v, struct.pack(f, v))
            n += 1
        for v in (lo - 1, hi + 1, hi + r.randint(2, 10**6), lo - r.randint(2, 10**6), 2**64):
            expect_raise(lambda: ws(RC[code], v), f"{code} {v}")
    for v in [0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2**30 - 1] + [r.randint(0, 2**30 - 1) >> r.randint(0, 29) for _ in range(30)]:
        same('UVARI', v, enc_uvari(v))
        n += 1
    for v in (-1, 2**30, 2**30 + 1, 2**31, 2**32, -2**31, r.randint(2**30, 2**40)):
        expect_raise(lambda: ws(RC.UVARI, v), f"UVARI {v}")
    for v in (0.0, -0.0, 1.5, float('inf'), float('-inf'), 5e-324, 1.7976931348623157e308, r.uniform(-1e9, 1e9)):
        same('FDOUBL', v, struct.pack('>d', v))
    for v in (0.0, -0.0, 1.5, float('inf'), 3.4028234663852886e38, float(np.float32(r.uniform(-1e9, 1e9)))):
        same('FSINGL', v, struct.pack('>f', v))
    for v in (3.4028236e38, -3.4028236e38, 1e39, -1e300, r.choice([1, -1]) * 10. ** r.uniform(38.6, 308)):
        expect_raise(lambda: ws(RC.FSINGL, v), f"FSINGL {v}")
        expect_raise(lambda: RC.FSINGL.convert(v), f"FSINGL {v}")
    for ln in (0, 1, 126, 127, 128, 129, 254, 255, r.randint(0, 255)):
        s = ''.join(chr(r.randint(0, 127)) for _ in range(ln))
        same('IDENT', s, bytes([ln]) + s.encode('ascii'))
    for ln in (256, 257, 300, 16384, r.randint(256, 20000)):
        expect_raise(lambda: ws(RC.IDENT, 'x' * ln), f"IDENT of {ln} characters")
    for ln in (0, 1, 127, 128, 255, 256, 16383, 16384, 16385, 20000, r.randint(0, 40000)):
        s = 'aZ' * (ln // 2) + 'q' * (ln % 2)
        same('ASCII', s, enc_uvari(ln) + s.encode('ascii'))
    for s in ('é', 'x\x80', 'naïve', '\u2028', '中'):
        for code in ('IDENT', 'ASCII'):
            expect_raise(lambda: ws(RC[code], s), f"{code} {s!r}")
    for v in (0, 1):
        same('STATUS', v, bytes([v]))
    for v in (2, -1, 255, 256):
        expect_raise(lambda: ws(RC.STATUS, v), f"STATUS {v}")
    g = G(r)
    for _ in range(20):
        d = g.dt()
        if isinstance(d, str):
            continue
        same('DTIME', d, enc_dtime(d))
    for us in (0, 499, 500, 501, 999, 1000, 999499, 999500, 999501, 999999):
        for y in (1900, 1999, 2155):
            d = datetime(y, r.randint(1, 12), r.randint(2, 28), r.randint(0, 23), 59, 59, us, tzinfo=timezone.utc)
            same('DTIME', d, enc_dtime(d))
    for y in (1, 1899, 2156, 9999):
        expect_raise(lambda: ws(RC.DTIME, datetime(y, 6, 6, tzinfo=timezone.utc)), f"DTIME in {y}")
    cx.weight = n
    cx.key = f"p{cx.i}"


@family('C06', 60, on_raise='fail')
def primitives_in_file(cx):
    """boundary values of each code through the public API, decoded from the file"""
    r = cx.r
    sc, lf = cx.valid(base, origin=False, rows=0)
    uv = lambda: r.choice([0, 1, 127, 128, 255, 256, 16383, 16384, 2**30 - 1, r.randint(0, 2**30 - 1)])
    add_origin(lf, 'O', file_set_number=Val(max(1, uv())), file_number=Val(uv()), name_space_version=Val(uv()),
               descent_number=Val(r.choice([0, 1, 255, 256, 65535])), run_number=Val(65535), producer_code=Val(r.randint(0, 65535)))
    lf.objs[0].origin = lf.objs[0].item.origin_reference
    o2 = uv()
    if o2 != lf.objs[0].item.origin_reference:
        lf.add('ORIGIN', 'O2', origin_reference=o2, file_set_number=Val(1), creation_time=Val(datetime(2000, 1, 1, tzinfo=timezone.utc)))
    else:
        o2 = None
    add_frame(lf, [np.arange(3, dtype='int16')])
    for k in range(6):
        ln = r.choice([1, 2, 126, 127, 128, 129, 200, 254, 255])
        nm = (f"{k}" + ''.join(r.choice(PRINTABLE) for _ in range(ln)))[:ln]
        cx.valid(lf.add, 'ZONE', nm, origin_reference=r.choice([None, o2]), description=Val('d' * r.choice([0, 1, 127, 128, 16383, 16384, 17000])))
    s = r.choice(PRINTABLE) * r.choice([1, 127, 128, 129, 254, 255])
    cx.valid(lf.add, 'NO-FORMAT', 'NF', consumer_name=Val(s))
    cx.valid(lf.add, 'TOOL', 'T', status=Val(r.choice([0, 1])))
    z = lf.of('ZONE')
    n_same = r.choice([2, 3, 130, 256]) if cx.i % 10 == 0 else 3
    for k in range(n_same):
        cx.valid(lf.add, 'GROUP', 'SAME', object_list=Val([r.choice(z)]))
    cx.valid(lf.add, 'GROUP', 'ALL', object_list=Val(z + lf.of('TOOL')), group_list=Val(lf.of('GROUP')[-2:]))
    cx.valid(lf.add, 'PARAMETER', 'P', values=Val([r.choice([-2**31, 2**31 - 1, 0, -1])]))
    cx.valid(lf.add, 'CALIBRATION-MEASUREMENT', 'CM', sample_count=Val(r.choice([-2**31, 2**31 - 1, 5])),
             begin_time=Val(G(r).dt()), duration=Val(r.choice([1e308, -0.0, 5e-324, float('inf')]), 'u' * r.choice([1, 127, 128, 255]), 'dict'))
    b = wr(cx, sc)
    compare(sc, b, parts=('order', 'identity', 'attributes', 'descriptors', 'frames'))


# ------------------------------------------------------------------------------------------------ C07
@family('C07', 200)
def name_clashes(cx):
    """same-named objects over several sets, origins, logical files; references to each of them"""
    r = cx.r
    n_lf = r.choice([1, 1, 2, 3])
    sc = cx.valid(Scenario)
    g = G(r, size='tiny')
    lfs = [cx.valid(sc.lf, f"H{k}") for k in range(n_lf)]
    types = ['ZONE', 'AXIS', 'TOOL', 'EQUIPMENT', 'LONG-NAME', 'PARAMETER', 'GROUP', 'NO-FORMAT', 'COMPUTATION', 'CALIBRATION-COEFFICIENT']
    pend = {k: 'po' for k in range(n_lf)}
    frames = {}
    for step in range(r.randint(10, 50)):
        k = r.randrange(n_lf)
        lf = lfs[k]
        sfx = '' if n_lf == 1 else f"-L{k}"
        sn = r.choice([sfx or None, 'A' + sfx, 'B' + sfx])
        if 'o' in pend[k] and r.random() < .15:
            cx.valid(add_origin, lf, r.choice(['OO', 'SAME']), set_name=sn, origin_reference=r.choice([None, 0, 7, 300]))
            pend[k] = pend[k].replace('o', '')
            continue
        refs = [o.item.origin_reference for o in lf.of('ORIGIN')]
        oref = r.choice(refs) if refs and r.random() < .2 else None
        if r.random() < .25:
            a = np.arange(r.randint(1, 3), dtype=r.choice(DTYPES))
            nm = r.choice(['SAME', 'N1', f"C{step}"])
            ch = cx.valid(lf.channel, nm, a, inline=True, set_name=sn, origin_reference=oref,
                          dataset_name=f"d{step}", source=Val(r.choice(lf.objs) if lf.objs else None))
            free = [c for c in lf.of('CHANNEL') if len(lf.data[c]) == len(a) and not any(c in f.attrs['channels'].value for f in lf.frames)]
            names, sub = set(), []
            for c in free:
                if c.name not in names:
                    names.add(c.name)
                    sub.append(c)
            if r.random() < .5:
                cx.valid(lf.add, 'FRAME', r.choice(['SAME', f"F{step}"]), sfx or None, oref, channels=Val(sub))
            del ch
            continue
        t = r.choice(types)
        cx.valid(g.object, lf, t, sn, oref, .6, name=r.choice(['SAME', 'N1', 'N2']))
        if r.random() < .3 and t == 'NO-FORMAT':
            cx.valid(lf.nf, r.choice(lf.of('NO-FORMAT')), payload(r, 5))
    for k, lf in enumerate(lfs):
        sfx = '' if n_lf == 1 else f"-L{k}"
        if not lf.of('ORIGIN'):
            cx.valid(add_origin, lf, 'LATE', set_name=sfx or None)
        if not lf.frames:
            cx.valid(add_frame, lf, [np.arange(2, dtype='int8')], name='LASTFRAME', fset=sfx or None, cset=sfx or None)
        if not any(f for f in lf.frames):
            raise Skip('no frame')
        for _ in range(r.choice([0, 3, 10])):
            reassign_reference(cx, r, lf)
    b = wr(cx, sc)
    compare(sc, b, parts=('identity', 'attributes', 'frames', 'noformat', 'order'))


def reassign_reference(cx, r, lf):
    """Assign a reference attribute anew, preferably to objects named as those it refers to already."""
    cand = []
    for o in lf.objs:
        for kw in TABLE[o.type]:
            if not kw.startswith('__') and (o.type, kw) != ('FRAME', 'channels') and spec_of(o.type, kw)[1] in ('O', 'R') \
                    and not spec_of(o.type, kw)[4] and (o.attrs.get(kw) or kw not in ('axis', 'zones', 'dimension', 'input_channels')):
                cand.append((o, kw, kw in o.attrs))
    old = [c for c in cand if c[2]]
    if not cand:
        return
    o, kw, _ = r.choice(old) if old and r.random() < .7 else r.choice(cand)
    label, kind, tgt, multi, nested = spec_of(o.type, kw)
    pool = [x for x in lf.objs if kind == 'R' or x.type == tgt]
    if not pool or kind == 'R' and o.type == 'GROUP':
        return
    cur = o.attrs[kw].value if kw in o.attrs else None
    cur = cur if isinstance(cur, (list, tuple)) else [cur] if cur is not None else []
    names = [x.name for x in cur if isinstance(x, ObjRec)]

    def pick():
        same = [x for x in pool if x.name in names]
        return r.choice(same) if same and r.random() < .7 else r.choice(pool)
    fixed = kw in ('axis', 'zones', 'dimension', 'input_channels')
    v = [pick() for _ in range(len(cur) if fixed else r.randint(1, 4))] if multi else pick()
    cx.valid(lf.assign, o, kw, v)


# ------------------------------------------------------------------------------------------------ C08
@family('C08', 200)
def user_descriptors(cx):
    """user-specified dimension / element limit, consistent or not; shared channels and datasets; unused channels"""
    r = cx.r
    g = G(r)
    sc, lf = cx.valid(base, rows=0, mrl=r.choice([32, 8192]))
    n = r.randint(1, 4)
    consistent = r.random() < .5
    chs = []
    err = None
    try:
        for k in range(r.randint(1, 5)):
            a = g.array(n, width=r.choice([None, 1, 2, 5]))
            dim = list(a.shape[1:]) or [1]
            at = {}
            if r.random() < .5:
                at['dimension'] = Val(dim if consistent else [r.choice([1, 2, 3, 5])], None, g.route())
            if r.random() < .5:
                at['element_limit'] = Val([dim[0] + r.randint(0, 3)] if consistent else
                                          [r.choice([1, 2, 3, 9]) for _ in range(r.choice([1, 1, 2, 3]))], None, g.route())
            if not consistent and r.random() < .3:
                at['dimension'] = Val(dim + [1] * r.choice([0, 1, 2]), None, g.route())
            chs.append(lf.channel(f"C{k}", a, inline=True, cast=g.cast_for(a), **at))
        if r.random() < .3:
            chs_unused = lf.channel('UNUSED', g.array(n + 1), inline=True)
            del chs_unused
        for k in range(r.randint(1, 2)):
            lf.add('FRAME', f"F{k}", channels=Val(r.sample(chs, r.randint(1, len(chs)))))
        b = cx.result(write(sc, cx.path()))
    except (Skip, Violation):
        raise
    except Exception as e:
        err = e
    if err is not None:
        if consistent:
            raise Skip(f"{type(err).__name__}: {err}")
        return
    compare(sc, b, parts=('descriptors', 'frames'))


@family('C08', 60)
def same_dataset_twice(cx):
    """several channels reading one dataset with different casts; data passed at write"""
    r = cx.r
    g = G(r)
    sc, lf = cx.valid(base, rows=0)
    n = r.randint(1, 5)
    dt = r.choice(['int8', 'uint8', 'int16', 'float32'])
    a = g.array(n, dt, r.choice([None, 2]))
    casts = [None] + ([r.choice(['int32', 'float64'])] if dt != 'float32' else ['float64'])
    chs = []
    c0 = cx.valid(lf.channel, 'C0', a, dataset_name='ds')
    chs.append(c0)
    second = r.random() < .5
    if second:
        # a second channel over the same dataset, in another frame
        c1 = None
        try:
            c1 = lf.channel('C1', a, dataset_name='ds', cast=np.dtype(casts[1]))
        except ValueError:
            pass                                    # the library may refuse a second channel for one dataset
        if c1 is not None:
            chs.append(c1)
    cx.valid(lf.add, 'FRAME', 'F0', channels=Val(chs[:1]))
    if len(chs) > 1:
        cx.valid(lf.add, 'FRAME', 'F1', channels=Val(chs[1:] if r.random() < .5 else chs))
    src = r.choice([{'ds': a}, {'zz': np.zeros(3), 'ds': a}])
    b = wr(cx, sc, src)
    compare(sc, b, parts=('descriptors', 'frames'))


@family('C08', 60)
def rewrite_other_data(cx):
    """the same specification written again with data of another dtype or width: descriptors follow the data"""
    r = cx.r
    g = G(r)
    sc, lf = cx.valid(base, rows=0)
    k = r.randint(1, 3)
    names = [f"d{j}" for j in range(k)]
    arrs = [g.array(3, width=r.choice([None, 2])) for _ in names]
    cx.valid(add_frame, lf, arrs, inline=False, ds=names)
    wr(cx, sc, dict(zip(names, arrs)))
    for c in lf.of('CHANNEL'):
        lf.data[c] = g.array(r.choice([2, 3, 4]), width=r.choice([None, 1, 4]))
    m = min(len(a) for a in lf.data.values())
    for c in lf.of('CHANNEL'):
        lf.data[c] = lf.data[c][:m]
    try:
        b = write(sc, cx.path(), {lf.dataset[c]: a for c, a in lf.data.items()})
    except Exception as e:
        raise Skip(f"{type(e).__name__}: {e}")
    compare(sc, b, parts=('descriptors', 'frames'))


# ------------------------------------------------------------------------------------------------ C09
@family('C09', 150)
def add_orders(cx):
    """random interleavings of add_* calls: origin last, frames before channels' sets, several logical files and origins"""
    r = cx.r
    n_lf = r.choice([1, 2, 3])
    sc = cx.valid(Scenario, 'SET', 1, r.choice([32, 8192]))
    g = G(r, size='tiny')
    lfs = [cx.valid(sc.lf, r.choice(['H', 'h' * 65, 'X Y']), r.choice(['0', '1', 'Z']), r.choice([1, 2, 123, 9999999999])) for _ in range(n_lf)]
    todo = []
    for k in range(n_lf):
        ops = ['origin'] * r.choice([1, 1, 2]) + ['frame'] * r.randint(1, 2) + ['obj'] * r.randint(0, 8) + ['nf'] * r.randint(0, 2)
        todo += [(k, o) for o in ops]
    r.shuffle(todo)
    for j, (k, op) in enumerate(todo):
        lf, sfx = lfs[k], ('' if n_lf == 1 else f"L{k}")
        sn = r.choice([sfx or None, sfx + 'Q'])
        if op == 'origin':
            cx.valid(add_origin, lf, f"O{j}", set_name=sn)
        elif op == 'frame':
            cx.valid(add_frame, lf, [np.arange(2, dtype='float32')], name=f"F{j}", fset=sn, cset=r.choice([sfx or None, sfx + 'Q']))
        elif op == 'obj':
            cx.valid(g.objects, lf, 1, lambda t: sn)
        else:
            o = cx.valid(lf.add, 'NO-FORMAT', f"NF{j}", sn)
            for _ in range(r.randint(0, 2)):
                cx.valid(lf.nf, o, b'abc')
    compare(sc, wr(cx, sc), parts=('order', 'identity', 'frames', 'noformat'))


# ------------------------------------------------------------------------------------------------ C10
class FlushMonitor:
    """Patches builtins.open while a file is written; records what is on disk at every close/flush of the target."""

    def __init__(self, path):
        self.path, self.snaps = os.path.abspath(path), []

    def __enter__(self):
        import builtins
        self.real = builtins.open
        mon = self

        def opener(file, mode='r', *a, **k):
            f = mon.real(file, mode, *a, **k)
            try:
                mine = os.path.abspath(os.fspath(file)) == mon.path and any(c in mode for c in 'wax+')
            except TypeError:
                mine = False
            return Proxy(f, mon) if mine else f
        builtins.open = opener
        return self

    def snap(self):
        with self.real(self.path, 'rb') as f:
            self.snaps.append(f.read())

    def __exit__(self, *a):
        import builtins
        builtins.open = self.real


class Proxy:
    def __init__(self, f, mon):
        self.__dict__.update(_f=f, _m=mon)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def flush(self):
        self._f.flush()
        self._m.snap()

    def close(self):
        was = self._f.closed
        self._f.close()
        if not was:
            self._m.snap()

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        r = self._f.__exit__(*a)
        self._m.snap()
        return r


def vr_ends(b):
    """offsets of visible-record ends"""
    pos, out = 80, {80}
    while pos < len(b):
        n = struct.unpack('>H', b[pos:pos + 2])[0]
        if n < 4:
            raise Violation(f"visible record of length {n} at {pos}")
        pos += n
        out.add(pos)
    if pos != len(b):
        raise Violation("file does not end on a visible-record boundary")
    return out


@family('C10', 160, on_raise='fail')
def chunk_sizes(cx):
    """same specification with several (input, output) chunk sizes: identical files; flush points; prior content"""
    r = cx.r
    mrl = r.choice([20, 32, 64, 128, 256, 1000, 8192])
    seed = f"{cx.seed}:c10:{cx.i}"
    source = r.choice(['inline', 'dict', 'struct', 'h5'])
    n = r.choice([1, 2, 3, 5, 8, 13])
    kw = dict(inline=source == 'inline', mrl=mrl, max_objs=8, rows=None if source == 'inline' else n, n_frames=r.choice([1, 2]),
              n_lf=1 if source != 'inline' else r.choice([1, 2]))

    def make():
        return cx.valid(random_scenario, seed, **kw)
    sc0 = make()
    b0 = wr(cx, sc0, data_arg(sc0, source, cx.tmp, random.Random(1)))
    ends = vr_ends(b0)
    sizes = [mrl, mrl + 1, mrl * 2 + r.randint(0, mrl), max(mrl, len(b0)), max(mrl, len(b0) - 80), max(mrl, len(b0) - 1),
             len(b0) + mrl, float(mrl), r.choice(sorted(ends)) + mrl]
    ins = [None, 1, 2, 3, n, n + 1, 5, max(1, n - 1), 1000]
    sc = make()
    for rep in range(4):
        if r.random() < .5:
            sc = make()
        o, i = r.choice(sizes), r.choice(ins)
        p = cx.path(f"t{rep}.dlis")
        prior = r.choice([None, b'', b'old content' * 3000, b0 + b'xx', b0[:50]])
        if prior is not None:
            with open(p, 'wb') as f:
                f.write(prior)
        import logging
        total = []
        h = logging.Handler()
        h.emit = lambda rec: total.append(rec.getMessage())
        lg = logging.getLogger('dliswriter')
        old = (lg.level, logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        lg.setLevel(logging.INFO)
        lg.addHandler(h)
        lg.propagate = False
        try:
            with FlushMonitor(p) as m:
                b = cx.valid(write, sc, p, data_arg(sc, source, cx.tmp, random.Random(2)), input_chunk_size=i, output_chunk_size=o)
        finally:
            lg.removeHandler(h)
            lg.setLevel(old[0])
            logging.disable(old[1])
        cx.note = f"{source} mrl={mrl} input={i} output={o} size={len(b0)}, {len(m.snaps)} flushes"
        if b != b0:
            raise Violation(f"file with input_chunk_size={i}, output_chunk_size={o} ({len(b)} bytes) differs from the reference ({len(b0)} bytes)")
        for s in m.snaps:
            if b[:len(s)] != s:
                raise Violation(f"on-disk content of {len(s)} bytes during the write is no prefix of the final file")
            if len(s) not in ends and len(s) != 0:
                raise Violation(f"flush leaves {len(s)} bytes on disk: not a visible-record boundary (output_chunk_size={o})")
        rep_ = [x for x in total if 'total file size' in x.lower()]
        for x in rep_:
            nums = [int(t) for t in ''.join(c if c.isdigit() else ' ' for c in x).split()]
            if len(b) not in nums:
                raise Violation(f"reported {x!r}, the file has {len(b)} bytes")
    cx.weight = 4


# ------------------------------------------------------------------------------------------------ C11
@family('C11', 200, on_raise='fail')
def sources_and_windows(cx):
    """four data sources, dataset mappings, field orders, extra datasets, windows, chunk sizes: identical files"""
    r = cx.r
    n = r.choice([1, 2, 3, 5, 8, 20])
    seed = f"{cx.seed}:c11:{cx.i}"
    kw = dict(n_lf=1, max_objs=4, n_frames=r.choice([1, 2, 3]), rows=n, mrl=r.choice([64, 8192]), noformat=False)

    def arrays_of(sc):
        return [(lf, c) for lf in sc.lfs for c in lf.data if lf.data[c] is not None]

    def make(inline, cut=None):
        sc = cx.valid(random_scenario, seed, **{**kw, 'inline': False})
        if not inline and cut is None:
            return sc, None
        d = {}
        for lf, c in arrays_of(sc):
            if cut:
                lf.data[c] = lf.data[c][cut[0]:cut[1]]
            d[lf.dataset[c]] = lf.data[c]
        return sc, d

    def inline_scenario():
        """the same specification with the data given at channel creation"""
        from .model import LFRec
        orig = LFRec.channel

        def chan(self, name, data=None, inline=False, **k):
            return orig(self, name, data, inline=data is not None, **k)
        LFRec.channel = chan
        try:
            return cx.valid(random_scenario, seed, **{**kw, 'inline': False})
        finally:
            LFRec.channel = orig
    lo = r.randint(0, n - 1)
    hi = r.randint(lo + 1, n)
    win = r.choice([(0, None), (0, n), (lo, hi), (lo, None), (lo, n), (0, hi)])
    a, b = win[0], n if win[1] is None else win[1]
    ref_sc, d = make(False, (a, b))
    ref = wr(cx, ref_sc, d, 'ref.dlis')
    compare(ref_sc, ref, parts=('descriptors', 'frames', 'index'))
    for source in ['inline', 'dict', 'struct', 'h5', 'slow-struct', 'dict-lists']:
        ics = r.choice([None, 1, 2, 3, 7, n, n + 1])
        if source == 'inline':
            sc = inline_scenario()
            data = None
        else:
            sc, _ = make(False)
            items = [(lf.dataset[c], lf.data[c]) for lf, c in arrays_of(sc)]
            extra = [('extra-1', np.arange(n)), ('unused', np.array(['a'] * n))]
            if source == 'dict':
                items += extra
                r.shuffle(items)
                data = dict(items)
            elif source == 'dict-lists':
                continue
            elif source in ('struct', 'slow-struct'):
                if source == 'slow-struct':
                    items += extra[:1]
                r.shuffle(items)
                data = np.zeros(n, dtype=[(k, x.dtype, x.shape[1:]) for k, x in items])
                for k, x in items:
                    data[k] = x
                if r.random() < .3:
                    big = np.zeros(2 * n, dtype=data.dtype)
                    big[::2] = data
                    data = big[::2]
            else:
                import h5py
                r.shuffle(items)
                data = cx.path('src.h5')
                with h5py.File(data, 'w') as f:
                    f.create_dataset('zzz', data=np.arange(n + 3))
                    for k, x in items:
                        f.create_dataset(k, data=x, **({'chunks': True, 'compression': 'gzip'} if r.random() < .3 and x.size else {}))
        got = cx.valid(write, sc, cx.path(f"{source}.dlis"), data, from_idx=win[0], to_idx=win[1], input_chunk_size=ics)
        cx.note = f"{source} rows={n} window={win} chunk={ics}"
        if got != ref:
            try:
                compare(sc, got, window=win, parts=('descriptors', 'frames', 'index'))
                what = 'content equal by decoding, bytes differ'
            except Exception as e:
                what = str(e)
            raise Violation(f"source {source}, window {win}, input_chunk_size={ics}: file differs from the pre-sliced dict: {what}"[:700])
        if source == 'h5':
            os.unlink(data)
    cx.weight = 5


@family('C11', 80, on_raise='fail')
def struct_fast_path(cx):
    """structured array whose fields equal the frame's channels (direct slicing), permuted / renamed fields"""
    r = cx.r
    g = G(r)
    n = r.choice([1, 2, 5, 9])
    k = r.randint(1, 4)
    arrs = [g.array(n, width=r.choice([None, None, 2])) for _ in range(k)]
    same = r.random() < .5
    names = [f"C{j}" for j in range(k)]
    ds = names if same else [f"C{(j + 1) % k}" for j in range(k)] if r.random() < .5 else [f"x{j}" for j in range(k)]
    sc, lf = cx.valid(base, rows=0)
    cx.valid(add_frame, lf, arrs, names=names, ds=ds, inline=False)
    perm = list(range(k))
    if r.random() < .5:
        r.shuffle(perm)
    data = np.zeros(n, dtype=[(ds[j], arrs[j].dtype, arrs[j].shape[1:]) for j in perm])
    for j in perm:
        data[ds[j]] = arrs[j]
    lo = r.randint(0, n - 1)
    hi = r.choice([None, r.randint(lo + 1, n)])
    ics = r.choice([None, 1, 2, 4, 100])
    b = wr(cx, sc, data, from_idx=lo, to_idx=hi, input_chunk_size=ics)
    cx.note = f"fields {data.dtype.names} window ({lo},{hi}) chunk {ics}"
    compare(sc, b, window=(lo, hi), parts=('descriptors', 'frames', 'index'))


# ------------------------------------------------------------------------------------------------ C13
def index_of(r, n, dt):
    d = np.dtype(dt)
    kind = r.choice(['inc', 'dec', 'const', 'rand', 'near', 'far', 'nan', 'inf', 'sorted', 'edge', 'one-off', 'tiny'])
    if d.kind == 'f':
        st, s = r.choice([0, 1000.5, -3.25, 1e6]), r.choice([.5, 1, .1524, 2, 1e-3, 100])
        v = np.array([st + k * s for k in range(n)], dtype='float64')
        if kind == 'dec':
            v = -v
        elif kind == 'const':
            v[:] = st
        elif kind == 'rand':
            v = np.array([r.uniform(-9, 9) for _ in range(n)])
        elif kind == 'sorted':
            v = np.sort(np.array([r.uniform(-9, 9) for _ in range(n)]))
            if r.random() < .5:
                v = v[::-1]
        elif kind in ('near', 'far', 'edge'):
            e = {'near': .02, 'far': .06, 'edge': .0316}[kind]
            v = np.cumsum([s * (1 + r.choice([0, e, -e]) * r.uniform(.8, 1.1)) for _ in range(n)])
            if r.random() < .5:
                v = -v
        elif kind in ('nan', 'inf'):
            v[r.randrange(n)] = np.nan if kind == 'nan' else r.choice([np.inf, -np.inf])
        elif kind == 'one-off':
            v[r.randrange(n)] += s * r.choice([-3, -1, 1, .5])
        elif kind == 'tiny':
            v = np.array([5e-324 * k for k in range(n)])
        return v.astype(d)
    i = np.iinfo(d)
    if kind in ('inc', 'near', 'nan', 'inf', 'tiny'):
        s = r.choice([1, 2, 3])
        v = [min(i.max, r.choice([0, i.min]) * 0 + (i.min if k else i.min) + s * k) for k in range(n)]
    elif kind == 'dec':
        v = [max(i.min, i.max - r.choice([1]) * 2 * k) for k in range(n)]
    elif kind == 'const':
        v = [r.choice([i.min, i.max, 0])] * n
    elif kind in ('rand', 'far'):
        v = [r.randint(i.min, i.max) for _ in range(n)]
    elif kind == 'sorted':
        v = sorted(r.randint(i.min, i.max) for _ in range(n))
        if r.random() < .5:
            v = v[::-1]
    elif kind == 'edge':
        v = [r.choice([i.min, i.max]) for _ in range(n)]
    else:
        v = [min(i.max, k) for k in range(n)]
        v[r.randrange(n)] = min(i.max, n + 3)
    return np.array(v, dtype=d)


@family('C13', 400)
def index_grid(cx):
    """index channels of every dtype and shape of sequence x user values x windows x several writes of one specification"""
    r = cx.r
    dt = DTYPES[cx.i % 8]
    n = r.choice([1, 2, 3, 5, 12])
    sc, lf = cx.valid(base, rows=0)
    idx = index_of(r, n, dt)
    fa = {}
    g = G(r)
    if r.random() < .75:
        fa['index_type'] = Val(r.choice(IDX_TYPES), None, g.route())
    for kw in ('spacing', 'index_min', 'index_max'):
        if r.random() < .12:
            fa[kw] = g.val(r.choice([0, 1.5, -2, 100, float('inf')]), True)
    if r.random() < .1:
        fa['direction'] = g.val(r.choice(['INCREASING', 'DECREASING']), False)
    cast = None
    if r.random() < .15:
        cast = np.dtype(r.choice(['float32', 'float64'] if np.dtype(dt).kind == 'f' else DTYPES))
    cu = {0: {'units': Val('m')}} if r.random() < .5 else None
    cx.valid(add_frame, lf, [idx, g.array(n)], inline=False, ds=['i', 'v'], casts=[cast, None], cattrs=cu, **fa)
    chs = lf.of('CHANNEL')
    for k in range(r.choice([1, 1, 2, 3])):
        if k:
            m = r.choice([1, 2, 4, 9])
            lf.data[chs[0]], lf.data[chs[1]] = index_of(r, m, dt), g.array(m, lf.data[chs[1]].dtype.newbyteorder('='), lf.data[chs[1]].shape[1:][0] if lf.data[chs[1]].ndim > 1 else None)
        m = len(lf.data[chs[0]])
        lo = r.choice([0, 0, r.randint(0, m - 1)])
        hi = r.choice([None, r.randint(lo + 1, m)])
        b = wr(cx, sc, {'i': lf.data[chs[0]], 'v': lf.data[chs[1]]}, from_idx=lo, to_idx=hi, input_chunk_size=r.choice([None, 1, 3]))
        cx.note = f"{dt} write {k} n={m} window ({lo},{hi}) index {lf.data[chs[0]][lo:hi][:6].tolist()} user {sorted(fa)}"
        compare(sc, b, window=(lo, hi), parts=('index',))
