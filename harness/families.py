"""Families of bounded cases per property (see DESIGN.md, bounded layer). Oracle: harness.rp66 + harness.model."""
from __future__ import annotations
import os
import random
import struct
import time
from contextlib import contextmanager
from datetime import datetime, timedelta, timezone

import numpy as np

from . import rp66
from .engine import family, Skip, Violation, Ctx
from .gen import G, random_scenario, data_arg, write, DTYPES, PRINTABLE
from .model import (Scenario, Val, TABLE, METHOD, spec_of, compare, Mismatch, expected_rows, real, Identity, written_dtype)

MRLS = [20, 22, 24, 26, 28, 30, 32, 34, 36, 40, 48, 64, 100, 128, 200, 256, 500, 1000, 1024, 4096, 8192, 16382, 16384]


def base(sid='SU', mrl=8192, seq=1, rows=3, origin=True, hid='HEADER'):
    """A minimal valid specification: one logical file, origin, frame with one channel."""
    sc = Scenario(sid, seq, mrl)
    lf = sc.lf(hid)
    if origin:
        add_origin(lf)
    if rows:
        add_frame(lf, [np.arange(rows, dtype='float64')])
    return sc, lf


def add_origin(lf, name='ORIG', **kw):
    kw.setdefault('creation_time', Val(datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc)))
    kw.setdefault('file_set_number', Val(1))
    return lf.add('ORIGIN', name, **kw)


def add_frame(lf, arrays, name='FRAME', names=None, inline=True, casts=None, fset=None, cset=None, cattrs=None, ds=None, **kw):
    chs = []
    for k, a in enumerate(arrays):
        chs.append(lf.channel((names or [f"{name}-C{k}" for k in range(len(arrays))])[k], a, inline=inline,
                              cast=casts[k] if casts else None, set_name=cset, dataset_name=ds[k] if ds else None,
                              **((cattrs or {}).get(k, {}))))
    return lf.add('FRAME', name, set_name=fset, channels=Val(chs), **kw)


def wr(cx: Ctx, sc, data=None, name='out.dlis', **kw):
    return cx.result(cx.valid(write, sc, cx.path(name), data, **kw))


def rnd(cx, **kw):
    kw.setdefault('size', 'small')
    return cx.valid(random_scenario, f"{cx.seed}:{cx.fam.name}:{cx.i}", **kw)


def write_opts(cx, sc, n_rows=None):
    kw = {'output_chunk_size': cx.r.choice([2 ** 16, 2 ** 16, max(sc.mrl, 16384), float(max(sc.mrl, 1000)), sc.mrl])}
    if cx.r.random() < .6:
        kw['input_chunk_size'] = cx.r.choice([1, 2, 3, 5, 7, 100])
    return kw


# ------------------------------------------------------------------------------------------------ random content
def _random(cx, parts, **kw):
    sc = rnd(cx, **kw)
    b = wr(cx, sc, **write_opts(cx, sc))
    compare(sc, b, parts=parts)
    cx.note = f"mrl={sc.mrl}, {len(sc.lfs)} LF, {sum(len(l.objs) for l in sc.lfs)} objects, {len(b)} bytes"


@family('C01', 500)
def random_layout(cx):
    """random specification: strict physical parse and storage unit label"""
    sc = rnd(cx, mrl=cx.r.choice(MRLS))
    b = wr(cx, sc, **write_opts(cx, sc))
    st = rp66.parse_storage(b)
    from .model import check_label
    check_label(sc, st)
    cx.note = f"mrl={sc.mrl}, {len(b)} bytes"


@family('C02', 250)
def random_content(cx):
    """random specification: all records complete"""
    _random(cx, ('frames', 'noformat'), mrl=cx.r.choice(MRLS[:14]))


@family('C04', 500)
def random_grammar(cx):
    """random specification with many objects: strict grammar of every explicit record"""
    _random(cx, (), max_objs=24)


@family('C05', 500, on_raise='fail')
def random_metadata(cx):
    """random specification: every assigned attribute decodes to the assigned value, others absent"""
    _random(cx, ('attributes',), max_objs=24)


@family('C07', 500)
def random_identity(cx):
    """random object graphs: identities unique, references and origins resolve"""
    _random(cx, ('identity', 'attributes'), max_objs=24)


@family('C08', 500)
def random_descriptors(cx):
    """random frames: descriptors against data layout"""
    _random(cx, ('descriptors', 'frames'), max_objs=4)


@family('C09', 500)
def random_order(cx):
    """random specification: order of records"""
    _random(cx, ('order',))


@family('C03', 300, on_raise='fail')
def random_rows(cx):
    """random frames: rows bit-exact"""
    _random(cx, ('frames',), max_objs=2)


@family('C18', 300, on_raise='fail')
def random_multi(cx):
    """random specifications with 2-4 logical files and 1-3 frames each"""
    _random(cx, ('label', 'order', 'identity', 'attributes', 'descriptors', 'frames', 'noformat', 'index'),
            n_lf=cx.r.choice([1, 2, 3, 4]))


@family('C15', 200, on_raise='fail')
def random_writable(cx):
    """random valid specification at a random accepted record length: must write"""
    sc = rnd(cx, mrl=2 * cx.r.randint(10, 8192))
    compare(sc, wr(cx, sc, **write_opts(cx, sc)), parts=('label', 'frames', 'noformat'))


@family('C16', 200, on_raise='fail')
def random_noformat(cx):
    """random specification with no-format payloads"""
    _random(cx, ('noformat',), max_objs=6)


@family('C13', 200)
def random_index(cx):
    """random frames: index metadata"""
    _random(cx, ('index',), max_objs=2, noformat=False)


@family('C12', 200)
def random_faithful(cx):
    """random valid specification: everything decodes to the specification"""
    _random(cx, ('label', 'order', 'identity', 'attributes', 'descriptors', 'frames', 'noformat', 'index'))


# ------------------------------------------------------------------------------------------------ C01 / C02 / C15 / C16 sizes
def payload(r, n):
    return r.getrandbits(8 * n).to_bytes(n, 'big') if n else b''


@family('C01 C02 C16', 69)
def record_sizes(cx):
    """every record body length 0..4 capacities (sampled for large capacities) at one maximum record length"""
    mrl = MRLS[cx.i % len(MRLS)] if cx.i < len(MRLS) else 2 * cx.r.randint(10, 600 if cx.i % 5 else 8192)
    r = cx.r
    sc, lf = cx.valid(base, mrl=mrl, rows=1)
    nfo = [cx.valid(lf.add, 'NO-FORMAT', n) for n in ('N', 'LONGER-NAME')]
    cap = mrl - 8
    head = 4
    if cap <= 130:
        lens = list(range(0, 4 * cap + 3))
    else:
        lens = sorted({max(0, k * cap + d - head) for k in range(0, 4) for d in range(-14, 15)} |
                      {r.randint(0, 3 * cap) for _ in range(10)})
        if cap > 3000:
            lens = r.sample(lens, 45)
    r.shuffle(lens)
    for n in lens:
        cx.valid(lf.nf, r.choice(nfo), payload(r, n) if r.random() < .8 else 'x' * n)
    b = wr(cx, sc)
    cx.weight = len(lens)
    cx.note = f"mrl={mrl}: {len(lens)} payload lengths {min(lens)}..{max(lens)}"
    if cx.prop == 'C01':
        rp66.parse_storage(b)
    else:
        compare(sc, b, parts=('noformat',))


def records(b):
    return [(r.eflr, r.type, r.body) for r in rp66.parse_storage(b).records]


@family('C02', 150)
def length_differential(cx):
    """the same specification at two maximum record lengths: identical record sequences; against the writer's own records"""
    mrl = cx.r.choice(MRLS[:16])
    kw = dict(noformat=False, max_objs=8)
    sc1 = rnd(cx, mrl=mrl, **kw)
    sc2 = rnd(cx, mrl=16384, **kw)
    o = write_opts(cx, sc1)
    a, b = wr(cx, sc1, **o), cx.valid(write, sc2, cx.path('b.dlis'))
    ra, rb = records(a), records(b)
    if ra != rb:
        k = next((j for j, (x, y) in enumerate(zip(ra, rb)) if x != y), min(len(ra), len(rb)))
        raise Violation(f"records at mrl {mrl} differ from those at 16384 (record {k} of {len(ra)}/{len(rb)})")
    try:
        given = []
        for lr in sc1.df.generate_logical_records(None):
            w = lr.represent_as_bytes()
            given.append((w.is_eflr, int(w.lr_type_struct[0]), bytes(w._bts)))
    except Exception:
        return                   # internal interface changed: the end-to-end part above stands
    ra = records(a)
    if given != ra:
        k = next((j for j, (x, y) in enumerate(zip(ra, given)) if x != y), min(len(ra), len(given)))
        raise Violation(f"record {k} reassembled from the file differs from the logical record of the writer "
                        f"({len(ra)} in file, {len(given)} generated)")


@family('C02', 60)
def long_text_record(cx):
    """explicit records of chosen length (comment text) over several segments"""
    mrl = cx.r.choice(MRLS)
    sc, lf = cx.valid(base, mrl=mrl, rows=2)
    n = cx.r.choice([1, 5, mrl - 60, mrl, 2 * mrl + cx.r.randint(-20, 20), 5 * mrl + cx.r.randint(0, 30)])
    txt = ''.join(cx.r.choice(PRINTABLE) for _ in range(max(n, 1)))
    c = cx.valid(lf.add, 'COMMENT', 'C', text=Val([txt, 'second']))
    b = wr(cx, sc)
    v = compare(sc, b, parts=('attributes', 'frames'))
    del c, v


@family('C15', 60, on_raise='fail')
def tiny_records(cx):
    """frames of one narrow channel, short names and payloads, at every small record length"""
    r = cx.r
    mrl = 20 + 2 * (cx.i % 40) if cx.i < 40 else 2 * r.randint(10, 8192)
    sc, lf = cx.valid(base, mrl=mrl, rows=0)
    for k in range(3):
        w = r.choice([None, 1, 2, 3, 5, 9, 17])
        a = G(r).array(3, dtype=r.choice(DTYPES), width=w)
        cx.valid(add_frame, lf, [a], name='F' * r.choice([1, 2, 9]) + str(k), names=['C' * r.choice([1, 2, 100]) + str(k)])
    n = cx.valid(lf.add, 'NO-FORMAT', 'N' * r.choice([1, 2, 3, 255]))
    for ln in (0, 1, 2, 3, 7, 8, 9, mrl):
        cx.valid(lf.nf, n, payload(r, ln))
    compare(sc, wr(cx, sc), parts=('label', 'frames', 'noformat'))


@family('C15', 51, on_raise='fail')
def size_sweep(cx):
    """names of every length 1..255 and frame rows of width 1..300"""
    r = cx.r
    mrl = r.choice(MRLS)
    sc, lf = cx.valid(base, mrl=mrl, rows=0)
    for k in range(5):
        ln = 5 * cx.i + k + 1
        ln = (ln - 1) % 255 + 1
        nm = ('A' * 255)[:ln]
        cx.valid(lf.add, r.choice(['ZONE', 'TOOL', 'LONG-NAME', 'GROUP', 'WELL-REFERENCE']), nm)
        a = np.frombuffer(payload(r, 2 * (cx.i * 5 + k + 1)), dtype='uint8').reshape(2, -1).copy()
        cx.valid(add_frame, lf, [a], name=f"F{k}", names=[f"C{k}"])
        cx.weight = 10
    compare(sc, wr(cx, sc), parts=('label', 'identity', 'frames'))


@family('C01', 60)
def label_values(cx):
    """label fields: set identifiers of length 1..60, sequence numbers, record lengths"""
    r = cx.r
    ln = (cx.i % 60) + 1
    sid = ''.join(r.choice(PRINTABLE[1:]) for _ in range(ln))
    sc, lf = cx.valid(base, sid=sid, seq=r.choice([1, 9, 10, 99, 100, 999, 1000, 9999]), mrl=r.choice(MRLS))
    b = wr(cx, sc)
    from .model import check_label
    check_label(sc, rp66.parse_storage(b))


# ------------------------------------------------------------------------------------------------ C03
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'readonly', 'view']


@family('C03', 288, on_raise='fail')
def dtype_grid(cx):
    """dtype x byte order x layout x width x source x chunk size, arbitrary bit patterns"""
    r, i = cx.r, cx.i
    dt = DTYPES[i % 8]
    order = '<>'[(i // 8) % 2]
    lay = LAYOUTS[(i // 16) % 6]
    source = ['inline', 'dict', 'struct', 'h5'][(i // 96) % 4] if i >= 96 else r.choice(['inline', 'dict', 'struct', 'h5'])
    n = r.choice([1, 2, 3, 10, 129, 130])
    mrl = r.choice([20, 40, 128, 8192])
    sc, lf = cx.valid(base, mrl=mrl, rows=0)
    g = G(r)
    arrs = [g.array(n, dt, r.choice([None, 1, 2, 7, 300 if n < 4 else 3]), lay, order),
            g.array(n, r.choice(DTYPES), r.choice([None, 1, 3])), g.array(n, dt, None)]
    r.shuffle(arrs)
    casts = [g.cast_for(a) for a in arrs]
    for a in arrs:
        if a.dtype.kind == 'f' and a.size and a.flags.writeable:
            a.flat[0] = r.choice([np.nan, -np.inf, -0.0])
    cx.valid(add_frame, lf, arrs, inline=source == 'inline', casts=casts)
    kw = {'input_chunk_size': r.choice([None, 1, 2, n - 1 or 1, n, n + 1, 7])}
    b = wr(cx, sc, data_arg(sc, source, cx.tmp, r), **kw)
    compare(sc, b, parts=('descriptors', 'frames'))
    cx.note = f"{dt} {order} {lay} {source} rows={n} {kw} mrl={mrl}"


@family('C03', 6, on_raise='fail')
def many_rows(cx):
    """frames with more than 127 / 16383 rows (frame-number encodings)"""
    n = [130, 16390, 300, 5000, 127, 128][cx.i % 6]
    sc, lf = cx.valid(base, rows=0, mrl=cx.r.choice([64, 8192]))
    cx.valid(add_frame, lf, [np.arange(n, dtype='uint16'), np.arange(n, dtype='float32')[::-1]])
    compare(sc, wr(cx, sc, input_chunk_size=cx.r.choice([None, 1000, 7])), parts=('frames',))


@family('C03', 40, on_raise='fail')
def many_channels(cx):
    """frames of many channels, shared between frames, in a list order differing from creation order"""
    r = cx.r
    sc, lf = cx.valid(base, rows=0, mrl=r.choice([30, 256, 8192]))
    g = G(r)
    n = r.randint(1, 6)
    chs = [cx.valid(lf.channel, f"C{k}", g.array(n, width=r.choice([None, 2, 4])), inline=True) for k in range(r.choice([3, 40, 130]))]
    for k in range(r.randint(1, 3)):
        sub = r.sample(chs, r.randint(1, len(chs)))
        cx.valid(lf.add, 'FRAME', f"F{k}", channels=Val(sub))
    compare(sc, wr(cx, sc), parts=('descriptors', 'frames'))


# ------------------------------------------------------------------------------------------------ C04/C05 attribute grid
def _kw_cases():
    out = []
    for t in sorted(TABLE):
        for kw in TABLE[t]:
            if kw.startswith('__') or t == 'FRAME' and kw == 'channels':
                continue
            out.append((t, kw))
    return out


KWS = _kw_cases()


def _support(lf, g):
    """one object of each referable type"""
    o = {}
    for t in ('AXIS', 'ZONE', 'LONG-NAME', 'EQUIPMENT', 'TOOL', 'WELL-REFERENCE', 'CALIBRATION-COEFFICIENT',
              'CALIBRATION-MEASUREMENT', 'GROUP', 'PARAMETER', 'COMPUTATION'):
        o[t] = [lf.add(t, f"S-{t}-{k}") for k in range(2)]
    o['CHANNEL'] = lf.of('CHANNEL')
    o['FRAME'] = lf.of('FRAME')
    return o


POOLS = {('EQUIPMENT', 'eq_type'): ['Adapter', 'Tool'], ('EQUIPMENT', 'location'): ['Rig', 'Well'],
         ('PROCESS', 'status'): ['COMPLETE', 'ABORTED'], ('ZONE', 'domain'): ['TIME'],
         ('CALIBRATION-MEASUREMENT', 'phase'): ['AFTER', 'MASTER'], ('FRAME', 'index_type'): ['NON-STANDARD'],
         ('FRAME', 'direction'): ['INCREASING']}


def attr_value(g, lf, sup, t, kw, n):
    """a valid value of multiplicity n (0: empty list, 1: scalar or one-element list)"""
    label, kind, tgt, multi, nested = spec_of(t, kw)
    r = g.r

    def one():
        if (t, kw) in POOLS:
            return r.choice(POOLS[(t, kw)])
        if kw == 'properties':
            return r.choice(['AVERAGED', 'COMPUTED'])
        if (t, kw) == ('CHANNEL', 'units'):
            return g.units()
        if kind == 'O':
            return r.choice(sup[tgt])
        if kind == 'R':
            return r.choice(sup[r.choice(sorted(sup))])
        if kind == 'OT':
            return r.choice(sup[tgt]) if r.random() < .5 else g.text()
        if kind == 'DIM':
            return r.choice([1, 2, 127, 128, 16384])
        if kind == 'DTN' and t == 'ZONE':
            return g.dt()
        return g.scalar(kind)
    if not multi:
        return one()
    if kind == 'M':
        return g.m_values(n)
    return [one() for _ in range(n)]


@family('C04 C05', 3 * len(KWS), on_raise='fail')
def attribute_grid(cx):
    """every attribute of every object type x multiplicity x units x assignment route x named/unnamed set"""
    r = cx.r
    t, kw = KWS[cx.i % len(KWS)]
    g = G(r, size='tiny' if r.random() < .5 else 'small')
    label, kind, tgt, multi, nested = spec_of(t, kw)
    sc, lf = cx.valid(base, mrl=r.choice([64, 8192]))
    sup = cx.valid(_support, lf, g)
    sn = r.choice([None, None, 'NAMED-SET', 'x' * 130])
    n = 1
    if multi:
        n = r.choice([0, 1, 2, 3, 126, 127, 128, 129, 200, 300])
    extra = {}
    if t == 'FRAME':
        ch = cx.valid(lf.channel, 'FC', np.arange(4, dtype='int32'), inline=True)
        extra['channels'] = Val([ch])
    if t == 'ORIGIN':
        extra.update(creation_time=Val(datetime(2021, 1, 1, tzinfo=timezone.utc)), file_set_number=Val(3))
    # cross-attribute rules of the library
    v = None
    if (t, kw) == ('PARAMETER', 'values'):
        n = min(n, 20)
        if n > 1:
            extra['zones'] = Val([r.choice(sup['ZONE']) for _ in range(n)])
    if (t, kw) in (('PARAMETER', 'axis'), ('COMPUTATION', 'axis'), ('CALIBRATION-MEASUREMENT', 'axis'), ('CHANNEL', 'axis')):
        n = min(n, 1)
    if (t, kw) in (('PARAMETER', 'dimension'), ('COMPUTATION', 'dimension'), ('CALIBRATION-MEASUREMENT', 'dimension'),
                   ('CHANNEL', 'dimension'), ('CHANNEL', 'element_limit')):
        n = min(n, 3)
        if t == 'CHANNEL':
            n = max(n, 1)                   # an empty dimension is a degenerate value (rejected), see C12
    if (t, kw) in (('SPLICE', 'zones'), ('SPLICE', 'input_channels')):
        other = 'zones' if kw == 'input_channels' else 'input_channels'
        if r.random() < .5:
            extra[other] = Val([r.choice(sup['ZONE' if other == 'zones' else 'CHANNEL']) for _ in range(n)])
    v = attr_value(g, lf, sup, t, kw, n)
    if multi and n == 1 and r.random() < .5:
        v = v[0]
    units_ok = kind in ('N', 'NI', 'UV', 'UN', 'DTN', 'DT', 'M')
    units = g.units() if units_ok and r.random() < .5 else None
    route = g.route()
    if units is not None and route == 'kw':
        route = 'dict'
    if (t, kw) == ('ORIGIN', 'file_set_number'):
        units, route = None, 'kw'
    if (t, kw) == ('GROUP', 'object_type'):
        route = 'later'
    val = Val(v, units, route)
    extra = {k: x for k, x in extra.items() if k != kw}
    if t == 'CHANNEL':
        rec = cx.valid(lf.channel, 'OBJ', None, **{kw: val})
    else:
        rec = cx.valid(lf.add, t, 'OBJ', sn, **{kw: val}, **extra)
        if r.random() < .5 and t not in ('ORIGIN', 'FRAME'):
            cx.valid(lf.add, t, 'EMPTY-OBJ', sn)
    b = wr(cx, sc)
    compare(sc, b, parts=() if cx.prop == 'C04' else ('attributes',))
    cx.note = f"{t}.{kw} x{n} route={route} units={units!r}"
    del rec


@family('C04', 44, on_raise='skip')
def set_shapes(cx):
    """per object type: nothing assigned / everything assigned, 1..130 objects per set, named and unnamed sets"""
    r = cx.r
    t = sorted(TABLE)[cx.i % len(TABLE)]
    g = G(r, size='tiny')
    sc, lf = cx.valid(base, mrl=r.choice([32, 8192]))
    cx.valid(_support, lf, g)
    if t not in ('ORIGIN', 'CHANNEL', 'FRAME'):
        for k in range(r.choice([1, 2, 5, 130])):
            cx.valid(g.object, lf, t, r.choice([None, 'SET-A', '']), None, r.choice([0, 0, .5, 1]))
    elif t == 'CHANNEL':
        for k in range(r.choice([1, 3, 20])):
            cx.valid(lf.channel, f"UNUSED{k}", None, **g.simple_attrs('CHANNEL', r.choice([0, 1])))
    compare(sc, wr(cx, sc), parts=())


@family('C05', 150, on_raise='fail')
def reassignment(cx):
    """values assigned, re-assigned, units changed after creation; nested lists"""
    r = cx.r
    sc = rnd(cx, n_lf=1, max_objs=16)
    lf = sc.lfs[0]
    g = G(r, size='tiny')
    for _ in range(12):
        o = r.choice(lf.objs)
        kws = [k for k in TABLE[o.type] if not k.startswith('__')]
        kw = r.choice(kws)
        label, kind, tgt, multi, nested = spec_of(o.type, kw)
        if (o.type, kw) in POOLS or kind in ('O', 'R', 'OT', 'DIM', 'M', 'DTN') or nested or kw == 'properties' or \
                o.type in ('CALIBRATION-COEFFICIENT', 'FRAME') or kw == 'file_set_number' or (o.type, kw) == ('CHANNEL', 'units'):
            continue
        v = [g.scalar(kind) for _ in range(r.randint(1, 4))] if multi else g.scalar(kind)
        u = g.units() if kind in ('N', 'NI', 'UV', 'UN') and r.random() < .5 else None
        cx.valid(lf.assign, o, kw, v, u)
    compare(sc, wr(cx, sc), parts=('attributes', 'order'))


@contextmanager
def local_zone(tz):
    """Run the body in the given local time zone (naive date-times are local)."""
    old = os.environ.get('TZ')
    try:
        if tz is not None:
            os.environ['TZ'] = tz
            time.tzset()
        yield
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


@family('C05', 80, on_raise='fail')
def datetimes(cx):
    """date-times 1900..2155, any microsecond, naive / aware / strings"""
    r = cx.r
    with local_zone(r.choice([None, 'EST5', 'XXX-05:45', 'CET-1CEST,M3.5.0,M10.5.0/3', 'UTC0', 'YYY12'])):
        _datetimes(cx, r)


def _datetimes(cx, r):
    sc, lf = cx.valid(base)
    g = G(r)
    for k in range(12):
        kw = r.choice([('MESSAGE', 'time'), ('ZONE', 'maximum'), ('CALIBRATION-MEASUREMENT', 'begin_time')])
        d = g.dt()
        if r.random() < .2:
            d = datetime(r.choice([1900, 1901, 2155, 2000]), r.randint(1, 12), r.randint(2, 27), r.randint(0, 23), r.randint(0, 59),
                         r.randint(0, 59), r.choice([0, 999, 499499, 499500, 999400, 999500, 999999]), tzinfo=timezone.utc)
        cx.valid(lf.add, kw[0], f"O{k}", **{kw[1]: Val(d)})
    compare(sc, wr(cx, sc), parts=('attributes',))


@family('C05', 40, on_raise='fail')
def documented_defaults(cx):
    """nothing assigned: only the documented write-time defaults appear"""
    sc = rnd(cx, n_lf=1, max_objs=0, two_origins=False)
    lf = sc.lfs[0]
    for t in TABLE:
        if t not in ('ORIGIN', 'CHANNEL', 'FRAME'):
            cx.valid(lf.add, t, f"BARE-{t}")
    cx.valid(lf.channel, 'BARE-CHANNEL', None)
    compare(sc, wr(cx, sc), parts=('attributes', 'order', 'descriptors', 'index'))
