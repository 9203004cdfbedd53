"""Families C12, C14, C17, C18, C19, C20."""
from __future__ import annotations
import hashlib
import json
import logging
import os
import random
import sys
from datetime import datetime, timezone

import numpy as np

from . import rp66, model
from .engine import family, Skip, Violation
from .families import base, add_origin, add_frame, wr, rnd, write_opts, payload, MRLS, KWS, POOLS, _support, attr_value
from .gen import G, random_scenario, data_arg, write, DTYPES, PRINTABLE, UNITS, HCCH
from .model import Scenario, Val, TABLE, METHOD, PYATTR, spec_of, compare, Mismatch, LFRec, real

ALLP = ('label', 'order', 'identity', 'attributes', 'descriptors', 'frames', 'noformat', 'index')


# ================================================================================================ C12
# Each entry: name -> function(cx, r) performing build + write of a specification that cannot be represented.
# It returns bytes if everything was accepted; 'must' families have to raise.
INVALID: dict = {}
EITHER: dict = {}


def inv(fn):
    INVALID[fn.__name__] = fn
    return fn


def either(fn):
    EITHER[fn.__name__] = fn
    return fn


def go(cx, sc, data=None, **kw):
    return sc, write(sc, cx.path(), data, **kw)


def rich(cx, **kw):
    kw.setdefault('n_lf', 1)
    return random_scenario(f"{cx.seed}:{cx.fam.name}:{cx.i}", size='tiny', max_objs=8, **kw)


@inv
def row_counts_inline(cx, r):
    sc, lf = base(rows=0)
    n = r.randint(1, 9)
    g = G(r)
    arrs = [g.array(n, width=r.choice([None, 2])) for _ in range(r.randint(1, 3))]
    arrs.insert(r.randrange(len(arrs) + 1), g.array(r.choice([x for x in (1, n - 1, n + 1, n * 2) if x > 0 and x != n]), width=r.choice([None, 2])))
    add_frame(lf, arrs, **({'index_type': Val('NON-STANDARD')} if r.random() < .3 else {}))
    return go(cx, sc, input_chunk_size=r.choice([None, 1, n]))


@inv
def row_counts_sources(cx, r):
    sc, lf = base(rows=0)
    n = r.randint(2, 9)
    arrs = [np.arange(n), np.arange(n + r.choice([-1, 1, 5]))]
    arrs = [a.astype(r.choice(DTYPES)) for a in arrs]
    r.shuffle(arrs)
    add_frame(lf, arrs, inline=False, ds=['a', 'b'])
    return go(cx, sc, data_arg(sc, r.choice(['dict', 'h5']), cx.tmp, r), input_chunk_size=r.choice([None, 1, n]),
              to_idx=r.choice([None, None, min(map(len, arrs))]) if False else None)


BAD_DTYPES = ['int64', 'uint64', 'float16', 'complex64', 'complex128', 'bool', 'U5', 'S3', 'O', 'datetime64[s]', 'timedelta64[s]', 'longdouble']


@inv
def bad_dtype(cx, r):
    sc, lf = base(rows=0)
    dt = r.choice(BAD_DTYPES)
    a = np.zeros(3, dtype=dt)
    add_frame(lf, [np.arange(3, dtype='float32'), a][::r.choice([1, -1])], inline=True)
    return go(cx, sc)


@inv
def bad_dtype_source(cx, r):
    sc, lf = base(rows=0)
    dt = r.choice([d for d in BAD_DTYPES if d not in ('U5', 'O', 'datetime64[s]', 'timedelta64[s]', 'longdouble')])
    add_frame(lf, [np.arange(3, dtype='float32'), np.zeros(3, dtype=dt)], inline=False, ds=['a', 'b'])
    return go(cx, sc, data_arg(sc, r.choice(['dict', 'struct', 'h5']), cx.tmp, r))


@inv
def bad_cast(cx, r):
    sc, lf = base(rows=0)
    add_frame(lf, [np.arange(3, dtype='float32'), np.arange(3, dtype='int16')], casts=[None, r.choice([np.int64, np.uint64, np.float16, np.complex64, bool, 'U3', 'not-a-dtype', np.dtype('S2')])])
    return go(cx, sc)


@inv
def too_many_dims(cx, r):
    sc, lf = base(rows=0)
    a = np.zeros((3, r.choice([1, 2]), r.choice([1, 2])), dtype=r.choice(DTYPES))
    inline = r.random() < .5
    add_frame(lf, [np.arange(3, dtype='float32'), a], inline=inline, ds=['a', 'b'])
    return go(cx, sc, None if inline else data_arg(sc, r.choice(['dict', 'struct', 'h5']), cx.tmp, r))


@inv
def missing_dataset(cx, r):
    sc, lf = base(rows=0)
    add_frame(lf, [np.arange(3, dtype='float32'), np.arange(3, dtype='int16')], inline=False, ds=['a', 'b'])
    drop = r.choice(['a', 'b'])
    lf.data = {c: a for c, a in lf.data.items() if lf.dataset[c] != drop}
    return go(cx, sc, data_arg(sc, r.choice(['dict', 'struct', 'h5']), cx.tmp, r) if r.random() < .8 else None)


@inv
def no_data(cx, r):
    sc, lf = base(rows=0)
    add_frame(lf, [np.arange(3, dtype='float32')], inline=False)
    return go(cx, sc, r.choice([None, {}, {'x': np.arange(3.)}]))


@inv
def long_name(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    t = r.choice(sorted(TABLE))
    nm = 'N' * r.choice([256, 257, 300, 512, 1000])
    if t == 'CHANNEL':
        lf.channel(nm, None)
    elif t == 'FRAME':
        add_frame(lf, [np.arange(2.)], name='X')
        lf.frames[-1].item.name = nm
    elif t == 'ORIGIN':
        add_origin(lf, nm)
    elif r.random() < .3:
        lf.add(t, 'SHORT').item.name = nm
    else:
        lf.add(t, nm)
    return go(cx, sc)


@inv
def long_set_name(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    lf.add(r.choice(['ZONE', 'TOOL', 'GROUP', 'AXIS', 'PATH']), 'X', 'S' * r.choice([256, 300, 1000]))
    return go(cx, sc)


NONASCII = ['é', 'x\x80', 'naïve text', '中文', 'a\u0301', '\ud800']


@inv
def non_ascii_name(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    s = r.choice(NONASCII)
    k = r.randrange(4)
    if k == 0:
        lf.add(r.choice([t for t in TABLE if t not in ('CHANNEL', 'FRAME', 'ORIGIN')]), s)
    elif k == 1:
        lf.channel(s, None)
    elif k == 2:
        lf.add('ZONE', 'Z', s)
    else:
        lf.add('ZONE', 'Z').item.name = s
    return go(cx, sc)


def text_kw(r, kinds=('T', 'I')):
    c = [(t, kw) for t, kw in KWS if spec_of(t, kw)[1] in kinds and (t, kw) not in POOLS and t not in ('CHANNEL', 'FRAME', 'ORIGIN')
         and kw not in ('properties', 'object_type')]
    return r.choice(c)


@inv
def non_ascii_value(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    t, kw = text_kw(r)
    multi = spec_of(t, kw)[3]
    s = r.choice(NONASCII)
    o = lf.add(t, 'OBJ', None, **{kw: Val(['ok', s] if multi else s, None, r.choice(['kw', 'dict', 'setup', 'later']))})
    del o
    return go(cx, sc)


@inv
def non_ascii_units(cx, r):
    sc = rich(cx)
    sc.lfs[0].add('TOOL', 'T')
    sc.lfs[0].add('EQUIPMENT', 'E', None, height=Val(1.5, r.choice(['µm', 'Ω', '°C']), r.choice(['dict', 'setup', 'later'])))
    return go(cx, sc)


@inv
def non_ascii_other(cx, r):
    k = r.randrange(5)
    s = r.choice(NONASCII[:4])
    if k == 0:
        sc, lf = base(sid=s)
    elif k == 1:
        sc, lf = base(hid=s)
    elif k == 2:
        sc = Scenario()
        lf = sc.lf('H', s)
        add_origin(lf)
        add_frame(lf, [np.arange(2.)])
    elif k == 3:
        sc, lf = base()
        lf.nf(lf.add('NO-FORMAT', 'N'), s)
    else:
        sc, lf = base()
        z = lf.add('ZONE', 'Z')
        lf.add('PARAMETER', 'P', None, values=Val([s]), zones=Val([z]))
    return go(cx, sc)


@inv
def long_ident_value(cx, r):
    sc = rich(cx)
    t, kw = text_kw(r, ('I',))
    multi = spec_of(t, kw)[3]
    s = 'i' * r.choice([256, 257, 300, 511, 512, 768, 70000])
    sc.lfs[0].add(t, 'OBJ', None, **{kw: Val([s] if multi else s, None, r.choice(['kw', 'dict', 'setup', 'later']))})
    return go(cx, sc)


@inv
def long_units(cx, r):
    sc = rich(cx)
    sc.lfs[0].add('EQUIPMENT', 'E', None, height=Val(1.5, 'u' * r.choice([256, 300, 512]), r.choice(['dict', 'setup', 'later'])))
    return go(cx, sc)


@inv
def long_label(cx, r):
    k = r.randrange(3)
    if k == 0:
        sc, lf = base(sid='s' * r.choice([61, 62, 100]))
    elif k == 1:
        sc, lf = base(hid='h' * r.choice([66, 70, 200]))
    else:
        sc, lf = base(seq=r.choice([10000, 99999, 10**6]))
    return go(cx, sc)


@inv
def bad_sequence_number(cx, r):
    v = r.choice([0, -1, 1.5, '1', None, 10**10])
    if r.random() < .5:
        sc, lf = base(seq=v if v != 10**10 else 10000)
    else:
        sc = Scenario()
        lf = sc.lf('H', '0', v)
        add_origin(lf)
        add_frame(lf, [np.arange(2.)])
    return go(cx, sc)


@inv
def int_out_of_range(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    k = r.randrange(9)
    rt = r.choice(['kw', 'dict', 'setup', 'later'])
    if k == 0:
        add_origin(lf, 'O9', file_number=Val(r.choice([2**30, 2**31, 2**32, -1]), None, rt))
    elif k == 1:
        add_origin(lf, 'O9', name_space_version=Val(r.choice([2**30, -5]), None, rt))
    elif k == 2:
        add_origin(lf, 'O9', **{r.choice(['run_number', 'descent_number', 'producer_code']): Val(r.choice([65536, 10**6, -1]), None, rt)})
    elif k == 3:
        lf.add('PARAMETER', 'PP', None, values=Val([r.choice([2**31, -2**31 - 1, 2**40])], None, rt))
    elif k == 4:
        lf.add('CALIBRATION-MEASUREMENT', 'CM', None, sample_count=Val(r.choice([2**31, -2**31 - 1]), None, rt))
    elif k == 5:
        lf.add('TOOL', 'T', None, status=Val(r.choice([2, -1, 255]), None, rt))
    elif k == 6:
        lf.add('ZONE', 'Z', None, origin_reference=r.choice([2**30, 2**31, -1, -7]))
    elif k == 7:
        lf.add('COMPUTATION', 'C', None, dimension=Val([r.choice([2**30, -1, -3])], None, rt))
    else:
        add_origin(lf, 'O9', file_set_number=Val(r.choice([2**30, -1, 2**40])))
    return go(cx, sc)


@inv
def date_out_of_range(cx, r):
    sc = rich(cx)
    d = datetime(r.choice([1, 1000, 1899, 2156, 9998]), 6, 15, tzinfo=r.choice([None, timezone.utc]))
    sc.lfs[0].add('MESSAGE', 'M', None, time=Val(d, None, r.choice(['kw', 'dict', 'later'])))
    return go(cx, sc)


@inv
def too_many_copies(cx, r):
    sc, lf = base(rows=2)
    t = r.choice(['ZONE', 'GROUP', 'TOOL'])
    for k in range(257):
        lf.add(t, 'SAME', r.choice([None, 'OTHER']) if cx.i % 2 else None)
    return go(cx, sc)


@inv
def no_origin(cx, r):
    sc, lf = base(origin=False)
    if r.random() < .5:
        lf.add('ZONE', 'Z')
    return go(cx, sc)


@inv
def no_frames(cx, r):
    sc, lf = base(rows=0)
    if r.random() < .5:
        lf.channel('C', np.arange(3.), inline=True)
    return go(cx, sc)


@inv
def no_logical_file(cx, r):
    return go(cx, Scenario())


@inv
def second_lf_incomplete(cx, r):
    sc, lf = base()
    l2 = sc.lf('H2')
    k = r.randrange(3)
    if k > 0:
        add_origin(l2, 'O2', set_name='L2')
    if k == 2:
        l2.channel('C2', np.arange(3.), inline=True, set_name='L2')
    return go(cx, sc)


@inv
def empty_frame(cx, r):
    sc, lf = base()
    lf.add('FRAME', 'EMPTY', channels=Val(r.choice([[], None, ()])))
    return go(cx, sc)


@inv
def frame_without_channels_kw(cx, r):
    sc, lf = base()
    lf.lf.add_frame('EMPTY', channels=r.choice([[], None, (), 'C', 5]))
    return go(cx, sc)


@inv
def bad_record_length(cx, r):
    sc, lf = base(mrl=r.choice([0, -2, 2, 18, 19, 21, 8191, 16385, 16386, 20000, 100000, 128.0, '8192', 16383]))
    return go(cx, sc, output_chunk_size=2 ** 20)


@inv
def bad_chunk_size(cx, r):
    sc, lf = base(rows=r.choice([1, 5]), mrl=r.choice([100, 8192]))
    if r.random() < .5:
        return go(cx, sc, output_chunk_size=r.choice([sc.mrl - 1, sc.mrl - 2, 1, -5, sc.mrl + .5, '9000', 20]))
    return go(cx, sc, input_chunk_size=r.choice([0, -1, -100, 1.5, '3', 0.0]))


@inv
def bad_window(cx, r):
    sc, lf = base(rows=0)
    n = r.choice([1, 5])
    k = r.choice(['inline', 'dict', 'struct', 'h5'])
    add_frame(lf, [np.arange(n, dtype='float32')], inline=k == 'inline', ds=['a'])
    w = r.choice([(-1, None), (0, n + 1), (n, None), (n, n), (2, 1), (0, 0), (n + 3, None), (0, -1), (-2, 1), (1, 1), (0, n + 100)])
    return go(cx, sc, data_arg(sc, k, cx.tmp, r), from_idx=w[0], to_idx=w[1], input_chunk_size=r.choice([None, 1, 3]))


@inv
def wrong_reference_type(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    c = [(t, kw) for t, kw in KWS if spec_of(t, kw)[1] == 'O' and t != 'FRAME']
    t, kw = r.choice(c)
    tgt, multi = spec_of(t, kw)[2], spec_of(t, kw)[3]
    wrong = lf.add(r.choice([x for x in ('ZONE', 'LONG-NAME', 'COMMENT') if x != tgt]), 'WRONG')
    v = r.choice([wrong, 'a string', 5, lf.item if hasattr(lf, 'item') else 7.5])
    rt = r.choice(['kw', 'dict', 'later'])
    if t == 'CHANNEL':
        lf.channel('CH', None, **{kw: Val([v] if multi else v, None, rt)})
    else:
        lf.add(t, 'OBJ', None, **{kw: Val([v] if multi else v, None, rt)})
    return go(cx, sc)


@inv
def foreign_reference(cx, r):
    sc = Scenario()
    lfs = [sc.lf('H1'), sc.lf('H2')]
    for k, lf in enumerate(lfs):
        add_origin(lf, f"O{k}", set_name=f"L{k}")
        add_frame(lf, [np.arange(2.)], fset=f"L{k}", cset=f"L{k}", ds=[f"d{k}"], name=f"FR{k}")
    for k, lf in enumerate(lfs):
        for t in ('AXIS', 'ZONE', 'LONG-NAME', 'EQUIPMENT', 'TOOL', 'WELL-REFERENCE', 'CALIBRATION-COEFFICIENT',
                  'CALIBRATION-MEASUREMENT', 'GROUP', 'PARAMETER', 'COMPUTATION'):
            lf.add(t, r.choice(['SAME', f"{t}{k}"]), f"L{k}")
    c = [(t, kw) for t, kw in KWS if spec_of(t, kw)[1] in ('O', 'R', 'OT') and t != 'FRAME']
    t, kw = r.choice(c)
    _, kind, tgt, multi, _ = spec_of(t, kw)
    v = r.choice(lfs[0].of(tgt) if tgt else lfs[0].objs)
    val = Val([v] if multi else v, None, r.choice(['kw', 'dict', 'later']))
    if t == 'CHANNEL':
        lfs[1].channel('CH', None, set_name='L1', **{kw: val})
    else:
        lfs[1].add(t, 'OBJ', 'L1', **{kw: val})
    return go(cx, sc)


@inv
def foreign_channel_in_frame(cx, r):
    sc = Scenario()
    lfs = [sc.lf('H1'), sc.lf('H2')]
    for k, lf in enumerate(lfs):
        add_origin(lf, f"O{k}", set_name=f"L{k}")
        add_frame(lf, [np.arange(2.)], fset=f"L{k}", cset=f"L{k}", ds=[f"d{k}"], name=f"FR{k}")
    c = lfs[0].of('CHANNEL')[0]
    lfs[1].data[c] = lfs[0].data[c]
    lfs[1].cast[c] = None
    lfs[1].add('FRAME', 'BAD', 'L1', channels=Val([c]))
    return go(cx, sc, {'d0': np.arange(2.), 'd1': np.arange(2.)} if r.random() < .5 else None)


@inv
def foreign_noformat(cx, r):
    sc = Scenario()
    lfs = [sc.lf('H1'), sc.lf('H2')]
    for k, lf in enumerate(lfs):
        add_origin(lf, f"O{k}", set_name=f"L{k}")
        add_frame(lf, [np.arange(2.)], fset=f"L{k}", cset=f"L{k}", name=f"FR{k}")
    o = lfs[0].add('NO-FORMAT', 'N', 'L0')
    if r.random() < .5:
        lfs[1].add('NO-FORMAT', 'N', 'L1')
    lfs[1].nf(o, b'abc')
    return go(cx, sc)


@inv
def unknown_origin_reference(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    have = [o.item.origin_reference for o in lf.of('ORIGIN')]
    lf.add('ZONE', 'Z', None, origin_reference=r.choice([x for x in (1, 2, 3, 50, 20000) if x not in have]))
    return go(cx, sc)


@inv
def duplicate_origin_reference(cx, r):
    sc, lf = base()
    ref = lf.objs[0].item.origin_reference
    add_origin(lf, r.choice(['O2', 'ORIG']), set_name=r.choice([None, 'X']), origin_reference=ref)
    return go(cx, sc)


@inv
def duplicate_channel_in_frame(cx, r):
    sc, lf = base(rows=0)
    a = lf.channel('C', np.arange(3.), inline=True)
    b = a if r.random() < .5 else lf.channel('C', np.arange(3, dtype='int8'), inline=True, dataset_name='other')
    lf.add('FRAME', 'F', channels=Val([a, b]))
    return go(cx, sc)


@inv
def duplicate_dataset_name(cx, r):
    sc, lf = base(rows=0)
    a = lf.channel('C', np.arange(3.), inline=True, dataset_name='ds')
    b = lf.channel('D', np.arange(3, dtype='int8'), inline=True, dataset_name='ds')
    lf.add('FRAME', 'F', channels=Val([a, b]))
    return go(cx, sc)


@inv
def list_into_single(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    c = [(t, kw) for t, kw in KWS if not spec_of(t, kw)[3] and spec_of(t, kw)[1] in ('T', 'I', 'N', 'ST', 'O', 'R', 'NI', 'DTN')
         and t not in ('CHANNEL', 'FRAME', 'ORIGIN') and (t, kw) not in POOLS and kw != 'object_type']
    t, kw = r.choice(c)
    kind = spec_of(t, kw)[1]
    z = lf.add('ZONE', 'ZZ')
    v = {'T': ['a', 'b'], 'I': ['a', 'b'], 'N': [1, 2], 'NI': [1, 2], 'ST': [1, 0], 'O': [z, z], 'R': [z, z], 'DTN': [1.5, 2.5]}[kind]
    lf.add(t, 'OBJ', None, **{kw: Val(v, None, r.choice(['kw', 'dict', 'later']))})
    return go(cx, sc)


@inv
def wrong_value_type(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    c = [(t, kw) for t, kw in KWS if spec_of(t, kw)[1] in ('T', 'I', 'N', 'ST', 'NI', 'DTN') and t not in ('CHANNEL', 'FRAME', 'ORIGIN')
         and kw != 'object_type']
    t, kw = r.choice(c)
    kind, multi = spec_of(t, kw)[1], spec_of(t, kw)[3]
    z = lf.add('ZONE', 'ZZ')
    pool = {'T': [5, 1.5, None, z, b'bytes', object()], 'I': [5, 1.5, z, b'bytes'], 'N': ['abc', 'x1', z, object(), 1j, b'1'],
            'NI': ['abc', 1.5, z, float('nan')], 'ST': ['maybe', 'x', z, 0.5], 'DTN': ['not a date', z, '2020-13-45', object()]}[kind]
    v = r.choice([p for p in pool if p is not None])
    lf.add(t, 'OBJ', None, **{kw: Val([v] if multi else v, None, r.choice(['kw', 'dict', 'later']))})
    return go(cx, sc)


@inv
def outside_enumeration(cx, r):
    sc = rich(cx)
    lf = sc.lfs[0]
    t, kw = r.choice([('PROCESS', 'status'), ('ZONE', 'domain'), ('CALIBRATION-MEASUREMENT', 'phase'), ('PROCESS', 'properties'),
                      ('COMPUTATION', 'properties')])
    v = 'NO-SUCH-MEMBER'
    lf.add(t, 'OBJ', None, **{kw: Val([v] if kw == 'properties' else v, None, r.choice(['kw', 'dict', 'later']))})
    return go(cx, sc)


@inv
def dimension_mismatch(cx, r):
    sc, lf = base(rows=0)
    a = np.zeros((3, r.choice([2, 3, 4])), dtype='float32')
    at = {'dimension': Val([a.shape[1] + r.choice([-1, 1, 5])])} if r.random() < .6 else {'element_limit': Val([a.shape[1] - 1])}
    add_frame(lf, [np.arange(3.), a], cattrs={1: at})
    return go(cx, sc)


@inv
def shared_set_across_files(cx, r):
    sc = Scenario()
    lfs = [sc.lf('H1'), sc.lf('H2')]
    share = r.choice(['ORIGIN', 'CHANNEL', 'FRAME', 'ZONE', 'NO-FORMAT'])
    for k, lf in enumerate(lfs):
        s = f"L{k}"
        nm = lambda t: None if t == share else s
        add_origin(lf, f"O{k}", set_name=nm('ORIGIN'))
        add_frame(lf, [np.arange(2.)], fset=nm('FRAME'), cset=nm('CHANNEL'), ds=[f"d{k}"], name=f"FR{k}")
        lf.add('ZONE', f"Z{k}", nm('ZONE'))
        o = lf.add('NO-FORMAT', f"N{k}", nm('NO-FORMAT'))
        lf.nf(o, b'x')
    return go(cx, sc)


@inv
def noformat_bad_payload(cx, r):
    sc, lf = base()
    o = lf.add('NO-FORMAT', 'N')
    lf.nf(o, b'fine')
    v = r.choice([5, None, 1.5, ['a'], object()])
    lf.lf.add_no_format_frame_data(o.item, v)
    return go(cx, sc)


@inv
def noformat_bad_object(cx, r):
    sc, lf = base()
    z = lf.add('ZONE', 'N')
    lf.lf.add_no_format_frame_data(r.choice([z.item, 'N', None, lf.frames[0].item]), b'abc')
    return go(cx, sc)


@inv
def overwrite_source(cx, r):
    import h5py
    sc, lf = base(rows=0)
    add_frame(lf, [np.arange(4.)], inline=False, ds=['a'])
    p = cx.path('out.dlis')
    with h5py.File(p, 'w') as f:
        f.create_dataset('a', data=np.arange(4.))
    return go(cx, sc, p)


@inv
def mixed_values(cx, r):
    sc, lf = base()
    z = [lf.add('ZONE', f"Z{k}") for k in range(2)]
    lf.add('PARAMETER', 'P', None, zones=Val(z), values=Val(r.choice([['abc', 5], [1.5, 'xyz'], ['a', None]])))
    return go(cx, sc)


@inv
def parameter_zone_mismatch(cx, r):
    sc, lf = base()
    z = [lf.add('ZONE', f"Z{k}") for k in range(2)]
    lf.add('PARAMETER', 'P', None, zones=Val(z), values=Val([1, 2, 3]))
    return go(cx, sc)


@inv
def splice_mismatch(cx, r):
    sc, lf = base()
    z = [lf.add('ZONE', f"Z{k}") for k in range(2)]
    lf.add('SPLICE', 'P', None, zones=Val(z), input_channels=Val(lf.of('CHANNEL')[:1]))
    return go(cx, sc)


@inv
def foreign_zone_domain(cx, r):
    sc, lf = base()
    lf.add('ZONE', 'Z', None, domain=Val('BOREHOLE-DEPTH'), minimum=Val(datetime(2020, 1, 1, tzinfo=timezone.utc)))
    return go(cx, sc)


@inv
def int_too_big_for_float(cx, r):
    sc, lf = base()
    lf.add('EQUIPMENT', 'E', None, height=Val(10 ** 400, None, r.choice(['kw', 'later'])))
    return go(cx, sc)


@either
def empty_list(cx, r):
    sc, lf = base()
    g = G(r)
    sup = _support(lf, g)
    t, kw = r.choice([(t, kw) for t, kw in KWS if spec_of(t, kw)[3] and t not in ('CHANNEL', 'FRAME')])
    lf.add(t, 'OBJ', None, **{kw: Val([], r.choice([None, 'm']) if spec_of(t, kw)[1] in ('N', 'M') else None, 'dict')})
    del sup
    return go(cx, sc)


@either
def zero_rows(cx, r):
    sc, lf = base(rows=0)
    add_frame(lf, [np.zeros((0,) + r.choice([(), (2,)]), dtype=r.choice(DTYPES))], **({'index_type': Val('NON-STANDARD')} if r.random() < .5 else {}))
    return go(cx, sc)


@either
def zero_width(cx, r):
    sc, lf = base(rows=0)
    add_frame(lf, [np.arange(3.), np.zeros((3, 0), dtype=r.choice(DTYPES))])
    return go(cx, sc)


@either
def nested_depth(cx, r):
    sc, lf = base()
    lf.add('COMPUTATION', 'C', None, values=Val(r.choice([[[1, 2], [3, 4]], [[[1, 2]]], [[1], [2]], [1, 2], [[1, 2, 3]]])),
           **({'zones': Val([lf.add('ZONE', 'Z0'), lf.add('ZONE', 'Z1')])} if r.random() < .5 else {}))
    return go(cx, sc)


@either
def ragged_values(cx, r):
    sc, lf = base()
    t = r.choice(['COMPUTATION', 'CALIBRATION-MEASUREMENT'])
    kw = 'values' if t == 'COMPUTATION' else r.choice(['measurement', 'reference', 'standard', 'maximum_deviation'])
    lf.add(t, 'C', None, **{kw: Val([[1, 2], [3]])})
    return go(cx, sc)


@either
def odd_numbers(cx, r):
    sc, lf = base()
    t, kw = r.choice([(t, kw) for t, kw in KWS if spec_of(t, kw)[1] == 'N' and not spec_of(t, kw)[3] and t not in ('FRAME', 'CHANNEL')])
    v = r.choice([np.float32(1.5), np.float64(-2.25), np.int16(7), np.uint8(255), True, '5', '2.5', float('nan'), 2**53, -2**53])
    if isinstance(v, str):
        v0 = v
        lf.add(t, 'OBJ', None, **{kw: Val(v0)})
        lf.objs[-1].attrs[kw] = Val(float(v0))
    else:
        lf.add(t, 'OBJ', None, **{kw: Val(v)})
        lf.objs[-1].attrs[kw] = Val(v.item() if isinstance(v, np.generic) else v)
    return go(cx, sc)


@either
def numpy_array_values(cx, r):
    sc, lf = base()
    kw = r.choice(['coefficients', 'references'])
    v = np.array([1.5, -2.0, 3.25])
    lf.add('CALIBRATION-COEFFICIENT', 'CC', None, **{kw: Val(v)})
    lf.objs[-1].attrs[kw] = Val(v.tolist())
    return go(cx, sc)


@either
def control_characters(cx, r):
    sc, lf = base()
    s = r.choice(['\0', 'a\0b', '\n', '\x7f', '\t x', ' lead', 'trail ', ''])
    if r.random() < .5 and s:
        lf.add('ZONE', s)
    else:
        lf.add('ZONE', 'Z', None, description=Val(s))
    return go(cx, sc)


@either
def empty_names(cx, r):
    sc, lf = base()
    k = r.randrange(4)
    if k == 0:
        lf.add('ZONE', '')
    elif k == 1:
        lf.channel('', None)
    elif k == 2:
        lf.add('ZONE', 'Z', '')
    else:
        lf.add('EQUIPMENT', 'E', None, height=Val(1, '', 'dict'))
        lf.objs[-1].attrs['height'] = Val(1)
    return go(cx, sc)


@either
def empty_label(cx, r):
    sc, lf = base(sid='') if r.random() < .5 else base(hid='')
    return go(cx, sc)


@family('C12', 900)
def unrepresentable(cx):
    """specifications which cannot be represented: the add or the write must raise"""
    names = sorted(INVALID)
    nm = names[cx.i % len(names)]
    cx.note = nm
    cx.key = f"{nm}{cx.i}"
    try:
        sc, b = INVALID[nm](cx, cx.r)
    except (Skip, Violation):
        raise
    except Exception as e:
        cx.note = f"{nm}: {type(e).__name__}: {e}"
        return
    try:
        compare(sc, b)
        what = 'the file decodes, but such a specification must be rejected'
    except Exception as e:
        what = f"the file is wrong: {e}"
    raise Violation(f"{nm}: accepted and written ({len(b)} bytes); {what}"[:900])


@family('C12', 300)
def degenerate(cx):
    """degenerate inputs: rejected, or encoded faithfully"""
    names = sorted(EITHER)
    nm = names[cx.i % len(names)]
    cx.note = nm
    cx.key = f"{nm}{cx.i}"
    try:
        sc, b = EITHER[nm](cx, cx.r)
    except (Skip, Violation):
        raise
    except Exception as e:
        cx.note = f"{nm}: rejected: {type(e).__name__}: {e}"
        return
    cx.result(b)
    compare(sc, b)
