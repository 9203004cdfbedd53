"""Bounded families: sizes taken from the constants of the code under check; arguments shared between calls."""
from __future__ import annotations
from dataclasses import dataclass

import numpy as np

from . import rp66
from .engine import family, Family, FAMILIES, SCALE, Violation
from .families import base, add_frame, add_origin, wr, payload
from .mined import constants
from .model import Val, compare, check_label

LARGEST = 140000
DIMS = {
    'C01': ('rows', 'payload', 'text', 'mrl'), 'C02': ('rows', 'payload', 'text', 'mrl'),
    'C03': ('rows', 'width', 'channels', 'rows2'), 'C04': ('values', 'text', 'objects', 'nested'), 'C05': ('values', 'text', 'number', 'ident', 'nested'),
    'C07': ('objects', 'ident', 'origin'), 'C08': ('width', 'channels'), 'C09': ('header', 'objects'), 'C10': ('chunks', 'output'),
    'C11': ('window', 'rows'), 'C13': ('index',), 'C15': ('rows', 'payload', 'text', 'width', 'values', 'mrl', 'objects'),
    'C16': ('payload', 'packets'), 'C18': ('rows2', 'files'), 'C19': ('rows', 'width'),
}
LIMIT = dict(channels=300, objects=300, ident=255, values=20000, nested=20000, text=70000, origin=2 ** 30 - 1, header=10 ** 10 - 1, number=2 ** 31 - 1,
             mrl=16384, files=12, packets=3000, output=LARGEST)
PARTS = {'C01': None, 'C02': ('frames', 'noformat', 'attributes'), 'C03': ('descriptors', 'frames'), 'C04': ('attributes',), 'C05': ('attributes',),
         'C07': ('identity', 'attributes'), 'C08': ('descriptors', 'frames'), 'C09': ('order',), 'C10': ('frames',), 'C11': ('frames',),
         'C13': ('index',), 'C15': ('frames', 'noformat', 'attributes'), 'C16': ('noformat',), 'C18': ('frames', 'noformat'), 'C19': ()}


def pairs(prop):
    out = []
    for d in DIMS[prop]:
        lo = {'number': 0, 'header': 1, 'origin': 0, 'mrl': 20, 'files': 2}.get(d, 20)
        hi = LIMIT.get(d, LARGEST)
        sizes = sorted({c + e for c in constants() for e in (-1, 0, 1) if lo <= c + e <= hi})
        if d == 'mrl':
            sizes = [s for s in sizes if s % 2 == 0]
        out += [(d, s) for s in sizes]
    return out


def col(n, k=0):
    return ((np.arange(n) * 7 + k) % 251).astype('uint8')


def sizes_of_constants(cx):
    """sizes, counts and values just below, at and just above each integer constant that appears in the code"""
    p = pairs(cx.prop)
    d, n = p[cx.i % len(p)]
    cx.note = f"{d} {n}"
    r = cx.r
    one = {'rows': 0, 'rows2': 0, 'width': 0, 'channels': 0, 'chunks': 0, 'window': 0, 'index': 0, 'files': 0}.get(d, 2)
    sc, lf = cx.valid(base, rows=one, mrl=n if d == 'mrl' else r.choice([8192, 8192, 16384]), seq=1,
                      hid='HEADER', origin=d != 'origin')
    kw, data, window, orig = {}, None, (0, None), None
    if d == 'rows':
        kw['input_chunk_size'] = r.choice([None, n, n + 1, n - 1])
        cx.valid(add_frame, lf, [col(n)])
    elif d == 'rows2':
        cx.valid(add_frame, lf, [col(3)], name='A')
        cx.valid(add_frame, lf, [col(n, 1)], name='B')
        cx.valid(add_frame, lf, [col(5, 2)], name='C')
    elif d == 'width':
        cx.valid(add_frame, lf, [np.vstack([col(n), col(n, 3)]), np.arange(2.)])
    elif d == 'channels':
        cx.valid(add_frame, lf, [col(2, k) for k in range(n)])
    elif d == 'chunks':
        cx.valid(add_frame, lf, [col(n + r.choice([0, 1, 5])), ])
    elif d == 'output':
        for k in range(3):
            cx.valid(lf.nf, lf.of('NO-FORMAT')[0] if k else cx.valid(lf.add, 'NO-FORMAT', 'N'), payload(r, n))
    elif d == 'window':
        m = n + 7
        cx.valid(add_frame, lf, [col(m), np.arange(m, dtype='float32')])
        window = r.choice([(n, None), (0, n), (n - 3, n + 2), (n, n + 1)])
        kw.update(from_idx=window[0], to_idx=window[1], input_chunk_size=r.choice([None, 2, 1000]))
    elif d == 'index':
        v = np.arange(min(n, 3000), dtype='float64') * r.choice([1, -1, .5]) + n
        cx.valid(add_frame, lf, [v], index_type=Val('BOREHOLE-DEPTH'))
    elif d == 'payload':
        nf = cx.valid(lf.add, 'NO-FORMAT', 'N')
        for x in (payload(r, n), 'x' * n, bytes(n)):
            cx.valid(lf.nf, nf, x)
    elif d == 'packets':
        nf = cx.valid(lf.add, 'NO-FORMAT', 'N')
        for k in range(n):
            cx.valid(lf.nf, nf, payload(r, k % 20))
    elif d == 'text':
        cx.valid(lf.add, 'COMMENT', 'K', text=Val(['y' * n, 'z']))
        cx.valid(lf.add, 'TOOL', 'T', description=Val('t' * n))
    elif d == 'ident':
        for k in range(2):
            cx.valid(lf.add, 'ZONE', 'Z' * n, domain=Val('BOREHOLE-DEPTH'))
        cx.valid(lf.add, 'AXIS', 'A' * (n - 1), axis_id=Val('I' * n))
        cx.valid(lf.add, 'TOOL', 'T' * n, set_name='S' * n)
    elif d == 'values':
        cx.valid(lf.add, 'COMMENT', 'K', text=Val(['same'] * n))
        cx.valid(lf.add, 'AXIS', 'A', coordinates=Val([float(k % 5) for k in range(n)]))
        cx.valid(lf.add, 'CALIBRATION-COEFFICIENT', 'C', coefficients=Val([k % 7 for k in range(n)]))
    elif d == 'nested':
        cx.valid(lf.add, 'COMPUTATION', 'C', values=Val([[float(k), 1.5] for k in range(n // 2)]))
        cx.valid(lf.add, 'COMPUTATION', 'C1', values=Val([k % 9 for k in range(n)]))
    elif d == 'objects':
        for k in range(n):
            cx.valid(lf.add, 'ZONE', 'SAME' if n <= 255 and k % 2 else f"Z{k}", description=Val(f"{k}"))
        cx.valid(lf.add, 'GROUP', 'G', object_list=Val(lf.of('ZONE')))
    elif d == 'origin':
        cx.valid(add_origin, lf, origin_reference=n)
    elif d == 'header':
        sc, lf = None, None
        from .model import Scenario
        sc = cx.valid(Scenario, 'SET', 1 + n % 9999)
        lf = cx.valid(sc.lf, 'H', fh_sequence_number=n)
        add_origin(lf)
        cx.valid(add_frame, lf, [col(3)])
    elif d == 'number':
        vals = [n, -n, n + .5]
        cx.valid(lf.add, 'AXIS', 'A', coordinates=Val([float(n), 1.5]), spacing=Val(n))
        cx.valid(lf.add, 'CALIBRATION-COEFFICIENT', 'C', coefficients=Val(vals), references=Val([n, -n, n]), plus_tolerances=Val([float(n), 1., 2.]))
        cx.valid(lf.add, 'ORIGIN', 'O2', file_set_number=Val(n % 2 ** 30), file_number=Val(min(n, 2 ** 30 - 1)), run_number=Val(n % 2 ** 16),
                 creation_time=Val('2020/01/01 00:00:00'))
        cx.valid(lf.add, 'CALIBRATION-MEASUREMENT', 'M', sample_count=Val(n), measurement=Val([n * 1.0]))
    elif d == 'files':
        lfs = [lf]
        for k in range(1, n):
            lfs.append(cx.valid(sc.lf, f"H{k}"))
            cx.valid(add_origin, lfs[-1], set_name=f"S{k}")
        for k, l in enumerate(lfs):
            cx.valid(add_frame, l, [col(2 + k, k)], name='F', names=['C'], fset=f"S{k}", cset=f"S{k}")
    if d == 'chunks':
        first = None
        rows = len(lf.data[lf.of('CHANNEL')[0]])
        for cs in {None, n - 1, n, n + 1, rows, 1000}:
            b = wr(cx, sc, input_chunk_size=cs)
            if first is None:
                first = b
                compare(sc, b, parts=('frames',))
            elif b != first:
                raise Violation(f"{rows} rows: input_chunk_size={cs} changes the output")
        return
    if d == 'output':
        first = None
        for cs in sorted({2 ** 16, max(sc.mrl, n), max(sc.mrl, n + 1), max(sc.mrl, n - 1), float(max(sc.mrl, n))}):
            b = wr(cx, sc, output_chunk_size=cs)
            if first is None:
                first = b
                compare(sc, b, parts=('noformat',))
            elif b != first:
                raise Violation(f"output_chunk_size={cs} changes the output")
        return
    if cx.prop == 'C19':
        before = {c: a.tobytes() for c, a in lf.data.items() if a is not None}
    b = wr(cx, sc, data, **kw)
    if cx.prop == 'C19':
        for c, x in before.items():
            if lf.data[c].tobytes() != x:
                raise Violation(f"data of {c} changed")
        return
    if PARTS[cx.prop] is None:
        check_label(sc, rp66.parse_storage(b))
    else:
        compare(sc, b, window=window, parts=PARTS[cx.prop])


for _p in DIMS:
    try:
        _n = len(pairs(_p))
    except OSError:
        _n = 40
    FAMILIES.setdefault(_p, {})['sizes_of_constants'] = Family(_p, 'sizes_of_constants', sizes_of_constants, min(_n, 500) / SCALE[_p] + .01, 'fail' if _p in ('C03', 'C05', 'C10', 'C11', 'C15', 'C16', 'C18') else 'skip')


@family('C05', 30, on_raise='fail')
def shared_arguments(cx):
    """one dict, AttrSetup or list object given to several attributes and objects"""
    from dliswriter import AttrSetup
    r = cx.r
    sc, lf = cx.valid(base)
    x, u = r.choice([2.5, 7, -1.25]), r.choice(['m', 'ft', None])
    kind = r.choice(['dict', 'setup', 'list', 'dictlist', 'tuple'])
    many = kind in ('list', 'dictlist', 'tuple')
    value = [x, x + 1] if many else x
    o = {'dict': lambda: {k: v for k, v in (('value', value), ('units', u)) if v is not None}, 'setup': lambda: AttrSetup(value, u),
         'list': lambda: value, 'tuple': lambda: tuple(value), 'dictlist': lambda: {'units': u or 'm', 'value': value}}[kind]()
    units = None if kind in ('list', 'tuple') else (u or 'm') if kind == 'dictlist' else u
    v = lambda: Val(list(value) if many else value, units, obj=o)
    for k in range(r.choice([2, 3])):
        if many:
            cx.valid(lf.add, 'CALIBRATION-COEFFICIENT', f"C{k}", coefficients=v(), references=v(), plus_tolerances=v())
            cx.valid(lf.add, 'CALIBRATION-MEASUREMENT', f"M{k}", measurement=v(), reference=v())
            cx.valid(lf.add, 'AXIS', f"A{k}", coordinates=v())
        else:
            cx.valid(lf.add, 'ZONE', f"Z{k}", domain=Val('BOREHOLE-DEPTH'), maximum=v(), minimum=v())
            cx.valid(lf.add, 'EQUIPMENT', f"E{k}", height=v(), length=v(), weight=v())
            cx.valid(lf.add, 'PATH', f"P{k}", borehole_depth=v(), time=v())
    cx.note = f"{kind} {value} {units}"
    compare(sc, wr(cx, sc), parts=('attributes',))


@family('C07 C03 C16', 40)
def identities_after_rewrite(cx):
    """write, then move objects to another origin or rename them, write again: the second file against the specification"""
    r = cx.r
    sc, lf = cx.valid(base, rows=0, mrl=r.choice([64, 8192]))
    from .gen import G
    g = G(r, size='tiny')
    cx.valid(add_origin, lf, 'O2', origin_reference=9)
    cx.valid(add_frame, lf, [np.arange(3.), np.arange(3, dtype='int16')], index_type=Val('NON-STANDARD'))
    cx.valid(add_frame, lf, [np.arange(2.)], name='F2')
    nfs = [cx.valid(lf.add, 'NO-FORMAT', n) for n in ('NF', 'NG', 'NF')]
    for k, o in enumerate(nfs):
        cx.valid(lf.nf, o, payload(r, k + 1))
    cx.valid(g.objects, lf, 5, types=['ZONE', 'TOOL', 'GROUP', 'PARAMETER', 'PATH', 'PROCESS'])
    if r.random() < .8:
        cx.valid(wr, cx, sc)
    for _ in range(r.randint(1, 4)):
        o = r.choice([o for o in lf.objs if o.type != 'ORIGIN'])
        if r.random() < .6:
            o.origin = r.choice([9, 0])
            o.item.origin_reference = o.origin
        elif [x.name for x in lf.of(o.type)].count(o.name) == 1 and o.type != 'CHANNEL':
            o.name = o.item.name = f"RENAMED-{r.randrange(1000)}-{len(o.name)}"
    b = wr(cx, sc)
    compare(sc, b, parts={'C07': ('identity', 'attributes', 'frames', 'noformat'), 'C03': ('descriptors', 'frames'), 'C16': ('noformat',)}[cx.prop])


def alike(r):
    """texts that are different but look alike"""
    b = r.choice(['Run', 'Alpha', 'set-1', 'GR_2', 'x', 'Depth 1', 'A1'])
    out = [b, b.upper(), b.lower(), b.swapcase(), b + ' ', ' ' + b, b.replace('-', '_'), b.replace('_', '-'), b + '0', '0' + b, b + '.0', b + '_', b * 2, b[::-1],
           b + '-1', b + '__1', b.title(), b.replace(' ', ''), b.replace(' ', '_'), b + '\t', b + '.', b + '/', '/' + b]
    out = list(dict.fromkeys(out))
    r.shuffle(out)
    return out


WITH = {'ZONE': 'description', 'TOOL': 'description', 'AXIS': 'axis_id', 'EQUIPMENT': 'serial_number', 'COMMENT': 'text', 'GROUP': 'description'}


def alike_names(cx):
    """names of sets, objects, channels, datasets and headers that differ only in case, blanks, digits or separators"""
    r = cx.r
    sc, lf = cx.valid(base, rows=0, seq=1, hid='Head')
    lfs = [lf]
    for k in range(r.choice([0, 0, 1, 2])):
        l = cx.valid(sc.lf, r.choice(['HEAD', 'head', 'Head', ' Head']))
        cx.valid(add_origin, l, set_name=f"origin{k}")
        lfs.append(l)
    files, data = alike(r), {}
    for k, l in enumerate(lfs):
        mine = files[k::len(lfs)][:3]
        sets = mine if len(lfs) > 1 else [None] + mine
        for t in r.sample(sorted(WITH), 2):
            for j in range(r.choice([2, 4, 6])):
                cx.valid(l.add, t, r.choice(alike(r)) if r.random() < .7 else 'SAME', set_name=r.choice(sets), **{WITH[t]: Val([f"{k}.{j}"] if t == 'COMMENT' else f"{k}.{j}")})
        names, keys = alike(r), [n for n in alike(r) if '/' not in n]
        dset = r.random() < .5
        chs = []
        for j in range(r.choice([2, 3, 4])):
            a = np.arange(2., 5.) * (10 * k + j + 1)
            key = keys[j] + '#' * k
            chs.append(cx.valid(l.channel, names[j], a, inline=not dset, dataset_name=key if dset else None, set_name=sets[j % len(sets)]))
            if dset:
                data[key] = a
        cut = r.randint(1, len(chs) - 1)
        for j, part in enumerate((chs[:cut], chs[cut:])):
            cx.valid(l.add, 'FRAME', names[j], channels=Val(part), set_name=sets[j % len(sets)])
        if r.random() < .5:
            nf = [cx.valid(l.add, 'NO-FORMAT', n, set_name=sets[0]) for n in names[:2]]
            for j, o in enumerate(nf):
                cx.valid(l.nf, o, payload(r, 3 + j))
        g = r.choice(l.objs)
        cx.valid(l.add, 'GROUP', names[2], object_list=Val([o for o in l.objs if o.type == g.type]), set_name=sets[-1])
    compare(sc, wr(cx, sc, data or None), parts=ALIKE[cx.prop])


ALIKE = {'C05': ('attributes',), 'C07': ('identity', 'attributes', 'frames', 'noformat'), 'C03': ('frames', 'descriptors'), 'C11': ('frames',),
         'C18': ('attributes', 'frames', 'noformat', 'identity'), 'C09': ('order',), 'C08': ('descriptors', 'frames')}
for _p in ALIKE:
    FAMILIES.setdefault(_p, {})['alike_names'] = Family(_p, 'alike_names', alike_names, 60 / SCALE[_p] + .01, 'fail')


def changed_sources(cx):
    """a data source (HDF5 file of the same path, dict, arrays) with another content since it was last written from"""
    import h5py
    r = cx.r
    kind = r.choice(['h5', 'h5', 'dict', 'array', 'structured'])
    names = ['A', 'B', 'C'][:r.choice([1, 2, 3])]
    path = cx.path('source.h5')

    def content(like=None):
        n = r.choice([1, 2, 3, 7, 40])
        out = {}
        for j, k in enumerate(names):
            dt = r.choice(['float64', 'float32', 'int16', 'int32', 'uint8', 'uint16', '>f8', '>i2', 'int8', 'uint32'])
            shape = (n,) if not j and r.random() < .8 else (n, r.choice([1, 2, 5]))
            if like is not None:
                dt, shape = like[k].dtype, like[k].shape
            out[k] = (np.arange(int(np.prod(shape))) * r.choice([1, 2, 3]) % 100 + r.choice([0, 20])).astype(dt).reshape(shape)
        return out

    def spec(arrays):
        sc, lf = cx.valid(base, rows=0)
        chs = [cx.valid(lf.channel, k, arrays[k], dataset_name=k) for k in names]
        cx.valid(lf.add, 'FRAME', 'F', channels=Val(chs), **ix)
        return sc, lf
    ix = {'index_type': Val('NON-STANDARD')} if r.random() < .3 else {}
    d = content()
    src = None
    sc, lf = spec(d)
    for step in range(r.choice([2, 2, 3])):
        if step:
            new = content(d if kind in ('array', 'structured') else None)
            if r.random() < .6:
                sc, lf = spec(new)
            else:
                for c in lf.of('CHANNEL'):
                    lf.data[c] = new[c.name]
        else:
            new = d
        if kind == 'h5':
            with h5py.File(path, 'w') as f:
                for k, a in new.items():
                    f[k] = a
            src = path
        elif kind == 'dict':
            src = {} if src is None else src
            src.update(new)
        elif kind == 'array':
            src = {k: a.copy() for k, a in new.items()} if src is None else src
            for k in names:
                src[k][...] = new[k]
        else:
            if src is None:
                src = np.zeros(len(new[names[0]]), [(k, new[k].dtype, new[k].shape[1:]) for k in names])
            for k in names:
                src[k] = new[k]
        if ix and new[names[0]].ndim > 1:
            return
        lo = r.choice([0, 0, 1]) if len(new[names[0]]) > 1 else 0
        kw = {'from_idx': lo} if lo else {}
        compare(sc, wr(cx, sc, src, input_chunk_size=r.choice([None, 2, 100]), **kw), window=(lo, None), parts=('frames', 'descriptors', 'index'))
    cx.note = kind


for _p in ('C14', 'C11', 'C08'):
    FAMILIES.setdefault(_p, {})['changed_sources'] = Family(_p, 'changed_sources', changed_sources, 120 / SCALE[_p] + .01, 'fail')
