"""Writing never alters the caller's data (C19).

The arrays of the caller are frozen in the verifier's heap: any store into them, in whichever function, fails the obligation
"the data of the caller is left as it was".  The scenarios below run the whole way from DLISFile.write to the rows; the dictionary
is compared key by key (order, identity of the values)."""
import numpy as np

from pyvc.sym import *
from .core import *
from .o_eflr import DT
from .scen import array, hdf5_file, scenario, structured, written

RETURNS = ('precondition', 'returned')
MIXED, SAME, OTHER = ('f8', 'i2', 'u4'), ('f4', 'f4', 'f4'), ('u2', 'f8', 'i4')
CAST = {'A': 'float32', 'B': 'int32', 'C': 'uint16'}
CASES = [('<', MIXED, {}, None, None), ('>', MIXED, {}, 'BOREHOLE-DEPTH', None), ('<', MIXED, CAST, None, None), ('>', MIXED, CAST, 'BOREHOLE-DEPTH', None),
         ('<', SAME, {}, None, None), ('>', SAME, {}, None, None), ('>', OTHER, {}, 'TIME', None), ('<', OTHER, {'A': 'float32'}, 'TIME', None),
         ('<', MIXED, {}, None, 'window'), ('>', MIXED, CAST, None, 'lengths'), ('>', MIXED, {}, None, 'missing'), ('>', MIXED, CAST, None, 'late'),
         ('<', MIXED, {}, None, 'type')]


def attempt(f, *a):
    try:
        f(*a)
    except Exception:
        return False
    return True




def copies(arrays):
    """Natively: the bytes of the arrays (and of what they are views of)."""
    out = []
    for a in arrays:
        if isinstance(a, np.ndarray):
            b = a
            while isinstance(b.base, np.ndarray):
                b = b.base
            out.append((a.tobytes(), b.tobytes(), a.dtype, a.shape, a.strides, a.flags.writeable))
    return out


def copies_model(it, arrays):
    return []                                   # (stores are obligations of their own)


def caller_calls(arrays, inline, data, casts, index_type, fault, kw, times, one):
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file(fh_id='HEADER')
    lf.add_origin('ORIGIN', file_set_number=9, creation_time=DT)
    chans = []
    for k in ['A', 'B', 'C']:
        cast = casts.get(k)
        chans.append(lf.add_channel(k, data=inline.get(k), dataset_name='MISSING' if fault == 'missing' and k == 'C' else None,
                                    **({'cast_dtype': np.dtype(cast)} if cast is not None else {})))
    if one:
        lf.add_frame('F', channels=chans, index_type=index_type)
    else:
        lf.add_frame('F', channels=[chans[0], chans[1]], index_type=index_type)
        lf.add_frame('G', channels=[chans[2]])
    if fault == 'late':
        lf.add_zone('Z', description='x').description.value = 'no ASCII: \xe4'
    items = list(data.items()) if isinstance(data, dict) else []
    before = copies(arrays)
    for _ in range(times):
        attempt(written, dlis, {'data': data, **kw}, ['FRAME', 'CHANNEL', 'FIRST ROW', 'ROWS', 'ZONE'])
    now = list(data.items()) if isinstance(data, dict) else []
    same = len(items) == len(now)
    if same:
        for k in range(len(items)):
            if items[k][0] != now[k][0] or items[k][1] is not now[k][1]:
                same = False
    return [same, copies(arrays) == before]


def caller_want(arrays, inline, data, casts, index_type, fault, kw, times, one):
    return [True, True]


def caller_mk(kind):
    def mk(src):
        if src.symbolic:
            src.it.models[copies] = copies_model
        order, types, casts, index_type, fault = src.pick('case', CASES)
        n = src.int('rows', 1, 2 ** 30 - 1)
        m = src.int('rows_c', 1, 2 ** 30 - 1) if fault == 'lengths' else n
        w = src.int('columns', 1, 1000)
        shapes = {'A': (n, w) if types == SAME else (n,), 'B': (n if kind != 'lengths' else m, w), 'C': (n,)}
        ts = dict(zip('ABC', types))
        if fault == 'type':
            ts['B'] = 'i8'
        kw = {}
        if fault == 'window':
            kw = {'from_idx': src.int('from_idx'), 'to_idx': src.int('to_idx')}
        elif fault is None and src.pick('chunks', [False, True]):
            kw = {'input_chunk_size': src.int('input_chunk_size', 1, 2 ** 30), 'from_idx': 0}
        inline = {}
        if kind == 'structured':
            data = structured(src, 'source', [(k, order + ts[k], shapes[k][1:]) for k in 'ABC'], n)
            arrays = [data]
        else:
            d = {k: array(src, k, order + ts[k], (m if fault == 'lengths' and k == 'B' else n,) + shapes[k][1:], kind == 'hdf5') for k in 'CAB'}
            arrays = list(d.values())
            data = d
            if kind == 'hdf5':
                data = hdf5_file(src, d)
            elif kind == 'inline':
                inline, data = d, None
            elif kind == 'inline and dict':
                inline, data = {'A': d['A'], 'B': d['B']}, {'C': d['C'], 'B': array(src, 'B2', order + ts['B'], (n,)), 'UNUSED': array(src, 'U', '<f8', (3,))}
                arrays = arrays + list(data.values())
        return arrays, inline, data, casts, index_type, fault, kw, src.pick('writes', [1, 2]) if fault is None and index_type is None else 1, types == SAME
    return mk


for _k in ('dict', 'structured', 'hdf5', 'inline', 'inline and dict'):
    scenario(f"the caller's data: {_k}", 'C19', caller_calls, caller_want, caller_mk(_k), budget=200, covers=RETURNS)
