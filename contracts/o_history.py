"""The file depends on the specification, the data and the options only, not on what was done before (C14; modes: C17).

The real code is compared with itself: a history, then the specification under test, against the specification alone in a
fresh process (caches of functions, module globals and class attributes as after the import)."""
import numpy as np

from pyvc.sym import *
from .core import *
from .core import fresh_process
from .o_eflr import DT
from .scen import array, hdf5_file, scenario, structured, written

RETURNS = ('precondition', 'returned')      # (both runs rejected: nothing shown)


# ------------------------------------------------------------------------------------------------- the same file written before
def attempt(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        pass


def one_file(values, index_type):
    v, w, name = values
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file(fh_id='HEADER', fh_sequence_number=2)
    lf.add_origin('ORIGIN', file_set_number=9, creation_time=DT)
    lf.add_origin('SECOND', file_set_number=9, creation_time=DT, origin_reference=5)
    a = lf.add_channel('A', units='m')
    b = lf.add_channel(name, dataset_name='B')
    c = lf.add_channel(name, dataset_name='C')
    f = lf.add_frame('F', channels=[a, c], index_type=index_type)
    g = lf.add_frame('G', channels=[b])
    z = lf.add_zone(name, domain='TIME', maximum={'value': v, 'units': 's'}, minimum=w)
    p = lf.add_parameter('P', values=[v], zones=[z])
    t = lf.add_comment('C', text=['one', name])
    n = lf.add_no_format('N')
    lf.add_no_format_frame_data(n, b'payload')
    return dlis, {'lf': lf, 'a': a, 'b': b, 'f': f, 'g': g, 'z': z, 'p': p, 't': t, 'n': n}


def changes(o, what, values):
    """Mutations between the writes."""
    lf = o['lf']
    v, w, name = values
    if what == 'values':
        o['z'].maximum.value = w
        o['z'].description.value = 'changed'
        o['a'].units.value = 'ft'
        o['p'].values.value = [w]
        o['t'].text.value = name
    elif what == 'objects':
        lf.add_zone(name)
        lf.add_equipment('E', serial_number=name)
        lf.add_no_format_frame_data(o['n'], name)
    elif what == 'origin':
        o['z'].origin_reference = 5
        o['p'].origin_reference = 5
        o['b'].origin_reference = 5
    elif what == 'names':
        o['z'].name = 'RENAMED'
        o['a'].name = 'RENAMED'
    elif what == 'index':
        o['f'].index_type.value = 'VERTICAL-DEPTH'
        o['g'].index_type.value = 'TIME'
        o['g'].spacing.value = v
    elif what == 'channels':
        o['g'].channels.value = [o['b'], lf.add_channel('D')]


def again(values, index_type, what, before, kw):
    fresh_process()
    dlis, o = one_file(values, index_type)
    if before is not None:
        attempt(written, dlis, before)
    changes(o, what, values)
    return written(dlis, kw)


def again_with(values, index_type, what, before, kw):
    return again(values, index_type, what, before, kw)


def again_without(values, index_type, what, before, kw):
    return again(values, index_type, what, None, kw)


def a_source(src, tag, kind, types, columns):
    n = src.int('rows_' + tag, 3, 2 ** 30 - 1)
    names = ['A', 'B', 'C', 'D', 'RENAMED']
    shapes = {k: () for k in names}
    if columns is not None:
        shapes['C'] = (columns,)
    dts = dict(zip(names, types + [types[0]]))
    if kind == 'structured':
        return structured(src, 'source_' + tag, [(k, dts[k], shapes[k]) for k in names], n), n
    d = {k: array(src, k + '_' + tag, dts[k], (n,) + shapes[k], kind == 'hdf5') for k in reversed(names)}
    return (hdf5_file(src, d) if kind == 'hdf5' else d), n


SAME, OTHERS = ['<f8', '<i2', '<f4', '<f8'], ['<u2', '<f4', '>i4', '<f4']
BEFORE = [('dict', 'dict', SAME, None, None), ('structured', 'structured', SAME, 1, None), ('hdf5', 'dict', OTHERS, None, None), ('dict', 'hdf5', OTHERS, None, 2), ('dict', 'dict', SAME, None, 2)]


def again_mk(what, index_type, before):
    def mk(src):
        kind1, kind2, types, lo, hi = src.pick('first and second write', before)
        src1, n1 = a_source(src, 'first', kind1, types, src.int('columns', 1, 1000) if types == OTHERS else None)
        src2, n2 = a_source(src, 'second', kind2, SAME, None)
        k1, k2 = {'data': src1}, {'data': src2}
        if lo is not None:
            k1['from_idx'] = lo
        if hi is not None:
            k2['to_idx'] = hi
        values = src.real('v'), src.int('w', -2 ** 31, 2 ** 31 - 1), 'N'
        return values, index_type, what, k1, k2
    return mk


for _w in ('nothing', 'values', 'objects', 'origin', 'names', 'channels'):
    scenario(f"written before, changed since: {_w}", 'C14', again_with, again_without, again_mk(_w, None, BEFORE), budget=100, covers=RETURNS, fork=True)


# (the first write has one or two rows, with any values; the second any number of rows)

def index_mk(what, index_type):
    def mk(src):
        n = src.pick('rows of the first', [1, 2])
        first = {'A': array(src, 'A_first', '<f8', (n,)), 'B': array(src, 'B_first', '<i2', (n,)), 'C': array(src, 'C_first', '<f4', (n, src.int('columns', 1, 1000)))}
        if what == 'index':
            rows = src.int('rows', 1, 2 ** 30 - 1)
            second = {'A': array(src, 'A_second', '<f8', (rows,)), 'B': array(src, 'B_second', '<i2', (1,)), 'C': array(src, 'C_second', '<f8', (rows,))}
        else:
            second, n = a_source(src, 'second', src.pick('kind', ['dict', 'structured']), SAME, None)
        values = src.real('v'), src.int('w', -2 ** 31, 2 ** 31 - 1), 'N'
        return values, index_type, what, {'data': first}, {'data': second}
    return mk


for _w in ('nothing', 'index'):
    scenario(f"written before, indexed, changed since: {_w}", 'C14 C13', again_with, again_without, index_mk(_w, 'BOREHOLE-DEPTH'), budget=220, covers=RETURNS, fork=True)


# ------------------------------------------------------------------------------------------------- other files before, or in between
def inside(f, *a, **k):
    with real(':high_compatibility_mode')():
        return f(*a, **k)


def other_work(what, values, data):
    """Work of the same process on other files."""
    v, w, name = values
    dlis = real('file.file:DLISFile')(set_identifier='OTHER')
    lf = dlis.add_logical_file(fh_id='HEADER', fh_sequence_number=7)
    lf.add_origin('ORIGIN', file_set_number=3, creation_time=DT, origin_reference=77)
    chans = [lf.add_channel(k, units='ft') for k in data]
    lf.add_frame('F', channels=chans)
    if what == 'equal values of other types':
        lf.add_zone(name, maximum=1.0, minimum=True)
        lf.add_zone(name, maximum=-0.0, minimum=0)
        lf.add_parameter('P', values=[1])
        lf.add_axis('X', axis_id='1', coordinates=[1.0, 2.0, 0.0])
        lf.add_equipment('E', serial_number='1', status=1)
        lf.add_equipment('E', serial_number='0', status=False)
    elif what == 'values':
        z = lf.add_zone(name, maximum=v, minimum=w)
        lf.add_zone(name, maximum=w, minimum=v)
        lf.add_parameter('P', values=[w])
        lf.add_no_format_frame_data(lf.add_no_format('N'), name)
    elif what == 'a rejected object':
        attempt(lf.add_zone, name, domain='no such domain')
        attempt(lf.add_channel, name, cast_dtype='no type')
    elif what == 'modes':
        attempt(inside, lf.add_zone, 'not allowed')
        attempt(inside, inside, lf.add_channel, 'C2', units='no unit')
        inside(attempt, inside, lf.add_zone, 'not allowed')
        inside(inside, lf.add_zone, 'OK')
        real(':high_compatibility_mode_decorator')(attempt)(lf.add_zone, 'neither this')
    attempt(written, dlis, {'data': data})
    if what == 'a rejected write':
        attempt(written, dlis, {'data': {}})
    return dlis


def under_test(what, values, mid=None):
    v, w, name = values
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file(fh_id='HEADER')
    lf.add_origin('ORIGIN', file_set_number=9, creation_time=DT)
    a = lf.add_channel('A', units='no unit' if what == 'modes' else 'm')
    b = lf.add_channel('B')
    if mid is not None:
        mid()
    lf.add_frame('F', channels=[a, b])
    z = lf.add_zone(name, maximum=v, minimum=w)
    lf.add_zone(name, maximum=1, minimum=1.0)
    lf.add_parameter('P', values=[1.0])
    lf.add_parameter('Q', values=[0.0])
    lf.add_axis('X', axis_id='1', coordinates=[1, 2, 0])
    lf.add_equipment('E', serial_number='1', status=True)
    lf.add_equipment('E', serial_number='1.0', status=0)
    lf.add_no_format_frame_data(lf.add_no_format('N'), name)
    return dlis


def others_with(what, when, values, other, kw):
    fresh_process()
    if when == 'before':
        other_work(what, values, other)
        dlis = under_test(what, values)
    elif when == 'while it is built':
        dlis = under_test(what, values, lambda: other_work(what, values, other))
    else:
        dlis = under_test(what, values)
        other_work(what, values, other)
    return written(dlis, kw)


def others_without(what, when, values, other, kw):
    fresh_process()
    return written(under_test(what, values), kw)


def others_mk(what):
    def mk(src):
        when = src.pick('when', ['before', 'while it is built', 'before it is written'])
        n = src.int('rows_other', 1, 2 ** 30 - 1)
        other = {'B': array(src, 'B_other', '<f4', (n,)), 'A': array(src, 'A_other', '<i2', (n, src.int('columns', 1, 1000)))}
        n = src.int('rows', 1, 2 ** 30 - 1)
        kw = {'data': {'A': array(src, 'A', '<f8', (n,)), 'B': array(src, 'B', '<i4', (n,))}}
        values = src.real('v'), src.int('w', -2 ** 31, 2 ** 31 - 1), src.ascii('name', 255)
        return what, when, values, other, kw
    return mk


for _w in ('equal values of other types', 'values', 'a rejected object', 'modes', 'a rejected write'):
    scenario(f"other files before: {_w}", 'C14 C17' if _w == 'modes' else 'C14', others_with, others_without, others_mk(_w), budget=120, covers=RETURNS, fork=True)


# ------------------------------------------------------------------------------------------------- another content of the same source
def replaced_with(first, second):
    fresh_process()
    attempt(written, under_test('values', (1, 2, 'N')), first)
    return written(under_test('values', (1, 2, 'N')), second)


def replaced_without(first, second):
    fresh_process()
    return written(under_test('values', (1, 2, 'N')), second)


def replaced_mk(src):
    out = []
    for tag, (ta, tb), columns in (('first', ('<i2', '<f4'), src.int('columns', 1, 1000)), ('second', ('<f8', '<i4'), None)):
        n = src.int('rows_' + tag, 1, 2 ** 30 - 1)
        out.append({'data': hdf5_file(src, {'A': array(src, 'A_' + tag, ta, (n,), True), 'B': array(src, 'B_' + tag, tb, (n,) if columns is None else (n, columns), True)})})
    return out


scenario('an HDF5 file replaced since it was written from', 'C14 C11', replaced_with, replaced_without, replaced_mk, budget=100, covers=RETURNS, fork=True)


def refilled_with(first, second, spec):
    fresh_process()
    data = dict(first)
    dlis = under_test('values', (1, 2, 'N'))
    attempt(written, dlis, {'data': data})
    for k in second:
        data[k] = second[k]
    return written(dlis if spec == 'the same' else under_test('values', (1, 2, 'N')), {'data': data})


def refilled_without(first, second, spec):
    fresh_process()
    return written(under_test('values', (1, 2, 'N')), {'data': dict(second)})


def refilled_mk(src):
    n, m = src.int('rows_first', 1, 2 ** 30 - 1), src.int('rows_second', 1, 2 ** 30 - 1)
    first = {'A': array(src, 'A_first', '<i2', (n,)), 'B': array(src, 'B_first', '<f4', (n, src.int('columns', 1, 1000)))}
    second = {'A': array(src, 'A_second', '<f8', (m,)), 'B': array(src, 'B_second', '<i4', (m,))}
    return first, second, src.pick('specification', ['the same', 'another'])


scenario('a dict of data refilled since it was written from', 'C14 C11', refilled_with, refilled_without, refilled_mk, budget=100, covers=RETURNS, fork=True)
