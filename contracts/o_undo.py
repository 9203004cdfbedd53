"""Rejected calls leave no trace: the file is the one written without them (C20). The real code is compared with itself."""
import numpy as np

from pyvc.sym import *
from harness.model import METHOD, TABLE
from . import spec as S
from .core import *
from .o_eflr import DT, SKIP
from .scen import array, scenario, structured, written

RETURNS = ('precondition', 'returned')      # (both runs rejected: nothing shown)
ACCEPTED = []          # calls of the last run which were not rejected after all (nothing is claimed about them)


def attempt(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return
    ACCEPTED.append(1)


def essentials(t, lf, ch):
    if t == 'ORIGIN':
        return {'file_set_number': 9, 'creation_time': DT}
    if t == 'FRAME':
        return {'channels': [ch]}
    return {}


def bad_call(lf, t, ch, name, case):
    kw = essentials(t, lf, ch)
    if case[0] == 'name':
        name = 5
    elif case[0] == 'origin':
        kw['origin_reference'] = 'x'
    else:
        if case[0] == 'in a new set':
            kw['set_name'] = 'FRESH'
        if case[0] == 'of its own origin':
            kw['origin_reference'] = case[2]
        kw[case[1]] = {'value': None, 'part': 1} if case[0] != 'units' else {'units': 5}
    getattr(lf, METHOD[t])(name, **kw)


def same_type(t, name, case, where, d3, d2, rejected):
    """Objects of one type are added; in between, a call is rejected (or not made at all)."""
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file()
    lf.add_origin('ORIGIN', file_set_number=9, creation_time=DT)
    ch = lf.add_channel('CH', data=d3)
    lf.add_frame('FR', channels=[ch])
    if where == 'in the same set':
        getattr(lf, METHOD[t])(name, **essentials(t, lf, ch))
    elif where == 'in another set':
        getattr(lf, METHOD[t])(name, set_name='OTHER', **essentials(t, lf, ch))
    elif where == 'in another logical file':
        l2 = dlis.add_logical_file(fh_id='SECOND')
        l2.add_origin('ORIGIN2', set_name='O2', file_set_number=9, creation_time=DT)
        c2 = l2.add_channel('CH2', set_name='C2', data=d2)
        l2.add_frame('FR2', set_name='F2', channels=[c2])
        if t not in ('ORIGIN', 'CHANNEL', 'FRAME'):
            getattr(l2, METHOD[t])(name, set_name='X2')
    if rejected:
        attempt(bad_call, lf, t, ch, name, case)
    more = getattr(lf, METHOD[t])(name, **essentials(t, lf, ch))
    if t == 'CHANNEL':
        lf.add_frame('MORE', channels=[more])
        return written(dlis, {'data': {'CH': d3, more.dataset_name: d3}} if where != 'in another logical file' else {})
    return written(dlis, {})


def with_rejected(*a):
    del ACCEPTED[:]
    r = same_type(*a, rejected=True)
    return None if ACCEPTED else r


def without(*a):
    return None if ACCEPTED else same_type(*a, rejected=False)


def undo(t):
    keys = [k for k in TABLE[t] if (t, k) not in SKIP]
    cases = [('name',), ('origin',)] + [('key', k) for k in keys] + [('of its own origin', keys[-1]), ('in a new set', keys[-1]), ('units', keys[0])]
    wheres = ['in the same set', 'nothing', 'in another set', 'in another logical file']

    def mk(src):
        where = src.pick('objects of the type before the call', wheres)
        case = src.pick('rejected because of', cases if where == wheres[0] else cases[-3:])
        if case[0] == 'of its own origin':
            case = case + (src.int('reference', 0, 2 ** 30 - 1),)
        return t, src.ascii('name', 255) if t != 'CHANNEL' else src.pick('name', ['CH', 'N']), case, where, \
            array(src, 'CH', '<f8', (src.int('rows', 1, 2 ** 30 - 1),)), array(src, 'CH2', '<f8', (src.int('rows of the other', 1, 2 ** 30 - 1),))
    return scenario(f"rejected call: {METHOD[t]}", 'C20', with_rejected, without, mk, budget=240 if t == 'ORIGIN' else 120, covers=RETURNS)


for _t in TABLE:
    undo(_t)


# ------------------------------------------------------------------------------------------------- other calls
TABLE_4_3, TABLE_4_3_3 = np.zeros((4, 3), dtype='i2'), np.zeros((4, 3, 3), dtype='i2')


class Odd:
    pass


def bad_channel(dlis, lf, ch, data):
    lf.add_channel('N', data=data, units={'part': 1})


def bad_channel_cast(dlis, lf, ch, data):
    lf.add_channel('N', data=data, cast_dtype='no such type')


def bad_channel_data(dlis, lf, ch, data):
    lf.add_channel('N', data=[1, 2, 3], dataset_name='D')


def bad_channel_twice(dlis, lf, ch, data):
    lf.add_channel('N', data=data, dataset_name='A')       # (the data set name is taken)


def bad_payload(dlis, lf, ch, data):
    lf.add_no_format_frame_data(ch, b'payload')


def bad_payload_type(dlis, lf, ch, data):
    lf.add_no_format_frame_data(None, 5)


def bad_file(dlis, lf, ch, data):
    dlis.add_logical_file(fh_id='X' * 100)


def bad_file_number(dlis, lf, ch, data):
    dlis.add_logical_file(fh_id='X', fh_sequence_number='x')


def bad_frame_channels(dlis, lf, ch, data):
    lf.add_frame('N', channels=[ch, 'B'])


def bad_frame_list(dlis, lf, ch, data):
    lf.add_frame('N', channels=ch)


def bad_frame_index(dlis, lf, ch, data):
    lf.add_frame('N', channels=[ch], spacing={'part': 1})


def bad_second_part(dlis, lf, ch, data):
    lf.add_zone('N', maximum={'value': 5., 'units': 5})


def bad_zone(dlis, lf, ch, data):
    lf.add_zone('N', domain='no such domain')


def bad_equipment(dlis, lf, ch, data):
    lf.add_equipment('N', status=7)


def bad_process(dlis, lf, ch, data):
    lf.add_process('N', status='no such status', set_name='NEW')


def bad_reference(dlis, lf, ch, data):
    lf.add_tool('N', channels=[ch, lf])


def bad_origin(dlis, lf, ch, data):
    lf.add_origin('N', file_set_number=1, creation_time='no time')


def bad_origin_number(dlis, lf, ch, data):
    lf.add_origin('N', file_set_number=1, creation_time=DT, origin_reference=-1.5)


def bad_parameter(dlis, lf, ch, data):
    lf.add_parameter('N', values=[[1, 2], [3]], zones=5)


def assign_units(dlis, lf, ch, data):
    ch.units.value = 5


def assign_value(dlis, lf, ch, data):
    lf.frames[0].index_type.value = Odd()


def assign_number(dlis, lf, ch, data):
    lf.frames[0].index_min.value = 'no number'


def assign_limit(dlis, lf, ch, data):
    ch.element_limit.value = [3, 'x']


def assign_reference(dlis, lf, ch, data):
    lf.frames[0].channels.value = [ch, 3]


def assign_origin(dlis, lf, ch, data):
    ch.origin_reference = 'x'


def write_window(dlis, lf, ch, data):
    written(dlis, {'data': source_of(data), 'from_idx': 2, 'to_idx': 1})


def write_nothing(dlis, lf, ch, data):
    written(dlis, {'data': {}})


def write_type(dlis, lf, ch, data):
    written(dlis, {'data': {'A': np.zeros(4, dtype='i8'), 'B': np.zeros(4)}})


def write_rows(dlis, lf, ch, data):
    written(dlis, {'data': {'A': TABLE_4_3, 'B': np.zeros(3)}})


def write_dimensions(dlis, lf, ch, data):
    written(dlis, {'data': {'A': TABLE_4_3_3, 'B': np.zeros(4)}})


def write_incomplete(dlis, lf, ch, data):
    dlis.add_logical_file(fh_id='EMPTY')
    try:
        written(dlis, {'data': source_of(data)})
    except Exception:
        dlis.logical_files.pop()
        raise


def write_compat(dlis, lf, ch, data):
    from dliswriter import high_compatibility_mode
    with high_compatibility_mode():
        written(dlis, {'data': {'A': TABLE_4_3, 'B': np.array([1., 5., 3., 4.])}})


CALLS = {f.__name__: f for f in (bad_channel, bad_channel_cast, bad_channel_data, bad_channel_twice, bad_payload, bad_payload_type, bad_file, bad_file_number,
                                 bad_frame_channels, bad_frame_list, bad_frame_index, bad_second_part, bad_zone, bad_equipment, bad_process, bad_reference,
                                 bad_origin, bad_origin_number, bad_parameter, assign_units, assign_value, assign_number, assign_limit, assign_reference,
                                 assign_origin, write_window, write_nothing, write_type, write_rows, write_dimensions, write_incomplete, write_compat)}


def source_of(data):
    return data


def history(call, when, index_type, source, data, rejected):
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file()
    if when == 'first':
        if rejected:
            attempt(CALLS[call], dlis, lf, None, data)
    lf.add_origin('ORIGIN', file_set_number=9, creation_time=DT)
    ch = lf.add_channel('A')
    b = lf.add_channel('B')
    f = lf.add_frame('F', channels=[b, ch], index_type=index_type)
    if when == 'middle':
        if rejected:
            attempt(CALLS[call], dlis, lf, ch, source if 'write' in call else data)
    lf.add_channel('N')
    lf.add_frame('G', channels=[lf.channels[-1]])
    lf.add_zone('N')
    n = lf.add_no_format('N')
    lf.add_no_format_frame_data(n, b'payload')
    if when == 'end':
        if rejected:
            attempt(CALLS[call], dlis, lf, ch, source if 'write' in call else data)
    return written(dlis, {'data': source})


def history_with(*a):
    del ACCEPTED[:]
    r = history(*a, rejected=True)
    return None if ACCEPTED else r


def history_without(*a):
    return None if ACCEPTED else history(*a, rejected=False)


def history_mk(names):
    def mk(src):
        call = src.pick('rejected call', names)
        when = src.pick('when', ['middle', 'end'] + (['first'] if call.startswith('bad_zone') or call.startswith('bad_file') or call == 'bad_channel' else []))
        index_type = src.pick('index type', [None, 'BOREHOLE-DEPTH']) if 'write' in call else None
        n = src.int('rows', 1, 2 ** 30 - 1)
        if src.pick('source', ['structured', 'dict']) == 'structured' and index_type is None:
            source = structured(src, 'source', [('A', '<i2', (3,)), ('B', '<f8', ()), ('N', '<f4', ())], n)
        else:
            source = {'N': array(src, 'N', '<f4', (n,)), 'A': array(src, 'A', '<i2', (n, 3)), 'B': array(src, 'B', '<f8', (n,))}
        return call, when, index_type, source, array(src, 'rejected', '<f8', (n,))
    return mk


_names = [n for n in CALLS if not n.startswith('write')]
for _k in range(0, len(_names), 5):
    scenario(f"rejected call: {', '.join(_names[_k:_k + 5])}", 'C20', history_with, history_without, history_mk(_names[_k:_k + 5]), budget=100, covers=RETURNS)
for _k in CALLS:
    if _k.startswith('write'):
        scenario(f"rejected call: {_k}", 'C20 C14', history_with, history_without, history_mk([_k]), budget=150, covers=RETURNS)
