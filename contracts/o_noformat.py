"""No-format payloads (C16): for payloads of any bytes and any length, and for any text; several objects and logical files; order of
the calls."""
import numpy as np

from pyvc.sym import *
from . import spec as S
from .core import *
from .o_eflr import DT
from .scen import array, scenario, written

KINDS = ['bytes', 'bytearray', 'text']


def a_file(dlis, k, names, data):
    lf = dlis.add_logical_file(fh_id='HEADER-' + str(k), fh_sequence_number=k + 1)
    lf.add_origin('ORIGIN', file_set_number=9, creation_time=DT, set_name='S' + str(k), origin_reference=k + 3)
    objects = [lf.add_no_format(n, set_name='S' + str(k)) for n in names]
    lf.add_frame('F', channels=[lf.add_channel('A', set_name='S' + str(k))], set_name='S' + str(k))
    return lf, objects


def payload_calls(names, plan, payloads, data, times):
    """plan: [(logical file, object)], in the order of the calls."""
    dlis = real('file.file:DLISFile')()
    files = [a_file(dlis, k, names[k], data) for k in range(len(names))]
    for k in range(len(plan)):
        lf, objects = files[plan[k][0]]
        lf.add_no_format_frame_data(objects[plan[k][1]], payloads[k])
    for _ in range(times - 1):
        written(dlis, {'data': data}, ['NOFMT'])
    return written(dlis, {'data': data}, ['NOFMT', 'FILE-HEADER'])


def payload_want(names, plan, payloads, data, times):
    from .o_eflr import header_spec
    out = []
    for f in range(len(names)):
        out.append(('FILE-HEADER', None, None))
        for k in range(len(plan)):
            if plan[k][0] == f:
                n = names[f]
                copy = 0
                for i in range(plan[k][1]):
                    if n[i] == n[plan[k][1]]:
                        copy = copy + 1
                out.append(('NOFMT', None, S.obname(f + 3, copy, n[plan[k][1]]) + S.payload(payloads[k])))
    return out


def payload_calls_2(names, plan, payloads, data, times):
    return [x if x[0] == 'NOFMT' else ('FILE-HEADER', None, None) for x in payload_calls(names, plan, payloads, data, times)]


PLANS = {'none': [], 'one': [(0, 0)], 'one object twice': [(0, 0), (0, 0)], 'objects interleaved': [(0, 1), (0, 0), (0, 1)],
         'logical files interleaved': [(1, 0), (0, 0), (1, 1), (0, 1)]}


def payload_mk(src):
    plan = src.pick('plan', list(PLANS))
    steps = PLANS[plan]
    payloads = []
    for k in range(len(steps)):
        kind = src.pick(f"kind{k}", KINDS) if k < 2 else KINDS[k % 3]
        x = src.str(f"payload{k}") if kind == 'text' else src.bytes(f"payload{k}")
        payloads.append(src.call(bytearray, x) if kind == 'bytearray' else x)
    same = src.pick('names', ['different', 'equal'])
    n = [['N', 'M' if same == 'different' else 'N'] for _ in range(2 if plan == 'logical files interleaved' else 1)]
    rows = src.int('rows', 1, 2 ** 30 - 1)
    return n, steps, payloads, {'A': array(src, 'A', '<f4', (rows,))}, src.pick('writes', [1, 2]) if len(steps) < 3 else 1


scenario('no-format payloads', 'C16 C07 C09', payload_calls_2, payload_want, payload_mk, budget=150)


# ------------------------------------------------------------------------------------------------- what is not a payload
def wrong_calls(what):
    dlis = real('file.file:DLISFile')()
    lf, objects = a_file(dlis, 0, ['N'], None)
    obj, p = objects[0], b'x'
    if what == 'object':
        obj = lf.add_zone('Z')
    elif what == 'no object':
        obj = None
    elif what == 'name':
        obj = 'N'
    elif what == 'set':
        obj = objects[0].parent
    else:
        p = {'None': None, 'int': 5, 'list': [1, 2], 'float': 1.5, 'tuple': (b'x',)}[what]
    lf.add_no_format_frame_data(obj, p)
    return written(dlis, {'data': {'A': np.arange(3.)}}, ['NOFMT'])


def wrong_want(what):
    raise S.Reject('not a no-format object and its bytes or text')


scenario('no-format payloads of wrong types', 'C16 C12', wrong_calls, wrong_want, lambda src: (src.pick('what', ['object', 'no object', 'name', 'set', 'None', 'int', 'list', 'float', 'tuple']),),
         budget=60, covers=('precondition', 'rejected'))
