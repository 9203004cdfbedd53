"""Index metadata of frames: extremes, spacing and direction are those of the rows written (C13)."""
import numpy as np

from pyvc.sym import *
from . import spec as S
from .core import *
from .o_attr import component
from .o_eflr import DT, DT_BYTES, set_component, template
from .o_file import an_object, column
from .scen import array, scenario, written

INTS = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32']
FLOATS = ['float32', 'float64']


# index channels for the replay against the real code (the verifier's counterexample names no elements)
def battery(d, n):
    d = np.dtype(d)
    big = np.iinfo(d).max if d.kind in 'iu' else 3e4
    low = np.iinfo(d).min if d.kind in 'iu' else -3e4
    up = np.arange(n)
    out = [up, up[::-1], up * 0 + 7, up ** 2 % 100, np.cumsum(up % 3), np.cumsum(up % 3)[::-1], np.where(up % 2, big, low), np.where(up % 3, low, big),
           np.where(up < n // 2, low, big), np.where(up < n // 2, big, low), up * 0 + big, up % 3, np.minimum(up, 1), up * 2, np.where(up == 0, 3, up), (up > 1) * 1]
    if d.kind == 'f':
        out += [up * .1, up * .1 + (up % 2) * 1e-4, up * .1 + (up % 3 == 1) * 4e-3, up * -.1524 + 100., up + (up % 2) * .02, up + (up % 2) * .0155, up + (up % 3) * .016,
                up * 1e-9, np.where(up % 2, 1e300 if d.itemsize == 8 else 1e30, up)]
    with np.errstate(all='ignore'):
        return [np.clip(x, low, big).astype(d) if d.kind != 'f' else x.astype(d) for x in out]


N_BATTERY = 25


def index_array(src, d, n, shape=None):
    """An index channel with any values."""
    if src.symbolic:
        return array(src, 'A', d, (n,))
    k = src.values.get('index values', 0)
    if not isinstance(n, int) or n > 3000:
        raise ConcSrc.Reject('rows')
    b = battery(d, n)
    return b[k % len(b)]


def index_calls(index_type, user, units, cast, window, data):
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file()
    lf.add_origin('O', file_set_number=9, creation_time=DT)
    x = lf.add_channel('A', units=units, cast_dtype=np.dtype(cast) if cast else None)
    lf.add_frame('F', channels=[x], index_type=index_type, **user)
    kw = {'data': {'A': data}}
    if window is not None:
        kw['from_idx'] = window[0]
        kw['to_idx'] = window[1]
    return written(dlis, kw, ['FRAME', 'ROWS'])


def sense(step):
    """The monotonic sense of the rows, if there is one."""
    if (step >= 0).all() and (step > 0).any():
        return 'INCREASING'
    if (step <= 0).all() and (step < 0).any():
        return 'DECREASING'
    return None


def uniform_step(step):
    """The signed difference between consecutive rows, if uniform (all equal, or within the documented tolerance of the median)."""
    if not np.isfinite(step).all():
        return None
    if (step == step[0]).all():
        return step[0]
    m = np.median(step)
    if m != 0 and ((1 - step / m) ** 2 < .001).all():
        return m
    return None


def statistics(x, index_type):
    """{'INDEX-MIN', 'INDEX-MAX', 'SPACING', 'DIRECTION': value or absent} of the rows written."""
    n = len(x)
    if index_type is None:
        return {'SPACING': 1, 'INDEX-MIN': 1, 'INDEX-MAX': n}
    out = {'INDEX-MIN': x.min(), 'INDEX-MAX': x.max()}
    if n > 1:
        y = x.astype(np.int64) if x.dtype.name in INTS else x
        step = y[1:] - y[:-1]
        s = uniform_step(step)
        if s is not None:
            out['SPACING'] = s
        else:
            d = sense(step)
            if d is not None:
                out['DIRECTION'] = d
    return out


def number(v, units):
    return component('FDOUBL', 1, units, S.floating('FDOUBL', float(v)))


def index_want(index_type, user, units, cast, window, data):
    x = data if window is None else data[window[0]:window[1]]
    if window is not None and (window[0] < 0 or window[1] > len(data) or window[0] >= window[1]):
        raise S.Reject('no such window of rows')
    if cast is not None:
        x = x.astype(np.dtype(cast))
    values = statistics(x, index_type)
    for k, v in user.items():
        values[k.upper().replace('_', '-')] = v
    columns = {'CHANNELS': column('OBNAME', S.obname(0, 0, 'A'))}
    if index_type is not None:
        columns['INDEX-TYPE'] = column('IDENT', S.ident(index_type))
    for k in ('INDEX-MIN', 'INDEX-MAX', 'SPACING'):
        if k in values:
            columns[k] = number(values[k], units if index_type is not None else None)
    if 'DIRECTION' in values:
        columns['DIRECTION'] = column('IDENT', S.ident(values['DIRECTION']))
    return [('FRAME', None, set_component('FRAME', None) + template('FRAME') + an_object('FRAME', 0, 0, 'F', columns)), ('ROWS', 'F', len(x))]


GIVEN = [('spacing',), ('index_min',), ('index_max',), ('direction',), ('index_min', 'index_max'), ('spacing', 'direction'), ('spacing', 'index_min', 'index_max', 'direction')]


def index_scenario(name, dtypes, users=False, budget=200):
    def mk(src):
        d, cast = src.pick('dtype', dtypes)
        itype = src.pick('index type', ['BOREHOLE-DEPTH', None])
        units = src.pick('units', [None, 'm']) if not users else 'm'
        n = src.int('rows', 1, 2 ** 30 - 1)
        window = [src.int('from_idx'), src.int('to_idx')] if not users and src.pick('window', [False, True]) else None
        user = {}
        if users:
            for k in src.pick('given', GIVEN):
                user[k] = src.pick('direction', ['INCREASING', 'DECREASING']) if k == 'direction' else src.int(k, -2 ** 53, 2 ** 53) if k == 'index_min' else src.real(k)
        return itype, user, units, cast, window, index_array(src, d, n)
    o = scenario(name, 'C13', index_calls, index_want, mk, budget=budget)
    inner = o.replay

    def replay(values):
        values = dict(values)
        if isinstance(values.get('rows'), int) and values['rows'] > 300:
            values['rows'] = 300
        agree = None
        for k in range(N_BATTERY):
            agree = inner({**values, 'index values': k})
            if agree:
                return agree + f" (index values: case {k} of contracts.o_index.battery)"
        return agree

    def crosscheck(seed):
        import random
        src = ConcSrc(rng=random.Random(seed))
        src.values['rows'] = random.Random(seed).choice([1, 2, 3, 4, 17])
        try:
            mk(src)
        except ConcSrc.Reject:
            return None
        if src.values.get('window') == 1:
            src.values['from_idx'], src.values['to_idx'] = 0, src.values['rows']
        return replay(src.values)
    o.replay, o.crosscheck = replay, crosscheck
    return o


for _d in ('int8', 'uint8', 'int16', 'uint32', 'float32', 'float64'):
    index_scenario(f"index of a frame: {_d}", [(_d, None)])
for _d, _c in (('float64', 'float32'), ('float64', 'int32'), ('int16', 'float32'), ('int32', 'uint16'), ('uint16', 'int16')):
    index_scenario(f"index of a frame: {_d} written as {_c}", [(_d, _c)])
for _d in ('float64', 'uint16'):
    index_scenario(f"index of a frame: {_d}, values given by the user", [(_d, None)], users=True)
