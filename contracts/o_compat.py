"""High-compatibility mode (C17): each restriction, in every way of being inside the context; restored on the way out; outside,
the same inputs are accepted with a warning.

The wanted result is stated over the inputs alone: is it a breach?  The restricted sets are those of the standard (below), not
those of the code."""
import logging
import re

import numpy as np

from harness.model import METHOD, TABLE
from pyvc import charset
from pyvc.sym import *
from .core import *
from .core import fresh_process
from .o_eflr import DT
from .scen import array, hdf5_file, scenario, structured, written

UNITS = ('A K cd dAPI dB gAPI kg m mol nAPI rad s sr Btu C D GPa Gal Hz J L MHz MPa MeV Mg Mpsi N Oe P Pa S T V W Wb a acre atm b bar bbl c cP cal cm cu d '
         'daN deg degC degF dm eV fC ft g gal h in kHz kPa kV keV kgf km lbf lbm mA mC mD mGal mL mS mT mV mW mg min mm mohm ms nC nW ns ohm pC pPa ppdk ppk '
         'ppm psi pu t ton uA uC uPa uV um uohm upsi us').split()
INDEX_TYPES = 'ANGULAR-DRIFT BOREHOLE-DEPTH NON-STANDARD RADIAL-DRIFT VERTICAL-DEPTH'.split()
EQUIPMENT_TYPES = ('Adapter Board Bottom-Nose Bridle Cable Calibrator Cartridge Centralizer Chamber Cushion Depth-Device Display Drawer Excentralizer '
                   'Explosive-Source Flask Geophone Gun Head Housing Jig Joint Nuclear-Detector Packer Pad Panel Positioning Printer Radioactive-Source Shield '
                   'Simulator Skid Sonde Spacer Standoff System Tool Tool-Module Transducer Vibration-Source').split()
EQUIPMENT_LOCATIONS = 'Logging-System Remote Rig Well'.split()
RETURNS = ('precondition', 'returned')


# ------------------------------------------------------------------------------------------------- ways into and out of the mode
class Stop(Exception):
    pass


def leave_by_exception(f=None):
    if f is not None:
        f()
    raise Stop()


def enter(form, f):
    mode = real(':high_compatibility_mode')
    if form == 'with':
        with mode():
            return f()
    if form == 'nested':
        with mode():
            with mode():
                return f()
    if form == 'after an inner context':
        with mode():
            with mode():
                pass
            return f()
    if form == 'after an inner exception':
        with mode():
            try:
                with mode():
                    raise Stop()
            except Stop:
                pass
            return f()
    if form == 'after an inner decorated function':
        with mode():
            try:
                real(':high_compatibility_mode_decorator')(leave_by_exception)()
            except Stop:
                pass
            return f()
    if form == 'decorated':
        out = []

        def body():
            out.append(f())
        real(':high_compatibility_mode_decorator')(body)()
        return out[0]
    if form == 'entered again':
        m = mode()
        with m:
            pass
        with mode():
            return f()
    # not inside
    if form == 'after leaving':
        with mode():
            with mode():
                pass
    elif form == 'after an exception':
        try:
            with mode():
                leave_by_exception()
        except Stop:
            pass
    elif form == 'after a decorated function':
        real(':high_compatibility_mode_decorator')(int)()
    elif form == 'after a failed decorated function':
        try:
            real(':high_compatibility_mode_decorator')(leave_by_exception)()
        except Stop:
            pass
    elif form == 'after nested exceptions':
        try:
            with mode():
                with mode():
                    real(':high_compatibility_mode_decorator')(leave_by_exception)()
        except Stop:
            pass
    return f()


INSIDE = ['with', 'nested', 'after an inner context', 'after an inner exception', 'after an inner decorated function', 'decorated', 'entered again']
OUTSIDE = ['never', 'after leaving', 'after an exception', 'after a decorated function', 'after a failed decorated function', 'after nested exceptions']


def logged(f):
    """-> (result of f, was a warning logged?); modelled for the verifier."""
    from harness.families4 import LogCapture
    with LogCapture() as c:
        r = f()
    return r, bool(c.rec)


def logged_model(it, f):
    n = it.warnings
    r = it.call(f, [])
    return r, it.warnings > n


def strict(f):
    """Are the restrictions on? (probed)"""
    try:
        real('file.file:DLISFile')().add_logical_file().add_zone('not compatible')
    except Exception:
        return True
    return False


def session(aspect, form, breach, args):
    """-> (was it accepted? with a warning, or no warning needed; is the mode off afterwards?)"""
    fresh_process()
    try:
        ok, warned = logged(lambda: enter(form, lambda: aspect(*args)))
        verdict = 'accepted' if warned or not breach else 'accepted without a warning'
    except Exception:
        verdict = 'rejected'
    return verdict, 'restrictions on' if strict(None) else 'restrictions off'


def session_want(aspect, form, breach, args):
    if breach and form in INSIDE:
        return 'rejected', 'restrictions off'
    return 'accepted', 'restrictions off'


# ------------------------------------------------------------------------------------------------- breaches
def compatible(s):
    return re.fullmatch('[A-Z0-9_-]+', s) is not None


def all_compatible(*texts):
    for s in texts:
        if not compatible(s):
            return False
    return True


def in_table(src, s, table):
    if src.symbolic:
        return SBool(charset.one_of(src.it, rope(s), table)) if isinstance(s, Rope) else s in table
    return s in table


# ------------------------------------------------------------------------------------------------- aspects
def new_file(set_identifier='SET-1', fh_id='HEADER-1', origin='ORIGIN'):
    dlis = real('file.file:DLISFile')(set_identifier=set_identifier)
    lf = dlis.add_logical_file(fh_id=fh_id)
    lf.add_origin(origin, file_set_number=1, creation_time=DT)
    return dlis, lf


def finish(dlis, lf, data, frame='FRAME'):
    lf.add_frame(frame, channels=[lf.add_channel('INDEX')])
    return len(written(dlis, {'data': data}, ['FRAME'])) > 0


def object_name(method, name, later, data):
    dlis, lf = new_file()
    given = 'GOOD' if later else name
    c = lf.add_channel('INDEX')
    if method == 'add_frame':
        x = lf.add_frame(given, channels=[c])
    elif method == 'add_channel':
        x = lf.add_channel(given, dataset_name='OTHER')
        lf.add_frame('FRAME', channels=[c, x])
    else:
        if method == 'add_origin':
            x = lf.add_origin(given, file_set_number=2, creation_time=DT)
        else:
            x = getattr(lf, method)(given)
        lf.add_frame('FRAME', channels=[c])
    if later:
        x.name = name
    if method == 'add_channel':
        return not_modelled(dlis, data)
    return len(written(dlis, {'data': data}, ['FRAME'])) > 0


def not_modelled(dlis, data):
    """A write which the verifier leaves out (dictionaries with unknown names of channels as keys)."""
    return len(written(dlis, {'data': data}, ['FRAME'])) > 0


def identifiers(set_identifier, fh_id, data):
    dlis, lf = new_file(set_identifier, fh_id)
    return finish(dlis, lf, data)


def identifiers_later(set_identifier, data):
    dlis, lf = new_file()
    dlis.storage_unit_label.set_identifier = set_identifier
    return finish(dlis, lf, data)


def names_of_defaults(data):
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file()
    lf.add_origin('ORIGIN', creation_time=DT, file_set_number=1)
    return finish(dlis, lf, data)


def name_cases(methods, later):
    def mk(src):
        logged_(src)
        form = src.pick('form', INSIDE + OUTSIDE)
        n = src.int('rows', 1, 2 ** 30 - 1)
        method = src.pick('method', methods)
        name = src.ascii('name', 255)
        if methods == ['add_channel']:
            src.assume(src.call(usable, name))
        data = {'INDEX': array(src, 'INDEX', '<f4', (n,)), 'OTHER': array(src, 'OTHER', '<f8', (n,))}
        ok = src.call(compatible, name)
        return object_name, form, not ok, (method, name, later, data)
    return mk


def usable(name):
    return len(name) > 0 and name != 'INDEX'


def logged_(src):
    if src.symbolic:
        src.it.models[not_modelled] = lambda it, dlis, data: True
        src.it.models[logged] = logged_model
        src.it.exact_enums = True


TEXTS = ['lower', 'A B', 'X.Y', 'UNIT\n', '', 'X\t', 'AÄ', 'A+B', '\nX', 'A\nB', 'TOO' * 20, 'A/B', ' A', 'A ', 'a', 'X\x00', 'É', 'OK-1_', '\x7f']


def compat(name, mk, texts=(), **kw):
    """As scenario(); replays also try the given values of the text inputs."""
    o = scenario(name, kw.pop('props', 'C17'), session, session_want, mk, fork=True, **kw)
    inner = o.replay

    def replay(values):
        r = inner(values)
        for k, options in texts:
            for x in options:
                if r or k not in values:
                    break
                r = inner({**values, k: x})
        return r
    o.replay = replay
    return o


_METHODS = sorted(METHOD[t] for t in TABLE)
for _m in _METHODS:
    compat(f"mode: names, {_m}", name_cases([_m], False), [('name', TEXTS)], budget=100)
for _m in ('add_origin', 'add_zone', 'add_channel', 'add_frame', 'add_no_format'):
    compat(f"mode: names assigned later, {_m}", name_cases([_m], True), [('name', TEXTS)], budget=100)


def identifier_mk(src):
    logged_(src)
    form = src.pick('form', INSIDE + OUTSIDE)
    sid, hid = src.pick('unknown', [(src.ascii('set_identifier', 60), 'HEADER'), ('SET', src.ascii('fh_id', 65))])
    data = {'INDEX': array(src, 'INDEX', '<f4', (src.int('rows', 1, 2 ** 30 - 1),))}
    return identifiers, form, not src.call(all_compatible, sid, hid), (sid, hid, data)


def identifier_later_mk(src):
    logged_(src)
    form = src.pick('form', INSIDE + OUTSIDE)
    sid = src.ascii('set_identifier', 60)
    data = {'INDEX': array(src, 'INDEX', '<f4', (src.int('rows', 1, 2 ** 30 - 1),))}
    return identifiers_later, form, not src.call(compatible, sid), (sid, data)


_T = [x for x in TEXTS if len(x) <= 60]
compat('mode: set identifier assigned later', identifier_later_mk, [('set_identifier', _T)], budget=100)
compat('mode: set identifier and header id', identifier_mk, [('set_identifier', _T), ('fh_id', _T)], budget=150)


# ------------------------------------------------------------------------------------------------- channels and data
DTYPES = ['<i1', '<i2', '>i4', '<u1', '<u2', '>u4', '<f4', '>f8']
SIGNED = ('<i1', '<i2', '>i4', 'int8', 'int16', 'int32')
CASTS = [None, 'int8', 'int16', 'int32', 'uint8', 'uint32', 'float32', 'float64']


def signed_data(n_frames, where, cast, later, source, data):
    """Channels A (never signed), B (of the type in question) in the first / second frame."""
    dlis, lf = new_file()
    kw = {} if cast is None or later else {'cast_dtype': np.dtype(cast)}
    a = lf.add_channel('A', **({'data': data['A']} if source == 'inline' else {}))
    b = lf.add_channel('B', **kw, **({'data': data['B']} if source == 'inline' else {}))
    if later and cast is not None:
        b.cast_dtype = np.dtype(cast)
    if where == 'index channel':
        lf.add_frame('F', channels=[b, a])
    elif where == 'channel':
        lf.add_frame('F', channels=[a, b])
    else:
        lf.add_frame('F', channels=[a])
        lf.add_frame('G', channels=[b])
    return len(written(dlis, {} if source == 'inline' else {'data': data}, ['ROWS'])) > 0


def signed_mk(source):
    def mk(src):
        logged_(src)
        form = src.pick('form', ['with', 'never'] + ([] if source != 'dict' else ['after an inner exception', 'after an exception']))
        dtype, cast = src.pick('types', [(d, c) for d in DTYPES for c in CASTS if c is None or d in ('<i2', '<u2') or (d, c) == ('<f4', 'int32')])
        where, cols = src.pick('where', [('index channel', 0), ('channel', 1), ('second frame', 0)])
        later = src.pick('cast type assigned later', [False, True]) if cast in ('int8', 'uint8') else False
        n = src.int('rows', 1, 2 ** 30 - 1)
        cols = (src.int('columns', 1, 1000),) if cols else ()
        if source == 'structured':
            data = structured(src, 'source', [('B', dtype, cols), ('A', '<f4', ())], n)
        else:
            h5 = source == 'hdf5'
            d = {'A': array(src, 'A', '<f4', (n,), h5), 'B': array(src, 'B', dtype, (n,) + cols, h5)}
            data = hdf5_file(src, d) if h5 else d
        return signed_data, form, (cast or dtype) in SIGNED, (1, where, cast, later, source, data)
    return mk


for _s in ('inline', 'dict', 'structured', 'hdf5'):
    compat(f"mode: signed data, {_s}", signed_mk(_s), budget=200)


def channel_frames(memberships, data):
    """Channel k is in frames memberships[k] (0, 1, 2)."""
    dlis, lf = new_file()
    chans = [lf.add_channel(k) for k in 'ABC']
    for f in range(3):
        inside = [chans[k] for k in range(3) if f in memberships[k]]
        if inside:
            lf.add_frame('FRAME-' + 'XYZ'[f], channels=inside)
    return len(written(dlis, {'data': data}, ['ROWS'])) > 0


SETS = [(), (0,), (1,), (0, 1), (1, 2), (0, 1, 2)]


def channel_mk(src):
    logged_(src)
    form = src.pick('form', ['with', 'decorated', 'never', 'after an exception'])
    m = src.pick('frames of the channels', [((0,), a, b) for a in SETS for b in SETS])
    n = src.int('rows', 1, 2 ** 30 - 1)
    data = {k: array(src, k, '<f4', (n,)) for k in 'ABC'}
    return channel_frames, form, any(len(x) != 1 for x in m), (m, data)


compat('mode: every channel in exactly one frame', channel_mk, budget=200)


# ------------------------------------------------------------------------------------------------- enumerated attributes
def units_of_channel(how, value, data):
    dlis, lf = new_file()
    c = lf.add_channel('INDEX', **({'units': value} if how == 'constructor' else {}))
    if how == 'assigned':
        c.units.value = value
    lf.add_frame('FRAME', channels=[c])
    return len(written(dlis, {'data': data}, ['CHANNEL'])) > 0


def units_of_attribute(how, method, kw, number, value, data):
    dlis, lf = new_file()
    setup = real(':AttrSetup')
    if how == 'dictionary':
        x = getattr(lf, method)('X', **{kw: {'value': number, 'units': value}})
    elif how == 'setup':
        x = getattr(lf, method)('X', **{kw: setup(number, units=value)})
    else:
        x = getattr(lf, method)('X', **{kw: number})
        getattr(x, kw).units = value
    return finish(dlis, lf, data)


def index_type(how, value, data):
    dlis, lf = new_file()
    kw = {}
    if how == 'constructor':
        kw['index_type'] = value
    elif how == 'dictionary':
        kw['index_type'] = {'value': value}
    f = lf.add_frame('FRAME', channels=[lf.add_channel('INDEX')], **kw)
    if how == 'assigned':
        f.index_type.value = value
    return len(written(dlis, {'data': data}, ['FRAME'])) > 0


def equipment(kw, attr, how, value, data):
    dlis, lf = new_file()
    kws = {kw: value} if how == 'constructor' else {kw: {'value': value}} if how == 'dictionary' else {}
    x = lf.add_equipment('X', **kws)
    if how == 'assigned':
        getattr(x, attr).value = value
    return finish(dlis, lf, data)


FORMS = ['with', 'after an inner exception', 'decorated', 'never', 'after an exception']
ATTRIBUTES = [('add_zone', 'maximum', 1.5), ('add_equipment', 'height', 2), ('add_axis', 'spacing', 1.), ('add_parameter', 'values', [1.]),
              ('add_calibration_coefficient', 'coefficients', [1., 2.]), ('add_tool', 'trademark_name', None), ('add_origin', 'descent_number', 3)]
ATTRIBUTES = [x for x in ATTRIBUTES if x[2] is not None and x[0] != 'add_origin']


def enum_mk(which, table):
    def mk(src):
        logged_(src)
        form = src.pick('form', FORMS)
        how = src.pick('how', ['constructor', 'dictionary', 'assigned'] if which != 'channel' and which != 'attribute' else
                       ['constructor', 'assigned'] if which == 'channel' else ['dictionary', 'setup', 'assigned'])
        value = src.ascii('value', 40)
        src.assume(src.call(given, value))
        data = {'INDEX': array(src, 'INDEX', '<f4', (1,))}
        breach = src.call(no, in_table(src, value, table))
        if which == 'channel':
            return units_of_channel, form, breach, (how, value, data)
        if which == 'attribute':
            method, kw, number = src.pick('attribute', ATTRIBUTES)
            return units_of_attribute, form, breach, (how, method, kw, number, value, data)
        if which == 'index type':
            return index_type, form, breach, (how, value, data)
        return equipment, form, breach, (which[0], which[1], how, value, data)
    return mk


def no(x):
    return not x


def given(x):
    return len(x) > 0


def others(table):
    return ['no such', 'M', 'Ft', 'BOREHOLE-DEPTh', 'm ', 'Pane', 'tool', 'rig', 'metre'] + [x.swapcase() for x in table] + table


for _n, _w, _t in (('units of a channel', 'channel', UNITS), ('units of an attribute', 'attribute', UNITS), ('index type', 'index type', INDEX_TYPES),
                   ('equipment type', ('eq_type', '_type'), EQUIPMENT_TYPES), ('equipment location', ('location', 'location'), EQUIPMENT_LOCATIONS)):
    compat(f"mode: {_n}", enum_mk(_w, _t), [('value', others(_t))], budget=200)


# ------------------------------------------------------------------------------------------------- spacing of the index
def spacing_of(data, window, cast):
    from .o_index import uniform_step
    x = data if window is None else data[window[0]:window[1]]
    if cast is not None:
        x = x.astype(np.dtype(cast))
    if len(x) < 2:
        return False
    y = x.astype(np.int64) if x.dtype.name in ('uint8', 'uint16', 'uint32') else x
    return uniform_step(y[1:] - y[:-1]) is None


def uneven(index_type, user, cast, window, second, data):
    dlis, lf = new_file()
    if second:
        lf.add_frame('EVEN', channels=[lf.add_channel('B')])
    x = lf.add_channel('A', cast_dtype=np.dtype(cast) if cast else None)
    lf.add_frame('F', channels=[x], index_type=index_type, **user)
    kw = {'data': {'A': data[0], 'B': data[1]} if second else {'A': data[0]}}
    if window is not None:
        kw['from_idx'] = window[0]
        kw['to_idx'] = window[1]
    return len(written(dlis, kw, ['FRAME'])) > 0


def window_of(window, n):
    return 0 <= window[0] and window[0] < window[1] and window[1] <= n


def spacing_scenario(d, cast=None):
    from .o_index import N_BATTERY, index_array

    def mk(src):
        logged_(src)
        form = src.pick('form', ['with', 'never', 'after an exception'])
        itype = src.pick('index type', ['BOREHOLE-DEPTH', None])
        n = src.int('rows', 1, 2 ** 30 - 1)
        user = src.pick('given', [{}, {'spacing': .5}, {'direction': 'INCREASING', 'index_min': 0.}])
        second = src.pick('second frame', [False, True]) if not user and cast is None else False
        window = [src.int('from_idx'), src.int('to_idx')] if not user and not second and src.pick('window', [False, True]) else None
        if window is not None:
            src.assume(src.call(window_of, window, n))
        a = index_array(src, d, n)
        breach = src.call(spacing_of, a, window, cast) if itype is not None else False
        return uneven, form, breach, (itype, user, cast, window, second, (a, array(src, 'B', '<f4', (n,))))
    o = compat(f"mode: spacing of the index, {d}" + (f" written as {cast}" if cast else ''), mk, budget=220)
    inner = o.replay

    def replay(values):
        values = dict(values)
        if isinstance(values.get('rows'), int) and values['rows'] > 300:
            values['rows'] = 300
        for k in range(N_BATTERY):
            r = inner({**values, 'index values': k})
            if r:
                return r + f" (index values: case {k} of contracts.o_index.battery)"
        return None
    o.replay = replay
    return o


for _d, _c in (('uint8', None), ('uint32', None), ('float32', None), ('float64', None), ('float64', 'uint16'), ('float64', 'float32')):
    spacing_scenario(_d, _c)


# ------------------------------------------------------------------------------------------------- file set numbers
def numbers(n_origins, second, given):
    """Origins without a file set number (the k-th has one if given == k) -> what the file says."""
    dlis = real('file.file:DLISFile')(set_identifier='SET')
    lf = dlis.add_logical_file(fh_id='HEADER')
    for k in range(n_origins):
        lf.add_origin('ORIGIN-' + 'ABC'[k], creation_time=DT, **({'file_set_number': k + 1} if given == k else {}))
    data = {'A': np.arange(3.)}
    lf.add_frame('F', channels=[lf.add_channel('A')])
    if second:
        g = dlis.add_logical_file(fh_id='OTHER')
        for k in range(n_origins):
            g.add_origin('ORIGIN-' + 'ABC'[k], creation_time=DT, set_name='S')
        g.add_frame('F', channels=[g.add_channel('B', dataset_name='A', set_name='S')], set_name='S')
    return [x for _, _, x in written(dlis, {'data': data}, ['ORIGIN'])]


def numbers_in(form, n_origins, second, given):
    fresh_process()
    return enter(form, lambda: numbers(n_origins, second, given))


def numbers_want(form, n_origins, second, given):
    from .o_attr import component
    from .o_eflr import DT_BYTES
    from .o_file import an_object, set_component, template
    out = []
    for lf in range(2 if second else 1):
        b = set_component('ORIGIN', 'S' if lf else None) + template('ORIGIN')
        for k in range(n_origins):
            b = b + an_object('ORIGIN', ORIGINS[k], 0, 'ORIGIN-' + 'ABC'[k], {
                'FILE-ID': component('ASCII', 1, None, S.ascii_text('OTHER' if lf else 'HEADER')), 'FILE-SET-NUMBER': component('UVARI', 1, None, S.uvari(k + 1)),
                'CREATION-TIME': component('DTIME', 1, None, DT_BYTES), 'FIELD-NAME': component('ASCII', 1, None, S.ascii_text('WILDCAT'))})
        out.append(b)
    return out


from . import spec as S                     # noqa
ORIGINS = [0, 1, 2]


def numbers_mk(src):
    n = src.pick('origins', [1, 2, 3])
    return src.pick('form', INSIDE), n, src.pick('two logical files', [False, True]), src.pick('number given', [None, n - 1, 0])


scenario('mode: file set numbers', 'C17', numbers_in, numbers_want, numbers_mk, budget=200, fork=True)
