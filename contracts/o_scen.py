"""Properties stated about whole files: which specifications are written how, and which are rejected (C07 C08 C09 C12 C18)."""
import numpy as np

from pyvc.sym import *
from . import spec as S
from .core import *
from .o_eflr import DT, DT_BYTES, header_spec, labels, set_component, template
from .o_file import CODE, an_object, column
from .scen import array, hdf5_file, scenario, structured, written

SUPPORTED = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64']
OTHERS = ['int64', 'uint64', 'float16', 'longdouble', 'complex64', 'complex128', 'bool', 'S3', 'U3', 'object', 'datetime64[s]', 'timedelta64[s]']


def logical_file(origin=True):
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file()
    if origin:
        lf.add_origin('O', file_set_number=9, creation_time=DT)
    return dlis, lf


def sets(records, *types):
    return [r for r in records if r[0] in types]


# ------------------------------------------------------------------------------------------------- number of rows (C12 C03)
def rows_calls(kind, a, b, inline, source, lo, hi):
    dlis, lf = logical_file()
    x = lf.add_channel('A', data=inline.get('A'))
    y = lf.add_channel('B', data=inline.get('B'))
    lf.add_frame('F', channels=[x, y])
    kw = {'data': source}
    if lo is not None:
        kw['from_idx'] = lo
    if hi is not None:
        kw['to_idx'] = hi
    return written(dlis, kw, ['ROWS'])


def rows_want(kind, a, b, inline, source, lo, hi):
    if a != b:
        raise S.Reject('channels of a frame with different numbers of rows')
    start = 0 if lo is None else lo
    end = a if hi is None else hi
    if start < 0 or end > a or start >= end:
        raise S.Reject('no such window of rows')
    return [('ROWS', 'F', end - start)]


def rows_mk(src):
    kind = src.pick('kind', ['dict', 'inline', 'mixed', 'hdf5', 'numpy'])
    a = src.int('rows_a', 1, 2 ** 30 - 1)
    b = a if kind == 'numpy' else src.int('rows_b', 1, 2 ** 30 - 1)
    lo = src.int('from_idx') if src.pick('from', [False, True]) else None
    hi = src.int('to_idx') if src.pick('to', [False, True]) else None
    if lo is not None or hi is not None:
        src.assume(src.call(equal, a, b))
    if kind == 'numpy':
        return kind, a, b, {}, structured(src, 'source', [('A', '<f8', ()), ('B', '<i2', (3,))], a), lo, hi
    x, y = array(src, 'A', '<f8', (a,), kind == 'hdf5'), array(src, 'B', '<i2', (b, 3), kind == 'hdf5')
    if kind == 'hdf5':
        return kind, a, b, {}, hdf5_file(src, {'A': x, 'B': y}), lo, hi
    if kind == 'dict':
        return kind, a, b, {}, {'B': y, 'A': x}, lo, hi
    if kind == 'inline':
        return kind, a, b, {'A': x, 'B': y}, None, lo, hi
    return kind, a, b, {'B': y}, {'A': x}, lo, hi


def equal(a, b):
    return a == b


scenario('file: numbers of rows and windows', 'C12 C03 C11 C18', rows_calls, rows_want, rows_mk, budget=120)


# ------------------------------------------------------------------------------------------------- data given twice (C11 C03)
def data_given(inline, passed, names, twice=True):
    """The channels of two frames; data given to write() take the place of those given with the channels."""
    dlis, lf = logical_file()
    data = {}
    if not twice:
        data = dict(inline)
        data.update(passed or {})
        inline, passed = {}, data
    ch = [lf.add_channel(k, dataset_name=names.get(k), data=inline.get(k)) for k in ('A', 'B', 'C')]
    lf.add_frame('F', channels=ch[:2])
    lf.add_frame('G', channels=ch[2:])
    if passed is not None:
        passed = {names.get(k, k): v for k, v in passed.items()}
    return written(dlis, {'data': passed}, ['ROWS', 'FIRST ROW'])


def data_given_once(inline, passed, names):
    return data_given(inline, passed, names, False)


def given_mk(src):
    n, m = src.int('rows', 1, 2 ** 30 - 1), src.int('other_rows', 1, 2 ** 30 - 1)
    first = src.pick('with the channels', ['ABC', 'BC', 'AC'])
    then = src.pick('with write', ['ABC', 'AB', 'A', 'B', 'C', ''])
    inline = {k: array(src, k, '<f8', (n,)) for k in first}
    passed = {k: array(src, 'other_' + k, '<f8', (n if then in ('A', 'B') else m,)) for k in then}
    return inline, passed if then or src.pick('empty', [True, False]) else None, {'A': 'the first'} if src.pick('named', [False, True]) else {}


scenario('file: data given with the channels and to write', 'C11 C03', data_given, data_given_once, given_mk, budget=120)


# ------------------------------------------------------------------------------------------------- types and shapes of data (C08 C12)
def type_calls(dtype, cast, shape, data):
    dlis, lf = logical_file()
    x = lf.add_channel('A', cast_dtype=np.dtype(cast) if cast else None)
    lf.add_frame('F', channels=[x])
    return written(dlis, {'data': {'A': data}}, ['CHANNEL', 'ROWS'])


def type_want(dtype, cast, shape, data):
    d = cast or dtype
    if d not in CODE:
        raise S.Reject('unsupported dtype')
    if len(shape) == 0 or len(shape) > 2:
        raise S.Reject('no rows, or more than two dimensions')
    dim = column('UVARI', S.uvari(shape[1] if len(shape) == 2 else 1))
    b = an_object('CHANNEL', 0, 0, 'A', {'LONG-NAME': column('ASCII', S.ascii_text('A')), 'REPRESENTATION-CODE': column('USHORT', S.ushort(CODE[d])),
                                         'DIMENSION': dim, 'ELEMENT-LIMIT': dim})
    return [('CHANNEL', None, set_component('CHANNEL', None) + template('CHANNEL') + b), ('ROWS', 'F', shape[0])]


def type_mk(src):
    dtype = src.pick('dtype', SUPPORTED + OTHERS)
    order = src.pick('order', ['<', '>'])
    cast = src.pick('cast', [None] + SUPPORTED + ['int64', 'bool']) if dtype in ('int16', 'float64', 'int64') else None
    nd = src.pick('dimensions', [1, 2, 3, 4, 0]) if dtype in ('float32', 'uint8') else 1
    shape = (src.int('rows', 1, 2 ** 30 - 1), src.int('columns', 1, 2 ** 20), 2, 1)[:nd]
    d = np.dtype(dtype)
    return dtype, cast, shape, array(src, 'A', d.newbyteorder(order) if d.kind != 'O' else d, shape)


scenario('file: types and dimensions of data', 'C08 C12', type_calls, type_want, type_mk, budget=120)


# ------------------------------------------------------------------------------------------------- what has to be there (C12 C09)
def missing_calls(what, kind, data):
    dlis = real('file.file:DLISFile')()
    if what != 'a logical file':
        lf = dlis.add_logical_file()
        if what != 'an origin':
            lf.add_origin('O', file_set_number=9, creation_time=DT)
        if what != 'a channel':
            x = lf.add_channel('A')
            y = lf.add_channel('B', dataset_name='Q' if what == 'a data set of another name' else None)
            if what != 'a frame':
                lf.add_frame('F', channels=[x, y] if what != 'a channel in the frame' else [])
        else:
            lf.add_frame('F', channels=[])
        if what == 'anything in the second logical file':
            dlis.add_logical_file(fh_id='second')
    return written(dlis, {'data': data}, ['ROWS'])


def missing_want(what, kind, data):
    if what != 'nothing':
        raise S.Reject('missing: ' + what)
    return [('ROWS', 'F', 5)]


def missing_mk(src):
    what = src.pick('missing', ['nothing', 'a logical file', 'an origin', 'a channel', 'a frame', 'a channel in the frame', 'a data set', 'a data set of another name',
                                'data', 'anything in the second logical file'])
    kind = src.pick('kind', ['dict', 'numpy', 'hdf5'])
    names = ['A', 'B'] if what != 'a data set' else ['A', 'C']
    if what == 'data':
        return what, kind, None
    if kind == 'numpy':
        return what, kind, structured(src, 'source', [(n, '<f8', ()) for n in names], src.int('rows', 5, 5))
    x = {n: array(src, n, '<f8', (src.int('rows', 5, 5),), kind == 'hdf5') for n in names}
    return what, kind, hdf5_file(src, x) if kind == 'hdf5' else x


scenario('file: missing parts', 'C12 C09', missing_calls, missing_want, missing_mk, budget=60)


# ------------------------------------------------------------------------------------------------- dimension and element limit given by the user (C08)
def limit_calls(dimension, limit, columns, data):
    dlis, lf = logical_file()
    x = lf.add_channel('A', dimension=dimension, element_limit=limit, data=data)
    lf.add_frame('F', channels=[x])
    return written(dlis, {}, ['CHANNEL'])


def limit_want(dimension, limit, columns, data):
    c = 1 if columns is None else columns
    if dimension is not None and (len(dimension) != 1 or dimension[0] != c):
        raise S.Reject('the dimension does not match the data')
    if limit is not None and limit[0] < c:
        raise S.Reject('the element limit does not bound the dimension')
    dim = column('UVARI', S.uvari(c))
    el = b''
    for e in limit or [c]:
        el = el + S.uvari(e)
    b = an_object('CHANNEL', 0, 0, 'A', {'LONG-NAME': column('ASCII', S.ascii_text('A')), 'REPRESENTATION-CODE': column('USHORT', S.ushort(2)),
                                         'DIMENSION': dim, 'ELEMENT-LIMIT': column('UVARI', el, len(limit or [c]))})
    return [('CHANNEL', None, set_component('CHANNEL', None) + template('CHANNEL') + b)]


def limit_mk(src):
    nd, nl = src.pick('dimensions given', [0, 1, 2]), src.pick('limits given', [0, 1, 2, 3])
    columns = src.int('columns', 1, 2 ** 20) if src.pick('wide', [False, True]) else None
    dimension = [src.int(f"d{i}", 1, 2 ** 30 - 1) for i in range(nd)] or None
    limit = [src.int(f"e{i}", 1, 2 ** 30 - 1) for i in range(nl)] or None
    n = src.int('rows', 1, 2 ** 30 - 1)
    return dimension, limit, columns, array(src, 'A', '<f4', (n,) if columns is None else (n, columns))


scenario('file: dimension and element limit of the user', 'C08 C12', limit_calls, limit_want, limit_mk, budget=120)


# ------------------------------------------------------------------------------------------------- file header and defining origin (C09 C05)
def header_calls(n, ident, fid, fsn, data):
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file(fh_id=fid, fh_identifier=ident, fh_sequence_number=n)
    lf.add_origin('O', file_set_number=fsn, creation_time=DT)
    lf.add_frame('F', channels=[lf.add_channel('A', data=data)])
    return written(dlis, {}, ['FILE-HEADER', 'ORIGIN'])


def header_want(n, ident, fid, fsn, data):
    o = an_object('ORIGIN', 0, 0, 'O', {'FILE-ID': column('ASCII', S.ascii_text(fid)), 'FILE-SET-NUMBER': column('UVARI', S.uvari(fsn)),
                                        'CREATION-TIME': column('DTIME', DT_BYTES), 'FIELD-NAME': column('ASCII', S.ascii_text('WILDCAT'))})
    return [('FILE-HEADER', None, header_spec(ident, fid, n, 'arguments', 0)), ('ORIGIN', None, set_component('ORIGIN', None) + template('ORIGIN') + o)]


def header_mk(src):
    n = src.pick('sequence number', [1, 12, 10 ** 9, 10 ** 10 - 1])
    ident = src.pick('identifier', ['0', 'z'])
    return n, ident, src.ascii('fh_id', 65), src.int('file_set_number', 1, 2 ** 30 - 1), array(src, 'A', '<f8', (src.int('rows', 1, 99),))


scenario('file: header and defining origin', 'C09 C05', header_calls, header_want, header_mk, budget=60)


# ------------------------------------------------------------------------------------------------- identities (C07)
def copies_calls(names, where, data):
    dlis, lf = logical_file()
    lf.add_frame('F', channels=[lf.add_channel('A', data=data)])
    for n, w in zip(names, where):
        lf.add_zone(n, set_name=w)
    return written(dlis, {}, ['ZONE'])


def copies_want(names, where, data):
    out = {}
    for i, n in enumerate(names):
        copy = 0
        for m in names[:i]:
            if m == n:
                copy = copy + 1
        w = where[i]
        if w not in out:
            out[w] = set_component('ZONE', w) + template('ZONE')
        out[w] = out[w] + an_object('ZONE', 0, copy, n, {})
    return [('ZONE', w, b) for w, b in out.items()]


def copies_mk(src):
    n = src.pick('zones', [2, 3])
    where = [src.pick(f"set {i}", [None, 'S']) if i else None for i in range(n)]
    return [src.ascii(f"name{i}", 255) for i in range(n)], where, array(src, 'A', '<f8', (src.int('rows', 1, 99),))


scenario('file: objects of the same name', 'C07', copies_calls, copies_want, copies_mk, budget=120)


def alike_calls(a, b, c, names, data):
    dlis, lf = logical_file()
    lf.add_frame('F', channels=[lf.add_channel('A', data=data)])
    for n, w in zip(names, (a, b, c)):
        lf.add_zone(n, set_name=w)
    return written(dlis, {}, ['ZONE'])


def alike_want(a, b, c, names, data):
    """Every object is in the set of its own set name, whatever the other names are."""
    where = [w if w else None for w in (a, b, c)]
    out = []
    for i, n in enumerate(names):
        copy = 0
        for m in names[:i]:
            if m == n:
                copy = copy + 1
        o = an_object('ZONE', 0, copy, n, {})
        for k in range(len(out)):
            if out[k][1] == where[i]:
                out[k] = ('ZONE', where[i], out[k][2] + o)
                break
        else:
            out.append(('ZONE', where[i], set_component('ZONE', where[i]) + template('ZONE') + o))
    return out


def alike_mk(src):
    a, b, c = src.pick('set names', [('Run', 'RUN', 'run'), ('S', 'S ', ' S'), ('1', '01', '1'), ('S-1', 'S_1', 'S1'), (None, 'None', 'NONE')])
    return a, b, c, [src.ascii('name0', 255), 'Z', 'Z'], array(src, 'A', '<f8', (src.int('rows', 1, 99),))


scenario('file: sets of different names', 'C05 C18 C07', alike_calls, alike_want, alike_mk, budget=120)


def copies_by_origin_calls(names, where, mine, ref, data):
    dlis, lf = logical_file()
    lf.add_origin('O2', file_set_number=9, creation_time=DT, origin_reference=ref)
    lf.add_frame('F', channels=[lf.add_channel('A', data=data)])
    made = [lf.add_zone(n, set_name=w, origin_reference=ref if m else None) for n, w, m in zip(names, where, mine)]
    lf.add_parameter('P', zones=made)
    return written(dlis, {}, ['ZONE', 'PARAMETER'])


def copies_by_origin_want(names, where, mine, ref, data):
    """Objects of one type and name have distinct copy numbers, whatever their origins are."""
    if ref == 0:
        raise S.Reject('two origins of one reference')
    out = {}
    refs = b''
    for i, n in enumerate(names):
        copy = 0
        for m in names[:i]:
            if m == n:
                copy = copy + 1
        o = ref if mine[i] else 0
        w = where[i]
        if w not in out:
            out[w] = set_component('ZONE', w) + template('ZONE')
        out[w] = out[w] + an_object('ZONE', o, copy, n, {})
        refs = refs + S.obname(o, copy, n)
    p = set_component('PARAMETER', None) + template('PARAMETER') + an_object('PARAMETER', 0, 0, 'P', {'ZONES': column('OBNAME', refs, len(names))})
    return [('ZONE', w, b) for w, b in out.items()] + [('PARAMETER', None, p)]


def copies_by_origin_mk(src):
    where = [None, src.pick('set', [None, 'S'])]
    return [src.ascii(f"name{i}", 255) for i in range(2)], where, [src.pick(f"second origin {i}", [False, True]) for i in range(2)], src.int('second_origin', 0, 2 ** 30 - 1), array(src, 'A', '<f8', (src.int('rows', 1, 99),))


scenario('file: objects of the same name in two origins', 'C07', copies_by_origin_calls, copies_by_origin_want, copies_by_origin_mk, budget=120)


def origins_calls(early, r1, r2, e, data):
    dlis, lf = logical_file(False)
    lf.add_frame('F', channels=[lf.add_channel('A', data=data)])
    if early:
        lf.add_zone('before')
    lf.add_origin('O1', file_set_number=9, creation_time=DT, origin_reference=r1)
    lf.add_zone('between')
    lf.add_origin('O2', file_set_number=9, creation_time=DT, origin_reference=r2)
    lf.add_zone('after', origin_reference=e)
    return written(dlis, {}, ['ORIGIN', 'ZONE', 'CHANNEL'])


def origins_want(early, r1, r2, e, data):
    a = 0 if r1 is None else r1
    if r2 is None:
        b = 2 if a == 1 else 1
    else:
        b = r2
    if a == b:
        raise S.Reject('two origins with one reference')
    if e is not None and e != a and e != b:
        raise S.Reject('no such origin')
    common = {'FILE-ID': column('ASCII', S.ascii_text('FILE-HEADER')), 'FILE-SET-NUMBER': column('UVARI', S.uvari(9)),
              'CREATION-TIME': column('DTIME', DT_BYTES), 'FIELD-NAME': column('ASCII', S.ascii_text('WILDCAT'))}
    o = an_object('ORIGIN', a, 0, 'O1', common) + an_object('ORIGIN', b, 0, 'O2', common)
    dim = column('UVARI', S.uvari(1))
    c = an_object('CHANNEL', a, 0, 'A', {'LONG-NAME': column('ASCII', S.ascii_text('A')), 'REPRESENTATION-CODE': column('USHORT', S.ushort(7)), 'DIMENSION': dim, 'ELEMENT-LIMIT': dim})
    z = b''
    if early:
        z = an_object('ZONE', a, 0, 'before', {})
    z = z + an_object('ZONE', a, 0, 'between', {}) + an_object('ZONE', a if e is None else e, 0, 'after', {})
    return [('ORIGIN', None, set_component('ORIGIN', None) + template('ORIGIN') + o), ('CHANNEL', None, set_component('CHANNEL', None) + template('CHANNEL') + c),
            ('ZONE', None, set_component('ZONE', None) + template('ZONE') + z)]


def origins_mk(src):
    def ref(name):
        return src.int(name, 0, 2 ** 30 - 1) if src.pick(name + ' given', [False, True]) else None
    return src.pick('an object before the origin', [False, True]), ref('first'), ref('second'), ref('own'), array(src, 'A', '<f8', (src.int('rows', 1, 99),))


scenario('file: origin references', 'C07 C05 C18', origins_calls, origins_want, origins_mk, budget=120, peel=3)


# ------------------------------------------------------------------------------------------------- identities changed between two writes (C07)
def changed_calls(before, origin, name, ref, data):
    dlis, lf = logical_file(False)
    lf.add_origin('O1', file_set_number=9, creation_time=DT, origin_reference=0)
    lf.add_origin('O2', file_set_number=9, creation_time=DT, origin_reference=ref)
    a = lf.add_channel('A', data=data)
    f = lf.add_frame('F', channels=[a])
    z = lf.add_zone('Z')
    n = lf.add_no_format('N')
    lf.add_parameter('P', zones=[z])
    lf.add_group('G', object_list=[z, a, f])
    lf.add_no_format_frame_data(n, b'payload')
    if before == 'written':
        written(dlis, {}, [])
    elif before == 'represented':
        for x in (a, f, z, n):
            x.obname
            x.obname
    if origin:
        for x in (a, f, z, n):
            x.origin_reference = ref
    if name is not None:
        for x in (f, z, n):
            x.name = name
    records = written(dlis, {}, ['ZONE', 'PARAMETER', 'GROUP', 'FRAME', 'NO-FORMAT', 'NOFMT', 'FIRST ROW'])
    r, fn = (ref if origin else 0), ('F' if name is None else name)
    k = len(S.obname(r, 0, fn))
    cut = {'ROW': k + 1, 'FRAME': len(set_component('FRAME', None) + template('FRAME')) + 1 + k + 1 + len(column('OBNAME', S.obname(r, 0, 'A')))}
    return [x if x[0] not in cut else (x[0], x[1], x[2][:cut[x[0]]]) for x in records]


def changed_want(before, origin, name, ref, data):
    if ref == 0:
        raise S.Reject('two origins with one reference')
    o = ref if origin else 0
    z, f, n = ('Z', 'F', 'N') if name is None else (name, name, name)
    a = S.obname(o, 0, 'A')
    refs = S.ident('ZONE') + S.obname(o, 0, z) + S.ident('CHANNEL') + a + S.ident('FRAME') + S.obname(o, 0, f)
    out = []
    for t, b in (('FRAME', b'\x70' + S.obname(o, 0, f) + b'\x00' + column('OBNAME', a)),
                 ('ZONE', an_object('ZONE', o, 0, z, {})),
                 ('NO-FORMAT', an_object('NO-FORMAT', o, 0, n, {})),
                 ('PARAMETER', an_object('PARAMETER', 0, 0, 'P', {'ZONES': column('OBNAME', S.obname(o, 0, z))})),
                 ('GROUP', an_object('GROUP', 0, 0, 'G', {'OBJECT-LIST': column('OBJREF', refs, 3)}))):
        out.append((t, None, set_component(t, None) + template(t) + b))
    return out + [('NOFMT', None, S.obname(o, 0, n) + b'payload'), ('ROW', f, S.obname(o, 0, f) + S.uvari(1))]


def changed_mk(src):
    return (src.pick('before', ['nothing', 'represented', 'written']), src.pick('origin changed', [False, True]), src.ascii('new_name', 255) if src.pick('renamed', [False, True]) else None,
            src.int('second_origin', 0, 2 ** 30 - 1), array(src, 'A', '<f8', (src.int('rows', 1, 99),)))


scenario('file: identities changed after they were used', 'C07 C14', changed_calls, changed_want, changed_mk, budget=150)


# ------------------------------------------------------------------------------------------------- one value or dictionary used several times (C05 C19)
def reused_calls(form, v, units, data):
    dlis, lf = logical_file()
    lf.add_frame('F', channels=[lf.add_channel('A', data=data)])
    setup = real(':AttrSetup')
    x = {'dictionary': {'value': v, 'units': units}, 'dictionary, units first': {'units': units, 'value': v}, 'list': [v, v], 'dictionary of a list': {'value': [v, v], 'units': units},
         'AttrSetup': setup(v, units)}[form]
    c1 = lf.add_calibration_coefficient('C1', coefficients=x, references=x)
    c2 = lf.add_calibration_coefficient('C2', plus_tolerances=x)
    c2.references.value = [v, v] if form in ('list', 'dictionary of a list') else [v]
    lf.add_calibration_coefficient('C3', references=x, minus_tolerances=x)
    r = written(dlis, {}, ['CALIBRATION-COEFFICIENT'])
    if form == 'list':
        left = [x[0], x[1], len(x)]
    elif form == 'AttrSetup':
        left = [x.value, x.units]
    else:
        left = [list(x), x['value'], x['units']]
    return r + [left]


def reused_want(form, v, units, data):
    from .o_attr import component
    many = form in ('list', 'dictionary of a list')
    one = S.floating('FDOUBL', v)
    c = component('FDOUBL', 2 if many else 1, None if form == 'list' else units, one + one if many else one)
    t = 'CALIBRATION-COEFFICIENT'
    b = (an_object(t, 0, 0, 'C1', {'COEFFICIENTS': c, 'REFERENCES': c}) + an_object(t, 0, 0, 'C2', {'PLUS-TOLERANCES': c, 'REFERENCES': component('FDOUBL', 2 if many else 1, None, one + one if many else one)})
         + an_object(t, 0, 0, 'C3', {'REFERENCES': c, 'MINUS-TOLERANCES': c}))
    left = {'dictionary': [['value', 'units'], v, units], 'dictionary, units first': [['units', 'value'], v, units], 'list': [v, v, 2],
            'dictionary of a list': [['value', 'units'], [v, v], units], 'AttrSetup': [v, units]}[form]
    return [(t, None, set_component(t, None) + template(t) + b), left]


def reused_mk(src):
    return (src.pick('form', ['dictionary', 'dictionary, units first', 'list', 'dictionary of a list', 'AttrSetup']), src.real('v'), src.pick('units', ['m', 's']),
            array(src, 'A', '<f8', (src.int('rows', 1, 99),)))


scenario('file: one value for several attributes', 'C05 C19', reused_calls, reused_want, reused_mk, budget=100)


# ------------------------------------------------------------------------------------------------- logical files sharing objects or sets (C18 C07 C12)
def shared_calls(what, data, set_type):
    dlis = real('file.file:DLISFile')()
    lfs = [dlis.add_logical_file(fh_id='one'), dlis.add_logical_file(fh_id='two', fh_sequence_number=2)]
    chans, notes = [], []
    for i in range(2):
        own = [None, 'L2'][i]
        lfs[i].add_origin('O', file_set_number=9, creation_time=DT, set_name='X' if what == 'a set of origins' else own)
        chans.append(lfs[i].add_channel('A', data=data[i], set_name='X' if what == 'a set of channels' else own))
        notes.append(lfs[i].add_no_format('N', set_name='X' if what == 'a set of no-format objects' else own))
        lfs[i].add_frame('F', channels=[chans[0 if what == 'a channel' else i]], set_name='X' if what == 'a set of frames' else own)
        lfs[i].add_zone('Z', set_name='X' if what == 'a set of zones' else own)
    if what == 'a no-format object':
        lfs[1].add_no_format_frame_data(notes[0], b'abc')
    if what == 'a reference: path to channel':
        lfs[1].add_path('P', value=[chans[0]], set_name='L2')
    if what == 'a reference: parameter to zone':
        z = lfs[0].add_zone('Z2')
        lfs[1].add_parameter('P', zones=[z], values=[1.5], set_name='L2')
    if what == 'a reference: channel to axis':
        x = lfs[0].add_axis('X')
        chans[1].axis.value = [x]
    if what == 'a set whose objects are all added elsewhere':
        lfs[0].add_axis('X', set_name='L2')
        lfs[1].add_axis('Y', set_name='L2')
    r = written(dlis, {}, ['ZONE', 'ROWS'])
    return [x[:2] for x in r]


def shared_want(what, data, set_type):
    if what != 'nothing':
        raise S.Reject('logical files share ' + what)
    return [('ZONE', None), ('ROWS', 'F'), ('ZONE', 'L2'), ('ROWS', 'F')]


def shared_mk(src):
    what = src.pick('shared', ['nothing', 'a set of origins', 'a set of channels', 'a set of no-format objects', 'a set of frames', 'a set of zones', 'a channel', 'a no-format object',
                               'a reference: path to channel', 'a reference: parameter to zone', 'a reference: channel to axis', 'a set whose objects are all added elsewhere'])
    return what, [array(src, f"data{i}", '<f8', (src.int(f"rows{i}", 1, 99),)) for i in range(2)], None


scenario('logical files sharing objects or sets', 'C18 C07 C12', shared_calls, shared_want, shared_mk, budget=60)


# ------------------------------------------------------------------------------------------------- texts which cannot be written (C12 C05 C07)
def text_calls(where, t, data):
    dlis = real('file.file:DLISFile')()
    lf = dlis.add_logical_file(fh_id=t if where == 'header id' else 'HEADER')
    lf.add_origin(t if where == 'origin' else 'O', file_set_number=9, creation_time=DT)
    ch = lf.add_channel('A', data=data)
    lf.add_frame('F', channels=[ch])
    z = lf.add_zone(t if where == 'name' else 'Z', description=t if where == 'description' else None,
                    maximum={'value': 1.5, 'units': t} if where == 'units' else None)
    lf.add_axis('X', axis_id=t if where == 'axis id' else None)
    if where == 'later':
        z.description.value = t
    if where == 'name later':
        z.name = t
    if where == 'comment':
        lf.add_comment('C', text=['first', t])
    if where == 'referenced name':
        lf.add_group('G', object_list=[lf.add_tool(t)])
    return [b for _, _, b in written(dlis, {}, ['FILE-HEADER', 'ORIGIN', 'ZONE', 'AXIS', 'COMMENT', 'TOOL', 'GROUP'])]


def text_want(where, t, data):
    n = len(t)
    ascii = S.text_bytes(t)          # (or rejected)
    if where == 'header id' and n > 65 or where in IDENTS and n > 255:
        raise S.Reject('longer than its length field allows')
    fid = t if where == 'header id' else 'HEADER'
    c = {}
    if where == 'description' or where == 'later':
        c['DESCRIPTION'] = column('ASCII', S.ascii_text(t))
    if where == 'units':
        from .o_attr import component
        c['MAXIMUM'] = component('FDOUBL', 1, t, S.floating('FDOUBL', 1.5))
    out = [header_spec('0', fid, 1, 'arguments', 0),
           set_component('ORIGIN', None) + template('ORIGIN') + an_object('ORIGIN', 0, 0, t if where == 'origin' else 'O', {
               'FILE-ID': column('ASCII', S.ascii_text(fid)), 'FILE-SET-NUMBER': column('UVARI', S.uvari(9)),
               'CREATION-TIME': column('DTIME', DT_BYTES), 'FIELD-NAME': column('ASCII', S.ascii_text('WILDCAT'))}),
           set_component('ZONE', None) + template('ZONE') + an_object('ZONE', 0, 0, t if where == 'name' or where == 'name later' else 'Z', c),
           set_component('AXIS', None) + template('AXIS') + an_object('AXIS', 0, 0, 'X', {'AXIS-ID': column('IDENT', S.ident(t))} if where == 'axis id' else {})]
    if where == 'comment':
        out.append(set_component('COMMENT', None) + template('COMMENT') + an_object('COMMENT', 0, 0, 'C', {'TEXT': column('ASCII', S.ascii_text('first') + S.ascii_text(t), 2)}))
    if where == 'referenced name':
        out.append(set_component('TOOL', None) + template('TOOL') + an_object('TOOL', 0, 0, t, {}))
        out.append(set_component('GROUP', None) + template('GROUP') + an_object('GROUP', 0, 0, 'G', {'OBJECT-LIST': column('OBJREF', S.objref('TOOL', 0, 0, t))}))
    return out



IDENTS = ('origin', 'name', 'name later', 'units', 'axis id', 'referenced name')


def text_mk(src):
    where = src.pick('where', list(IDENTS) + ['header id', 'description', 'later', 'comment'])
    t = src.str('text')
    if where == 'units':
        src.assume(src.call(non_empty, t))
    return where, t, array(src, 'A', '<f8', (src.int('rows', 1, 99),))


def non_empty(t):
    return len(t) > 0


scenario('file: texts of any kind and length', 'C12 C05 C07', text_calls, text_want, text_mk, budget=120)
