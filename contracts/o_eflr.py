"""Metadata objects through the public API: add_*(...) with any value -> the bytes of the set holding the object (C04, C05, C07).

For every class of objects and every attribute of it, the assigned value is symbolic; the set has to consist of the set
component, a template naming each attribute of the class once, and the object with the assigned value, and nothing else,
in the column of its label.  The tables of classes and labels are written from chapter 5 of the standard (harness.model).
"""
import datetime as dt
import random

import z3

from harness.model import TABLE, METHOD, NO_UNITS_KINDS, spec_of
from pyvc.interp import SymSeq
from pyvc.loops import SpecCat
from pyvc.sym import *
from . import spec as S
from .core import *
from .core import Exc, Ret

ORIGIN = 7
UTC = dt.timezone.utc
DT = dt.datetime(2024, 2, 29, 13, 14, 15, 678000, tzinfo=UTC)
DT_BYTES = bytes([124, 0x22, 29, 13, 14, 15, 678 // 256, 678 % 256])

# values which the standard enumerates
ENUM = {('FRAME', 'index_type'): ['BOREHOLE-DEPTH', 'NON-STANDARD', 'Unheard-of'], ('CHANNEL', 'units'): ['m', 'Unheard-of'],
        ('CALIBRATION-MEASUREMENT', 'phase'): ['AFTER', 'BEFORE', 'MASTER'], ('ZONE', 'domain'): ['BOREHOLE-DEPTH', 'TIME', 'VERTICAL-DEPTH'],
        ('PROCESS', 'status'): ['COMPLETE', 'ABORTED', 'IN-PROGRESS'], ('EQUIPMENT', 'eq_type'): ['Tool', 'Sonde', 'Unheard-of'],
        ('EQUIPMENT', 'location'): ['Well', 'Rig', 'Unheard-of'],
        'PROPERTIES': ['AVERAGED', 'RE-SAMPLED', 'STANDARD-DEVIATION']}
GENERIC = [t for t in TABLE if t not in ('CHANNEL', 'FRAME', 'ORIGIN')]
SKIP = {('GROUP', 'object_type'), ('ORIGIN', '__file_id'), ('CHANNEL', '__representation_code')}     # no keyword of add_*: contracts of their own
# types of explicitly formatted logical records (appendix A)
LR_TYPES = {'FILE-HEADER': 0, 'ORIGIN': 1, 'WELL-REFERENCE': 1, 'AXIS': 2, 'CHANNEL': 3, 'FRAME': 4, 'PATH': 4, 'COMMENT': 6, 'MESSAGE': 6,
            'NO-FORMAT': 8, 'LONG-NAME': 9}


def new_logical_file():
    return real('file.file:DLISFile')().add_logical_file()


def set_bytes(item):
    return item.parent._make_body_bytes()


_order = {}


def labels(set_type):
    """The labels in the order in which the class writes its template (any order is fine: 3.2.2.2)."""
    if set_type not in _order:
        want = [spec_of(set_type, kw)[0] for kw in TABLE[set_type]]
        try:
            from harness import rp66
            lf = new_logical_file()
            b = getattr(lf, METHOD[set_type])('N', origin_reference=1, **base_kwargs(lf, METHOD[set_type])).parent._make_template_bytes()
            got, p = [], 0
            while p < len(b):
                n = b[p + 1]
                got.append(b[p + 2:p + 2 + n].decode('ascii'))
                p += 2 + n
            assert sorted(got) == sorted(want)
        except Exception:
            got = want
        _order[set_type] = got
    return _order[set_type]


def set_component(set_type, set_name):
    if set_name is None:
        return b'\xf0' + S.ident(set_type)
    return b'\xf8' + S.ident(set_type) + S.ident(set_name)


def template(set_type):
    b = b''
    for label in labels(set_type):
        b += b'\x30' + S.ident(label)
    return b


# ------------------------------------------------------------------------------------------------- one attribute of one object
class Alt:
    """A way to assign an attribute: value made from src, representation code, encoded values (a list)."""

    def __init__(self, mk, code, enc):
        self.mk, self.code, self.enc = mk, code, enc


def encode(code, v):
    from .o_attr import encode as e
    return e(code, v)


TARGET = {'CHANNEL': 'add_channel', 'WELL-REFERENCE': 'add_well_reference_point'}


def target(lf, t, k):
    """Another object of type t (the k-th of the same name): two copies make the second one's copy number 1."""
    add = getattr(lf, METHOD[t])
    kw = {'channels': [lf.add_channel('IX')]} if t == 'FRAME' else {}
    r = None
    for _ in range(k + 1):
        r = add('TARGET', origin_reference=3, **kw)
    return r


def case_target(t, k):
    def mk(s, lf, n):
        return s.call(target, lf, t, k)
    return mk


def case_ref(t, k):
    def enc(v, i):
        return Ref(t, 3, i * (k + 1) + k, 'TARGET')         # (each value of the list adds k + 1 objects of that name)
    return enc


def flag(v, i):
    if v != 0 and v != 1:
        raise S.Reject('a flag')
    return 1 if v else 0


def alternatives(set_type, kw):
    label, kind, tgt, multi, nested = spec_of(set_type, kw)
    big = 2 ** 53
    one = []
    if (set_type, kw) in ENUM or label in ENUM:
        for v in ENUM.get((set_type, kw)) or ENUM[label]:
            one.append(Alt((lambda v: lambda s, lf, n: v)(v), 'IDENT', lambda v, i: v))
    elif kind == 'US' and kw == 'encrypted':
        one.append(Alt(lambda s, lf, n: s.int(n), 'USHORT', flag))
        one.append(Alt(lambda s, lf, n: s.bool(n), 'USHORT', flag))
    elif kind in ('UV', 'UN'):
        one.append(Alt(lambda s, lf, n: s.int(n, 0, big), 'UVARI' if kind == 'UV' else 'UNORM', lambda v, i: v))
    elif kind == 'T':
        one.append(Alt(lambda s, lf, n: s.str(n), 'ASCII', lambda v, i: v))
    elif kind == 'I':
        one.append(Alt(lambda s, lf, n: s.str(n), 'IDENT', lambda v, i: v))
    elif kind == 'N':
        one.append(Alt(lambda s, lf, n: s.int(n, -big, big), 'FDOUBL', lambda v, i: float(v)))
        one.append(Alt(lambda s, lf, n: s.real(n), 'FDOUBL', lambda v, i: v))
    elif kind == 'NI':
        one.append(Alt(lambda s, lf, n: s.int(n, -big, big), 'SLONG', lambda v, i: v))
    elif kind == 'M':
        one.append(Alt(lambda s, lf, n: s.int(n, -big, big), 'SLONG', lambda v, i: v))
        one.append(Alt(lambda s, lf, n: s.real(n), 'FDOUBL', lambda v, i: v))
    elif kind in ('DT', 'DTN'):
        one.append(Alt(lambda s, lf, n: DT, 'DTIME', lambda v, i: v))
        if kind == 'DTN':
            one.append(Alt(lambda s, lf, n: s.real(n), 'FDOUBL', lambda v, i: v))
            one.append(Alt(lambda s, lf, n: s.int(n, -big, big), 'FDOUBL', lambda v, i: float(v)))
    elif kind == 'ST':
        one.append(Alt(lambda s, lf, n: s.int(n), 'STATUS', lambda v, i: v))
        one.append(Alt(lambda s, lf, n: s.bool(n), 'STATUS', lambda v, i: 1 if v else 0))
    elif kind == 'DIM':
        one.append(Alt(lambda s, lf, n: s.int(n, 0, big), 'UVARI', lambda v, i: v))
    elif kind in ('O', 'OT', 'R'):
        ts = [tgt] if tgt else ['ZONE', 'GROUP', 'CHANNEL']
        if kind == 'OT':
            one.append(Alt(lambda s, lf, n: s.str(n), 'ASCII', lambda v, i: v))
        for t in ts:
            for k in (0, 1):
                one.append(Alt(case_target(t, k), 'OBJREF' if kind == 'R' else 'OBNAME', case_ref(t, k)))
    else:
        raise AssertionError(kind)
    return one


class Ref:
    def __init__(self, t, origin, copy, name):
        self.t, self.origin, self.copy, self.name = t, origin, copy, name


def enc_value(code, v):
    if code == 'DTIME':
        return DT_BYTES
    if code == 'OBNAME':
        return S.obname(v.origin, v.copy, v.name)
    if code == 'OBJREF':
        return S.objref(v.t, v.origin, v.copy, v.name)
    return encode(code, v)


def base_kwargs(lf, method):
    """What the caller has to give in any case (or what would be taken from the clock or a random generator)."""
    if method == 'add_origin':
        return {'file_set_number': 9, 'creation_time': DT}
    if method == 'add_frame':
        return {'channels': [lf.add_channel('IX0', origin_reference=4)]}
    return {}


def base_columns(set_type, kw):
    """Columns of an object for which only kw was assigned."""
    from .o_attr import component
    c = {}
    if set_type == 'ORIGIN':
        c = {'FILE-ID': component('ASCII', 1, None, S.ascii_text('FILE-HEADER')), 'FILE-SET-NUMBER': component('UVARI', 1, None, S.uvari(9)),
             'CREATION-TIME': component('DTIME', 1, None, DT_BYTES), 'FIELD-NAME': component('ASCII', 1, None, S.ascii_text('WILDCAT'))}
    if set_type == 'FRAME':
        c = {'CHANNELS': component('OBNAME', 1, None, S.obname(4, 0, 'IX0'))}
    if set_type == 'CHANNEL':
        c = {'LONG-NAME': component('ASCII', 1, None, S.ascii_text('NAME'))}
    if kw == 'values' and set_type in ('PARAMETER', 'COMPUTATION'):
        c = {'DIMENSION': component('UVARI', 1, None, S.uvari(1))}
    return c


def real_one(lf, method, kw, value, units, set_name):
    arg = value
    if units is not None:
        arg = {'value': value, 'units': units}
    kws = base_kwargs(lf, method)
    kws[kw] = arg
    item = getattr(lf, method)('NAME', origin_reference=ORIGIN, set_name=set_name, **kws)
    return set_bytes(item)


def spec_one(lf, method, kw, value, units, set_name, set_type=None, alt=None, as_list=False):
    from .o_attr import component
    values = value if as_list else [value]
    b = b''
    for i in range(len(values)):
        b = b + enc_value(alt.code, alt.enc(values[i], i))
    b = component(alt.code, len(values), units, b)
    columns = base_columns(set_type, kw)
    columns[spec_of(set_type, kw)[0]] = b
    if set_type == 'CHANNEL' and kw in ('dimension', 'element_limit'):     # each is the default of the other
        columns['DIMENSION'] = b
        columns['ELEMENT-LIMIT'] = b
    item = b'\x70' + S.obname(ORIGIN, 0, 'NAME')
    for x in labels(set_type):
        item = item + (columns[x] if x in columns else b'\x00')
    return item


def own_items(set_type, kw):
    """References to the object's own type put objects into the same set: these come first."""
    return spec_of(set_type, kw)[2] == set_type or set_type in ('ZONE', 'GROUP', 'CHANNEL')


def attribute_case(set_type, kw, src, native_types):
    """-> args of real_one, keywords of spec_one"""
    label, kind, tgt, multi, nested = spec_of(set_type, kw)
    alts = alternatives(set_type, kw)
    alt = alts[0] if len(alts) == 1 else src.pick('alternative', alts)
    n = src.pick('values', ([1, 2] if kw == 'channels' and set_type == 'FRAME' else [None, 1, 2]) if multi else [None])
    if kw == 'values' and set_type == 'PARAMETER' and n == 2:
        n = 1                                                     # (several values need zones)
    units = None
    if kind not in NO_UNITS_KINDS and alt.code not in ('DTIME', 'OBJREF', 'OBNAME'):
        units = src.pick('units given', [None, 'm'])
    lf = src.call(new_logical_file)
    if n is None:
        value = alt.mk(src, lf, 'value')
    else:
        value = [alt.mk(src, lf, f"value{i}") for i in range(n)]
    set_name = None
    return [lf, METHOD[set_type], kw, value, units, set_name], dict(set_type=set_type, alt=alt, as_list=n is not None)


def register(set_type, kw):
    name = f"{set_type}: {kw}"

    def want(args, k):
        b = set_component(set_type, None) + template(set_type)
        own = []
        if own_items(set_type, kw) and k['alt'].code in ('OBNAME', 'OBJREF') and k['alt'].enc(None, 0).t == set_type:
            nt = k['alt'].enc(None, 0).copy + 1
            n_vals = len(args[3]) if k['as_list'] else 1
            own = [(3, i, 'TARGET') for i in range(nt * n_vals)]
        return b, own

    def spec(args, k):
        from .o_attr import component
        b, own = want(args, k)
        for o, c, nm in own:
            b = b + b'\x70' + S.obname(o, c, nm)
            for x in labels(set_type):
                b = b + (component('ASCII', 1, None, S.ascii_text(nm)) if (set_type, x) == ('CHANNEL', 'LONG-NAME') else b'\x00')
        return b + spec_one(*args, **k)

    def body(it, vc):
        args, k = attribute_case(set_type, kw, SymSrc(it), None)
        vc.cover('precondition')
        r = outcome(it, real_one, args)
        s = outcome(it, spec, [args, k])
        relate(it, name, r, s)

    def replay(values):
        try:
            args, k = attribute_case(set_type, kw, ConcSrc(values), None)
            args2, k2 = attribute_case(set_type, kw, ConcSrc(values), None)
        except ConcSrc.Reject:
            return None
        d = native_mismatch(native_outcome(real_one, args), native_outcome(spec, [args2, k2]))
        return d and f"{METHOD[set_type]}('NAME', {kw}={short(args[3])}) units {args[4]!r}: {d}"

    def crosscheck(seed):
        src = ConcSrc(rng=random.Random(seed))
        try:
            attribute_case(set_type, kw, src, None)
        except ConcSrc.Reject:
            return None
        return replay(src.values)
    o = Obligation(name, 'C05 C04 C07', body, replay, complete_replay=True)
    o.crosscheck = crosscheck
    OBLIGATIONS[name] = o


for _t in TABLE:
    for _kw in TABLE[_t]:
        if (_t, _kw) not in SKIP:
            register(_t, _kw)


# ------------------------------------------------------------------------------------------------- any number of attributes, of objects
E = 'logical_record.core.eflr.eflr_item:'
ATTR = 'logical_record.core.attribute.attribute:'


@obligation('item: any number of attributes', 'C04 C05', internal=True)
def any_attributes(it, vc):
    """EFLRItem._make_attrs_bytes: the columns of the object, in the order of `attributes`: absent, or the attribute component."""
    cls = real(E + 'EFLRItem')
    src = SymSrc(it)
    typ = real(ATTR + 'Attribute')

    def make(s):
        b = s.bytes('component')
        has = s.bool('has a value')
        count = s.int('count', 0)
        return Opq(typ, 'attribute', {'value': has, 'count': count, 'component': b}, methods={'get_as_bytes': lambda it2: b})
    raw = src.list('attributes', make)

    def elem(vc2, i):
        a = raw.elem(vc2, i)
        has = a.fields['value']
        if isinstance(has, SBool):
            a.fields['value'] = Opq(object, 'value') if vc2.decide(has.t) else None
        return a

    def contrib(i):
        a = elem(vc, i)
        if a.fields['value'] is None or vc.decide(a.fields['count'].t == 0):
            return rope(b'\x00')
        return a.fields['component']
    attrs = SymSeq('attributes', raw.n, elem, list)
    cat = SpecCat(vc, 'columns', contrib)
    d = Opq(dict, 'attributes', {}, methods={'values': lambda it2: attrs, '__len__': lambda it2: SInt(iv(attrs.n))})
    it.contracts[cls.attributes.fget.__code__] = lambda it2, slf: d
    item = cls.__new__(cls)
    vc.label(item)
    if vc.unroll is not None:
        for k in range(vc.unroll):
            if not vc.decide(z3.IntVal(k) < iv(attrs.n)):
                break
            cat.touch(vc, z3.IntVal(k))
    vc.cover('precondition')
    r = outcome(it, cls._make_attrs_bytes, [item])
    vc.cover('returned')
    if isinstance(r, Exc):
        vc.prove('columns', False, f"{r!r}")
    else:
        same(it, 'columns', r.v, cat.upto(vc, cat.pos(vc, iv(attrs.n))))


@obligation('set: any number of objects', 'C04 C02', internal=True)
def any_objects(it, vc):
    """EFLRSet._make_body_bytes: nothing without objects; otherwise the set component, the template, the objects in the order of registration."""
    cls = real('logical_record.eflr_types.zone:ZoneSet')
    base = real('logical_record.core.eflr.eflr_set:EFLRSet')
    src = SymSrc(it)
    typ = real('logical_record.eflr_types.zone:ZoneItem')

    def make(s):
        b = s.bytes('object')
        return Opq(typ, 'object', {'bytes': b}, methods={'make_item_body_bytes': lambda it2: b})
    items = src.list('objects', make)
    cat = SpecCat(vc, 'objects', lambda i: items.elem(vc, i).fields['bytes'])
    name = src.pick('set name', [None, 'ONE'])
    tmpl = src.bytes('template')
    st = it.call(cls, [name])
    it.setattr(st, '_eflr_item_list', items)
    it.contracts[code(base._make_template_bytes)] = lambda it2, slf: tmpl
    if vc.unroll is not None:
        for k in range(vc.unroll):
            if not vc.decide(z3.IntVal(k) < iv(items.n)):
                break
            cat.touch(vc, z3.IntVal(k))
    vc.cover('precondition')
    r = outcome(it, cls._make_body_bytes, [st])
    vc.cover('returned')
    if isinstance(r, Exc):
        vc.prove('set', False, f"{r!r}")
        return
    if vc.decide(iv(items.n) == 0):
        same(it, 'set without objects', r.v, b'')
        return
    head = it.call(set_component, ['ZONE', name])
    same(it, 'set', r.v, concat('bytes', rope(head), tmpl, cat.upto(vc, cat.pos(vc, iv(items.n)))))


# ------------------------------------------------------------------------------------------------- names
def named(lf, name, origin, set_name):
    return set_bytes(lf.add_group(name, description='D', origin_reference=origin, set_name=set_name))


def named_spec(lf, name, origin, set_name):
    from .o_attr import component
    b = set_component('GROUP', set_name or None) + template('GROUP') + b'\x70' + S.obname(origin, 0, name)
    for x in labels('GROUP'):
        b = b + (component('ASCII', 1, None, S.ascii_text('D')) if x == 'DESCRIPTION' else b'\x00')
    return b


relational('identity of an object', 'C07 C04 C12', lambda: named, named_spec,
           lambda s: (s.call(new_logical_file), s.str('name'), s.int('origin', 0), s.pick('set', [None, '', 'ONE', 'A' * 255])))


def later(attr, value):
    lf = new_logical_file()
    g = lf.add_group('NAME', origin_reference=ORIGIN)
    getattr(g, attr).value = value
    return set_bytes(g)


def later_spec(attr, value):
    from .o_attr import component
    label, code = {'object_type': ('OBJECT-TYPE', 'IDENT'), 'description': ('DESCRIPTION', 'ASCII')}[attr]
    b = set_component('GROUP', None) + template('GROUP') + b'\x70' + S.obname(ORIGIN, 0, 'NAME')
    for x in labels('GROUP'):
        b = b + (component(code, 1, None, encode(code, value)) if x == label else b'\x00')
    return b


relational('GROUP: assigned later', 'C05 C04', lambda: later, later_spec, lambda s: (s.pick('attribute', ['object_type', 'description']), s.str('value')))


# ------------------------------------------------------------------------------------------------- file header
def header(ident, file_id, seq, kind, origin):
    if kind == 'arguments':
        lf = real('file.file:DLISFile')().add_logical_file(fh_id=file_id, fh_identifier=ident, fh_sequence_number=seq)
    else:
        fh = real('logical_record.eflr_types.file_header:FileHeaderItem')(file_id, parent=real('logical_record.eflr_types.file_header:FileHeaderSet')(),
                                                                          sequence_number=seq, identifier=ident)
        lf = real('file.file:DLISFile')().add_logical_file(file_header=fh)
    lf.add_origin('O', file_set_number=1, creation_time=DT, origin_reference=origin)
    return lf.file_header.parent._make_body_bytes()


def header_spec(ident, file_id, seq, kind, origin):
    """RP66 V1 5.1"""
    from .o_physical import left, right
    if seq < 1 or seq > 9999999999 or len(ident) != 1:
        raise S.Reject('range')
    return (b'\xf0' + S.ident('FILE-HEADER') + b'\x34' + S.ident('SEQUENCE-NUMBER') + b'\x14' + b'\x34' + S.ident('ID') + b'\x14'
            + b'\x70' + S.obname(origin, 0, ident)
            + b'\x21' + S.ascii_text(right(str(seq), 10)) + b'\x21' + S.ascii_text(left(file_id, 65)))


relational('FILE-HEADER', 'C01 C04 C05 C12 C07', lambda: header, header_spec,
           lambda s: (s.str('identifier'), s.str('id'), s.int('sequence number', -5), s.pick('given as', ['arguments', 'item']), s.int('origin', 0)))


# ------------------------------------------------------------------------------------------------- record types
def record_header(set_type):
    """Attributes and type of the only segment of a small set."""
    if set_type == 'FILE-HEADER':
        st = new_logical_file().file_header.parent
    else:
        kw = {}
        lf = new_logical_file()
        if set_type == 'FRAME':
            kw = {'channels': [lf.add_channel('C')]}
        st = getattr(lf, METHOD[set_type])('N', origin_reference=1, **kw).parent
    lr = real('logical_record.core.logical_record.logical_record_bytes:LogicalRecordBytes')(b'0123456789abcdef', type(st).lr_type_struct, st.is_eflr)
    seg = list(lr.make_segments(8180))[0][0]
    return bytes(seg[2:4])


def record_header_spec(set_type):
    return b'\x80' + S.ushort(LR_TYPES[set_type] if set_type in LR_TYPES else 5)


relational('record types', 'C04 C05 C09', lambda: record_header, record_header_spec, lambda s: (s.pick('set type', sorted(TABLE) + ['FILE-HEADER']),))


def represented(set_type):
    """represent_as_bytes of a set with one object: bytes, type and kind handed to the segmentation."""
    lf = new_logical_file()
    st = getattr(lf, METHOD[set_type])('N', origin_reference=1).parent
    lr = st.represent_as_bytes()
    seg = list(lr.make_segments(8180))[0][0]
    return bytes(seg[2:4]) + bytes(lr.bts)


def represented_spec(set_type):
    b = set_component(set_type, None) + template(set_type) + b'\x70' + S.obname(1, 0, 'N') + b'\x00' * len(TABLE[set_type])
    pad = max(12 - len(b), len(b) % 2)
    return S.ushort(0x80 + (1 if pad else 0)) + S.ushort(LR_TYPES[set_type] if set_type in LR_TYPES else 5) + b


relational('a set as a logical record', 'C04 C02', lambda: represented, represented_spec, lambda s: (s.pick('set type', GENERIC),))
