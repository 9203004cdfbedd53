"""Expected-content model of a DLIS specification, kept next to the real dliswriter objects.

`Scenario` drives the *public* API of dliswriter and records, independently of dliswriter's own
state, what the user asked for.  `compare` checks a parsed file (harness.rp66) against it.
The attribute tables are written from the RP66 V1 standard (chapter 5) and the add_* signatures.
"""
from __future__ import annotations
import math
import struct
from dataclasses import dataclass, field
from datetime import datetime, timedelta, timezone
from typing import Any, Optional

import numpy as np

from . import rp66
from .rp66 import RP66Error

# kind:  T text, I ident, N number, NI integer number, UV uvari, UN unorm, US flag(ushort), DIM, DT datetime,
#        DTN datetime or number, ST status, M number or text list, O:<TYPE> obname, R objref, OT:<TYPE> obname or text
#        a trailing * = multivalued, ** = nested lists allowed
TABLE = {
    'AXIS': dict(axis_id='AXIS-ID I', coordinates='COORDINATES M*', spacing='SPACING N'),
    'CALIBRATION': dict(calibrated_channels='CALIBRATED-CHANNELS O:CHANNEL*',
                        uncalibrated_channels='UNCALIBRATED-CHANNELS O:CHANNEL*',
                        coefficients='COEFFICIENTS O:CALIBRATION-COEFFICIENT*',
                        measurements='MEASUREMENTS O:CALIBRATION-MEASUREMENT*',
                        parameters='PARAMETERS O:PARAMETER*', method='METHOD I'),
    'CALIBRATION-COEFFICIENT': dict(label='LABEL I', coefficients='COEFFICIENTS N*', references='REFERENCES N*',
                                    plus_tolerances='PLUS-TOLERANCES N*', minus_tolerances='MINUS-TOLERANCES N*'),
    'CALIBRATION-MEASUREMENT': dict(
        phase='PHASE I', measurement_source='MEASUREMENT-SOURCE R', measurement_type='TYPE I',
        dimension='DIMENSION DIM*', axis='AXIS O:AXIS*', measurement='MEASUREMENT N**',
        sample_count='SAMPLE-COUNT NI', maximum_deviation='MAXIMUM-DEVIATION N**',
        standard_deviation='STANDARD-DEVIATION N**', begin_time='BEGIN-TIME DTN', duration='DURATION N',
        reference='REFERENCE N**', standard='STANDARD N**', plus_tolerance='PLUS-TOLERANCE N**',
        minus_tolerance='MINUS-TOLERANCE N**'),
    'CHANNEL': dict(long_name='LONG-NAME OT:LONG-NAME', properties='PROPERTIES I*', units='UNITS I',
                    dimension='DIMENSION DIM*', axis='AXIS O:AXIS*', element_limit='ELEMENT-LIMIT DIM*',
                    source='SOURCE R', minimum_value='MINIMUM-VALUE N*', maximum_value='MAXIMUM-VALUE N*',
                    __representation_code='REPRESENTATION-CODE US'),
    'COMMENT': dict(text='TEXT T*'),
    'COMPUTATION': dict(long_name='LONG-NAME OT:LONG-NAME', properties='PROPERTIES I*', dimension='DIMENSION DIM*',
                        axis='AXIS O:AXIS*', zones='ZONES O:ZONE*', values='VALUES N**', source='SOURCE R'),
    'EQUIPMENT': dict(trademark_name='TRADEMARK-NAME T', status='STATUS ST', eq_type='TYPE I',
                      serial_number='SERIAL-NUMBER I', location='LOCATION I', height='HEIGHT N', length='LENGTH N',
                      minimum_diameter='MINIMUM-DIAMETER N', maximum_diameter='MAXIMUM-DIAMETER N',
                      volume='VOLUME N', weight='WEIGHT N', hole_size='HOLE-SIZE N', pressure='PRESSURE N',
                      temperature='TEMPERATURE N', vertical_depth='VERTICAL-DEPTH N',
                      radial_drift='RADIAL-DRIFT N', angular_drift='ANGULAR-DRIFT N'),
    'FRAME': dict(description='DESCRIPTION T', channels='CHANNELS O:CHANNEL*', index_type='INDEX-TYPE I',
                  direction='DIRECTION I', spacing='SPACING N', encrypted='ENCRYPTED US',
                  index_min='INDEX-MIN N', index_max='INDEX-MAX N'),
    'GROUP': dict(description='DESCRIPTION T', object_type='OBJECT-TYPE I', object_list='OBJECT-LIST R*',
                  group_list='GROUP-LIST O:GROUP*'),
    'LONG-NAME': dict(general_modifier='GENERAL-MODIFIER T*', quantity='QUANTITY T',
                      quantity_modifier='QUANTITY-MODIFIER T*', altered_form='ALTERED-FORM T', entity='ENTITY T',
                      entity_modifier='ENTITY-MODIFIER T*', entity_number='ENTITY-NUMBER T',
                      entity_part='ENTITY-PART T', entity_part_number='ENTITY-PART-NUMBER T',
                      generic_source='GENERIC-SOURCE T', source_part='SOURCE-PART T*',
                      source_part_number='SOURCE-PART-NUMBER T*', conditions='CONDITIONS T*',
                      standard_symbol='STANDARD-SYMBOL T', private_symbol='PRIVATE-SYMBOL T'),
    'MESSAGE': dict(message_type='TYPE I', time='TIME DTN', borehole_drift='BOREHOLE-DRIFT N',
                    vertical_depth='VERTICAL-DEPTH N', radial_drift='RADIAL-DRIFT N',
                    angular_drift='ANGULAR-DRIFT N', text='TEXT T*'),
    'NO-FORMAT': dict(consumer_name='CONSUMER-NAME I', description='DESCRIPTION T'),
    'ORIGIN': dict(__file_id='FILE-ID T', file_set_name='FILE-SET-NAME I', file_set_number='FILE-SET-NUMBER UV',
                   file_number='FILE-NUMBER UV', file_type='FILE-TYPE I', product='PRODUCT T', version='VERSION T',
                   programs='PROGRAMS T*', creation_time='CREATION-TIME DT', order_number='ORDER-NUMBER T',
                   descent_number='DESCENT-NUMBER UN', run_number='RUN-NUMBER UN', well_id='WELL-ID T',
                   well_name='WELL-NAME T', field_name='FIELD-NAME T', producer_code='PRODUCER-CODE UN',
                   producer_name='PRODUCER-NAME T', company='COMPANY T', name_space_name='NAME-SPACE-NAME I',
                   name_space_version='NAME-SPACE-VERSION UV'),
    'PARAMETER': dict(long_name='LONG-NAME OT:LONG-NAME', dimension='DIMENSION DIM*', axis='AXIS O:AXIS*',
                      zones='ZONES O:ZONE*', values='VALUES M**'),
    'PATH': dict(frame_type='FRAME-TYPE O:FRAME', well_reference_point='WELL-REFERENCE-POINT O:WELL-REFERENCE',
                 value='VALUE O:CHANNEL*', borehole_depth='BOREHOLE-DEPTH N', vertical_depth='VERTICAL-DEPTH N',
                 radial_drift='RADIAL-DRIFT N', angular_drift='ANGULAR-DRIFT N', time='TIME N',
                 depth_offset='DEPTH-OFFSET N', measure_point_offset='MEASURE-POINT-OFFSET N',
                 tool_zero_offset='TOOL-ZERO-OFFSET N'),
    'PROCESS': dict(description='DESCRIPTION T', trademark_name='TRADEMARK-NAME T', version='VERSION T',
                    properties='PROPERTIES I*', status='STATUS I', input_channels='INPUT-CHANNELS O:CHANNEL*',
                    output_channels='OUTPUT-CHANNELS O:CHANNEL*',
                    input_computations='INPUT-COMPUTATIONS O:COMPUTATION*',
                    output_computations='OUTPUT-COMPUTATIONS O:COMPUTATION*', parameters='PARAMETERS O:PARAMETER*',
                    comments='COMMENTS T*'),
    'SPLICE': dict(output_channel='OUTPUT-CHANNEL O:CHANNEL', input_channels='INPUT-CHANNELS O:CHANNEL*',
                   zones='ZONES O:ZONE*'),
    'TOOL': dict(description='DESCRIPTION T', trademark_name='TRADEMARK-NAME T', generic_name='GENERIC-NAME T',
                 parts='PARTS O:EQUIPMENT*', status='STATUS ST', channels='CHANNELS O:CHANNEL*',
                 parameters='PARAMETERS O:PARAMETER*'),
    'WELL-REFERENCE': dict(permanent_datum='PERMANENT-DATUM T', vertical_zero='VERTICAL-ZERO T',
                           permanent_datum_elevation='PERMANENT-DATUM-ELEVATION N',
                           above_permanent_datum='ABOVE-PERMANENT-DATUM N',
                           magnetic_declination='MAGNETIC-DECLINATION N', coordinate_1_name='COORDINATE-1-NAME T',
                           coordinate_1_value='COORDINATE-1-VALUE N', coordinate_2_name='COORDINATE-2-NAME T',
                           coordinate_2_value='COORDINATE-2-VALUE N', coordinate_3_name='COORDINATE-3-NAME T',
                           coordinate_3_value='COORDINATE-3-VALUE N'),
    'ZONE': dict(description='DESCRIPTION T', domain='DOMAIN I', maximum='MAXIMUM DTN', minimum='MINIMUM DTN'),
}
METHOD = {t: 'add_' + t.lower().replace('-', '_') for t in TABLE}
METHOD['WELL-REFERENCE'] = 'add_well_reference_point'
# python attribute name where it differs from the keyword
PYATTR = {('CALIBRATION-MEASUREMENT', 'measurement_type'): 'type', ('EQUIPMENT', 'eq_type'): '_type',
          ('MESSAGE', 'message_type'): '_type'}
NO_UNITS_KINDS = {'T', 'I', 'ST', 'DIM', 'O', 'OT'}     # attributes for which the API accepts no units

DTYPE_CODE = {'int8': 12, 'int16': 13, 'int32': 14, 'uint8': 15, 'uint16': 16, 'uint32': 17,
              'float32': 2, 'float64': 7}


def spec_of(type_: str, kw: str) -> tuple:
    """(label, kind, target type or None, multivalued, nested)"""
    label, kind = TABLE[type_][kw].split(' ')
    nested = kind.endswith('**')
    multi = kind.endswith('*')
    kind = kind.rstrip('*')
    tgt = None
    if ':' in kind:
        kind, tgt = kind.split(':')
    return label, kind, tgt, multi, nested


@dataclass
class Val:
    """A value as the user assigns it, with units and the assignment route."""
    value: Any = None
    units: Any = None
    route: str = 'kw'     # kw, dict, setup, later
    obj: Any = None       # the very object to pass (several attributes may be given the same one)

    def arg(self):
        from dliswriter import AttrSetup
        if self.obj is not None:
            return self.obj
        if self.route == 'dict':
            d = {}
            if self.value is not None:
                d['value'] = real(self.value)
            if self.units is not None:
                d['units'] = self.units
            return d
        if self.route == 'setup':
            return AttrSetup(value=real(self.value), units=self.units)
        return real(self.value)


class ObjRec:
    def __init__(self, type_, name, set_name, item, lfrec):
        self.type, self.name, self.set_name, self.item, self.lf = type_, name, set_name, item, lfrec
        self.named = name               # as created
        self.attrs: dict = {}           # kw -> Val   (assigned by the user)
        self.origin: Optional[int] = None   # explicit origin reference, None = the defining origin's

    def __repr__(self):
        return f"<{self.type} {self.name!r}>"


def real(v):
    """Replace ObjRec by the dliswriter item in a value."""
    if isinstance(v, ObjRec):
        return v.item
    if isinstance(v, list):
        return [real(x) for x in v]
    if isinstance(v, tuple):
        return tuple(real(x) for x in v)
    return v


class LFRec:
    def __init__(self, scen, lf, header_id, seq, ident):
        self.scen, self.lf, self.header_id, self.seq, self.ident = scen, lf, header_id, seq, ident
        self.objs: list = []
        self.noformat: list = []        # (ObjRec, bytes)
        self.data: dict = {}            # ObjRec(channel) -> ndarray (what the user supplies)
        self.cast: dict = {}            # ObjRec(channel) -> dtype or None
        self.dataset: dict = {}         # ObjRec(channel) -> dataset name

    def of(self, type_):
        return [o for o in self.objs if o.type == type_]

    @property
    def frames(self):
        return self.of('FRAME')

    def add(self, type_, name, set_name=None, origin_reference=None, **attrs):
        """Call add_<type>; attrs values may be raw or Val."""
        vals = {k: (v if isinstance(v, Val) else Val(v)) for k, v in attrs.items()}
        kwargs = {}
        extra = {}
        for k, v in vals.items():
            if v.route != 'later' and not (v.value is None and v.units is None):
                kwargs[k] = v.arg()
        if set_name is not None:
            extra['set_name'] = set_name
        if origin_reference is not None:
            extra['origin_reference'] = origin_reference
        item = getattr(self.lf, METHOD[type_])(name, **kwargs, **extra)
        rec = ObjRec(type_, name, set_name or None, item, self)
        rec.origin = origin_reference
        for k, v in vals.items():
            if v.value is None and v.units is None:
                continue
            rec.attrs[k] = Val(v.value, v.units, v.route)
        for k, v in vals.items():
            if v.route == 'later':
                self.assign(rec, k, v.value, v.units, record=False)
        self.objs.append(rec)
        return rec

    def assign(self, rec, kw, value=None, units=None, record=True):
        attr = getattr(rec.item, PYATTR.get((rec.type, kw), kw))
        if value is not None:
            attr.value = real(value)
        if units is not None:
            attr.units = units
        if record:
            old = rec.attrs.get(kw, Val())
            rec.attrs[kw] = Val(value if value is not None else old.value,
                                units if units is not None else old.units, 'later')

    def channel(self, name, data=None, inline=False, cast=None, dataset_name=None, set_name=None,
                origin_reference=None, **attrs):
        vals = {k: (v if isinstance(v, Val) else Val(v)) for k, v in attrs.items()}
        kwargs = {k: v.arg() for k, v in vals.items() if v.route != 'later' and (v.value is not None or v.units is not None)}
        if set_name is not None:
            kwargs['set_name'] = set_name
        if origin_reference is not None:
            kwargs['origin_reference'] = origin_reference
        if cast is not None:
            kwargs['cast_dtype'] = cast
        if dataset_name is not None:
            kwargs['dataset_name'] = dataset_name
        if inline:
            kwargs['data'] = data
        item = self.lf.add_channel(name, **kwargs)
        rec = ObjRec('CHANNEL', name, set_name or None, item, self)
        rec.origin = origin_reference
        for k, v in vals.items():
            if v.value is not None or v.units is not None:
                rec.attrs[k] = Val(v.value, v.units, v.route)
            if v.route == 'later':
                self.assign(rec, k, v.value, v.units, record=False)
        self.data[rec] = data
        self.cast[rec] = cast
        self.dataset[rec] = item.dataset_name
        self.objs.append(rec)
        return rec

    def nf(self, obj, payload):
        self.lf.add_no_format_frame_data(obj.item, payload)
        self.noformat.append((obj, payload.encode('ascii') if isinstance(payload, str) else bytes(payload)))


class Scenario:
    def __init__(self, set_identifier='MAIN-STORAGE-UNIT', sul_sequence_number=1, max_record_length=8192):
        from dliswriter import DLISFile
        self.sid, self.sul_seq, self.mrl = set_identifier, sul_sequence_number, max_record_length
        self.df = DLISFile(set_identifier=set_identifier, sul_sequence_number=sul_sequence_number,
                           max_record_length=max_record_length)
        self.lfs: list = []

    def lf(self, fh_id='FILE-HEADER', fh_identifier='0', fh_sequence_number=1):
        lf = self.df.add_logical_file(fh_id=fh_id, fh_identifier=fh_identifier,
                                      fh_sequence_number=fh_sequence_number)
        r = LFRec(self, lf, fh_id, fh_sequence_number, fh_identifier)
        self.lfs.append(r)
        return r


# ------------------------------------------------------------------------------------------------ comparison
class Mismatch(Exception):
    """File content differs from the specification.  .aspect names the part."""

    def __init__(self, aspect, msg):
        super().__init__(f"[{aspect}] {msg}")
        self.aspect = aspect


def flat(v):
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            r.extend(flat(x))
        return r
    return [v]


def parse_dt(s: str):
    for f in ("%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S"):
        try:
            return datetime.strptime(s, f)
        except ValueError:
            pass
    return None


def num(v):
    """numeric meaning of a user value (enum/str allowed for the 'number or text' kind)."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float, np.integer, np.floating)):
        return v
    return None


def plain(v):
    """enum member -> its value"""
    import enum
    if isinstance(v, enum.Enum):
        return v.value
    return v


def same_number(user, code, val) -> bool:
    if code in (2, 7):
        try:
            f = float(user)
        except OverflowError:
            return False
        if code == 2:
            with np.errstate(all='ignore'):
                f = float(np.float32(f))
        if math.isnan(f):
            return isinstance(val, float) and math.isnan(val)
        return struct.pack('>d', f) == struct.pack('>d', val) or (f == val == 0 and isinstance(user, int))
    return not isinstance(user, float) and int(user) == val or (isinstance(user, float) and user == val)


def maybe_numeric(s):
    """documented: numeric strings in 'number or text' attributes become numbers"""
    try:
        return float(s) if '.' in s else int(s)
    except ValueError:
        return s


def same_dt(user: datetime, d: rp66.DTime) -> bool:
    u = user.astimezone(timezone.utc)
    return abs(d.to_utc() - u) < timedelta(milliseconds=1)


class Identity:
    """Maps ObjRec -> decoded ObName within one logical file of the parsed file."""

    def __init__(self, lfrec: LFRec, view: rp66.LogicalFileView):
        self.map: dict = {}
        self.objs: dict = {}
        groups: dict = {}
        for o in lfrec.objs:
            groups.setdefault((o.type, o.set_name), []).append(o)
        have = {(e.set_type, e.set_name): e for e in view.eflrs if e.set_type != 'FILE-HEADER'}
        n_sets = len([e for e in view.eflrs if e.set_type != 'FILE-HEADER'])
        if n_sets != len(have):
            raise Mismatch('sets', "a (type, name) set occurs more than once in a logical file")
        if set(have) != set(groups):
            raise Mismatch('sets', f"sets in file {sorted(map(str, have))} differ from the specified {sorted(map(str, groups))}")
        for key, recs in groups.items():
            e = have[key]
            if sorted(o.name.name for o in e.objects) != sorted(r.name for r in recs):
                raise Mismatch('objects', f"objects in set {key}: {[o.name.name for o in e.objects]}, "
                                          f"specified {[r.name for r in recs]}")
            for nm in {r.name for r in recs}:
                rr = [r for r in recs if r.name == nm]
                oo = sorted((o for o in e.objects if o.name.name == nm), key=lambda o: o.name.copy)
                for r, o in zip(rr, oo):
                    self.map[r] = o.name
                    self.objs[r] = o


def check_identity(lfrec: LFRec, view: rp66.LogicalFileView, ident: Identity) -> None:
    """C07: uniqueness, origins, references resolve."""
    origins = view.objects('ORIGIN')
    if not origins:
        raise Mismatch('origin', "no ORIGIN object")
    orefs = [o.name.origin for o in origins]
    if len(set(orefs)) != len(orefs):
        raise Mismatch('origin', f"origin references not unique: {orefs}")
    seen, copies = set(), set()
    renamed = {(r.type, r.name) for r in lfrec.objs if r.name != r.named}
    for e in view.eflrs:
        for o in e.objects:
            k = (e.set_type, o.name.name, o.name.copy)
            if k in copies and k[:2] not in renamed:
                raise Mismatch('identity', f"two objects of type, name and copy number {k}")
            copies.add(k)
            k = (e.set_type, o.name)
            if k in seen:
                raise Mismatch('identity', f"duplicate object identity {k}")
            seen.add(k)
            if o.name.origin not in orefs:
                raise Mismatch('origin', f"{k}: origin {o.name.origin} is not one of {orefs}")
    default = orefs[0]
    for r, n in ident.map.items():
        if r.type == 'ORIGIN':
            if r.origin is not None and n.origin != r.origin:
                raise Mismatch('origin', f"{r}: origin field {n.origin}, user chose {r.origin}")
            continue
        want = r.origin if r.origin is not None else default
        if n.origin != want:
            raise Mismatch('origin', f"{r}: origin field {n.origin}, expected {want}")


def check_attr(lfrec, rec, kw, val: Val, got: Optional[rp66.Attr], ident: Identity, units_only_ok=True) -> None:
    label, kind, tgt, multi, nested = spec_of(rec.type, kw)
    where = f"{rec}.{kw}"
    values = None if val.value is None else flat(val.value) if multi else [val.value]
    if values == []:
        if got is not None:
            raise Mismatch('attribute', f"{where}: empty list, file has {got}")
        return
    if values is None:
        return
    if got is None:
        raise Mismatch('attribute', f"{where} = {val.value!r} is absent in the file")
    if got.count != len(values) or len(got.values) != len(values):
        raise Mismatch('attribute', f"{where}: {len(values)} value(s) given, {got.count} in the file")
    if val.units is not None and got.units != plain(val.units):
        raise Mismatch('units', f"{where}: units {val.units!r}, file has {got.units!r}")
    if val.units is None and got.units is not None and not default_units(rec, kw, got.units):
        raise Mismatch('units', f"{where}: no units given, file has {got.units!r}")
    if kind == 'M':
        values = [maybe_numeric(v) if isinstance(v, str) else v for v in values]
    for u, g in zip(values, got.values):
        u = plain(u)
        ok = False
        if isinstance(u, ObjRec):
            n = ident.map.get(u)
            if n is None:
                raise Mismatch('reference', f"{where}: refers to {u} which is not in this logical file")
            if kind == 'R':
                ok = got.code == rp66.OBJREF and isinstance(g, rp66.ObjRef) and g.type == u.type and g.obname == n
            else:
                ok = got.code == rp66.OBNAME and g == n
            if not ok:
                raise Mismatch('reference', f"{where}: expected reference to {u} = {n}, file has {g!r} (code {got.code})")
            continue
        if kind in ('T', 'I', 'OT') or (kind == 'M' and isinstance(u, str)):
            if kind == 'I' and got.code != rp66.IDENT or kind != 'I' and got.code != rp66.ASCII:
                raise Mismatch('attribute', f"{where}: representation code {got.code}")
            ok = g == u
        elif kind in ('DT', 'DTN') and isinstance(u, (datetime, str)):
            if isinstance(u, str):
                dt = parse_dt(u)
                if dt is None:
                    ok = got.code in rp66.CODE_SIZE and same_number(float(u), got.code, g)
                else:
                    ok = got.code == rp66.DTIME and same_dt(dt, g)
            else:
                ok = got.code == rp66.DTIME and same_dt(u, g)
        elif kind == 'ST':
            ok = got.code == rp66.STATUS and g == int(u)
        elif kind == 'US':
            truth = u.lower() in ('1', 'true', 't', 'yes', 'y') if isinstance(u, str) else u
            ok = got.code == rp66.USHORT and g == int(truth)
        elif kind in ('DIM', 'UV'):
            ok = got.code == rp66.UVARI and g == int(u) == u
        elif kind == 'UN':
            ok = got.code == rp66.UNORM and g == int(u) == u
        else:
            ok = num(u) is not None and got.code in (2, 7, 12, 13, 14, 15, 16, 17, 18) and same_number(num(u), got.code, g)
        if not ok:
            raise Mismatch('attribute', f"{where}: assigned {u!r}, file decodes {g!r} (code {got.code})")


def default_units(rec, kw, units) -> bool:
    """write-time default: index characteristics of an indexed frame take the index channel's units"""
    if rec.type == 'FRAME' and kw in ('index_min', 'index_max', 'spacing') and rec.attrs.get('index_type') is not None:
        u = rec.attrs['channels'].value[0].attrs.get('units')
        return u is not None and plain(u.value) == units
    return False


def check_attributes(lfrec: LFRec, view, ident: Identity, rows: Optional[dict] = None) -> None:
    """C05: assigned attributes equal; unassigned absent except the documented defaults."""
    for rec in lfrec.objs:
        o = ident.objs[rec]
        labels = {spec_of(rec.type, k)[0]: k for k in TABLE[rec.type]}
        if set(o.attrs) != set(labels):
            raise Mismatch('template', f"{rec}: attribute labels {sorted(o.attrs)} differ from the standard's {sorted(labels)}")
        for label, kw in labels.items():
            got = o.attrs[label]
            if kw in rec.attrs and rec.attrs[kw].value is not None:
                check_attr(lfrec, rec, kw, rec.attrs[kw], got, ident)
            elif got is not None:
                check_default(lfrec, rec, label, kw, got, rows)


def check_default(lfrec: LFRec, rec: ObjRec, label, kw, got: rp66.Attr, rows) -> None:
    bad = Mismatch('default', f"{rec}: {label} was never assigned, file has {got.values!r} units {got.units!r}")
    v = got.values
    t = rec.type
    units_given = rec.attrs[kw].units if kw in rec.attrs else None
    if t == 'ORIGIN':
        if label == 'FILE-ID':
            if v == [lfrec.header_id]:
                return
        elif label == 'FIELD-NAME':
            if v == ['WILDCAT']:
                return
        elif label == 'FILE-SET-NUMBER':
            if got.code == rp66.UVARI and len(v) == 1:
                return
        elif label == 'CREATION-TIME':
            if got.code == rp66.DTIME and len(v) == 1:
                if abs(v[0].to_utc() - datetime.now(timezone.utc)) < timedelta(hours=1):
                    return
        raise bad
    if t == 'CHANNEL':
        if label == 'LONG-NAME':
            if v == [rec.name]:
                return
        elif label == 'REPRESENTATION-CODE':
            want = channel_code(lfrec, rec)
            if want is not None and v == [want] or want is None and len(v) == 1:
                return
        elif label in ('DIMENSION', 'ELEMENT-LIMIT'):
            want = channel_dim(lfrec, rec)
            other = rec.attrs.get('element_limit' if label == 'DIMENSION' else 'dimension')
            ov = other.value if other is not None else None
            if want is not None and v == want or ov is not None and v == (list(ov) if isinstance(ov, (list, tuple)) else [ov]):
                return
        raise bad
    if t == 'FRAME':
        if label in ('INDEX-MIN', 'INDEX-MAX', 'SPACING', 'DIRECTION'):
            return                  # decided by C13
        raise bad
    if t in ('PARAMETER', 'COMPUTATION') and label == 'DIMENSION' and rec.attrs.get('values') is not None:
        shape = list(np.array(rec.attrs['values'].value, dtype=object).shape[1:]) \
            if isinstance(rec.attrs['values'].value, (list, tuple)) else []
        if v == (shape or [1]):
            return
        raise bad
    if t == 'CALIBRATION-MEASUREMENT' and label == 'DIMENSION':
        for k in ('maximum_deviation', 'standard_deviation', 'standard', 'plus_tolerance', 'minus_tolerance'):
            a = rec.attrs.get(k)
            if a is not None and a.value is not None:
                shape = list(np.array(a.value).shape[1:]) if isinstance(a.value, (list, tuple)) else []
                if v == shape:
                    return
        raise bad
    raise bad


def in_frame(lfrec, ch) -> bool:
    return any(ch in f.attrs['channels'].value for f in lfrec.frames)


def written_dtype(lfrec, ch):
    d = lfrec.cast.get(ch)
    if d is None:
        a = lfrec.data.get(ch)
        if a is None:
            return None
        d = a.dtype
    return np.dtype(d).newbyteorder('=')


def channel_code(lfrec, ch):
    d = written_dtype(lfrec, ch)
    return None if d is None or (not in_frame(lfrec, ch) and lfrec.cast.get(ch) is None) else DTYPE_CODE[d.name]


def channel_dim(lfrec, ch):
    a = lfrec.data.get(ch)
    if a is None or not in_frame(lfrec, ch):
        return None
    return list(a.shape[1:]) or [1]


def is_big_endian(d) -> bool:
    return np.dtype(d).str.startswith('>')


def expected_rows(lfrec, frame, window=(0, None)):
    """list of bytes: the slots of each row"""
    cols = []
    for ch in frame.attrs['channels'].value:
        a = lfrec.data[ch][window[0]:window[1]]
        d = written_dtype(lfrec, ch)
        with np.errstate(all='ignore'):
            b = np.ascontiguousarray(a)
            if a.dtype.newbyteorder('=') != d:
                b = np.ascontiguousarray(b.astype(d))
            if b.dtype.itemsize > 1 and not is_big_endian(b.dtype):
                b = b.byteswap()                # bit exact, also for signalling NaN
        cols.append(b)
    n = len(cols[0])
    return [b''.join(c[i:i + 1].tobytes() for c in cols) for i in range(n)]


def check_frames(lfrec: LFRec, view, ident: Identity, window=(0, None)) -> None:
    """C03/C08/C18: rows of each frame."""
    by_ref: dict = {}
    for r in view.iflrs:
        if r.type == 0:
            by_ref.setdefault(r.ref, []).append(r)
    want_refs = set()
    for fr in lfrec.frames:
        n = ident.map[fr]
        want_refs.add(n)
        rows = expected_rows(lfrec, fr, window)
        got = by_ref.get(n, [])
        if len(got) != len(rows):
            raise Mismatch('rows', f"{fr}: {len(got)} records in file, {len(rows)} rows supplied")
        size = None
        o = ident.objs[fr]
        if o.attrs['CHANNELS'] is not None:
            chs = {ident.map[c]: ident.objs[c] for c in lfrec.of('CHANNEL')}
            size = 0
            for ref in o.attrs['CHANNELS'].values:
                c = chs.get(ref)
                if c is None:
                    raise Mismatch('reference', f"{fr}: channel {ref} is not in the logical file")
                rc, dim = c.attrs['REPRESENTATION-CODE'], c.attrs['DIMENSION']
                if rc is None or dim is None:
                    raise Mismatch('descriptor', f"{fr}: channel {ref} has no representation code or dimension")
                k = 1
                for d in dim.values:
                    k *= d
                size += rp66.CODE_SIZE.get(rc.values[0], 0) * k
        for i, (g, w) in enumerate(zip(got, rows)):
            if g.frame_number != i + 1:
                raise Mismatch('frame number', f"{fr}: record {i} has frame number {g.frame_number}")
            if size is not None and len(g.payload) != size:
                raise Mismatch('descriptor', f"{fr} row {i}: {len(g.payload)} bytes, channel descriptors say {size}")
            if g.payload != w:
                raise Mismatch('rows', f"{fr} row {i}: slots {g.payload.hex()[:200]} != input {w.hex()[:200]}")
    extra = set(by_ref) - want_refs
    if extra:
        raise Mismatch('rows', f"frame data for unknown frame(s) {extra}")


def check_descriptors(lfrec: LFRec, view, ident: Identity) -> None:
    """C08"""
    for fr in lfrec.frames:
        o = ident.objs[fr]
        want = [ident.map[c] for c in fr.attrs['channels'].value]
        if o.attrs['CHANNELS'] is None or o.attrs['CHANNELS'].values != want:
            raise Mismatch('descriptor', f"{fr}: channel list in file {o.attrs['CHANNELS']}, specified {want}")
        for c in fr.attrs['channels'].value:
            co = ident.objs[c]
            rc, dim, el = co.attrs['REPRESENTATION-CODE'], co.attrs['DIMENSION'], co.attrs['ELEMENT-LIMIT']
            if rc is None or rc.values != [channel_code(lfrec, c)]:
                raise Mismatch('descriptor', f"{c}: representation code {rc}, dtype written {written_dtype(lfrec, c)}")
            if dim is None or dim.values != channel_dim(lfrec, c):
                raise Mismatch('descriptor', f"{c}: DIMENSION {dim}, per-row shape {channel_dim(lfrec, c)}")
            if el is None or len(el.values) < len(dim.values) or any(e < d for e, d in zip(el.values, dim.values)):
                raise Mismatch('descriptor', f"{c}: ELEMENT-LIMIT {el} does not bound DIMENSION {dim.values}")


def check_noformat(lfrec: LFRec, view, ident: Identity) -> None:
    """C16"""
    got = [r for r in view.iflrs if r.type == 1]
    want = [(ident.map[o], p) for o, p in lfrec.noformat]
    if len(got) != len(want):
        raise Mismatch('no-format', f"{len(got)} no-format records in file, {len(want)} added")
    for i, (g, (n, p)) in enumerate(zip(got, want)):
        if g.ref != n:
            raise Mismatch('no-format', f"record {i} refers to {g.ref}, expected {n}")
        if g.payload != p:
            raise Mismatch('no-format', f"record {i}: payload {g.payload[:60]!r} ({len(g.payload)} bytes) != "
                                        f"supplied {p[:60]!r} ({len(p)} bytes)")


def check_order(lfrec: LFRec, view) -> None:
    """C09"""
    it = view.items
    if not it or getattr(it[0], 'set_type', None) != 'FILE-HEADER':
        raise Mismatch('order', "logical file does not start with FILE-HEADER")
    h = it[0]
    if len(h.objects) != 1:
        raise Mismatch('header', f"{len(h.objects)} objects in FILE-HEADER")
    a = h.objects[0].attrs
    if h.template != ['SEQUENCE-NUMBER', 'ID'] or any(x is None or x.code != rp66.ASCII or x.count != 1 for x in a.values()):
        raise Mismatch('header', f"bad FILE-HEADER template/attributes {h.template} {a}")
    if a['SEQUENCE-NUMBER'].values != [str(lfrec.seq).rjust(10)]:
        raise Mismatch('header', f"SEQUENCE-NUMBER {a['SEQUENCE-NUMBER'].values}, user's number {lfrec.seq}")
    if a['ID'].values != [lfrec.header_id.ljust(65)]:
        raise Mismatch('header', f"ID {a['ID'].values!r}, user's id {lfrec.header_id!r}")
    if h.objects[0].name.name != lfrec.ident:
        raise Mismatch('header', f"header object named {h.objects[0].name.name!r}, expected {lfrec.ident!r}")
    types = [getattr(x, 'set_type', None) for x in it]
    n_or = types.count('ORIGIN')
    if n_or == 0 or types[1:1 + n_or] != ['ORIGIN'] * n_or:
        raise Mismatch('order', f"ORIGIN sets do not directly follow the header: {types[:6]}")
    do = it[1].objects[0]
    if do.attrs['FILE-ID'] is None or do.attrs['FILE-ID'].values != [lfrec.header_id]:
        raise Mismatch('order', f"defining origin FILE-ID {do.attrs['FILE-ID']} != header id {lfrec.header_id!r}")
    if do.attrs['FILE-SET-NUMBER'] is None:
        raise Mismatch('order', "FILE-SET-NUMBER absent in the defining origin")
    first = lfrec.of('ORIGIN')[0]
    if do.name.name != first.name or (it[1].set_name or None) != first.set_name:
        raise Mismatch('order', f"first ORIGIN object is {do.name.name!r}, defining origin is {first.name!r}")
    seen = set()
    defined = {'FRAME': set(), 'NO-FORMAT': set(), 'CHANNEL': set()}
    fr_ch = {}
    for x in it:
        if isinstance(x, rp66.EFLR):
            k = (x.set_type, x.set_name)
            if k in seen:
                raise Mismatch('order', f"set {k} occurs twice")
            seen.add(k)
            if x.set_type in defined:
                for o in x.objects:
                    defined[x.set_type].add(o.name)
                    if x.set_type == 'FRAME':
                        fr_ch[o.name] = o.attrs['CHANNELS'].values if o.attrs['CHANNELS'] else []
        else:
            t = 'FRAME' if x.type == 0 else 'NO-FORMAT'
            if x.ref not in defined[t]:
                raise Mismatch('order', f"IFLR refers to {t} {x.ref} not defined before it")
            if t == 'FRAME':
                for c in fr_ch[x.ref]:
                    if c not in defined['CHANNEL']:
                        raise Mismatch('order', f"frame data before the definition of channel {c}")


def exact_spacing(idx):
    d = idx.dtype
    if d.kind in 'iu':
        return np.diff(idx.astype(np.int64)).astype(object)
    with np.errstate(all='ignore'):
        return np.diff(idx)


def check_index(lfrec: LFRec, view, ident: Identity, window=(0, None)) -> None:
    """C13"""
    for fr in lfrec.frames:
        o = ident.objs[fr]
        a = {k: o.attrs[k] for k in ('INDEX-MIN', 'INDEX-MAX', 'SPACING', 'DIRECTION')}
        user = {k: fr.attrs[kw] for k, kw in (('INDEX-MIN', 'index_min'), ('INDEX-MAX', 'index_max'),
                                              ('SPACING', 'spacing'), ('DIRECTION', 'direction'))
                if kw in fr.attrs and fr.attrs[kw].value is not None}
        for k, v in user.items():
            kw = k.lower().replace('-', '_')
            if a[k] is None:
                raise Mismatch('index', f"{fr}: {k} supplied by the user is absent")
            g = a[k].values
            ok = g == [plain(v.value)] if k == 'DIRECTION' else len(g) == 1 and same_number(v.value, a[k].code, g[0])
            if not ok:
                raise Mismatch('index', f"{fr}: {k} supplied as {v.value!r}, file has {g}")
        ch0 = fr.attrs['channels'].value[0]
        with np.errstate(all='ignore'):
            idx = lfrec.data[ch0][window[0]:window[1]].astype(written_dtype(lfrec, ch0))
        it = fr.attrs.get('index_type')
        if it is None or it.value is None:
            for k, w in (('INDEX-MIN', 1), ('INDEX-MAX', len(idx))):
                if k not in user and (a[k] is None or a[k].values != [w]):
                    raise Mismatch('index', f"{fr} without index type: {k} {a[k]}, expected {w}")
            continue
        if idx.ndim != 1:
            continue
        for k, w in (('INDEX-MIN', idx.min()), ('INDEX-MAX', idx.max())):
            if k in user:
                continue
            if a[k] is None or len(a[k].values) != 1 or not same_number(w.item(), a[k].code, a[k].values[0]):
                raise Mismatch('index', f"{fr}: {k} {a[k]}, rows written have {w!r}")
        diff = exact_spacing(idx)
        fin = [float(x) for x in diff]
        if len(fin) == 0:
            for k in ('SPACING', 'DIRECTION'):
                if k not in user and a[k] is not None:
                    raise Mismatch('index', f"{fr}: {k} {a[k].values} for a single row")
            continue
        uniq = set(fin)
        finite = all(math.isfinite(x) for x in fin)
        med = float(np.median(np.array(fin))) if finite else float('nan')
        if not finite:
            uniform = False
        elif len(uniq) == 1:
            uniform = True
        elif med == 0:
            uniform = False
        else:
            dev = [(1 - x / med) ** 2 for x in uniq]
            uniform = None if any(0.00099 < x < 0.00101 for x in dev) else all(x < 0.001 for x in dev)
        if 'SPACING' not in user:
            if uniform is False and a['SPACING'] is not None:
                raise Mismatch('index', f"{fr}: SPACING {a['SPACING'].values} although differences are not uniform")
            if uniform is True:
                if a['SPACING'] is None:
                    raise Mismatch('index', f"{fr}: SPACING absent although differences are uniform ({fin[0]})")
                s = a['SPACING'].values[0]
                if len(uniq) == 1 and float(s) != fin[0] or not (min(fin) <= s <= max(fin)):
                    raise Mismatch('index', f"{fr}: SPACING {s}, differences {sorted(uniq)[:4]}")
        if 'DIRECTION' not in user and a['SPACING'] is None and uniform is False:
            pos, neg = any(x > 0 for x in fin), any(x < 0 for x in fin)
            nan = any(math.isnan(x) for x in fin)
            want = None if nan or pos == neg else 'INCREASING' if pos else 'DECREASING'
            got = a['DIRECTION'].values[0] if a['DIRECTION'] is not None else None
            if got != want:
                raise Mismatch('index', f"{fr}: DIRECTION {got}, index is {want}")
        if 'DIRECTION' not in user and a['DIRECTION'] is not None and a['SPACING'] is not None:
            pos, neg = any(x > 0 for x in fin), any(x < 0 for x in fin)
            if a['DIRECTION'].values != ['INCREASING' if pos else 'DECREASING'] or pos and neg:
                raise Mismatch('index', f"{fr}: DIRECTION {a['DIRECTION'].values} contradicts the data")


def check_label(scen: Scenario, st: rp66.Storage) -> None:
    want = f"{scen.sul_seq:>4}V1.00RECORD{scen.mrl:>5}{scen.sid:<60}".encode()
    if st.label.raw != want:
        raise Mismatch('label', f"label {st.label.raw!r}, expected {want!r}")


ALL = ('label', 'order', 'identity', 'attributes', 'descriptors', 'frames', 'noformat', 'index')


def compare(scen: Scenario, data: bytes, window=(0, None), parts=ALL) -> rp66.FileView:
    """Parse data strictly and compare it with the scenario. Raises RP66Error or Mismatch."""
    fv = rp66.parse_file(data)
    if 'label' in parts:
        check_label(scen, fv.storage)
    if len(fv.logical_files) != len(scen.lfs):
        raise Mismatch('logical files', f"{len(fv.logical_files)} logical files in file, {len(scen.lfs)} specified")
    for r, v in zip(scen.lfs, fv.logical_files):
        ident = Identity(r, v)
        if 'order' in parts:
            check_order(r, v)
        if 'identity' in parts:
            check_identity(r, v, ident)
        if 'attributes' in parts:
            check_attributes(r, v, ident)
        if 'descriptors' in parts:
            check_descriptors(r, v, ident)
        if 'frames' in parts:
            check_frames(r, v, ident, window)
        if 'noformat' in parts:
            check_noformat(r, v, ident)
        if 'index' in parts:
            check_index(r, v, ident, window)
    return fv
