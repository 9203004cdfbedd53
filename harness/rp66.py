"""Independent strict RP66 V1 reader (framing, segments, component grammar, IFLR heads).

Written from the standard; imports nothing from dliswriter.  Every deviation raises RP66Error.
"""
from __future__ import annotations
import struct
from dataclasses import dataclass, field
from datetime import datetime, timezone
from typing import Any, Optional


class RP66Error(Exception):
    """The bytes are not a well-formed RP66 V1 storage unit."""


# ---------------------------------------------------------------- primitive values
class Cur:
    """Cursor over bytes with strict bounds."""

    def __init__(self, b: bytes, pos: int = 0, end: Optional[int] = None):
        self.b, self.pos, self.end = b, pos, len(b) if end is None else end

    def take(self, n: int) -> bytes:
        if n < 0 or self.pos + n > self.end:
            raise RP66Error(f"needed {n} bytes at {self.pos}, only {self.end - self.pos} left")
        r = bytes(self.b[self.pos:self.pos + n])
        self.pos += n
        return r

    def peek(self) -> int:
        if self.pos >= self.end:
            raise RP66Error(f"needed a byte at {self.pos}, none left")
        return self.b[self.pos]

    @property
    def left(self) -> int:
        return self.end - self.pos


@dataclass(frozen=True)
class ObName:
    origin: int
    copy: int
    name: str


@dataclass(frozen=True)
class ObjRef:
    type: str
    obname: ObName


@dataclass(frozen=True)
class DTime:
    year: int
    tz: int
    month: int
    day: int
    hour: int
    minute: int
    second: int
    ms: int

    def to_utc(self) -> datetime:
        if self.tz != 2:
            raise RP66Error(f"time zone code {self.tz} is not GMT")
        return datetime(self.year, self.month, self.day, self.hour, self.minute, self.second,
                        self.ms * 1000, tzinfo=timezone.utc)


def ascii_str(b: bytes) -> str:
    try:
        return b.decode('ascii')
    except UnicodeDecodeError:
        raise RP66Error(f"non-ASCII bytes in text: {b!r}")


def d_uvari(c: Cur) -> int:
    b0 = c.peek()
    if b0 < 0x80:
        return c.take(1)[0]
    if b0 < 0xC0:
        v = struct.unpack('>H', c.take(2))[0] & 0x3FFF
        if v < 128:
            raise RP66Error(f"UVARI {v} is not in its shortest form")
        return v
    v = struct.unpack('>I', c.take(4))[0] & 0x3FFFFFFF
    if v < 16384:
        raise RP66Error(f"UVARI {v} is not in its shortest form")
    return v


def d_ident(c: Cur) -> str:
    return ascii_str(c.take(c.take(1)[0]))


def d_ascii(c: Cur) -> str:
    return ascii_str(c.take(d_uvari(c)))


def d_obname(c: Cur) -> ObName:
    o = d_uvari(c)
    n = c.take(1)[0]
    return ObName(o, n, d_ident(c))


def d_objref(c: Cur) -> ObjRef:
    t = d_ident(c)
    return ObjRef(t, d_obname(c))


def d_dtime(c: Cur) -> DTime:
    y, tm, d, h, mn, s, ms = struct.unpack('>BBBBBBH', c.take(8))
    v = DTime(1900 + y, tm >> 4, tm & 15, d, h, mn, s, ms)
    if v.tz > 2 or not 1 <= v.month <= 12 or not 1 <= d <= 31 or h > 23 or mn > 59 or s > 59 or ms > 999:
        raise RP66Error(f"DTIME field out of range: {v}")
    return v


def d_status(c: Cur) -> int:
    v = c.take(1)[0]
    if v > 1:
        raise RP66Error(f"STATUS must be 0 or 1, got {v}")
    return v


def _st(fmt: str):
    s = struct.Struct(fmt)

    def d(c: Cur) -> Any:
        v = s.unpack(c.take(s.size))
        return v[0] if len(v) == 1 else v
    return d


FSHORT, FSINGL, FDOUBL, SSHORT, SNORM, SLONG, USHORT, UNORM, ULONG, UVARI, IDENT, ASCII, DTIME, ORIGIN, OBNAME, \
    OBJREF, ATTREF, STATUS, UNITS = 1, 2, 7, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27

DEC = {1: _st('>H'), 2: _st('>f'), 3: _st('>ff'), 4: _st('>fff'), 5: _st('>I'), 6: _st('>I'), 7: _st('>d'),
       8: _st('>dd'), 9: _st('>ddd'), 10: _st('>ff'), 11: _st('>dd'), 12: _st('>b'), 13: _st('>h'),
       14: _st('>i'), 15: _st('>B'), 16: _st('>H'), 17: _st('>I'), 18: d_uvari, 19: d_ident, 20: d_ascii,
       21: d_dtime, 22: d_uvari, 23: d_obname, 24: d_objref, 26: d_status, 27: d_ident,
       25: lambda c: (d_ident(c), d_obname(c), d_ident(c))}

CODE_SIZE = {FSINGL: 4, FDOUBL: 8, SSHORT: 1, SNORM: 2, SLONG: 4, USHORT: 1, UNORM: 2, ULONG: 4}


# ---------------------------------------------------------------- physical level
@dataclass
class Segment:
    offset: int
    length: int
    attrs: int
    type: int
    body: bytes        # without padding
    pad: int


@dataclass
class LogicalRecord:
    index: int
    eflr: bool
    type: int
    body: bytes
    segments: list


@dataclass
class StorageLabel:
    sequence_number: int
    max_record_length: int
    set_identifier: str
    raw: bytes


@dataclass
class Storage:
    label: StorageLabel
    vr_bounds: list
    records: list


def parse_label(b: bytes) -> StorageLabel:
    if len(b) < 80:
        raise RP66Error(f"file shorter than the 80-byte label ({len(b)})")
    raw = bytes(b[:80])
    s = ascii_str(raw)
    if s[4:9] != 'V1.00' or s[9:15] != 'RECORD':
        raise RP66Error(f"bad version/structure field in label: {s[:20]!r}")
    for nm, f in (('sequence number', s[:4]), ('maximum record length', s[15:20])):
        t = f.lstrip(' ')
        if not t.isdigit():
            raise RP66Error(f"label {nm} is not right-justified digits: {f!r}")
    seq, mrl = int(s[:4]), int(s[15:20])
    if seq < 1:
        raise RP66Error(f"label sequence number {seq} is not positive")
    return StorageLabel(seq, mrl, s[20:80], raw)


def parse_storage(b: bytes) -> Storage:
    lab = parse_label(b)
    mrl = lab.max_record_length
    if mrl < 20 or mrl > 16384:
        raise RP66Error(f"maximum record length {mrl} outside 20..16384")
    pos, n = 80, len(b)
    bounds, records = [80], []
    cur: Optional[list] = None
    while pos < n:
        if n - pos < 4:
            raise RP66Error(f"{n - pos} stray bytes at end of file")
        ln = struct.unpack('>H', b[pos:pos + 2])[0]
        if b[pos + 2] != 0xFF or b[pos + 3] != 1:
            raise RP66Error(f"visible record at {pos}: bad format marker {b[pos+2:pos+4].hex()}")
        if ln % 2 or ln < 20 or ln > mrl:
            raise RP66Error(f"visible record at {pos}: bad length {ln} (max {mrl})")
        if pos + ln > n:
            raise RP66Error(f"visible record at {pos} runs past end of file")
        p, e = pos + 4, pos + ln
        while p < e:
            if e - p < 16:
                raise RP66Error(f"visible record at {pos}: {e - p} bytes left, too few for a segment")
            sl, at, ty = struct.unpack('>HBB', b[p:p + 4])
            if sl % 2 or sl < 16:
                raise RP66Error(f"segment at {p}: bad length {sl}")
            if p + sl > e:
                raise RP66Error(f"segment at {p} (length {sl}) overruns its visible record ending at {e}")
            if at & 0b00011110:
                raise RP66Error(f"segment at {p}: encryption/checksum/trailing-length bits set ({at:08b})")
            body = bytes(b[p + 4:p + sl])
            pad = 0
            if at & 1:
                pad = body[-1]
                if pad < 1 or pad > len(body):
                    raise RP66Error(f"segment at {p}: pad count {pad} does not fit body of {len(body)}")
                body = body[:-pad]
            seg = Segment(p, sl, at, ty, body, pad)
            first, last = not at & 0x40, not at & 0x20
            if first:
                if cur is not None:
                    raise RP66Error(f"segment at {p} starts a record while another is open")
                cur = [seg]
            else:
                if cur is None:
                    raise RP66Error(f"segment at {p} has predecessor flag but no record is open")
                if (cur[0].attrs & 0x80) != (at & 0x80) or cur[0].type != ty:
                    raise RP66Error(f"segment at {p}: flag/type differ from the first segment")
                cur.append(seg)
            if last:
                records.append(LogicalRecord(len(records), bool(at & 0x80), ty,
                                             b''.join(s.body for s in cur), cur))
                cur = None
            p += sl
        pos = e
        bounds.append(pos)
    if cur is not None:
        raise RP66Error("last logical record is not terminated")
    return Storage(lab, bounds, records)


# ---------------------------------------------------------------- EFLR components
@dataclass
class Attr:
    label: str
    count: int
    code: int
    units: Optional[str]
    values: list
    raw: bytes = b''


@dataclass
class Obj:
    name: ObName
    attrs: dict            # label -> Attr or None (absent)


@dataclass
class EFLR:
    set_type: str
    set_name: Optional[str]
    template: list         # labels
    objects: list
    lr_type: int = -1
    index: int = -1

    def by_name(self, name: str) -> list:
        return [o for o in self.objects if o.name.name == name]


def _characteristics(c: Cur, comp: int, dflt: Optional[dict], label_allowed: bool) -> dict:
    """Read the fields announced by an attribute component descriptor."""
    d: dict = {'label': None, 'count': 1, 'code': IDENT, 'units': None, 'values': None}
    if dflt:
        d.update(count=dflt['count'], code=dflt['code'], units=dflt['units'], values=dflt['values'])
    if comp & 0x10:
        if not label_allowed:
            raise RP66Error("label inside an object's attribute component")
        d['label'] = d_ident(c)
    if comp & 0x08:
        d['count'] = d_uvari(c)
    if comp & 0x04:
        d['code'] = c.take(1)[0]
    if d['code'] not in DEC:
        raise RP66Error(f"undefined representation code {d['code']}")
    if comp & 0x02:
        d['units'] = d_ident(c)
    if comp & 0x01:
        start = c.pos
        d['values'] = [DEC[d['code']](c) for _ in range(d['count'])]
        d['raw'] = bytes(c.b[start:c.pos])
    return d


def parse_eflr(body: bytes) -> EFLR:
    c = Cur(body)
    s = c.take(1)[0]
    if s not in (0xF0, 0xF8):
        raise RP66Error(f"first component is not a set with a type: {s:#x}")
    set_type = d_ident(c)
    if not set_type:
        raise RP66Error("empty set type")
    set_name = d_ident(c) if s & 8 else None
    if set_name == '':
        raise RP66Error("set component announces a name but the name is empty")
    template: list = []
    while c.left and (c.peek() >> 5) in (0b001, 0b010):
        comp = c.take(1)[0]
        if comp >> 5 == 0b010:
            raise RP66Error("invariant attribute component (never used by this writer)")
        if not comp & 0x10:
            raise RP66Error("template attribute without a label")
        d = _characteristics(c, comp, None, True)
        if not d['label']:
            raise RP66Error("template attribute with empty label")
        if d['label'] in [t['label'] for t in template]:
            raise RP66Error(f"duplicate template label {d['label']}")
        template.append(d)
    if not template:
        raise RP66Error("empty template")
    objects = []
    while c.left:
        comp = c.take(1)[0]
        if comp != 0x70:
            raise RP66Error(f"expected an object component, got {comp:#x}")
        name = d_obname(c)
        attrs: dict = {t['label']: None for t in template}
        i = 0
        while c.left and (c.peek() >> 5) in (0b000, 0b001):
            comp = c.take(1)[0]
            if i >= len(template):
                raise RP66Error(f"object {name} has more attributes than the template")
            t = template[i]
            i += 1
            if comp >> 5 == 0:
                if comp != 0:
                    raise RP66Error(f"absent attribute with characteristic bits {comp:#x}")
                continue
            d = _characteristics(c, comp, t, False)
            if d['values'] is None:
                if d['count'] == 0:
                    continue        # RP66: count 0 = absent value
                raise RP66Error(f"attribute {t['label']} of {name}: announced {d['count']} value(s), none present")
            if len(d['values']) != d['count']:
                raise RP66Error(f"attribute {t['label']} of {name}: {len(d['values'])} values, count {d['count']}")
            if d['count'] == 0:
                continue
            attrs[t['label']] = Attr(t['label'], d['count'], d['code'], d['units'], d['values'], d.get('raw', b''))
        for t in template[i:]:      # trailing ones left out: template defaults (none with values here)
            if t['values'] is not None:
                attrs[t['label']] = Attr(t['label'], t['count'], t['code'], t['units'], t['values'])
        objects.append(Obj(name, attrs))
    if not objects:
        raise RP66Error(f"set {set_type} has no objects")
    return EFLR(set_type, set_name, [t['label'] for t in template], objects)


# ---------------------------------------------------------------- logical files
@dataclass
class IFLR:
    type: int
    ref: ObName
    payload: bytes
    index: int
    frame_number: Optional[int] = None


@dataclass
class LogicalFileView:
    items: list = field(default_factory=list)     # EFLR / IFLR in order

    @property
    def eflrs(self) -> list:
        return [i for i in self.items if isinstance(i, EFLR)]

    @property
    def iflrs(self) -> list:
        return [i for i in self.items if isinstance(i, IFLR)]

    def sets(self, set_type: str) -> list:
        return [e for e in self.eflrs if e.set_type == set_type]

    def objects(self, set_type: str) -> list:
        return [o for e in self.sets(set_type) for o in e.objects]


SET_TYPE_TO_LR = {
    'FILE-HEADER': 0, 'ORIGIN': 1, 'WELL-REFERENCE': 1, 'AXIS': 2, 'CHANNEL': 3, 'FRAME': 4, 'PATH': 4,
    'CALIBRATION': 5, 'CALIBRATION-COEFFICIENT': 5, 'CALIBRATION-MEASUREMENT': 5, 'COMPUTATION': 5,
    'EQUIPMENT': 5, 'GROUP': 5, 'PARAMETER': 5, 'PROCESS': 5, 'SPLICE': 5, 'TOOL': 5, 'ZONE': 5,
    'COMMENT': 6, 'MESSAGE': 6, 'NO-FORMAT': 8, 'LONG-NAME': 9}


def parse_iflr(lr: LogicalRecord) -> IFLR:
    c = Cur(lr.body)
    ref = d_obname(c)
    if lr.type == 0:
        fn = d_uvari(c)
        return IFLR(0, ref, bytes(lr.body[c.pos:]), lr.index, fn)
    if lr.type == 1:
        return IFLR(1, ref, bytes(lr.body[c.pos:]), lr.index)
    raise RP66Error(f"unknown IFLR type {lr.type}")


@dataclass
class FileView:
    storage: Storage
    logical_files: list


def parse_file(b: bytes) -> FileView:
    st = parse_storage(b)
    lfs: list = []
    for lr in st.records:
        if lr.eflr:
            e = parse_eflr(lr.body)
            e.lr_type, e.index = lr.type, lr.index
            if SET_TYPE_TO_LR.get(e.set_type) != lr.type:
                raise RP66Error(f"set {e.set_type} in a record of type {lr.type}")
            if e.set_type == 'FILE-HEADER':
                lfs.append(LogicalFileView())
            if not lfs:
                raise RP66Error("first record is not a FILE-HEADER")
            lfs[-1].items.append(e)
        else:
            if not lfs:
                raise RP66Error("IFLR before any FILE-HEADER")
            lfs[-1].items.append(parse_iflr(lr))
    return FileView(st, lfs)
