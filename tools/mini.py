# --- small helpers shared by the demonstrations (copied into each) ---
import os, sys, tempfile, logging, contextlib, io
logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True
import numpy as np
import dliswriter
from dliswriter import DLISFile, enums, AttrSetup, high_compatibility_mode
TMP = tempfile.mkdtemp(prefix='dliswriter_demo_')
import atexit, shutil
atexit.register(shutil.rmtree, TMP, True)


def new(mrl=8192, header='HEADER', set_identifier='SET', seq=1):
    df = DLISFile(max_record_length=mrl, set_identifier=set_identifier)
    lf = df.add_logical_file(fh_id=header, fh_sequence_number=seq)
    lf.add_origin('ORIGIN', file_set_number=1, creation_time='2020/01/01 00:00:00')
    return df, lf


def write(df, name='a.dlis', **kw):
    p = os.path.join(TMP, name)
    kw.setdefault('output_chunk_size', 1 << 16)
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        df.write(p, **kw)
    return open(p, 'rb').read()


def records(b):
    """[(is_eflr, type, body)], strict about flags"""
    out, pos, cur = [], 80, None
    while pos < len(b):
        n = int.from_bytes(b[pos:pos + 2], 'big')
        assert b[pos + 2:pos + 4] == b'\xff\x01' and n % 2 == 0 and n >= 20, 'bad visible record'
        q, end = pos + 4, pos + n
        assert end <= len(b), 'truncated'
        while q < end:
            m = int.from_bytes(b[q:q + 2], 'big')
            at, ty = b[q + 2], b[q + 3]
            assert m >= 16 and m % 2 == 0 and q + m <= end, 'bad segment'
            body = b[q + 4:q + m]
            if at & 1:
                assert 1 <= body[-1] <= len(body), 'bad pad count'
                body = body[:-body[-1]]
            if at & 0x40:
                assert cur is not None and cur[:2] == [at & 0x80, ty], 'unexpected predecessor flag'
                cur[2] += body
            else:
                assert cur is None, 'missing predecessor flag'
                cur = [at & 0x80, ty, body]
            if not at & 0x20:
                out.append((bool(cur[0]), cur[1], cur[2]))
                cur = None
            q += m
        pos = end
    assert cur is None, 'unfinished record'
    return out


def uvari(b, i):
    if b[i] < 0x80:
        return b[i], i + 1
    if b[i] < 0xc0:
        return int.from_bytes(b[i:i + 2], 'big') & 0x3fff, i + 2
    return int.from_bytes(b[i:i + 4], 'big') & 0x3fffffff, i + 4


def obname(b, i):
    o, i = uvari(b, i)
    c = b[i]
    n = b[i + 1]
    return (o, c, b[i + 2:i + 2 + n].decode('ascii')), i + 2 + n


def iflrs(b):
    """[(type, reference, rest)]"""
    out = []
    for e, t, body in records(b):
        if not e:
            r, i = obname(body, 0)
            out.append((t, r, body[i:]))
    return out


def rows(b, frame):
    out = []
    for t, r, rest in iflrs(b):
        if t == 0 and r[2] == frame:
            n, i = uvari(rest, 0)
            out.append((n, rest[i:]))
    return out


def decode_value(code, b, i):
    import struct
    fixed = {2: '>f', 7: '>d', 12: '>b', 13: '>h', 14: '>i', 15: '>B', 16: '>H', 17: '>I', 26: '>B'}
    if code in fixed:
        k = struct.calcsize(fixed[code])
        assert i + k <= len(b)
        return struct.unpack(fixed[code], b[i:i + k])[0], i + k
    if code == 18:
        return uvari(b, i)
    if code == 19:
        n = b[i]
        assert i + 1 + n <= len(b)
        return b[i + 1:i + 1 + n].decode('ascii'), i + 1 + n
    if code == 20:
        n, i = uvari(b, i)
        assert i + n <= len(b)
        return b[i:i + n].decode('ascii'), i + n
    if code == 21:
        v = (1900 + b[i], b[i + 1] >> 4, b[i + 1] & 15, *b[i + 2:i + 6], int.from_bytes(b[i + 6:i + 8], 'big'))
        return v, i + 8
    if code == 23:
        return obname(b, i)
    if code == 24:
        t, i = decode_value(19, b, i)
        o, i = obname(b, i)
        return (t, *o), i
    raise AssertionError(f'code {code}')


def parse_set(b):
    """(type, name, [(obname, {label: None | (code, units, [values])})])"""
    d = b[0]
    assert d >> 5 == 7, 'no set component'
    ty, i = decode_value(19, b, 1)
    name = None
    if d & 8:
        name, i = decode_value(19, b, i)
    tmpl = []
    def attr(i, base):
        d = b[i]
        assert d >> 5 in (0, 1), f'unexpected component {d:#x}'
        if d >> 5 == 0:
            return None, i + 1
        lab, cnt, code, units, vals = base
        i += 1
        if d & 16:
            lab, i = decode_value(19, b, i)
        if d & 8:
            cnt, i = uvari(b, i)
        if d & 4:
            code = b[i]; i += 1
        if d & 2:
            units, i = decode_value(19, b, i)
        if d & 1:
            vals = []
            for _ in range(cnt):
                v, i = decode_value(code, b, i)
                vals.append(v)
        return (lab, cnt, code, units, vals), i
    while i < len(b) and b[i] >> 5 == 1:
        a, i = attr(i, (None, 1, 19, None, None))
        tmpl.append(a)
    objs = []
    while i < len(b):
        assert b[i] >> 5 == 3, f'expected an object, found {b[i]:#x}'
        o, i = obname(b, i + 1)
        at = {t[0]: (None if t[4] is None else (t[2], t[3], t[4])) for t in tmpl}
        k = 0
        while i < len(b) and b[i] >> 5 in (0, 1):
            a, i = attr(i, tmpl[k])
            at[tmpl[k][0]] = None if a is None else (a[2], a[3], a[4])
            k += 1
        objs.append((o, at))
    return ty, name, objs


def sets(b):
    return [parse_set(body) for e, t, body in records(b) if e]


def obj(b, ty, name):
    for t, _, objs in sets(b):
        if t == ty:
            for o, a in objs:
                if o[2] == name:
                    return a
    raise AssertionError(f'no {ty} {name}')


def check(cond, msg):
    if not cond:
        print('BROKEN:', msg)
        sys.exit(1)
# --- end of helpers ---
