"""Random valid specifications (driven through the public API of dliswriter) and a write helper."""
from __future__ import annotations
import os
import random
import string
from datetime import datetime, timedelta, timezone

import numpy as np

from .model import Scenario, Val, TABLE, spec_of

DTYPES = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64']
UNITS = ['m', 's', 'ft', 'in', 'degC', 'gAPI', 'ohm', 'A', 'kg', 'mV', 'us', 'um', 'bar', 'V']
PRINTABLE = ''.join(chr(c) for c in range(0x20, 0x7f))
HCCH = string.ascii_uppercase + string.digits + '_-'
EQ_TYPES = ['Adapter', 'Cable', 'Tool', 'Sonde', 'Pad', 'Joint', 'Skid']
EQ_LOC = ['Logging-System', 'Remote', 'Rig', 'Well']
IDX_TYPES = ['ANGULAR-DRIFT', 'BOREHOLE-DEPTH', 'NON-STANDARD', 'RADIAL-DRIFT', 'VERTICAL-DEPTH']
PROPS = ['AVERAGED', 'CALIBRATED', 'COMPUTED', 'DERIVED', 'FILTERED', 'SPLICED', 'RE-SAMPLED', 'STANDARD-DEVIATION']


class G:
    def __init__(self, rng: random.Random, hc=False, size='small'):
        self.r, self.hc, self.size = rng, hc, size
        self.short = False
        self.n = 0

    # ---------------------------------------------------------------- scalars
    def name(self, long_ok=True):
        r = self.r
        self.n += 1
        base = f"N{self.n}"
        if self.short:
            return base
        alpha = HCCH if self.hc else PRINTABLE
        k = r.random()
        if k < 0.6:
            ln = r.randint(0, 12)
        elif k < 0.9 or not long_ok:
            ln = r.randint(0, 60)
        else:
            ln = r.choice([120, 127, 128, 129, 200, 250])
        return (base + ''.join(r.choice(alpha) for _ in range(ln)))[:255]

    def ident(self):
        r = self.r
        k = r.random()
        if k < 0.05 and not self.hc:
            return ''
        ln = r.randint(1, 20) if k < 0.8 else r.choice([126, 127, 128, 129, 254, 255])
        return ''.join(r.choice(HCCH if self.hc else PRINTABLE) for _ in range(ln))

    def text(self):
        r = self.r
        k = r.random()
        if k < 0.06:
            return ''
        if k < 0.8 or self.size == 'tiny':
            ln = r.randint(1, 40)
        elif k < 0.97:
            ln = r.choice([126, 127, 128, 129, 255, 256, 300, 1000])
        else:
            ln = r.choice([16383, 16384, 16390, 20000])
        if ln > 2000:
            return ''.join(r.choice(PRINTABLE) for _ in range(50)) * (ln // 50) + 'z' * (ln % 50)
        alpha = PRINTABLE if r.random() < 0.9 else ''.join(map(chr, range(128)))
        return ''.join(r.choice(alpha) for _ in range(ln))

    def number(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return r.choice([0, 1, -1, 127, 128, 255, 256, -128, 32767, 65535, 2**31 - 1, -2**31, 2**31, 2**52 + 1,
                             r.randint(-10**6, 10**6)])
        if k < 0.45:
            return r.choice([float('inf'), float('-inf'), float('nan'), -0.0, 5e-324, 1.7976931348623157e308, 1e-300])
        if k < 0.6:
            return r.choice([0.1, 1.5, -2.25, 3.0, 1/3])
        return r.uniform(-1e6, 1e6)

    def slong(self):
        r = self.r
        return r.choice([0, 1, -1, 2**31 - 1, -2**31, 127, 128, r.randint(-10**6, 10**6)])

    def mfloat(self):
        r = self.r
        return r.choice([0.5, -1.25, 1e300, float('inf'), float('nan'), -0.0, r.uniform(-1e3, 1e3)])

    def mtext(self):
        r = self.r
        return ''.join(r.choice(string.ascii_letters) for _ in range(r.randint(1, 12))) + r.choice(['', ' x', '-A', '_B'])

    def m_values(self, n):
        k = self.r.random()
        if k < 0.35:
            return [self.slong() for _ in range(n)]
        if k < 0.6:
            return [self.mfloat() for _ in range(n)]
        if k < 0.75:
            return [self.slong() if self.r.random() < .5 else self.mfloat() for _ in range(n)]
        return [self.mtext() for _ in range(n)]

    def dt(self):
        r = self.r
        k = r.random()
        d = datetime(1902, 1, 3) + timedelta(seconds=r.randint(0, int(252 * 365.25 * 86400)),
                                             microseconds=r.choice([0, 1, 499, 500, 501, 999499, 999500, 999999, r.randint(0, 999999)]))
        if k < 0.3:
            return d.replace(tzinfo=timezone.utc)
        if k < 0.6:
            return d.replace(tzinfo=timezone(timedelta(minutes=r.choice([0, 60, -60, 330, -720, 840, 345, 1, -1]))))
        if k < 0.8:
            return d                                      # naive: local time
        return d.strftime(r.choice(["%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S"]))

    def uv(self):
        return self.r.choice([0, 1, 127, 128, 16383, 16384, 2**30 - 1, self.r.randint(0, 2**30 - 1)])

    def units(self):
        from dliswriter import enums
        r = self.r
        u = r.choice(UNITS)
        if r.random() < 0.2:
            return next(e for e in enums.Unit if e.value == u)
        if r.random() < 0.15 and not self.hc:
            return r.choice(['foo', '1/s', 'm/s', 'x' * 100, 'y' * 130])
        return u

    def scalar(self, kind):
        r = self.r
        if kind == 'T':
            return self.text()
        if kind == 'I':
            return self.ident()
        if kind == 'N':
            return self.number()
        if kind == 'NI':
            return self.slong()
        if kind == 'UV':
            return self.uv()
        if kind == 'UN':
            return r.choice([0, 1, 65535, r.randint(0, 65535)])
        if kind == 'US':
            return r.choice([0, 1, True, False, 1.0])
        if kind == 'ST':
            return r.choice([0, 1, True, False, 1.0])
        if kind == 'DT':
            return self.dt()
        if kind == 'DTN':
            return self.dt() if r.random() < 0.6 else r.choice([0, 10, 1.5, -3.25, r.uniform(0, 1e6)])
        raise KeyError(kind)

    def route(self):
        return self.r.choice(['kw', 'kw', 'dict', 'setup', 'later'])

    def val(self, v, units_ok):
        rt = self.route()
        u = self.units() if units_ok and self.r.random() < 0.4 else None
        if u is not None and rt == 'kw':
            rt = self.r.choice(['dict', 'setup', 'later'])
        return Val(v, u, rt)

    # ---------------------------------------------------------------- arrays
    def array(self, n, dtype=None, width=None, layout=None, order=None):
        r = self.r
        dtype = dtype or r.choice(DTYPES)
        d = np.dtype(dtype)
        order = order or r.choice(['<', '>'])
        shape = (n,) if width is None else (n, width)
        total = int(np.prod(shape)) * d.itemsize
        raw = bytearray(r.getrandbits(8 * total).to_bytes(total, 'little')) if total else bytearray()
        if d.kind == 'f' and total:
            a = np.frombuffer(raw, dtype=d.newbyteorder(order)).copy()
            specials = [np.nan, np.inf, -np.inf, -0.0, 0.0]
            for i in range(len(a)):
                if r.random() < 0.1:
                    a[i] = r.choice(specials)
        elif total:
            a = np.frombuffer(raw, dtype=d.newbyteorder(order)).copy()
            info = np.iinfo(d)
            for i in range(len(a)):
                if r.random() < 0.1:
                    a[i] = r.choice([info.min, info.max])
        else:
            a = np.zeros(0, dtype=d.newbyteorder(order))
        a = a.reshape(shape)
        layout = layout or r.choice(['C', 'C', 'F', 'strided', 'reversed', 'readonly', 'view'])
        if layout == 'F':
            a = np.asfortranarray(a)
        elif layout == 'strided':
            b = np.zeros((2 * n,) + a.shape[1:], dtype=a.dtype)
            b[::2] = a
            a = b[::2]
        elif layout == 'reversed':
            a = a[::-1].copy()[::-1]
        elif layout == 'readonly':
            a.flags.writeable = False
        elif layout == 'view':
            b = np.zeros((n + 4,) + a.shape[1:], dtype=a.dtype)
            b[2:2 + n] = a
            a = b[2:2 + n]
        return a

    def cast_for(self, a):
        r = self.r
        if r.random() < 0.75:
            return None
        # float32/float64 bit patterns may be nan/inf/huge: cast to integers is undefined -> only float<->float, int->any
        if a.dtype.kind == 'f':
            t = r.choice(['float32', 'float64'])
        else:
            t = r.choice(DTYPES)
        return r.choice([np.dtype(t), getattr(np, t)])

    # ---------------------------------------------------------------- objects
    def opts(self, kw_list, p=0.5):
        return [k for k in kw_list if self.r.random() < p]

    def simple_attrs(self, type_, p=0.5, skip=()):
        """attributes with no cross-constraints"""
        out = {}
        enums_ = {('EQUIPMENT', 'eq_type'): EQ_TYPES, ('EQUIPMENT', 'location'): EQ_LOC,
                  ('PROCESS', 'status'): ['COMPLETE', 'ABORTED', 'IN-PROGRESS'],
                  ('ZONE', 'domain'): ['BOREHOLE-DEPTH', 'TIME', 'VERTICAL-DEPTH'],
                  ('CALIBRATION-MEASUREMENT', 'phase'): ['AFTER', 'BEFORE', 'MASTER'],
                  ('FRAME', 'index_type'): IDX_TYPES}
        for kw in TABLE[type_]:
            if kw.startswith('__') or kw in skip or self.r.random() > p:
                continue
            label, kind, tgt, multi, nested = spec_of(type_, kw)
            if kind in ('O', 'R', 'OT', 'DIM', 'M') or nested:
                continue
            if (type_, kw) in enums_:
                pool = enums_[(type_, kw)]
                v = self.r.choice(pool)
                out[kw] = self.val(v, False)
                continue
            if kw == 'properties':
                v = self.r.sample(PROPS, self.r.randint(1, 3))
                if self.r.random() < 0.1:
                    v = v[0]
                out[kw] = self.val(v, False)
                continue
            if (type_, kw) == ('CHANNEL', 'units'):
                out[kw] = self.val(self.units(), False)
                continue
            if multi:
                n = self.r.choice([1, 1, 2, 3, 5, 127, 128, 130]) if self.size != 'tiny' else self.r.randint(1, 3)
                v = [self.scalar(kind) for _ in range(n)]
                if kind == 'T' and n > 5:
                    v = [x[:20] for x in v]
                if n == 1 and self.r.random() < 0.5:
                    v = v[0]
                elif self.r.random() < 0.2:
                    v = tuple(v)
            else:
                v = self.scalar(kind)
            out[kw] = self.val(v, kind in ('N', 'NI', 'UV', 'UN', 'DTN', 'DT'))
        return out

    def origin(self, lf, **kw):
        a = self.simple_attrs('ORIGIN', 0.4, skip=('file_set_number', 'creation_time'))
        a['file_set_number'] = Val(self.uv() or 1, None, 'kw')
        a['creation_time'] = Val(self.dt(), None, 'kw')
        a.update(kw.pop('attrs', {}))
        return lf.add('ORIGIN', self.name(), **kw, **a)

    def objects(self, lf, n=12, set_name=lambda t: None, oref=lambda: None, types=None):
        """Add n random non-channel/frame objects, referring to earlier ones."""
        r = self.r
        types = types or [t for t in TABLE if t not in ('ORIGIN', 'CHANNEL', 'FRAME')]
        made = []
        for _ in range(n):
            t = r.choice(types)
            made.append(self.object(lf, t, set_name(t), oref()))
        return made

    def object(self, lf, t, set_name=None, oref=None, p=0.5, name=None):
        r = self.r
        a = self.simple_attrs(t, p, skip=('coefficients', 'references', 'plus_tolerances', 'minus_tolerances'))
        pool = lambda tt: lf.of(tt)
        for kw in TABLE[t]:
            if kw.startswith('__') or r.random() > p:
                continue
            label, kind, tgt, multi, nested = spec_of(t, kw)
            if kw in ('axis', 'zones', 'dimension') or (t == 'SPLICE' and kw == 'input_channels'):
                continue
            if kind == 'O' and pool(tgt):
                if multi:
                    c = [r.choice(pool(tgt)) for _ in range(r.randint(1, 3))]
                    a[kw] = Val(c if len(c) > 1 or r.random() < .5 else c[0], None, self.route())
                else:
                    a[kw] = Val(r.choice(pool(tgt)), None, self.route())
            elif kind == 'R' and lf.objs:
                if multi:
                    a[kw] = Val([r.choice(lf.objs) for _ in range(r.randint(1, 3))], None, self.route())
                else:
                    a[kw] = Val(r.choice(lf.objs), None, self.route())
            elif kind == 'OT':
                v = r.choice(pool(tgt)) if pool(tgt) and r.random() < .5 else self.text()
                a[kw] = Val(v, None, self.route())
        zones = pool('ZONE')
        if t == 'ZONE':
            dom = a['domain'].value if 'domain' in a else None
            times = dom in (None, 'TIME') and r.random() < .5
            for kw in ('maximum', 'minimum'):
                if kw in a:
                    a[kw] = self.val(self.dt() if times else self.number(), True)
        if t == 'GROUP' and 'object_type' in a:
            a['object_type'].route = 'later'
        if t == 'AXIS' and r.random() < p:
            a['coordinates'] = self.val(self.m_values(r.randint(1, 4)), True)
        elif t == 'CALIBRATION-COEFFICIENT':
            n = r.randint(1, 4)
            for kw in self.opts(('coefficients', 'references', 'plus_tolerances', 'minus_tolerances'), p):
                a[kw] = self.val([self.number() for _ in range(n)], True)
        elif t == 'CALIBRATION-MEASUREMENT':
            n, w = r.randint(1, 3), r.choice([None, 1, 3])
            mk = lambda: [self.number() if w is None else [self.number() for _ in range(w)] for _ in range(n)]
            ctrl = self.opts(('maximum_deviation', 'standard_deviation', 'standard', 'plus_tolerance', 'minus_tolerance'), p)
            for kw in ctrl + self.opts(('measurement', 'reference'), p):
                a[kw] = self.val(mk(), True)
            if w is not None and r.random() < p:
                a['dimension'] = Val([w], None, self.route())
        elif t in ('PARAMETER', 'COMPUTATION'):
            w = r.choice([None, None, 1, 2])
            n = 1
            if zones and r.random() < p:
                n = r.randint(1, 3)
                a['zones'] = Val([r.choice(zones) for _ in range(n)], None, self.route())
            elif t == 'COMPUTATION':
                n = r.randint(1, 4)
            if 'zones' not in a and t == 'PARAMETER' and w == 2:
                w = None
            if r.random() < 0.8:
                if w is None:
                    v = self.m_values(n) if t == 'PARAMETER' else [self.number() for _ in range(n)]
                    if n == 1 and r.random() < .4:
                        v = v[0]
                else:
                    fl = self.m_values(n * w) if t == 'PARAMETER' else [self.number() for _ in range(n * w)]
                    v = [fl[i * w:(i + 1) * w] for i in range(n)]
                    if r.random() < p:
                        a['dimension'] = Val([w], None, self.route())
                a['values'] = self.val(v, True)
        elif t == 'SPLICE' and pool('CHANNEL'):
            n = r.randint(1, 3)
            if r.random() < .7:
                a['input_channels'] = Val([r.choice(pool('CHANNEL')) for _ in range(n)], None, self.route())
            if zones and r.random() < .7:
                a['zones'] = Val([r.choice(zones) for _ in range(n)], None, self.route())
        kw = {}
        if set_name is not None:
            kw['set_name'] = set_name
        if oref is not None:
            kw['origin_reference'] = oref
        return lf.add(t, name or self.name(), **kw, **a)

    def frame_with_channels(self, lf, n_ch=None, rows=None, inline=True, set_name=None, indexed=None, dtypes=None,
                            max_width=8, prefix='', cast=True, order=None, layout=None, frame_set=None, p=0.4):
        r = self.r
        n_ch = n_ch or r.randint(1, 4)
        rows = rows or r.randint(1, 12)
        indexed = r.random() < 0.6 if indexed is None else indexed
        chs = []
        for i in range(n_ch):
            if i == 0 and indexed:
                a = self.index_array(rows, layout)
            else:
                w = r.choice([None, None, 1, 2, r.randint(1, max_width)])
                a = self.array(rows, dtype=r.choice(dtypes) if dtypes else None, width=w, order=order, layout=layout)
            c = self.cast_for(a) if cast and not (i == 0 and indexed) else None
            at = self.simple_attrs('CHANNEL', p)
            dim = list(a.shape[1:]) or [1]
            if r.random() < 0.2:
                at['dimension'] = Val(dim, None, self.route())
            if r.random() < 0.2:
                at['element_limit'] = Val([d + r.randint(0, 3) for d in dim], None, self.route())
            if r.random() < 0.3:
                ln = lf.of('LONG-NAME')
                at['long_name'] = Val(r.choice(ln) if ln and r.random() < .5 else self.text(), None, self.route())
            ax = [x for x in lf.of('AXIS') if x.attrs.get('coordinates') is None or x.attrs['coordinates'].value is None or
                  len(x.attrs['coordinates'].value if isinstance(x.attrs['coordinates'].value, list) else [0]) == dim[0]]
            if ax and r.random() < 0.3:
                at['axis'] = Val([r.choice(ax)], None, 'kw')
            if lf.objs and r.random() < 0.2:
                at['source'] = Val(r.choice(lf.objs), None, self.route())
            nm = self.name()
            chs.append(lf.channel(nm, a, inline=inline, cast=c, set_name=set_name,
                                  dataset_name=(prefix + f"ds{self.n}" if (prefix or r.random() < .3) else None), **at))
        fa = self.simple_attrs('FRAME', 0.3, skip=('index_type', 'direction', 'spacing', 'index_min', 'index_max'))
        if indexed:
            fa['index_type'] = self.val(r.choice(IDX_TYPES), False)
        if r.random() < 0.15:
            for kw in self.opts(('spacing', 'index_min', 'index_max'), 0.5):
                fa[kw] = self.val(self.number(), True)
            if r.random() < .4:
                fa['direction'] = self.val(r.choice(['INCREASING', 'DECREASING']), False)
        kw = {'set_name': frame_set if frame_set is not None else set_name} if (frame_set or set_name) else {}
        fr = lf.add('FRAME', self.name(), channels=Val(chs, None, 'kw'), **kw, **fa)
        return fr

    def index_array(self, rows, layout=None):
        r = self.r
        dt = r.choice(['float64', 'float64', 'float32', 'int32', 'uint8', 'uint16', 'int16', 'uint32', 'int8'])
        d = np.dtype(dt)
        k = r.random()
        if d.kind == 'f':
            start, step = r.choice([0, 1000.5, -3.25]), r.choice([0.5, -0.25, 1.0, 0.1524, -2])
            v = [start + i * step for i in range(rows)]
            if k < 0.15 and rows > 2:
                v[r.randrange(rows)] += step * 3
            elif k < 0.25:
                v = [start] * rows
            elif k < 0.35:
                v = [r.uniform(-5, 5) for _ in range(rows)]
            elif k < 0.42:
                v[r.randrange(rows)] = float('nan')
            elif k < 0.5:
                v = [x + r.uniform(-0.001, 0.001) * step for x in v]
        else:
            info = np.iinfo(d)
            step = r.choice([1, 2, -1, -3, 0])
            start = info.max if step < 0 else info.min if r.random() < .5 else 3
            v = [min(max(start + i * step, info.min), info.max) for i in range(rows)]
            if k < 0.2:
                v = [r.randint(info.min, info.max) for _ in range(rows)]
            elif k < 0.3:
                v = sorted(r.randint(info.min, info.max) for _ in range(rows))
        a = np.array(v, dtype=d)
        if r.random() < 0.3:
            a = a.astype(d.newbyteorder('>'))
        if layout == 'readonly' or r.random() < .1:
            a.flags.writeable = False
        return a


def random_scenario(seed, *, hc=False, size='small', n_lf=None, inline=True, mrl=None, max_objs=14, n_frames=None,
                    multi_sets=True, two_origins=True, noformat=True, max_width=8, rows=None, dtypes=None, short_names=False, salt=''):
    """A random valid specification. Deterministic in its arguments."""
    r = random.Random(f"{seed}|{hc}|{size}|{n_lf}|{inline}{salt}")
    g = G(r, hc, size)
    g.short = short_names
    mrl = mrl or r.choice([20, 22, 24, 30, 32, 40, 64, 100, 128, 256, 1000, 8192, 8192, 16384])
    idalpha = HCCH if hc else PRINTABLE
    sid = ''.join(r.choice(idalpha) for _ in range(r.randint(1, 60)))
    if not hc:
        sid = sid.strip() or 'S'
    sc = Scenario(sid, r.choice([1, 1, 2, 9999]), mrl)
    n_lf = n_lf or r.choice([1, 1, 1, 2, 3])
    for i in range(n_lf):
        hid = ''.join(r.choice(idalpha) for _ in range(r.choice([1, 12, 65])))
        sc.lf(hid, r.choice(HCCH), r.choice([1, 2, 10, 9999999999]))
    order = list(range(n_lf))
    for li in order:
        lf = sc.lfs[li]
        sfx = '' if n_lf == 1 else f"LF{li}"
        sets_used: dict = {}

        def set_name(t, sfx=sfx):
            if not multi_sets:
                return sfx or None
            c = [sfx or None, (sfx + 'A')]
            return r.choice(c) if r.random() < .4 else c[0]
        origin_first = r.random() < 0.6
        orefs = []

        def mk_origins():
            o = g.origin(lf, **({'set_name': set_name('ORIGIN')} if set_name('ORIGIN') else {}), **({'origin_reference': x} if (x := r.choice([None, None, 0, 5, 200, 17000])) is not None else {}))
            o.origin = x
            orefs.append(o.item.origin_reference)
            if two_origins and r.random() < .3:
                sn = set_name('ORIGIN')
                o2 = g.origin(lf, **({'set_name': sn} if sn else {}))
                orefs.append(o2.item.origin_reference)

        def oref():
            return r.choice(orefs) if orefs and r.random() < .15 else None
        if n_lf == 1:
            pass
        if origin_first:
            mk_origins()
        g.objects(lf, r.randint(0, max_objs // 2), set_name, oref)
        nfr = n_frames or r.choice([1, 1, 2, 3])
        for k in range(nfr):
            sn = set_name('CHANNEL')
            g.frame_with_channels(lf, inline=inline, set_name=sn, frame_set=(sfx or None), prefix=f"p{li}_" if not inline else '',
                                  max_width=max_width, rows=rows, dtypes=dtypes)
        g.objects(lf, r.randint(0, max_objs // 2), set_name, oref)
        # same-named objects
        if r.random() < .4 and lf.objs:
            o = r.choice(lf.objs)
            if o.type not in ('ORIGIN', 'CHANNEL', 'FRAME'):
                for _ in range(r.randint(1, 3)):
                    g.object(lf, o.type, set_name(o.type), None, name=o.name)
        if not origin_first:
            mk_origins()
        if noformat:
            nf = lf.of('NO-FORMAT')
            if not nf and r.random() < .5:
                nf = [g.object(lf, 'NO-FORMAT', set_name('NO-FORMAT'))]
            if nf:
                for _ in range(r.randint(0, 4)):
                    ln = r.choice([0, 1, 2, 3, 11, 12, 13, 50, mrl - 8, mrl, 3 * mrl + 1]) if size != 'tiny' else r.randint(0, 20)
                    ln = min(ln, 20000)
                    p = r.getrandbits(8 * ln).to_bytes(ln, 'big') if ln else b''
                    p = r.choice([p, bytearray(p), ''.join(chr(b & 127) for b in p)])
                    lf.nf(r.choice(nf), p)
    return sc


# ------------------------------------------------------------------------------------------------ writing
def data_arg(sc: Scenario, source: str, tmp: str, rng=None):
    """Build the write() `data` argument for the non-inline channels."""
    rng = rng or random.Random(0)
    items = [(lf.dataset[ch], a) for lf in sc.lfs for ch, a in lf.data.items() if a is not None]
    if source == 'inline':
        return None
    rng.shuffle(items)
    if source == 'dict':
        return dict(items)
    if source == 'struct':
        n = len(items[0][1])
        arr = np.zeros(n, dtype=[(k, a.dtype, a.shape[1:]) for k, a in items])
        for k, a in items:
            arr[k] = a
        return arr
    if source == 'h5':
        import h5py
        p = os.path.join(tmp, f"src{rng.randrange(10**9)}.h5")
        with h5py.File(p, 'w') as f:
            for k, a in items:
                f.create_dataset(k, data=a)
        return p
    raise KeyError(source)


def write(sc: Scenario, path: str, data=None, **kw) -> bytes:
    kw.setdefault('output_chunk_size', 2 ** 16)
    sc.df.write(path, data=data, **kw)
    with open(path, 'rb') as f:
        return f.read()
