"""Whole files: from the calls of the user to the sequence of logical records handed to the writer (C03, C07-C11, C13, C16, C18).

The structure of the file (which objects, in which order they are added) is enumerated in PLANS; the values are symbolic:
number of rows, number of columns, the data, the window of rows, the chunk size, names, payloads, origin references.
The callees below the sequence of records are represented by their contracts: the writer (write_logical_records), the
chunked generator (rows by chunks).  The body of a record of an arbitrary row is compared with the standard's.
"""
import datetime as dt
import os
import tempfile

import numpy as np
import z3

from pyvc.interp import SymSeq, YieldAll
from pyvc.npmodel import Arr, SDT, source, term_of, wrap
from pyvc.sym import *
from . import spec as S
from .core import *
from .core import Exc, Ret, INLINE, abstract_uvari
from .o_data import W, H5, cell_bytes, drain, body_of
from .o_eflr import labels, set_component, template, DT, DT_BYTES, header_spec, LR_TYPES

CODE = {'int8': 12, 'int16': 13, 'int32': 14, 'uint8': 15, 'uint16': 16, 'uint32': 17, 'float32': 2, 'float64': 7}


def ch(name, dtype='<f8', cast=None, wide=False, dataset=None, set_name=None):
    return ('channel', name, dtype, cast, wide, dataset, set_name)


def fr(name, channels, set_name=None):
    return ('frame', name, channels, set_name)


PLANS = {
    'one frame': [[('origin', None), ch('A'), ch('B', '>i2', None, True), fr('F', ['A', 'B'])]],
    'listed in another order': [[('origin', None), ch('A', '<f4', 'float64'), ch('B', '<u4', dataset='X'), ch('C', '>f8', 'float32', True), fr('F', ['C', 'A', 'B'])]],
    'two frames, odd order': [[ch('A', '<f4'), ('zone', 'z0', None), fr('F1', ['A']), ('nofmt', 'N', None), ('data', 'N', 'p0'), ch('B', '<u1', dataset='Y'),
                               ('zone', 'z1', 'NAMED'), fr('F2', ['B']), ('origin', None), ('nofmt', 'M', 'OTHER'), ('data', 'M', 'p1'), ('data', 'N', 'p2'),
                               ('origin', 'SECOND')]],
    'two logical files': [[('origin', None), ch('A'), fr('F', ['A']), ('zone', 'z0', None), ('nofmt', 'N', None), ('data', 'N', 'p0')],
                          [('zone', 'z1', 'L2'), ch('A', '<i4', None, True, 'A2', 'L2'), fr('F', ['A'], 'L2'), ('nofmt', 'N', 'L2'), ('data', 'N', 'p1'), ('origin', 'L2')]],
    'interleaved': [[('origin', None), ch('A'), fr('F', ['A'])], [('origin', 'L2'), ch('B', '<f4', None, False, None, 'L2'), fr('G', ['B'], 'L2')]],
}


def build(plan, values, interleaved):
    """The calls of the user."""
    dlis = real('file.file:DLISFile')()
    lfs = []
    for i in range(len(plan)):
        lfs.append(dlis.add_logical_file(fh_id='HEADER' + str(i), fh_sequence_number=i + 1))
    objs = []
    for i in range(len(plan)):
        objs.append({})
    steps = []
    for i in range(len(plan)):
        for j in range(len(plan[i])):
            steps.append((j, i) if interleaved else (i, j))
    for a, b in sorted(steps):
        i, j = (b, a) if interleaved else (a, b)
        lf, known, s = lfs[i], objs[i], plan[i][j]
        if s[0] == 'origin':
            lf.add_origin('O' + (s[1] or ''), file_set_number=9, creation_time=DT, origin_reference=values['origin' + str(i) + (s[1] or '')], set_name=s[1])
        elif s[0] == 'channel':
            _, name, _, cast, _, dataset, set_name = s
            known[name] = lf.add_channel(name, data=values.get('inline', {}).get(dataset or name), cast_dtype=np.dtype(cast) if cast else None,
                                         dataset_name=dataset, set_name=set_name)
        elif s[0] == 'frame':
            lf.add_frame(s[1], channels=[known[n] for n in s[2]], set_name=s[3])
        elif s[0] == 'zone':
            lf.add_zone(values[s[1]], set_name=s[2])
        elif s[0] == 'nofmt':
            known[s[1]] = lf.add_no_format(s[1], set_name=s[2])
        elif s[0] == 'data':
            lf.add_no_format_frame_data(known[s[1]], values[s[2]])
    return dlis


# ------------------------------------------------------------------------------------------------- what has to be written
def column(code, values, count=1):
    from .o_attr import component
    return component(code, count, None, values)


def an_object(set_type, origin, copy, name, columns):
    b = b'\x70' + S.obname(origin, copy, name)
    for x in labels(set_type):
        b = b + (columns[x] if x in columns else b'\x00')
    return b


def sets_spec(plan, values, i, shapes, rows):
    """{(set type, set name): body} of the i-th logical file, the origin sets first."""
    steps = plan[i]
    first = [s for s in steps if s[0] == 'origin'][0]
    o = values['origin' + str(i) + (first[1] or '')]
    out = {}

    def put(set_type, set_name, b):
        k = (set_type, set_name)
        if k not in out:
            out[k] = set_component(set_type, set_name) + template(set_type)
        out[k] = out[k] + b
    for s in steps:
        if s[0] == 'origin':
            columns = {'FILE-ID': column('ASCII', S.ascii_text('HEADER' + str(i)))}
            columns['FILE-SET-NUMBER'] = column('UVARI', S.uvari(9))
            columns['CREATION-TIME'] = column('DTIME', DT_BYTES)
            columns['FIELD-NAME'] = column('ASCII', S.ascii_text('WILDCAT'))
            put('ORIGIN', s[1], an_object('ORIGIN', values['origin' + str(i) + (s[1] or '')], 0, 'O' + (s[1] or ''), columns))
    for s in steps:
        if s[0] == 'channel':
            name, dtype, cast, wide, dataset = s[1:6]
            dim = column('UVARI', S.uvari(shapes[dataset or name]))
            used = False
            for f in steps:
                if f[0] == 'frame' and name in f[2]:
                    used = True
            code = CODE[np.dtype(cast or dtype).name]
            columns = {'LONG-NAME': column('ASCII', S.ascii_text(name)), 'REPRESENTATION-CODE': column('USHORT', S.ushort(code)), 'DIMENSION': dim, 'ELEMENT-LIMIT': dim}
            put('CHANNEL', s[6], an_object('CHANNEL', o, 0, name, columns))
        elif s[0] == 'frame':
            refs = b''
            for n in s[2]:
                refs = refs + S.obname(o, 0, n)
            columns = {'CHANNELS': column('OBNAME', refs, len(s[2])), 'SPACING': column('FDOUBL', S.floating('FDOUBL', 1.0)),
                       'INDEX-MIN': column('FDOUBL', S.floating('FDOUBL', 1.0)), 'INDEX-MAX': column('FDOUBL', S.floating('FDOUBL', float(rows[(i, s[1])])))}
            put('FRAME', s[3], an_object('FRAME', o, 0, s[1], columns))
        elif s[0] == 'zone':
            put('ZONE', s[2], an_object('ZONE', o, 0, values[s[1]], {}))
        elif s[0] == 'nofmt':
            put('NO-FORMAT', s[2], an_object('NO-FORMAT', o, 0, s[1], {}))
    return out


def noformat_spec(plan, values, i):
    o = values['origin' + str(i) + ([s for s in plan[i] if s[0] == 'origin'][0][1] or '')]
    return [S.obname(o, 0, s[1]) + values[s[2]] for s in plan[i] if s[0] == 'data']


def row_head(plan, values, i, frame, number):
    o = values['origin' + str(i) + ([s for s in plan[i] if s[0] == 'origin'][0][1] or '')]
    return S.obname(o, 0, frame) + S.uvari(number)


# ------------------------------------------------------------------------------------------------- the verifier's side
def plan_values(src, plan):
    v = {}
    for i, steps in enumerate(plan):
        for s in steps:
            if s[0] == 'origin':
                v['origin' + str(i) + (s[1] or '')] = src.int('origin' + str(i) + (s[1] or ''), 0, 2 ** 30 - 1)
            elif s[0] == 'zone':
                v[s[1]] = src.ascii(s[1], 255)
            elif s[0] == 'data':
                v[s[2]] = src.bytes(s[2])
        zs = [v[s[1]] for s in steps if s[0] == 'zone']
        for k in range(1, len(zs)):                                 # (copy numbers: see the obligations on identities)
            src.assume(src.call(differ, zs[0], zs[k]))
        os_ = [v['origin' + str(i) + (s[1] or '')] for s in steps if s[0] == 'origin']
        if len(os_) == 2:
            src.assume(os_[0].t != os_[1].t if src.symbolic else os_[0] != os_[1])
    return v


def differ(a, b):
    return a != b


def channels_of(plan):
    return [(i, s[5] or s[1], s) for i, steps in enumerate(plan) for s in steps if s[0] == 'channel']


def frame_of(plan, i, name):
    for s in plan[i]:
        if s[0] == 'frame' and name in s[2]:
            return s[1]


def sym_data(it, plan, kind):
    """-> (object passed to write, inline data, {data set: array values}, columns, rows of each frame)"""
    vc = it.vc
    rows, shapes, sets = {}, {}, {}
    one = vc.int('rows', 1, 2 ** 30 - 1, inp=True) if kind == 'numpy' else None
    for i, loc, s in channels_of(plan):
        f = frame_of(plan, i, s[1])
        if (i, f) not in rows:
            rows[(i, f)] = one if one is not None else vc.int(f"rows_{i}_{f}", 1, 2 ** 30 - 1, inp=True)
        sets[loc] = (np.dtype(s[2]), (vc.int(f"columns_{loc}", 1, 2 ** 20, inp=True),) if s[4] else (), rows[(i, f)])
        shapes[loc] = sets[loc][1][0] if s[4] else 1
    inline, val, obj = {}, {}, None
    if kind == 'numpy':
        dt_ = SDT([(k, d, sh) for k, (d, sh, n) in sorted(sets.items())])
        if not any(sh for _, _, sh in dt_.items):
            dt_ = np.dtype([(a, b) for a, b, _ in dt_.items])
        obj = source(vc, 'source', dt_, (one,))
        val = {k: obj.val[k] for k in sets}
    else:
        import h5py
        arrs = {k: source(vc, k, d, (n,) + sh, typ=h5py.Dataset if kind == 'hdf5' else None) for k, (d, sh, n) in sets.items()}
        val = {k: a.val for k, a in arrs.items()}
        if kind == 'inline':
            inline = arrs
        elif kind == 'mixed':
            first = next(iter(arrs))
            inline = {first: arrs[first]}
            obj = {k: a for k, a in arrs.items() if k != first}
        elif kind == 'hdf5':
            h5 = H5(arrs)
            it.models[h5py.File] = lambda it2, name, mode='r': h5
            obj = '/x/source.h5'
        else:
            obj = dict(reversed(list(arrs.items())))
    return obj, inline, val, sets, shapes, rows


def write_captured(it, dlis, kw, consume):
    """Run DLISFile.write; the writer is represented by its contract: it takes the records in order, once each."""
    log = []
    cls = real('file.writer:DLISWriter')

    def ctor(it2, *a, **k):
        log.append(('writer', a, k))

        def label(it3, sul):
            log.append(('label', sul))

        def records(it3, recs, *a, **k):
            log.append(('records',))
            consume(recs)
        return Opq(cls, 'writer', {}, methods={'write_storage_unit_label': label, 'write_logical_records': records})
    it.models[cls] = ctor
    it.vc.used_contracts.add('write_logical_records')
    it.call(it.getattr(dlis, 'write'), ['/x/out.dlis'], kw)
    return log


def rows_contract(it):
    """Contract of make_chunked_generator (proved: rows by chunks): the rows of load_chunk(0, None), one by one."""
    base = real(W + 'SourceDataWrapper')

    def handler(it2, self, chunk_rows=None):
        if chunk_rows is not None:
            it2.vc.prove('a positive number of rows is asked for', term_of(chunk_rows) >= 1, f"{chunk_rows}")
        it2.vc.used_contracts.add('rows by chunks: dict')
        n = it2.getattr(self, 'n_rows')
        it2.vc.ghost['taken'] = SInt(z3.IntVal(0))

        def nxt(it3, *d):
            t = it3.vc.ghost['taken'].t
            if not it3.vc.decide(t < term_of(n)):
                raise PyRaise(StopIteration())
            it3.vc.gset('taken', SInt(z3.simplify(t + 1)))
            c = it3.call(it3.getattr(self, 'load_chunk'), [SInt(t), SInt(z3.simplify(t + 1))])
            return c.row(it3.vc, z3.IntVal(0))
        return Opq(object, 'rows', {}, methods={'__next__': nxt})
    if not {f"rows by chunks: {k}" for k in ('dict', 'numpy', 'hdf5')} & INLINE:
        it.contracts[code(base.make_chunked_generator)] = handler


MODES = {'order': 'C09 C18', 'descriptors': 'C08 C13', 'rows': 'C03 C10 C11 C18', 'objects': 'C05 C07 C18', 'payloads': 'C16 C18'}
USES = {'rows': ('rows by chunks: dict', 'rows by chunks: numpy', 'rows by chunks: hdf5')}


def file_body(mode, kinds, plans):
    def body(it, vc):
        pn = plans[vc.choose('plan', len(plans))]
        plan = PLANS[pn]
        kind = kinds[vc.choose('kind', len(kinds))]
        if kind == 'numpy' and len(plan) > 1 and len({s[1] for _, _, s in channels_of(plan)}) < 2:
            kind = 'dict'
        vc.inputs['plan'], vc.inputs['kind'] = pn, kind
        src = SymSrc(it)
        values = plan_values(src, plan)
        obj, inline, val, sets, shapes, rows = sym_data(it, plan, kind)
        values['inline'] = inline
        kw = {'data': obj}
        lo, hi = z3.IntVal(0), None
        if vc.choose('window', 2):
            a, b = vc.int('from_idx', 0, inp=True), vc.int('to_idx', inp=True)
            kw['from_idx'], kw['to_idx'] = a, b
            lo, hi = a.t, b.t
            for n in rows.values():
                vc.assume(z3.And(lo < hi, hi <= n.t))
            if mode != 'rows':
                vc.cover('window')
        if vc.choose('input chunks', 2):
            kw['input_chunk_size'] = vc.int('chunk', 1, inp=True)
        number = {k: (SInt(z3.simplify(hi - lo)) if hi is not None else n) for k, n in rows.items()}
        vc.cover('precondition')
        rows_contract(it)
        abstract_uvari(it)
        mfd_cls = real('file.multi_frame_data:MultiFrameData')
        iter_code = code(mfd_cls.__iter__)
        getattr(real('logical_record.iflr_types:FrameData'), 'lr_type_struct', None)
        stream = []                   # ('set', i, key, body) | ('nofmt', body) | ('rows', mfd)
        st = {'lf': -1, 'phase': None}

        def abstract_rows(it2, self):
            return SymSeq('rows', z3.Int('n_rows_of_a_frame'), lambda vc2, i: None)

        def consume(recs):
            it.contracts[iter_code] = abstract_rows
            for x in it.iterate(recs):
                if isinstance(x, YieldAll):
                    m = x.src
                    if not isinstance(m, mfd_cls):
                        raise Unsupported(f"records from {m!r}")
                    one_frame(m)
                else:
                    one_record(x)
            del it.contracts[iter_code]
            end_of_file()

        def expected(i):
            return it.call(sets_spec, [plan, values, i, shapes, number])

        def begin(x):
            end_of_file()
            st['lf'] += 1
            i = st['lf']
            st['phase'] = 'origin'
            if i < len(plan):
                st['sets'] = expected(i)
                st['nofmt'] = it.call(noformat_spec, [plan, values, i])
                st['frames'] = [s for s in plan[i] if s[0] == 'frame']
                st['seen'] = []
                if mode in ('order', 'objects'):
                    first = [s for s in plan[i] if s[0] == 'origin'][0]
                    same(it, 'file header', it.call(body_of, [x]), it.call(header_spec, ['0', 'HEADER' + str(i), i + 1, 'arguments', values['origin' + str(i) + (first[1] or '')]]))

        def end_of_file():
            if 0 <= st['lf'] < len(plan):
                if mode in ('order', 'objects'):
                    vc.prove('every set is written', not st['sets'], f"missing: {list(st['sets'])}")
                if mode in ('order', 'payloads'):
                    vc.prove('every no-format record is written', not st['nofmt'], 'no-format data left out')
                if mode in ('order', 'rows'):
                    vc.prove('the rows of every frame are written', not st['frames'], f"frames left out: {st['frames']}")

        def one_record(x):
            if it.truth(it.getattr(x, 'is_eflr')):
                t, name = it.getattr(x, 'set_type'), it.getattr(x, 'set_name')
                if t == 'FILE-HEADER':
                    return begin(x)
                b = it.call(body_of, [x])
                if mode == 'order':
                    ok = 0 <= st['lf'] < len(plan)
                    vc.prove('a file header comes first', ok, f"{t} before the file header")
                    vc.prove('sets come before data', st['phase'] in ('origin', 'sets'), f"{t} after data")
                    vc.prove('origin sets come first, then the others', t != 'ORIGIN' or st['phase'] == 'origin', f"{t} {name}")
                    if t != 'ORIGIN':
                        vc.prove('an origin set follows the header', ('ORIGIN') in [k[0] for k in st['seen']], f"{t} {name} before any origin")
                        vc.prove('all origin sets come before other sets', 'ORIGIN' not in [k[0] for k in st['sets']], f"{t} {name}")
                    elif not st['seen']:
                        vc.prove('the defining origin comes first', (t, name) == next(iter(st['sets'])), f"{t} {name}")
                    vc.prove('a set is written once, in the logical file of its objects', (t, name) in st['sets'], f"{t} {name} in logical file {st['lf']}")
                if t != 'ORIGIN':
                    st['phase'] = 'sets'
                st.setdefault('seen', []).append((t, name))
                want = st.get('sets', {}).pop((t, name), None)
                if want is not None and (mode == 'descriptors' and t in ('CHANNEL', 'FRAME') or mode == 'objects' and t not in ('CHANNEL', 'FRAME')):
                    same(it, f"set {t}", b, want)
                return
            if mode == 'order':
                vc.prove('data follow the sets', not st.get('sets', {'?': 1}), f"data before {list(st.get('sets', {}))}")
            st['phase'] = 'data'
            if mode == 'payloads':
                b = it.call(body_of, [x])
                vc.prove('a no-format record of this logical file', bool(st['nofmt']), 'too many records')
                same(it, 'no-format record: object and payload', b, st['nofmt'][0])
                same(it, 'no-format record: type', it.call(record_head, [x]), b'\x00\x01')
            if st.get('nofmt'):
                st['nofmt'].pop(0)

        def one_frame(m):
            if mode == 'order':
                vc.prove('data follow the sets', not st.get('sets', {'?': 1}), f"data before {list(st.get('sets', {}))}")
            st['phase'] = 'data'
            name = it.getattr(it.getattr(m, 'frame'), 'name')
            here = [s for s in st.get('frames', []) if s[1] == name]
            if mode in ('order', 'rows'):
                vc.prove('the rows of a frame are written once, in its logical file', bool(here), f"frame {name}")
            if not here:
                return
            f = here[0]
            st['frames'].remove(f)
            if mode != 'rows':
                return
            i = st['lf']
            byname = {s[1]: s for s in plan[i] if s[0] == 'channel'}

            def check(it2, k, fd):
                exp = [rope(it2.call(row_head, [plan, values, i, name, SInt(z3.simplify(term_of(k) + 1))]))]
                for c in f[2]:
                    s = byname[c]
                    loc = s[5] or s[1]
                    d0, sh, _ = sets[loc]
                    d = np.dtype(s[3]) if s[3] else d0.newbyteorder('=')
                    exp.append(cell_bytes(it2, d0, d, val[loc], sh, (z3.simplify(lo + term_of(k)),)))
                same(it2, 'the record of a row: frame, number, values', it2.call(body_of, [fd]), concat('bytes', *exp))
            del it.contracts[iter_code]
            k = it.call(drain, [m, Opq(object, 'check', methods={'__call__': check})])
            it.contracts[iter_code] = abstract_rows
            vc.prove('a record per row', term_of(k) == term_of(number[(i, name)]), 'records')
        try:
            dlis = it.call(build, [plan, values, pn == 'interleaved'])
            log = write_captured(it, dlis, kw, consume)
        except PyRaise as e:
            vc.prove('the file is written', False, f"raises {type(e.exc).__name__}: {e.exc}")
            return
        vc.cover('exhausted')
        vc.prove('label, then the records', [x[0] for x in log] == ['writer', 'label', 'records'], f"{[x[0] for x in log]}")
        vc.prove('every logical file is written', st['lf'] == len(plan) - 1, f"{st['lf'] + 1} logical files")
    return body


def record_head(x):
    """Attributes and type of the first segment of such a record."""
    lr = real('logical_record.core.logical_record.logical_record_bytes:LogicalRecordBytes')(b'0123456789abcdef', type(x).lr_type_struct, x.is_eflr)
    return list(lr.make_segments(8180))[0][0][2:4]


# ------------------------------------------------------------------------------------------------- replay
def native_file(values, mode):
    """Failure of the real code on a file like the counterexample (same structure, numbers and texts; other data), or None."""
    plan, kind = PLANS.get(values.get('plan')), values.get('kind')
    if plan is None or kind is None:
        return None
    rng = np.random.default_rng(11)
    v = plan_values(ConcSrc(dict(values)), plan)

    def num(k, default):
        x = v_.get(k, default)
        return max(1, min(300, x)) if isinstance(x, int) else default
    v_ = values
    sets, rows, shapes = {}, {}, {}
    for i, loc, s in channels_of(plan):
        f = frame_of(plan, i, s[1])
        rows[(i, f)] = num('rows' if kind == 'numpy' else f"rows_{i}_{f}", 4)
        shape = (rows[(i, f)],) + ((num(f"columns_{loc}", 2),) if s[4] else ())
        sets[loc] = (rng.standard_normal(shape) * 50 if np.dtype(s[2]).kind == 'f' else rng.integers(0, 100, shape)).astype(s[2])
        shapes[loc] = shape[1] if s[4] else 1
    with tempfile.TemporaryDirectory() as d:
        v['inline'], obj = {}, None
        if kind == 'numpy':
            n = next(iter(rows.values()))
            obj = np.zeros(n, np.dtype([(k, x.dtype, x.shape[1:]) for k, x in sorted(sets.items())]))
            for k, x in sets.items():
                obj[k] = x
        elif kind == 'hdf5':
            import h5py
            obj = d + '/source.h5'
            with h5py.File(obj, 'w') as f:
                for k, x in sets.items():
                    f[k] = x
        elif kind == 'inline':
            v['inline'] = dict(sets)
        elif kind == 'mixed':
            first = next(iter(sets))
            v['inline'], obj = {first: sets[first]}, {k: x for k, x in sets.items() if k != first}
        else:
            obj = dict(reversed(list(sets.items())))
        kw = {'data': obj}
        lo, hi = 0, None
        if isinstance(values.get('from_idx'), int):
            lo, hi = values['from_idx'], values.get('to_idx', 0)
            if not all(lo < hi <= n for n in rows.values()):
                lo, hi = (1, 2) if min(rows.values()) > 1 else (0, 1)
            kw['from_idx'], kw['to_idx'] = lo, hi
        if isinstance(values.get('chunk'), int):
            kw['input_chunk_size'] = values['chunk']
        number = {k: (hi - lo if hi is not None else n) for k, n in rows.items()}
        where = f"file '{values['plan']}', data {kind} ({ {k: f'{x.dtype}{x.shape}' for k, x in sets.items()} }), {({k: x for k, x in v.items() if k != 'inline'})}, {({k: x for k, x in kw.items() if k != 'data'})}"
        before = {k: x.tobytes() for k, x in sets.items()}
        try:
            build(plan, v, values['plan'] == 'interleaved').write(d + '/out.dlis', output_chunk_size=2 ** 16, **kw)
        except Exception as e:
            return f"{where}: raises {type(e).__name__}: {e}"
        from harness import rp66
        try:
            records = rp66.parse_storage(open(d + '/out.dlis', 'rb').read()).records
        except rp66.RP66Error as e:
            return f"{where}: {e}"
    at, i = 0, -1
    for i in range(len(plan)):
        o = v['origin' + str(i) + ([s for s in plan[i] if s[0] == 'origin'][0][1] or '')]
        want = sets_spec(plan, v, i, shapes, number)
        if at >= len(records) or not records[at].eflr or records[at].type != 0:
            return f"{where}: logical file {i} does not start with a file header"
        if mode in ('order', 'objects') and records[at].body != header_spec('0', 'HEADER' + str(i), i + 1, 'arguments', o):
            return f"{where}: file header of logical file {i}: {records[at].body!r}"
        at += 1
        seen = {}
        while at < len(records) and records[at].eflr and records[at].type != 0:
            e = rp66.parse_eflr(records[at].body)
            k = (e.set_type, e.set_name)
            if mode == 'order' and (k in seen or k not in want or not seen and k != next(iter(want)) or k[0] == 'ORIGIN' and any(t != 'ORIGIN' for t, _ in seen)):
                return f"{where}: logical file {i}: unexpected set {k} after {list(seen)}"
            seen[k] = 1
            t = k[0]
            if k in want and records[at].body != want[k] and (mode == 'descriptors' and t in ('CHANNEL', 'FRAME') or mode == 'objects' and t not in ('CHANNEL', 'FRAME')):
                return f"{where}: logical file {i}: set {k}: {records[at].body!r} instead of {want[k]!r}"
            at += 1
        if mode in ('order', 'objects', 'descriptors') and set(seen) != set(want):
            return f"{where}: logical file {i}: sets {list(seen)} instead of {list(want)}"
        nofmt, got = noformat_spec(plan, v, i), {}
        while at < len(records) and not (records[at].eflr and records[at].type == 0):
            r = records[at]
            at += 1
            if r.eflr:
                if mode == 'order':
                    return f"{where}: logical file {i}: a set after data"
                continue
            if r.type == 1:
                if mode in ('order', 'payloads') and (not nofmt or mode == 'payloads' and r.body != nofmt[0]):
                    return f"{where}: logical file {i}: no-format record {r.body!r} instead of {nofmt[:1]}"
                nofmt = nofmt[1:]
                continue
            c = rp66.Cur(r.body)
            name = rp66.d_obname(c).name
            k = got.setdefault(name, 0)
            got[name] += 1
            if mode == 'rows' and (i, name) in number and k < number[(i, name)]:
                f = [s for s in plan[i] if s[0] == 'frame' and s[1] == name][0]
                byname = {s[1]: s for s in plan[i] if s[0] == 'channel'}
                exp = row_head(plan, v, i, name, k + 1)
                for cn in f[2]:
                    s = byname[cn]
                    x = sets[s[5] or s[1]][lo + k]
                    dd = np.dtype(s[3]) if s[3] else x.dtype
                    exp += np.asarray(x).astype(dd.newbyteorder('>')).tobytes()
                if r.body != exp:
                    return f"{where}: logical file {i}: row {k} of {name}: {r.body!r} instead of {exp!r}"
        if mode in ('order', 'payloads') and nofmt:
            return f"{where}: logical file {i}: no-format records left out"
        if mode in ('order', 'rows') and got != {f: n for (j, f), n in number.items() if j == i}:
            return f"{where}: logical file {i}: rows {got}"
    if at < len(records):
        return f"{where}: more records"
    return None


for _mode in MODES:
    for _kinds, _plans in ((['dict', 'numpy', 'hdf5', 'inline', 'mixed'], ['one frame', 'listed in another order']), (['dict', 'inline'], ['two frames, odd order']),
                           (['dict', 'inline'], ['two logical files', 'interleaved'])):
        _n = f"file ({', '.join(_plans)}): {_mode}"
        OBLIGATIONS[_n] = Obligation(_n, MODES[_mode], file_body(_mode, _kinds, _plans), uses=('write_logical_records', 'write_struct_uvari') + USES.get(_mode, ()), budget=200,
                                     replay=lambda v, _m=_mode: native_file(v, _m), complete_replay=True)
