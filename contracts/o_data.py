"""Data of frames: from the arrays of the caller to the bodies of the frame data records (C03, C08, C10, C11, C12, C18, C19)."""
import numpy as np
import z3

from pyvc.interp import SymSeq, YieldAll, norm_seq
from pyvc.npmodel import Arr, SDT, cast, img, source, term_of, wrap
from pyvc.sym import *
from . import spec as S
from .core import *
from .core import Exc, Ret, INLINE

W = 'utils.source_data_wrappers:'
DTYPES = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float64']


# ------------------------------------------------------------------------------------------------- sources
class H5(Opq):
    """An open HDF5 file (trusted: h5py returns what is stored; slices of data sets are new arrays)."""

    def __init__(self, sets):
        import h5py
        super().__init__(h5py.File, 'HDF5 file', {})
        self.sets = sets
        self.methods = {'__getitem__': self.item, 'close': lambda it: None, '__contains__': lambda it, k: k.strip('/') in sets}

    def item(self, it, k):
        k = k.strip('/')
        if k not in self.sets:
            raise PyRaise(KeyError(f"Unable to open object {k}"))
        return self.sets[k]

    def close(self):
        pass


# channel, name in the source, dtype in the source, dtype asked for (None: as it is), number of columns (0: one value per row)
def ch(name, dtype, known=None, wide=False, loc=None):
    return (name, loc or name, dtype, known, wide)


def configs(tier='all'):
    out = []
    for d in DTYPES:
        for o in '<>':
            for wide in (False, True):
                out.append([ch('A', o + np.dtype(d).str[1:], None, wide)])
    out += [[ch('A', '<f8', 'float32')], [ch('A', '>f8', 'float32', True)], [ch('A', '<i2', 'float64', True)], [ch('A', '>u4', 'uint8')],
            [ch('A', '<f4', 'float32')], [ch('A', '>i4', 'int32', True)],
            [ch('A', '<f8'), ch('B', '<i4')], [ch('A', '<f8', loc='B'), ch('B', '<f8', loc='A')], [ch('B', '>u2', None, True), ch('A', '<f8')],
            [ch('A', '<f4', None, True), ch('B', '<f4', None, True)], [ch('A', '<f8', loc='x'), ch('B', '<f8', loc='y'), ch('C', '<i2', 'int32', loc='z')],
            [ch('A', '<f8', loc='x'), ch('B', '<f8', loc='x')]]
    return out


def make_source(it, kind, cfg, extra=True):
    """-> (object to be passed, mapping, known dtypes, {channel: (array, width or None)}, rows)"""
    vc = it.vc
    n = vc.int('rows', 1, inp=True)
    sets, arrays = {}, {}
    for name, loc, d, known, wide in cfg:
        if loc not in sets:
            sets[loc] = (np.dtype(d), (vc.int(f"columns_{loc}", 1, inp=True),) if wide else ())
    sets = dict(sorted(sets.items()))
    if kind == 'numpy':
        items = [(loc, d, s) for loc, (d, s) in sets.items()] + ([('UNUSED', np.dtype('<f8'), ())] if extra else [])
        dt = SDT(items)
        if not any(s for _, _, s in items):
            dt = np.dtype([(a, b) for a, b, _ in items])
        obj = source(vc, 'source', dt, (n,))
        val = {loc: obj.val[loc] for loc in sets}
    else:
        import h5py
        typ = h5py.Dataset if kind == 'hdf5' else None
        arrs = {loc: source(vc, loc, d, (n,) + s, typ=typ) for loc, (d, s) in sets.items()}
        if extra:
            arrs['UNUSED'] = source(vc, 'UNUSED', np.dtype('<c16') if kind == 'dict' else np.dtype('<f8'), (vc.int('unused', 0),), typ=typ)
        val = {loc: arrs[loc].val for loc in sets}
        if kind == 'hdf5':
            h5 = H5(arrs)
            it.models[h5py.File] = lambda it2, name, mode='r': h5
            obj = '/x/data.h5'
        else:
            obj = arrs
    mapping = {name: loc for name, loc, *_ in cfg}
    known = {name: np.dtype(k) if i % 2 else np.dtype(k).type for i, (name, _, _, k, _) in enumerate(cfg) if k}
    want = {name: (val[loc], sets[loc][0], np.dtype(k) if k else sets[loc][0].newbyteorder('='), sets[loc][1]) for name, loc, _, k, _ in cfg}
    return obj, mapping, known, want, n


def wrapper(it, obj, mapping, known, lo, hi):
    make = it.getattr(real(W + 'SourceDataWrapper'), 'make_wrapper')
    return it.call(make, [obj, mapping], {'known_dtypes': known, 'from_idx': lo, 'to_idx': hi})


def window(it, cfg, kind, extra=True):
    """A wrapper of any accepted window of any source."""
    vc = it.vc
    obj, mapping, known, want, n = make_source(it, kind, cfg, extra)
    lo = vc.int('from_idx', 0, inp=True)
    hi = vc.int('to_idx', inp=True) if vc.choose('to_idx given', 2) else None
    vc.inputs['to_given'] = hi is not None
    end = hi.t if hi is not None else n.t
    vc.assume(z3.And(lo.t < end, end <= n.t))
    vc.inputs['cfg'], vc.inputs['kind'], vc.inputs['extra'] = cfg, kind, extra
    vc.cover('precondition')
    w = wrapper(it, obj, mapping, known, lo, hi)
    return w, want, n, lo.t, end


def check_rows(it, seq, want, base, what):
    """Rows of a structured array (or sequence of rows) seq are the rows base, base+1, ... of the source."""
    vc = it.vc
    r = vc.int('any_row', 0)
    ln = term_of(seq.shape[0]) if isinstance(seq, Arr) else iv(seq.n)
    if not vc.decide(r.t < ln):
        return
    row = seq.row(vc, r.t) if isinstance(seq, Arr) else seq.elem(vc, r.t)
    check_row(it, row, want, z3.simplify(base + r.t), what)


def check_row(it, row, want, at, what):
    vc = it.vc
    if not isinstance(row, Arr) or row.struct is None or row.shape:
        vc.prove(f"{what}: a row of a structured array", False, f"{row!r}")
        return
    items = row.struct.items
    vc.prove(f"{what}: the channels in order", [m for m, _, _ in items] == list(want), f"{[m for m, _, _ in items]}")
    for name, (val, d0, d, width) in want.items():
        f = [x for x in items if x[0] == name][0]
        vc.prove(f"{what}: data type", f[1] == d, f"{f[1]} for {d}")
        vc.prove(f"{what}: dimensions", len(f[2]) == len(width), f"{f[2]}")
        k = ()
        if width:
            vc.prove(f"{what}: number of columns", term_of(f[2][0]) == term_of(width[0]), 'columns')
            j = vc.int('any_column', 0)
            vc.add(j.t < term_of(width[0]))
            k = (j.t,)
        vc.prove(f"{what}: the value of the row of the source", row.val[name](vc, k) == cast(d0, d, val(vc, (at,) + k)), f"{name}, row {at}")


# -- native side
def native_source(kind, cfg, v, rng, path=None):
    def num(k, default, lo):
        x = v.get(k)
        return max(lo, min(400, x if isinstance(x, int) else default))
    n = num('rows', 7, 1)
    sets = {}
    for name, loc, d, known, wide in cfg:
        if loc not in sets:
            shape = (n, num(f"columns_{loc}", 3, 1)) if wide else (n,)
            d = np.dtype(d)
            x = rng.standard_normal(shape) * 50 if d.kind == 'f' else rng.integers(0, 100, shape)
            sets[loc] = x.astype(d)
    sets = dict(sorted(sets.items()))
    extra = {**sets, 'UNUSED': np.zeros(n)} if kind != 'numpy' or v.get('extra', True) else sets
    if kind == 'dict':
        obj = extra
    elif kind == 'numpy':
        obj = np.zeros(n, np.dtype([(k, x.dtype, x.shape[1:]) for k, x in extra.items()]))
        for k, x in extra.items():
            obj[k] = x
    else:
        import h5py
        with h5py.File(path, 'w') as f:
            for k, x in extra.items():
                f[k] = x
        obj = path
    return obj, sets, n


def native_case(values, chunk=None):
    """Failure of the real wrapper on a concrete source like the counterexample, or None."""
    import tempfile
    cfg, kind = values.get('cfg'), values.get('kind')
    if not isinstance(cfg, list):
        return None
    cfg = [tuple(c) for c in cfg]
    rng = np.random.default_rng(5)
    with tempfile.TemporaryDirectory() as d:
        obj, sets, n = native_source(kind, cfg, values, rng, d + '/data.h5')
        lo = values.get('from_idx', 0)
        hi = values.get('to_idx') if values.get('to_given') else None
        before = {k: x.copy() for k, x in sets.items()}
        end = n if hi is None else hi
        if not 0 <= lo < end <= n:
            return None
        w = real(W + 'SourceDataWrapper').make_wrapper(obj, {a: b for a, b, *_ in cfg}, known_dtypes={a: np.dtype(k) for a, _, _, k, _ in cfg if k},
                                                       from_idx=lo, to_idx=hi)
        tries = [('rows', c, None) for c in ([chunk] if chunk is not None else []) + [1, 2, 3, end - lo, end - lo + 1, 10 ** 9, None]]
        a, b = values.get('start'), values.get('stop')
        tries += [('chunk', x, y) for x, y in ([(a, b)] if isinstance(a, int) else []) + [(0, None), (1, 1), (0, 1), (end - lo, None)]]
        for what, x, y in tries:
            s, t = (0, end - lo) if what == 'rows' else (x, end - lo if y is None else y)
            try:
                rows = list(w.make_chunked_generator(x)) if what == 'rows' else list(w.load_chunk(x, y))
            except Exception as e:
                if 0 <= s <= t <= end - lo:
                    return f"{kind} source {cfg}, rows {lo}..{end}: {what} {x},{y} raises {type(e).__name__}: {e}"
                continue
            if not 0 <= s <= t <= end - lo:
                return f"{kind} source {cfg}, rows {lo}..{end}: chunk {x},{y} is accepted"
            if len(rows) != t - s:
                return f"{kind} source {cfg}, rows {lo}..{end}: {what} {x},{y}: {len(rows)} rows instead of {t - s}"
            for i, r in enumerate(rows):
                if list(r.dtype.names) != [c[0] for c in cfg]:
                    return f"{kind} source {cfg}: fields {r.dtype.names}"
                for name, loc, _, known, _ in cfg:
                    src = before[loc][lo + s + i]
                    want = np.asarray(src).astype(np.dtype(known) if known else np.asarray(src).dtype.newbyteorder('='))
                    got = np.asarray(r[name])
                    if got.dtype != want.dtype or got.tobytes() != want.tobytes():
                        return f"{kind} source {cfg}, rows {lo}..{end}: {what} {x},{y}: row {i}, {name}: {got!r} instead of {want!r}"
        if kind != 'hdf5':
            for k, x in before.items():
                if obj[k].tobytes() != x.tobytes() or obj[k].dtype != x.dtype:
                    return f"{kind} source {cfg}: the data of the caller have been changed"
    return None


def load_body(kind):
    def body(it, vc):
        cs = configs()
        cfg = cs[vc.choose('cfg', len(cs))]
        try:
            w, want, n, lo, end = window(it, cfg, kind, extra=kind != 'numpy' or bool(vc.choose('extra field', 2)))
        except PyRaise as e:
            vc.prove('an accepted window of an accepted source', False, f"raises {type(e.exc).__name__}: {e.exc}")
            return
        vc.prove('number of rows', term_of(it.getattr(w, 'n_rows')) == end - lo, 'n_rows')
        a = vc.int('start', inp=True)
        b = vc.int('stop', inp=True) if vc.choose('stop given', 2) else None
        stop = b.t if b is not None else end - lo
        try:
            c = it.call(it.getattr(w, 'load_chunk'), [a, b])
        except PyRaise as e:
            vc.cover('rejected')
            vc.prove('only windows out of range are rejected', z3.Or(a.t < 0, stop < a.t, stop > end - lo), f"raises {type(e.exc).__name__}: {e.exc}")
            return
        vc.cover('returned')
        vc.prove('windows out of range are rejected', z3.And(a.t >= 0, stop >= a.t, stop <= end - lo), 'accepted')
        if not isinstance(c, Arr) or len(c.shape) != 1:
            vc.prove('a table of rows', False, f"{c!r}")
            return
        vc.prove('number of rows of the chunk', term_of(c.shape[0]) == stop - a.t, 'length')
        check_rows(it, c, want, lo + a.t, 'chunk')
    return body


for _k in ('dict', 'numpy', 'hdf5'):
    OBLIGATIONS[f"load_chunk: {_k}"] = Obligation(f"load_chunk: {_k}", 'C03 C10 C11 C19', load_body(_k), replay=native_case, complete_replay=True, budget=120)


# ------------------------------------------------------------------------------------------------- the window of rows
def window_spec(n, lo, hi):
    end = n if hi is None else hi
    if lo < 0 or lo >= end or end > n:
        raise S.Reject('window')
    return end - lo


def window_body(kind):
    def body(it, vc):
        cfg = [ch('A', '<f8'), ch('B', '<i4')]
        obj, mapping, known, want, n = make_source(it, kind, cfg)
        lo = vc.int('from_idx', inp=True)
        hi = vc.int('to_idx', inp=True) if vc.choose('to_idx given', 2) else None
        vc.inputs['to_given'] = hi is not None
        vc.inputs['kind'] = kind
        vc.cover('precondition')

        def run(lo, hi):
            return it.getattr(wrapper(it, obj, mapping, known, lo, hi), 'n_rows')
        try:
            r = Ret(run(lo, hi))
        except PyRaise as e:
            r = Exc(e.exc)
        relate(it, f"window of rows: {kind}", r, outcome(it, window_spec, [n, lo, hi]))
    return body


def window_replay(values):
    import tempfile
    cfg = [ch('A', '<f8'), ch('B', '<i4')]
    with tempfile.TemporaryDirectory() as d:
        obj, sets, n = native_source(values['kind'], cfg, values, np.random.default_rng(1), d + '/data.h5')
        lo, hi = values.get('from_idx', 0), values.get('to_idx') if values.get('to_given') else None
        for lo, hi in [(lo, hi), (0, None), (0, n), (0, n + 1), (-1, n), (n, None), (n, n + 1), (n - 1, n), (1, 1), (2, 1), (0, 0), (1, 0), (0, -1), (-1, None)]:
            r = native_outcome(lambda: real(W + 'SourceDataWrapper').make_wrapper(obj, {'A': 'A', 'B': 'B'}, from_idx=lo, to_idx=hi).n_rows, [])
            m = native_mismatch(r, native_outcome(window_spec, [n, lo, hi]))
            if m:
                return f"{values['kind']} source of {n} rows, from_idx={lo}, to_idx={hi}: {m}"
    return None


for _k in ('dict', 'numpy', 'hdf5'):
    OBLIGATIONS[f"window of rows: {_k}"] = Obligation(f"window of rows: {_k}", 'C11 C12', window_body(_k), replay=window_replay, complete_replay=True)


# ------------------------------------------------------------------------------------------------- chunks
def chunk_body(kind):
    def body(it, vc):
        cs = [[ch('A', '>f4'), ch('B', '<i2', 'float64', True)], [ch('A', '<f8')]]
        cfg = cs[vc.choose('cfg', len(cs))]
        try:
            w, want, n, lo, end = window(it, cfg, kind, extra=kind != 'numpy' or bool(vc.choose('extra field', 2)))
        except PyRaise as e:
            vc.prove('an accepted window of an accepted source', False, f"raises {type(e.exc).__name__}: {e.exc}")
            return
        c = vc.int('chunk', 1, inp=True) if vc.choose('chunk given', 2) else None
        vc.ghost['pos'] = SInt(z3.IntVal(0))
        vc.loop_terms = {'chunk': c.t} if c is not None else {}
        try:
            g = it.call(it.getattr(w, 'make_chunked_generator'), [c])
            for x in it.iterate(g):
                pos = vc.ghost['pos'].t
                if isinstance(x, YieldAll):
                    seq = norm_seq(x.src)
                    if not isinstance(seq, (Arr, SymSeq)):
                        raise Unsupported(f"rows from {seq!r}")
                    check_rows(it, seq, want, lo + pos, 'rows in order')
                    ln = term_of(seq.shape[0]) if isinstance(seq, Arr) else iv(seq.n)
                    vc.gset('pos', SInt(z3.simplify(pos + ln)))
                else:
                    vc.prove('no row beyond the window', pos < end - lo, 'row')
                    check_row(it, x, want, z3.simplify(lo + pos), 'rows in order')
                    vc.gset('pos', SInt(z3.simplify(pos + 1)))
        except PyRaise as e:
            vc.prove('no chunk size is rejected', False, f"raises {type(e.exc).__name__}: {e.exc}")
            return
        vc.cover('exhausted')
        vc.prove('every row, once', vc.ghost['pos'].t == end - lo, 'rows left out')
    return body


for _k in ('dict', 'numpy', 'hdf5'):
    OBLIGATIONS[f"rows by chunks: {_k}"] = Obligation(f"rows by chunks: {_k}", 'C03 C10 C11', chunk_body(_k),
                                                       replay=lambda v: native_case(v, v.get('chunk')), complete_replay=True, budget=120)


# ------------------------------------------------------------------------------------------------- frame data records
def make_frame(names):
    lf = real('file.file:DLISFile')().add_logical_file()
    return lf.add_frame('FRAME', channels=[lf.add_channel(n) for n in names], origin_reference=3)


def body_of(record):
    """What is handed to the segmentation: body, and first byte of the attributes and type of a segment."""
    lr = record.represent_as_bytes()
    return lr.bts


def head_of(record):
    lr = record.represent_as_bytes()
    return list(lr.make_segments(8180))[0][0][2:4]


def cell_bytes(it, d0, d, val, width, pre=()):
    """Big-endian images of the values val(pre), or val(pre, 0), val(pre, 1), ...  in dtype d."""
    isz = d.itemsize
    if not width:
        v = cast(d0, d, val(it.vc, pre))
        return Rope('bytes', [Base(lambda k: img(d, v, k), 0, isz, 'expected')])
    n = z3.simplify(term_of(width[0]) * isz)
    f = lambda k: img(d, cast(d0, d, val(it.vc, pre + (z3.simplify(iv(k) / isz),))), z3.simplify(iv(k) % isz))
    return Rope('bytes', [Base(f, 0, n, 'expected')])


@obligation('FrameData: any number of channels', 'C03 C08 C02 C12', replay=lambda v: frame_replay(v), internal=True, budget=120)
def _(it, vc):
    """Body: OBNAME of the frame, frame number (UVARI), for each channel its values, big-endian, nothing else."""
    frame = it.call(make_frame, [['A']])
    memo = {}

    def cell(i):
        i = z3.simplify(iv(i))
        k = i.sexpr()
        if k not in memo:
            d = np.dtype(DTYPES[vc.choose('dtype ' + k, len(DTYPES))])
            w = (wrap(z3.Function('columns', z3.IntSort(), z3.IntSort())(i)),) if vc.choose('wide ' + k, 2) else ()
            if w:
                vc.axiom(term_of(w[0]) >= 1)
            f = z3.Function('slot', z3.IntSort(), z3.IntSort(), z3.IntSort())
            memo[k] = (d, w, lambda vc, j: f(i, j[0] if j else z3.IntVal(0)))
        return memo[k]
    from pyvc.loops import SpecCat
    n = vc.int('channels', 1, inp=True)

    def elem(vc2, i):
        d, w, val = cell(i)
        return Arr(d, w, val, 'slot', frozen=True)
    slots = SymSeq('slots', n.t, elem)

    def contrib(i):
        d, w, val = cell(i)
        return cell_bytes(it, d, d, val, w)
    cat = SpecCat(vc, 'values', contrib)
    if vc.unroll is not None:
        for k in range(vc.unroll):
            if not vc.decide(z3.IntVal(k) < n.t):
                break
            cat.touch(vc, z3.IntVal(k))
    no = vc.int('frame_number', 1, inp=True)
    vc.cover('precondition')
    use_contracts(it, ['UVARI'] if 'UVARI' in OBLIGATIONS else [])
    cls = real('logical_record.iflr_types:FrameData')
    try:
        fd = it.call(cls, [], {'frame': frame, 'frame_number': no, 'slots': slots, 'origin_reference': 3})
        r = outcome(it, body_of, [fd])
    except PyRaise as e:
        r = Exc(e.exc)
    s = outcome(it, S.uvari, [no])
    if isinstance(s, Exc):
        relate(it, 'frame number', r, s)
        return
    vc.cover('returned')
    if isinstance(r, Exc):
        vc.prove('frame data', False, f"{r!r}")
        return
    head = concat('bytes', rope(it.call(S.obname, [3, 0, 'FRAME'])), rope(s.v))
    same(it, 'body', r.v, concat('bytes', head, cat.upto(vc, cat.pos(vc, n.t))))


def frame_native(names, row, number):
    """Failure of the real FrameData on a row, or None."""
    frame = make_frame(names)
    r = native_outcome(lambda: body_of(real('logical_record.iflr_types:FrameData')(frame, number, row, origin_reference=3)), [])

    def want():
        b = S.obname(3, 0, 'FRAME') + S.uvari(number)
        for x in row:
            x = np.asarray(x)
            b += x.astype(x.dtype.newbyteorder('>')).tobytes()
        return b
    m = native_mismatch(r, native_outcome(want, []))
    return m and f"FrameData(number={number}, row of {row.dtype}): {m}"


def frame_replay(values):
    rng = np.random.default_rng(3)
    no = values.get('frame_number')
    for number in [no if isinstance(no, int) else 1, 1, 127, 128, 255, 256, 16383, 16384, 2 ** 30 - 1, 2 ** 30]:
        for dts in [DTYPES, ['float64'], ['int8', 'uint8'], ['uint16', 'int32']]:
            for shape in [(), (1,), (3,)]:
                items = [(f"C{i}", d, shape if i % 2 or not shape else (2,)) if shape else (f"C{i}", d) for i, d in enumerate(dts)]
                a = np.zeros(1, np.dtype(items))
                for nm in a.dtype.names:
                    a[nm] = rng.integers(0, 100, a[nm].shape)
                m = frame_native(list(a.dtype.names), a[0], number)
                if m:
                    return m
    return None


def drain(mfd, check):
    """Interpreted by the verifier: iterate over the records of a frame."""
    records = iter(mfd)
    n = len(mfd)
    k = 0
    while k < n:
        check(k, next(records))
        k += 1
    try:
        next(records)
    except StopIteration:
        return k
    raise AssertionError('more records than rows')


def drain_body(kind):
    def body(it, vc):
        cs = [[ch('A', '>f4'), ch('B', '<i2', 'float64', True)], [ch('A', '<f8')]]
        cfg = cs[vc.choose('cfg', len(cs))]
        try:
            w, want, n, lo, end = window(it, cfg, kind, extra=kind != 'numpy' or bool(vc.choose('extra field', 2)))
            frame = it.call(make_frame, [[c[0] for c in cfg]])
        except PyRaise as e:
            vc.prove('an accepted window of an accepted source', False, f"raises {type(e.exc).__name__}: {e.exc}")
            return
        vc.assume(end - lo < 2 ** 30)
        c = vc.int('chunk', 1, inp=True) if vc.choose('chunk given', 2) else None
        getattr(real('logical_record.iflr_types:FrameData'), 'lr_type_struct', None)     # (a cache: see C14)

        def rows(it2, *a, **k):
            """Contract of make_chunked_generator (proved: rows by chunks)."""
            it2.vc.used_contracts.add(f"rows by chunks: {kind}")
            a = dict(zip(['self', 'chunk_rows'], a), **k)
            x = a['chunk_rows']
            if x is not None:
                vc.prove('a positive number of rows is asked for', term_of(x) >= 1, f"{x}")
            vc.ghost['taken'] = SInt(z3.IntVal(0))
            items = [(nm, v[2], v[3]) for nm, v in want.items()]

            def nxt(it3, *d):
                t = vc.ghost['taken'].t
                if not vc.decide(t < end - lo):
                    raise PyRaise(StopIteration())
                vc.gset('taken', SInt(z3.simplify(t + 1)))
                at = z3.simplify(lo + t)
                return Arr(SDT(items), (), {nm: (lambda vc3, j, v=v: cast(v[1], v[2], v[0](vc3, (at,) + j))) for nm, v in want.items()}, 'row', frozen=True)
            g = Opq(object, 'rows', {}, methods={'__next__': nxt})
            return g
        if f"rows by chunks: {kind}" not in INLINE:
            it.contracts[code(real(W + 'SourceDataWrapper.make_chunked_generator'))] = rows

        def check(it2, k, fd):
            head = it2.call(S.obname, [3, 0, 'FRAME'])
            num = it2.call(S.uvari, [SInt(z3.simplify(term_of(k) + 1))])
            exp = [rope(head), rope(num)]
            for nm, (val, d0, d, width) in want.items():
                exp.append(cell_bytes(it2, d0, d, val, width, (z3.simplify(lo + term_of(k)),)))
            same(it2, 'the record of a row: frame, number, values', it2.call(body_of, [fd]), concat('bytes', *exp))
        try:
            m = it.call(real('file.multi_frame_data:MultiFrameData'), [frame, w], {'chunk_size': c})
            vc.prove('number of records', term_of(it.call(len, [m])) == end - lo, 'len')
            k = it.call(drain, [m, Opq(object, 'check', methods={'__call__': check})])
        except PyRaise as e:
            vc.prove('the records of a frame', False, f"raises {type(e.exc).__name__}: {e.exc}")
            return
        vc.cover('exhausted')
        vc.prove('a record per row', term_of(k) == end - lo, 'records')
    return body


def drain_replay(values):
    import tempfile
    cfg, kind = [tuple(c) for c in values['cfg']], values['kind']
    with tempfile.TemporaryDirectory() as d:
        obj, sets, n = native_source(kind, cfg, {**values, 'rows': max(7, values.get('rows', 7) if isinstance(values.get('rows'), int) else 7)},
                                     np.random.default_rng(1), d + '/data.h5')
        for lo, hi in [(0, None), (2, None), (1, 4)]:
            for c in [None, 1, 2, 3, 7, 100]:
                w = real(W + 'SourceDataWrapper').make_wrapper(obj, {a: b for a, b, *_ in cfg}, known_dtypes={a: np.dtype(k) for a, _, _, k, _ in cfg if k},
                                                               from_idx=lo, to_idx=hi)
                frame = make_frame([x[0] for x in cfg])
                r = native_outcome(lambda: [body_of(x) for x in real('file.multi_frame_data:MultiFrameData')(frame, w, chunk_size=c)], [])
                want = []
                for i in range(lo, n if hi is None else hi):
                    b = S.obname(3, 0, 'FRAME') + S.uvari(i - lo + 1)
                    for name, loc, _, known, _ in cfg:
                        x = np.asarray(sets[loc][i])
                        b += x.astype((np.dtype(known) if known else x.dtype).newbyteorder('>')).tobytes()
                    want.append(b)
                m = native_mismatch(r, Ret(want))
                if m:
                    return f"{kind} source {cfg}, rows {lo}..{hi}, input chunks of {c}: {m}"
    return None


for _k in ('dict', 'numpy', 'hdf5'):
    OBLIGATIONS[f"records of a frame: {_k}"] = Obligation(f"records of a frame: {_k}", 'C03 C10 C11 C08', drain_body(_k), replay=drain_replay, complete_replay=True,
                                                           budget=120, uses=(f"rows by chunks: {_k}",))
