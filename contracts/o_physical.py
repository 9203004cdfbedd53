"""Physical layer: segments, visible records, storage unit label, buffered output (C01, C02, C10, C15; C12)."""
import inspect
import os
import random
import tempfile

import z3

from pyvc.sym import *
from pyvc.vc import MBA
from pyvc.interp import SymSeq, SymGen, IGen
from . import spec as S
from .core import *
from .core import Exc, Ret

L = 'logical_record.core.logical_record:'
F = 'file.writer:'


def lrb(it, src, maxlen=None):
    """A logical record of any length, content, type and kind, built through the constructor."""
    bts = src.bytes('body', maxlen)
    typ = src.int('type', 0, 255)
    eflr = src.bool('eflr')
    tb = Rope('bytes', [Lit([typ.t])]) if src.symbolic else bytes([typ])
    o = src.call(real(L + 'LogicalRecordBytes'), bts, tb, eflr)
    return o, bts, typ, eflr


# ------------------------------------------------------------------------------------------------- one segment
def check_segment(it, name, seg, size, bts, typ, eflr, pos, limit=None, must_fit=True):
    """The segment decodes (RP66 2.2.2) to a header and a non-empty part of the record starting at pos. -> length of that part"""
    vc = it.vc
    r = rope(seg)
    n = iv(r.n)
    if size is not None:
        vc.prove(name + ': declared size', iv(n) == it.as_num(size)[1], 'the size handed on is not the length of the bytes')
    vc.prove(name + ': length even and at least 16', z3.And(n % 2 == 0, n >= 16), f"{seg}")
    if limit is not None:
        vc.prove(name + ': fits', n <= limit, 'longer than allowed')
    b = [iv(r.get(vc, k)) for k in range(4)]
    vc.prove(name + ': length field', b[0] * 256 + b[1] == n, 'length field')
    attrs = b[2]
    bit = lambda k: (attrs / 2 ** k) % 2 == 1
    vc.prove(name + ': record type', b[3] == it.as_num(typ)[1], 'type')
    e = it.bterm(eflr)
    vc.prove(name + ': structure bit', bit(7) == e, 'explicit/indirect')
    vc.prove(name + ': no encryption, checksum, trailing length', z3.And(*[z3.Not(bit(k)) for k in (1, 2, 3, 4)]), 'attribute bits')
    last = iv(r.get(vc, z3.simplify(n - 1)))
    pad = z3.If(bit(0), last, 0)
    # decide the padding so that the body is a plain slice
    padded = vc.decide(bit(0))
    if padded:
        vc.prove(name + ': pad count', z3.And(last >= 1, last <= n - 4), 'pad count')
    k = z3.simplify(n - 4 - (last if padded else 0))
    vc.prove(name + ': predecessor bit', bit(6) == (pos > 0), 'predecessor')
    vc.prove(name + ': progress', k >= 1, 'a segment carries no byte of the record')
    blen = iv(rope(bts).n)
    vc.prove(name + ': within the record', pos + k <= blen, 'more bytes than the record has')
    vc.prove(name + ': successor bit', bit(5) == (pos + k < blen), 'successor')
    body = it.rope_slice(r, 4, SInt(z3.simplify(4 + k)))
    vc.eq_goal(name + ': body', body, it.rope_slice(rope(bts), SInt(pos), SInt(z3.simplify(pos + k))))
    return k


def native_segments(segs, bts, typ, eflr, limit):
    """The same, natively: None or what is wrong."""
    pos = 0
    for item in segs:
        seg, size = item
        seg = bytes(seg)
        n = len(seg)
        if size != n or n % 2 or n < 16 or n > limit or int.from_bytes(seg[:2], 'big') != n:
            return f"segment of {n} bytes (limit {limit}, declared {size}, header {seg[:4].hex()})"
        a = seg[2]
        pad = seg[-1] if a & 1 else 0
        if a & 1 and not 1 <= pad <= n - 4:
            return f"pad count {pad} in a segment of {n} bytes"
        body = seg[4:n - pad]
        want = (0x80 if eflr else 0) | (0x40 if pos else 0) | (0x20 if pos + len(body) < len(bts) else 0) | (a & 1)
        if a != want or seg[3] != typ:
            return f"attributes {a:#x} (expected {want:#x}), type {seg[3]} (expected {typ})"
        if not body or bytes(bts[pos:pos + len(body)]) != body:
            return f"body differs at offset {pos}"
        pos += len(body)
    if pos != len(bts):
        return f"{pos} of {len(bts)} bytes segmented"
    return None


def seg_replay(mk=None):
    def replay(values):
        """Replay, then look around the counterexample (lengths and limits near it)."""
        LR = real(L + 'LogicalRecordBytes')
        try:
            n0, m0 = len(values.get('body', b'')), int(values.get('max_n_bytes', 12))
        except Exception:
            return None
        for n in dict.fromkeys([n0, *range(max(0, n0 - 3), n0 + 4), *range(0, 60)]):
            for m in dict.fromkeys([m0, 12, 13, 14, 20, 8184]):
                if n > 300000 or m < 12 or m > 16376:
                    continue
                for eflr in (True, False):
                    bts = bytes((7 * k + 3) % 251 for k in range(n))
                    r = native_outcome(lambda: list(LR(bts, b'\x05', eflr).make_segments(m)), [])
                    d = f"{r!r}" if isinstance(r, Exc) else native_segments(r.v, bts, 5, eflr, m + 4)
                    if d:
                        return f"LogicalRecordBytes(<{n} bytes>, type 5, eflr={eflr}).make_segments({m}): {d}"
        return None
    return replay


@obligation('make_segments', 'C01 C02 C15', replay=seg_replay(), budget=60)
def _(it, vc):
    """All segments of a record of any length >= 1, for any segment size >= 12 (and below the 16-bit limit)."""
    src = SymSrc(it)
    o, bts, typ, eflr = lrb(it, src)
    mx = src.int('max_n_bytes', 12, 16376)
    # even maxima: what the writer's own check lets through (see 'visible record length')
    vc.assume(mx.t % 2 == 0)
    vc.ghost['pos'] = SInt(z3.IntVal(0))
    vc.cover('precondition')
    blen = iv(rope(bts).n)
    try:
        g = it.call(it.getattr(o, 'make_segments'), [mx])
        for x in it.iterate(g):
            seg, size = it.listof(x)
            vc.cover('yields')
            pos = vc.ghost['pos'].t
            k = check_segment(it, 'segment', seg, size, bts, typ, eflr, pos, limit=mx.t + 4)
            vc.gset('pos', SInt(z3.simplify(pos + k)))
    except PyRaise as e:
        vc.prove('segmentation never fails', False, f"raises {type(e.exc).__name__}: {e.exc}")
        return
    vc.cover('exhausted')
    vc.prove('segmentation complete', vc.ghost['pos'].t == blen, 'bytes left out')


@obligation('make_segment', 'C01 C02 C15', replay=seg_replay(), internal=True)
def _(it, vc):
    """One segment: any position and length within the record."""
    src = SymSrc(it)
    o, bts, typ, eflr = lrb(it, src)
    start, n = src.int('start', 0), src.int('n', 1, 16376)
    vc.assume(start.t + n.t <= iv(rope(bts).n))
    vc.cover('precondition')
    try:
        seg, size = it.listof(it.call(it.getattr(o, 'make_segment'), [start, n]))
    except PyRaise as e:
        vc.prove('segment: never fails', False, f"raises {type(e.exc).__name__}: {e.exc}")
        return
    vc.cover('returned')
    k = check_segment(it, 'segment', seg, size, bts, typ, eflr, start.t)
    vc.prove('segment: takes the requested bytes', k == n.t)


# ------------------------------------------------------------------------------------------------- files
def file_model(it, content=None):
    """open(): one file, an unknown byte string before; 'wb' replaces it, 'ab' appends.  -> the object with field 'content'"""
    vc = it.vc
    fs = Opq(object, 'the file', {'content': content if content is not None else vc.bytes('old_content', inp=False)})
    vc.label(fs)

    def m_open(it2, name, mode='r', *a, **k):
        if mode in ('wb', 'bw'):
            it2.setattr(fs, 'content', Rope('bytes', []))
        elif mode not in ('ab', 'ba'):
            raise Unsupported(f"open mode {mode}")

        def write(it3, b):
            b = b.rope if isinstance(b, MBA) else rope(b)
            it3.setattr(fs, 'content', concat('bytes', fs.fields['content'], b))
            return None
        noop = lambda it3, *a: None
        h = Opq(object, 'file handle', methods={'write': write, 'close': noop, 'flush': noop, '__enter__': lambda it3: h, '__exit__': lambda it3, *a: False})
        return h
    import builtins
    import io
    it.models[builtins.open] = m_open
    it.models[io.open] = m_open
    vc.trusted.add("open(name, 'wb'/'ab') truncates / appends, write() stores all its bytes in order (operating system)")
    return fs


def drive_writer(w, first, chunks):
    w.write_bytes(first)
    for c in chunks:
        w.write_bytes(c, len(c))


def drive_buffer(out, chunks):
    for c in chunks:
        out.add_bytes(c)
    out.pass_bytes_to_writer()


def chunk_seq(vc, name, lo=0, hi=None):
    """A sequence of unknown length of byte strings of unknown lengths, and its concatenation."""
    from pyvc.loops import Cat
    cat = Cat(vc, name)
    n = vc.int('n_' + name, 0)
    ln = z3.Function(vc.fname('len_' + name), z3.IntSort(), z3.IntSort())

    def elem(vc2, i):
        i = z3.simplify(i)
        vc.axiom(ln(i) >= lo)
        if hi is not None:
            vc.axiom(ln(i) <= hi)
        return cat.item(vc, i, ln(i))
    return SymSeq(name, n.t, elem), cat, n


def bw_replay(values):
    with tempfile.TemporaryDirectory() as d:
        for sizes in ([3], [0], [1, 2], [5, 0, 7, 1], [10] * 20):
            p = os.path.join(d, 'f.bin')
            with open(p, 'wb') as f:
                f.write(b'OLD CONTENT THAT HAS TO GO')
            w = real(F + 'ByteWriter')(p)
            chunks = [bytes((k * 5 + j) % 256 for j in range(s)) for k, s in enumerate(sizes)]
            try:
                for k, c in enumerate(chunks):
                    w.write_bytes(c, len(c)) if k else w.write_bytes(c)
                    with open(p, 'rb') as f:
                        got = f.read()
                    if got != b''.join(chunks[:k + 1]) or w.total_size != len(got):
                        return f"ByteWriter after {sizes[:k + 1]}: {len(got)} bytes on disk, total_size {w.total_size}, wanted {b''.join(chunks[:k + 1])!r:.80}"
            except Exception as e:
                return f"ByteWriter: {type(e).__name__}: {e}"
    return None


@obligation('ByteWriter', 'C01 C10', replay=bw_replay)
def _(it, vc):
    """Any number of writes: the old content is replaced, then the file is the concatenation, total_size its length."""
    src = SymSrc(it)
    fs = file_model(it)
    w = it.call(real(F + 'ByteWriter'), ['x.dlis'])
    first = src.bytes('first')
    chunks, cat, n = chunk_seq(vc, 'chunks')
    n1 = iv(rope(first).n)
    # total size: the size of the first chunk plus the offset reached in the others
    vc.extra_invariants['total size'] = lambda vc, fr, get: None
    vc.cover('precondition')
    try:
        it.call(drive_writer_total, [w, first, chunks, lambda_total(it, w, cat, n1)])
    except PyRaise as e:
        vc.prove('never fails', False, repr(e.exc))
        return
    vc.cover('exhausted')
    vc.eq_goal('the file is the concatenation of what was written', fs.fields['content'], concat('bytes', first, cat.upto(vc, cat.pos(vc, n.t))))


def drive_writer_total(w, first, chunks, check):
    w.write_bytes(first)
    check(0)
    for k, c in enumerate(chunks):
        before = w.total_size
        w.write_bytes(c, len(c))
        check(w.total_size - before - len(c))
    w.write_bytes(b'')


def lambda_total(it, w, cat, n1):
    def chk(it2, d):
        if isinstance(d, int):
            t = it2.as_num(it2.getattr(w, 'total_size'))[1]
            it2.vc.prove('total_size: first write', t == n1, 'total size after the first write')
        else:
            it2.vc.prove('total_size: grows by what was written', it2.as_num(d)[1] == 0, 'total size')
    return Opq(object, 'check', methods={'__call__': chk})


def buf_replay(values):
    import itertools
    B = real(F + 'BufferedOutput')
    rng = random.Random(7)
    for trial in range(400):
        size = rng.choice([1, 2, 7, 20, 64])
        lens = [rng.randint(1, size) for _ in range(rng.randint(0, 12))]
        got = []

        class Wr:
            total_size = 0

            def write_bytes(self, *a, **kw):
                b, n = (list(inspect.signature(real(F + 'ByteWriter.write_bytes')).bind(self, *a, **kw).arguments.values()) + [None])[1:3]
                b = bytes(b)
                if n not in (None, len(b)):
                    got.append(b'<wrong size>')
                got.append(b)
        chunks = [bytes((k * 31 + j) % 256 for j in range(n)) for k, n in enumerate(lens)]
        bounds = {0, *itertools.accumulate(lens)}
        try:
            o = B(size, Wr())
            for c in chunks:
                o.add_bytes(c)
                if sum(map(len, got)) not in bounds:
                    return f"BufferedOutput({size}) after chunks of {lens}: {sum(map(len, got))} bytes handed on: not a chunk boundary"
            o.pass_bytes_to_writer()
        except Exception as e:
            return f"BufferedOutput({size}), chunks of {lens}: {type(e).__name__}: {e}"
        if b''.join(got) != b''.join(chunks):
            return f"BufferedOutput({size}), chunks of {lens}: {b''.join(got)!r:.100} handed on instead of {b''.join(chunks)!r:.100}"
    return None


@obligation('BufferedOutput', 'C01 C02 C10', replay=buf_replay)
def _(it, vc):
    """Any number of chunks, each fitting the buffer: what reaches the writer is their concatenation, cut at chunk boundaries."""
    src = SymSrc(it)
    size = src.int('buffer_size', 1)
    chunks, cat, n = chunk_seq(vc, 'chunks', 1, size.t)
    sink = Opq(object, 'sink', {'content': Rope('bytes', []), 'total_size': vc.int('tot', 0)})
    vc.label(sink)

    def write_bytes(it2, b, n=None):
        b = b.rope if isinstance(b, MBA) else rope(b)
        if n is not None:
            vc.prove('the size handed on is the length of the bytes', it2.as_num(n)[1] == iv(b.n), 'size')
        it2.setattr(sink, 'content', concat('bytes', sink.fields['content'], b))
        t = z3.simplify(iv(sink.fields['content'].n))
        i = vc.memo.get('index')
        if i is not None:
            vc.prove('cut at a chunk boundary', z3.Or(t == cat.o(i), t == cat.o(z3.simplify(i + 1))), 'a chunk is cut in two')
    sink.methods['write_bytes'] = like(F + 'ByteWriter.write_bytes', write_bytes)
    base_elem = chunks.elem

    def elem(vc2, i):
        vc.memo['index'] = i
        return base_elem(vc2, i)
    chunks.elem = elem
    vc.cover('precondition')
    try:
        out = it.call(real(F + 'BufferedOutput'), [size, sink])
        vc.memo['index'] = None
        it.call(drive_buffer, [out, chunks])
    except PyRaise as e:
        vc.prove('never fails', False, repr(e.exc))
        return
    vc.cover('exhausted')
    vc.eq_goal('everything is handed on, in order', sink.fields['content'], cat.upto(vc, cat.pos(vc, n.t)))


# ------------------------------------------------------------------------------------------------- the writer
def buffered_output_contract(it, st):
    """Contract of BufferedOutput: a stream of chunks; see obligation 'BufferedOutput'."""
    vc = it.vc

    def make(it2, size, writer):
        def add_bytes(it3, bts, size_=None):
            n = iv(rope(bts).n)
            vc.prove('BufferedOutput.add_bytes requires: chunk fits the buffer, not empty', z3.And(n >= 1, n <= it3.as_num(size)[1]), f"{bts}")
            if size_ is not None:
                vc.prove('BufferedOutput.add_bytes requires: declared size', it3.as_num(size_)[1] == n, 'size')
            st['emit'](it3, bts)

        def flush(it3):
            st['flush'](it3)
        return Opq(object, 'BufferedOutput', methods={'add_bytes': like(F + 'BufferedOutput.add_bytes', lambda it3, bts, size=None: add_bytes(it3, bts, size)), 'pass_bytes_to_writer': flush})
    it.contracts[('class', real(F + 'BufferedOutput'))] = make
    vc.used_contracts.add('BufferedOutput')


def writer_replay(values):
    """The real writer on records of many sizes, re-read with an independent segment reader."""
    W = real(F + 'DLISWriter')
    LR = real(L + 'LogicalRecordBytes')
    SUL = real('logical_record.misc:StorageUnitLabel')

    class Rec:
        def __init__(self, b, t, e):
            self.b, self.t, self.e = b, t, e

        def represent_as_bytes(self):
            return LR(self.b, bytes([self.t]), self.e)
    vrl0 = values.get('vrl', 20)
    rng = random.Random(3)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'w.dlis')
        for vrl in dict.fromkeys([vrl0 if isinstance(vrl0, int) and 20 <= vrl0 <= 16384 else 20, 20, 22, 24, 64, 8192, 16384]):
            recs = [(bytes(rng.randrange(256) for _ in range(n)), rng.randrange(256), rng.random() < .5)
                    for n in [1, 2, 11, 12, 13, vrl - 9, vrl - 8, vrl - 7, vrl, 2 * vrl - 17, 2 * vrl - 16, 2 * vrl - 15, 5 * vrl + 3] if n > 0]
            for chunk in (vrl, vrl + 1, 2 * vrl, 10 ** 6):
                try:
                    w = W(p, vrl)
                    w.write_storage_unit_label(SUL('SET', 1, vrl))
                    w.write_logical_records([Rec(*r) for r in recs], chunk)
                except Exception as e:
                    return f"DLISWriter(vrl={vrl}), output chunk {chunk}: {type(e).__name__}: {e}"
                with open(p, 'rb') as f:
                    data = f.read()
                m = read_back(data, vrl, recs)
                if m:
                    return f"DLISWriter(vrl={vrl}), output chunk {chunk}: {m}"
    return None


def read_back(data, vrl, recs):
    pos, segs = 80, []
    while pos < len(data):
        h = data[pos:pos + 4]
        n = int.from_bytes(h[:2], 'big')
        if len(h) < 4 or h[2:] != b'\xff\x01' or not 20 <= n <= vrl or n % 2 or pos + n > len(data):
            return f"visible record header {h.hex()} at {pos}"
        q = pos + 4
        while q < pos + n:
            m = int.from_bytes(data[q:q + 2], 'big')
            if m < 16 or m % 2 or q + m > pos + n:
                return f"segment of {m} bytes at {q}"
            segs.append(data[q:q + m])
            q += m
        pos += n
    it = iter(segs)
    for b, t, e in recs:
        mine = []
        for s in it:
            mine.append((s, len(s)))
            if not s[2] & 0x20:
                break
        r = native_segments(mine, b, t, e, vrl)
        if r:
            return r
    return 'segments left over' if next(it, None) is not None else None


@obligation('write_logical_records', 'C01 C02 C10 C15', replay=writer_replay, uses=('make_segments', 'BufferedOutput'))
def _(it, vc):
    """Any number of records: each segment becomes exactly one visible record, in order, all handed to the file at the end."""
    src = SymSrc(it)
    fs = file_model(it)
    vrl = src.int('vrl', 20, 16384)
    vc.assume(vrl.t % 2 == 0)
    n = vc.int('n_records', 0)
    st = {}
    for g in ('generated', 'emitted', 'flushed', 'records'):
        vc.ghost[g] = SInt(z3.IntVal(0))

    def inc(g, v=1):
        vc.gset(g, SInt(z3.simplify(vc.ghost[g].t + v)))

    def elem(vc2, i):
        def represent(it2):
            vc.prove('records are taken in order, once each', vc.ghost['records'].t == i, 'record order')
            inc('records')

            def make_segments(it3, mx):
                m = it3.as_num(mx)[1]
                vc.prove('make_segments requires: even size of at least 12, fitting a visible record', z3.And(m >= 12, m % 2 == 0, m <= vrl.t - 8), f"{mx}")

                def nxt(vc3):
                    vc.prove('every segment is emitted', vc.ghost['generated'].t == vc.ghost['emitted'].t, 'a segment was dropped')
                    inc('generated')
                    ln = vc.int('segment_len', 16)
                    vc.add(z3.And(ln.t % 2 == 0, ln.t <= m + 4))
                    st['cur'] = vc.base('segment', ln.t)
                    st['cur_no'] = vc.ghost['generated'].t
                    return (st['cur'], ln)
                k = [vc.bool('more_segments') for _ in range(1)]
                return SymGen('segments', lambda vc3: vc.bool('more').t, nxt)
            return Opq(object, 'record bytes', methods={'make_segments': like(L + 'LogicalRecordBytes.make_segments', make_segments)})
        return Opq(object, f"record", methods={'represent_as_bytes': represent})
    recs = SymSeq('records', n.t, elem)

    def emit(it2, bts):
        r = rope(bts)
        ln = iv(r.n)
        inc('emitted')
        vc.prove('a visible record holds the segment just made', z3.And(vc.ghost['emitted'].t == vc.ghost['generated'].t, z3.BoolVal('cur' in st)), 'order')
        if 'cur' not in st:
            return
        b = [iv(r.get(vc, k)) for k in range(4)]
        vc.prove('visible record: length field', z3.And(b[0] * 256 + b[1] == ln, ln % 2 == 0, ln >= 20, ln <= vrl.t), 'length')
        vc.prove('visible record: format version', z3.And(b[2] == 255, b[3] == 1), 'FF01')
        vc.eq_goal('visible record: body is the segment', it2.rope_slice(r, 4, None), st['cur'])
    st['emit'] = emit

    def flush(it2):
        vc.gset('flushed', vc.ghost['emitted'])
    st['flush'] = flush
    buffered_output_contract(it, st)
    kind = src.pick('chunk_kind', ['int', 'float', 'none'])
    if kind == 'none':
        chunk = None
    else:
        c = src.int('output_chunk_size')
        vc.assume(c.t >= vrl.t)
        chunk = c if kind == 'int' else SReal(z3.ToReal(c.t))
    vc.cover('precondition')
    sul = it.call(real('logical_record.misc:StorageUnitLabel'), ['SET', 1, vrl])
    try:
        w = it.call(real(F + 'DLISWriter'), ['/x.dlis', vrl])
        it.call(it.getattr(w, 'write_storage_unit_label'), [sul])
        head = fs.fields['content']
        vc.prove('the label opens the file: 80 bytes', iv(head.n) == 80, 'label')
        want = it.getattr(it.call(it.getattr(sul, 'represent_as_bytes')), 'bts')
        vc.eq_goal('the label opens the file', head, want)
        it.call(it.getattr(w, 'write_logical_records'), [recs, chunk])
    except PyRaise as e:
        vc.prove('writing never fails', False, f"raises {type(e.exc).__name__}: {e.exc}")
        return
    vc.cover('exhausted')
    vc.prove('every record is written', vc.ghost['records'].t == n.t, 'records')
    vc.prove('every segment is emitted', vc.ghost['generated'].t == vc.ghost['emitted'].t, 'segments')
    vc.prove('everything is flushed at the end', vc.ghost['flushed'].t == vc.ghost['emitted'].t, 'bytes left in the buffer')


def vrl_spec(vrl):
    if vrl < 20 or vrl > 16384 or vrl % 2 != 0:
        raise S.Reject('visible record length')
    return None


def vrl_real(vrl):
    real(F + 'DLISWriter')('x.dlis', vrl)


relational('visible record length', 'C01 C15', lambda: vrl_real, vrl_spec, lambda s: (s.int('vrl'),))


# ------------------------------------------------------------------------------------------------- storage unit label
def sul_real(set_id, seq, mrl):
    return real('logical_record.misc:StorageUnitLabel')(set_id, seq, mrl).represent_as_bytes().bts


def right(text, n):
    if len(text) > n:
        raise S.Reject('too long')
    return ' ' * (n - len(text)) + text


def left(text, n):
    if len(text) > n:
        raise S.Reject('too long')
    return text + ' ' * (n - len(text))


def sul_spec(set_id, seq, mrl):
    """RP66 V1 2.3.2"""
    if seq < 1 or mrl > 16384:
        raise S.Reject('range')
    return S.text_bytes(right(str(seq), 4) + 'V1.00' + 'RECORD' + right(str(mrl), 5) + left(set_id, 60))


relational('StorageUnitLabel', 'C01 C12', lambda: sul_real, sul_spec, lambda s: (s.str('set_identifier'), s.int('sequence_number'), s.int('max_record_length', 20)))
