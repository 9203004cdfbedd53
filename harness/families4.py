"""Families C14, C17, C18, C19, C20."""
from __future__ import annotations
import hashlib
import logging
import os
import random
from datetime import datetime, timezone

import numpy as np

from . import rp66, model, gen
from .engine import family, Skip, Violation
from .families import base, add_origin, add_frame, wr, rnd, write_opts, payload, MRLS, KWS, POOLS, _support, attr_value
from .families3 import ALLP, INVALID
from .gen import G, random_scenario, data_arg, write, DTYPES, PRINTABLE, UNITS, HCCH
from .model import Scenario, Val, TABLE, METHOD, PYATTR, spec_of, compare, Mismatch, LFRec, real


# ================================================================================================ C14
def in_child(fn):
    """Run fn() in a forked child; -> ('ok', bytes) | ('err', text)"""
    rd, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = b'K' + fn()
            except BaseException as e:
                out = b'E' + f"{type(e).__name__}: {e}".encode('utf8', 'replace')[:2000]
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(rd, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    return ('ok', b[1:]) if b[:1] == b'K' else ('err', b[1:].decode('utf8', 'replace'))


def pristine(cx):
    """C14 cases fork from a process in which dliswriter was imported but never used; the worker stays unused."""
    return cx


def mutations(sc, r, n):
    """deterministic assignments to existing objects (same choices for the same r)"""
    g = G(r, size='tiny')
    for _ in range(n):
        lf = r.choice(sc.lfs)
        o = r.choice(lf.objs)
        kws = [k for k in TABLE[o.type] if not k.startswith('__')]
        kw = r.choice(kws)
        label, kind, tgt, multi, nested = spec_of(o.type, kw)
        if kind in ('O', 'R', 'OT', 'DIM', 'M', 'DTN') or nested or (o.type, kw) in POOLS or kw in ('properties', 'file_set_number') \
                or o.type in ('CALIBRATION-COEFFICIENT', 'FRAME') or (o.type, kw) == ('CHANNEL', 'units'):
            continue
        v = [g.scalar(kind) for _ in range(r.randint(1, 3))] if multi else g.scalar(kind)
        u = g.units() if kind in ('N', 'NI', 'UV', 'UN') and r.random() < .4 else None
        lf.assign(o, kw, v, u)


def rename(sc, r):
    """rename objects, change copy-neutral identity parts"""
    for lf in sc.lfs:
        for o in lf.objs:
            if o.type not in ('CHANNEL', 'FRAME', 'ORIGIN') and r.random() < .1:
                o.item.name = f"RENAMED{r.randrange(10**6)}"
                o.name = o.item.name


@family('C14', 260, on_raise='fail')
def histories(cx):
    """build / write / mutate histories in one process against a fresh process executing the final specification"""
    r = cx.r
    seed = f"{cx.seed}:c14:{cx.i}"
    inline = r.random() < .5
    kw = dict(inline=inline, max_objs=8, mrl=r.choice([32, 128, 8192]), rows=None if inline else r.choice([1, 3, 6]), short_names=True,
              n_lf=r.choice([1, 1, 2]) if inline else 1)
    source = 'inline' if inline else r.choice(['dict', 'struct', 'h5'])
    n_mut = r.choice([0, 0, 3, 8])
    ren = r.random() < .3
    win = (0, None) if inline or r.random() < .5 else (0, 1)
    plan = [r.choice(['other', 'other', 'write', 'write-opts', 'fail', 'hc', 'hc-fail', 'cached', 'other-data']) for _ in range(r.randint(1, 4))]
    pseed = r.random()
    path = cx.path()
    win_o = {'from_idx': win[0], 'to_idx': win[1]} if win != (0, None) else {}

    def final(sc):
        return write(sc, path, data_arg(sc, source, cx.tmp, random.Random(5)), **win_o)

    def fresh():
        sc = random_scenario(seed, **kw)
        mutations(sc, random.Random(pseed), n_mut)
        if ren:
            rename(sc, random.Random(pseed))
        return final(sc)

    def with_history():
        from dliswriter import high_compatibility_mode
        hr = random.Random(pseed + 1)
        before = hr.random() < .5
        sc = random_scenario(seed, **kw) if before else None

        def other(k):
            o = random_scenario(f"other{hr.random()}" if hr.random() < .6 else seed, **{**kw, 'inline': True, 'n_lf': hr.choice([1, 2]), 'salt': k})
            write(o, cx.path('other.dlis'))
        for k, op in enumerate(plan):
            if sc is None and op not in ('other', 'hc', 'hc-fail') and hr.random() < .7:
                sc = random_scenario(seed, **kw)
            if op == 'other' or sc is None and op not in ('hc', 'hc-fail'):
                other(k)
            elif op == 'write':
                write(sc, cx.path('x.dlis'), data_arg(sc, source, cx.tmp, random.Random(5)))
            elif op == 'write-opts':
                write(sc, cx.path('x.dlis'), data_arg(sc, source, cx.tmp, random.Random(5)), input_chunk_size=1,
                      output_chunk_size=16384, **({} if inline else {'from_idx': 0, 'to_idx': 1}))
            elif op == 'other-data' and not inline:
                d = {lf.dataset[c]: np.arange(2 * int(np.prod(a.shape[1:] or (1,))), dtype=hr.choice(['float32', 'float64'])).reshape((2,) + a.shape[1:])
                     for lf in sc.lfs for c, a in lf.data.items()}
                try:
                    write(sc, cx.path('x.dlis'), d)
                except Exception:
                    pass
            elif op == 'fail':
                try:
                    write(sc, cx.path('x.dlis'), data_arg(sc, source, cx.tmp, random.Random(5)), output_chunk_size=3)
                except Exception:
                    pass
                try:
                    write(sc, cx.path('x.dlis'), {'nothing': np.arange(3)}, from_idx=99)
                except Exception:
                    pass
            elif op == 'cached':
                for lf in sc.lfs:
                    for o in lf.objs:
                        repr(o.item), str(o.item)
                        getattr(o.item, 'obname', None)
                        getattr(o.item, 'attributes', None)
            elif op in ('hc', 'hc-fail'):
                try:
                    with high_compatibility_mode():
                        h = random_scenario(f"hc{hr.random()}", hc=True, n_lf=1, inline=True)
                        if op == 'hc-fail':
                            h.lfs[0].add('ZONE', 'lower case')
                        write(h, cx.path('hc.dlis'))
                except Exception:
                    pass
        if sc is None:
            sc = random_scenario(seed, **kw)
        mutations(sc, random.Random(pseed), n_mut)
        if ren:
            rename(sc, random.Random(pseed))
        return final(sc)
    a, b = in_child(fresh), in_child(with_history)
    cx.note = f"history {plan} source={source} mutations={n_mut}"
    if a[0] == 'err':
        raise Skip(a[1])
    if b[0] == 'err':
        raise Violation(f"history {plan}: the final write fails ({b[1]}), in a fresh process it succeeds"[:900])
    if a[1] != b[1]:
        raise Violation(f"history {plan}: output ({len(b[1])} bytes) differs from that of a fresh process ({len(a[1])} bytes): " + first_diff(a[1], b[1]))
    cx.result(a[1])


def first_diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"first difference at byte {k}: {a[max(0, k - 12):k + 12]!r} / {b[max(0, k - 12):k + 12]!r}"


@family('C14', 120, on_raise='fail')
def identity_mutations(cx):
    """write, then change names / origin references / values / frame channels of the same object, write again"""
    r = cx.r
    seed = r.random()

    def build():
        q = random.Random(seed)
        sc, lf = base(rows=0, mrl=q.choice([64, 8192]))
        g = G(q, size='tiny')
        _support(lf, g)
        add_frame(lf, [np.arange(3, dtype=q.choice(DTYPES)), np.arange(3.)], index_type=Val('NON-STANDARD'))
        lf.nf(lf.add('NO-FORMAT', 'NF'), b'abc')
        add_origin(lf, 'O2', origin_reference=9)
        g.objects(lf, 6, types=['ZONE', 'TOOL', 'GROUP', 'PARAMETER', 'PATH', 'PROCESS'])
        return sc, lf, q

    def mutate(sc, lf, q):
        for _ in range(3):
            k = q.randrange(6)
            o = q.choice([o for o in lf.objs if o.type != 'ORIGIN'])
            if k == 0:
                o.item.name = f"NEW{q.randrange(99)}"
            elif k == 1:
                o.item.origin_reference = 9
            elif k == 2:
                mutations(sc, q, 4)
            elif k == 3:
                lf.add('ZONE', q.choice(['S-ZONE-0', 'X']), origin_reference=q.choice([None, 9]))
            elif k == 4:
                lf.nf(lf.of('NO-FORMAT')[0], payload(q, 5))
            else:
                lf.frames[0].item.description.value = f"descr {q.random()}"

    def fresh():
        sc, lf, q = build()
        mutate(sc, lf, q)
        return write(sc, cx.path())

    def hist():
        sc, lf, q = build()
        write(sc, cx.path())
        for o in lf.objs:
            repr(o.item)
        mutate(sc, lf, q)
        if r.random() < .5:
            write(sc, cx.path('y.dlis'), input_chunk_size=1)
        return write(sc, cx.path())
    a, b = in_child(fresh), in_child(hist)
    if a[0] == 'err':
        raise Skip(a[1])
    if b[0] == 'err':
        raise Violation(f"second write after mutation fails: {b[1]}"[:700])
    if a[1] != b[1]:
        raise Violation("file written after an earlier write and mutations differs from that of a fresh process: " + first_diff(a[1], b[1]))
    cx.result(a[1])


# ================================================================================================ C17
class LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.rec = []

    def emit(self, rec):
        self.rec.append(rec.getMessage())

    def __enter__(self):
        self.lg = logging.getLogger('dliswriter')
        self.old = (self.lg.level, self.lg.propagate, logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        self.lg.setLevel(logging.WARNING)
        self.lg.propagate = False
        self.lg.addHandler(self)
        return self

    def __exit__(self, *a):
        self.lg.removeHandler(self)
        self.lg.setLevel(self.old[0])
        self.lg.propagate = self.old[1]
        logging.disable(self.old[2])


def bad_name(r):
    return r.choice(['lower', 'WITH SPACE', 'DOT.', 'A/B', 'a', 'UMLAUT!', 'X\n', '\tX', 'A+B', ' LEAD', 'TRAIL ', 'A\nB', 'x' * 60, '']
                    if True else [])


def breach_name(r, sc, lf):
    t = r.choice([t for t in sorted(TABLE) if t not in ('FRAME',)])
    n = bad_name(r)
    if t == 'CHANNEL':
        c = lf.channel(n, np.arange(3, dtype='float32'), inline=True)
        lf.add('FRAME', 'FOR-BAD', channels=Val([c]))
    elif t == 'ORIGIN':
        add_origin(lf, n)
    else:
        lf.add(t, n)


def breach_name_later(r, sc, lf):
    o = lf.add('ZONE', 'GOOD-NAME')
    o.item.name = bad_name(r)
    o.name = o.item.name


def breach_frame_name(r, sc, lf):
    add_frame(lf, [np.arange(3.)], name=bad_name(r) or ' ', names=['FCH'])


def breach_signed(r, sc, lf):
    add_frame(lf, [np.arange(3.), np.arange(3, dtype=r.choice(['int8', 'int16', 'int32', '>i4', '>i2']))], name='SIGNED')


def breach_signed_cast(r, sc, lf):
    add_frame(lf, [np.arange(3.), np.arange(3, dtype=r.choice(['uint8', 'float32', 'int16']))], name='SIGNED',
              casts=[None, r.choice([np.int8, np.int16, np.dtype('int32'), np.int32])])


def breach_shared_channel(r, sc, lf):
    c = lf.channel('SHARED', np.arange(3.), inline=True)
    lf.add('FRAME', 'SH1', channels=Val([c]))
    lf.add('FRAME', 'SH2', channels=Val([c]))


def breach_unused_channel(r, sc, lf):
    c = lf.channel('UNUSED', np.arange(3.) if r.random() < .5 else None, inline=r.random() < .5)
    del c


def breach_spacing(r, sc, lf):
    v = r.choice([[0., 1., 3.], [1., 0., 5.], [0., 1., 1.5], [0., 1., 2., 3., 4.5], [np.nan, 1., 2.]])
    dt = r.choice(['float32', 'float64'])
    if r.random() < .3 and not any(np.isnan(v)):
        v, dt = [0, 1, 5, 6], 'uint16'
    kw = {'spacing': Val(1.)} if r.random() < .3 else {}
    add_frame(lf, [np.array(v, dtype=dt)], name='UNEVEN', index_type=Val('BOREHOLE-DEPTH'), **kw)


def breach_units(r, sc, lf):
    u = r.choice(['foo', 'METRES', 'm/ss', 'Ft', 'parsec', ''][:5])
    k = r.randrange(4)
    if k == 0:
        lf.add('EQUIPMENT', 'EQ', None, height=Val(1.5, u, r.choice(['dict', 'setup', 'later'])))
    elif k == 1:
        add_frame(lf, [np.arange(3.)], name='UF', cattrs={0: {'units': Val(u, None, r.choice(['kw', 'later']))}})
    elif k == 2:
        lf.add('AXIS', 'AX', None, spacing=Val(2.5, u, 'later'))
    else:
        lf.add('CALIBRATION-COEFFICIENT', 'CC', None, coefficients=Val([1., 2.], u, 'dict'))


def breach_index_type(r, sc, lf):
    add_frame(lf, [np.arange(3.)], name='IT', index_type=Val(r.choice(['DEPTH', 'borehole-depth', 'MY-INDEX']), None, r.choice(['kw', 'dict', 'later'])))


def breach_eq_type(r, sc, lf):
    lf.add('EQUIPMENT', 'EQ', None, eq_type=Val(r.choice(['Hammer', 'TOOL', 'tool']), None, r.choice(['kw', 'dict', 'later'])))


def breach_eq_location(r, sc, lf):
    lf.add('EQUIPMENT', 'EQ', None, location=Val(r.choice(['Moon', 'WELL', 'rig']), None, r.choice(['kw', 'dict', 'later'])))


BREACHES = {k[7:]: v for k, v in list(globals().items()) if k.startswith('breach_')}
OUTER = {'set_identifier': lambda r: dict(sid=r.choice(['lower', 'A B', 'X.Y', 'UNIT\n'])),
         'header_id': lambda r: dict(hid=r.choice(['lower', 'A B', 'X.Y', 'HEAD\n']))}


def hc_base(r, **kw):
    return base(mrl=8192, **{**dict(sid='SET-1', hid='HEAD_1'), **kw})


def do_breach(cx, r, nm, rseed):
    """build (and write) a specification with one breach. deterministic in rseed"""
    q = random.Random(rseed)
    if nm in OUTER:
        k = OUTER[nm](q)
        if q.random() < .4:
            sc, lf = hc_base(q)
            if 'sid' in k:
                sc.df.storage_unit_label.set_identifier = k['sid']
                sc.sid = k['sid']
            else:
                lf.lf.file_header.header_id = k['hid']
                raise Skip('origin file id already taken')
        else:
            sc, lf = hc_base(q, **k)
    else:
        sc, lf = hc_base(q)
        if q.random() < .5:
            G(q, hc=True, size='tiny').objects(lf, 4)
        BREACHES[nm](q, sc, lf)
        if q.random() < .3:
            G(q, hc=True, size='tiny').objects(lf, 2)
    return sc, write(sc, cx.path())


@family('C17', 300)
def breaches(cx):
    """one restricted aspect violated: raises inside the context (also nested, in a decorated function), is accepted with a warning outside"""
    from dliswriter import high_compatibility_mode, high_compatibility_mode_decorator
    r = cx.r
    names = sorted(BREACHES) + sorted(OUTER)
    nm = names[cx.i % len(names)]
    s = r.random()
    form = r.choice(['with', 'nested', 'decorator', 'after-inner', 'after-exception'])
    cx.note = f"{nm} {form}"
    cx.key = f"{nm}{form}{cx.i}"

    def inside():
        return do_breach(cx, r, nm, s)

    def run():
        if form == 'with':
            with high_compatibility_mode():
                return inside()
        if form == 'nested':
            with high_compatibility_mode():
                with high_compatibility_mode():
                    return inside()
        if form == 'after-inner':
            with high_compatibility_mode():
                with high_compatibility_mode():
                    pass
                return inside()
        if form == 'after-exception':
            with high_compatibility_mode():
                try:
                    with high_compatibility_mode():
                        raise KeyError
                except KeyError:
                    pass
                return inside()
        out = []

        @high_compatibility_mode_decorator
        def f():
            out.append(inside())
        f()
        return out[0]
    try:
        run()
    except Skip:
        raise
    except Exception as e:
        why = e
    else:
        raise Violation(f"{nm} ({form}): accepted and written inside the high-compatibility context")
    # outside: accepted, with a warning, and faithful
    with LogCapture() as lc:
        try:
            sc, b = do_breach(cx, r, nm, s)
        except Skip:
            raise
        except Exception as e:
            raise Violation(f"{nm}: after leaving the context ({form}) the input is rejected: {type(e).__name__}: {e}; inside: {why}"[:700])
    if not lc.rec:
        raise Violation(f"{nm}: accepted outside the context without any warning in the log")
    compare(sc, b)


@family('C17', 200, on_raise='fail')
def compliant(cx):
    """specifications within all restrictions: accepted inside the context, content faithful and within the restrictions"""
    from dliswriter import high_compatibility_mode
    import re
    r = cx.r
    g = G(r, hc=True, size='tiny')
    with high_compatibility_mode():
        n_lf = r.choice([1, 1, 2])
        sc = cx.valid(Scenario, 'SET_ID-1', 1, r.choice([64, 8192]))
        for k in range(n_lf):
            lf = cx.valid(sc.lf, f"HEAD-{k}")
            sfx = f"L{k}" if n_lf > 1 else None
            fsn = r.random() < .3
            for j in range(r.choice([1, 1, 2])):
                cx.valid(lf.add, 'ORIGIN', f"ORIGIN-{j}", sfx, creation_time=Val(g.dt()), **({'file_set_number': Val(j + 1)} if fsn else {}))
            cx.valid(g.objects, lf, r.randint(0, 6), lambda t: sfx)
            for j in range(r.randint(1, 3)):
                n = r.choice([1, 2, 5])
                idx = np.arange(n) * r.choice([.5, 1, -2]) + 3
                a = [idx.astype(r.choice(['float32', 'float64']))] + [g.array(n, r.choice(['uint8', 'uint16', 'uint32', 'float32', 'float64']), r.choice([None, 3])) for _ in range(r.randint(0, 2))]
                cx.valid(add_frame, lf, a, name=f"F{j}", fset=sfx, cset=sfx, ds=[f"{k}-{j}-{x}" for x in range(len(a))],
                         cattrs={0: {'units': Val(r.choice(UNITS))}}, **({'index_type': Val('BOREHOLE-DEPTH')} if r.random() < .7 else {}))
        b = wr(cx, sc)
    fv = compare(sc, b)
    pat = re.compile(r'[A-Z0-9_-]+\Z')
    for v in fv.logical_files:
        nums = []
        for e in v.eflrs:
            for o in e.objects:
                if e.set_type != 'FILE-HEADER' and not pat.match(o.name.name):
                    raise Violation(f"name {o.name.name!r} in a file written in high-compatibility mode")
                if e.set_type == 'ORIGIN':
                    nums += o.attrs['FILE-SET-NUMBER'].values
        if nums != list(range(1, len(nums) + 1)):
            raise Violation(f"file set numbers {nums} are not sequential from 1")


@family('C17', 120, on_raise='fail')
def mode_sequences(cx):
    """random sequences of entering / leaving the context (nested, exceptions, decorator) with a probe of the mode after each step"""
    from dliswriter import high_compatibility_mode, high_compatibility_mode_decorator, DLISFile
    r = cx.r
    cx.key = f"m{cx.i}"

    def probe(on, where):
        try:
            lf = DLISFile().add_logical_file()
            lf.add_zone('not compatible')
            got = False
        except Exception:
            got = True
        if got != on:
            raise Violation(f"{where}: the restrictions are {'on' if got else 'off'}, expected {'on' if on else 'off'}")

    class Boom(Exception):
        pass

    def scope(depth, on):
        for _ in range(r.randint(1, 3)):
            probe(on, f"depth {depth}")
            k = r.randrange(6)
            if k == 0:
                continue
            if k == 1 and depth < 4:
                with high_compatibility_mode():
                    scope(depth + 1, True)
                probe(on, f"after leaving at depth {depth}")
            elif k == 2:
                try:
                    with high_compatibility_mode():
                        probe(True, "inside")
                        raise r.choice([Boom, KeyboardInterrupt, GeneratorExit])()
                except BaseException as e:
                    if isinstance(e, Violation):
                        raise
                probe(on, "after an exception")
            elif k == 3:
                @high_compatibility_mode_decorator
                def f(x, y=2):
                    probe(True, "decorated")
                    if x:
                        raise Boom()
                for x in (0, 1, 0):
                    try:
                        f(x, y=3)
                    except Boom:
                        pass
                    probe(on, "after a decorated call")
            elif k == 4:
                cm = high_compatibility_mode()
                cm.__enter__()
                probe(True, "manual enter")
                if depth < 4:
                    scope(depth + 1, True)
                cm.__exit__(None, None, None)
                probe(on, "manual exit")
            else:
                try:
                    with high_compatibility_mode():
                        sc, lf = hc_base(r)
                        if r.random() < .5:
                            lf.add('ZONE', 'bad name')
                        write(sc, cx.path())
                except ValueError:
                    pass
                probe(on, "after building and writing")
    scope(0, False)
    probe(False, "end")


# ================================================================================================ C18
@family('C18', 250, on_raise='fail')
def interleaved_files(cx):
    """several logical files, random interleaving of all add_* calls, same object names, several frames with own row counts"""
    r = cx.r
    n_lf = r.choice([2, 2, 3, 5])
    sc = cx.valid(Scenario, 'SET', 1, r.choice([32, 8192]))
    g = G(r, size='tiny')
    lfs = []
    todo = []
    for k in range(n_lf):
        lfs.append(cx.valid(sc.lf, f"H{k}"))
        ops = ['origin'] + ['frame'] * r.randint(1, 3) + ['obj'] * r.randint(0, 8) + ['nf'] * r.randint(0, 2)
        todo += [(k, o) for o in ops]
    r.shuffle(todo)
    for j, (k, op) in enumerate(todo):
        lf = lfs[k]
        sn = lambda *_: r.choice([f"L{k}", f"L{k}", f"L{k}B"])
        if op == 'origin':
            cx.valid(add_origin, lf, 'O', set_name=sn(), origin_reference=r.choice([None, k, 5]))
        elif op == 'frame':
            n = r.choice([1, 2, 3, 7])
            same = r.random() < .5                    # the same channel names (and so default dataset names) in several frames and files
            nn = r.randint(1, 3)
            cx.valid(add_frame, lf, [g.array(n, width=r.choice([None, 2])) for _ in range(nn)], name=r.choice([f"F{j}", 'SAMEFRAME']),
                     names=[f"C{x}" if same else f"C{j}-{x}" for x in range(3)], fset=sn(), cset=sn(),
                     ds=r.choice([None, [f"d{k}-{j}-{x}" for x in range(3)]]))
        elif op == 'obj':
            cx.valid(g.object, lf, r.choice([t for t in TABLE if t not in ('ORIGIN', 'CHANNEL', 'FRAME')]), sn(), None, .5,
                     name=r.choice(['SAME', 'N1', f"X{j}"]))
        else:
            o = cx.valid(lf.add, 'NO-FORMAT', r.choice(['NF', f"NF{j}"]), sn())
            for _ in range(r.randint(0, 3)):
                cx.valid(lf.nf, o, payload(r, r.randint(0, 40)))
    compare(sc, wr(cx, sc, **write_opts(cx, sc)))


@family('C18', 150)
def partially_shared_sets(cx):
    """set names partially shared between logical files: rejected, or written correctly"""
    r = cx.r
    n_lf = r.choice([2, 3])
    sc = cx.valid(Scenario)
    g = G(r, size='tiny')
    pool = [None, 'A', 'B', 'C', 'D', 'E']
    try:
        for k in range(n_lf):
            lf = sc.lf(f"H{k}")
            own = f"L{k}"
            sn = lambda: r.choice([own] * r.choice([3, 30]) + pool)
            add_origin(lf, 'O', set_name=sn())
            add_frame(lf, [np.arange(2, dtype='int8')], name=f"F{k}", fset=sn(), cset=sn(), ds=[f"d{k}"])
            g.objects(lf, r.randint(0, 6), lambda t: sn())
            if r.random() < .5:
                lf.nf(lf.add('NO-FORMAT', 'NF', sn()), b'abc')
        b = cx.result(write(sc, cx.path()))
    except (Skip, Violation):
        raise
    except Exception as e:
        cx.note = f"rejected: {type(e).__name__}: {e}"
        cx.key = f"rej{cx.i}"
        return
    compare(sc, b)


# ================================================================================================ C19
def base_buffer(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def snapshot(a):
    b = base_buffer(a)
    return (a.tobytes(), bytes(np.ascontiguousarray(b).tobytes()), a.dtype, a.shape, a.strides, a.flags.writeable, b.flags.writeable)


@family('C19', 400)
def caller_data(cx):
    """checksums of arrays, their base buffers, the dict and the HDF5 file before and after (failed) writes"""
    r = cx.r
    g = G(r)
    n = r.choice([1, 2, 5, 9])
    source = r.choice(['inline', 'dict', 'struct', 'h5', 'inline+dict'])
    sc, lf = cx.valid(base, rows=0, mrl=r.choice([32, 8192]))
    arrs, casts = [], []
    indexed = r.random() < .5
    fast = r.random() < .35                          # names, types and order of the data as those of the channels: nothing is copied
    for k in range(r.randint(1, 4)):
        a = g.array(n, width=None if k == 0 and indexed else r.choice([None, None, 2]))
        if fast:
            a = np.ascontiguousarray(a.astype(a.dtype.newbyteorder('=')))
        arrs.append(a)
        casts.append(g.cast_for(a) if not (k == 0 and indexed) and not fast else None)
    ds = [f"d{k}" for k in range(len(arrs))]
    inl = source.startswith('inline')
    cx.valid(add_frame, lf, arrs, inline=inl, casts=casts, ds=None if fast else ds, names=ds if fast else None, **({'index_type': Val('NON-STANDARD')} if indexed else {}))
    data = None
    extra = np.arange(5)
    if source == 'dict':
        data = dict(zip(ds, arrs))
        data['unused'] = extra
    elif source == 'inline+dict':
        data = {'unused': extra}
        if r.random() < .5:
            data[ds[0]] = arrs[0].copy()
    elif source == 'struct':
        big = np.zeros(2 * n, dtype=[(d, a.dtype, a.shape[1:]) for d, a in zip(ds, arrs)])
        data = big[::2] if r.random() < .3 else big[:n]
        for d, a in zip(ds, arrs):
            data[d] = a
        if r.random() < .3:
            data.flags.writeable = False
    elif source == 'h5':
        data = data_arg(sc, 'h5', cx.tmp, r)
    watched = list(arrs) + [extra]
    if isinstance(data, np.ndarray):
        watched.append(data)
    if isinstance(data, dict):
        watched += [v for v in data.values()]
    before = [snapshot(a) for a in watched]
    keys = list(data.items()) if isinstance(data, dict) else None
    h5 = open(data, 'rb').read() if isinstance(data, str) else None
    kws = [dict(), dict(input_chunk_size=r.choice([1, 2, n])), dict(from_idx=0, to_idx=max(1, n - 1)),
           dict(output_chunk_size=3), dict(from_idx=n + 3), dict(input_chunk_size=-1)]
    ok = 0
    for _ in range(r.choice([1, 2, 3])):
        kw = r.choice(kws[:3] * 3 + kws[3:])
        if r.random() < .15:
            lf.add('ZONE', 'Z' * r.choice([300]))                  # makes the write fail late
        try:
            if isinstance(data, str) and r.random() < .15:
                sc.df.write(data, data=data, output_chunk_size=2 ** 16)      # the target is the source file
            else:
                write(sc, cx.path(), data, **kw)
            ok += 1
        except Exception as e:
            cx.note = f"{type(e).__name__}: {e}"
        after = [snapshot(a) for a in watched]
        for x, y, a in zip(before, after, watched):
            if x != y:
                raise Violation(f"source {source}, options {kw}: a caller's array (dtype {a.dtype}, shape {a.shape}) was altered")
        if keys is not None:
            now = list(data.items())
            if len(now) != len(keys) or any(k1 != k2 or v1 is not v2 for (k1, v1), (k2, v2) in zip(keys, now)):
                raise Violation(f"source {source}: the data dict was altered: {list(data)} was {[k for k, _ in keys]}")
        if h5 is not None and open(data, 'rb').read() != h5:
            raise Violation(f"source {source}, options {kw}: the HDF5 file was altered")
    cx.key = f"{source}{cx.i}"
    cx.note = f"{source} {[a.dtype.str for a in arrs]} writes ok: {ok} {cx.note}"


# ================================================================================================ C20
def bad_calls(r, lf, g):
    """-> a callable making one invalid call on the logical file"""
    t = r.choice(sorted(TABLE) + ['ORIGIN'])
    meth = getattr(lf.lf, METHOD[t])
    sn = r.choice([None, None, 'NEW-SET', 'REJ', 'A'])
    kwargs = {'set_name': sn} if sn else {}
    if r.random() < (.5 if t == 'ORIGIN' else .2):
        kwargs['origin_reference'] = r.choice([0, 1, 2, 3, 77])
    z = lf.objs[0].item if lf.objs else None
    name = r.choice(['SAME', 'N1', 'N2', 'REJECTED'] + [o.name for o in lf.objs[-3:]])
    k = r.random()
    if k < .12:
        name = r.choice([5, None, b'x', 1.5])
        if t == 'FRAME':
            kwargs['channels'] = [c.item for c in lf.of('CHANNEL')[:1]]
        return lambda: meth(name, **kwargs)
    if k < .2:
        if t == 'FRAME':
            kwargs['channels'] = [c.item for c in lf.of('CHANNEL')[:1]]
        return lambda: meth(name, no_such_argument=1, **kwargs)
    if t == 'FRAME':
        bad = r.choice([dict(channels=[]), dict(channels=['x']), dict(channels=None), dict(channels=[5]), dict(channels=[z]),
                        dict(channels=[c.item for c in lf.of('CHANNEL')[:1]], description=5),
                        dict(channels=[c.item for c in lf.of('CHANNEL')[:1]], direction=7),
                        dict(channels=[c.item for c in lf.of('CHANNEL')[:1]], spacing='abc')])
        return lambda: meth(name, **bad, **kwargs)
    if t == 'CHANNEL':
        bad = r.choice([dict(data=5), dict(data=[1, 2]), dict(data='x'), dict(data=np.arange(3.), properties='NOPE'), dict(data=np.arange(3.), cast_dtype='nope'),
                        dict(data=np.arange(3.), dimension='x'), dict(data=np.arange(3.), axis=5), dict(data=np.arange(3.), long_name=5),
                        dict(cast_dtype=np.int64), dict(dataset_name=5), dict(data=np.arange(3.), minimum_value='abc'),
                        dict(data=np.arange(3.), dataset_name='fresh-ds', units=5),
                        dict(data=np.arange(3.), dataset_name=(lf.dataset[lf.of('CHANNEL')[0]] if lf.of('CHANNEL') else 5))])
        return lambda: meth(name, **bad, **kwargs)
    kws = [kw for kw in TABLE[t] if not kw.startswith('__') and kw != 'object_type']
    kw = r.choice(kws)
    label, kind, tgt, multi, nested = spec_of(t, kw)
    bad = {'T': 5, 'I': 5, 'N': 'abc', 'NI': 'abc', 'UV': 'abc', 'UN': 'abc', 'US': object(), 'DIM': 'abc', 'DT': 'no date', 'DTN': 'no date',
           'ST': 'no status', 'M': object(), 'O': 'a string', 'R': 'a string', 'OT': 5}[kind]
    if (t, kw) in POOLS or kw == 'properties':
        bad = r.choice([5, 'NOT-A-MEMBER']) if (t, kw) not in (('EQUIPMENT', 'eq_type'), ('EQUIPMENT', 'location')) else 5
    if kind == 'O' and z is not None and r.random() < .5 and lf.objs[0].type != tgt:
        bad = z
    if multi and r.random() < .5:
        bad = [bad]
    form = r.choice(['raw', 'dict', 'dict-key'])
    if form == 'dict':
        bad = {'value': bad}
    elif form == 'dict-key':
        bad = {'value': bad, 'nokey': 3}
    good = g.simple_attrs(t, .3, skip=(kw, 'file_set_number', 'object_type', 'creation_time'))
    kk = {x: v.arg() for x, v in good.items() if v.route != 'later'}
    if r.random() < .5:
        kk = {**kk, kw: bad}
    else:
        kk = {kw: bad, **kk}
    return lambda: meth(name, **kk, **kwargs)


class Rejecting:
    """Interleave rejected calls with the calls of a generated specification."""

    def __init__(self, r, p, cx):
        self.r, self.p, self.cx, self.n, self.accepted = r, p, cx, 0, 0

    def __enter__(self):
        self.orig = (LFRec.add, LFRec.channel)
        me = self

        def wrap(fn):
            def w(lf, *a, **k):
                me.maybe(lf)
                return fn(lf, *a, **k)
            return w
        LFRec.add, LFRec.channel = wrap(self.orig[0]), wrap(self.orig[1])
        return self

    def maybe(self, lf):
        while self.r.random() < self.p:
            g = G(self.r, size='tiny')
            k = self.r.random()
            if k < .75 or not lf.objs:
                f = bad_calls(self.r, lf, g)
            elif k < .9:
                f = self.bad_assignment(lf)
            else:
                f = self.bad_misc(lf)
            if f is None:
                continue
            try:
                f()
            except Exception:
                self.n += 1
            else:
                raise Skip('an intended invalid call was accepted')

    def bad_assignment(self, lf):
        o = self.r.choice(lf.objs)
        kws = [kw for kw in TABLE[o.type] if not kw.startswith('__') and kw not in ('object_type', 'file_set_number')]
        kw = self.r.choice(kws)
        kind = spec_of(o.type, kw)[1]
        attr = getattr(o.item, PYATTR.get((o.type, kw), kw))
        if self.r.random() < .3:
            def f():
                attr.units = 5
            return f
        bad = {'T': 5, 'I': 5, 'N': 'abc', 'NI': 'abc', 'UV': 'abc', 'UN': 'abc', 'US': object(), 'DIM': 'abc', 'DT': 'no date',
               'DTN': 'no date', 'ST': 'no status', 'M': object(), 'O': 'a string', 'R': 'a string', 'OT': 5}[kind]

        def f():
            attr.value = bad
        return f

    def bad_misc(self, lf):
        k = self.r.randrange(4)
        if k == 0:
            return lambda: lf.lf.add_no_format_frame_data(lf.objs[0].item if lf.objs and lf.objs[0].type != 'NO-FORMAT' else None, b'x')
        if k == 1:
            nf = lf.of('NO-FORMAT')
            return (lambda: lf.lf.add_no_format_frame_data(nf[0].item, 5)) if nf else None
        if k == 2:
            return lambda: lf.scen.df.add_logical_file(fh_id='x' * 70) if self.r.random() < .5 else lf.scen.df.add_logical_file(fh_id='OK', fh_identifier='TOO-LONG')
        def f():
            lf.objs[0].item.name = 5
        return f if lf.objs else None

    def __exit__(self, *a):
        LFRec.add, LFRec.channel = self.orig


@family('C20', 350, on_raise='fail')
def rejected_calls(cx):
    """rejected add_* calls and assignments interleaved with a valid specification: same file as without them"""
    r = cx.r
    seed = f"{cx.seed}:c20:{cx.i}"
    kw = dict(max_objs=8, mrl=r.choice([64, 8192]), size='tiny', n_lf=r.choice([1, 1, 2]), short_names=r.random() < .5)
    ref = cx.valid(random_scenario, seed, **kw)
    a = cx.valid(write, ref, cx.path('a.dlis'))
    with Rejecting(random.Random(f"rej{seed}"), .25, cx) as rj:
        sc = cx.valid(random_scenario, seed, **kw)
        for lf in sc.lfs:
            rj.maybe(lf)
    b = wr(cx, sc)
    cx.note = f"{rj.n} rejected calls"
    cx.weight = max(1, rj.n)
    if a != b:
        try:
            compare(sc, b)
            what = ''
        except Exception as e:
            what = str(e)
        raise Violation(f"after {rj.n} rejected calls the file differs from one made without them: {what} {first_diff(a, b)}"[:900])


@family('C20', 250, on_raise='fail')
def each_rejection(cx):
    """one rejected call of a chosen kind before, between or after valid calls with the same names"""
    r = cx.r
    s = r.random()

    def build(with_bad):
        q = random.Random(s)
        sc = Scenario('S', 1, 8192)
        g = G(q, size='tiny')
        lf = sc.lf('H')
        pos = q.randrange(6)
        n = 0
        acc = []

        def bad(k):
            nonlocal n
            if with_bad and (k == pos or q2.random() < .1):
                f = bad_calls(q2, lf, G(q2, size='tiny'))
                try:
                    f()
                except Exception:
                    n += 1
                else:
                    acc.append(1)
        q2 = random.Random(s + 1)
        bad(0)
        add_origin(lf, 'SAME')
        bad(1)
        add_frame(lf, [np.arange(3.), np.arange(3, dtype='int8')], name='SAME', names=['SAME', 'N1'])
        bad(2)
        for t in q.sample([t for t in sorted(TABLE) if t not in ('ORIGIN', 'CHANNEL', 'FRAME')], 5):
            g.object(lf, t, q.choice([None, 'A', 'REJ']), name='SAME')
            bad(3)
            g.object(lf, t, q.choice([None, 'A', 'REJ']), name=q.choice(['SAME', 'N1']))
        bad(4)
        lf.channel('N2', None)
        c = lf.channel('SAME', np.arange(2, dtype='uint8'), inline=True)
        lf.add('FRAME', 'N1', channels=Val([c]))
        bad(5)
        return sc, n, acc
    sc0, _, _ = cx.valid(build, False)
    sc1, n, acc = cx.valid(build, True)
    if acc:
        raise Skip('an intended invalid call was accepted')
    a = cx.valid(write, sc0, cx.path('a.dlis'))
    b = wr(cx, sc1)
    cx.key = f"{n}-{cx.i}"
    if a != b:
        raise Violation(f"a rejected call left a trace: {first_diff(a, b)}")


@family('C20', 150, on_raise='fail')
def rejected_with_data(cx):
    """rejected add_channel calls that carry data, then a write whose data come from an array, a dict or an HDF5 file"""
    r = cx.r
    src = r.choice(['struct', 'h5', 'dict', 'dict', 'inline'])
    seed = f"{cx.seed}:c20d:{cx.i}"

    def build(bad):
        q, q2 = random.Random(seed), random.Random(seed + 'x')
        sc = Scenario('S', 1, 8192)
        g = G(q, size='tiny')
        lf = sc.lf('H')
        add_origin(lf)
        n = q.randint(1, 5)
        chs = []
        nbad = 0

        def reject(name):
            nonlocal nbad
            d = np.arange(q2.choice([n, n, n + 2]), dtype=q2.choice(['float64', 'int16'])) + 100
            kw = q2.choice([dict(properties='NOPE'), dict(units=5), dict(axis=5), dict(minimum_value='abc'), dict(dimension='x'), dict(long_name=5),
                            dict(cast_dtype='nope'), dict(no_such=1), dict(element_limit='q')])
            if q2.random() < .3:
                kw['dataset_name'] = q2.choice([name, 'FRESH'])
            if q2.random() < .3:
                kw['set_name'] = 'OTHER'
            try:
                lf.lf.add_channel(name, data=d, **kw)
            except Exception:
                nbad += 1
            else:
                raise Skip('an intended invalid call was accepted')
        for k in range(q.randint(1, 3)):
            if bad:
                for _ in range(q2.choice([0, 1, 1, 2])):
                    reject(q2.choice([f"C{k}", f"C{k}", f"C{k - 1}", 'Q']))
            chs.append(lf.channel(f"C{k}", g.array(n), inline=src == 'inline'))
        if bad:
            reject(q2.choice(['C0', 'C1', 'Q']))
        lf.add('FRAME', 'F', channels=Val(chs))
        return sc, nbad
    ref, _ = cx.valid(build, False)
    a = cx.valid(write, ref, cx.path('a.dlis'), data_arg(ref, src, cx.tmp, random.Random(1)))
    sc, nbad = cx.valid(build, True)
    b = wr(cx, sc, data_arg(sc, src, cx.tmp, random.Random(1)))
    cx.note = f"{nbad} rejected calls with data, source {src}"
    if a != b:
        raise Violation(f"{nbad} rejected add_channel calls with data left a trace (source {src}): {first_diff(a, b)}")


@family('C20', 200, on_raise='fail')
def failed_writes(cx):
    """writes that raise (bad options, missing data, an unencodable value, missing origin) before the valid write: same file as a fresh one"""
    r = cx.r
    seed = f"{cx.seed}:c20w:{cx.i}"
    inline = r.random() < .4
    kw = dict(max_objs=6, mrl=r.choice([64, 8192]), size='tiny', n_lf=1, inline=inline, rows=None if inline else 4)
    src = 'inline' if inline else r.choice(['dict', 'struct', 'h5'])
    ref = cx.valid(random_scenario, seed, **kw)
    a = cx.valid(write, ref, cx.path('a.dlis'), data_arg(ref, src, cx.tmp, random.Random(1)))
    sc = cx.valid(random_scenario, seed, **kw)
    lf = sc.lfs[0]
    kinds = []
    for _ in range(r.randint(1, 3)):
        k = r.choice(['chunk', 'window', 'missing', 'dir', 'value', 'dim', 'rows', 'origin', 'dtype', 'set-later'])
        undo = None
        data = data_arg(sc, src, cx.tmp, random.Random(1))
        opts = {}
        p = cx.path('x.dlis')
        if k == 'chunk':
            opts = {'output_chunk_size': 5}
        elif k == 'window':
            opts = {'from_idx': 10 ** 6}
        elif k == 'missing':
            if inline:
                continue
            d = dict(data_arg(sc, 'dict', cx.tmp, random.Random(1)))
            d.pop(r.choice(sorted(d)))
            data = d
        elif k == 'dir':
            p = cx.path('no/such/dir.dlis')
        elif k == 'value':
            o = r.choice(lf.objs)
            old = o.item.name
            o.item.name = 'N' * 300

            def undo(o=o, old=old):
                o.item.name = old
        elif k == 'dim':
            c = lf.frames[0].attrs['channels'].value[0]
            if 'dimension' in c.attrs:
                continue
            at = c.item.dimension
            at.value = [17]

            def undo(at=at, c=c):
                at.value = list(lf.data[c].shape[1:]) or [1]
        elif k == 'rows' and not inline:
            d = {x: np.concatenate([v, v]) if j == 0 else v for j, (x, v) in enumerate(sorted(data_arg(sc, 'dict', cx.tmp, random.Random(1)).items()))}
            data = d
        elif k == 'dtype' and not inline:
            d = dict(data_arg(sc, 'dict', cx.tmp, random.Random(1)))
            x = r.choice(sorted(d))
            d[x] = np.zeros(d[x].shape, dtype='complex64')
            data = d
        elif k == 'origin':
            o = r.choice([o for o in lf.objs if o.type != 'ORIGIN'])
            old = o.item.origin_reference
            o.item.origin_reference = 987654

            def undo(o=o, old=old):
                o.item.origin_reference = old
        else:
            continue
        try:
            write(sc, p, data, **opts)
        except Exception:
            kinds.append(k)
        else:
            if k in ('rows',):
                pass
            elif k == 'dtype' or k == 'missing':
                pass                                      # the dataset belongs to no frame
            else:
                raise Skip(f"a write meant to fail ({k}) succeeded")
        if undo:
            undo()
    b = wr(cx, sc, data_arg(sc, src, cx.tmp, random.Random(1)))
    cx.note = f"failed writes: {kinds} source {src}"
    if a != b:
        raise Violation(f"after failed writes {kinds} the file differs from that of a fresh specification: {first_diff(a, b)}")
