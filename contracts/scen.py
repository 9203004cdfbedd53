"""Scenarios: calls of the user and what has to be in the file, run by the verifier on the real code with symbolic inputs.

`written(dlis, kw, select)` is DLISFile.write with the physical layer represented by its contract (the writer takes every
record once, in order): it returns the selected records as [(set type, set name, body) | ('NOFMT', None, body) |
('ROWS', frame name, number of rows) and, when nothing is selected or 'FIRST ROW' is, ('ROW', frame name, body of the first)].
When nothing is selected, the bodies are preceded by the type of the record.  Natively (replay, cross-check) it writes a file and reads it back.
"""
import os
import tempfile

import numpy as np
import z3

from pyvc.interp import SymSeq, YieldAll
from pyvc.npmodel import Arr, SDT, source
from pyvc.sym import *
from .core import *
from .core import ConcSrc, SymSrc, abstract_uvari
from .o_data import H5, body_of
from .o_file import write_captured, rows_contract

SEEN = []        # (files of a native run are kept in memory only)


def written(dlis, kw, select=None):
    from harness import rp66
    with tempfile.TemporaryDirectory() as d:
        kw = dict(kw)
        if isinstance(kw.get('data'), H5Native):
            import h5py
            with h5py.File(d + '/source.h5', 'w') as f:
                for k, x in kw['data'].sets.items():
                    f[k] = x
            kw['data'] = 'source.h5'        # (the same path each time)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            dlis.write(d + '/out.dlis', output_chunk_size=2 ** 16, **kw)
        finally:
            os.chdir(cwd)
        records = rp66.parse_storage(open(d + '/out.dlis', 'rb').read()).records
    out = []
    for r in records:
        kind = bytes([r.type]) if select is None else b''
        if r.eflr:
            e = rp66.parse_eflr(r.body)
            if select is None or e.set_type in select:
                out.append((e.set_type, e.set_name, kind + r.body))
        elif r.type == 1:
            if select is None or 'NOFMT' in select:
                out.append(('NOFMT', None, kind + r.body))
        else:
            name = rp66.d_obname(rp66.Cur(r.body)).name
            if out and out[-1][:2] == ('ROWS', name):
                out[-1] = ('ROWS', name, out[-1][2] + 1)
            else:
                if select is None or 'FIRST ROW' in select:
                    out.append(('ROW', name, r.body))
                out.append(('ROWS', name, 1))
    return [x for x in out if x[0] != 'ROWS' or select is None or 'ROWS' in select]


def type_and_body(record):
    """Interpreted by the verifier."""
    return getattr(type(record), 'lr_type_struct', b'') + body_of(record)


def first_of(records):
    """Interpreted by the verifier."""
    return next(iter(records))


class H5Native:
    def __init__(self, sets):
        self.sets = sets


class H5Path(str):
    """A path, with what is in the file when `written` is called with it."""


def hdf5_file(src, sets):
    """An HDF5 file with these data sets; all have the same path."""
    if not src.symbolic:
        return H5Native(sets)
    p = H5Path('/x/source.h5')
    p.sets = sets
    return p


def structured(src, name, fields, n):
    """A structured array of n rows with fields [(name, dtype, shape)]."""
    if src.symbolic:
        dt_ = SDT([(k, np.dtype(d), sh) for k, d, sh in fields])
        if not any(sh for _, _, sh in dt_.items):
            dt_ = np.dtype([(a, b) for a, b, _ in dt_.items])
        return source(src.vc, name, dt_, (n,))
    if not isinstance(n, int) or n > 2 * 10 ** 5:
        raise ConcSrc.Reject(name)
    a = np.zeros(n, np.dtype([(k, d, sh) for k, d, sh in fields]))
    for k, d, sh in fields:
        a[k] = np.arange(a[k].size).reshape(a[k].shape) % 100
    return a


def array(src, name, dtype, shape, h5=False):
    """An array of the caller with unknown values."""
    if src.symbolic:
        import h5py
        return source(src.vc, name, np.dtype(dtype), tuple(x if is_sym(x) else SInt(z3.IntVal(x)) for x in shape), typ=h5py.Dataset if h5 else None)
    if not all(isinstance(x, int) for x in shape) or np.prod([1.] + [float(x) for x in shape]) > 5 * 10 ** 5:
        raise ConcSrc.Reject(name)
    n = int(np.prod(shape)) if shape else 1
    d = np.dtype(dtype)
    x = (np.arange(n) * 7 + 3) % 100
    if d.kind == 'O':
        return x.astype(object).reshape(shape)
    if d.kind in 'SU':
        return x.astype(str).astype(d).reshape(shape)
    return x.astype(d).reshape(shape)


def prepare(src, rows=True):
    """The environment of a scenario."""
    if not src.symbolic:
        return
    it = src.it
    rows_contract(it)
    abstract_uvari(it)
    mfd = real('file.multi_frame_data:MultiFrameData')

    def handler(it2, dlis, kw, select=None):
        out = []
        iter_code = code(mfd.__iter__)
        abstract_iter = lambda it3, self: SymSeq('rows', z3.Int('n_rows_of_a_frame'), lambda vc2, i: None)
        it2.contracts[iter_code] = abstract_iter

        def consume(recs):
            for x in it2.iterate(recs):
                if isinstance(x, YieldAll):
                    m = x.src
                    if not isinstance(m, mfd):
                        raise Unsupported(f"records from {m!r}")
                    if select is None or 'FIRST ROW' in select:
                        it2.contracts.pop(iter_code, None)
                        out.append(('ROW', it2.getattr(it2.getattr(m, 'frame'), 'name'), it2.call(body_of, [it2.call(first_of, [m])])))
                        it2.contracts[iter_code] = abstract_iter
                    if select is None or 'ROWS' in select:
                        out.append(('ROWS', it2.getattr(it2.getattr(m, 'frame'), 'name'), it2.call(len, [m])))
                    continue
                b = it2.call(body_of if select is not None else type_and_body, [x])
                if it2.truth(it2.getattr(x, 'is_eflr')):
                    t = it2.getattr(x, 'set_type')
                    if select is None or t in select:
                        out.append((t, it2.getattr(x, 'set_name'), b))
                elif select is None or 'NOFMT' in select:
                    out.append(('NOFMT', None, b))
        if isinstance(kw.get('data'), H5Path):
            import h5py
            now = kw['data'].sets
            it2.models[h5py.File] = lambda it3, name, mode='r': H5(now)
        try:
            write_captured(it2, dlis, dict(kw), consume)
        finally:
            it2.contracts.pop(iter_code, None)
        return out
    it.models[written] = handler


def scenario(name, props, calls, want, mk, **kw):
    """For all inputs drawn by mk: the records of the file written after the calls are the wanted ones (or the input is rejected)."""
    def mk2(src):
        prepare(src)
        return mk(src)
    kw.setdefault('uses', ('write_logical_records', 'write_struct_uvari'))
    return relational(name, props, lambda: calls, want, mk2, keep=True, **kw)
