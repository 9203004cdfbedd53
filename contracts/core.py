"""Obligations: relational contracts  outcome(real function) == outcome(specification function), for all inputs.

A specification function is an executable Python function written from the property text (contracts/spec*.py).  It is
interpreted by the same verifier as the real function, used as the contract of the real function where that is called
by other functions under contract, and executed natively (next to the real function) when a counterexample is replayed.
"""
from __future__ import annotations

import importlib
import random
import traceback

import z3

from pyvc.sym import *
from pyvc.vc import VC, PathEnd, Restart, Budget, MBA
from pyvc.interp import Interp, is_sym, py_type, IGen, SymSeq, SymGen
from pyvc.state import state

OBLIGATIONS: dict = {}


SIGNATURE = 'signature'


class Missing(BaseException):
    """The function under contract does not exist (any more) under that name."""


def real(path):
    """'module:qualname' -> the object of the package under verification."""
    mod, q = path.split(':')
    try:
        o = importlib.import_module('dliswriter.' + mod if mod else 'dliswriter')
        for p in q.split('.'):
            o = getattr(o, p)
    except (ImportError, AttributeError) as e:
        raise Missing(f"{path}: {e}")
    return o


def like(path, stub):
    """A stub of a method which takes arguments as the real one does (by position or by keyword)."""
    from pyvc.interp import positional
    try:
        fn = real(path)
    except Missing:
        return stub

    def m(it, *a, **kw):
        a, kw = positional(fn, [None, *a], kw)
        return stub(it, *a[1:], **kw)
    return m


def code(fn):
    fn = getattr(fn, '__func__', fn)
    return fn.__code__


class Obligation:
    def __init__(self, name, props, body, replay=None, internal=False, unroll=3, budget=40, uses=(), covers=('precondition', 'returned|rejected|exhausted|checked'),
                 complete_replay=False, peel=0):
        self.peel = peel
        self.name, self.props, self.body, self.replay = name, tuple(props.split()), body, replay
        self.uses = tuple(uses)
        self.internal, self.unroll, self.budget, self.covers = internal, unroll, budget, covers
        # complete_replay: the native replay rebuilds the counterexample exactly, so its agreement refutes the counterexample
        self.complete_replay = complete_replay


def obligation(name, props, **kw):
    """Register body(it, vc)."""
    def deco(fn):
        OBLIGATIONS[name] = Obligation(name, props, fn, **kw)
        return fn
    return deco


# ------------------------------------------------------------------------------------------------- inputs
class SymSrc:
    """Symbolic inputs of an obligation."""
    symbolic = True

    def __init__(self, it):
        self.it, self.vc = it, it.vc

    def int(self, name, lo=None, hi=None):
        return self.vc.int(name, lo, hi, inp=True)

    def bool(self, name):
        return self.vc.bool(name, inp=True)

    def real(self, name):
        return self.vc.real(name, inp=True)

    def str(self, name, maxlen=None):
        return self.vc.str(name, maxlen=maxlen)

    def ascii(self, name, maxlen=None):
        r = self.vc.str(name, maxlen=maxlen)
        for p in r.pieces:
            if getattr(p, 'asc', None) is not None:
                self.vc.add(p.asc)
        return r

    def bytes(self, name, maxlen=None, n=None):
        return self.vc.bytes(name, maxlen=maxlen, n=n.t if isinstance(n, SInt) else n)

    def pick(self, name, options):
        """One of finitely many alternatives: each is explored."""
        k = self.vc.choose(name, len(options))
        self.vc.inputs[name] = k
        return options[k]

    def assume(self, c):
        self.vc.assume(c)

    def call(self, fn, *a):
        return self.it.call(fn, a)


    def list(self, name, mk, lo=0, hi=None):
        """A list of unknown length; mk(sub) builds an element from the inputs drawn from sub."""
        n = self.vc.int('n_' + name, lo, hi)
        sub = ElemSrc(self.it, name)
        memo = {}
        mk(sub.at(z3.Int(self.vc.fname('any_' + name))))      # (declares the functions of the index)

        def elem(vc, i):
            i = z3.simplify(iv(i))
            k = i.sexpr()
            if k not in memo:
                memo[k] = mk(sub.at(i))
            return memo[k]
        r = SymSeq(name, n.t, elem, list)
        self.vc.inputs[name] = ListInput(n, sub, r)
        return r


class ListInput:
    def __init__(self, n, sub, seq):
        self.n, self.sub, self.seq = n, sub, seq

    def concrete(self, vc, m):
        n = m.eval(self.n.t, model_completion=True).as_long()
        if n > 300:
            return f"?{n} elements"
        return [self.sub.concrete(vc, m, i) for i in range(n)]


class ElemSrc:
    """Symbolic inputs of the i-th element of a list: functions of i."""
    symbolic = True

    def __init__(self, it, name):
        self.it, self.vc, self.name = it, it.vc, name
        self.kinds = {}
        self.i = None

    def at(self, i):
        r = ElemSrc(self.it, self.name)
        r.kinds, r.i = self.kinds, i
        return r

    def _f(self, name, sort, kind, *more):
        if name not in self.kinds:
            self.kinds[name] = (kind, z3.Function(self.vc.fname(f"{self.name}_{name}"), z3.IntSort(), *more, sort))
        return self.kinds[name][1]

    def int(self, name, lo=None, hi=None):
        t = self._f(name, z3.IntSort(), 'int')(self.i)
        if lo is not None:
            self.vc.axiom(t >= lo)
        if hi is not None:
            self.vc.axiom(t <= hi)
        return SInt(t)

    def bool(self, name):
        return SBool(self._f(name, z3.BoolSort(), 'bool')(self.i))

    def real(self, name):
        return SReal(self._f(name, z3.RealSort(), 'real')(self.i))

    def ascii(self, name, maxlen=None):
        r = self.str(name, maxlen)
        self.vc.axiom(r.pieces[0].asc)
        return r

    def str(self, name, maxlen=None, kind='str'):
        n = self._f(name + '_len', z3.IntSort(), 'len')(self.i)
        f = self._f(name, z3.IntSort(), kind, z3.IntSort())
        self.vc.axiom(n >= 0)
        if maxlen is not None:
            self.vc.axiom(n <= maxlen)
        i = self.i
        asc = self._f(name + '_ascii', z3.BoolSort(), 'asc')(i) if kind == 'str' else None
        key = ('elemstr', f.name(), i.sexpr())
        if key not in self.vc.memo:
            self.vc.memo[key] = lambda k: f(i, k)
        return Rope(kind, [Base(self.vc.memo[key], 0, n, f"{f.name()}@{i.sexpr()}", chars=(kind == 'str'), asc=asc)])

    def bytes(self, name, maxlen=None):
        return self.str(name, maxlen, 'bytes')

    def assume(self, c):
        t = self.it.bterm(c)
        self.vc.axiom(t)

    def call(self, fn, *a):
        return self.it.call(fn, a)

    def concrete(self, vc, m, i):
        out = {}
        ev = lambda t: m.eval(t, model_completion=True)
        for k, (kind, f) in self.kinds.items():
            if kind == 'int':
                out[k] = ev(f(i)).as_long()
            elif kind == 'bool':
                out[k] = z3.is_true(ev(f(i)))
            elif kind == 'real':
                out[k] = vc.concrete(m, SReal(f(i)))
            elif kind in ('str', 'bytes'):
                n = max(0, min(5000, ev(self.kinds[k + '_len'][1](i)).as_long()))
                asc = kind != 'str' or z3.is_true(ev(self.kinds[k + '_ascii'][1](i)))
                cs = [ev(f(i, j)).as_long() for j in range(n)]
                out[k] = bytes(c % 256 for c in cs) if kind == 'bytes' else ''.join(chr(65 + c % 26 if asc and not 32 <= c < 127 else c % 0xd800) for c in cs)
        return out


class ConcSrc:
    """The same inputs, concrete (replay of a counterexample; random cross-check)."""
    symbolic = False

    class Reject(Exception):
        pass

    def __init__(self, values=None, rng=None):
        self.values, self.rng = dict(values or {}), rng

    def _v(self, name, make):
        if name not in self.values:
            if self.rng is None:
                raise ConcSrc.Reject(name)
            self.values[name] = make(self.rng)
        v = self.values[name]
        if isinstance(v, str) and v.startswith('?'):
            raise ConcSrc.Reject(name)
        return v

    def int(self, name, lo=None, hi=None):
        def mk(r):
            a, b = (lo if lo is not None else r.choice([-5, -5, -2 ** 40])), (hi if hi is not None else (lo or 0) + r.choice([100000, 2 ** 40]))
            edge = r.choice([7, 8, 14, 15, 16, 30, 31, 32])
            return r.choice([r.randint(a, b), min(b, a + r.randint(0, 30)), min(b, a + r.randint(0, 30)), r.randint(a, min(b, max(a, 300))), b,
                             max(a, min(b, r.choice([1, -1]) * 2 ** edge + r.randint(-1, 1)))])
        return self._v(name, mk)

    def bool(self, name):
        return self._v(name, lambda r: r.random() < .5)

    def real(self, name):
        return self._v(name, lambda r: r.choice([0., -0., 1., r.uniform(-10, 10), 1e30, -3.4028234663852886e38, 3.4028236e38, -1e39, 5e-324, 1e300, float('inf'), float('-inf'), float(r.randint(-2 ** 34, 2 ** 34))]))

    def str(self, name, maxlen=None):
        def mk(r):
            n = r.choice([0, 1, r.randint(0, 12), 255, 256, 127, 128])
            n = min(n, maxlen if maxlen is not None else n)
            return ''.join(r.choice('AZaz09-_ .') if r.random() < .97 else 'é' for _ in range(n))
        return self._v(name, mk)

    def ascii(self, name, maxlen=None):
        v = self.str(name, maxlen)
        if not v.isascii():
            if self.rng is None:
                raise ConcSrc.Reject(name)
            self.values[name] = v = v.encode('ascii', 'ignore').decode()
        return v

    def bytes(self, name, maxlen=None, n=None):
        return self._v(name, lambda r: bytes(r.randrange(256) for _ in range(n if n is not None else min(r.choice([0, 1, 13, r.randint(0, 80)]), maxlen or 99999))))

    def list(self, name, mk, lo=0, hi=None):
        if name not in self.values:
            if self.rng is None:
                raise ConcSrc.Reject(name)
            self.values[name] = [None] * max(lo, min(hi if hi is not None else 99, self.rng.choice([0, 1, 2, 3, self.rng.randint(0, 20)])))
        v = self.values[name]
        if isinstance(v, str):
            raise ConcSrc.Reject(name)
        out = []
        for k, x in enumerate(v):
            sub = ConcSrc(x if isinstance(x, dict) else {}, self.rng)
            out.append(mk(sub))
            v[k] = sub.values
        return out

    def pick(self, name, options):
        return options[self._v(name, lambda r: r.randrange(len(options)))]

    def assume(self, c):
        if not c:
            raise ConcSrc.Reject('assumption')

    def call(self, fn, *a):
        return fn(*a)


# ------------------------------------------------------------------------------------------------- outcomes
class Ret:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"returns {self.v!r}"[:300]


class Exc:
    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"raises {type(self.e).__name__}: {str(self.e)[:120]}"


class Reject(Exception):
    """Raised by specification functions: the call has to be rejected with an exception (of any class)."""


def outcome(it, fn, args, kw=None):
    from pyvc.sym import PyRaise
    try:
        return Ret(it.call(fn, list(args), dict(kw or {})))
    except PyRaise as e:
        return Exc(e.exc)


def native_outcome(fn, args, kw=None):
    try:
        v = fn(*args, **(kw or {}))
        if hasattr(v, '__next__'):
            v = list(v)
        return Ret(v)
    except Exception as e:
        x = Exc(e)
        tb, x.depth = e.__traceback__, -1
        while tb is not None:
            x.depth, tb = x.depth + 1, tb.tb_next
        return x


def exc_ok(real_e, spec_e):
    """Does the exception of the real function satisfy what the specification asks for?"""
    if type(spec_e).__name__ == 'Reject':
        return isinstance(real_e, Exception)
    return isinstance(real_e, type(spec_e))


def same(it, name, a, b):
    """Prove that two values are equal."""
    vc = it.vc
    seq = (Rope, bytes, bytearray, str, MBA)
    a = a.rope if isinstance(a, MBA) else a
    b = b.rope if isinstance(b, MBA) else b
    if isinstance(a, seq) and isinstance(b, seq):
        if (py_type(a) is str) != (py_type(b) is str):
            vc.prove(name, False, 'str against bytes')
            return
        vc.eq_goal(name, a, b)
        return
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        vc.prove(name, len(a) == len(b), f"{len(a)} elements against {len(b)}")
        for x, y in zip(a, b):
            same(it, name, x, y)
        return
    if isinstance(a, dict) and isinstance(b, dict):
        vc.prove(name, list(a) == list(b), f"keys {list(a)} against {list(b)}")
        for k in b:
            same(it, name, a[k], b[k])
        return
    if a is b:
        vc.prove(name, True)
        return
    x, y = it.as_num(a), it.as_num(b)
    if x is not None and y is not None:
        p, q = x[1], y[1]
        if x[0] != y[0]:
            p, q = (z3.ToReal(p) if x[0] == 'i' else p), (z3.ToReal(q) if y[0] == 'i' else q)
        vc.prove(name, p == q, f"{a} against {b}")
        return
    if isinstance(a, Opq) and isinstance(b, Opq) and a.term is not None and b.term is not None:
        vc.prove(name, a.term == b.term, f"{a} against {b}")
        return
    r = it.equal(a, b)
    vc.prove(name, r if isinstance(r, SBool) else bool(r), f"{a!r} against {b!r}")


def relate(it, name, r, s, what=''):
    """outcome r of the real function against outcome s of the specification."""
    vc = it.vc
    if isinstance(s, Exc):
        vc.cover('rejected')
        vc.prove(name, isinstance(r, Exc) and exc_ok(r.e, s.e), f"{what}: {r!r}; the contract: {s!r}")
    elif isinstance(r, Exc):
        vc.cover('returned')
        vc.prove(name, False, f"{what}: {r!r}; the contract: returns")
    else:
        vc.cover('returned')
        same(it, name, r.v, s.v)


def norm(v):
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def native_mismatch(r, s):
    """None, or how the native outcomes differ."""
    if isinstance(s, Exc):
        if isinstance(r, Exc) and exc_ok(r.e, s.e):
            return None
        return f"{r!r}; the contract: {s!r}"
    if isinstance(r, Exc) or not (norm(r.v) == norm(s.v)):
        if isinstance(r, Ret) and isinstance(r.v, (list, tuple)) and isinstance(s.v, (list, tuple)):
            x, y = norm(r.v), norm(s.v)
            k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return f"element {k} of {len(x)}: {short(x[k]) if k < len(x) else 'missing'}; the contract: {short(y[k]) if k < len(y) else 'no such element'}"
        return f"{r!r}; the contract: {s!r}"
    return None


def relational(name, props, realpath, spec, mk, contracts=(), keep=False, fork=False, **kw):
    """For all inputs produced by mk(src) -> args or (args, kwargs): outcome(real) == outcome(spec)."""
    def get(r):
        return r if callable(r) and not isinstance(r, str) else None

    def parts(src):
        a = mk(src)
        k = {}
        if isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], dict) and isinstance(a[0], (list, tuple)):
            a, k = a
        return list(a), k

    def fn():
        return real(realpath) if isinstance(realpath, str) else realpath()

    def body(it, vc):
        f = fn()
        a, k = parts(SymSrc(it))
        vc.cover('precondition')
        use_contracts(it, contracts)
        r = outcome(it, f, a, k)
        if isinstance(r, Ret) and isinstance(r.v, IGen):
            r = collect(it, r.v)
        # the specification is evaluated without contracts
        save, it.contracts = it.contracts, (it.contracts if keep else {})
        s = outcome(it, spec, a, k)
        if isinstance(s, Ret) and isinstance(s.v, IGen):
            s = collect(it, s.v)
        it.contracts = save
        relate(it, name, r, s)

    def replay(values):
        try:
            a, k = parts(ConcSrc(values))
            a2, k2 = parts(ConcSrc(values))
        except ConcSrc.Reject as e:
            return None
        run = forked if fork else native_outcome
        r = run(fn(), a, k)
        if isinstance(r, Exc) and isinstance(r.e, TypeError) and r.depth == 0 and 'argument' in str(r.e):
            return SIGNATURE
        d = native_mismatch(r, run(spec, a2, k2))
        return d and f"{realpath if isinstance(realpath, str) else name}({', '.join([short(x) for x in a] + [f'{x}={short(y)}' for x, y in k.items()])}): {d}"

    def crosscheck(seed):
        """Native run of real and spec on random inputs (tests the specification, not the code)."""
        src = ConcSrc(rng=random.Random(seed))
        try:
            parts(src)
        except ConcSrc.Reject:
            return None
        return replay(src.values)
    kw.setdefault('complete_replay', True)
    o = Obligation(name, props, body, replay, **kw)
    o.crosscheck = crosscheck
    o.contract = (realpath, spec)
    OBLIGATIONS[name] = o
    return o


def short(x):
    s = repr(x)
    return s if len(s) < 120 else s[:110] + f"...<{len(x) if hasattr(x, '__len__') else len(s)}>"


def collect(it, g):
    from pyvc.interp import YieldAll
    out = []
    try:
        for x in g.pyiter():
            if isinstance(x, YieldAll):
                raise Unsupported('yield from a symbolic sequence')
            out.append(x)
            if len(out) > 5000:
                raise Unsupported('long generator')
    except PyRaise as e:
        return Exc(e.exc)
    return Ret(out)


INLINE: set = set()       # names of obligations whose contracts are not to be used (not proved on this tree)


def set_inline(names):
    INLINE.clear()
    INLINE.update(names)


def use_contracts(it, names):
    """Callees are represented by their contracts (only when these are proved on this tree)."""
    for n in names:
        if n in INLINE:
            continue
        path, spec = OBLIGATIONS[n].contract
        try:
            f = real(path)
        except Missing:
            continue

        def handler(it2, *a, _spec=spec, _n=n, **k):
            it2.vc.used_contracts.add(_n)
            return it2.call(_spec, list(a), k)
        it.contracts[code(f)] = handler


def abstract_uvari(it):
    """UVARI encodings as one unknown sequence per value (its contract: equal to the standard's encoding of the value)."""
    from . import spec as S
    if 'write_struct_uvari' in INLINE:
        return
    try:
        f = real('utils.internal.struct_writer:write_struct_uvari')
    except Missing:
        return

    def handler(it2, value):
        it2.vc.used_contracts.add('write_struct_uvari')
        vc = it2.vc
        memo, terms, consts = vc.memo, vc.memo.setdefault(('uvari terms',), []), vc.memo.setdefault(('uvari consts',), {})

        def constant(v):
            try:
                b = S.uvari(v)
            except S.Reject as e:
                raise PyRaise(e)
            if type(v) is int and v not in consts:
                consts[v] = b
                for t, r in terms:
                    link(t, r, v)
            return b

        def link(t, r, v):
            for j, y in enumerate(consts[v]):
                vc.axiom(z3.Implies(t == v, r.pieces[0].f(z3.IntVal(j)) == y))
        x = it2.as_num(value)
        if x is None or x[0] != 'i' or not is_sym(value):
            return constant(value)
        t = z3.simplify(x[1])
        if z3.is_int_value(t) and 0 <= t.as_long() < 2 ** 30:
            return constant(t.as_long())
        if not vc.decide(z3.And(t >= 0, t < 2 ** 30)):
            raise PyRaise(ValueError('out of range'))
        key = ('uvari', t.sexpr())
        if key not in memo:
            for t0, r in reversed(terms):
                if vc.valid(t == t0):
                    memo[key] = r
                    return r
            r = memo[key] = vc.base(vc.fname('uvari'), z3.simplify(z3.If(t < 128, 1, z3.If(t < 16384, 2, 4))), 'bytes')
            terms.append((t, r))
            for v in consts:
                link(t, r, v)
        return memo[key]
    it.contracts[code(f)] = handler
    it.contracts[code(S.uvari)] = handler


def run_obligation(o, unroll=None, budget=None):
    """-> VC"""
    vc = VC(o.name, budget=budget or o.budget, unroll=unroll)
    vc.peel = o.peel
    vc.missing = None
    vc.crash = None

    process = state()

    def body(v):
        process.restore()
        it = Interp(v)
        it.models[fresh_process] = restart
        o.body(it, v)
    try:
        vc.explore(body)
    except Budget as e:
        vc.unsupported.append(f"budget: {e}")
    except Missing as e:
        vc.missing = str(e)
    except RecursionError:
        vc.unsupported.append('recursion')
    except (Exception, Unsupported) as e:
        vc.crash = traceback.format_exc()[-1500:]
        vc.unsupported.append(f"internal error: {type(e).__name__}: {e}")
    process.restore()
    return vc


def fresh_process():
    """Called by scenarios: from here on, nothing is left in the process of what was done before.  (Native replays run in processes of their own.)"""


def restart(it):
    it.lru.clear()
    state().restore()


def forked(f, *a, **k):
    """native_outcome(f, ...) in a child process."""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            x = native_outcome(f, *a, **k)
            x = ('ret', norm(x.v)) if isinstance(x, Ret) else ('exc', type(x.e), str(x.e), x.depth)
            with os.fdopen(w, 'wb') as g:
                pickle.dump(x, g)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as g:
        d = g.read()
    os.waitpid(pid, 0)
    x = pickle.loads(d)
    if x[0] == 'ret':
        return Ret(x[1])
    e = Exc(Exception(x[2]))
    try:
        e.e = x[1](x[2])
    except Exception:
        pass
    e.depth = x[3]
    return e
