"""Verification context: path exploration, solver, obligations, loop invariants (Houdini)."""
from __future__ import annotations

import itertools
import os
import subprocess
import tempfile
import time

import z3

from .sym import *


class PathEnd(BaseException):
    """The current path is finished (end of an inductive loop iteration, or a dead path)."""


class Restart(BaseException):
    """The set of invariants / modified locations changed: explore again."""


class Budget(BaseException):
    pass


class NoSplit(BaseException):
    """A case split inside an evaluation that has to be uniform."""


class LoopInfo:
    def __init__(self):
        self.cands = None            # name -> builder ; None: not generated yet
        self.mods = []               # [(label, field)] discovered modified heap locations
        self.cat = {}                # var -> list of remaining functional candidates (names)
        self.measures = None         # set of surviving measures
        self.streams = None

    def reset(self):
        """Another location is modified by the loop: the candidates are generated anew."""
        self.cands, self.cat, self.measures, self.streams = None, {}, None, None


def find_path(frame, obj):
    """How an object is reached from the variables of a frame: stable under re-execution, unlike allocation numbers."""
    seen, todo = set(), []
    f = frame
    while f is not None:
        todo += [(('var', n), v) for n, v in f.vars.items()]
        for n, c in f.closure.items():
            try:
                todo.append((('var', n), c.cell_contents))
            except ValueError:
                pass
        f = f.parent
    for _ in range(4):
        nxt = []
        for p, v in todo:
            if v is obj:
                return p
            if id(v) in seen:
                continue
            seen.add(id(v))
            d = v.fields if isinstance(v, Opq) else getattr(v, '__dict__', None) if not isinstance(v, (Sym, type)) and type(v).__module__.split('.')[0] == 'dliswriter' else None
            if isinstance(d, dict):
                nxt += [(p + (k,), x) for k, x in d.items() if isinstance(k, str)]
        todo = nxt
    return None


def follow_path(frame, path):
    f = frame
    v = f
    while f is not None:
        if path[1] in f.vars:
            v = f.vars[path[1]]
            break
        if path[1] in f.closure:
            try:
                v = f.closure[path[1]].cell_contents
                break
            except ValueError:
                pass
        f = f.parent
    else:
        return None
    for k in path[2:]:
        d = v.fields if isinstance(v, Opq) else getattr(v, '__dict__', {})
        if k not in d:
            return None
        v = d[k]
    return v


class VC:
    QT = 6000                         # ms per query

    def __init__(self, name, budget=60, max_paths=4000, unroll=None):
        self.name = name
        self.t0 = time.time()
        self.budget, self.max_paths = budget, max_paths
        self.unroll = unroll
        self.loops: dict = {}
        self.obl: dict = {}           # obligation -> {'status','paths','model','detail'}
        self.covers: dict = {}
        self.queries = 0
        self.solver_s = 0.0
        self.cvc5_used = 0
        self.functions: set = set()
        self.trusted: set = set()
        self.used_contracts: set = set()
        self.paths = 0
        self.changed = False
        self.restarts = 0
        self.unsupported: list = []

    # ------------------------------------------------------------------ exploration
    def explore(self, body):
        """body(vc): run one path from the start."""
        while True:
            try:
                self._round(body)
            except Restart:
                pass
            else:
                if not self.changed:
                    return
            self.restarts += 1
            if self.restarts > 200:
                raise Budget('too many refinements of the invariants')

    def _round(self, body):
        self.changed = False
        self.obl.clear()
        self.covers.clear()
        self.unsupported.clear()
        work = [[]]
        n = 0
        failing = None
        while work:
            if time.time() - self.t0 > self.budget:
                raise Budget(f"time budget {self.budget} s used up after {n} paths")
            if any(v['status'] == 'refuted' for v in self.obl.values()):
                failing = failing or time.time()
                if time.time() - failing > 15:
                    raise Budget('refuted: the other paths were left')
            n += 1
            if n > self.max_paths:
                raise Budget(f"more than {self.max_paths} paths")
            self.trace = work.pop()
            self.prefix = len(self.trace)
            self.pos = 0
            self.work = work
            self.solver = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
            self.solver.set('timeout', self.QT)
            self.pc = []
            self.fresh_n = itertools.count()
            self.alloc_n = itertools.count(1)
            self.labels = {}
            self.byid = {}
            self.keep = []
            self.ghost = {}
            self.inputs = {}
            self.memo = {}
            self.cats = {}
            self.unfold = {}
            self.npool = None
            self.extra_invariants, self.loop_terms = {}, {}
            self.fs = None
            self.loopstack = []
            self.nosplit = False
            self.version = 0
            self.axset = set()
            self.precise = True
            self.note = []
            self.asc = {}
            try:
                body(self)
            except PathEnd:
                pass
            except Unsupported as e:
                self.unsupported.append(str(e))
                if len(self.unsupported) > 30:
                    break
            if self.changed:
                raise Restart()
            if self.pos < self.prefix:
                self.unsupported.append('internal: a replayed path diverged')
        self.paths = n

    # ------------------------------------------------------------------ solver
    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    assume_raw = add

    def axiom(self, c):
        k = c.get_id()
        if k not in self.axset:
            self.axset.add(k)
            self.keep.append(c)
            self.add(c)

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.t
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.add(c)

    def check(self, c):
        self.queries += 1
        t = time.time()
        self.solver.push()
        self.solver.add(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_s += time.time() - t
        if time.time() - self.t0 > self.budget:
            raise Budget(f"time budget {self.budget} s used up")
        return r, m

    def cvc5(self, c):
        """Second opinion on an 'unknown' of z3."""
        s = z3.Solver()
        s.add(*self.pc)
        s.add(c)
        t = time.time()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        try:
            r = subprocess.run(['cvc5', '--tlimit=10000', f.name], capture_output=True, text=True, timeout=20).stdout.strip()
        except Exception:
            r = 'unknown'
        finally:
            os.unlink(f.name)
        self.cvc5_used += 1
        self.solver_s += time.time() - t
        return r.splitlines()[0] if r else 'unknown'

    def valid(self, c):
        """Is c entailed by the path condition? (recorded in the trace, so a replay needs no query)"""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace):
            r = self.trace[self.pos]
            self.pos += 1
            return r
        r = self.check(z3.Not(c))[0] == z3.unsat
        self.trace.append(r)
        self.pos += 1
        return r

    def entails(self, c):
        """Like valid, but not recorded: only where the answer does not steer the execution of the path."""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        return self.check(z3.Not(c))[0] == z3.unsat

    def decide(self, c):
        if isinstance(c, SBool):
            c = c.t
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trace):
            r = self.trace[self.pos]
            self.pos += 1
            self.add(c if r else z3.Not(c))
            return r
        t, _ = self.check(c)
        f, _ = self.check(z3.Not(c))
        if t == z3.unsat and f == z3.unsat:
            raise PathEnd()
        if t == z3.unsat:
            r = False
        elif f == z3.unsat:
            r = True
        else:
            if self.nosplit:
                raise NoSplit()
            r = True
            self.work.append(self.trace + [False])
        self.trace.append(r)
        self.pos += 1
        self.add(c if r else z3.Not(c))
        return r

    def uniform(self, assumption, f):
        """f() under an assumption, without case splits: -> (True, value) or (False, None). Nothing learned is kept."""
        if self.pos < len(self.trace):
            if not self.trace[self.pos]:
                self.pos += 1
                return False, None
        else:
            self.trace.append(True)
        mark = self.pos
        self.pos += 1
        save = list(self.pc), set(self.axset), self.nosplit, {k: list(v) for k, v in self.unfold.items()}, self.npool
        if self.npool is not None:
            self.npool = self.npool.clone()
        self.nosplit = True
        self.solver.push()
        self.pc.append(assumption)
        self.solver.add(assumption)
        try:
            return True, f()
        except (NoSplit, PyRaise):
            if mark >= self.prefix:
                self.trace[mark:] = [False]
                self.pos = mark + 1
                return False, None
            raise Unsupported('internal: uniform evaluation diverged')
        finally:
            self.solver.pop()
            self.pc, self.axset, self.nosplit, self.unfold, self.npool = save

    def choose(self, name, n):
        """Non-deterministic choice among n alternatives."""
        for k in range(n - 1):
            if self.decide(z3.Bool(self.fname(f"choice_{name}_{k}"))):
                return k
        return n - 1

    def live(self):
        """Past the replayed prefix?"""
        return self.pos >= self.prefix

    # ------------------------------------------------------------------ symbols
    def fname(self, base):
        return f"{base}!{next(self.fresh_n)}"

    def int(self, name, lo=None, hi=None, inp=False):
        t = z3.Int(self.fname(name))
        if lo is not None:
            self.add(t >= lo)
        if hi is not None:
            self.add(t <= hi)
        v = SInt(t)
        if inp:
            self.inputs[name] = v
        return v

    def bool(self, name, inp=False):
        v = SBool(z3.Bool(self.fname(name)))
        if inp:
            self.inputs[name] = v
        return v

    def real(self, name, inp=False):
        v = SReal(z3.Real(self.fname(name)))
        if inp:
            self.inputs[name] = v
        return v

    def base(self, name, n, kind='bytes', asc=None):
        nm = self.fname(name)
        f = z3.Function(nm, z3.IntSort(), z3.IntSort())
        if asc is None and kind == 'str':
            asc = z3.Bool(nm + '_ascii')
        return Rope(kind, [Base(f, 0, n, nm, chars=(kind == 'str'), asc=asc if kind == 'str' or asc is not None else None)])

    def bytes(self, name, kind='bytes', n=None, maxlen=None, inp=True):
        if n is None:
            n = self.int(name + '_len', 0, maxlen).t
        r = self.base(name, n, kind)
        if inp:
            self.inputs[name] = r
        return r

    def str(self, name, n=None, maxlen=None, inp=True):
        return self.bytes(name, 'str', n, maxlen, inp)

    # ------------------------------------------------------------------ heap bookkeeping
    def label(self, obj, name=None):
        k = id(obj)
        if k not in self.labels:
            self.labels[k] = (next(self.alloc_n), name)
            self.byid[self.labels[k][0]] = obj
            self.keep.append(obj)
        return self.labels[k][0]

    def on_write(self, obj, field):
        if isinstance(obj, Sym) and not isinstance(obj, (MBA, Opq)):
            return
        self.version += 1
        lab = self.labels.get(id(obj))
        for ls in self.loopstack:
            if lab is None:
                raise Unsupported(f"write to an unknown {type(obj).__name__} inside a loop")
            if lab[0] < ls.alloc and (lab[0], field) not in ls.mods:
                ls.info.mods.append((find_path(ls.frame, obj) or lab[0], field))
                ls.info.reset()
                self.changed = True
                raise PathEnd()

    def simp_equal(self, x, y):
        """Evidently equal (no query)."""
        if isinstance(x, (SInt, SReal, SBool)) and type(x) is type(y):
            return z3.is_true(z3.simplify(x.t == y.t))
        return False

    def gset(self, name, value):
        for ls in self.loopstack:
            if name in ls.ghost0 and ('ghost', name) not in ls.mods:
                ls.info.mods.append(('ghost', name))
                ls.info.reset()
                self.changed = True
                raise PathEnd()
        self.version += 1
        self.ghost[name] = value

    # ------------------------------------------------------------------ obligations
    def cover(self, name):
        if self.live():
            self.covers[name] = self.covers.get(name, 0) + 1

    def prove(self, name, c, detail=''):
        """Discharge an obligation on the current path."""
        if isinstance(c, SBool):
            c = c.t
        if not self.live():
            if c is not True and c is not False:
                self.add(c)
            return
        o = self.obl.setdefault(name, {'status': 'proved', 'paths': 0, 'backend': 'z3'})
        o['paths'] += 1
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return
        r, m = self.check(z3.Not(c))
        if r == z3.unsat:
            self.add(c)
            return
        if r == z3.unknown:
            r2 = self.cvc5(z3.Not(c))
            if r2 == 'unsat':
                o['backend'] = 'z3+cvc5'
                self.add(c)
                return
            if o['status'] != 'refuted':
                o['status'] = 'unknown'
                o['detail'] = detail or str(cs)[:400]
        else:
            if o['status'] != 'refuted':
                o['status'] = 'refuted'
                o['detail'] = detail or str(cs)[:400]
                o['precise'] = self.precise
                o['model'] = self.show(m)
                o['values'] = self.values(m)
        self.add(c)
        if self.solver.check() == z3.unsat:
            raise PathEnd()

    def values(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = v.concrete(self, m) if hasattr(v, 'seq') and not isinstance(v, Sym) else self.concrete(m, v)
            except Exception as e:
                out[k] = f"?{e}"
        return out

    def concrete(self, m, v):
        if isinstance(v, SInt):
            return m.eval(v.t, model_completion=True).as_long()
        if isinstance(v, SBool):
            return z3.is_true(m.eval(v.t, model_completion=True))
        if isinstance(v, SReal):
            x = m.eval(v.t, model_completion=True)
            return float(x.numerator_as_long()) / float(x.denominator_as_long())
        if isinstance(v, Rope):
            n = v.n if isinstance(v.n, int) else m.eval(v.n, model_completion=True).as_long()
            out = []
            n = max(0, min(n, 5000))
            for k in range(n):
                t = v.get(_NoAx, k)
                out.append(t if isinstance(t, int) else m.eval(t, model_completion=True).as_long())
            if v.kind == 'str':
                asc = [z3.is_true(m.eval(p.asc, model_completion=True)) for p in v.pieces if isinstance(p, Base) and p.asc is not None]
                if all(asc):
                    return ''.join(chr(65 + c % 26) if not 32 <= c < 127 else chr(c) for c in out)
                return ''.join(chr(c % 0xd800) if c >= 0xd800 or c < 0 else chr(c) for c in out)
            return bytes(c % 256 for c in out)
        if isinstance(v, (list, tuple)):
            return type(v)(self.concrete(m, x) for x in v)
        if isinstance(v, Sym):
            return repr(v)
        return v

    def show(self, m):
        out = []
        for k, v in self.values(m).items():
            s = repr(v)
            out.append(f"{k} = {s[:120]}{f' ... ({len(v)})' if len(s) > 120 else ''}")
        return '; '.join(out + self.note)

    # ------------------------------------------------------------------ rope goals
    def eq_goal(self, name, a, b):
        """Prove that two byte / character sequences are equal."""
        a, b = rope(a), rope(b)
        la, lb = iv(a.n), iv(b.n)
        self.prove(name, la == lb, f"length {a} vs {b}")
        if self._same(a, b):
            self.prove(name, True)
            return
        if not self.live():
            return                      # (the element-wise facts are not needed afterwards)
        self.solver.push()
        save = list(self.pc), set(self.axset)
        k = z3.Int('skolem_k')
        self.pc.append(z3.And(k >= 0, k < la))
        self.solver.add(z3.And(k >= 0, k < la))
        try:
            n0 = self.obl.get(name, {}).get('status')
            self.prove(name, a.get(self, k) == b.get(self, k), f"content {a} vs {b}")
            del n0
        finally:
            self.solver.pop()
            self.pc, self.axset = save

    def _same(self, a, b):
        if len(a.pieces) != len(b.pieces):
            return False
        for p, q in zip(a.pieces, b.pieces):
            if type(p) is not type(q):
                return False
            if isinstance(p, Lit):
                if p.n != q.n or not all(z3.is_true(z3.simplify(iv(x) == iv(y))) for x, y in zip(p.items, q.items)):
                    return False
            elif isinstance(p, Base):
                if p.f is not q.f or not z3.is_true(z3.simplify(z3.And(iv(p.off) == iv(q.off), iv(p.n) == iv(q.n)))):
                    return False
            else:
                return False
        return True


class _NoAxT:
    def axiom(self, c):
        pass


_NoAx = _NoAxT()


class MBA(Sym):
    """A mutable bytearray."""

    def __init__(self, r):
        self.rope = r

    def __repr__(self):
        return f"<bytearray {self.rope}>"
