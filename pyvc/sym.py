"""Symbolic values. Integers are mathematical integers; byte/character sequences are ropes."""
from __future__ import annotations

import z3


class Unsupported(BaseException):
    """A construct outside the verifier's reach: the obligations of the function are undecided."""


class PyRaise(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc
        super().__init__(repr(type(exc)))


class Sym:
    def _no(self, *a, **k):
        raise Unsupported(f"native use of a symbolic {type(self).__name__}")
    __bool__ = __len__ = __index__ = __int__ = __iter__ = __hash__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __contains__ = __float__ = __bytes__ = _no
    __call__ = _no

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)


class SInt(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<int {self.t}>"


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<bool {self.t}>"


class SReal(Sym):
    """A float, treated as a mathematical real (stated assumption)."""

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<float {self.t}>"


class Opq(Sym):
    """An opaque value of a known Python type; `fields` are modelled attributes, `tag` identifies it."""

    def __init__(self, typ, tag, fields=None, term=None, methods=None):
        self.typ, self.tag, self.fields, self.term, self.methods = typ, tag, fields or {}, term, methods or {}

    def __repr__(self):
        return f"<{getattr(self.typ, '__name__', self.typ)} {self.tag}>"


class Poison(Sym):
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<poison {self.why}>"


def iv(t):
    return z3.IntVal(t) if isinstance(t, int) else t


# ---------------------------------------------------------------------------------------------------- ropes
class Lit:
    def __init__(self, items):
        self.items = list(items)          # ints or z3 Int terms

    @property
    def n(self):
        return len(self.items)

    def get(self, vc, k):
        if isinstance(k, int):
            return self.items[k]
        if not self.items:
            return z3.IntVal(0)
        r = iv(self.items[-1])
        for j in range(len(self.items) - 2, -1, -1):
            r = z3.If(k == j, iv(self.items[j]), r)
        return r


class Base:
    """Slice [off, off+n) of an unknown sequence with content function f."""

    def __init__(self, f, off, n, name='', chars=False, asc=None):
        self.f, self.off, self.n, self.name, self.chars, self.asc = f, off, n, name, chars, asc

    def get(self, vc, k):
        j = z3.simplify(iv(self.off) + iv(k))
        t = self.f(j)
        for off, n, r in getattr(vc, 'unfold', {}).get(self.name, ()):      # known parts of the sequence
            vc.axiom(z3.Implies(z3.And(j >= off, j < off + n), t == iv(r.get(vc, z3.simplify(j - off)))))
        vc.axiom(z3.And(t >= 0, t <= (0x10ffff if self.chars else 255)))
        if self.asc is not None:
            vc.axiom(z3.Implies(self.asc, t < 128))
        return t


class Rep:
    def __init__(self, b, n):
        self.b, self.n = b, n

    def get(self, vc, k):
        return iv(self.b)


class Sub:
    """A clipped part of another piece."""

    def __init__(self, p, off, n):
        self.p, self.off, self.n = p, off, n

    def get(self, vc, k):
        return self.p.get(vc, iv(self.off) + iv(k))


class Rope(Sym):
    """bytes / bytearray / str"""

    def __init__(self, kind, pieces):
        self.kind = kind
        self.pieces = [p for p in pieces if not (isinstance(p.n, int) and p.n == 0)]

    @property
    def n(self):
        s = 0
        for p in self.pieces:
            s = p.n if isinstance(s, int) and s == 0 else s + p.n
        return s if isinstance(s, int) else z3.simplify(s)

    def __repr__(self):
        return f"<{self.kind} " + '+'.join(type(p).__name__ + f"[{p.n}]" for p in self.pieces) + '>'

    def get(self, vc, k):
        off = 0
        parts = []
        for p in self.pieces:
            parts.append((off, p))
            off = off + p.n
        if not parts:
            return z3.IntVal(0)
        if isinstance(k, int):                            # try to resolve statically
            o = 0
            for p in self.pieces:
                if not isinstance(p.n, int):
                    break
                if k < o + p.n:
                    return p.get(vc, k - o)
                o += p.n
        k = iv(k)
        r = parts[-1][1].get(vc, k - parts[-1][0])
        for o, p in reversed(parts[:-1]):
            r = z3.If(k < o + p.n, p.get(vc, k - o), r)
        return r


def rope(v):
    """Rope of a concrete bytes/str or a Rope."""
    if isinstance(v, Rope):
        return v
    if isinstance(v, (bytes, bytearray)):
        return Rope('bytearray' if isinstance(v, bytearray) else 'bytes', [Lit(list(v))])
    if isinstance(v, str):
        return Rope('str', [Lit([ord(c) for c in v])])
    raise Unsupported(f"rope of {type(v)}")


def concat(kind, *rs):
    out = []
    for r in rs:
        for p in rope(r).pieces:
            if out and isinstance(p, Lit) and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].items + p.items)
            elif (out and isinstance(p, Base) and isinstance(out[-1], Base) and p.f is out[-1].f
                  and z3.is_true(z3.simplify(iv(out[-1].off) + iv(out[-1].n) == iv(p.off)))):
                q = out[-1]
                out[-1] = Base(q.f, q.off, z3.simplify(iv(q.n) + iv(p.n)), q.name, q.chars, q.asc)
            else:
                out.append(p)
    return Rope(kind, out)
