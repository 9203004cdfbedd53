"""Regular expressions made of one set of characters, as facts about the characters of a symbolic string.

A `+` / `*` pattern of one character set, with or without an end anchor, for fullmatch / match / search; anything else stays an
unknown predicate of the pattern and the string.  "All characters in the set" is a fresh Boolean per set and piece; where it is
false there is a witness position, where it is true it is instantiated at the witnesses of the other sets and at the first and
last positions that are asked for.
"""
import re

import z3

from .sym import *

_CACHE = {}
TOP = 0x10ffff


def intervals(pattern_of_one, flags):
    """[(first, last)] of the code points matched by a pattern for one character."""
    key = (pattern_of_one, flags)
    if key not in _CACHE:
        f, out, a = re.compile(pattern_of_one, flags).fullmatch, [], None
        for c in range(TOP + 1):
            if f(chr(c)):
                if a is None:
                    a = c
            elif a is not None:
                out.append((a, c - 1))
                a = None
        if a is not None:
            out.append((a, TOP))
        _CACHE[key] = tuple(out)
    return _CACHE[key]


def complement(s):
    out, a = [], 0
    for lo, hi in s:
        if lo > a:
            out.append((a, lo - 1))
        a = hi + 1
    if a <= TOP:
        out.append((a, TOP))
    return tuple(out)


def parse(p):
    """re.Pattern -> (set, minimum number, anchored at the start, end anchor '' | '$' | 'Z') or None."""
    from re import _constants as C, _parser
    if p.flags & ~(re.U | re.I | re.A):
        return None
    items = list(_parser.parse(p.pattern, p.flags))
    start, end = False, ''
    if items and items[0] == (C.AT, C.AT_BEGINNING) or items and items[0] == (C.AT, C.AT_BEGINNING_STRING):
        start, items = True, items[1:]
    if items and items[-1][0] == C.AT:
        end = {C.AT_END: '$', C.AT_END_STRING: 'Z'}.get(items[-1][1])
        if end is None:
            return None
        items = items[:-1]
    if len(items) != 1:
        return None
    op, arg = items[0]
    lo, one = 1, False
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, 'POSSESSIVE_REPEAT', None)):
        lo, hi, sub = arg
        if hi != C.MAXREPEAT or lo > 1 or op is C.MIN_REPEAT and end == '' or len(sub) != 1:
            return None
        op, arg = list(sub)[0]
        if op == C.SUBPATTERN and len(list(arg[3])) == 1 and arg[1:3] == (0, 0):
            op, arg = list(arg[3])[0]
    else:
        one = True

    def single(op, arg):
        if op is C.IN:
            neg = arg and arg[0][0] is C.NEGATE
            txt = ''.join(piece(*x) for x in arg[1 if neg else 0:])
            return '[' + ('^' if neg else '') + txt + ']'
        if op is C.LITERAL:
            return re.escape(chr(arg))
        if op is C.NOT_LITERAL:
            return '[^' + re.escape(chr(arg)) + ']'
        raise KeyError(op)

    def piece(op, arg):
        if op is C.LITERAL:
            return re.escape(chr(arg))
        if op is C.RANGE:
            return re.escape(chr(arg[0])) + '-' + re.escape(chr(arg[1]))
        return {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_WORD: r'\w', C.CATEGORY_SPACE: r'\s', C.CATEGORY_NOT_DIGIT: r'\D',
                C.CATEGORY_NOT_WORD: r'\W', C.CATEGORY_NOT_SPACE: r'\S'}[arg]
    try:
        cs = intervals(single(op, arg), p.flags)
    except KeyError:
        return None
    return cs, lo, one, start, end


def member(t, s):
    if isinstance(t, int):
        return z3.BoolVal(any(a <= t <= b for a, b in s))
    return z3.Or([z3.And(t >= a, t <= b) if a != b else t == a for a, b in s])


def all_in(it, r, s):
    """z3 Bool: every character of the rope is in the set."""
    vc, parts = it.vc, []
    for p in r.pieces:
        if isinstance(p, Lit):
            parts.append(z3.And([member(c, s) for c in p.items]))
            continue
        key = it.rope_key(Rope('str', [p]))
        st = vc.memo.setdefault(('charsets', key), {'sets': {}, 'at': []})
        if s not in st['sets']:
            b, k, n = z3.Bool(vc.fname('all_in')), z3.Int(vc.fname('witness')), iv(p.n)
            st['sets'][s] = b
            vc.axiom(z3.Implies(z3.Not(b), z3.And(k >= 0, k < n, z3.Not(member(p.get(vc, k), s)))))
            for s2, b2 in st['sets'].items():
                if s2 != s:
                    vc.axiom(z3.Implies(z3.And(b2, z3.Not(b)), member(p.get(vc, k), s2)))
            st['at'].append(k)
            for k2 in st['at'][:-1] + [z3.IntVal(0), n - 1]:
                vc.axiom(z3.Implies(z3.And(b, k2 >= 0, k2 < n), member(p.get(vc, k2), s)))
        parts.append(st['sets'][s])
    return z3.And(parts) if parts else z3.BoolVal(True)


def matches(it, pattern, method, r):
    """z3 Bool, or None: unknown."""
    x = parse(pattern)
    if x is None or method not in ('fullmatch', 'match', 'search'):
        return None
    s, lo, one, start, end = x
    vc, n = it.vc, iv(r.n)
    if method == 'match' or method == 'fullmatch':
        start = True
    if method == 'fullmatch':
        end = 'Z'
    first = lambda: member(r.get(vc, 0), s)
    if not start:
        if end or not (one or lo == 1):
            return None
        return z3.Not(all_in(it, r, complement(s)))
    if not end:
        return z3.BoolVal(True) if not one and lo == 0 else z3.And(n > 0, first())
    exact = lambda rr: z3.And(iv(rr.n) == 1, member(rr.get(vc, 0), s)) if one else z3.And(iv(rr.n) >= lo, all_in(it, rr, s))
    if end == 'Z':
        return exact(r)
    b = z3.Bool(vc.fname('matches_before_newline'))
    vc.axiom(z3.Implies(b, z3.And(n > lo, iv(r.get(vc, z3.simplify(n - 1))) == 10)))
    if one:
        vc.axiom(b == z3.And(n == 2, first(), iv(r.get(vc, z3.IntVal(1))) == 10))
    return z3.Or(exact(r), b)


def one_of(it, r, values):
    """z3 Bool: the string is one of these."""
    vc, n = it.vc, iv(r.n)
    n0 = z3.simplify(n)
    out = []
    for v in values:
        if z3.is_int_value(n0) and n0.as_long() != len(v):
            continue
        out.append(z3.And([n == len(v)] + [iv(r.get(vc, k)) == ord(c) for k, c in enumerate(v)]))
    return z3.Or(out) if out else z3.BoolVal(False)
