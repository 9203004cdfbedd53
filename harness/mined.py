"""Integer constants of the code under check (literals and folded constant expressions), used as sizes and values by the
bounded layer: a limit that appears in the code is tried just below, at and just above."""
from __future__ import annotations
import ast
import os
from functools import lru_cache

_OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
        ast.FloorDiv: lambda a, b: a // b, ast.LShift: lambda a, b: a << b if b < 64 else None,
        ast.Pow: lambda a, b: a ** b if 0 <= b < 64 and abs(a) < 1000 else None}


def _fold(n):
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bool):
            return None
        return int(v) if isinstance(v, (int, float)) and v == v and abs(v) < 2 ** 70 and v == int(v) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp) and type(n.op) in _OPS:
        a, b = _fold(n.left), _fold(n.right)
        if a is None or b is None:
            return None
        try:
            return _OPS[type(n.op)](a, b)
        except (ZeroDivisionError, OverflowError, ValueError):
            return None
    return None


@lru_cache(None)
def constants() -> tuple:
    import dliswriter
    root = os.path.dirname(os.path.abspath(dliswriter.__file__))
    found = set()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py'):
                try:
                    tree = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
                except SyntaxError:
                    continue
                for n in ast.walk(tree):
                    v = _fold(n) if isinstance(n, (ast.Constant, ast.BinOp)) else None
                    if v is not None:
                        found.add(abs(v))
    return tuple(sorted(found))
