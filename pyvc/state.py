"""The state a process holds outside any object of the user: module globals, class attributes, containers reachable from
them, closures and defaults of functions.  Snapshot and restore (a fresh process; each path of the exploration)."""
from __future__ import annotations

import collections
import functools
import sys
import types

CONTAINERS = (dict, list, set, collections.deque)


class State:
    def __init__(self, packages=('dliswriter',)):
        self.packages = packages
        self.names, self.attrs, self.items = [], [], []
        self.lru = []
        seen = set()
        todo = [m for n, m in sorted(sys.modules.items()) if n.split('.')[0] in packages and m is not None]
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, types.ModuleType):
                if o.__name__.split('.')[0] in packages:
                    self.names.append((o, dict(vars(o))))
                    todo += [v for k, v in vars(o).items() if k != '__builtins__']
            elif isinstance(o, type):
                if self.mine(o):
                    self.attrs.append((o, dict(vars(o))))
                    todo += list(vars(o).values())
                    if type(o) is not type:
                        todo.append(type(o))
            elif isinstance(o, functools._lru_cache_wrapper):
                self.lru.append(o)
                todo.append(o.__wrapped__)
            elif isinstance(o, types.FunctionType):
                if self.mine(o):
                    if o.__dict__:
                        self.attrs.append((o, dict(o.__dict__)))
                        todo += list(o.__dict__.values())
                    todo += [c.cell_contents for c in o.__closure__ or () if self.full(c)]
                    todo += list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values())
            elif isinstance(o, (staticmethod, classmethod)):
                todo.append(o.__func__)
            elif isinstance(o, property):
                todo += [f for f in (o.fget, o.fset, o.fdel) if f is not None]
            elif isinstance(o, functools.partial):
                todo += [o.func, *o.args, *o.keywords.values()]
            elif isinstance(o, CONTAINERS):
                self.items.append((o, o.copy()))
                todo += list(o.values()) + list(o) if isinstance(o, dict) else list(o)
            elif isinstance(o, (tuple, frozenset)):
                todo += list(o)
            elif self.mine(type(o)) and hasattr(o, '__dict__'):
                self.attrs.append((o, dict(o.__dict__)))
                todo += list(o.__dict__.values())
        self.keep = seen

    def mine(self, x):
        return (getattr(x, '__module__', None) or '').split('.')[0] in self.packages

    @staticmethod
    def full(c):
        try:
            c.cell_contents
            return True
        except ValueError:
            return False

    def restore(self):
        """-> number of differences found"""
        k = 0
        for o, old in self.names:
            now = vars(o)
            for n in [n for n in now if n not in old and not isinstance(now[n], types.ModuleType)]:
                del now[n]
                k += 1
            for n, v in old.items():
                if n not in now or now[n] is not v:
                    now[n] = v
                    k += 1
        for o, old in self.attrs:
            now = dict(vars(o))
            for n in now:
                if n not in old:
                    self.unset(o, n)
                    k += 1
            for n, v in old.items():
                if n not in now or now[n] is not v:
                    self.set(o, n, v)
                    k += 1
        for o, old in self.items:
            same = len(o) == len(old) and (all(x is y and o[x] is old[y] for x, y in zip(o, old)) if isinstance(o, dict) else
                                           all(x is y for x, y in zip(o, old)))
            if not same:
                k += 1
                if isinstance(o, list):
                    o[:] = old
                else:
                    o.clear()
                    (o.extend if isinstance(o, collections.deque) else o.update)(old)
        return k

    @staticmethod
    def set(o, n, v):
        if n in ('__dict__', '__weakref__', '__doc__'):
            return
        if isinstance(o, type):
            type.__setattr__(o, n, v)
        else:
            vars(o)[n] = v

    @staticmethod
    def unset(o, n):
        if isinstance(o, type):
            if not n.startswith('__'):
                type.__delattr__(o, n)
        else:
            vars(o).pop(n, None)


_STATE = []


def state():
    if not _STATE:
        import importlib
        import pkgutil
        import dliswriter
        for m in pkgutil.walk_packages(dliswriter.__path__, 'dliswriter.'):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
        _STATE.append(State())
    return _STATE[0]
