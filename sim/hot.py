"""Where the library touches state that all threads share.

Race-directed preemption: locations that read or write module globals which are mutable or rebound,
class attributes which are mutable, or functions with mutable defaults or closures.  On a tree without
such state the set is empty and preemption points are drawn uniformly.
"""
import collections
import dis
import functools
import sys
import types

import numpy as np

MUTABLE = (np.ndarray, list, dict, set, bytearray, collections.deque, np.random.RandomState,
           np.random.Generator)
CACHE = {}


def shared(v):
    if isinstance(v, MUTABLE):
        return True
    if isinstance(v, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType,
                      str, bytes, int, float, complex, tuple, frozenset, type(None), np.ufunc,
                      np.generic, property, staticmethod, classmethod)):
        return False
    if isinstance(v, functools.partial):
        return False
    return hasattr(v, '__dict__') and not callable(v)


def functions(mod):
    """Every function defined in a module, also through classes, wrappers and closures."""
    seen = set()
    todo = [v for v in vars(mod).values()]
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, type):
            if v.__module__ == mod.__name__:
                todo += list(vars(v).values())
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, property):
            todo += [f for f in (v.fget, v.fset) if f]
        elif isinstance(v, types.FunctionType):
            if v.__module__ == mod.__name__:
                yield v
                if hasattr(v, '__wrapped__'):
                    todo.append(v.__wrapped__)
                todo += [c.cell_contents for c in v.__closure__ or () if filled(c)]
        elif hasattr(v, '__wrapped__'):
            todo.append(v.__wrapped__)


def filled(cell):
    try:
        cell.cell_contents
    except ValueError:
        return False
    return True


def codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from codes(c)


def locations(gran):
    """Set of (qualified name, line or bytecode offset)."""
    if gran in CACHE:
        return CACHE[gran]
    out = set()
    mods = [m for n, m in sorted(sys.modules.items()) if n == 'reor' or n.startswith('reor.')]
    attrs = set()
    for m in mods:
        for v in vars(m).values():
            if isinstance(v, type) and v.__module__ == m.__name__:
                attrs |= {a for a, x in vars(v).items() if not a.startswith('__') and shared(x)}
    for m in mods:
        fs = list(functions(m))
        rebound = {i.argval for f in fs for c in codes(f.__code__) for i in dis.get_instructions(c)
                   if i.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL')}
        names = rebound | {k for k, v in vars(m).items() if not k.startswith('__') and shared(v)}
        for f in fs:
            every = any(shared(v) for v in (f.__defaults__ or ()) + tuple(
                (f.__kwdefaults__ or {}).values())) or any(
                    shared(c.cell_contents) for c in f.__closure__ or () if filled(c))
            for c in codes(f.__code__):
                lines = set()
                for i in dis.get_instructions(c):
                    hit = every or (i.opname in ('LOAD_GLOBAL', 'STORE_GLOBAL', 'LOAD_NAME') and
                                    i.argval in names) or (
                        i.opname in ('LOAD_ATTR', 'STORE_ATTR') and i.argval in attrs) or (
                        i.opname == 'STORE_ATTR' and i.argval in attrs)
                    if hit:
                        lines.add(i.positions.lineno)
                for i in dis.get_instructions(c):
                    if i.positions and i.positions.lineno in lines:
                        out.add((c.co_qualname, i.positions.lineno if gran == 'line'
                                 else i.offset))
    CACHE[gran] = out
    return out


def modules():
    """Names of the modules in which such locations lie."""
    if 'modules' not in CACHE:
        hot = {q for q, _ in locations('line')}
        CACHE['modules'] = {
            m.__name__.split('.')[-1] for n, m in sorted(sys.modules.items())
            if n == 'reor' or n.startswith('reor.')
            for f in functions(m) for c in codes(f.__code__) if c.co_qualname in hot}
    return CACHE['modules']


def pick(rec, gran, u1, u2):
    """An event at or just after a shared-state location, or None if there is none."""
    hot = locations(gran)
    if not hot:
        return None
    occ = collections.OrderedDict()
    for i, loc in enumerate(rec):
        if loc in hot:
            occ.setdefault(loc, []).append(i)
    if not occ:
        return None
    locs = list(occ.values())
    o = locs[min(int(u1 * len(locs)), len(locs) - 1)]
    i = o[min(int(u2 * len(o)), len(o) - 1)]
    return min(i + int(u2 * 1000) % 3, len(rec) - 1) + 1
