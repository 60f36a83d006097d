"""Where the library catches errors.

Handler-directed faults: instants at which one of the library's own error handlers, a finally block
that leaves early, or contextlib.suppress is in force, together with an error it would catch.  Types a
library may reasonably use for its own control flow (LinAlgError, ValueError, TypeError, LookupError,
AttributeError) are left out.  On a tree without such handlers nothing is directed.
"""
import ast
import sys

CACHE = {}
CATCHES = {
    'BaseException': ('KeyboardInterrupt', 'MemoryError', 'SimCancel', 'RuntimeError'),
    'Exception': ('MemoryError', 'OSError', 'RuntimeError', 'SimFailure', 'FloatingPointError'),
    'ArithmeticError': ('FloatingPointError', 'OverflowError'),
    'FloatingPointError': ('FloatingPointError',), 'OverflowError': ('OverflowError',),
    'KeyboardInterrupt': ('KeyboardInterrupt',), 'SystemExit': ('SystemExit',),
    'GeneratorExit': ('GeneratorExit',), 'MemoryError': ('MemoryError',),
    'OSError': ('OSError', 'TimeoutError', 'BrokenPipeError', 'ConnectionError'),
    'IOError': ('OSError', 'TimeoutError', 'BrokenPipeError'), 'EnvironmentError': ('OSError',),
    'TimeoutError': ('TimeoutError',), 'BrokenPipeError': ('BrokenPipeError',),
    'ConnectionError': ('ConnectionError', 'BrokenPipeError'), 'EOFError': ('EOFError',),
    'RuntimeError': ('RuntimeError', 'RecursionError', 'NotImplementedError'),
    'RecursionError': ('RecursionError',), 'AssertionError': ('AssertionError',),
    'Warning': ('UserWarning', 'RuntimeWarning'), 'UserWarning': ('UserWarning',),
    'RuntimeWarning': ('RuntimeWarning',),
}


def names(node):
    if node is None:
        return ['BaseException']
    if isinstance(node, (ast.Tuple, ast.List)):
        return [n for e in node.elts for n in names(e)]
    if isinstance(node, ast.Attribute):
        return [node.attr]
    return [node.id] if isinstance(node, ast.Name) else []


def leaves(body):
    """Whether a finally block may end early and so drop the error."""
    return any(isinstance(n, (ast.Return, ast.Break, ast.Continue))
               for s in body for n in ast.walk(s))


def walk(node, qual, out):
    for ch in ast.iter_child_nodes(node):
        q = qual
        if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = qual + (ch.name, '<locals>')
        elif isinstance(ch, ast.ClassDef):
            q = qual + (ch.name,)
        exc, body = [], []
        if isinstance(ch, ast.Try):
            body = ch.body
            for h in ch.handlers:
                if not (len(h.body) == 1 and isinstance(h.body[0], ast.Raise)):
                    exc += names(h.type)
            if leaves(ch.finalbody):
                exc.append('BaseException')
        elif isinstance(ch, ast.With):
            body = ch.body
            for it in ch.items:
                f = getattr(it.context_expr, 'func', None)
                if f is not None and names(f) == ['suppress']:
                    exc += [n for a in it.context_expr.args for n in names(a)]
        kinds = sorted({k for n in exc for k in CATCHES.get(n, ())})
        if kinds and qual:
            fq = '.'.join(qual[:-1] if qual[-1] == '<locals>' else qual)
            out.append((fq, body[0].lineno, body[-1].end_lineno, kinds))
        walk(ch, q, out)


def ranges():
    """(qualified name, first line, last line, error types) of every region with a handler."""
    if 'r' not in CACHE:
        out = []
        for n, m in sorted(sys.modules.items()):
            if (n == 'reor' or n.startswith('reor.')) and getattr(m, '__file__', None):
                with open(m.__file__) as f:
                    walk(ast.parse(f.read()), (), out)
        CACHE['r'] = out
    return CACHE['r']


def pick(rec, u1, u2):
    """(event, error type) with a handler in force, or None."""
    cands = []
    for q, a, b, kinds in ranges():
        active = False
        idx = []
        for i, (name, line) in enumerate(rec):
            if name == q:
                active = a <= line <= b
            if active:
                idx.append(i)
        if idx:
            cands.append((idx, kinds))
    if not cands:
        return None
    x = u1 * len(cands)
    idx, kinds = cands[min(int(x), len(cands) - 1)]
    x = x % 1 * len(kinds)
    e = kinds[min(int(x), len(kinds) - 1)]
    # distinct location first, occurrence second
    occ = {}
    for i in idx:
        occ.setdefault(rec[i], []).append(i)
    locs = list(occ.values())
    o = locs[min(int(x % 1 * len(locs)), len(locs) - 1)]
    return o[min(int(u2 * len(o)), len(o) - 1)] + 1, e
