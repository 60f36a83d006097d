"""C25: calls leave nothing behind in the process."""
import atexit
import builtins
import copy
import decimal
import gc
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import time
import tracemalloc
import types
import warnings

import cvxpy
import numpy as np
import scipy.optimize
import scipy.special
import sklearn

from sim import core, hist, solver, world

BUDGET = {'quick': (2800, 130), 'thorough': (22400, 1500)}
RULE = ('one run = 4-7 rounds of the same 1-4 calls on one object, with other data, other sizes and '
        'injected faults each round, every round ending with one fixed fit and query; process-wide '
        'settings compared before and after every call and at random instants inside; file, '
        'process and network events observed through the interpreter\'s audit hook; memory '
        'reachable from the model and the library measured after every round, growth followed '
        'for 200 more rounds; non-trivial: a fault fired or three rounds completed; distinct: by '
        'model, calls, outcomes and abort locations')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS', 'scikit-learn']
STUB = ['clock', 'stdout', 'user kernel / clusterer / classifier objects']
ASSUMPTIONS = ['aborts strike at line boundaries of reor code, not inside numpy/scipy/cvxpy',
               'memory: containers, strings and arrays reachable from the model and from the '
               'modules, classes and functions of reor']
WATCHED = (np, np.linalg, np.random, scipy.optimize, cvxpy, sklearn, time, warnings, random,
           builtins, os, sys, threading, signal)
# what a call may well change for its own duration
TEMPORARY = ('floating-point error handling', 'floating-point error callback', 'print options',
             'warning filters', 'functions of warnings', 'special function errors',
             'decimal context', 'garbage collector', 'open files', 'scikit-learn configuration')
LIMITS = tuple(getattr(resource, n) for n in sorted(dir(resource)) if n.startswith('RLIMIT_'))
IO_EVENTS = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.link',
             'os.symlink', 'os.chdir', 'os.putenv', 'os.unsetenv', 'os.fork', 'os.exec',
             'os.system', 'os.spawn', 'os.posix_spawn', 'os.kill', 'os.startfile',
             'socket.connect', 'socket.bind', 'socket.sendto', 'socket.getaddrinfo',
             'subprocess.Popen', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'shutil.rmtree',
             'shutil.move', 'shutil.copyfile', 'ftplib.connect', 'urllib.Request', 'sqlite3.connect')


def settings():
    s = {
        'floating-point error handling': np.geterr(),
        'floating-point error callback': np.geterrcall(),
        'print options': repr(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
        'ufunc buffer size': np.getbufsize(),
        'special function errors': scipy.special.geterr(),
        'warning filters': [tuple(map(repr, f)) for f in warnings.filters],
        'standard streams': (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(),
        'import path': list(sys.path),
        'trace functions': (sys.gettrace(), sys.getprofile()),
        'threads': sorted(t.ident for t in threading.enumerate()),
        'environment': dict(os.environ),
        'working directory': os.getcwd(),
        'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug(),
                              gc.get_freeze_count() > 0),
        'locale': locale.setlocale(locale.LC_ALL),
        'decimal context': (decimal.getcontext().prec, decimal.getcontext().rounding),
        'logging': (logging.root.level, logging.root.manager.disable,
                    [id(h) for h in logging.root.handlers]),
        'scikit-learn configuration': sklearn.get_config(),
        'signal handlers': [signal.getsignal(n) for n in range(1, 32)],
        'hooks': (sys.excepthook, sys.displayhook, threading.excepthook),
        'other hooks': (sys.unraisablehook, sys.get_asyncgen_hooks(), list(sys.meta_path),
                        list(sys.path_hooks), sys.getdlopenflags(), sys.dont_write_bytecode),
        'exit handlers': atexit._ncallbacks(),
        'resource limits': [resource.getrlimit(n) for n in LIMITS],
        'priority and processors': (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0)),
        'interval timers': [signal.getitimer(n)[1] for n in (
            signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        'thread stack size': threading.stack_size(),
        'memory tracing': tracemalloc.is_tracing(),
        'loggers': [(n, lg.level, lg.disabled, lg.propagate, [id(h) for h in lg.handlers])
                    for n, lg in sorted(logging.root.manager.loggerDict.items())
                    if isinstance(lg, logging.Logger) and (lg.handlers or lg.level or lg.disabled
                                                           or not lg.propagate)],
        'open files': open_files(),
    }
    m = os.umask(0o22)
    os.umask(m)
    s['umask'] = m
    for mod in WATCHED:
        s['functions of ' + mod.__name__] = {k: v for k, v in vars(mod).items() if callable(v)}
    return s


def open_files():
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            out.append((int(fd), os.readlink('/proc/self/fd/' + fd)))
        except OSError:
            pass
    return sorted(out)


def changed(a, b, skip=()):
    """Name and values of the first setting that differs, or None."""
    for k in a:
        if k in skip:
            continue
        if k.startswith('functions of '):
            for n, v in a[k].items():
                if b[k].get(n) is not v:
                    return '%s: %s was replaced' % (k, n)
        elif a[k] != b[k]:
            return '%s: %s before, %s after' % (k, str(a[k])[:300], str(b[k])[:300])
    return None


def footprint(model):
    """Bytes of containers, strings and arrays reachable from the model and the library."""
    seen = set()
    todo = [model] + [m for n, m in list(sys.modules.items())
                      if n == 'reor' or n.startswith('reor.')]
    # loggers named after models and the like stay for good
    total = 256 * len(logging.root.manager.loggerDict)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, types.ModuleType):
            if not (x.__name__ == 'reor' or x.__name__.startswith('reor.')):
                continue
            todo += [v for k, v in vars(x).items()
                     if k not in ('__warningregistry__', '__builtins__')]
            continue
        if isinstance(x, (type, types.FunctionType)):
            if not str(x.__module__).startswith('reor'):
                continue
            if isinstance(x, types.FunctionType):
                # not through __globals__, which include what is skipped above
                todo += [x.__dict__, x.__defaults__, x.__kwdefaults__, x.__closure__]
                continue
        elif isinstance(x, (types.BuiltinFunctionType, types.CodeType, types.FrameType)):
            continue
        if isinstance(x, np.ndarray):
            total += x.nbytes + 64
            todo.append(x.base)
            if x.dtype == object:
                todo += x.ravel().tolist()
            continue
        if isinstance(x, (str, bytes, bytearray)):
            total += len(x)
            continue
        if isinstance(x, (int, float, complex, bool, type(None))):
            continue
        total += 64
        if hasattr(x, '__len__') and isinstance(x, (dict, list, tuple, set, frozenset)):
            total += 16 * len(x)
        todo += gc.get_referents(x)
    return total


IO = {'on': False, 'seen': []}


def audit(event, args):
    if not IO['on']:
        return
    if event == 'open':
        mode, flags = args[1], args[2]
        if isinstance(mode, str) and any(c in mode for c in 'wax+') or (
                not isinstance(mode, str) and isinstance(flags, int) and
                flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
            IO['seen'].append('opened %r for writing' % (args[0],))
    elif event in IO_EVENTS:
        IO['seen'].append('%s%s' % (event, str(args)[:200]))


def gen(rng, tier):
    spec = world.gen_spec(rng)
    o = spec['o']
    if 'mi' in o and spec['kind'] != 'mkc':
        o['mi'] = min(o['mi'], 5)
    if spec['kind'] in world.FEMBV and rng.random() < 0.6:
        o['simsolver'] = 1
    ops = hist.gen_history(rng, spec, rng.randint(1, 3), p_fault=0.5, p_bad=0.1,
                           first_fit=rng.random() < 0.9)
    d = hist.fit_data(rng, spec)
    fit = world.gen_op(rng, spec, d, force='fit')
    q = world.gen_op(rng, spec, d, force=rng.choice(world.QUERIES[spec['kind']]))
    for op in ops:
        if o.get('simsolver'):
            op['solver'] = [solver.gen_fail(rng) if rng.random() < 0.4 else
                            {'a': 'ok', 's': 'HIGHS'} for _ in range(4)]
        if rng.random() < 0.4:
            op['peek'] = [round(rng.random(), 6), round(rng.random(), 6)]
    return {'spec': spec, 'ops': ops, 'fin': [fit, q], 'rounds': rng.randint(4, 7),
            'grow': rng.choice([0, 0, 1, 1, 2])}


def vary(op, c, grow):
    """The same call in round c: other values, possibly other sizes."""
    op = copy.deepcopy(op)
    op['rs'] += c
    if op['o'] != 'fit' or not op.get('d', {}).get('seq'):
        op['d']['s'] += c
        if grow:
            op['d']['n'] += (c % 3) * grow
    if (op.get('fault') or {}).get('t') == 'abort':
        op['fault']['u2'] = (op['fault']['u2'] + 0.37 * c) % 1
    return op


def run(ctx, plan):
    spec = plan['spec']
    kind = spec['kind']
    r = hist.Runner(ctx, spec)
    sys.addaudithook(audit)
    gc.unfreeze()
    # a process that has not taken over the locale of its environment
    os.environ['LC_ALL'] = 'C.UTF-8'
    locale.setlocale(locale.LC_ALL, 'C')
    base = settings()
    size = []
    peeked = []
    what = ''

    def one(op):
        IO['seen'].clear()
        inp = r.inputs(op)
        kw = {}
        if op.get('peek') and not op.get('fault') and not op.get('bad') and (
                op['o'] == 'fit' or r.last_fit is not None):
            # the settings are everybody's: look while the call is under way
            pre = [r.last_fit] if op['o'] != 'fit' else []
            _, at, _ = r.ref(hist.ref_run, spec, pre + [r.clean(op)], tuple(op['peek']))
            if at is not None:
                kw['hooks'] = {at: lambda: peeked.append(changed(base, settings(), TEMPORARY))}
        at = r.event(op) if (op.get('fault') or {}).get('t') == 'abort' else None
        if at is not None:
            kw['abort'] = at
            op = r.clean(op)
        IO['on'] = True
        try:
            out = r.do(op, inp, **kw)
        finally:
            IO['on'] = False
        if IO['seen']:
            raise core.Violation('outside-effect', '%s: %s' % (what, IO['seen'][0]))
        d = changed(base, settings())
        if d:
            raise core.Violation('settings-changed', '%s %s%s: %s' % (
                what, out.brief(), ' at %s' % out.fired_loc if out.fired_loc else '', d))
        if peeked and peeked[-1]:
            raise core.Violation('settings-changed', 'during %s: %s' % (what, peeked[-1]))
        if out.fired is not None:
            ctx.nontrivial = True
        return out

    ok = True
    for c in range(plan['rounds']):
        for i, op in enumerate(plan['ops']):
            if op['o'] != 'fit' and r.last_fit is None:
                continue
            what = '%s round %d call %d (%s)' % (kind, c, i, op['o'])
            one(vary(op, c, plan['grow']))
        for op in plan['fin']:
            what = '%s round %d closing %s' % (kind, c, op['o'])
            ok = one(op).ok and ok
            if not ok:
                break
        if not ok:
            break
        size.append(footprint(r.s.model))
        if c == 2:
            ctx.nontrivial = True
    ctx.log(size, ok)
    ctx.stats['rounds'] += len(size)
    if ok and len(size) > 2 and size[-1] > size[1]:
        ctx.stats['growth followed up'] += 1
        follow(ctx, plan, r, size)
    r.close()


def follow(ctx, plan, r, size):
    """Memory grew: does it go on growing, or level off?"""
    spec = plan['spec']
    if hasattr(r.s.model, 'max_iterations'):
        r.s.model.max_iterations = 1
    more = []
    fitted = True
    for c in range(200):
        for op in plan['ops'] + plan['fin']:
            if op['o'] != 'fit' and not fitted:
                continue
            at = None
            f = op.get('fault') or {}
            if op in plan['ops']:
                op = vary(op, c, plan['grow'])
            kw = {}
            if f.get('t') == 'abort':
                at = 5 + (c * 7) % 300
                kw['abort'] = (at, f['e'])
            elif f.get('t') == 'stdout':
                kw['stdout'] = (f['n'], f['e'])
            elif f.get('t') == 'comp':
                world.arm_component(f['c'], f['n'], f['e'])
            out = r.s.op(ctx, op, hist.op_inputs(spec, op, r.s.k()), **kw)
            world.disarm_components()
            if op['o'] == 'fit':
                fitted = out.ok
        # large footprints take long to measure: look less often
        if fitted and (c % 10 == 9 or not more or more[-1] < 3e5):
            more.append(footprint(r.s.model))
    ctx.log(more)
    if len(more) < 12:
        return
    a, b = more[len(more) * 2 // 3], more[-1]
    rate = (more[-1] - more[0]) / len(more)
    if b - a > 0.5 * rate * (len(more) / 3.0) and b - a >= 200:
        raise core.Violation('memory-grows', '%s: bytes held by the model and the library after '
                             'equal closing fits: %s, after %d more rounds %d -> %d' % (
                                 spec['kind'], size, len(more), more[0], b))
