"""Violations, run context, tracer with fault injection, cooperative thread scheduler."""
import collections
import hashlib
import sys
import threading
import warnings

import cvxpy
import numpy as np
import sklearn.exceptions

from sim import boot, clock, entropy, mem

MON = sys.monitoring
TOOL = 4
STEP_LIMIT = 6_000_000


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, cls, msg):
        super().__init__(cls + ': ' + msg)
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulation itself went wrong (never counted as a violation)."""


class StepLimit(BaseException):
    """A call executed more library steps than any terminating call may."""


class SimCancel(BaseException):
    """Asynchronous cancellation (as raised by timeouts or task cancellation)."""


class SimFailure(Exception):
    """A failure raised by a user-supplied component."""


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'SimCancel': SimCancel,
    'SimFailure': SimFailure, 'TimeoutError': TimeoutError, 'SystemExit': SystemExit,
    'BrokenPipeError': BrokenPipeError, 'OSError': OSError, 'RuntimeError': RuntimeError,
    'LinAlgError': np.linalg.LinAlgError, 'FloatingPointError': FloatingPointError,
    'GeneratorExit': GeneratorExit, 'ValueError': ValueError, 'StopIteration': StopIteration,
    'TypeError': TypeError, 'IndexError': IndexError, 'KeyError': KeyError,
    'AttributeError': AttributeError, 'RecursionError': RecursionError,
    'ArithmeticError': ArithmeticError, 'ZeroDivisionError': ZeroDivisionError,
    'NotImplementedError': NotImplementedError, 'AssertionError': AssertionError,
    'UserWarning': UserWarning, 'RuntimeWarning': RuntimeWarning, 'OverflowError': OverflowError,
    'ConnectionError': ConnectionError, 'EOFError': EOFError, 'ImportError': ImportError,
    'NameError': NameError, 'UnicodeError': UnicodeError, 'SolverError': cvxpy.error.SolverError,
    'ConvergenceWarning': sklearn.exceptions.ConvergenceWarning,
}


def make_exc(name):
    e = EXC[name]('injected by the simulator')
    e.reorsim = True
    return e


class SimStdout:
    """Simulated output device: records volume, can fail at the n-th write."""

    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.writes = 0
        self.bytes = 0
        self.fail_at = None
        self.exc = None
        self.fired = None
        self.closed = False
        self.rec = None          # list of (event number, text) when the output is recorded
        self.where = None

    def arm(self, fail_at=None, exc=None):
        self.writes = 0
        self.fail_at = fail_at
        self.exc = exc
        self.fired = None

    def write(self, s):
        self.writes += 1
        self.bytes += len(s)
        if self.rec is not None:
            self.rec.append((self.where(), s))
        if self.fail_at is not None and self.writes >= self.fail_at and self.fired is None:
            self.fired = make_exc(self.exc)
            raise self.fired
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True


class OpTrace:
    """State of the tracer for one call in one thread."""
    __slots__ = ('n', 'rec', 'abort_at', 'exc', 'fired', 'fired_loc', 'hooks', 'switches', 'limit')

    def __init__(self, record=False, abort_at=None, exc=None, hooks=None, switches=None,
                 limit=STEP_LIMIT):
        self.n = 0
        self.rec = [] if record else None
        self.abort_at = abort_at
        self.exc = exc
        self.fired = None
        self.fired_loc = None
        self.hooks = hooks or {}
        self.switches = switches or {}
        self.limit = limit


class Tracer:
    """Counts events inside the library and acts on them.

    granularity 'line' or 'instr'.  The events of code outside /repo/src/reor cost nothing.
    """

    def __init__(self, granularity='line'):
        self.gran = granularity
        self.ops = {}           # thread ident -> OpTrace
        self.sched = None
        self.total = 0
        self.prefix = boot.REPO_SRC.rstrip('/') + '/reor/'
        self.active = False

    def start(self):
        MON.use_tool_id(TOOL, 'reorsim')
        ev = MON.events.LINE if self.gran == 'line' else MON.events.INSTRUCTION
        get_ident = threading.get_ident
        prefix = self.prefix
        ops = self.ops

        def on_start(code, _off):
            if code.co_filename.startswith(prefix):
                MON.set_local_events(TOOL, code, ev)
            return MON.DISABLE

        def on_event(code, x):
            op = ops.get(get_ident())
            if op is None:
                return
            op.n += 1
            n = op.n
            if op.rec is not None:
                op.rec.append((code.co_qualname, x))
            if op.hooks and n in op.hooks:
                op.hooks[n]()
            if n == op.abort_at:
                op.fired = make_exc(op.exc)
                op.fired_loc = '%s:%s' % (code.co_qualname, x)
                raise op.fired
            if n > op.limit:
                raise StepLimit('%s:%s' % (code.co_qualname, x))
            if self.sched is not None:
                self.sched.tick(op, n, code, x)
        MON.register_callback(TOOL, MON.events.PY_START, on_start)
        MON.register_callback(TOOL, ev, on_event)
        MON.set_events(TOOL, MON.events.PY_START)
        self.active = True

    def begin(self, op):
        self.ops[threading.get_ident()] = op

    def now(self):
        """Number of events of the current thread's call so far."""
        op = self.ops.get(threading.get_ident())
        return op.n if op is not None else 0

    def end(self):
        op = self.ops.pop(threading.get_ident(), None)
        if op is not None:
            self.total += op.n


def pick_event(rec, u1, u2):
    """Absolute event index (1-based): distinct location by u1, occurrence by u2."""
    if not rec:
        return None
    occ = collections.OrderedDict()
    for i, loc in enumerate(rec):
        occ.setdefault(loc, []).append(i)
    locs = list(occ.values())
    o = locs[min(int(u1 * len(locs)), len(locs) - 1)]
    return o[min(int(u2 * len(o)), len(o) - 1)] + 1


class Ctx:
    """Everything one run needs: tracer, seams, statistics, event log."""

    def __init__(self, plan):
        self.plan = plan
        self.stats = collections.Counter()
        self.h = hashlib.sha256()
        self.sig = hashlib.sha256()
        self.nontrivial = False
        self.events = 0
        self.trace_lines = []
        self.out = SimStdout()
        self.clock = clock.set_clock(clock.Clock(*plan.get('clock', ['steady', 0])))
        self.tracer = Tracer(plan.get('gran', 'line'))
        self.out.where = self.tracer.now
        self.warned = []
        self.exotic = []
        self.on_switch = None
        self.mem = plan.get('mem') or 'zero'
        mem.set_mode(self.mem)
        entropy.reset('run/%s' % plan.get('ent', 0), 1000 + plan.get('ent', 0), 'host')
        self.stats['uninitialised memory:' + self.mem] += 1

    # -- log: never draws randomness, never reads a clock
    def log(self, *items):
        self.events += 1
        s = repr(items)
        self.h.update(s.encode())
        if len(self.trace_lines) < 400:
            self.trace_lines.append(s[:300])

    def mark(self, *items):
        """contributes to the distinctness signature of the run"""
        self.sig.update(repr(items).encode())

    def install(self):
        sys.stdout = self.out
        warnings.simplefilter('always')

        def show(message, category, filename, lineno, file=None, line=None):
            lib = filename.startswith(self.tracer.prefix)
            self.warned.append((threading.get_ident(), category.__name__, str(message), lib))
            if lib and boot.BEFORE['hook'] is not None:
                boot.BEFORE['hook']('warning')      # a warning may be turned into an error
        warnings.showwarning = show
        np.seterr(all='warn')
        self.tracer.start()

    def set_clock(self, mode, seed=0):
        self._elapsed = getattr(self, '_elapsed', 0.0) + self.clock.elapsed
        self.clock = clock.set_clock(clock.Clock(mode, seed))
        self.stats['clock:' + mode] += 1

    def clock_elapsed(self):
        return getattr(self, '_elapsed', 0.0) + self.clock.elapsed


class Outcome:
    """What a call did: values it produced, or the exception it raised."""

    def __init__(self, values=None, exc=None, events=0, rec=None, warned=(), fired=None,
                 fired_loc=None, writes=0):
        self.values = values
        self.exc = exc
        self.events = events
        self.rec = rec
        self.warned = list(warned)
        self.fired = fired
        self.fired_loc = fired_loc
        self.writes = writes

    @property
    def ok(self):
        return self.exc is None

    def brief(self):
        if self.ok:
            return 'ok ' + digest(self.values)[:16]
        return 'raised %s(%s)' % (type(self.exc).__name__, str(self.exc)[:160])


def digest(values):
    h = hashlib.sha256()
    for k in sorted(values):
        v = values[k]
        h.update(k.encode())
        if v is None:
            h.update(b'None')
            continue
        a = np.asarray(v)
        h.update(str(a.dtype).encode() + str(a.shape).encode())
        if a.dtype == object:
            h.update(repr(v).encode())
        else:
            # canonical NaN and zero so that only values matter
            if a.dtype.kind == 'f':
                a = np.where(np.isnan(a), np.nan, a) + 0.0
            h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


RTOL = 1e-9


def diff(a, b, exact=False):
    """Description of the first difference between two value dicts, or None.

    Exactly equal, or equal to within 1e-9 of the array's magnitude (different memory layouts may
    change the last bits of a sum); any state leak or wrong draw is many orders larger.
    """
    if set(a) != set(b):
        return 'attributes differ: only first %s, only second %s' % (
            sorted(set(a) - set(b)), sorted(set(b) - set(a)))
    for k in a:
        x, y = a[k], b[k]
        if x is None or y is None:
            if not (x is None and y is None):
                return '%s: %s vs %s' % (k, short(x), short(y))
            continue
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return '%s: shape %s vs %s' % (k, x.shape, y.shape)
        if x.dtype.kind in 'OUS' or y.dtype.kind in 'OUS':
            if not np.array_equal(x, y):
                return '%s: %s vs %s' % (k, short(x), short(y))
            continue
        if x.dtype.kind in 'biu' and y.dtype.kind in 'biu':
            if not np.array_equal(x, y):
                return '%s: %s vs %s' % (k, short(x), short(y))
            continue
        xf, yf = x.astype(float), y.astype(float)
        if np.array_equal(xf, yf, equal_nan=True):
            continue
        nx, ny = np.isnan(xf), np.isnan(yf)
        if not np.array_equal(nx, ny):
            return '%s: NaN pattern differs: %s vs %s' % (k, short(x), short(y))
        fin = np.isfinite(xf) & np.isfinite(yf)
        if not np.array_equal(xf[~fin & ~nx], yf[~fin & ~ny]):
            return '%s: infinities differ' % k
        scale = max(np.abs(xf[fin]).max(initial=0), np.abs(yf[fin]).max(initial=0))
        d = np.abs(xf[fin] - yf[fin]).max(initial=0)
        if exact or d > RTOL * scale + 1e-300:
            return '%s differs by %.3g (scale %.3g): %s vs %s' % (k, d, scale, short(x), short(y))
    return None


def short(x):
    if x is None:
        return 'None'
    s = np.array2string(np.asarray(x), precision=6, threshold=8, edgeitems=2)
    return ' '.join(s.split())[:160]


def diff_outcome(a, b):
    """Difference between two outcomes, or None."""
    if a.ok != b.ok:
        return 'one call %s, the other %s' % (a.brief(), b.brief())
    if a.ok:
        return diff(a.values, b.values)
    if type(a.exc) is not type(b.exc):
        return 'one call %s, the other %s' % (a.brief(), b.brief())
    return None


def call(ctx, fn, record=False, abort=None, stdout=None, hooks=None, limit=STEP_LIMIT,
         switches=None):
    """Run fn() as one simulated call.

    abort = (event index, exception name); stdout = (n-th write, exception name);
    hooks = {event index: callable}.
    """
    op = OpTrace(record=record, hooks=hooks, limit=limit, switches=switches)
    if abort is not None:
        op.abort_at, op.exc = abort
    w0 = len(ctx.warned)
    me = threading.get_ident()
    if stdout is not None:
        ctx.out.arm(*stdout)
    else:
        ctx.out.arm()
    values = exc = None
    ctx.tracer.begin(op)
    try:
        values = fn()
    except (Violation, HarnessError, StepLimit):
        raise
    except BaseException as e:
        exc = e
        exc.__traceback__ = None
        exc.__context__ = None
    finally:
        ctx.tracer.end()
    fired = op.fired or ctx.out.fired
    if op.fired is not None:
        ctx.stats['fault:abort:' + op.exc] += 1
    if ctx.out.fired is not None:
        ctx.stats['fault:stdout:' + stdout[1]] += 1
    o = Outcome(values=values, exc=exc, events=op.n, rec=op.rec, warned=[w for w in ctx.warned[w0:] if w[0] == me],
                fired=fired, fired_loc=op.fired_loc, writes=ctx.out.writes)
    ctx.out.arm()
    return o


class Sched:
    """Seeded cooperative scheduling of real threads.

    Exactly one client thread is runnable at any time; it hands over only at the events named in
    its OpTrace.switches ({event index: target}), or when it ends.
    """

    def __init__(self, ctx, bodies, order):
        self.ctx = ctx
        self.n = len(bodies)
        self.bodies = bodies
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.alive = list(range(self.n))
        self.order = order
        self.done = threading.Semaphore(0)
        self.errors = [None] * self.n
        self.cur = None
        self.idents = {}
        self.switch_log = []
        self.n_switches = 0
        self.gap = 1
        self.lcg = 1
        self.burst = {}          # thread -> remaining events during which it yields every event

    def _body(self, i):
        self.sems[i].acquire()
        self.idents[threading.get_ident()] = i
        try:
            self.bodies[i]()
        except BaseException as e:
            self.errors[i] = e
        self.alive.remove(i)
        if self.alive:
            j = self.alive[0]
            for t in self.order:
                if t in self.alive:
                    j = t
                    break
            self.cur = j
            self.sems[j].release()
        else:
            self.done.release()

    def tick(self, op, n, code, x):
        i = self.idents.get(threading.get_ident())
        if i is None:
            return
        tgt = op.switches.get(n)
        if tgt is None:
            b = self.burst.get(i, 0)
            if not b:
                return
            self.burst[i] = b - 1
            self.lcg = (self.lcg * 1103515245 + 12345) % 2 ** 31
            if self.gap > 1 and (self.lcg >> 8) % self.gap:
                return
            tgt = i + 1 + (self.lcg >> 16) % 2
        elif isinstance(tgt, (list, tuple)):
            # burst: every client thread yields at each (or about every gap-th) of its next events
            for t in self.alive:
                self.burst[t] = tgt[1]
            self.gap = tgt[2] if len(tgt) > 2 else 1
            tgt = tgt[0]
        others = [t for t in self.alive if t != i]
        if not others:
            return
        j = others[tgt % len(others)]
        if len(self.switch_log) < 4000:
            self.switch_log.append((i, code.co_qualname, x, j))
        self.n_switches += 1
        if self.ctx.on_switch is not None:
            self.ctx.on_switch(i)
        self.cur = j
        self.sems[j].release()
        self.sems[i].acquire()

    def run(self, wall=100):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self.ctx.tracer.sched = self
        first = next((t for t in self.order if t in self.alive), 0)
        self.cur = first
        self.sems[first].release()
        if not self.done.acquire(timeout=wall):
            raise HarnessError('scheduler: client threads did not finish')
        self.ctx.tracer.sched = None
        for t in ths:
            t.join(10)
        return self.switch_log
