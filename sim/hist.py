"""Random operation histories with faults, and how they are executed and judged."""
import copy

import numpy as np

from sim import core, handlers, pristine, world

# exceptions that may strike at an arbitrary instant; types a library could not reasonably treat
# as an expected outcome of one of its own expressions
ASYNC_EXC = ('KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'MemoryError', 'SimCancel',
             'SimFailure', 'SystemExit', 'OSError', 'RuntimeError', 'TimeoutError',
             'FloatingPointError', 'OverflowError')
STDOUT_EXC = ('OSError', 'BrokenPipeError', 'KeyboardInterrupt', 'MemoryError', 'TimeoutError',
              'SimCancel')
COMP_EXC = ('SimFailure', 'ValueError', 'MemoryError', 'KeyboardInterrupt', 'LinAlgError',
            'TypeError', 'OSError', 'AttributeError', 'RuntimeError', 'ValueError', 'ValueError',
            'RuntimeError', 'FloatingPointError', 'LinAlgError', 'TypeError', 'MemoryError',
            'FloatingPointError', 'IndexError', 'KeyError', 'NotImplementedError',
            'ZeroDivisionError', 'TimeoutError', 'SimCancel', 'UserWarning', 'AssertionError',
            'OverflowError', 'ConnectionError', 'EOFError', 'ImportError', 'NameError',
            'GeneratorExit', 'SystemExit', 'RecursionError', 'UnicodeError', 'RuntimeWarning')


def components_of(spec):
    """Names of the fallible things a call of this model uses."""
    k, o = spec['kind'], spec['o']
    c = []
    if k in world.FACTOR + world.FEMBV:
        c.append('warning')
    if k == 'aa' and o.get('kernel'):
        c.append('kernel')
    if k in world.FEMBV and o.get('simsolver') and o['k'] != 1:
        c.append('solver')
    if k in world.FEMBV and o['k'] != 1:
        c.append('lp')
    if k == 'mkc' or k == 'pwv' and o['clusterer'] in (None, 'kmeans'):
        c.append('kmeans')
    if k == 'pwv' and o['classifier'] in (None, 'svc'):
        c.append('svc')
    if k in ('fvx', 'pwv'):
        c.append('lstsq')
    if k == 'pwv':
        if o.get('rec'):
            if o['clusterer'] is not None:
                c.append('rec.clusterer')
            if o['classifier'] is not None:
                c += ['rec.classifier.fit', 'rec.classifier.predict']
        if o['clusterer'] == 'stub':
            c.append('clusterer')
        if o['classifier'] in ('stub', 'memory'):
            c += ['classifier.fit', 'classifier.predict']
    return c


def gen_fault(rng, spec, op, kinds=None):
    opts = ['abort'] * 4
    if spec['o'].get('verbose'):
        opts += ['stdout'] * 2
    comps = components_of(spec)
    if comps:
        opts += ['comp'] * (4 if {'kernel', 'clusterer', 'classifier.fit'} & set(comps) else 2)
    if kinds:
        opts = [x for x in opts if x in kinds] or ['abort']
    t = rng.choice(opts)
    if t == 'abort':
        return {'t': 'abort', 'u1': round(rng.random(), 6), 'u2': round(rng.random(), 6),
                'e': rng.choice(ASYNC_EXC), 'dir': int(rng.random() < 0.4)}
    if t == 'stdout':
        return {'t': 'stdout', 'n': rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20]),
                'e': rng.choice(STDOUT_EXC)}
    c = rng.choice(comps)
    if 'kernel' in comps and rng.random() < 0.6:
        c = 'kernel'
    typical = {'lstsq': 'LinAlgError', 'lp': 'SolverError', 'solver': 'SolverError',
               'kmeans': 'ConvergenceWarning', 'svc': 'ValueError',
               'warning': 'UserWarning'}.get(c)
    if typical and rng.random() < 0.5:
        return {'t': 'comp', 'c': c, 'n': rng.choice([1, 1, 2, 3]), 'e': typical}
    return {'t': 'comp', 'c': c, 'n': rng.choice([1, 1, 2, 3, 5]), 'e': rng.choice(COMP_EXC)}


BAD = ('ndim', 'none', 'nan', 'start', 'features', 'rows', 'object', 'omit', 'omit')


def spoil(spec, op, inp, how):
    """Turn valid inputs into ones the call should reject (it may still accept some)."""
    kind = spec['kind']
    X = inp.pos[0]
    if how == 'ndim':
        inp.pos[0] = np.zeros((2, 3, 4))
    elif how == 'none':
        inp.pos[0] = None
    elif how == 'nan':
        X = np.array(X, dtype=float)
        X.flat[-1] = np.nan
        inp.pos[0] = X
    elif how == 'object':
        inp.pos[0] = 'data'
    elif how == 'features':
        X = np.asarray(X)
        inp.pos[0] = np.hstack([X, X]) if X.ndim == 2 else X[:, None, None]
    elif how == 'rows':
        inp.pos[0] = np.asarray(X)[:1]
    elif how == 'omit':
        # something the model needs is not given
        names = sorted(inp.kw)
        if names:
            del inp.kw[names[op['rs'] % len(names)]]
        else:
            inp.pos[0] = np.asarray(X)[:0]
    elif how == 'start':
        if 'weights' in inp.kw:
            w = np.array(inp.kw['weights'])
            inp.kw['weights'] = w[:, :1] - 3.0 if op['rs'] % 2 else w[:-1]
        elif 'external_factors' in inp.kw:
            inp.kw['external_factors'] = inp.kw['external_factors'][:-2]
        elif 'exog' in inp.kw:
            inp.kw['exog'] = inp.kw['exog'][:-2]
        elif 'start_index' in inp.kw or spec['o'].get('init') == 'furthest_sum':
            inp.kw['start_index'] = 10 ** 6
        else:
            inp.pos[0] = np.zeros((2, 3, 4))


def gen_history(rng, spec, n_ops, p_fault=0.4, p_bad=0.12, sizes=None, first_fit=True,
                fault_kinds=None, p_fit=None, **data_kw):
    """List of operations; every query refers to data compatible with the preceding fit."""
    lo = max(7, world.min_samples(spec))
    if spec['kind'] == 'fvx':
        lo = max(lo, 9)
    ops = []
    d0 = None
    nfit = None
    for i in range(n_ops):
        kind = spec['kind']
        if d0 is None and first_fit or d0 is None and rng.random() < 0.8:
            force = 'fit'
        elif d0 is None:
            force = rng.choice(world.QUERIES[kind])
            d0 = world.gen_data(rng, lo=lo, **data_kw)
        else:
            force = None
            if p_fit is not None:
                force = 'fit' if rng.random() < p_fit else rng.choice(world.QUERIES[kind])
        if force == 'fit' or force is None and rng.random() < 0.35:
            force = 'fit'
        elif force is None:
            force = rng.choice(world.QUERIES[kind])
        if force == 'fit':
            d0 = fit_data(rng, spec, lo, d0, **data_kw)
        op = world.gen_op(rng, spec, d0, force=force)
        r = rng.random()
        if r < p_fault:
            op['fault'] = gen_fault(rng, spec, op, fault_kinds)
        elif r < p_fault + p_bad:
            op['bad'] = rng.choice(BAD)
        ops.append(op)
    return ops


def fit_data(rng, spec, lo=None, prev=None, hi=None, **kw):
    """Data suitable for a fit of the specification."""
    if lo is None:
        lo = max(7, world.min_samples(spec))
        if spec['kind'] == 'fvx':
            lo = max(lo, 9)
    hi = hi or (18 if spec['kind'] not in ('fvx', 'fkm') else 14)
    hi = max(hi, lo + 2)
    o = spec['o']
    if prev is not None and rng.random() < 0.35:
        d = dict(prev)
        if rng.random() < 0.6:
            d['s'] = rng.randrange(10 ** 6)
    else:
        d = world.gen_data(rng, lo=lo, hi=hi, **kw)
        if o.get('big') and rng.random() < 0.8:
            d['n'] = rng.randint(20, 60) if spec['kind'] not in world.FEMBV else \
                rng.randint(16, 32)
            if not o.get('nd1') and 'd' not in kw:
                d['d'] = rng.choice([d['d'], 5, 6, 7])
        if spec['kind'] not in ('fvx', 'pwv') and rng.random() < 0.04:
            k = o.get('k') or d['d']
            d['n'] = rng.randint(k, max(4, k))      # very short series
            if spec['kind'] in ('crom', 'mtd'):
                d['n'] = max(d['n'], 1 + max(o['lags'] or [1]))
    world.tame(spec, d)
    if spec['kind'] in world.FEMBV and 'kinds' not in kw and rng.random() < 0.04:
        d['k'] = 'const'            # every sample is a tie
    if o.get('q'):
        d.pop('nou', None)
        if rng.random() < 0.2:      # this time without external data
            d['nou'] = 1
    if spec['kind'] == 'pwv':
        d['n'] = max(d['n'], 12)
        if o.get('nd1'):
            d['d'] = 1
    if spec['kind'] == 'fvx':
        # leave the unweighted initial regressions overdetermined
        m = o['memory'] or 0
        m = max(m) if isinstance(m, list) else m
        if d['d'] * m + o['q'] + 2 + m > d['n']:
            d['d'] = 1
    return d


# ------------------------------------------------------------------ execution

def add_sets(rng, spec, *parts):
    """The user changes public options of the object between calls."""
    if rng.random() >= 0.15:
        return
    cur = {}
    for i, ops in enumerate(parts):
        if i <= 1:
            start = cur
        cur = start         # the parts after the first are alternatives
        for op in ops:
            if op['o'] == 'fit' and rng.random() < 0.6:
                cur = dict(cur, **world.gen_set(rng, spec))
            elif op['o'] != 'fit' and rng.random() < 0.15:
                cur = dict(cur, **world.gen_set(rng, spec, keep_k=True))
            if cur:
                op['set'] = dict(cur)


def op_inputs(spec, op, k):
    spec = world.merged(spec, op)
    inp = world.prepare(spec, op, k)
    if op.get('bad'):
        spoil(spec, op, inp, op['bad'])
    return inp


def ref_run(ctx, spec, ops, pick=None):
    """Fresh object executing ops fault-free; the outcome of the last one (see pristine.Server).

    pick = (u1, u2): also choose an event of the last operation; (u1, u2, directed): choose
    (event, error type or None).
    """
    s = world.Session(world.merged(spec, ops[0]))
    out = None
    for i, op in enumerate(ops):
        last = i == len(ops) - 1
        inp = op_inputs(spec, op, s.k())
        out = s.op(ctx, op, inp, record=bool(last and pick))
        if not last and not out.ok:
            raise core.Violation('repeat-differs', 'a call that completed before fails on a newly '
                                 'built object: ' + out.brief())
    at = None
    if pick:
        at = core.pick_event(out.rec, *pick[:2])
        if len(pick) > 2 and at is not None:
            at = pick[2] and handlers.pick(out.rec, *pick[:2]) or (at, None)
    out.rec = None
    out.exc = strip(out.exc)
    out.fired = None
    return out, at, s.params() if last_fit_ok(ops, out) else None


def last_fit_ok(ops, out):
    return out is not None and (len(ops) > 1 or (ops and ops[-1]['o'] == 'fit' and out.ok))


def strip(e):
    """An exception reduced to something that pickles."""
    if e is None:
        return None
    try:
        import pickle
        pickle.loads(pickle.dumps(e))
        return e
    except BaseException:
        return RuntimeError('%s: %s' % (type(e).__name__, e))


class Runner:
    """Executes a history on one session, with faults, keeping the reference alongside."""

    def __init__(self, ctx, spec, session=None):
        self.ctx = ctx
        self.spec = spec
        self.s = session or world.Session(spec)
        self.ref = pristine.Server(ctx)
        self.last_fit = None        # the last fit operation, if it succeeded
        self.n_done = 0
        self.buffer = None          # the data array passed last

    def inputs(self, op):
        """The caller's objects; it may fill an array it passed before with the new data."""
        inp = op_inputs(self.spec, op, self.s.k())
        X, b = inp.pos[0], self.buffer
        if (op.get('same') and isinstance(X, np.ndarray) and isinstance(b, np.ndarray) and
                b.flags.writeable and X.flags.writeable and b.dtype == X.dtype and
                b.shape == X.shape and b.strides == X.strides):
            b[...] = X
            inp.pos[0] = b
            self.ctx.stats['buffers reused by the caller'] += 1
        self.buffer = inp.pos[0]
        return inp

    def prefix(self, op):
        return [op] if op['o'] == 'fit' else [self.last_fit, op]

    def clean(self, op):
        op = {k: v for k, v in op.items() if k != 'fault'}
        return op

    def event(self, op):
        """Event index at which the abort of this operation strikes, and the error."""
        f = op['fault']
        pre = [self.last_fit] if (op['o'] != 'fit' and self.last_fit is not None) else []
        out, at, _ = self.ref(ref_run, self.spec, pre + [self.clean(op)],
                              (f['u1'], f['u2'], f.get('dir')))
        return at and (at[0], at[1] or f['e'])

    def reference(self, op):
        """(outcome, fitted parameters) of a fresh object doing only what is relevant."""
        pre = [self.last_fit] if op['o'] != 'fit' else []
        out, _, params = self.ref(ref_run, self.spec, pre + [self.clean(op)], None)
        return out, params

    def do(self, op, inp=None, raw=None, **kw):
        """Execute with the operation's fault; returns the outcome."""
        ctx = self.ctx
        f = op.get('fault')
        if inp is None:
            inp = self.inputs(op)
        if f:
            if f['t'] == 'abort':
                at = self.event(op)
                if at is not None:
                    kw['abort'] = at
            elif f['t'] == 'stdout':
                kw['stdout'] = (f['n'], f['e'])
            elif f['t'] == 'comp':
                world.arm_component(f['c'], f['n'], f['e'])
        out = self.s.op(ctx, op, inp, raw, **kw)
        if f and f['t'] == 'comp':
            out.fired = world.component_fired()
            world.disarm_components()
        self.n_done += 1
        if op['o'] == 'fit':
            self.last_fit = self.clean(op) if out.ok and not op.get('bad') else None
        tag = 'completed'
        if out.fired is not None:
            tag = 'aborted' if not out.ok else 'swallowed'
        elif not out.ok:
            tag = 'rejected'
        ctx.stats['calls:%s:%s' % (op['o'], tag)] += 1
        ctx.log(op['o'], tag, out.brief(), out.events, str(out.fired_loc))
        ctx.mark(self.spec['kind'], op['o'], tag, out.fired_loc, type(out.exc).__name__)
        return out

    def close(self):
        self.ref.close()


def unexpected(op, out):
    """A valid call without a fault must not fail."""
    if out.ok or out.fired is not None or op.get('bad'):
        return None
    return out.exc


def check_outcome(cls, what, out, ref):
    d = core.diff_outcome(out, ref)
    if d:
        raise core.Violation(cls, '%s: %s' % (what, d))


def clone_plan(p):
    return copy.deepcopy(p)
