"""C17: factorisations converge to stationary points."""
import numpy as np

from sim import core, fits, hist, oracles, world
from sim.props.c07 import saved

BUDGET = {'quick': (2200, 130), 'thorough': (17600, 1500)}
RULE = ('one run = one factorisation brought to convergence (tolerance 1e-10 or less of the data '
        'scale, ample budget) afresh, after an aborted attempt on the same object, or by a chain '
        'of small-budget segments each resumed from the last saved state (same or new object) and '
        'a final long one; or a transform to convergence; no projected-gradient step of weights, '
        'dictionary, lag weights or transition matrices may improve the independent objective; '
        'non-trivial: the fit converged within its budget and was judged; distinct: by model, way '
        'of reaching the end, and final cost')
REAL = ['reor', 'numpy']
STUB = ['clock', 'stdout', 'user kernel functions']
ASSUMPTIONS = ['improvement below 2e-5 of the data term, decided by projected-gradient steps of '
               '24 lengths per block; below 3e-4 for executions that exhaust 1500 iterations']
LIMIT = 2e-5
EXHAUSTED = 3e-4      # for executions that used all their iterations
BUDGET_IT = 1500
STEPS = 40000000


def gen(rng, tier):
    spec = fits.iterative_spec(rng, world.FACTOR)
    o = spec['o']
    kind = spec['kind']
    o['tol'] = rng.choice([1e-10, 1e-10, 1e-11, 1e-12])
    o['verbose'] = 0
    o.pop('spg', None)
    o['delta'] = 0
    o['k'] = rng.choice([1, 2, 2, 3, 3, 4])
    mode = rng.choice(['fresh', 'fresh', 'retry', 'chain', 'transform', 'transform'])
    if mode == 'chain':
        o['init'] = 'custom'
    d = hist.fit_data(rng, spec, kinds=['gauss', 'clusters', 'simplex', 'ar', 'regimes', 'ties',
                                        'int', 'dup', 'offset'])
    d['sc'] = 1
    op = world.gen_op(rng, spec, d, force='fit')
    op['ft'] = 1
    plan = {'spec': spec, 'op': op, 'mode': mode}
    if mode == 'retry':
        op['fault'] = hist.gen_fault(rng, spec, op, ('abort',))
    elif mode == 'chain':
        plan['segments'] = [{'T': rng.choice([1, 1, 2, 3, 5, 8]), 'new': int(rng.random() < 0.5)}
                            for _ in range(rng.randint(1, 6))]
    elif mode == 'transform':
        o['mi'] = rng.choice([1, 3, 10])
        plan['tr'] = world.gen_op(rng, spec, d, force='transform')
        plan['tr']['d']['sc'] = 1
    return plan


def gradient(f, x):
    """Central differences; exact up to rounding for the quadratic blocks used here."""
    g = np.zeros_like(x)
    h = 1e-3
    it = np.nditer(x, flags=['multi_index'])
    for _ in it:
        i = it.multi_index
        old = x[i]
        x[i] = old + h
        a = f(x)
        x[i] = old - h
        b = f(x)
        x[i] = old
        g[i] = (a - b) / (2 * h)
    return g


def improvement(f, x, project):
    """Largest decrease of f by one projected-gradient step from x."""
    x = np.array(x, dtype=float)
    base = f(project(x.copy()))
    g = gradient(f, x.copy())
    gn = np.abs(g).max()
    if gn == 0:
        return 0.0
    best = 0.0
    for e in np.linspace(-5, 3, 24):
        best = max(best, base - f(project(x - (10.0 ** e / gn) * g)))
    return best


def ident(x):
    return x


def cols(P):
    return np.array([oracles.project_rows(M.T).T for M in P])


def judge(spec, M, W, D, ow, P, what, weights_only=False, keep=None):
    """Largest relative improvement of every block."""
    kind, o = spec['kind'], spec['o']
    W, D = np.asarray(W, dtype=float), np.asarray(D, dtype=float)

    def f(W_, D_, ow_=ow, P_=P):
        return oracles.objective(kind, o, M, W_, D_, ow_, P_)
    if kind in ('kaa', 'aa'):
        scale = float(np.trace(M)) + 1e-300
    else:
        scale = float((M * M).mean()) + 1e-300
    res = {'weights': improvement(lambda w: f(w, D), W, oracles.project_rows) / scale}
    if not weights_only:
        pr = oracles.project_rows if kind in ('kaa', 'aa') else ident
        res['dictionary'] = improvement(lambda d: f(W, d), D, pr) / scale
        if kind == 'mtd' and D.shape[0] > 1:
            res['lag weights'] = improvement(lambda q: f(W, D, q), ow,
                                             oracles.project_simplex) / scale
            res['transition matrices'] = improvement(lambda q: f(W, D, ow, q), P, cols) / scale
        if kind == 'crom' and D.shape[0] > 1:
            lags = o['lags'] or [1]
            m = max(lags)

            def r(q, p):
                return ((W[m:] - oracles.lagged(W, lags, q, p)) ** 2).sum() / (
                    D.shape[0] * (len(W) - m))
            res['lag weights'] = improvement(lambda q: r(q, P), ow, oracles.project_simplex)
            res['transition matrices'] = improvement(lambda q: r(ow, q), P, cols)
    for b in ('lag weights', 'transition matrices') if keep == 'parameters' else (keep,):
        res.pop(b, None)            # given by the caller, not fitted
    return res, scale


def run(ctx, plan):
    spec, op = plan['spec'], plan['op']
    kind, mode = spec['kind'], plan['mode']
    inp0 = hist.op_inputs(spec, op, spec['o']['k'])
    X = np.array(inp0.pos[0], dtype=float)
    M = oracles.obj_matrix(spec, X)
    start = None
    keep = op.get('keep') if mode != 'transform' else None

    def fit(s, state, mi, **kw):
        s.model.max_iterations = mi
        inp = hist.op_inputs(spec, op, s.k())
        if state is not None:
            inp.kw.update(state)
        raw = []
        out = s.op(ctx, op, inp, raw, limit=STEPS, **kw)
        if not out.ok and out.fired is None:
            if fits.mono_error(out.exc):
                ctx.stats['fits refused: cost increased'] += 1
                return out, None
            raise core.Violation('valid-call-failed', '%s: %r' % (kind, out.exc))
        return out, (raw[0] if out.ok else None)
    if mode == 'transform':
        s = fits.session(spec, mono=False)
        out, W = fit(s, None, spec['o']['mi'])
        s.model.max_iterations = BUDGET_IT
        tr = plan['tr']
        inp = hist.op_inputs(spec, tr, s.k())
        raw = []
        out = s.op(ctx, tr, inp, raw, limit=STEPS)
        if not out.ok:
            raise core.Violation('valid-call-failed', '%s transform: %r' % (kind, out.exc))
        X = np.array(inp.pos[0], dtype=float)
        M = oracles.obj_matrix(spec, X)
        W = raw[0]
        what = '%s transform' % kind
    else:
        s = fits.session(spec, mono=False)
        state = None
        if mode == 'retry':
            out, W = fit(s, None, 25)
            at = None
            o2 = fits.session(spec, mono=False)
            o2.model.max_iterations = 25
            prof = o2.op(ctx, op, hist.op_inputs(spec, op, o2.k()), record=True)
            at = core.pick_event(prof.rec, op['fault']['u1'], op['fault']['u2'])
            fit(s, None, 25, abort=(at, op['fault']['e']))
        elif mode == 'chain':
            for seg in plan['segments']:
                if seg['new']:
                    s = fits.session(spec, mono=False)
                out, W = fit(s, state, seg['T'])
                state = saved(spec, s.model, W)
                ctx.stats['segments'] += 1
        if spec['o']['init'] == 'custom':
            kw = dict(inp0.kw, **(state or {}))
            c0 = fits.start_cost(spec, kw, X, None)
            r0, scale = judge(spec, M, kw['weights'], kw['dictionary'], kw.get('order_weights'),
                              kw.get('transition_matrices'), '', keep=keep) \
                if kind != 'crom' else judge(
                    dict(spec, kind='gpnh'), M, kw['weights'], kw['dictionary'], None, None, '',
                    keep=keep)
            start = (c0, max(r0.values()))
        out, W = fit(s, state, BUDGET_IT)
        what = '%s fit (%s)' % (kind, mode)
    warned = fits.max_warned(out)
    ctx.stats['converged' if not warned else 'budget exhausted'] += 1
    m = s.model
    cost, sc = oracles.model_objective(spec, X, m, W)
    res, scale = judge(spec, M, W, m.dictionary_, getattr(m, 'order_weights', None),
                       getattr(m, 'transition_matrices', None), what, mode == 'transform', keep)
    if start is not None:
        if cost > start[0] + 1e-10 * sc:
            raise core.Violation('cost-rose', '%s: %.12g from %.12g' % (what, cost, start[0]))
        if not cost < start[0] and start[1] > LIMIT:
            raise core.Violation('no-progress', '%s: cost stayed at %.12g although a small change '
                                 'improves it by %.3g' % (what, cost, start[1] * scale))
    ctx.log(what, '%.9g' % cost, warned, {k: '%.1e' % v for k, v in res.items()})
    limit = EXHAUSTED if warned else LIMIT
    if not warned:
        ctx.nontrivial = True
    for k, v in res.items():
        ctx.stats['improvement possible <1e%+d' % np.clip(np.ceil(np.log10(v + 1e-30)), -12, 0)] += 1
        if v > limit:
            raise core.Violation('not-stationary', '%s of %s data, tolerance %g%s, cost %.9g: a '
                                 'small feasible change of the %s lowers it by %.3g (%.3g of the '
                                 'data scale)' % (what, op['d']['k'], spec['o']['tol'],
                                                  ', 1500 iterations' if warned else '', cost, k,
                                                  v * scale, v))
    ctx.mark(kind, mode, core.digest({'c': np.round(cost, 6)})[:8])
