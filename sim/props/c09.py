"""C09: cost, iteration count and convergence warning tell the truth."""
import math

import numpy as np

from sim import core, fits, hist, oracles, solver, world

BUDGET = {'quick': (6800, 130), 'thorough': (54400, 1500)}
RULE = ('one run = one starting point executed with every iteration budget 1..T under a tolerance '
        'placed between the cost changes of two iterations, and with an ample budget, under a '
        'simulated clock of random behaviour, on fresh or reused objects; reported cost vs '
        'independent objective, reported count vs budget and vs LP solves counted at the solver '
        'seam, warning vs budget, last change vs tolerance; or one fit of degenerate data (huge, '
        'tiny, constant, tied) judged on termination and work only; non-trivial: some budget '
        'stopped early and some did not, or degenerate data; distinct: by model, budgets and '
        'stopping points')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS/SCIPY']
STUB = ['clock', 'stdout', 'user kernel functions', 'LP solver front end (counts solves)']
ASSUMPTIONS = ['allowance for rounding 1e-9 relative to the size of the terms of the cost',
               'work per iteration below 400000 executed library lines (line search steps are '
               'bounded by the step size tolerance)']
WORK = 400000
CLOCKS = ('steady', 'frozen', 'backward', 'jumpy', 'fast', 'erratic')


def gen(rng, tier):
    spec = fits.iterative_spec(rng)
    o = spec['o']
    kind = spec['kind']
    if kind in world.FEMBV and rng.random() < 0.5:
        o['simsolver'] = 1
        o['solver'] = None
    if rng.random() < 0.15:
        o['mi'] = rng.choice([5, 20, 60]) if kind in world.FACTOR else 4
        o['tol'] = rng.choice([1e-3, 1e-8])
        if rng.random() < 0.3 and kind in world.FACTOR:
            o['mem'] = rng.choice([2, 5])
        d = hist.fit_data(rng, spec)
        d['k'] = rng.choice(['gauss', 'ties', 'dup', 'zero', 'const', 'huge', 'tiny', 'spike'])
        d['lay'] = 'C'
        return {'spec': spec, 'hard': 1, 'op': world.gen_op(rng, spec, d, force='fit'),
                'clk': rng.choice(CLOCKS), 'cs': rng.randrange(1000), 'mono': 0}
    if rng.random() < 0.5:
        o['init'] = 'custom'
    d = hist.fit_data(rng, spec)
    op = world.gen_op(rng, spec, d, force='fit')
    if o.get('simsolver'):
        op.pop('keep', None)
    op['ft'] = 1
    return {'spec': spec, 'op': op, 'T': rng.randint(2, 12 if kind in world.FACTOR else 5),
            'j': rng.randint(1, 8), 'reuse': int(rng.random() < 0.4),
            'mono': int(rng.random() < 0.5), 'clk': rng.choice(CLOCKS),
            'cs': rng.randrange(1000)}


def hard_data(ds):
    k = ds['k']
    x = world.base_array(dict(ds, k='gauss', sc=1))
    if k == 'zero':
        return np.zeros_like(x)
    if k == 'const':
        return np.full_like(x, 3.25)
    if k == 'huge':
        return x * 1e7
    if k == 'tiny':
        return x * 1e-9
    if k == 'spike':
        x[0] *= 1e5
        return x
    return world.base_array(ds)


def work_check(kind, out, iters, what):
    if out.events > WORK * (iters + 1):
        raise core.Violation('unbounded-work', '%s executed %d library lines for %d iterations' % (
            what, out.events, iters))


def run(ctx, plan):
    spec, op = plan['spec'], plan['op']
    kind, o = spec['kind'], spec['o']
    ctx.set_clock(plan['clk'], plan['cs'])
    mono = False if plan['mono'] else None
    if plan.get('hard'):
        s = fits.session(spec, mono=mono)
        inp = hist.op_inputs(spec, op, s.k())
        X = hard_data(op['d'])
        inp.pos[0] = X.dot(X.T) if kind == 'kaa' else X
        out = s.op(ctx, op, inp)
        work_check(kind, out, o['mi'], '%s fit of %s data' % (kind, op['d']['k']))
        ctx.stats['degenerate fits:' + ('ok' if out.ok else type(out.exc).__name__)] += 1
        if out.ok:
            n = int(s.model.n_iter_)
            if not (0 if kind in ('kaa', 'aa') else 1) <= n <= o['mi']:
                raise core.Violation('iteration-count', '%s reported %d of %d' % (
                    kind, s.model.n_iter_, o['mi']))
        ctx.nontrivial = True
        ctx.mark(kind, op['d']['k'], out.brief())
        ctx.log(kind, op['d'], out.brief())
        return

    costs, scales = {}, {}
    sessions = {}

    def fit(m, tol):
        s = sessions.get('s') if plan['reuse'] else None
        if s is None:
            s = sessions['s'] = fits.session(spec, mi=m, tol=tol, mono=mono)
        s.model.max_iterations = m
        s.model.tolerance = tol
        inp = hist.op_inputs(spec, op, s.k())
        raw = []
        out = s.op(ctx, op, inp, raw)
        what = '%s fit, budget %d, tolerance %g' % (kind, m, tol)
        if not out.ok:
            why = fits.refused(out.exc, op['d'])
            if why:
                ctx.stats['fits refused: ' + why] += 1
                return None
            raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
        work_check(kind, out, m, what)
        c, sc = fits.cost_now(spec, s, inp.pos[0], fits.exog(inp), raw[0])
        if not abs(c - s.model.cost_) <= 1e-9 * sc:
            raise core.Violation('cost-wrong', '%s: reported cost %.17g, objective at the returned '
                                 'weights and parameters %.17g' % (what, s.model.cost_, c))
        if kind in ('kaa', 'aa') and 'offset' not in sessions:
            # known finding: archetypal analysis reports one iteration less than it performs
            sessions['offset'] = int(m == 1 and s.model.n_iter_ == 0)
            ctx.stats['known finding seen'] += sessions['offset']
        n = int(s.model.n_iter_) + sessions.get('offset', 0)
        if not 1 <= n <= m:
            raise core.Violation('iteration-count', '%s reported %d iterations' % (
                what, s.model.n_iter_))
        if o.get('simsolver') and s.model.n_components_ != 1 and solver.STATE['n'] != n:
            raise core.Violation('iteration-count', '%s reported %d iterations but solved for the '
                                 'weights %d times' % (what, n, solver.STATE['n']))
        ctx.log(what, n, '%.12g' % c, fits.max_warned(out))
        return n, float(s.model.cost_), sc, fits.max_warned(out), inp

    # first pass: tolerance that never stops, to learn the changes
    T = plan['T']
    tiny = 1e-300
    for m in range(1, T + 1):
        r = fit(m, tiny)
        if r is None:
            return
        n, c, sc, warned, inp = r
        costs[m], scales[m] = c, sc
        if n < m:
            # a change of exactly zero may stop even here
            if abs(costs[m] - costs[n - 1] if n > 1 else 0.0) > 1e-12 * sc:
                raise core.Violation('stopped-early', '%s stopped at iteration %d of %d although '
                                     'the cost still changed by %g' % (
                                         kind, n, m, costs[m] - costs[n - 1]))
            if abs(costs[m] - costs[n]) > 1e-9 * max(sc, scales[n]):
                raise core.Violation('iteration-count', '%s with budget %d reports %d iterations '
                                     'and cost %.17g, but after %d iterations the cost is %.17g' % (
                                         kind, m, n, costs[m], n, costs[n]))
            if warned:
                raise core.Violation('false-warning', '%s stopped at %d of %d and warned that the '
                                     'maximum was reached' % (kind, n, m))
            T = m - 1
            break
        if not warned:
            raise core.Violation('missing-warning', '%s used its whole budget of %d without '
                                 'warning' % (kind, m))
    if T < 1:
        return
    if fits.has_start(spec, inp.kw):
        c0 = fits.start_cost(spec, inp.kw, inp.pos[0], fits.exog(inp))
        if kind in world.FEMBV and c0 == 0:
            c0 = None
    else:
        c0 = None
    delta = {}
    for m in range(1, T + 1):
        p = costs[m - 1] if m > 1 else c0
        delta[m] = abs(costs[m] - p) if p is not None else None
    # second pass: a tolerance between two of them
    big = sorted(v for v in delta.values() if v is not None and v > 1e-9 * max(scales.values()))
    if not big:
        return
    i = plan['j'] % len(big)
    lo = big[i - 1] if i else big[0] * 1e-2
    tol = math.sqrt(lo * big[i])
    if not lo * 1.0001 < tol:
        tol = big[i] * 1.5
    early = full = 0
    ample = 4 * T + 20
    stop = None
    budgets = list(range(1, T + 1)) + [ample]
    for m in budgets:
        r = fit(m, tol)
        if r is None:
            return
        n, c, sc, warned, _ = r
        what = '%s fit, budget %d, tolerance %g' % (kind, m, tol)
        if n == m:
            full += 1
            prev = costs.get(n - 1) if n > 1 else c0
            # (an execution that converges with its very last iteration may or may not warn)
            if not warned and prev is not None and abs(c - prev) > tol + 1e-9 * sc:
                raise core.Violation('missing-warning', '%s used its whole budget without warning '
                                     'that the maximum was reached' % what)
        else:
            early += 1
            if warned:
                raise core.Violation('false-warning', '%s stopped after %d iterations and warned '
                                     'that the maximum was reached' % (what, n))
        if n in costs and abs(c - costs[n]) > 1e-9 * max(sc, scales[n]):
            raise core.Violation('iteration-count', '%s reports %d iterations and cost %.17g, but '
                                 'after %d iterations the cost is %.17g' % (what, n, c, n,
                                                                            costs[n]))
        if n < m:
            prev = costs.get(n - 1) if n > 1 else c0
            if prev is not None and abs(c - prev) >= tol + 1e-9 * sc:
                raise core.Violation('stopped-early', '%s stopped at iteration %d where the cost '
                                     'changed by %g' % (what, n, c - prev))
            stop = n
    ctx.nontrivial = bool(early and full)
    ctx.mark(kind, T, stop, early, full, plan['reuse'])
    ctx.stats['prefix executions'] += 2 * T + 1
