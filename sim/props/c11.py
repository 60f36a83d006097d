"""C11: FEM-BV weights obey the variation bound and are optimal."""
import numpy as np

from sim import core, hist, oracles, solver, world

BUDGET = {'quick': (5100, 130), 'thorough': (40800, 1500)}
RULE = ('one run = a history of 1-5 FEM-BV fits and transforms (some aborted), each weights solve '
        'answered by a real solver or by a simulated one that picks a random optimal vertex, a '
        'random solution within 1e-7 of the optimum, or adds solver noise; total variation vs '
        'bound, cost vs independent LP (other formulation, HiGHS through scipy), nearest '
        'component; non-trivial: more than one component and samples; distinct: by model, bound, '
        'solver behaviours and resulting weights')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS/SCIPY']
STUB = ['LP solver front end (choice among optima, noise)', 'clock', 'stdout']
ASSUMPTIONS = ['solver accuracy: 1e-5 in the constraints, 1e-5 of the total cost scale plus 2e-7 per '
               'sample']


def gen(rng, tier):
    spec = world.gen_spec(rng, rng.choice(world.FEMBV))
    o = spec['o']
    if not isinstance(o.get('memory'), list):
        o['k'] = rng.choice([2, 2, 3, 3, 4, 1])
    o['tv'] = rng.choice([None, -1, 0, 0.25, 0.5, 1, 1, 1.5, 2, 3, 4, 6, 100])
    if rng.random() < 0.8:
        o['simsolver'] = 1
        o['solver'] = None
    ops = hist.gen_history(rng, spec, rng.randint(1, 5), p_fault=0.12, p_bad=0.05,
                           fault_kinds=('abort',))
    for op in ops:
        if op.get('keep') == 'weights':
            op.pop('keep')
        op['solver'] = [solver.gen_ok(rng) for _ in range(o['mi'] + 1)]
        op['sdef'] = solver.gen_ok(rng)
    return {'spec': spec, 'ops': ops}


def judge(spec, params, X, U, G, what, slack=0.0):
    """TV bound, feasibility, optimality of the weights G for the component parameters."""
    G = np.asarray(G, dtype=float)
    oracles.check_rows('weights of ' + what, G, 1e-6, 1e-5)
    b = spec['o']['tv']
    if b is not None and b >= 0 and G.shape[1] > 1:
        v = oracles.tv(G)
        if v.max(initial=0) > b + 1e-5 + slack:
            raise core.Violation('bound-broken', '%s: total variation %s with bound %g' % (
                what, core.short(v), b))
    D = oracles.fembv_distances(spec, params, X, U)
    if not np.all(np.isfinite(D)):
        raise core.Violation('not-finite', '%s: component parameters %s' % (what, params))
    if G.shape[1] == 1:
        return
    c = float((G * D).sum())
    opt = oracles.lp_optimum(D, b)
    scale = float(D.max(axis=1).sum()) + 0.02 * len(D)     # solver tolerances are absolute, too
    if c > opt + (1e-5 + slack) * scale:
        raise core.Violation('not-optimal', '%s: cost %.12g, optimum %.12g (scale %.3g), bound %s'
                             % (what, c, opt, scale, b))
    if c < opt - 1e-5 * scale:
        raise core.Violation('infeasible', '%s: cost %.12g below the optimum %.12g' % (
            what, c, opt))
    if b is None or b < 0:
        gap = (G * (D - D.min(axis=1, keepdims=True))).sum(axis=1)
        if gap.max() > (1e-5 + slack) * scale:
            raise core.Violation('not-nearest', '%s: sample %d is %.6g from its closest component '
                                 'but %s is assigned to %s' % (
                                     what, gap.argmax(), D[gap.argmax()].min(),
                                     core.short(G[gap.argmax()]), core.short(D[gap.argmax()])))


def run(ctx, plan):
    spec = plan['spec']
    r = hist.Runner(ctx, spec)
    for i, op in enumerate(plan['ops']):
        if op['o'] != 'fit' and r.last_fit is None:
            continue
        what = '%s call %d (%s)' % (spec['kind'], i, op['o'])
        inp = hist.op_inputs(spec, op, r.s.k())
        raw = []
        out = r.do(op, inp, raw)
        if not out.ok:
            if hist.unexpected(op, out) is not None:
                raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
            continue
        if op.get('bad'):
            continue
        G = raw[0] if isinstance(raw[0], np.ndarray) else r.s.model.Gamma
        judge(spec, r.s.params(), inp.pos[0], inp.kw.get('external_factors'), G, what)
        if G.shape[1] > 1 and G.shape[0] > 1:
            ctx.nontrivial = True
        ctx.mark(spec['kind'], spec['o']['tv'], [e['a'] for e in solver.STATE['log']],
                 core.digest({'g': np.round(G, 3)})[:8])
    r.close()
