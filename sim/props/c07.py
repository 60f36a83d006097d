"""C07: weights and stochastic parameters are always feasible."""
import numpy as np

from sim import core, fits, hist, oracles, solver, world

BUDGET = {'quick': (6800, 130), 'thorough': (54400, 1500)}
LAYOUTS = True
RULE = ('one run = one history of 2-8 calls, or one chain of up to 25 fits each warm-started from '
        'the results of the one before with a random iteration budget, with aborted calls, failing '
        'and varying LP solvers in between; after every completed call returned weights and '
        'stochastic fitted attributes are checked; non-trivial: at least two calls were checked; '
        'distinct: by model, calls, budgets, outcomes and abort locations')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS/SCIPY', 'scikit-learn']
STUB = ['clock', 'stdout', 'user kernel functions', 'LP solver front end (random optimal vertex, '
        'noise, failure status, else a real solver)']
ASSUMPTIONS = ['projected weights: >= -1e-10 and row sums within 1e-8; LP weights: >= -1e-6 and '
               'row sums within 1e-5 (solver accuracy)']
KINDS = ('kaa', 'aa', 'gpnh', 'crom', 'mtd', 'fkm', 'fvx', 'mkc')


def gen(rng, tier):
    spec = world.gen_spec(rng, rng.choice(KINDS))
    kind, o = spec['kind'], spec['o']
    o['mi'] = rng.choice([1, 1, 2, 3, 4, 6, 9, 14, 25]) if kind in world.FACTOR else o['mi']
    if kind in world.FEMBV and rng.random() < 0.6:
        o['simsolver'] = 1
    chain = kind not in ('mkc',) and rng.random() < 0.45
    kw = {}
    if chain:
        o['init'] = 'custom'
        d = hist.fit_data(rng, spec)
        ops = []
        for i in range(rng.randint(3, 25 if kind in world.FACTOR else 6)):
            op = world.gen_op(rng, spec, dict(d), force='fit')
            op['resume'] = 1
            op['mi'] = rng.choice([1, 1, 1, 2, 3, 7])
            if rng.random() < 0.2:
                op['fault'] = hist.gen_fault(rng, spec, op)
            ops.append(op)
    else:
        ops = hist.gen_history(rng, spec, rng.randint(2, 7), p_fault=0.25, p_bad=0.08, **kw)
        for op in ops:
            if kind in world.FACTOR:
                op['mi'] = rng.choice([1, 2, 3, 5, 8, 13, 21, 40])
    if o.get('simsolver'):
        for op in ops:
            op['solver'] = [solver.gen_fail(rng) if rng.random() < 0.2 else solver.gen_ok(rng)
                            for _ in range(4)]
    return {'spec': spec, 'ops': ops}


def saved(spec, model, W):
    """What a caller saves to resume later."""
    kind = spec['kind']
    s = {'weights': np.array(W)}
    if kind in world.FACTOR:
        s['dictionary'] = np.array(model.dictionary_)
    if kind == 'mtd':
        s['order_weights'] = np.array(model.order_weights)
        s['transition_matrices'] = np.array(model.transition_matrices)
    if kind == 'fkm':
        s['parameters'] = np.array(model.Theta)
    if kind == 'fvx':
        s['parameters'] = {'mu': np.array(model.mu),
                           'A': None if model.A is None else np.array(model.A),
                           'B0': None if model.B0 is None else np.array(model.B0)}
    return s


def check_state(spec, model, ret, what, op):
    kind = spec['kind']
    # from weights given with single precision, that precision is all one can expect
    given32 = op['d'].get('lay') == 'H' and (op.get('keep') or spec['o'].get('init') == 'custom')
    tight = (1e-6, 1e-5) if given32 else (1e-10, 1e-8)
    n = op['d']['n']
    if kind in world.FEMBV:
        tol = oracles.fembv_tol()
        if given32:
            tol = max(tol[0], 1e-5), max(tol[1], 1e-5)
        mem = max(int(v) for v in model.memory) if kind == 'fvx' else 0
        n = n - mem
    else:
        tol = tight
    if ret is not None and kind != 'mkc' and op['o'] in ('fit', 'transform'):
        oracles.check_rows('weights returned by ' + what, ret, *tol)
        if ret.shape[0] != n:
            raise core.Violation('shape', '%s returned weights of shape %s for %d samples' % (
                what, ret.shape, n))
        if np.abs(ret).max(initial=0) > 1 + 1e-5:
            raise core.Violation('not-normalised', 'weight %g' % ret.max())
    if op['o'] == 'fit':
        if kind in ('kaa', 'aa'):
            oracles.check_rows('archetype coefficients after ' + what, model.dictionary_,
                               *tight)
        if kind in ('crom', 'mtd'):
            oracles.check_rows('lag weights after ' + what, model.order_weights, *tight)
            for M in np.asarray(model.transition_matrices):
                oracles.check_rows('transition matrix columns after ' + what, M.T, *tight)
        if kind == 'mkc':
            oracles.check_rows('transition matrix columns after ' + what,
                               model.transition_matrix_.T, *tight)
    if kind == 'mkc' and op['o'] == 'predict':
        oracles.check_rows('distribution returned by ' + what, ret, *tight)


def run(ctx, plan):
    spec = plan['spec']
    kind = spec['kind']
    r = hist.Runner(ctx, spec)
    checked = 0
    state = None
    for i, op in enumerate(plan['ops']):
        if op['o'] != 'fit' and r.last_fit is None:
            continue
        if op.get('mi') and hasattr(r.s.model, 'max_iterations'):
            # the user changes the iteration budget of the live object (a public attribute)
            op = dict(op, set=dict(op.get('set') or {}, mi=op['mi']))
        what = '%s call %d (%s)' % (kind, i, op['o'])
        inp = hist.op_inputs(spec, op, r.s.k())
        if op.get('resume') and state is not None:
            inp.kw.update({k: v for k, v in state.items()})
        raw = []
        out = r.do(op, inp, raw)
        if out.ok and op.get('bad'):
            ctx.stats['malformed calls accepted'] += 1
            state = None
        elif out.ok:
            ret = raw[0] if isinstance(raw[0], np.ndarray) else None
            check_state(spec, r.s.model, ret, what, op)
            checked += 1
            ctx.mark(op.get('mi'))
            if op['o'] == 'fit' and plan['ops'][0].get('resume'):
                W = ret
                if W is None:
                    W = getattr(r.s.model, 'Gamma', None)
                state = saved(spec, r.s.model, W) if W is not None else None
        elif hist.unexpected(op, out) is not None:
            judge_failure(ctx, spec, op, out, what)
    ctx.nontrivial = checked >= 2
    r.close()


def judge_failure(ctx, spec, op, out, what):
    msg = str(out.exc)
    why = fits.refused(out.exc, op['d'])
    if why:
        ctx.stats['fits refused: ' + why] += 1
        return
    if op['o'] == 'fit' and not op.get('resume') and spec['kind'] in ('mkc',) and \
            isinstance(out.exc, ValueError):
        ctx.stats['fits refused: k-means'] += 1
        return
    raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
