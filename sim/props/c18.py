"""C18: FEM-BV parameters are optimal for the weights in force."""
import numpy as np

from reor import fembv_varx
from sim import core, fits, hist, oracles, solver, world

BUDGET = {'quick': (6800, 130), 'thorough': (54400, 1500)}
RULE = ('one run = one FEM-BV fit executed with budgets 1..T (fresh or reused object) against the '
        'same script of solver behaviours (optimal vertices, failures that keep the weights), or a '
        'fit with fixed custom weights; the parameters reported with budget t+1 must be the '
        'weighted means / weighted least-squares optimum for the weights returned with budget t; '
        'non-trivial: parameters of at least one update judged; distinct: by model, memories, '
        'solver behaviour, empty components and weights')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS/SCIPY']
STUB = ['LP solver front end (choice among optima, failures)', 'clock', 'stdout']
ASSUMPTIONS = ['means to 1e-7, least-squares objective to 1e-7 of its scale']


def gen_local(rng):
    """The regression of one component on its own: fits to one series with changing weights."""
    q = rng.choice([None, None, 1, 1, 2, 3])
    p, s = rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 0, 1, 2, 3])
    d = world.gen_data(rng, lo=10, hi=30)
    d['n'] = max(d['n'], max(p, s) + 5)
    ops = []
    for _ in range(rng.randint(1, 6)):
        op = {'w': rng.choice([None, 'dense', 'onehot', 'sparse', 'one', 'empty']),
              'rs': rng.randrange(10 ** 6)}
        if not s and rng.random() < 0.25:
            op['w'] = 'set'
        r = rng.random()
        if r < 0.15:
            op['lstsq'] = rng.choice(['LinAlgError', 'MemoryError', 'KeyboardInterrupt'])
        elif r < 0.35:
            op['at'] = [round(rng.random(), 6), rng.choice(hist.ASYNC_EXC)]
        ops.append(op)
    return {'local': 1, 'p': p, 's': s, 'q': q, 'd': d, 'ops': ops}


def gen(rng, tier):
    if rng.random() < 0.1:
        return gen_local(rng)
    spec = world.gen_spec(rng, rng.choice(['fkm', 'fvx', 'fvx']))
    o = spec['o']
    o['simsolver'] = 1
    o['solver'] = None
    o['tol'] = rng.choice([1e-12, 1e-12, 1e-6])
    o['verbose'] = 0
    if o['init'] == 'random' and rng.random() < 0.4:
        o['init'] = 'custom'
    if spec['kind'] == 'fvx':
        if rng.random() < 0.4:
            o['k'] = rng.choice([2, 3])
            o['memory'] = [rng.choice([0, 1, 2, 3]) for _ in range(o['k'])]
        o['q'] = rng.choice([0, 1, 1, 2])
    d = hist.fit_data(rng, spec)
    d['lay'] = rng.choice(['C', 'F', 'S'])
    op = world.gen_op(rng, spec, d, force='fit')
    op.pop('keep', None)
    op['ft'] = 1
    T = rng.randint(1, 5)
    op['solver'] = [solver.gen_fail(rng) if rng.random() < 0.3 else solver.gen_ok(rng, True)
                    for _ in range(T + 1)]
    plan = {'spec': spec, 'op': op, 'T': T, 'reuse': int(rng.random() < 0.4)}
    if o['init'] == 'custom' and rng.random() < 0.35:
        plan['fixed'] = rng.choice(['dense', 'empty', 'onehot', 'sparse', 'tiny'])
        plan['T'] = rng.choice([1, 1, 3])
    elif o['init'] == 'custom':
        plan['start'] = rng.choice(['dense', 'dense', 'empty', 'onehot', 'sparse', 'tiny'])
    if rng.random() < 0.3:
        pre = dict(op, rs=rng.randrange(10 ** 6), d=hist.fit_data(rng, spec, prev=d))
        pre['solver'] = []
        plan['pre'] = pre
    return plan


def custom(how, shape, seed):
    r = np.random.RandomState(seed)
    n, k = shape
    W = r.dirichlet(np.ones(k), size=n)
    if how == 'onehot':
        W = np.eye(k)[r.randint(k, size=n)]
    elif how == 'empty' and k > 1:
        W = np.zeros((n, k))
        W[:, 1:] = r.dirichlet(np.ones(k - 1), size=n)
    elif how == 'tiny' and k > 1:
        # next to nothing is assigned to one component
        W[:, 0] *= 10.0 ** -r.randint(6, 14)
        W[:, 1:] *= ((1 - W[:, :1]) / W[:, 1:].sum(axis=1, keepdims=True))
    elif how == 'sparse':
        W = np.where(r.rand(n, k) < 0.5, 0.0, W)
        W[W.sum(axis=1) == 0, 0] = 1.0
        W /= W.sum(axis=1, keepdims=True)
    return W


def judge(spec, params, X, U, G, what):
    """Parameters vs the weights G they must be optimal for."""
    X = np.asarray(X, dtype=float)
    G = np.asarray(G, dtype=float)
    empties = 0
    if spec['kind'] == 'fkm':
        T = np.asarray(params['Theta'], dtype=float)
        if not np.all(np.isfinite(T)):
            raise core.Violation('not-finite', '%s: centres %s' % (what, core.short(T)))
        sc = np.abs(X).max() + 1e-300
        for j in range(G.shape[1]):
            w = G[:, j]
            if w.sum() < 1e-200:
                empties += 1
                continue
            mean = w.dot(X) / w.sum()
            if np.abs(T[j] - mean).max() > 1e-7 * sc:
                raise core.Violation('not-weighted-mean', '%s: centre %d is %s, weighted mean %s' % (
                    what, j, core.short(T[j]), core.short(mean)))
        return empties
    for k, v in params.items():
        if v is not None and v.dtype.kind == 'f' and not np.all(np.isfinite(v)):
            raise core.Violation('not-finite', '%s: %s = %s' % (what, k, core.short(v)))
    mem = [int(v) for v in params['memory']]
    m = max(mem)
    D = oracles.fembv_distances(spec, params, X, U)
    for j in range(G.shape[1]):
        w = np.maximum(G[:, j], 0)
        if w.sum() < 1e-30:
            empties += 1
            continue
        Z = oracles.varx_design(X, U, mem[j], m)
        opt = oracles.wls(Z, X[m:], w)
        got = float((w * D[:, j]).sum())
        sc = float((w[:, None] * X[m:] ** 2).sum()) + 1e-300
        if got > opt + 1e-7 * sc:
            raise core.Violation('not-least-squares', '%s: component %d (memory %d) has weighted '
                                 'squared error %.12g, optimum %.12g' % (what, j, mem[j], got,
                                                                         opt))
    return empties


def local_weights(how, n, seed):
    r = np.random.RandomState(seed)
    if how == 'one':
        w = np.ones(n)
    elif how == 'onehot':
        w = (r.rand(n) < 0.5).astype(float)
    elif how == 'sparse':
        w = np.where(r.rand(n) < 0.5, 0.0, r.rand(n))
    elif how == 'empty':
        w = np.zeros(n)
    else:
        w = r.rand(n)
    return w


def run_local(ctx, plan):
    p, s, q = plan['p'], plan['s'], plan['q']
    m = max(p, s)
    Y = np.asarray(world.make_data(plan['d']), dtype=float)
    n, nf = Y.shape
    U = None
    if q:
        U = world.make_exog(plan['d'], q)
    model = fembv_varx.FEMBVVARXLocalLinearModel(world.make_data(plan['d']), p=p, u=U,
                                                 **({'s': s} if q else {}))
    if not q:
        s, m = 0, p
    cols = [np.ones((n - m, 1))] + [Y[m - i:n - i] for i in range(1, p + 1)]
    if q:
        cols += [U[m - i:n - i] for i in range(1, s + 1)] + [U[m:]]
    Z = np.hstack(cols)
    for i, op in enumerate(plan['ops']):
        what = 'local model (p=%d, s=%d, %s factors) call %d (%s)' % (p, s, q, i, op['w'])
        w = None
        if op['w'] == 'set':
            r = np.random.RandomState(op['rs'])
            args = [r.randn(nf), 0.3 * r.randn(p, nf, nf) if p else None,
                    r.randn(nf, q) if q else None]
            call = lambda: model.set_parameters(*args)      # noqa: E731
        elif op['w'] is None:
            call = model.fit
        else:
            w = local_weights(op['w'], n, op['rs'])
            call = lambda: model.fit(weights=w)             # noqa: E731
        if op.get('lstsq'):
            world.arm_component('lstsq', 1, op['lstsq'])
        out = core.call(ctx, lambda: {'': call()}, abort=(1 + int(op['at'][0] * 22), op['at'][1])
                        if op.get('at') else None)
        fired = out.fired or world.component_fired()
        world.disarm_components()
        ctx.log(what, out.brief())
        if not out.ok:
            if fired is None or out.exc is not fired:
                raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
            continue
        if fired is not None:
            raise core.Violation('error-swallowed', '%s completed although %r was raised' % (
                what, fired))
        params = [np.asarray(model.mu)[None, :]]
        params += [np.asarray(model.A)[j].T for j in range(p)]
        if q:
            params += [np.asarray(model.B)[j].T for j in range(s)] + [np.asarray(model.B0).T]
        R = Y[m:] - Z.dot(np.vstack(params))
        if not np.all(np.isfinite(R)):
            raise core.Violation('not-finite', what)
        size = np.abs(Y).max() + np.abs(R).max() + 1e-300
        if np.abs(np.asarray(model.residuals)[m:] - R).max() > 1e-7 * size:
            raise core.Violation('residuals', '%s: residuals %s, coefficients give %s' % (
                what, core.short(model.residuals[m:]), core.short(R)))
        if op['w'] == 'set':
            continue
        w = np.ones(n - m) if w is None else w[m:]
        opt = oracles.wls(Z, Y[m:], w)
        got = float((w[:, None] * R ** 2).sum())
        if got > opt + 1e-7 * (float((w[:, None] * Y[m:] ** 2).sum()) + 1e-300):
            raise core.Violation('not-least-squares', '%s: weighted squared error %.12g, optimum '
                                 '%.12g' % (what, got, opt))
        ctx.nontrivial = True
        ctx.stats['local regressions judged'] += 1
        ctx.mark('local', p, s, q, op['w'], core.digest({'r': np.round(R, 3)})[:8])


def run(ctx, plan):
    if plan.get('local'):
        return run_local(ctx, plan)
    spec, op = plan['spec'], plan['op']
    kind, o = spec['kind'], spec['o']
    holder = {}

    def execute(t):
        s = holder.get('s') if plan['reuse'] else None
        if s is None:
            s = holder['s'] = fits.session(spec, mi=t)
            if plan.get('pre'):
                s.op(ctx, plan['pre'])
        s.model.max_iterations = t
        inp = hist.op_inputs(spec, op, s.k())
        how = plan.get('fixed') or plan.get('start')
        if how and 'weights' in inp.kw:
            inp.kw['weights'] = custom(how, inp.kw['weights'].shape, op['rs'])
        if plan.get('fixed'):
            inp.kw['update_weights'] = False
        raw = []
        out = s.op(ctx, op, inp, raw)
        if not out.ok:
            raise core.Violation('valid-call-failed', '%s fit, budget %d: %r' % (kind, t, out.exc))
        return s, inp, raw[0], out
    prev = None
    if plan.get('fixed'):
        s, inp, G, out = execute(plan['T'])
        e = judge(spec, s.params(), inp.pos[0], fits.exog(inp), inp.kw['weights'],
                  '%s fit with fixed weights' % kind)
        d = core.diff({'w': G}, {'w': inp.kw['weights']})
        if d:
            raise core.Violation('weights-changed', d)
        ctx.stats['empty components'] += e
        ctx.nontrivial = True
        ctx.mark(kind, o.get('memory'), plan['fixed'], e)
        ctx.log(kind, out.brief())
        return
    for t in range(1, plan['T'] + 1):
        s, inp, G, out = execute(t)
        log = [e['a'] for e in solver.STATE['log']]
        ctx.log(kind, t, s.model.n_iter_, log, out.brief())
        if s.model.n_iter_ < t:
            break
        if t == 1 and 'weights' in inp.kw:
            prev = inp.kw['weights']
        if prev is not None:
            e = judge(spec, s.params(), inp.pos[0], fits.exog(inp), prev,
                      '%s fit, update %d, weights of update %d' % (kind, t, t - 1))
            ctx.nontrivial = True
            ctx.stats['empty components'] += e
            ctx.mark(kind, o.get('memory'), log, e, core.digest({'g': np.round(prev, 3)})[:8])
        prev = np.array(G)
