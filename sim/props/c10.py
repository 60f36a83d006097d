"""C10: FEM-BV fits survive failures of the weights solver."""
import copy

import numpy as np

from sim import core, fits, hist, oracles, solver, world
from sim.props import c11

BUDGET = {'quick': (8500, 130), 'thorough': (68000, 1500)}
RULE = ('one run = a FEM-BV fit (sometimes after other calls) whose weights solves are scripted: '
        'real answer, non-optimal status (infeasible, unbounded, inaccurate variants, limit) with '
        'missing, NaN, zero or garbage values, a real solver starved of iterations, or an '
        'exception; checked: one warning per failed solve, weights of the last good solve kept '
        '(vs an execution that stops there), exception identity, feasibility, optimal end once '
        'the solver works, retry equals fault-free run; non-trivial: at least one solve failed; '
        'distinct: by model, bound and script')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS/SCIPY']
STUB = ['LP solver front end (statuses, values, exceptions)', 'clock', 'stdout']
ASSUMPTIONS = ['a solver reports failure through problem.status or by raising']
RAISE = ('SolverError', 'SolverError', 'MemoryError', 'KeyboardInterrupt', 'ValueError',
         'SimFailure', 'OSError', 'TypeError', 'RuntimeError', 'SimCancel')


def gen(rng, tier):
    spec = world.gen_spec(rng, rng.choice(world.FEMBV))
    o = spec['o']
    if not isinstance(o.get('memory'), list) or o['k'] == 1:
        o['k'] = rng.choice([2, 2, 3])
        if isinstance(o.get('memory'), list):
            o['memory'] = 1
    o['simsolver'] = 1
    o['solver'] = None
    o['mi'] = rng.choice([1, 2, 3, 4, 6])
    o['tol'] = rng.choice([1e-3, 1e-6, 1e-10])
    o['verbose'] = int(rng.random() < 0.2)
    d = hist.fit_data(rng, spec)
    op = world.gen_op(rng, spec, d, force='fit')
    op.pop('keep', None)
    op['ft'] = 1
    mode = rng.choice(['suffix', 'mixed', 'mixed', 'raise', 'transform', 'alternate'])
    if mode == 'alternate':
        # every other solve fails: the fit never settles, and must not give up
        o['mi'] = rng.choice([5, 8, 8, 12])
        o['tol'] = rng.choice([1e-6, 1e-10, 1e-12])
    n = o['mi']

    def fail():
        f = solver.gen_fail(rng)
        if rng.random() < 0.12:
            return {'a': 'real', 'kw': {'solver': 'CLARABEL', 'max_iter': 1}}
        return f

    def ok():
        return {'a': 'ok', 's': rng.choice(['HIGHS', 'SCIPY'])}
    if mode == 'suffix':
        j = rng.randint(0, n - 1)
        script = [ok() for _ in range(j)] + [fail() for _ in range(n - j)]
    elif mode == 'raise':
        j = rng.randint(0, n - 1)
        script = [fail() if rng.random() < 0.3 else ok() for _ in range(j)]
        script.append({'a': 'raise', 'e': rng.choice(RAISE)})
    elif mode == 'alternate':
        j = rng.randrange(2)
        script = [fail() if (i + j) % 2 and rng.random() < 0.95 else ok() for i in range(n)]
    else:
        script = [fail() if rng.random() < 0.5 else ok() for _ in range(n)]
        if mode == 'mixed' and rng.random() < 0.6:
            script[-1] = ok()
    op['solver'] = script
    plan = {'spec': spec, 'op': op, 'mode': mode}
    if rng.random() < 0.4:
        # the object has been through other calls, most with failing solves
        plan['history'] = [{'rs': rng.randrange(10 ** 6), 's': rng.randrange(10 ** 6),
                            'dn': rng.choice([0, 0, 2]), 'q': int(rng.random() < 0.4),
                            'solver': [rng.choice([fail, fail, ok])() for _ in range(n)]}
                           for _ in range(rng.choice([1, 1, 2, 4, 6]))]
    if mode == 'transform':
        op['solver'] = []
        q = world.gen_op(rng, spec, d, force='transform')
        q['solver'] = [rng.choice([fail, fail, ok])() for _ in range(n)]
        if rng.random() < 0.3:
            q['solver'][0] = {'a': 'raise', 'e': rng.choice(RAISE)}
        plan['q'] = q
    return plan


def failing(entry):
    """Did this solve end without an (almost) optimal solution?"""
    if entry['a'] == 'status':
        return True
    return entry['a'] == 'real' and entry.get('status') not in ('optimal', 'optimal_inaccurate')


def loose(entry):
    return entry['a'] == 'real' and entry.get('status') == 'optimal_inaccurate'


def lib_warnings(out):
    return [w for w in out.warned if w[3] and 'aximum' not in w[2]]


def common(ctx, spec, s, op, inp, out, G, log, what):
    """Checks every completed call must pass, whatever the solver did."""
    bad = [e for e in log if failing(e)]
    w = lib_warnings(out)
    if len(w) < len(bad):
        raise core.Violation('silent-failure', '%s: %d weights solves failed, %d warnings' % (
            what, len(bad), len(w)))
    tol = 1e-6, 1e-5
    if any(loose(e) for e in log):
        tol = 1e-6, 0.5
    oracles.check_rows('weights of ' + what, G, *tol)
    for k, v in s.params().items():
        if v is not None and v.dtype.kind == 'f' and not np.all(np.isfinite(v)):
            raise core.Violation('not-finite', '%s: fitted %s = %s' % (what, k, core.short(v)))


def run(ctx, plan):
    spec, op = plan['spec'], plan['op']
    kind, o = spec['kind'], spec['o']
    s = fits.session(spec)
    for h in plan.get('history', ()):
        p = dict(op, solver=h['solver'], rs=h['rs'], d=dict(op['d'], n=op['d']['n'] + h['dn'],
                                                            s=h['s']))
        if h['q'] and s.fit_k is not None:
            p['o'] = 'transform'
        b = s.op(ctx, p)
        ctx.stats['earlier calls with failing solves'] += 1
        if not b.ok:
            raise core.Violation('internal-error', '%s earlier %s: %r' % (kind, p['o'], b.exc))
    what = '%s fit' % kind
    inp = hist.op_inputs(spec, op, s.k())
    raw = []
    out = s.op(ctx, op, inp, raw)
    log = list(solver.STATE['log'])
    acts = [e['a'] + ':' + str(e.get('status', e['act'].get('st', ''))) for e in log]
    ctx.log(what, acts, out.brief())
    ctx.mark(kind, o['tv'], acts, plan['mode'], type(out.exc).__name__)
    if plan['mode'] == 'transform':
        if not out.ok:
            raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
        q = plan['q']
        inp = hist.op_inputs(spec, q, s.k())
        raw = []
        before = s.params()
        out = s.op(ctx, q, inp, raw)
        log = list(solver.STATE['log'])
        what = '%s transform' % kind
        acts = [e['a'] + ':' + str(e.get('status', e['act'].get('st', ''))) for e in log]
        ctx.log(what, acts, out.brief())
        ctx.mark(acts, type(out.exc).__name__)
        op = q
        d = core.diff(before, s.params(), exact=True)
        if d:
            raise core.Violation('parameters-changed', '%s: %s' % (what, d))
    fired = solver.STATE['fired']
    if any(failing(e) or e['a'] == 'raise' for e in log):
        ctx.nontrivial = True
    if fired is not None:
        if out.ok:
            raise core.Violation('error-swallowed', '%s completed although the solver raised %r' % (
                what, fired))
        if out.exc is not fired:
            raise core.Violation('error-replaced', '%s: the solver raised %r, the caller got %r' % (
                what, fired, out.exc))
        # solver works again: same call, fault-free result
        clean = {k: v for k, v in op.items() if k != 'solver'}
        if op['o'] == 'fit':
            a = s.op(ctx, clean)
            t = fits.session(spec)
            b = t.op(ctx, clean)
        else:
            a = s.op(ctx, clean)
            t = fits.session(spec)
            t.op(ctx, plan['op'])
            b = t.op(ctx, clean)
        hist.check_outcome('retry-differs', what + ' retried after the solver raised vs a run '
                           'without faults', a, b)
        return
    if not out.ok:
        raise core.Violation('internal-error', '%s with solver results %s raised %r' % (
            what, acts, out.exc))
    G = raw[0]
    common(ctx, spec, s, op, inp, out, G, log, what)
    if not log:
        return
    n = len(log)
    last = log[-1]
    if failing(last):
        # weights of the last good solve (or the initial ones) were kept
        good = [i for i, e in enumerate(log) if not failing(e)]
        j = good[-1] + 1 if good else 0
        if op['o'] == 'fit':
            if j:
                t = fits.session(spec, mi=j)
                raw2 = []
                b = t.op(ctx, op, hist.op_inputs(spec, op, t.k()), raw2)
                if not b.ok:
                    raise core.Violation('internal-error', '%s: %r' % (what, b.exc))
                if len(solver.STATE['log']) == j:
                    d = core.diff({'weights': G}, {'weights': raw2[0]})
                    if d:
                        raise core.Violation('weights-not-kept', '%s: solves %d-%d failed, weights '
                                             'are not those of solve %d: %s' % (what, j + 1, n, j,
                                                                                d))
            elif 'weights' in inp.kw:
                d = core.diff({'weights': G}, {'weights': np.asarray(inp.kw['weights'],
                                                                     dtype=float)})
                if d:
                    raise core.Violation('weights-not-kept', '%s: every solve failed, weights are '
                                         'not the initial ones: %s' % (what, d))
            # carried on: it may only stop short of the budget if the cost stopped moving
            if s.model.n_iter_ < o['mi'] and n > 1:
                t = fits.session(spec, mi=n - 1)
                b = t.op(ctx, op)
                if b.ok and t.model.n_iter_ == n - 1:
                    dc = abs(t.model.cost_ - s.model.cost_)
                    if dc >= o['tol'] + 1e-9 * (abs(s.model.cost_) + 1):
                        raise core.Violation('gave-up', '%s stopped after failed solve %d although '
                                             'the cost changed by %g' % (what, n, dc))
            elif s.model.n_iter_ < o['mi'] and n == 1 and 'weights' in inp.kw:
                c0 = fits.start_cost(spec, inp.kw, inp.pos[0], fits.exog(inp))
                dc = abs(c0 - s.model.cost_)
                if dc >= o['tol'] + 1e-9 * (abs(c0) + 1):
                    raise core.Violation('gave-up', '%s stopped after its first solve failed '
                                         'although the cost changed by %g' % (what, dc))
    elif last['a'] == 'ok':
        c11.judge(spec, s.params(), inp.pos[0], fits.exog(inp), G, what + ' (solver works again)')
