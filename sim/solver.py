"""Simulated linear-programming solver behind cvxpy's public extension point.

``weights_solver_kwargs={'method': METHOD}`` makes the library's own Problem.solve call end here.
What the "solver" does at its n-th call is decided by the plan:

  {'a': 'ok', 's': 'CLARABEL'}            a real solver answers
  {'a': 'vertex', 'r': seed}              another optimal solution (random among the optimal face)
  {'a': 'slack', 'r': seed, 'e': 1e-7}    a feasible solution within e (relative) of the optimum
  {'a': 'centre', 'r': seed}              the middle of several random optimal solutions
  {'a': 'noise', 'r': seed, 'e': 1e-9}    optimal up to noise of size e in every variable
  {'a': 'status', 'st': ..., 'v': ...}    a non-optimal status; v: None, 'nan', 'garbage', 'junk'
  {'a': 'raise', 'e': exception name}     the solver raises
  {'a': 'real', 'kw': {...}}              the real solver starved of iterations
"""
import numpy as np
import cvxpy as cp

from sim import core, world

METHOD = 'reorsim'
STATE = {'ctx': None, 'script': [], 'default': {'a': 'ok', 's': 'HIGHS'}, 'n': 0, 'log': [],
         'on': False, 'fired': None}
STATUSES = ('infeasible', 'unbounded', 'infeasible_inaccurate', 'unbounded_inaccurate',
            'user_limit', 'infeasible_or_unbounded')


def reset(ctx, script=(), default=None):
    STATE.update(ctx=ctx, script=list(script), n=0, log=[], on=True, fired=None,
                 default=default or {'a': 'ok', 's': 'HIGHS'})


def kwargs():
    return {'method': METHOD}


def _variables(problem):
    return problem.variables()


def _real(problem, s):
    if s is None:
        return problem.solve()
    return problem.solve(solver=s)


def _solve(problem, *args, **kw):
    n = STATE['n']
    STATE['n'] += 1
    act = STATE['script'][n] if n < len(STATE['script']) else STATE['default']
    ctx = STATE['ctx']
    a = act['a']
    world.component_called('solver')
    if ctx is not None:
        ctx.stats['solver:' + a + (':' + str(act.get('st', '')) if a == 'status' else '')] += 1
    entry = {'a': a, 'act': act}
    STATE['log'].append(entry)
    if a == 'raise':
        e = core.make_exc(act['e']) if act['e'] != 'SolverError' else \
            cp.error.SolverError('injected by the simulator')
        e.reorsim = True
        STATE['fired'] = e
        entry['exc'] = e
        if ctx is not None:
            ctx.stats['fault:solver:' + act['e']] += 1
        raise e
    if a == 'ok':
        return _real(problem, act.get('s'))
    if a == 'real':
        r = problem.solve(**act['kw'])
        entry['status'] = problem.status
        return r
    if a == 'status':
        if ctx is not None:
            ctx.stats['fault:solver-status:' + act['st']] += 1
        rng = np.random.RandomState(act.get('r', 0))
        for v in _variables(problem):
            how = act.get('v')
            if how is None:
                v.save_value(None)
            elif how == 'nan':
                v.save_value(np.full(v.shape, np.nan))
            elif how == 'garbage':
                v.save_value(rng.randn(*v.shape) * 10)
            else:
                v.save_value(np.zeros(v.shape))
        problem._status = act['st']
        problem._value = {'infeasible': np.inf, 'infeasible_inaccurate': np.inf,
                          'unbounded': -np.inf, 'unbounded_inaccurate': -np.inf}.get(act['st'])
        return problem._value
    if a in ('vertex', 'slack', 'centre'):
        value = problem.solve(solver='HIGHS')
        rng = np.random.RandomState(act['r'])
        vs = _variables(problem)
        face = []
        for _ in range(1 + 3 * (a == 'centre')):
            ok = _other_optimum(problem, rng, vs, value, act.get('e', 0.0))
            if not ok:
                break
            face.append([np.array(v.value) for v in vs])
        if not ok:
            value = problem.solve(solver='HIGHS')
        else:
            for i, v in enumerate(vs):
                v.save_value(np.mean([f[i] for f in face], axis=0))
            value = float(problem.objective.expr.value)
        problem._status = 'optimal'
        problem._value = value
        return value
    if a == 'noise':
        value = problem.solve(solver='HIGHS')
        rng = np.random.RandomState(act['r'])
        for v in _variables(problem):
            v.save_value(v.value + act['e'] * rng.uniform(-1, 1, size=v.shape))
        return value
    raise core.HarnessError('unknown solver action %r' % a)


def _other_optimum(problem, rng, vs, value, slack):
    """Another optimal solution, in the problem's variables."""
    lin = sum(cp.sum(cp.multiply(rng.randn(*v.shape), v)) for v in vs)
    # bounded even when auxiliary variables are free to grow
    box = [v <= 2.0 for v in vs]
    eps = (slack + 1e-9) * max(1.0, abs(value))
    q = cp.Problem(cp.Minimize(lin),
                   problem.constraints + box + [problem.objective.expr <= value + eps])
    try:
        q.solve(solver='HIGHS')
    except cp.error.SolverError:
        return False
    return q.status == 'optimal'


cp.Problem.register_solve(METHOD, _solve)


def gen_ok(rng, accurate=False):
    """An answer a correct solver may give."""
    r = rng.random()
    if r < 0.45:
        return {'a': 'ok', 's': rng.choice(['HIGHS', 'SCIPY', 'CLARABEL', None])}
    if r < 0.75 or accurate:
        return {'a': rng.choice(['vertex', 'vertex', 'centre']), 'r': rng.randrange(10 ** 6)}
    if r < 0.88:
        return {'a': 'slack', 'r': rng.randrange(10 ** 6), 'e': rng.choice([1e-9, 1e-7])}
    return {'a': 'noise', 'r': rng.randrange(10 ** 6), 'e': rng.choice([1e-9, 1e-8])}


def gen_fail(rng):
    return {'a': 'status', 'st': rng.choice(STATUSES),
            'v': rng.choice([None, None, 'nan', 'garbage', 'zero']), 'r': rng.randrange(10 ** 6)}
