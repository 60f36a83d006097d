"""C08: cost never rises while fitting, nor across stop and resume."""
import numpy as np

from sim import core, fits, hist, oracles, pristine, world
from sim.props.c07 import saved

BUDGET = {'quick': (6100, 130), 'thorough': (48800, 1500)}
RULE = ('one run = one starting point and either the same fit with every budget 1..T (prefix '
        'executions), or a chain of 2-8 segments with random budgets, each resumed in the same '
        'object, a new object or a new process from what the last completed segment saved, with '
        'aborts at injected instants in between; cost chain from the independent objective; '
        'non-trivial: at least two costs were compared; distinct: by model, budgets, abort '
        'locations and where the cost stopped moving')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS/SCIPY']
STUB = ['clock', 'stdout', 'user kernel functions']
ASSUMPTIONS = ['allowance for rounding 1e-10, for LP solvers 1e-6, relative to the size of the '
               'terms of the cost', 'monotone line search (the default)']


def gen(rng, tier):
    spec = fits.iterative_spec(rng)
    o = spec['o']
    o['tol'] = rng.choice([1e-4, 1e-8, 1e-10, 1e-12])
    mode = rng.choice(['prefix', 'chain', 'chain'])
    late = mode == 'prefix' and spec['kind'] in world.FACTOR and rng.random() < 0.35
    if mode == 'chain':
        o['init'] = 'custom'
    d = hist.fit_data(rng, spec)
    op = world.gen_op(rng, spec, d, force='fit')
    op['ft'] = 1
    plan = {'spec': spec, 'op': op, 'mode': mode, 'mono': rng.choice([0, 0, 1, 1, 2])}
    fac = spec['kind'] in world.FACTOR
    if fac:
        plan['mono'] %= 2       # monotone is what they do by default
    if mode == 'prefix':
        plan['T'] = rng.randint(3, 14 if fac else 6)
        if late:
            # far into the fit, where steps are tiny
            o['tol'] = rng.choice([0, 1e-15, 1e-12])
            plan['T0'] = rng.choice([16, 30, 60, 120, 250])
            plan['T'] = plan['T0'] + rng.randint(2, 6)
    else:
        seg = []
        for _ in range(rng.randint(2, 8 if fac else 5)):
            s = {'T': rng.choice([1, 1, 2, 3, 5, 12] if fac else [1, 1, 2, 3]),
                 'where': rng.choice(['same', 'new', 'process']), 'rs': rng.randrange(10 ** 6)}
            if rng.random() < 0.3:
                s['fault'] = hist.gen_fault(rng, spec, op, ('abort',))
            seg.append(s)
        plan['segments'] = seg
    return plan


def allowance(spec, scale):
    if spec['kind'] in world.FEMBV:
        return 1e-6 * (scale + 2)       # solver tolerances are absolute
    return 1e-10 * scale


def feasible_tv(spec, W):
    b = spec['o'].get('tv')
    return b is None or b < 0 or oracles.tv(W).max(initial=0) <= b + 1e-9


def segment(ctx, spec, seg, op, state, mono, at, model=None):
    """One fit from a saved state.  Returns (status, saved state, cost, scale, model)."""
    s = fits.session(spec, mi=seg['T'], mono=mono) if model is None else model
    s.model.max_iterations = seg['T']
    inp = hist.op_inputs(spec, op, s.k())
    if state is not None:
        inp.kw.update(state)
    raw = []
    kw = {}
    if at:
        kw['abort'] = (at, seg['fault']['e'])
    out = s.op(ctx, dict(op, rs=seg['rs']), inp, raw, **kw)
    if out.fired is not None and not out.ok:
        return 'aborted', None, None, None, out.fired_loc
    if not out.ok:
        return 'failed', None, None, None, hist.strip(out.exc)
    W = raw[0]
    c, sc = fits.cost_now(spec, s, inp.pos[0], fits.exog(inp), W)
    return 'done', saved(spec, s.model, W), c, sc, out.events


def seg_profile(ctx, spec, seg, op, state, mono):
    s = fits.session(spec, mi=seg['T'], mono=mono)
    inp = hist.op_inputs(spec, op, s.k())
    if state is not None:
        inp.kw.update(state)
    out = s.op(ctx, dict(op, rs=seg['rs']), inp, record=True)
    return core.pick_event(out.rec, seg['fault']['u1'], seg['fault']['u2'])


def refused(ctx, spec, exc, what):
    """A fit refused to continue.  True if that is the documented rounding check."""
    why = fits.refused(exc)
    if why:
        ctx.stats['fits refused: ' + why] += 1
        return True
    raise core.Violation('valid-call-failed', '%s: %r' % (what, exc))


def run(ctx, plan):
    spec, op = plan['spec'], plan['op']
    kind = spec['kind']
    if plan['mode'] == 'prefix':
        prev = None
        mono = (None, False, True)[plan['mono']]
        for T in range(plan.get('T0', 1), plan['T'] + 1):
            s = fits.session(spec, mi=T, mono=mono)
            inp = hist.op_inputs(spec, op, s.k())
            raw = []
            out = s.op(ctx, op, inp, raw)
            if not out.ok:
                if fits.mono_error(out.exc) and mono is not False:
                    mono = False        # judge the costs instead of taking its word
                    s = fits.session(spec, mi=T, mono=mono)
                    inp = hist.op_inputs(spec, op, s.k())
                    raw = []
                    out = s.op(ctx, op, inp, raw)
                    ctx.stats['fits refused: cost increased'] += 1
                if not out.ok and refused(ctx, spec, out.exc, '%s fit, budget %d' % (kind, T)):
                    return
            c, sc = fits.cost_now(spec, s, inp.pos[0], fits.exog(inp), raw[0])
            if T == 1 and fits.has_start(spec, inp.kw) and feasible_tv(spec, inp.kw['weights']):
                c0 = fits.start_cost(spec, inp.kw, inp.pos[0], fits.exog(inp))
                prev = (c0, max(sc, abs(c0)))
            if prev is not None:
                ctx.nontrivial = True
                if c > prev[0] + allowance(spec, max(sc, prev[1])):
                    raise core.Violation('cost-rose', '%s: cost %.17g after iteration %d, %.17g '
                                         'after iteration %d' % (kind, prev[0], T - 1, c, T))
                ctx.mark(T, c < prev[0])
            ctx.log('budget', T, '%.12g' % c)
            prev = (c, sc)
        ctx.mark(kind, core.digest({'c': np.round(prev[0], 6)})[:8])
        return
    srv = pristine.Server(ctx)
    mono = (None, False, True)[plan['mono']]
    state = None
    prev = None
    same = None
    for i, seg in enumerate(plan['segments']):
        at = None
        if seg.get('fault'):
            at = srv(seg_profile, spec, seg, op, state, mono)
        if seg['where'] == 'process':
            r = srv(segment, spec, seg, op, state, mono, at, None)
        else:
            if seg['where'] == 'new' or same is None:
                same = fits.session(spec, mi=seg['T'], mono=mono)
            r = segment(ctx, spec, seg, op, state, mono, at, same)
        status, st, c, sc, extra = r
        what = '%s segment %d (budget %d, %s)' % (kind, i, seg['T'], seg['where'])
        ctx.log(what, status, None if c is None else '%.12g' % c, str(extra))
        ctx.mark(kind, seg['T'], seg['where'], status, str(extra) if status == 'aborted' else '')
        if status == 'aborted':
            ctx.stats['segments lost to a crash'] += 1
            continue
        if status == 'failed':
            if refused(ctx, spec, extra, what):
                # its word is not taken: the same segment without the check, costs judged
                s = fits.session(spec, mi=seg['T'], mono=False)
                status, st, c, sc, extra = segment(ctx, spec, seg, op, state, False, None, s)
                if status != 'done':
                    srv.close()
                    return
                same = None
        if prev is None:
            inp = hist.op_inputs(spec, op, spec['o']['k'])
            if feasible_tv(spec, inp.kw['weights']):
                c0 = fits.start_cost(spec, inp.kw, inp.pos[0], fits.exog(inp))
                prev = (c0, max(sc, abs(c0)))
        if prev is not None:
            ctx.nontrivial = True
            if c > prev[0] + allowance(spec, max(sc, prev[1])):
                raise core.Violation('cost-rose', '%s: cost %.17g, but %.17g was saved at the end '
                                     'of the last completed segment' % (what, c, prev[0]))
            ctx.mark(c < prev[0])
        prev = (c, sc)
        state = st
        ctx.stats['segments completed'] += 1
    srv.close()
