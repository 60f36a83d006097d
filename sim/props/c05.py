"""C05: queries leave the fitted model unchanged and depend on nothing but the fit."""
from sim import core, hist, world

BUDGET = {'quick': (3700, 130), 'thorough': (29600, 1500)}
LAYOUTS = True
RULE = ('one run = one fit followed by 2-6 queries on one object (some aborted at an injected '
        'instant, some rejected, some failing in a component); fitted parameters compared exactly '
        'after each, answers compared with a fresh fit + that single query in a pristine process; '
        'non-trivial: at least two queries were judged; distinct: by model, calls, outcomes and '
        'abort locations')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS', 'scikit-learn']
STUB = ['clock', 'stdout', 'user kernel / clusterer / classifier objects']
ASSUMPTIONS = ['aborts strike at line boundaries of reor code, not inside numpy/scipy/cvxpy']


def gen(rng, tier):
    spec = world.gen_spec(rng)
    d = hist.fit_data(rng, spec)
    ops = [world.gen_op(rng, spec, d, force='fit')]
    for _ in range(rng.randint(2, 6)):
        op = world.gen_op(rng, spec, d, force=rng.choice(world.QUERIES[spec['kind']]))
        r = rng.random()
        if r < 0.35:
            op['fault'] = hist.gen_fault(rng, spec, op)
        elif r < 0.45:
            op['bad'] = rng.choice(hist.BAD)
        ops.append(op)
        if rng.random() < 0.08:
            d = hist.fit_data(rng, spec, prev=d)
            ops.append(world.gen_op(rng, spec, d, force='fit'))
    hist.add_sets(rng, spec, ops)
    return {'spec': spec, 'ops': ops}


def run(ctx, plan):
    spec = plan['spec']
    r = hist.Runner(ctx, spec)
    judged = 0
    snap = None
    for i, op in enumerate(plan['ops']):
        what = '%s call %d (%s)' % (spec['kind'], i, op['o'])
        out = r.do(op)
        if op['o'] == 'fit':
            if not out.ok:
                break
            snap = r.s.params()
            if core.diff(snap, {k: v for k, v in out.values.items() if k in snap}):
                raise core.Violation('params-unstable', what)
            continue
        if r.last_fit is None:
            continue
        judged += 1
        d = core.diff(r.s.params(), snap, exact=True)
        if d:
            raise core.Violation('query-changed-fit', '%s %s, and changed the fitted model: %s' % (
                what, out.brief() + (' at %s' % out.fired_loc if out.fired_loc else ''), d))
        if out.fired is None:
            ref, _ = r.reference(op)
            hist.check_outcome('query-answer-depends-on-history', what +
                               ' vs the same query alone after the same fit', out, ref)
    ctx.nontrivial = judged >= 2
    r.close()
