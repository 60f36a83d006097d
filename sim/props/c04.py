"""C04: a fit does not depend on the past of the object."""
from sim import core, hist, world

BUDGET = {'quick': (4000, 130), 'thorough': (32000, 1500)}
LAYOUTS = True
RULE = ('one run = one history of 2-7 calls on one object (fits on data of other sizes, queries, '
        'rejected calls, calls aborted at an injected instant or by a failing component), each '
        'successful fit compared with a fresh object in a pristine process; non-trivial: a '
        'compared fit had at least one earlier call; distinct: by model, call kinds, outcomes and '
        'code locations of the aborts')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS', 'scikit-learn']
STUB = ['clock', 'stdout', 'user kernel / clusterer / classifier objects']
ASSUMPTIONS = ['aborts strike at line boundaries of reor code, not inside numpy/scipy/cvxpy']


def gen(rng, tier):
    spec = world.gen_spec(rng)
    ops = hist.gen_history(rng, spec, rng.randint(1, 5), p_fault=0.4, p_bad=0.15,
                           first_fit=rng.random() < 0.8)
    d = hist.fit_data(rng, spec)
    if rng.random() < 0.3 and ops:
        prev = [o['d'] for o in ops if o['o'] == 'fit']
        if prev:
            d = dict(prev[-1], s=rng.choice([prev[-1]['s'], rng.randrange(10 ** 6)]))
    fin = world.gen_op(rng, spec, d, force='fit')
    if rng.random() < 0.08:
        # the last fit goes without something which the earlier ones may have been given
        fin['bad'] = 'omit'
    q = world.gen_op(rng, spec, d, force=rng.choice(world.QUERIES[spec['kind']]))
    hist.add_sets(rng, spec, ops + [fin, q])
    return {'spec': spec, 'ops': ops + [fin, q]}


def run(ctx, plan):
    spec = plan['spec']
    r = hist.Runner(ctx, spec)
    done = 0
    for i, op in enumerate(plan['ops']):
        had_fit = r.last_fit
        out = r.do(op)
        what = '%s call %d (%s)' % (spec['kind'], i, op['o'])
        if out.fired is not None:
            if out.ok:
                raise core.Violation('fault-swallowed', '%s: completed although %r was raised at '
                                     '%s' % (what, out.fired, out.fired_loc))
        elif op['o'] == 'fit':
            ref, _ = r.reference(op)
            if not ref.ok and not op.get('bad'):
                ctx.stats['valid fits refused by fresh objects too'] += 1
            hist.check_outcome('fit-depends-on-past', what + ' on a used object vs a fresh one',
                               out, ref)
            if done:
                ctx.nontrivial = True
        elif had_fit is not None and i == len(plan['ops']) - 1:
            ref, _ = r.reference(op)
            hist.check_outcome('query-after-fit-depends-on-past', what, out, ref)
        done += 1
    r.close()
