"""C16: errors and interrupts always reach the caller; retries then succeed."""
from sim import core, hist, solver, world

BUDGET = {'quick': (3900, 130), 'thorough': (31200, 1500)}
LAYOUTS = True
RULE = ('one run = one history of 2-5 calls, most of them struck by one injected exception (any '
        'library line, n-th write of progress output, n-th call of kernel function, clusterer, '
        'classifier, LP solver or least-squares routine); the very same exception object must '
        'leave the call, and the retried call must give the fault-free result; non-trivial: a '
        'fault fired; distinct: by model, call, outcome and code location')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + HIGHS', 'scikit-learn']
STUB = ['clock', 'stdout', 'user kernel / clusterer / classifier objects',
        'LP solver front end (raises, else HIGHS)']
ASSUMPTIONS = ['exceptions are injected at line boundaries of reor code and at the seams']


def gen(rng, tier):
    spec = world.gen_spec(rng)
    o = spec['o']
    if rng.random() < 0.35:
        if 'verbose' in o:
            o['verbose'] = 1
    if spec['kind'] in world.FEMBV and rng.random() < 0.6:
        o['simsolver'] = 1
        o['k'] = max(2, o['k'] or 2) if not isinstance(o.get('memory'), list) else o['k']
    if spec['kind'] == 'aa' and rng.random() < 0.5:
        o['kernel'] = rng.choice(['linear', 'rbf'])
    if spec['kind'] == 'pwv' and rng.random() < 0.5:
        o['clusterer'] = 'stub'
        o['classifier'] = rng.choice(['stub', 'memory'])
    d = hist.fit_data(rng, spec)
    ops = []
    fit = world.gen_op(rng, spec, d, force='fit')
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.55:
            op = dict(fit) if rng.random() < 0.6 else world.gen_op(
                rng, spec, hist.fit_data(rng, spec, prev=d), force='fit')
            if op['d'] != d:
                d = op['d']
                fit = op
        else:
            if not any(x['o'] == 'fit' for x in ops):
                ops.append(dict(fit))
            op = world.gen_op(rng, spec, d, force=rng.choice(world.QUERIES[spec['kind']]))
        op = dict(op)
        op['fault'] = hist.gen_fault(rng, spec, op)
        ops.append(op)
        if op['o'] == 'fit':
            # after an aborted fit the object has no fitted state: retry
            retry = {k: v for k, v in op.items() if k != 'fault'}
            retry['retry'] = 1
            ops.append(retry)
        elif rng.random() < 0.7:
            retry = {k: v for k, v in op.items() if k != 'fault'}
            retry['retry'] = 1
            ops.append(retry)
    return {'spec': spec, 'ops': ops}


def run(ctx, plan):
    spec = plan['spec']
    solver.reset(ctx)
    sess = world.Session(spec)
    r = hist.Runner(ctx, spec, sess)
    for i, op in enumerate(plan['ops']):
        if op['o'] != 'fit' and r.last_fit is None:
            continue
        what = '%s call %d (%s)' % (spec['kind'], i, op['o'])
        out = r.do(op)
        if out.fired is not None:
            ctx.nontrivial = True
            where = out.fired_loc or op['fault']
            if out.ok:
                raise core.Violation('fault-swallowed', '%s completed normally although %r was '
                                     'raised at %s' % (what, out.fired, where))
            if out.exc is not out.fired:
                raise core.Violation('fault-replaced', '%s: %r was raised at %s but the caller got '
                                     '%r' % (what, out.fired, where, out.exc))
        else:
            ref, _ = r.reference(op)
            hist.check_outcome('retry-differs' if op.get('retry') else 'call-differs',
                               what + ' vs the same call without any faults before', out, ref)
    r.close()
