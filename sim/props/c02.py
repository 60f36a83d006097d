"""C02: only the declared random source is consumed."""
import random

import numpy as np

from sim import core, hist, pristine, world

BUDGET = {'quick': (5400, 130), 'thorough': (43200, 1500)}
LAYOUTS = True
RULE = ('one run = construction of a model and 1-5 calls (some aborted or rejected) with an integer '
        'seed, a generator object, or nothing (process-wide generator), executed twice with '
        'different process-wide states; states of the process-wide generators (numpy, random) and '
        'of the supplied generator compared bit by bit before, after and between executions; '
        'non-trivial: at least one call completed; distinct: by model, seed mode, calls, outcomes')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS', 'scikit-learn']
STUB = ['clock', 'stdout', 'user kernel / clusterer / classifier objects']
ASSUMPTIONS = ['aborts strike at line boundaries of reor code, not inside numpy/scipy/cvxpy']


def gen(rng, tier):
    spec = world.gen_spec(rng)
    ops = hist.gen_history(rng, spec, rng.randint(1, 5), p_fault=0.2, p_bad=0.1,
                           fault_kinds=('abort',))
    return {'spec': spec, 'ops': ops, 'mode': rng.choice(['int', 'rs', 'rs', 'none', 'module']),
            's': rng.randrange(10 ** 6), 'g': [rng.randrange(10 ** 6), rng.randrange(10 ** 6)]}


def state(rs):
    s = rs.get_state()
    return (s[0], tuple(int(v) for v in s[1]), s[2], s[3], s[4])


def gstate():
    return state(np.random.mtrand._rand), random.getstate()


def sequence(ctx, plan, g, ats, judge):
    """One execution.  Returns outcomes and generator end states after each call."""
    mode, spec = plan['mode'], plan['spec']
    own = mode in ('int', 'rs')
    np.random.seed(g)
    np.random.random(g % 7)
    random.seed(g)
    if not own:
        np.random.seed(plan['s'])
    before = gstate()
    rs = None
    if mode == 'int':
        s = world.Session(spec, rs=plan['s'])
    elif mode == 'rs':
        rs = np.random.RandomState(plan['s'])
        s = world.Session(spec, rs=rs)
    else:
        s = world.Session(spec, model=world.build(
            spec, None if mode == 'none' else np.random), rs=0)
    res = []
    fitted = False

    def check(what):
        now = gstate()
        if own and now[0] != before[0]:
            raise core.Violation('global-state-touched', '%s advanced numpy\'s process-wide '
                                 'generator although random_state was given as %s' % (
                                     what, 'an integer' if mode == 'int' else 'a generator'))
        if now[1] != before[1]:
            raise core.Violation('python-random-touched', what + ' advanced the generator of the '
                                 'random module')
    if judge:
        check('constructing ' + spec['kind'])
    for i, op in enumerate(plan['ops']):
        if op['o'] != 'fit' and not fitted:
            res.append(None)
            continue
        inp = hist.op_inputs(spec, op, s.k())
        kw = {}
        if ats[i]:
            kw['abort'] = (ats[i], op['fault']['e'])
        o = s.op(ctx, op, inp, reseed=False, **kw)
        if op['o'] == 'fit':
            fitted = o.ok and not op.get('bad')
        if judge:
            check('%s call %d (%s)' % (spec['kind'], i, op['o']))
        o.rec = None
        o.exc = hist.strip(o.exc)
        o.fired = hist.strip(o.fired)
        src = rs if mode == 'rs' else (None if mode == 'int' else np.random.mtrand._rand)
        res.append((o, state(src) if src is not None else None))
    return res


def run(ctx, plan):
    srv = pristine.Server(ctx)
    spec = plan['spec']
    ats = []
    last = None
    for op in plan['ops']:
        f = op.get('fault')
        at = None
        if f and not (op['o'] != 'fit' and last is None):
            clean = {k: v for k, v in op.items() if k != 'fault'}
            base = [last] if op['o'] != 'fit' else []
            try:
                at = srv(profile, spec, base + [clean], (f['u1'], f['u2']))
            except (core.HarnessError, core.Violation):     # the base is refused
                at = 10
        ats.append(at)
        if op['o'] == 'fit':
            last = None if (f or op.get('bad')) else op
    ref = srv(sequence, plan, plan['g'][0], ats, False)
    res = sequence(ctx, plan, plan['g'][1], ats, True)
    for i, (a, b) in enumerate(zip(res, ref)):
        what = '%s call %d (%s), random_state %s' % (spec['kind'], i, plan['ops'][i]['o'],
                                                     plan['mode'])
        if (a is None) != (b is None):
            raise core.Violation('undeclared-randomness', what)
        if a is None:
            continue
        ctx.log(what, a[0].brief())
        ctx.mark(spec['kind'], plan['mode'], plan['ops'][i]['o'], a[0].brief()[:8], a[0].fired_loc)
        if a[0].ok:
            ctx.nontrivial = True
        hist.check_outcome('undeclared-randomness', what + ': same declared source, other '
                           'process-wide state', a[0], b[0])
        if a[1] != b[1]:
            raise core.Violation('generator-state', what + ': equal calls left equal generators in '
                                 'different states')
    srv.close()


def profile(ctx, spec, ops, pick):
    return hist.ref_run(ctx, spec, ops, pick)[1]
