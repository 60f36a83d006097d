"""C12: saved or copied models behave identically."""
import copy
import pickle

import numpy as np

from sim import core, hist, pristine, solver, world

BUDGET = {'quick': (4200, 130), 'thorough': (33600, 1500)}
LAYOUTS = True
RULE = ('one run = a history of 0-4 calls (some aborted midway), then the model and its generator '
        'are pickled or deep-copied; the original continues with other calls (possibly crashing '
        'in the middle of one) interleaved with calls on the copy, or the copy is restored in a '
        'new process; every outcome on copy and original is compared with an execution of the '
        'same history without any copying in a pristine process; non-trivial: the copy answered '
        'at least one call; distinct: by model, copy mode, calls and outcomes on both')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS', 'scikit-learn', 'pickle', 'copy']
STUB = ['clock', 'stdout', 'user kernel / clusterer / classifier objects']
ASSUMPTIONS = ['the supplied generator is saved together with the model',
               'aborts strike at line boundaries of reor code, not inside numpy/scipy/cvxpy']


def gen(rng, tier):
    spec = world.gen_spec(rng)
    n0 = rng.choice([0, 1, 1, 2, 3, 4])
    pre = hist.gen_history(rng, spec, n0, p_fault=0.3, p_bad=0.05, p_fit=0.5)
    fits = [o['d'] for o in pre if o['o'] == 'fit' and not o.get('bad')]
    d = fits[-1] if fits else None

    def more(n, p_fault):
        ops = []
        dd = d
        for _ in range(n):
            if dd is None or rng.random() < 0.45:
                dd = hist.fit_data(rng, spec, prev=dd)
                op = world.gen_op(rng, spec, dd, force='fit')
            else:
                op = world.gen_op(rng, spec, dd, force=rng.choice(world.QUERIES[spec['kind']]))
            if rng.random() < p_fault:
                op['fault'] = hist.gen_fault(rng, spec, op)
            ops.append(op)
        return ops
    A = more(rng.randint(0, 3), 0.35)
    B = more(rng.randint(1, 3), 0.15)
    hist.add_sets(rng, spec, pre, A, B)
    mode = rng.choice(['pickle', 'deepcopy', 'alone', 'process', 'twice'])
    order = [0] * len(A) + [1] * len(B)
    rng.shuffle(order)
    return {'spec': spec, 'mode': mode, 'seed': rng.choice(['int', 'rs', 'rs', 'none']),
            's': rng.randrange(1000), 'history': pre, 'A': {'ops': A}, 'B': {'ops': B},
            'order': order}


def new_session(spec, mode, seed):
    if mode == 'int':
        return world.Session(spec, rs=seed)
    if mode == 'none':      # the process-wide generator, seeded before every call
        return world.Session(spec, model=world.build(spec, None), rs=0)
    return world.Session(spec, rs=np.random.RandomState(seed))


def one(ctx, spec, s, op, state, at=None, mode='rs'):
    """Execute one operation on a session; returns (outcome or None, event index)."""
    if op['o'] != 'fit' and not state['fitted']:
        return None
    inp = hist.op_inputs(spec, op, s.k())
    f = op.get('fault')
    kw = {}
    if at is not None:
        kw['abort'] = (at, f['e'])
    elif f and f['t'] == 'stdout':
        kw['stdout'] = (f['n'], f['e'])
    elif f and f['t'] == 'comp':
        world.arm_component(f['c'], f['n'], f['e'])
    if mode == 'none':
        np.random.seed(op['rs'])
    out = s.op(ctx, op, inp, reseed=False, **kw)
    if f and f['t'] == 'comp':
        out.fired = world.component_fired()
        world.disarm_components()
    if op['o'] == 'fit':
        state['fitted'] = out.ok and not op.get('bad')
    out.rec = None
    out.exc = hist.strip(out.exc)
    out.fired = hist.strip(out.fired)
    if out.ok:
        out.values.update({'fitted.' + k: v for k, v in s.params().items()}
                          if state['fitted'] else {})
    return out


def sequence(ctx, spec, mode, seed, ops, ats):
    """Reference: the same history on one object that is never copied."""
    s = new_session(spec, mode, seed)
    st = {'fitted': False}
    return [one(ctx, spec, s, op, st, at, mode) for op, at in zip(ops, ats)]


def continue_in_new_process(ctx, spec, blob, fitted, ops, ats, mode):
    model, rs = pickle.loads(blob)
    s = world.Session(spec, model=model, rs=rs)
    st = {'fitted': fitted}
    return [one(ctx, spec, s, op, st, at, mode) for op, at in zip(ops, ats)]


def profile(ctx, spec, ops, pick):
    out, at, _ = hist.ref_run(ctx, spec, ops, pick)
    return at


def run(ctx, plan):
    spec, mode = plan['spec'], plan['seed']
    srv = pristine.Server(ctx)
    pre, A, B = plan['history'], plan['A']['ops'], plan['B']['ops']

    last = None

    def ats_for(ops, last):
        ats = []
        for op in ops:
            f = op.get('fault')
            if f and f['t'] == 'abort' and not (op['o'] != 'fit' and last is None):
                base = [last] if op['o'] != 'fit' else []
                clean = {k: v for k, v in op.items() if k != 'fault'}
                try:
                    ats.append(srv(profile, spec, base + [clean], (f['u1'], f['u2'])))
                except (core.HarnessError, core.Violation):     # the base is refused
                    ats.append(10)
            else:
                ats.append(None)
            if op['o'] == 'fit':
                last = None if (op.get('fault') or op.get('bad')) else op
        return ats, last
    ats0, last = ats_for(pre, None)
    ats_a, _ = ats_for(A, last)
    ats_b, _ = ats_for(B, last)

    s = new_session(spec, mode, plan['s'])
    st = {'fitted': False}
    for op, at in zip(pre, ats0):
        o = one(ctx, spec, s, op, st, at, mode)
        ctx.log('pre', op['o'], o.brief() if o else 'skipped')
        ctx.mark(op['o'], type(o.exc).__name__ if o else None, o.fired_loc if o else None)
    blob = None
    st2 = dict(st)
    rs2 = s.rs
    if plan['mode'] == 'deepcopy':
        model2, rs2 = copy.deepcopy((s.model, s.rs))
    elif plan['mode'] == 'alone':
        model2, rs2 = copy.deepcopy(s.model), 0     # the generator comes with the model
    else:
        blob = pickle.dumps((s.model, s.rs))
        if plan['mode'] == 'twice':
            blob = pickle.dumps(pickle.loads(blob))
        model2, rs2 = pickle.loads(blob)
    s2 = world.Session(spec, model=model2, rs=rs2)
    outs_a, outs_b = [], []
    order = list(plan['order'])
    if plan['mode'] == 'process':
        order = [x for x in order if x == 0] + [0] * (len(A) - order.count(0))
    order += [0] * (len(A) - order.count(0)) + [1] * (
        0 if plan['mode'] == 'process' else len(B) - order.count(1))
    ia = ib = 0
    for x in order:
        if x == 0 and ia < len(A):
            outs_a.append(one(ctx, spec, s, A[ia], st, ats_a[ia], mode))
            ia += 1
        elif x == 1 and ib < len(B):
            outs_b.append(one(ctx, spec, s2, B[ib], st2, ats_b[ib], mode))
            ib += 1
    if plan['mode'] == 'process':
        outs_b = srv(continue_in_new_process, spec, blob, st2['fitted'], B, ats_b, mode)
    ref_a = srv(sequence, spec, mode, plan['s'], pre + A, ats0 + ats_a)[len(pre):]
    ref_b = srv(sequence, spec, mode, plan['s'], pre + B, ats0 + ats_b)[len(pre):]
    for who, ops, outs, refs in (('the copy (%s)' % plan['mode'], B, outs_b, ref_b),
                                 ('the original after a copy was taken', A, outs_a, ref_a)):
        for i, (op, o, r) in enumerate(zip(ops, outs, refs)):
            ctx.log(who, op['o'], o.brief() if o else 'skipped')
            ctx.mark(who, op['o'], o and (type(o.exc).__name__, o.fired_loc))
            if (o is None) != (r is None):
                raise core.Violation('copy-differs', '%s call %d (%s) on %s: fitted state differs '
                                     'from an object that was never copied' % (
                                         spec['kind'], i, op['o'], who))
            if o is None:
                continue
            if who.startswith('the copy'):
                ctx.nontrivial = True
            hist.check_outcome('copy-differs' if who.startswith('the copy') else
                               'original-affected-by-copy',
                               '%s call %d (%s) on %s vs an object that was never copied' % (
                                   spec['kind'], i, op['o'], who), o, r)
    ctx.mark(plan['mode'], mode)
    ctx.stats['copies:' + plan['mode']] += 1
    srv.close()
