"""C14: forecasts follow the fitted transition model."""
import copy

import numpy as np

from sim import core, hist, oracles, world

BUDGET = {'quick': (7600, 130), 'thorough': (60800, 1500)}
RULE = ('one run = a history of 2-8 fits, transforms, reconstructions and forecasts on one '
        'transition model, some aborted midway or malformed, interleaved with calls on other '
        'models of other lags (between calls, or at a random event inside a call, as a signal '
        'handler would), the caller reusing the lags array; every forecast is compared with the '
        'recursion computed from the fitted attributes and the transform of the same data; '
        'non-trivial: a forecast with horizon > 0 judged; distinct: by lags, horizon, components, '
        'series length and history')
REAL = ['reor', 'numpy']
STUB = ['clock', 'stdout', 'generator seeding']
ASSUMPTIONS = ['forecasts to 1e-9 of the dictionary scale',
               'the supplied generator is reset before the forecast and before the transform it '
               'is compared with', 'no judgement between an aborted fit and the next complete one']

LAGS = (None, [1], [2], [1, 2], [2, 1], [1, 3], [3, 1], [3], [1, 2, 3], [2, 4],
        [1, 3, 2], [2, 3, 1], [2, 4, 1])


def gen(rng, tier):
    spec = world.gen_spec(rng, rng.choice(['crom', 'mtd']))
    o = spec['o']
    o['k'] = rng.choice([1, 2, 2, 3, 3, 4])
    o['lags'] = copy.copy(rng.choice(LAGS))
    o['mi'] = rng.choice([1, 2, 4, 10])
    o['verbose'] = 0
    ops = []
    d = None
    m = max(o['lags'] or [1])
    for i in range(rng.randint(2, 8)):
        if d is None or rng.random() < 0.25:
            d = hist.fit_data(rng, spec, prev=d)
            op = world.gen_op(rng, spec, d, force='fit')
        else:
            op = world.gen_op(rng, spec, d, force=rng.choice(
                ['predict', 'predict', 'predict', 'transform', 'inverse']))
            if op['o'] == 'predict':
                op['h'] = rng.choice([0, 1, 1, 2, 3, 4, 6, 15])
                if rng.random() < 0.04:
                    op['h'] = rng.choice([25, 33, 50, 80, 130])
                if rng.random() < 0.35:
                    n = rng.choice([m, m, m + 1, max(1, m - 1), 1, 2])
                    op['d'] = world.gen_data(rng, n=n, d=d['d'])
        r = rng.random()
        if r < 0.15:
            op['fault'] = hist.gen_fault(rng, spec, op, ('abort',))
        elif r < 0.2:
            op['bad'] = rng.choice(hist.BAD)
        r = rng.random()
        if r < 0.35:
            other = world.gen_spec(rng, rng.choice(['crom', 'mtd']))
            oo = other['o']
            oo['k'] = rng.choice([1, 2, 3])
            oo['lags'] = copy.copy(rng.choice(LAGS))
            oo['mi'], oo['verbose'] = 2, 0
            dd = hist.fit_data(rng, other)
            ops2 = [world.gen_op(rng, other, dd, force='fit')]
            if rng.random() < 0.6:
                ops2.append(world.gen_op(rng, other, dd, force='predict'))
            op['other'] = {'spec': other, 'ops': ops2,
                           'u': [round(rng.random(), 6), round(rng.random(), 6)]
                           if rng.random() < 0.5 and not op.get('fault') and not op.get('bad')
                           else None, 'same_lags': int(rng.random() < 0.3)}
        elif r < 0.42:
            op['scribble'] = rng.randint(1, 5)
        ops.append(op)
    return {'spec': spec, 'ops': ops, 'aslist': int(rng.random() < 0.4)}


def run_other(ctx, other, lags):
    """Another model living in the same process."""
    spec = other['spec']
    rs = np.random.RandomState(1)
    model = None
    if other['same_lags'] and lags is not None and max(lags) < 4:
        model = world.build(spec, rs, lags=lags)
    s = world.Session(spec, model=model, rs=rs)
    try:
        for op in other['ops']:
            world.invoke(s.model, spec, op, world.prepare(spec, op, s.k()))
    except (ValueError, RuntimeError):
        pass
    ctx.stats['calls on other models'] += len(other['ops'])


def forecast(lags, ow, P, W, h):
    m = max(lags)
    out = np.full_like(W, np.nan)
    for t in range(m - 1, len(W)):
        hist_ = [W[t - i] for i in range(m)]        # most recent first
        for _ in range(h):
            z = np.zeros(W.shape[1])
            for i, lag in enumerate(lags):
                z = z + ow[i] * np.asarray(P[i]).dot(hist_[lag - 1])
            hist_ = [z] + hist_[:-1]
        out[t] = hist_[0]
    return out


def run(ctx, plan):
    spec = plan['spec']
    kind, o = spec['kind'], spec['o']
    lags = o['lags']
    mine = None             # the caller's own lags object, given to several models
    if lags is not None:
        mine = list(lags) if plan['aslist'] and kind == 'mtd' else np.array(lags, dtype='i8')
    rs = np.random.RandomState(0)
    sess = world.Session(spec, model=world.build(spec, rs, lags=mine), rs=rs)
    r = hist.Runner(ctx, spec, session=sess)
    lags = lags or [1]
    for i, op in enumerate(plan['ops']):
        if op['o'] != 'fit' and r.last_fit is None:
            continue
        what = '%s call %d (%s)' % (kind, i, op['o'])
        was = r.last_fit
        inp = hist.op_inputs(spec, op, r.s.k())
        if op.get('scribble') and mine is not None:
            mine[:] = [op['scribble']] * len(mine)
            ctx.stats['lags array overwritten by the caller'] += 1
        raw, kw = [], {}
        other = op.get('other')
        if other and other['u']:
            base = [was] if op['o'] != 'fit' else []
            clean = {k: v for k, v in op.items() if k != 'fault'}
            _, at, _ = r.ref(hist.ref_run, spec, base + [clean], tuple(other['u']))
            if at is not None:
                kw['hooks'] = {at: lambda: run_other(ctx, other, mine)}
                ctx.stats['calls interrupted by calls on another model'] += 1
        elif other:
            run_other(ctx, other, mine)
        out = r.do(op, inp, raw, **kw)
        if not out.ok:
            if op['o'] != 'fit':
                r.last_fit = was
            if hist.unexpected(op, out) is not None and not (
                    isinstance(out.exc, RuntimeError) and 'cost increased' in str(out.exc)):
                raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
            continue
        if op.get('bad') or op['o'] != 'predict':
            continue
        model = r.s.model
        D = np.asarray(model.dictionary_, dtype=float)
        ow = np.asarray(model.order_weights, dtype=float)
        P = np.asarray(model.transition_matrices, dtype=float)
        F = np.asarray(raw[0], dtype=float)
        Xc = hist.op_inputs(spec, op, r.s.k()).pos[0]
        rs.seed(op['rs'])
        W = np.asarray(model.transform(Xc), dtype=float)
        scale = np.abs(D).max() + 1e-300
        if F.shape != (len(Xc), D.shape[1]):
            raise core.Violation('wrong-forecast', '%s: shape %s' % (what, F.shape))
        h = op['h']
        if h == 0:
            ref = W.dot(D)
        else:
            ref = forecast(lags, ow, P, W, h)
            for t in range(len(ref)):
                if not np.isnan(ref[t]).any():
                    if abs(ref[t].sum() - 1) > 1e-7 or ref[t].min() < -1e-9:
                        raise core.Violation('not-convex', '%s: forecast weights %s' % (
                            what, core.short(ref[t])))
            ref = ref.dot(D)
            ctx.nontrivial = ctx.nontrivial or len(Xc) >= max(lags)
        nan = np.isnan(F)
        want = np.isnan(ref)
        if not np.array_equal(nan, want):
            raise core.Violation('wrong-missing', '%s: horizon %d, lags %s, %d samples: missing '
                                 'samples %s, expected the first %d' % (
                                     what, h, lags, len(Xc), np.flatnonzero(nan.any(axis=1)),
                                     0 if h == 0 else max(lags) - 1))
        e = np.abs(F - ref)[~want]
        if e.size and e.max() > 1e-9 * scale:
            t = int(np.nanargmax(np.abs(F - ref).max(axis=1)))
            raise core.Violation('wrong-forecast', '%s: horizon %d, lags %s, sample %d of %d: %s, '
                                 'model gives %s' % (what, h, lags, t, len(Xc), core.short(F[t]),
                                                     core.short(ref[t])))
        lo, hi = D.min(axis=0) - 1e-8 * scale, D.max(axis=0) + 1e-8 * scale
        if F[~nan.any(axis=1)].size and not np.all(
                (F[~nan.any(axis=1)] >= lo) & (F[~nan.any(axis=1)] <= hi)):
            raise core.Violation('not-convex', '%s: forecast outside the dictionary' % what)
        ctx.mark(kind, lags, h, D.shape[0], len(Xc), op.get('bad'), bool(other))
    r.close()
