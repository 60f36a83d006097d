"""C15: piecewise models match the regimes their classifier assigns."""
import numpy as np

from sim import core, hist, world

BUDGET = {'quick': (7600, 130), 'thorough': (60800, 1500)}
RULE = ('one run = a history of 1-6 fits and labellings of one ClusterPWVARX whose clusterer and '
        'classifier answer arbitrary labels (empty, single-sample and rank-deficient regimes) and '
        'fail at random calls, as do the least-squares routine and arbitrary library lines; '
        'coefficients, residuals and covariances are recomputed per regime from the labels the '
        'classifier answered; non-trivial: two regimes judged, or a component failed; distinct: '
        'by orders, components, labels and failures')
REAL = ['reor', 'numpy', 'scikit-learn KMeans, SVC, KNeighborsClassifier']
STUB = ['clusterer / classifier with planned labels or failures', 'least-squares seam (failures)',
        'clock', 'stdout']
ASSUMPTIONS = ['least-squares objective to 1e-7 of its scale', 'covariance judged for regimes with '
               'more samples than coefficients', 'classifiers are deterministic functions']


def gen(rng, tier):
    spec = world.gen_spec(rng, 'pwv')
    o = spec['o']
    o['rec'] = 1
    o['k'] = rng.choice([1, 2, 2, 3, 4])
    o['p'] = rng.choice([1, 1, 2, 3])
    o['s'] = rng.choice([0, 0, 1, 2, 3])
    o['q'] = rng.choice([1, 2]) if o['s'] and rng.random() < 0.85 else rng.choice([0, 0, 1])
    if o['s'] and o['q'] and rng.random() < 0.12:
        o['p'] = 0
    o['clusterer'] = rng.choice([None, 'kmeans', 'stub', 'stub', 'stub'])
    o['classifier'] = rng.choice([None, 'knn', 'svc', 'stub', 'memory', 'memory', 'hash', 'hash'])
    if o['k'] == 1 and o['classifier'] in (None, 'svc'):
        o['classifier'] = 'memory'
    o['labels'] = [rng.randrange(o['k']) for _ in range(rng.randint(o['k'], 13))]
    if o['classifier'] in (None, 'svc') or rng.random() < 0.5:
        o['labels'][:o['k']] = range(o['k'])
    if o['clusterer'] == 'stub' and o['classifier'] not in (None, 'svc'):
        o['ldata'] = int(rng.random() < 0.5)
    if rng.random() < 0.25:
        # labels that do not run from zero, or are not integers
        o['off'] = rng.choice([-1, 1, 1])
        if o['classifier'] in (None, 'svc', 'knn') and o['clusterer'] == 'stub':
            o['labels'] = [v + o['off'] for v in o['labels']]
    if rng.random() < 0.15:
        o['ldt'] = rng.choice(['f8', 'i4', 'u1' if o.get('off', 0) >= 0 else 'i2'])
    o['coef'] = [round(rng.uniform(-1.5, 1.5), 2) for _ in range(3)]
    o['nd1'] = int(rng.random() < 0.2)
    ops = []
    d = None
    for i in range(rng.randint(1, 6)):
        if d is None or rng.random() < 0.45:
            d = hist.fit_data(rng, spec, prev=d, hi=40)
            d['n'] = max(d['n'], 14)
            op = world.gen_op(rng, spec, d, force='fit')
        else:
            op = world.gen_op(rng, spec, d, force='transform')
            if rng.random() < 0.5:
                op['d'] = dict(d)
        if not o['p']:
            op['d'].pop('nou', None)
        r = rng.random()
        if r < 0.35:
            op['fault'] = hist.gen_fault(rng, spec, op)
        elif r < 0.4:
            op['bad'] = rng.choice(hist.BAD)
        ops.append(op)
        if op.get('fault'):
            ops.append(dict({k: v for k, v in op.items() if k != 'fault'}, retry=1))
    return {'spec': spec, 'ops': ops}


def regressors(o, Y, U):
    m = max(o['p'], o['s'])
    n = len(Y)
    cols = [Y[m - i:n - i] for i in range(1, o['p'] + 1)]
    if U is not None and o['s'] > 0:
        cols += [U[m - i:n - i] for i in range(1, o['s'] + 1)]
    return np.hstack(cols), Y[m:]


def predict(o, model, j, Y, U):
    """One-step predictions of regime j from its fitted attributes."""
    m = max(o['p'], o['s'])
    out = np.zeros((len(Y) - m, Y.shape[1]))
    for t in range(m, len(Y)):
        v = np.zeros(Y.shape[1])
        if o['trend']:
            v = v + np.asarray(model.mu)[j]
        for i in range(1, o['p'] + 1):
            v = v + np.asarray(model.A)[j, i - 1].dot(Y[t - i])
        if U is not None and o['s'] > 0:
            for i in range(1, o['s'] + 1):
                v = v + np.asarray(model.B)[j, i - 1].dot(U[t - i])
        out[t - m] = v
    return out


def column(a):
    a = np.asarray(a, dtype=float)
    return a[:, None] if a.ndim == 1 else a


def judge(spec, model, labels, Y, U, what):
    o = spec['o']
    Y = column(Y)
    U = None if U is None or not o['s'] else column(U)
    x, y = regressors(o, Y, U)
    labels = np.asarray(labels)
    if labels.shape != (len(y),):
        raise core.Violation('labels', '%s: %s labels for %d samples after the lags' % (
            what, labels.shape, len(y)))
    res = np.asarray(model.residuals, dtype=float)
    if res.shape != y.shape:
        raise core.Violation('residuals', '%s: residuals %s for data %s' % (
            what, res.shape, y.shape))
    judged = 0
    sc = (y * y).sum() + 1e-300
    for j in range(o['k']):
        mask = labels == j
        nj = int(mask.sum())
        if nj == 0:
            continue
        judged += 1
        got = y[mask] - predict(o, model, j, Y, U)[mask]
        size = np.abs(y).max() + np.abs(predict(o, model, j, Y, U)[mask]).max() + 1e-300
        if not np.all(np.isfinite(got)):
            raise core.Violation('not-finite', '%s: coefficients of regime %d' % (what, j))
        if np.abs(got - res[mask]).max() > 1e-7 * size:
            raise core.Violation('residuals', '%s: residuals of regime %d are %s, its '
                                 'coefficients give %s' % (what, j, core.short(res[mask]),
                                                           core.short(got)))
        Z = np.hstack([np.ones((nj, 1)), x[mask]]) if o['trend'] else x[mask]
        q = np.linalg.lstsq.real(Z, y[mask], rcond=None)[0]
        best = ((y[mask] - Z.dot(q)) ** 2).sum()
        if (got ** 2).sum() > best + 1e-7 * sc:
            raise core.Violation('not-least-squares', '%s: regime %d (%d samples) has squared '
                                 'error %.9g, least squares gives %.9g' % (
                                     what, j, nj, (got ** 2).sum(), best))
        df = nj - Z.shape[1]
        if df > 0:
            S = got.T.dot(got) / df
            if np.abs(np.asarray(model.Sigma_u)[j] - S).max() > 1e-6 * (sc / df):
                raise core.Violation('covariance', '%s: regime %d: %s, residuals give %s' % (
                    what, j, core.short(model.Sigma_u[j]), core.short(S)))
    return judged


def run(ctx, plan):
    spec = plan['spec']
    o = spec['o']
    r = hist.Runner(ctx, spec)
    model = r.s.model
    for i, op in enumerate(plan['ops']):
        if op['o'] != 'fit' and r.last_fit is None:
            continue
        was = r.last_fit
        what = 'pwv call %d (%s)' % (i, op['o'])
        inp = hist.op_inputs(spec, op, r.s.k())
        raw = []
        out = r.do(op, inp, raw)
        if not out.ok:
            if op['o'] != 'fit':
                r.last_fit = was
            if out.fired is not None:
                ctx.nontrivial = True
                if out.exc is not out.fired:
                    raise core.Violation('wrong-error', '%s: component raised %r, caller got %r' % (
                        what, out.fired, out.exc))
            elif hist.unexpected(op, out) is not None:
                raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
            continue
        if out.fired is not None:
            raise core.Violation('error-swallowed', '%s completed although %r was raised' % (
                what, out.fired))
        if op.get('bad'):
            if op['o'] != 'fit':
                r.last_fit = was
            continue
        clean = hist.op_inputs(spec, op, r.s.k())
        Y, U = clean.pos[0], clean.kw.get('exog')
        labels = raw[0] if isinstance(raw[0], np.ndarray) else None
        if labels is None and op['o'] == 'fit' and isinstance(model.classifier, world.Recorder):
            labels = model.classifier.last
        kw = {'exog': U} if U is not None else {}
        again = np.asarray(model.transform(Y, **kw))
        if labels is None:
            labels = again
        m = max(o['p'], o['s'])
        if np.shape(labels) != (len(Y) - m,):
            raise core.Violation('labels', '%s: %s labels for %d samples with %d lags' % (
                what, np.shape(labels), len(Y), m))
        if not np.array_equal(again, labels):
            raise core.Violation('labels', '%s: labels %s, labelling the same series again: %s' % (
                what, core.short(labels), core.short(again)))
        if isinstance(model.classifier, world.Recorder):
            if not np.array_equal(model.classifier.last, labels):
                raise core.Violation('labels', '%s: labels %s, the classifier answered %s' % (
                    what, core.short(labels), core.short(model.classifier.last)))
        if op['o'] == 'fit':
            n = judge(spec, model, labels, Y, U, what)
            if n > 1:
                ctx.nontrivial = True
            ctx.mark(o['p'], o['s'], o['q'], o['trend'], o['clusterer'], o['classifier'],
                     np.asarray(labels).tolist())
        if op.get('retry'):
            ref, _ = r.reference(op)
            hist.check_outcome('retry-differs', what + ' vs the same call without failure', out,
                               ref)
            ctx.stats['retries after a failure'] += 1
    r.close()
