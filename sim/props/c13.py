"""C13: the Markov cluster model is a consistent Markov chain."""
import numpy as np

from sim import core, hist, oracles, world

BUDGET = {'quick': (13600, 130), 'thorough': (108800, 1500)}
RULE = ('one run = a history of 1-6 calls of the fit variants (fit, fit_predict, fit_transform), '
        'transform and predict on one KMeansMarkovCROM over visit sequences of places (never '
        'left, visited once, fewer places than clusters, ties), some calls aborted midway or '
        'malformed; after every call the attributes are recounted from the data; non-trivial: at '
        'least two visited clusters; distinct: by variants, visit pattern, transitions, horizon')
REAL = ['reor', 'numpy', 'scikit-learn']
STUB = ['clock', 'stdout', 'generator seeding']
ASSUMPTIONS = ['squared distances to 1e-7 of the data scale', 'attributes are not judged after a '
               'fit aborted midway until the next completed fit']


def gen_seq(rng, k):
    n = rng.randint(max(4, k + 1), 24)
    how = rng.choice(['random', 'random', 'markov', 'lastnew', 'block', 'few', 'once'])
    if how == 'few':
        k = max(1, k - rng.randint(1, 2))
    if how == 'block':
        seq = sorted(rng.randrange(k) for _ in range(n))
    elif how == 'markov':
        seq = [rng.randrange(k)]
        for _ in range(n - 1):
            seq.append(seq[-1] if rng.random() < 0.6 else rng.randrange(k))
    else:
        seq = [rng.randrange(k) for _ in range(n)]
    if how == 'lastnew' and k > 1:
        seq = [x % (k - 1) for x in seq[:-1]] + [k - 1]
    if how == 'once' and k > 1:
        seq = [x % (k - 1) for x in seq]
        seq[rng.randrange(n)] = k - 1
    return seq


def gen_d(rng, k, d=None):
    if rng.random() < 0.2:
        return world.gen_data(rng, lo=max(6, k + 2), hi=20, d=d)
    seq = gen_seq(rng, k)
    return {'s': rng.randrange(10 ** 6), 'n': len(seq), 'd': d or rng.choice([1, 2, 3]),
            'k': 'seq', 'seq': seq, 'cs': rng.randrange(1000), 'sp': rng.choice([5, 5, 5, 1, 100]),
            'nz': rng.choice([0, 0.01, 0.1, 0.1, 1]), 'lay': rng.choice(['C', 'F', 'S', 'R'])}


def gen(rng, tier):
    spec = world.gen_spec(rng, 'mkc')
    o = spec['o']
    o['k'] = rng.choice([None, 1, 2, 3, 3, 4, 5])
    k = o['k'] or 2
    ops = []
    d = None
    dim = rng.choice([1, 2, 3])
    for i in range(rng.randint(1, 6)):
        if d is None or rng.random() < 0.5:
            d = gen_d(rng, k, dim)
            op = world.gen_op(rng, spec, d, force='fit')
        else:
            op = world.gen_op(rng, spec, d, force=rng.choice(['predict', 'predict', 'transform']))
            if rng.random() < 0.6:
                op['d'] = gen_d(rng, k, d['d'])
            if op['o'] == 'predict':
                op['h'] = rng.choice([0, 0, 1, 1, 2, 3, 7, 40])
        r = rng.random()
        if r < 0.12:
            op['fault'] = hist.gen_fault(rng, spec, op, ('abort',))
        elif r < 0.2:
            op['bad'] = rng.choice(hist.BAD)
        ops.append(op)
    return {'spec': spec, 'ops': ops}


def sq(X, C):
    X = np.asarray(X, dtype=float)
    return ((X[:, None, :] - np.asarray(C, dtype=float)[None]) ** 2).sum(axis=2)


def judge_state(model, X, sw, what):
    X = np.asarray(X, dtype=float)
    C = np.asarray(model.cluster_centers_)
    lab = np.asarray(model.labels_)
    P = np.asarray(model.transition_matrix_)
    k = C.shape[0]
    scale = (X * X).sum(axis=1).max() + (C * C).sum(axis=1).max() + 1e-300
    if lab.shape != (len(X),):
        raise core.Violation('inconsistent', '%s: %s labels for %d samples' % (
            what, lab.shape, len(X)))
    D = sq(X, C)
    far = D[np.arange(len(X)), lab] - D.min(axis=1)
    # (scikit-learn stops right after it moved the centre of an empty cluster, so the labels of
    # such a fit need not be the nearest ones)
    if len(set(lab.tolist())) == k and far.max() > 1e-7 * scale:
        i = int(far.argmax())
        raise core.Violation('inconsistent', '%s: sample %d is labelled %d but centre %d is '
                             'closer (%s)' % (what, i, lab[i], D[i].argmin(), core.short(D[i])))
    w = np.ones(len(X)) if sw is None else np.asarray(sw, dtype=float)
    inertia = float((w * D[np.arange(len(X)), lab]).sum())
    if abs(inertia - model.inertia_) > 1e-7 * scale * w.sum():
        raise core.Violation('inconsistent', '%s: inertia %.12g, recomputed %.12g' % (
            what, model.inertia_, inertia))
    if P.shape != (k, k):
        raise core.Violation('inconsistent', '%s: %s transition matrix for %d clusters' % (
            what, P.shape, k))
    oracles.check_rows('columns of the transition matrix, ' + what, P.T, 1e-12, 1e-9)
    for j in range(k):
        starts = [t for t in range(len(lab) - 1) if lab[t] == j]
        if not starts:
            continue
        for i in range(k):
            f = sum(1 for t in starts if lab[t + 1] == i) / len(starts)
            if abs(P[i, j] - f) > 1e-9:
                raise core.Violation('not-empirical', '%s: transition %d -> %d is %.6g, labels '
                                     'show %.6g (labels %s)' % (what, j, i, P[i, j], f,
                                                                lab.tolist()))
    return lab, P


def run(ctx, plan):
    spec = plan['spec']
    r = hist.Runner(ctx, spec)
    model = r.s.model
    held = None                 # (X, sample weights) of the fit in force
    for i, op in enumerate(plan['ops']):
        if op['o'] != 'fit' and r.last_fit is None:
            continue
        was_fit = r.last_fit
        what = 'mkc call %d (%s)' % (i, ('fit', 'fit_predict', 'fit_transform')[op['ft']]
                                     if op['o'] == 'fit' else op['o'])
        inp = hist.op_inputs(spec, op, r.s.k())
        X, sw = np.array(inp.pos[0]) if isinstance(inp.pos[0], np.ndarray) else None, \
            inp.kw.get('sample_weight')
        raw = []
        out = r.do(op, inp, raw)
        if not out.ok:
            if hist.unexpected(op, out) is not None:
                raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
            if out.fired is not None and op['o'] == 'fit':
                held = None
            elif held is not None:
                judge_state(model, held[0], held[1], 'after rejected ' + what)
                r.last_fit = was_fit
            continue
        if op.get('bad'):
            held = None if op['o'] == 'fit' else held
            continue
        ret = raw[0]
        if op['o'] == 'fit':
            held = (X, None if sw is None else np.array(sw))
            lab, P = judge_state(model, held[0], held[1], what)
            if op['ft'] == 1 and not np.array_equal(ret, lab):
                raise core.Violation('inconsistent', '%s returned %s, labels_ %s' % (
                    what, core.short(ret), core.short(lab)))
            if len(set(lab.tolist())) > 1:
                ctx.nontrivial = True
            ctx.mark(op['ft'], lab.tolist(), spec['o']['k'])
        if held is None:
            continue
        C = np.asarray(model.cluster_centers_)
        Xf = np.asarray(X, dtype=float)
        D = sq(Xf, C)
        scale = (Xf * Xf).sum(axis=1).max() + (C * C).sum(axis=1).max() + 1e-300
        if op['o'] == 'transform' or op['o'] == 'fit' and op['ft'] == 2:
            if np.shape(ret) != D.shape or np.abs(np.asarray(ret) ** 2 - D).max() > 1e-6 * scale:
                raise core.Violation('wrong-distances', '%s: %s, distances %s' % (
                    what, core.short(ret), core.short(np.sqrt(D))))
        if op['o'] == 'predict':
            P = np.asarray(model.transition_matrix_)
            R = np.asarray(ret)
            if R.shape != D.shape:
                raise core.Violation('wrong-prediction', '%s: shape %s' % (what, R.shape))
            oracles.check_rows('prediction of ' + what, R, 1e-12, 1e-9)
            Ph = np.linalg.matrix_power(P, op['h'])
            for t in range(len(R)):
                near = np.flatnonzero(D[t] <= D[t].min() + 1e-7 * scale)
                if min(np.abs(R[t] - Ph[:, j]).max() for j in near) > 1e-8:
                    raise core.Violation('wrong-prediction', '%s: sample %d (nearest centre %s) '
                                         'horizon %d: %s, chain gives %s' % (
                                             what, t, near, op['h'], core.short(R[t]),
                                             core.short(Ph[:, near[0]])))
            ctx.mark('predict', op['h'], D.argmin(axis=1).tolist())
        judge_state(model, held[0], held[1], 'after ' + what)
    r.close()
