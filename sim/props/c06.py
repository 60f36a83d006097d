"""C06: caller's data is never modified, results never change later."""
import hashlib

import numpy as np

from sim import core, hist, world

BUDGET = {'quick': (3900, 130), 'thorough': (31200, 1500)}
LAYOUTS = True
RULE = ('one run = one history of 3-8 calls (some aborted, rejected or failing in a component); '
        'every object passed in is hashed before and after each call, at the end and at a random '
        'instant during some calls, every array '
        'returned or read from fitted attributes is hashed when received and after each later '
        'call, and the caller overwrites arrays it passed to earlier fits before further queries; '
        'non-trivial: a result was re-checked after a later call; distinct: by model, calls, '
        'outcomes and abort locations')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS', 'scikit-learn']
STUB = ['clock', 'stdout', 'user kernel / clusterer / classifier objects']
ASSUMPTIONS = ['aborts strike at line boundaries of reor code, not inside numpy/scipy/cvxpy']


def fingerprint(x):
    h = hashlib.sha256()

    def go(v):
        if isinstance(v, np.ndarray):
            h.update(('a%s%s%s' % (v.dtype, v.shape, v.flags.writeable)).encode())
            if v.dtype == object:
                h.update(repr(v.tolist()).encode())
            else:
                h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, dict):
            h.update(b'{')
            for k in v:
                h.update(repr(k).encode())
                go(v[k])
            h.update(b'}')
        elif isinstance(v, (list, tuple)):
            h.update(b'[')
            for w in v:
                go(w)
            h.update(b']')
        else:
            h.update(repr(v).encode())
    go(x)
    return h.hexdigest()


def scribble(x):
    """The caller reuses its buffers."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 5 if x.dtype.kind in 'iu' else 1e3 * np.arange(x.size).reshape(x.shape) - 7
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
    elif isinstance(x, list) and x and all(isinstance(v, (int, float)) for v in x):
        x[:] = [1] * len(x)


def gen(rng, tier):
    spec = world.gen_spec(rng)
    ops = hist.gen_history(rng, spec, rng.randint(2, 6), p_fault=0.3, p_bad=0.12, p_fit=0.35)
    for op in ops:
        if op['o'] == 'fit' and rng.random() < 0.5:
            op['scribble'] = 1
        if rng.random() < 0.3:
            op['peek'] = [round(rng.random(), 6), round(rng.random(), 6)]
    d = [o['d'] for o in ops if o['o'] == 'fit'][-1]
    fin = [world.gen_op(rng, spec, d, force=rng.choice(world.QUERIES[spec['kind']]))
           for _ in range(rng.randint(1, 3))]
    return {'spec': spec, 'ops': ops + fin, 'ctor': rng.choice([0, 1, 2]),
            'nda': rng.randrange(2)}


def run(ctx, plan):
    spec = plan['spec']
    shared = {}
    kw = None
    if spec['kind'] in world.FEMBV:
        kw = {'solver': spec['o']['solver']} if spec['o'].get('solver') else {}
    sess = world.Session(spec, solver_kwargs=kw)
    r = hist.Runner(ctx, spec, sess)
    given = []          # (label, object, fingerprint)
    frozen = []         # (label, array, fingerprint)
    rechecked = 0
    peeked = []         # what an observer found wrong while a call was under way
    if kw is not None:
        given.append(('weights_solver_kwargs', kw, fingerprint(kw)))

    if spec['kind'] in ('crom', 'mtd') and spec['o']['lags'] is not None and plan.get('ctor'):
        # the lags are the caller's array too
        lags = np.array(spec['o']['lags'], dtype='i8') \
            if spec['kind'] == 'crom' or plan['nda'] else list(spec['o']['lags'])
        shared['lags'] = lags
        given.append(('lags given to the constructor', lags, fingerprint(lags)))
        sess.model = rebuild_with_lags(spec, sess.rs, lags)
        if plan['ctor'] == 2:
            lags[:] = [1] * len(lags)       # the caller goes on using its array
            given[-1] = given[-1][:2] + (fingerprint(lags),)
            ctx.stats['buffers reused by the caller'] += 1
    if spec['kind'] == 'fvx' and isinstance(spec['o']['memory'], list) and plan.get('ctor'):
        mem = list(spec['o']['memory'])
        given.append(('memory given to the constructor', mem, fingerprint(mem)))
        sess.model = rebuild_with_memory(spec, sess.rs, mem)

    def verify(after):
        nonlocal rechecked
        for label, obj, fp in given:
            if fingerprint(obj) != fp:
                raise core.Violation('input-modified', '%s was modified by %s' % (label, after))
        for label, arr, fp in frozen:
            rechecked += 1
            if fingerprint(arr) != fp:
                raise core.Violation('result-changed', '%s changed when %s' % (label, after))

    for i, op in enumerate(plan['ops']):
        what = '%s call %d (%s)' % (spec['kind'], i, op['o'])
        if op['o'] != 'fit' and r.last_fit is None and not op.get('bad'):
            continue
        inp = r.inputs(op)
        mine = list(inp.all().values())
        given = [(a, b, fingerprint(b) if any(b is m for m in mine) else c) for a, b, c in given]
        verify('the caller overwrote an array it had passed before')
        for k, v in inp.all().items():
            given.append(('argument %s of %s' % (k, what), v, fingerprint(v)))
        raw = []
        kw2 = {}
        if op.get('peek') and not op.get('fault') and not op.get('bad'):
            # somebody else looks at the caller's objects while the call is under way
            base = [r.last_fit] if op['o'] != 'fit' else []
            _, at, _ = r.ref(hist.ref_run, spec, base + [r.clean(op)], tuple(op['peek']))
            if at is not None:
                now = 'seen during ' + what
                kw2['hooks'] = {at: lambda: peeked.extend(
                    '%s was found modified, %s' % (label, now) for label, obj, fp in given
                    if fingerprint(obj) != fp)}
                ctx.stats['caller\'s objects inspected during a call'] += 1
        out = r.do(op, inp, raw, **kw2)
        if peeked:
            raise core.Violation('input-modified', peeked[0])
        verify('%s %s' % (what, out.brief()))
        if raw and isinstance(raw[0], np.ndarray):
            frozen.append(('array returned by ' + what, raw[0], fingerprint(raw[0])))
        if out.ok and op['o'] == 'fit':
            for n in world.PARAMS[spec['kind']] + ('Gamma',):
                a = getattr(sess.model, n, None)
                if isinstance(a, np.ndarray):
                    frozen.append(('fitted attribute %s read after %s' % (n, what), a,
                                   fingerprint(a)))
        if out.ok and op['o'] != 'fit' and out.fired is None and r.last_fit is not None:
            ref, _ = r.reference(op)
            hist.check_outcome('answer-depends-on-callers-buffers', what + ' vs the same query '
                               'when the caller left its arrays alone', out, ref)
        if op.get('scribble'):
            mine = [v for v in inp.all().values()]
            for v in mine:
                scribble(v)
            ctx.stats['buffers reused by the caller'] += 1
            given = [(a, b, fingerprint(b) if any(b is m for m in mine) else c)
                     for a, b, c in given]
            # results must not be views of the caller's buffers either
            verify('the caller reused the arrays it had passed to ' + what)
            if out.ok:
                ref, params = r.reference(op)
                d = core.diff(sess.params(), params)
                if d:
                    raise core.Violation('fit-aliases-input', 'after %s the caller reused its '
                                         'arrays and the fitted model changed: %s' % (what, d))
    ctx.nontrivial = rechecked > 0
    r.close()


def rebuild_with_lags(spec, rs, lags):
    from sim.world import GPNHConvexCodingCROM, MTDConvexCoding
    o = spec['o']
    kw = dict(init=o['init'], tolerance=o['tol'], max_iterations=o['mi'],
              verbose=o.get('verbose', 0), random_state=rs, epsilon_states=o['eps'])
    kw.update(o.get('spg') or {})
    if o.get('mem'):
        kw.update(line_search_memory=o['mem'], require_monotonic_cost_decrease=False)
    if spec['kind'] == 'crom':
        return GPNHConvexCodingCROM(o['k'], lags=lags, **kw)
    return MTDConvexCoding(o['k'], lags=lags, epsilon_weights=o['epsw'], **kw)


def rebuild_with_memory(spec, rs, mem):
    from sim.world import FEMBVVARX
    o = spec['o']
    kw = dict(init=o['init'], tolerance=o['tol'], max_iterations=o['mi'],
              verbose=o.get('verbose', 0), random_state=rs)
    if o.get('solver'):
        kw['weights_solver_kwargs'] = {'solver': o['solver']}
    return FEMBVVARX(o['k'], o['tv'], memory=mem, **kw)
