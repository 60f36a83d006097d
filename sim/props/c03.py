"""C03: models used from different threads do not interfere."""
import numpy as np

from sim import core, hist, hot, pristine, world
from sim.props.c06 import fingerprint

KINDS = {'archetypal_analysis': ('kaa', 'aa'), 'gpnh_convex_coding': ('gpnh',),
         'gpnh_convex_coding_crom': ('crom',), 'mtd_convex_coding': ('mtd',), 'crom': ('mkc',),
         'fembv': ('fkm', 'fvx'), 'fembv_kmeans': ('fkm',), 'fembv_varx': ('fvx',),
         'pwvarx': ('pwv',)}
BUDGET = {'quick': (3200, 130), 'thorough': (25600, 1500)}
LAYOUTS = True
RULE = ('one run = 2-4 real threads parked and released one at a time by a seeded scheduler that '
        'switches at chosen lines or bytecode instructions of reor (positions drawn uniformly over '
        'code locations of each thread\'s solo run, plus bursts of round-robin single steps); '
        'threads use separate models on shared input arrays, start values and solver options, or '
        'query one shared fitted model; every outcome compared with the thread running alone in a '
        'pristine process; non-trivial: at least one switch in the middle of a call; distinct: by '
        'sequence of switch locations')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS', 'scikit-learn', 'threading']
STUB = ['thread scheduler', 'clock', 'stdout', 'user kernel / clusterer / classifier objects']
ASSUMPTIONS = ['preemption at line or bytecode boundaries of reor code; calls into numpy, scipy, '
               'cvxpy and scikit-learn are atomic', 'models have separate random generators']
SHARED_Q = {'kaa': ('inverse',), 'aa': ('inverse',), 'gpnh': ('inverse',), 'crom': ('inverse',),
            'mtd': ('inverse',), 'mkc': ('transform', 'predict', 'predict'), 'pwv': ('transform',)}


def small(rng, spec):
    o = spec['o']
    if 'mi' in o and spec['kind'] != 'mkc':
        o['mi'] = rng.choice([1, 2, 3, 4])
    if hot.modules() and rng.random() < 0.5:
        # no option switched off: code guarded by it runs
        for key in ('eps', 'epsw', 'delta'):
            if key in o and not o[key]:
                o[key] = 0.1
    return spec


def some_kind(rng, shared):
    """A kind of model; one that runs code which touches shared state, if there is such code."""
    own = sorted({k for m in hot.modules() for k in KINDS.get(m, ())})
    if hot.modules() and rng.random() < 0.7:
        kinds = own or world.FACTOR
        kinds = [k for k in kinds if not shared or k in SHARED_Q]
        if kinds:
            return rng.choice(kinds)
    return rng.choice(sorted(SHARED_Q) if shared else world.ALL)


def is_hot(rng):
    return int(rng.random() < (0.75 if hot.modules() else 0.4))


def gen(rng, tier):
    gran = rng.choice(['line', 'line', 'instr'])
    if rng.random() < 0.3:
        spec = small(rng, world.gen_spec(rng, some_kind(rng, True)))
        d = hist.fit_data(rng, spec)
        fit = world.gen_op(rng, spec, d, force='fit')
        threads = []
        for _ in range(rng.randint(2, 4)):
            ops = []
            for _ in range(rng.randint(1, 3)):
                op = world.gen_op(rng, spec, d, force=rng.choice(SHARED_Q[spec['kind']]))
                if rng.random() < 0.5:
                    # same sizes as the fit, other values
                    op['d'] = dict(d, s=rng.randrange(10 ** 6))
                op['sw'] = switches(rng, 2)
                op['hot'] = is_hot(rng)
                ops.append(op)
            threads.append({'ops': ops})
        return {'shared': {'spec': spec, 'fit': fit}, 'threads': threads, 'gran': gran,
                'first': rng.randrange(4)}
    n = rng.choice([2, 2, 2, 3, 4])
    same = rng.random() < 0.5
    kin = rng.random() < 0.6        # one kind of model, other options
    kind = some_kind(rng, False)
    spec0 = small(rng, world.gen_spec(rng, kind))
    if kind in world.FEMBV and rng.random() < 0.5:
        spec0['o']['solver'] = rng.choice(['HIGHS', 'SCIPY', 'CLARABEL'])
    d0 = hist.fit_data(rng, spec0)
    threads = []
    for t in range(n):
        if same:
            spec = small(rng, world.gen_spec(rng, kind))
            for key in ('k', 'lags', 'memory', 'p', 's', 'q', 'labels', 'nd1', 'coef'):
                if key in spec0['o']:
                    spec['o'][key] = spec0['o'][key]
            if kind in world.FEMBV and spec0['o'].get('solver') and rng.random() < 0.8:
                spec['o']['solver'] = spec0['o']['solver']
            d = dict(d0)
            if rng.random() < 0.4:
                d['s'] = rng.randrange(10 ** 6)
        else:
            spec = small(rng, world.gen_spec(rng, kind if kin else None))
            d = hist.fit_data(rng, spec)
        ops = [world.gen_op(rng, spec, d, force='fit')]
        for _ in range(rng.randint(0, 2)):
            q = world.gen_op(rng, spec, d, force=rng.choice(world.QUERIES[spec['kind']] + ('fit',)))
            if q['o'] != 'fit' and rng.random() < 0.5:
                q['d'] = dict(d, s=q['d']['s'])
            ops.append(q)
        for op in ops:
            op['sw'] = switches(rng, 4)
            op['hot'] = is_hot(rng)
            if rng.random() < 0.12:
                op['fault'] = hist.gen_fault(rng, spec, op, ('abort',))
        threads.append({'spec': spec, 'ops': ops})
    return {'threads': threads, 'gran': gran, 'share': int(rng.random() < 0.6),
            'first': rng.randrange(n)}


def switches(rng, m):
    out = []
    for _ in range(rng.randint(1, m)):
        out.append([round(rng.random(), 5), round(rng.random(), 5), rng.randrange(3),
                    rng.choice([0, 0, 0, 0, 12, 40, 150])])
    if rng.random() < 0.15:
        # a long stretch during which the threads take turns about every gap-th event
        out[0][3] = rng.choice([600, 3000])
        out[0].append(rng.choice([1, 2, 3, 7]))
    return out


def thread_inputs(spec, op, k, cache):
    """Inputs; equal descriptions give the very same objects when they are shared."""
    if cache is None:
        return hist.op_inputs(spec, op, k)
    import json
    inp = hist.op_inputs(spec, op, k)
    key = json.dumps([spec['kind'], spec['o'].get('nd1'), op['d'], op['o']])
    if op['o'] == 'inverse':
        key += str(k)
    inp.pos[0] = cache.setdefault(key + 'X', inp.pos[0])
    for name in list(inp.kw):
        v = inp.kw[name]
        if isinstance(v, (np.ndarray, dict)):
            kk = key + name + (str(op['rs']) if name not in ('exog', 'external_factors',
                                                             'sample_weight') else '') + \
                str(np.shape(v if not isinstance(v, dict) else v['mu'])) + str(
                    spec['o'].get('q'))
            inp.kw[name] = cache.setdefault(kk, v)
    return inp


def lib_warnings(out):
    return [w[1:3] for w in out.warned if w[3]]


def solo(ctx, spec, ops, shared_fit, gran='line'):
    """Run one thread's calls alone.  Returns outcomes, switch events, abort events."""
    s = world.Session(spec)
    if shared_fit is not None:
        o = s.op(ctx, shared_fit, hist.op_inputs(spec, shared_fit, s.k()))
        if not o.ok:
            return None
    outs, sws, ats = [], [], []
    ok = shared_fit is not None
    for op in ops:
        f = op.get('fault')
        if op['o'] != 'fit' and not ok:
            outs.append(None)
            sws.append({})
            ats.append(None)
            continue
        at = None
        if f:
            # profile on a fresh object
            base = [x for x in ops[:ops.index(op)] if x['o'] == 'fit'][-1:] \
                if op['o'] != 'fit' else []
            clean = {k: v for k, v in op.items() if k != 'fault'}
            t = world.Session(spec)
            for b in base:
                t.op(ctx, b, hist.op_inputs(spec, b, t.k()))
            p = t.op(ctx, clean, hist.op_inputs(spec, clean, t.k()), record=True)
            at = core.pick_event(p.rec, f['u1'], f['u2'])
        kw = {'abort': (at, f['e'])} if at else {}
        out = s.op(ctx, op, hist.op_inputs(spec, op, s.k()), record=True, **kw)
        sw = {}
        for u1, u2, tgt, burst, *gap in op['sw']:
            e = hot.pick(out.rec, gran, u1, u2) if op.get('hot') else None
            if e is None:
                e = core.pick_event(out.rec, u1, u2)
            if e is not None:
                sw[e] = [tgt, burst] + gap if burst else tgt
        out.rec = None
        out.exc = hist.strip(out.exc)
        out.fired = None
        if op['o'] == 'fit':
            ok = out.ok
        if out.ok and ok:
            out.values.update({'fitted.' + k: v for k, v in s.params().items()})
        outs.append(out)
        sws.append(sw)
        ats.append(at)
    return outs, sws, ats


def run(ctx, plan):
    srv = pristine.Server(ctx)
    sh = plan.get('shared')
    threads = plan['threads']
    refs = []
    for th in threads:
        r = srv(solo, sh['spec'] if sh else th['spec'], th['ops'], sh['fit'] if sh else None,
                plan['gran'])
        if r is None:
            ctx.stats['shared fit refused'] += 1
            srv.close()
            return
        refs.append(r)
    sessions = []
    cache = {} if plan.get('share') else None
    kwdict = {}
    if sh:
        s0 = world.Session(sh['spec'])
        o = s0.op(ctx, sh['fit'], hist.op_inputs(sh['spec'], sh['fit'], s0.k()))
        if not o.ok:
            raise core.Violation('call-differs', 'shared fit: ' + o.brief())
        sessions = [s0] * len(threads)
    else:
        for th in threads:
            skw = None
            if th['spec']['kind'] in world.FEMBV and plan.get('share') and \
                    th['spec']['o'].get('solver'):
                skw = kwdict.setdefault(th['spec']['o']['solver'],
                                        {'solver': th['spec']['o']['solver']})
            sessions.append(world.Session(th['spec'], solver_kwargs=skw))
    # inputs are made beforehand: making them is not part of any call
    outs = [[] for _ in threads]
    common = [('weights_solver_kwargs', v, fingerprint(v)) for v in kwdict.values()]

    def body(i):
        def f():
            th = threads[i]
            spec = sh['spec'] if sh else th['spec']
            s = sessions[i]
            ok = bool(sh)
            for j, op in enumerate(th['ops']):
                if op['o'] != 'fit' and not ok:
                    outs[i].append(None)
                    continue
                inp = thread_inputs(spec, op, s.k(), cache)
                for name, v in inp.all().items():
                    if isinstance(v, (np.ndarray, dict, list)) and \
                            not any(v is c[1] for c in common):
                        common.append(('argument %s of %s' % (name, op['o']), v, fingerprint(v)))
                at = refs[i][2][j]
                kw = {'abort': (at, op['fault']['e'])} if at else {}
                out = s.op(ctx, op, inp, reseed=not sh, switches=refs[i][1][j], **kw)
                if op['o'] == 'fit':
                    ok = out.ok
                if out.ok and ok:
                    out.values.update({'fitted.' + k: v for k, v in s.params().items()})
                outs[i].append(out)
        return f
    order = list(range(len(threads)))
    order = order[plan['first'] % len(order):] + order[:plan['first'] % len(order)]
    def watch(i):
        # what one thread leaves behind at a switch is what the others find
        if seen:
            return
        for label, obj, fp in common:
            if fingerprint(obj) != fp:
                seen.append('%s found modified while thread %d is in a call' % (label, i))
    seen = []
    ctx.on_switch = watch
    sched = core.Sched(ctx, [body(i) for i in range(len(threads))], order)
    log = sched.run()
    if seen:
        raise core.Violation('shared-object-modified', seen[0])
    ctx.stats['thread switches'] += sched.n_switches
    ctx.nontrivial = bool(log)
    ctx.log('switches', log[:200])
    ctx.mark(log)
    for e in sched.errors:
        if isinstance(e, core.StepLimit):
            raise e
        if e is not None and not isinstance(e, Exception):
            raise core.HarnessError('thread body: %r' % e)
        if isinstance(e, Exception):
            raise e
    for i, th in enumerate(threads):
        spec = sh['spec'] if sh else th['spec']
        for j, op in enumerate(th['ops']):
            a, b = outs[i][j], refs[i][0][j]
            what = 'thread %d, %s call %d (%s)%s' % (
                i, spec['kind'], j, op['o'], ' on the shared model' if sh else '')
            ctx.log(what, a.brief() if a else None)
            if (a is None) != (b is None):
                raise core.Violation('thread-interference', what + ': an earlier fit ended '
                                     'differently')
            if a is not None and a.fired is None:
                wa, wb = lib_warnings(a), lib_warnings(b)
                if wa != wb:
                    raise core.Violation('thread-interference', '%s: warned %s when interleaved, '
                                         '%s alone' % (what, wa, wb))
            if a is not None:
                hist.check_outcome('thread-interference', what + ', interleaved vs alone', a, b)
    srv.close()
