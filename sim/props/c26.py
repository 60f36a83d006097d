"""C26: progress output reports the run that happens."""
import re

import numpy as np

from sim import core, fits, hist, oracles, solver, world

BUDGET = {'quick': (6800, 130), 'thorough': (54400, 1500)}
LAYOUTS = True
KEEP = ('verbose',)      # not simplified in a minimised plan
RULE = ('one run = a fit or transform of an iterative model on a simulated output device, after '
        'earlier calls some of which were aborted or lost the device; every reported iteration is '
        'compared with the fit that stops there, durations with the simulated clock (whose time '
        'of day jumps), the moment of each line with the steps of that shorter fit; repeated '
        'with an abort at a chosen instant and with the output off; non-trivial: at least two '
        'iterations were reported; distinct: by model, numbers of lines, outcomes, abort location')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS']
STUB = ['clock', 'stdout', 'user kernel functions', 'LP solver front end (statuses, values)']
ASSUMPTIONS = ['an iteration is reported by a line that starts with its number, followed by cost, '
               'change of cost and duration']
NUM = r'([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))'
LINE = re.compile(r'^\s*(\d+)\s*\|\s*%s\s*\|\s*%s\s*\|\s*%s\s*$' % (NUM, NUM, NUM))
KINDS = world.FACTOR + world.FEMBV


def gen(rng, tier):
    spec = fits.iterative_spec(rng, KINDS)
    o = spec['o']
    o['verbose'] = 1
    o['mi'] = rng.choice([1, 2, 3, 4, 6, 9])
    o['tol'] = rng.choice([1e-2, 1e-3, 1e-4, 1e-6, 1e-9])
    if spec['kind'] in world.FEMBV and rng.random() < 0.4:
        o['simsolver'] = 1
    if rng.random() < 0.05:
        # hundreds of iterations
        o['tol'] = rng.choice([0, 0, 1e-13])
        if spec['kind'] in world.FACTOR:
            o['mi'] = rng.choice([64, 101, 130, 300])
            o['k'] = min(o['k'] or 2, 3)
        else:
            o['mi'] = rng.choice([15, 25])
    d = hist.fit_data(rng, spec)
    fit = world.gen_op(rng, spec, d, force='fit')
    fit['ft'] = 1
    ops = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        if ops and rng.random() < 0.4:
            op = world.gen_op(rng, spec, ops[0]['d'], force=rng.choice(world.QUERIES[spec['kind']]))
        else:
            op = world.gen_op(rng, spec, hist.fit_data(rng, spec, prev=d), force='fit')
        if rng.random() < 0.6:
            op['fault'] = hist.gen_fault(rng, spec, op, ('abort', 'stdout'))
        ops.append(op)
    q = world.gen_op(rng, spec, d, force='transform')
    if o.get('simsolver'):
        for op in ops + [fit, q]:
            op['solver'] = [solver.gen_fail(rng) if rng.random() < 0.25 else
                            {'a': 'ok', 's': 'HIGHS'} for _ in range(4)]
    return {'spec': spec, 'ops': ops, 'fin': [fit, q], 'clk': rng.choice(['wall', 'wall', 'steady',
                                                                         'fast', 'frozen']),
            'cs': rng.randrange(1000), 'u': [round(rng.random(), 6), round(rng.random(), 6)],
            'off': int(rng.random() < 0.3), 'e': rng.choice(hist.ASYNC_EXC)}


def parse(rec):
    """Lines of the output as (event number of their end, text)."""
    lines, cur = [], ''
    for at, s in rec:
        cur += s
        while '\n' in cur:
            a, cur = cur.split('\n', 1)
            lines.append((at, a))
    return lines, cur


def tables(rec):
    """The iterations reported, as lists of (number, cost, change, duration, event); and which
    tables announced convergence."""
    lines, rest = parse(rec)
    out, conv = [], []
    for at, s in lines:
        m = LINE.match(s)
        if m:
            n = int(m.group(1))
            row = (n, float(m.group(2)), float(m.group(3)), float(m.group(4)), at)
            if n == 1 or not out:
                out.append([])
                conv.append(False)
            out[-1].append(row)
        elif 'onverged' in s and out:
            conv[-1] = True
    return out, conv


def close(a, b, scale):
    return abs(a - b) <= 2e-6 * abs(b) + 1e-9 * scale


def recorded(ctx, f):
    """Run f with the output recorded; what it returned, and the records."""
    ctx.out.rec = []
    try:
        x = f()
        return x, ctx.out.rec
    finally:
        ctx.out.rec = None


def check_tables(ctx, tabs, conv, spec, what, t0, t1):
    o = spec['o']
    for tab, cv in zip(tabs, conv):
        nums = [r[0] for r in tab]
        if nums != list(range(1, len(tab) + 1)) or len(tab) > o['mi']:
            raise core.Violation('wrong-numbers', '%s with budget %d reported iterations %s' % (
                what, o['mi'], nums))
        for a, b in zip(tab, tab[1:]):
            if abs((b[1] - a[1]) - b[2]) > 1.1e-6 * (abs(a[1]) + abs(b[1]) + abs(b[2])):
                raise core.Violation('wrong-change', '%s reported cost %.6e, then %.6e with a '
                                     'change of %.6e' % (what, a[1], b[1], b[2]))
        last = tab[-1]
        # a reported change is the rounded one: leave ties undecided
        if abs(last[2]) < o['tol'] * (1 - 2e-6) and not cv:
            raise core.Violation('convergence-not-announced', '%s: change %.6e in iteration %d, '
                                 'tolerance %g' % (what, last[2], last[0], o['tol']))
        if abs(last[2]) > o['tol'] * (1 + 2e-6) and cv:
            raise core.Violation('false-convergence', '%s: change %.6e in iteration %d, tolerance '
                                 '%g' % (what, last[2], last[0], o['tol']))
        if len(tab) < o['mi'] and not cv:
            raise core.Violation('iterations-missing', '%s with budget %d reported %d iterations '
                                 'and no convergence' % (what, o['mi'], len(tab)))
    dur = [r[3] for tab in tabs for r in tab]
    if dur and min(dur) < 0:
        raise core.Violation('wrong-duration', '%s: %s' % (what, dur))
    if sum(dur) > (t1 - t0) * (1 + 1e-6) + 1e-9:
        raise core.Violation('wrong-duration', '%s took %g s in total, reported %s' % (
            what, t1 - t0, dur))
    return sum(len(t) for t in tabs)


def run(ctx, plan):
    spec = plan['spec']
    kind, o = spec['kind'], spec['o']
    fit, query = plan['fin']
    ctx.set_clock(plan['clk'], plan['cs'])
    r = hist.Runner(ctx, spec)
    for op in plan['ops']:
        if op['o'] != 'fit' and r.last_fit is None:
            continue
        r.do(op)
    s = r.s
    what = '%s fit' % kind
    t0 = ctx.clock.now
    raw = []
    inp = hist.op_inputs(spec, fit, s.k())
    out, rec = recorded(ctx, lambda: s.op(ctx, fit, inp, raw, record=True))
    t1 = ctx.clock.now
    ctx.log(what, out.brief(), len(rec), [x[0] for x in rec])
    if not out.ok:
        why = fits.refused(out.exc, fit['d'])
        if why:
            ctx.stats['fits refused: ' + why] += 1
            r.close()
            return
        raise core.Violation('valid-call-failed', '%s: %r' % (what, out.exc))
    tabs, conv = tables(rec)
    lines = check_tables(ctx, tabs, conv, spec, what, t0, t1)
    ctx.stats['iterations reported'] += lines
    ctx.nontrivial = lines >= 2
    ctx.mark(kind, [len(t) for t in tabs], conv, out.brief()[:6])
    if len(tabs) != (2 if kind == 'crom' else 1):
        raise core.Violation('iterations-missing', '%s reported %d sequences of iterations' % (
            what, len(tabs)))
    for k in re.findall(r'n_components\s*=\s*(\d+)', ''.join(x[1] for x in rec)):
        if int(k) != s.k():
            raise core.Violation('wrong-components', '%s of %d components reported %s' % (
                what, s.k(), k))
    # every reported iteration against the fit that stops there
    tab = tabs[0]
    X = np.array(inp.pos[0], dtype=float)
    cost, scale = fits.cost_now(spec, s, X, fits.exog(inp), raw[0])
    if not close(tab[-1][1], float(s.model.cost_), scale):
        raise core.Violation('wrong-cost', '%s ended with cost %.9e, its last line says %.6e' % (
            what, s.model.cost_, tab[-1][1]))
    prev = None
    if fits.has_start(spec, inp.kw) and len(inp.kw) >= 2:
        prev = fits.start_cost(spec, inp.kw, X, fits.exog(inp))
        scale = max(scale, abs(prev))
    step = 1 if len(tab) <= 12 else len(tab) // 7
    for i, row in enumerate(tab, 1):
        if i > 2 and i < len(tab) and i % step:
            prev = None
            continue
        t = fits.session(spec, mi=i)
        b = t.op(ctx, fit, hist.op_inputs(spec, fit, t.k()))
        if not b.ok:
            raise core.Violation('valid-call-failed', '%s stopped at iteration %d: %r' % (
                what, i, b.exc))
        c = float(t.model.cost_)
        if not close(row[1], c, scale):
            raise core.Violation('wrong-cost', '%s: line %d says %.6e, the fit that stops there '
                                 'has cost %.9e' % (what, i, row[1], c))
        if prev is not None and not close(row[2], c - prev, scale):
            raise core.Violation('wrong-change', '%s: line %d says %.6e, costs of the fits that '
                                 'stop there and before differ by %.6e' % (what, i, row[2],
                                                                           c - prev))
        prev = c
        if row[4] > b.events:
            raise core.Violation('reported-late', '%s: iteration %d was reported after %d steps, '
                                 'a fit that stops there ends after %d' % (what, i, row[4],
                                                                         b.events))
    if kind == 'crom' and s.k() > 1:
        lags = o['lags'] or [1]
        m = max(lags)
        W = np.asarray(raw[0], dtype=float)
        Z = oracles.lagged(W, lags, s.model.order_weights, s.model.transition_matrices)
        c = ((W[m:] - Z) ** 2).sum() / (W.shape[1] * (len(W) - m))
        if not close(tabs[1][-1][1], c, 1.0):
            raise core.Violation('wrong-cost', '%s: parameters have residual %.9e, last line says '
                                 '%.6e' % (what, c, tabs[1][-1][1]))
    # a transform
    if kind not in ('kaa', 'aa') or query['d']['n'] == fit['d']['n']:
        t0 = ctx.clock.now
        raw = []
        qin = hist.op_inputs(spec, query, s.k())
        qout, qrec = recorded(ctx, lambda: s.op(ctx, query, qin, raw))
        t1 = ctx.clock.now
        ctx.log('transform', qout.brief(), len(qrec))
        if qout.ok:
            qt, qc = tables(qrec)
            check_tables(ctx, qt, qc, spec, kind + ' transform', t0, t1)
            if len(qt) != 1:
                raise core.Violation('iterations-missing', '%s transform reported %d sequences of '
                                     'iterations' % (kind, len(qt)))
            c, scale = fits.cost_now(spec, s, np.array(qin.pos[0], dtype=float), fits.exog(qin),
                                     raw[0])
            if query['d']['lay'] == 'H':    # inner products of single-precision data
                scale *= 1e4
            if not close(qt[0][-1][1], c, scale):
                raise core.Violation('wrong-cost', '%s transform ended at cost %.9e, its last line '
                                     'says %.6e' % (kind, c, qt[0][-1][1]))
        elif not fits.refused(qout.exc, query['d']):
            raise core.Violation('valid-call-failed', '%s transform: %r' % (kind, qout.exc))
    # the same fit, struck at some instant: exactly what was reported before is there
    at = core.pick_event(out.rec, *plan['u'])
    t = fits.session(spec)
    b, brec = recorded(ctx, lambda: t.op(ctx, fit, hist.op_inputs(spec, fit, t.k()),
                                         abort=(at, plan['e'])))
    ctx.mark(b.fired_loc)
    x, _ = parse([w for w in rec if w[0] < at])
    y, _ = parse(brec)
    x, y = [strip_time(v) for _, v in x], [strip_time(v) for _, v in y]
    if x != y:
        raise core.Violation('abort-changes-output', '%s aborted at step %d wrote %s, without the '
                             'abort it has by then written %s' % (what, at, y[-3:], x[-3:]))
    if plan['off']:
        t = fits.session(spec, verbose=0)
        for op in (fit, query):
            b, brec = recorded(ctx, lambda: t.op(ctx, op, hist.op_inputs(spec, op, t.k())))
            if brec:
                raise core.Violation('not-silent', '%s %s with progress output off wrote %r' % (
                    kind, op['o'], brec[0][1]))
    r.close()


def strip_time(s):
    m = LINE.match(s)
    return (int(m.group(1)), m.group(2), m.group(3)) if m else s
