"""C01: seeded runs repeat exactly in any environment."""
import copy
import gc
import json
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from sim import boot, core, env, hist, pristine, world

BUDGET = {'quick': (4400, 130), 'thorough': (35200, 1500)}
LAYOUTS = True
RULE = ('one run = the same 1-4 calls with the same seed (integer, generator object or seeded '
        'process-wide generator) in a plain environment (pristine process, steady clock, silent) '
        'and in a hostile one (stalled / backward / jumping / random clock, progress output, other '
        'code drawing from, reseeding or replacing the state of the process-wide generators at '
        'chosen instants inside the calls, other contents of uninitialised memory, other answers '
        'of the operating system (entropy, process id, host, cpus, directory, variables), another '
        'thread, other interpreter settings (print options, warning filters, recursion limit, '
        'garbage collection, numpy error state), earlier fits on same-sized data, another global '
        'seed); '
        'outcomes compared; in addition a batch of plans in interpreters with other hash seeds; '
        'non-trivial: the environments differed in something that happened during a call')
REAL = ['reor', 'numpy', 'scipy', 'cvxpy + CLARABEL/HIGHS/SCIPY', 'scikit-learn']
STUB = ['clock', 'stdout', 'process-wide generator users', 'user kernel / clusterer / classifier '
        'objects']
ASSUMPTIONS = ['same machine and library builds; values equal to within 1e-9 relative']
CLOCKS = ('frozen', 'backward', 'jumpy', 'fast', 'erratic', 'steady')


def gen(rng, tier):
    spec = world.gen_spec(rng)
    spec['o'].pop('verbose', None)
    d = hist.fit_data(rng, spec)
    ops = [world.gen_op(rng, spec, d, force='fit')]
    for _ in range(rng.randint(0, 3)):
        if rng.random() < 0.25:
            d = hist.fit_data(rng, spec, prev=d)
            ops.append(world.gen_op(rng, spec, d, force='fit'))
        else:
            ops.append(world.gen_op(rng, spec, d, force=rng.choice(world.QUERIES[spec['kind']])))
    pre = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        sp = world.gen_spec(rng, spec['kind'] if rng.random() < 0.7 else None)
        if sp['kind'] == spec['kind'] and rng.random() < 0.7:
            for key in ('k', 'lags', 'memory', 'p', 's', 'q', 'labels', 'nd1', 'coef'):
                if key in spec['o']:
                    sp['o'][key] = spec['o'][key]
            dd = dict(ops[0]['d'])
            if rng.random() < 0.7:
                dd['s'] = rng.randrange(10 ** 6)
        else:
            dd = hist.fit_data(rng, sp)
        pre.append({'spec': sp, 'op': world.gen_op(rng, sp, dd, force='fit')})
    if pre and rng.random() < 0.06:
        pre[0]['many'] = rng.choice([7, 10, 15, 31, 40, 63, 70])
    for op in ops:
        op['env'] = [[round(rng.random(), 5), round(rng.random(), 5),
                      rng.choice(['draw', 'draw', 'seed', 'state', 'pyrandom', 'gc'])]
                     for _ in range(rng.randint(0, 5))]
        op['around'] = [k for k in env.KINDS if rng.random() < 0.15]
        op['thread'] = int(rng.random() < 0.2)
    return {'spec': spec, 'ops': ops, 'prehistory': pre, 'clk': rng.choice(CLOCKS),
            'cs': rng.randrange(1000), 'verbose': rng.choice([0, 0, 1, 1, 2, 3, 10, True]),
            'mode': rng.choice(['int', 'int', 'rs', 'global']), 's': rng.randrange(10 ** 6),
            'gseed': rng.randrange(10 ** 6)}


def make(spec, mode, seed, verbose):
    if mode == 'int':
        return world.Session(spec, rs=seed, verbose=verbose)
    if mode == 'global':
        np.random.seed(seed)
        return world.Session(spec, model=world.build(spec, None, verbose=verbose), rs=0)
    return world.Session(spec, rs=np.random.RandomState(seed), verbose=verbose)


def plain(ctx, plan):
    """Outcomes in the plain environment and the event profile of each call."""
    s = make(plan['spec'], plan['mode'], plan['s'], 0)
    outs, picks = [], []
    ok = False
    for op in plan['ops']:
        if op['o'] != 'fit' and not ok:
            outs.append(None)
            picks.append([])
            continue
        o = s.op(ctx, op, reseed=False, record=True)
        if op['o'] == 'fit':
            ok = o.ok
        picks.append([core.pick_event(o.rec, u1, u2) for u1, u2, _ in op.get('env', [])])
        o.rec = None
        o.exc = hist.strip(o.exc)
        outs.append(o)
    return outs, picks


def cheap(spec):
    sp = copy.deepcopy(spec)
    if 'mi' in sp['o']:
        sp['o']['mi'] = 1
    return sp


def foreign(ctx, what, r):
    def f():
        ctx.stats['foreign:' + what] += 1
        if what == 'draw':
            np.random.random(1 + r % 5)
        elif what == 'seed':
            np.random.seed(r % 2 ** 31)
        elif what == 'state':
            np.random.set_state(np.random.RandomState(r % 2 ** 31).get_state())
        elif what == 'pyrandom':
            random.seed(r)
        else:
            gc.collect()
    return f


def run(ctx, plan):
    srv = pristine.Server(ctx)
    refs, picks = srv(plain, plan)
    spec = plan['spec']
    kind = spec['kind']
    # hostile environment
    np.random.seed(plan['gseed'])
    random.seed(plan['gseed'])
    for p in plan['prehistory']:
        ctx.nontrivial = True
        for m in range(p.get('many', 1)):
            if not m or p.get('many'):
                s = world.Session(cheap(p['spec']) if m else p['spec'])
            s.op(ctx, dict(p['op'], rs=p['op']['rs'] + m))
            ctx.stats['earlier fits'] += 1
    ctx.set_clock(plan['clk'], plan['cs'])
    verbose = plan['verbose'] if kind in world.FACTOR + world.FEMBV else 0
    s = make(spec, plan['mode'], plan['s'], verbose)
    if plan['clk'] != 'steady' or verbose:
        ctx.nontrivial = True
    for i, op in enumerate(plan['ops']):
        if refs[i] is None:
            continue
        hooks = {}
        if plan['mode'] != 'global':
            for j, (_, _, what) in enumerate(op.get('env', [])):
                if j < len(picks[i]) and picks[i][j]:
                    hooks[picks[i][j]] = foreign(ctx, what, plan['gseed'] + j)
        if hooks:
            ctx.nontrivial = True
        around = op.get('around', [])
        for k in around:
            ctx.stats['surroundings:' + k] += 1
        if around or op.get('thread'):
            ctx.nontrivial = True
        with env.changed(around, plan['gseed'] + i):
            if op.get('thread'):
                ctx.stats['surroundings:other thread'] += 1
                o = env.on_thread(lambda: s.op(ctx, op, reseed=False, hooks=hooks))
            else:
                o = s.op(ctx, op, reseed=False, hooks=hooks)
        ctx.stats['progress writes'] += o.writes
        ctx.log(op['o'], o.brief(), o.writes)
        ctx.mark(kind, op['o'], o.brief()[:6], sorted(hooks), plan['clk'], verbose)
        hist.check_outcome('environment-dependent', '%s call %d (%s), seed given as %s, plain vs '
                           'clock %s, verbose %d, %d earlier fits, %d foreign events, changed '
                           'surroundings %s' % (
                               kind, i, op['o'], plan['mode'], plan['clk'], verbose,
                               len(plan['prehistory']), len(hooks), around), o, refs[i])
    ctx.stats['clock reads'] += ctx.clock.reads
    ctx.stats['fault:clock jumps'] += ctx.clock.jumps
    srv.close()


# ------------------------------------------------------------------ other interpreters

def batch(seed, tier, n, out):
    """Executed in a fresh interpreter: outcomes of n plans in the plain environment."""
    from sim import runner
    me = sys.modules[__name__]
    res = []
    for i in range(n):
        plan = runner.make_plan(me, 'hash%s' % seed, i, tier)
        if os.environ.get('REORSIM_HASHSEED') == '0':
            plan['mem'] = 'zero'
        ctx = core.Ctx(plan)
        world.reset_components(ctx)
        real = sys.stdout
        ctx.install()
        try:
            outs, _ = plain(ctx, plan)
        finally:
            sys.stdout = real
            core.MON.free_tool_id(core.TOOL)
        res.append(outs)
    with open(out, 'wb') as f:
        pickle.dump(res, f)


def main_phase(seed, tier):
    import tempfile
    n = 30 if tier == 'quick' else 200
    seeds = ['0', '4242'] if tier == 'quick' else ['0', '1', '4242', '99']
    d = tempfile.mkdtemp(prefix='reorsim')
    procs = []
    verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    for h in seeds:
        env = {k: v for k, v in os.environ.items()
               if k not in ('REORSIM_BOOTED', 'PYTHONHASHSEED')}
        env['REORSIM_HASHSEED'] = h
        procs.append(subprocess.Popen(
            ['/opt/venv/bin/python', os.path.join(verif, 'check.py'), 'C01', '--batch',
             str(seed), tier, str(n), os.path.join(d, h)], env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    logs = [p.communicate(timeout=600)[0].decode() for p in procs]
    data = []
    for h, p, log in zip(seeds, procs, logs):
        if p.returncode:
            raise core.HarnessError('interpreter with hash seed %s failed: %s' % (h, log[-2000:]))
        with open(os.path.join(d, h), 'rb') as f:
            data.append(pickle.load(f))
        os.unlink(os.path.join(d, h))
    os.rmdir(d)
    v = None
    compared = 0
    for h, other in zip(seeds[1:], data[1:]):
        for i, (a, b) in enumerate(zip(data[0], other)):
            for j, (x, y) in enumerate(zip(a, b)):
                if x is None and y is None:
                    continue
                compared += 1
                dd = 'one call skipped' if (x is None) != (y is None) else core.diff_outcome(x, y)
                if dd and v is None:
                    v = {'property': 'C01', 'class': 'hash-seed-dependent', 'seed': seed,
                         'message': 'plan %d call %d differs between interpreters with hash seeds '
                                    '%s and %s: %s' % (i, j, seeds[0], h, dd),
                         'main': {'seed': seed, 'tier': tier}}
    return v, {'interpreters_with_other_hash_seeds': len(seeds),
               'outcomes_compared_across_interpreters': compared}
