"""Seeded search: plans, forked runs, violations, minimisation, replay, evidence."""
import collections
import copy
import gc
import hashlib
import json
import os
import random
import re
import select
import signal
import struct
import sys
import traceback

from sim import core, mem

RUN_WALL = 300.0         # wall seconds after which one run counts as hung (harness error)
MAX_ERR = 40             # runs that could not be judged, after which a search gives up
WORKERS = int(os.environ.get('REORSIM_WORKERS', '8'))
from sim.clock import real_monotonic as NOW  # noqa: E402


def make_plan(prop, seed, i, tier):
    rng = random.Random('%s/%s/%d' % (prop.ID, seed, i))
    plan = prop.gen(rng, tier)
    if getattr(prop, 'LAYOUTS', False) and rng.random() < 0.12:
        relayout(plan, rng.choice('HHN'))
    plan['prop'] = prop.ID
    plan['mem'] = rng.choice(mem.MODES)
    plan['ent'] = rng.randrange(1000)
    return json.loads(json.dumps(plan))


def relayout(x, lay):
    """All data of the plan in another number format or memory order."""
    if isinstance(x, dict):
        if 'lay' in x:
            x['lay'] = lay
        x = list(x.values())
    if isinstance(x, list):
        for v in x:
            relayout(v, lay)


def execute(prop, plan):
    """Run one plan in this process.  Returns a JSON-able result."""
    from sim import world
    real_out = sys.stdout
    ctx = core.Ctx(plan)
    world.reset_components(ctx)
    res = {'v': None, 'err': None}
    try:
        ctx.install()
        prop.run(ctx, plan)
    except core.Violation as v:
        res['v'] = [v.cls, v.msg[:1500]]
    except core.StepLimit as e:
        res['v'] = ['no-termination', 'a library call passed %d steps without ending (at %s)' % (
            core.STEP_LIMIT, e)]
    except BaseException:
        res['err'] = traceback.format_exc()[-3000:]
    finally:
        sys.stdout = real_out
    res['stats'] = dict(ctx.stats)
    res['h'] = ctx.h.hexdigest()
    res['sig'] = ctx.sig.hexdigest()[:16]
    res['nt'] = bool(ctx.nontrivial)
    res['ev'] = ctx.tracer.total
    res['sim'] = ctx.clock_elapsed()
    res['log'] = ctx.trace_lines if (res['v'] or res['err'] or plan.get('want_log')) else []
    return res


def run_forked(prop, plan, wall=RUN_WALL):
    """Run one plan in a fork of this (pristine) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open('/dev/null', os.O_RDWR)
            os.dup2(devnull, 0)
            res = execute(prop, plan)
            b = json.dumps(res).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(struct.pack('<I', len(b)) + b)
        except BaseException:
            code = 1
            try:
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = NOW() + wall
    hung = False
    while True:
        left = end - NOW()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hung = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if hung:
        return {'v': None, 'err': 'run exceeded %g s of wall time' % wall, 'stats': {}, 'h': '',
                'sig': '', 'nt': False, 'ev': 0, 'sim': 0.0, 'log': [], 'hung': True}
    if len(buf) < 4:
        return {'v': None, 'err': 'run process died without a result', 'stats': {}, 'h': '',
                'sig': '', 'nt': False, 'ev': 0, 'sim': 0.0, 'log': []}
    return json.loads(buf[4:])


def search(prop, tier, seed, n_runs, wall_cap, repeat_every=25, progress=None):
    """Execute runs 0..n_runs-1 on all workers until a violation, an error or the wall cap."""
    t0 = NOW()
    kids = []
    stop_r, stop_w = os.pipe()
    for wk in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                out = os.fdopen(w, 'wb')
                for i in range(wk, n_runs, WORKERS):
                    if NOW() - t0 > wall_cap:
                        break
                    if select.select([stop_r], [], [], 0)[0]:
                        break
                    plan = make_plan(prop, seed, i, tier)
                    res = run_forked(prop, plan)
                    if i % repeat_every == 0 and not res['v'] and not res['err']:
                        res2 = run_forked(prop, plan)
                        res['rep'] = 1
                        res['same'] = int(res2['h'] == res['h'])
                    res['i'] = i
                    b = json.dumps(res).encode()
                    out.write(struct.pack('<I', len(b)) + b)
                    out.flush()
                out.close()
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        kids.append([pid, r, b''])
    results = []
    open_fds = {k[1]: k for k in kids}
    stopped = False
    n_err = 0
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in ready:
            k = open_fds[fd]
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                os.close(fd)
                del open_fds[fd]
                continue
            k[2] += chunk
            while len(k[2]) >= 4:
                n = struct.unpack('<I', k[2][:4])[0]
                if len(k[2]) < 4 + n:
                    break
                res = json.loads(k[2][4:4 + n])
                k[2] = k[2][4 + n:]
                results.append(res)
                n_err += bool(res['err'])
                if (res['v'] or n_err > MAX_ERR) and not stopped and \
                        not os.environ.get('REORSIM_ALL'):
                    stopped = True
                    os.write(stop_w, b'x')
    for pid, _, _ in kids:
        os.waitpid(pid, 0)
    os.close(stop_r)
    os.close(stop_w)
    results.sort(key=lambda x: x['i'])
    return results, NOW() - t0


# ------------------------------------------------------------------ minimisation

SHRINK_LISTS = ('ops', 'threads', 'faults', 'switches', 'solver', 'env', 'prehistory', 'queries',
                'history', 'segments')


def _paths(x, path=()):
    """Paths of all lists that may be shortened."""
    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, list) and k in SHRINK_LISTS:
                yield path + (k,)
            yield from _paths(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _is_fit(op):
    return isinstance(op, dict) and str(op.get('o', '')).startswith('fit')


def _orphans(ops, a, b):
    return any(_is_fit(op) for op in ops[a:b]) and b < len(ops) and not _is_fit(ops[b])


def _candidates(plan, keep=()):
    for path in list(_paths(plan)):
        n = len(_get(plan, path))
        size = n
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(plan)
                if _orphans(_get(c, path), a, a + size):
                    continue            # a query may rely on the fit before it
                del _get(c, path)[a:a + size]
                if path and path[-1] == 'seq':      # the length of the data follows
                    left = len(_get(c, path))
                    if left < 9:
                        continue
                    _get(c, path[:-1])['n'] = left
                yield c
            size //= 2

    def dicts(x, path=()):
        if isinstance(x, dict):
            yield path
            for k, v in x.items():
                yield from dicts(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                yield from dicts(v, path + (i,))
    regressions = '"fvx"' in json.dumps(plan) or '"pwv"' in json.dumps(plan)
    simple = {'fault': None, 'lay': 'C', 'verbose': 0, 'sc': 1, 'st': None, 'delta': 0,
              'mem': None, 'spg': None, 'kernel': None, 'solver': None, 'clock': ['steady', 0],
              'gran': 'line', 'k': 'gauss'}
    for path in dicts(plan):
        d = _get(plan, path)
        for k, v in list(d.items()):
            if k in simple and k not in keep and v != simple[k] and not (k == 'k' and not isinstance(v, str)):
                if k == 'st' and 'a' in d:
                    continue            # the status of a failing solver, not an option
                c = copy.deepcopy(plan)
                if k == 'fault':
                    e = copy.deepcopy(plan)
                    del _get(e, path)[k]
                    yield e
                _get(c, path)[k] = simple[k]
                yield c
    for path in dicts(plan):
        d = _get(plan, path)
        for k in ('n', 'mi', 'h', 'j', 'm', 'T'):
            v = d.get(k)
            if isinstance(v, int) and not isinstance(v, bool):
                for w in sorted({1, v // 2, v - 1}):
                    if k == 'n' and ('seq' in d or 'sc' in d and (w < 9 or regressions)):
                        continue        # too short for the model is another matter
                    if 0 < w < v:
                        c = copy.deepcopy(plan)
                        _get(c, path)[k] = w
                        if k == 'n':    # data sets of one length stay of one length
                            for other in dicts(plan):
                                e = _get(c, other)
                                if e.get('n') == v and 'sc' in e and 'seq' not in e:
                                    e['n'] = w
                        yield c


def kind_of(v):
    """What a violation is about: shrinking must not turn one into another."""
    m = re.search(r'raised (\w+)\(', v[1])
    return v[0], m and m.group(1)


def minimise(prop, plan, v, budget):
    kind = kind_of(v)
    end = NOW() + budget
    tried = accepted = 0
    best = plan
    seen = set()
    improved = True
    while improved and NOW() < end:
        improved = False
        for c in _candidates(best, getattr(prop, 'KEEP', ())):
            if NOW() > end:
                break
            key = hashlib.sha256(json.dumps(c, sort_keys=True).encode()).digest()
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            res = run_forked(prop, c, wall=15)
            if res['v'] and kind_of(res['v']) == kind:
                best = c
                accepted += 1
                improved = True
                break
    return best, tried, accepted


# ------------------------------------------------------------------ top level

def replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    if 'main' in rep:
        v, _ = prop.main_phase(**rep['main'])
        if v:
            print('%s: %s' % (v['class'], v['message']))
            print('VIOLATION property=%s replay=%s' % (prop.ID, path))
            return 1
        print('no violation')
        return 0
    plan = rep['plan']
    plan['want_log'] = True
    res = run_forked(prop, plan)
    for line in res['log']:
        print('  ' + line)
    if res['err']:
        print('ERROR ' + res['err'])
        return 2
    if res['v']:
        print('%s: %s' % tuple(res['v']))
        same = res['h'] == rep.get('hash')
        print('reproduced exactly' if same else 'reproduced, but the event log differs')
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        return 1
    print('no violation')
    return 0


def main(prop, tier, seed, verif):
    from sim import props
    n_runs, cap = prop.BUDGET[tier]
    if os.environ.get('REORSIM_RUNS'):
        n_runs = int(os.environ['REORSIM_RUNS'])
    gc.collect()
    gc.freeze()
    t0 = NOW()
    extra = {}
    pre = getattr(prop, 'main_phase', None)
    results, wall = search(prop, tier, seed, n_runs, cap)
    bad = [r for r in results if r['v']]
    err = [r for r in results if r['err']]
    hung = [r for r in err if r.get('hung')]
    main_v = None
    if pre is not None and not bad and not err:
        main_v, extra = pre(seed, tier)
    stats = collections.Counter()
    for r in results:
        stats.update(r['stats'])
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')}
    probes = {k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')}
    sigs = {r['sig'] for r in results if r['nt']}
    samples = []
    for r in [x for x in results if x['nt']][:2] or results[:1]:
        samples.append(make_plan(prop, seed, r['i'], tier))
    ev = {
        'property': prop.ID, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(sigs),
            'rule': prop.RULE,
            'samples': samples,
            'runs_planned': n_runs,
            'runs_not_judged': len(err),
            'runs_per_hour': round(len(results) / max(wall, 1e-9) * 3600),
            'seeds_per_hour': round(len(results) / max(wall, 1e-9) * 3600),
            'library_steps_executed': sum(r['ev'] for r in results),
            'simulated_seconds': round(sum(r['sim'] for r in results), 3),
            'faults_fired': faults,
            'probes': probes,
            'real_components': prop.REAL,
            'stub_components': prop.STUB,
            'runs_executed_twice': sum(r.get('rep', 0) for r in results),
            'runs_repeating_exactly': sum(r.get('same', 0) for r in results),
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(NOW() - t0, 2),
        'violations': len(bad) + (1 if main_v else 0),
    }
    ev['coverage'].update(extra)
    os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
    rc = 0
    if bad and not os.environ.get('REORSIM_ALL'):
        r = bad[0]
        plan = make_plan(prop, seed, r['i'], tier)
        cls = r['v'][0]
        best, tried, acc = minimise(prop, plan, r['v'], float(os.environ.get('REORSIM_MINIMISE', 40)))
        best = dict(best, want_log=True)
        fin = run_forked(prop, best)
        if not fin['v']:
            best = dict(plan, want_log=True)
            fin = run_forked(prop, best)
        os.makedirs(os.path.join(verif, 'replays'), exist_ok=True)
        path = os.path.join(verif, 'replays', '%s-%s-%d.json' % (prop.ID, seed, r['i']))
        with open(path, 'w') as f:
            json.dump({'property': prop.ID, 'seed': seed, 'run': r['i'], 'class': cls,
                       'message': (fin['v'] or r['v'])[1], 'plan': best, 'hash': fin['h'],
                       'log': fin['log'], 'minimiser': {'tried': tried, 'accepted': acc}}, f,
                      indent=1)
        print('%s: %s' % tuple(fin['v'] or r['v']))
        print('run %d of seed %s; minimised by %d of %d attempts' % (r['i'], seed, acc, tried))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        rc = 1
    elif main_v:
        os.makedirs(os.path.join(verif, 'replays'), exist_ok=True)
        path = os.path.join(verif, 'replays', '%s-%s-main.json' % (prop.ID, seed))
        with open(path, 'w') as f:
            json.dump(main_v, f, indent=1)
        print('%s: %s' % (main_v['class'], main_v['message']))
        print('VIOLATION property=%s replay=%s' % (prop.ID, path))
        rc = 1
    elif os.environ.get('REORSIM_ALL'):
        for r in bad:
            print('run %d: %s: %s' % (r['i'], r['v'][0], r['v'][1][:400]))
        for r in err:
            print('run %d: ERROR %s' % (r['i'], r['err'][-700:]))
        rc = 1 if bad else (2 if err else 0)
    elif err:
        for r in err[:3]:
            print('run %d: ERROR %s' % (r['i'], r['err']))
        print('%d of %d runs could not be judged (%d hung)' % (len(err), len(results), len(hung)))
        # a few of them (a loaded machine) leave the rest of the search standing
        rc = 2 if len(err) > max(2, len(results) // 100) else 0
    elif not results:
        print('ERROR: no run was executed')
        rc = 2
    for line in props.known_findings(prop.ID, verif):
        print(line)
    with open(os.path.join(verif, 'evidence', prop.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d runs (%d planned), %d distinct non-trivial, %d steps, faults %s, %.1f s' % (
        prop.ID, tier, len(results), n_runs, len(sigs), ev['coverage']['library_steps_executed'],
        sum(faults.values()), ev['wall_s']))
    return rc
