#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
T = {
    'C01': ('seeded environments (clock, stdout, foreign random draws, prior work, hash seed)',
            'Seeded exploration. Equality of every outcome between environments; assumes the '
            'installed numpy/scipy/cvxpy builds are deterministic.'),
    'C02': ('random-generator seam owned by the simulator',
            'Seeded exploration; generator states compared bit by bit around every call.'),
    'C03': ('seeded preemptive thread scheduler at line/bytecode boundaries vs solo runs',
            'Seeded exploration of interleavings; calls into native code are atomic.'),
    'C04': ('call histories with injected aborts vs fresh object in a pristine process',
            'Seeded exploration; aborts at line boundaries of reor code.'),
    'C05': ('query histories with injected aborts vs single query after a fresh fit',
            'Seeded exploration; aborts at line boundaries of reor code.'),
    'C06': ('input and result fingerprints over call histories with aborts and buffer reuse',
            'Seeded exploration; aborts at line boundaries of reor code.'),
    'C07': ('feasibility invariants over histories, warm-start chains, solver faults',
            'Seeded exploration with explicit rounding tolerances.'),
    'C08': ('stop / crash / resume segments, cost chain vs independent objective',
            'Seeded exploration with explicit rounding tolerances.'),
    'C09': ('prefix executions over iteration budgets vs independent objective',
            'Seeded exploration; n_iter_ of archetypal analysis is a listed known finding.'),
    'C10': ('simulated LP solver statuses and exceptions',
            'Seeded exploration over scripts of solver outcomes.'),
    'C11': ('simulated LP solver choosing among optima, independent LP oracle',
            'Seeded exploration; optimality within solver accuracy.'),
    'C12': ('pickle/deepcopy at random points of histories with crashes, vs uncopied reference',
            'Seeded exploration.'),
    'C13': ('histories of fit variants vs counting model',
            'Seeded exploration.'),
    'C14': ('histories with aborts vs reference recursion',
            'Seeded exploration.'),
    'C15': ('simulated clusterer/classifier labels and failures vs independent regression',
            'Seeded exploration.'),
    'C16': ('one injected exception per call at any line or seam; identity and retry',
            'Seeded exploration; faults at line boundaries of reor code and at seams.'),
    'C17': ('progress after faults stop: independent stationarity oracle',
            'Seeded exploration; threshold calibrated on stationary points.'),
    'C18': ('solver and iteration-budget schedules vs independent least squares',
            'Seeded exploration.'),
    'C25': ('process-wide settings, audit events and reachable memory over repeated histories '
            'with faults',
            'Seeded exploration; aborts at line boundaries of reor code.'),
    'C26': ('recorded output device and simulated clocks vs executions that stop earlier',
            'Seeded exploration; costs compared to the printed precision.'),
}
NA = {
    'C19': 'pure function of its argument: no schedule, time, I/O, fault, history or randomness '
           'for a simulator to decide',
    'C20': 'pure function of its arguments (selection is deterministic): nothing to simulate',
    'C21': 'pure functions of the data and factors: nothing to simulate',
    'C22': 'argument validation is a pure function of the call: nothing to simulate',
    'C23': 'equality of two pure computations with the same seed: nothing to simulate',
    'C24': 'pure function of the shape and the random stream: nothing to simulate',
}


def main():
    checks = []
    for pid in sorted(T):
        if not os.path.exists(os.path.join(VERIF, 'sim', 'props', pid.lower() + '.py')):
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': TECH + T[pid][0],
            'level': 'exploration',
            'level_note': T[pid][1],
        })
    na = [{'property': k, 'reason': v} for k, v in sorted(NA.items())]
    have = {c['property'] for c in checks}
    na += [{'property': k, 'reason': 'check not built yet'} for k in sorted(T) if k not in have]
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
         'not_applicable': na,
         'notes': 'No hooks in /repo. Replay a violation with: python3 check.py <id> --replay FILE'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
