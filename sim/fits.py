"""Shared by the properties about iterative fits: starting points, prefix executions, costs."""
import copy

import numpy as np

from sim import core, hist, oracles, world


def iterative_spec(rng, kinds=None, **force):
    spec = world.gen_spec(rng, rng.choice(kinds or (world.FACTOR + world.FEMBV)))
    o = spec['o']
    o.pop('mem', None)
    o['verbose'] = int(rng.random() < 0.1)
    o.update(force)
    return spec


def accurate(spec):
    """Solvers whose answers are accurate enough for monotonicity statements."""
    if spec['kind'] in world.FEMBV and spec['o'].get('solver') is None:
        spec['o']['solver'] = None
    return spec


def session(spec, mi=None, tol=None, mono=None, **kw):
    sp = copy.deepcopy(spec)
    if mi is not None:
        sp['o']['mi'] = mi
    if tol is not None:
        sp['o']['tol'] = tol
    s = world.Session(sp, **kw)
    if mono is not None:
        s.model.require_monotonic_cost_decrease = mono
    return s


def weights_of(s, raw):
    """Weights a completed fit ended with, if the public interface shows them."""
    if raw and isinstance(raw[0], np.ndarray):
        return raw[0]
    return getattr(s.model, 'Gamma', None)


def cost_now(spec, s, X, U, W):
    """(objective at the fitted parameters and weights W, scale of its terms)."""
    m = s.model
    if spec['kind'] in world.FEMBV:
        D = oracles.fembv_distances(spec, s.params(), X, U)
        W = np.asarray(W, dtype=float)
        X = np.asarray(X, dtype=float)
        return float((W * D).sum()), float((np.abs(W) * D).sum() + (X * X).sum() + 1e-300)
    return oracles.model_objective(spec, X, m, W)


def has_start(spec, kw):
    """Are all starting values given?"""
    return 'weights' in kw and (spec['kind'] in world.FEMBV or (
        'dictionary' in kw and (spec['kind'] != 'mtd' or 'order_weights' in kw)))


def start_cost(spec, start, X, U):
    """Objective at the custom starting values."""
    kind, o = spec['kind'], spec['o']
    if kind in world.FEMBV:
        if kind == 'fkm':
            p = {'Theta': start['parameters']}
        else:
            p = dict(start['parameters'])
            p['memory'] = oracles.fembv_memory(spec)
        D = oracles.fembv_distances(spec, p, X, U)
        return float((np.asarray(start['weights']) * D).sum())
    return oracles.objective(kind, o, oracles.obj_matrix(spec, X), start['weights'],
                             start['dictionary'], start.get('order_weights'),
                             start.get('transition_matrices'))


def exog(inp):
    return inp.kw.get('external_factors')


def max_warned(out):
    """Did the call warn that the maximum number of iterations was reached?"""
    return any('aximum' in w[2] and issubclass(UserWarning, Warning) and
               w[1] in ('UserWarning', 'ConvergenceWarning', 'RuntimeWarning')
               for w in out.warned)


def mono_error(exc):
    return isinstance(exc, RuntimeError) and 'cost increased' in str(exc)


def refused(exc, d=None):
    """Why an otherwise valid fit may be refused, or None."""
    if mono_error(exc):
        return 'cost increased'
    if isinstance(exc, ValueError) and 'Too few point' in str(exc):
        return 'too few points'
    if type(exc).__name__ == 'SolverError' and d is not None and d.get('sc', 1) >= 100:
        # the solver itself gives up on numbers that large
        return 'solver failed'
    return None
