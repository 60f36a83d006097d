"""Independent reference computations: objectives, feasibility, linear programs, regressions."""
import itertools

import numpy as np
import scipy.optimize
import scipy.sparse

from sim import core

V = core.Violation


# ------------------------------------------------------------------ feasibility

def check_rows(name, a, tol_neg, tol_sum):
    """Rows non-negative and summing to one."""
    a = np.asarray(a, dtype=float)
    if not np.all(np.isfinite(a)):
        raise V('not-finite', '%s: %s' % (name, core.short(a)))
    if a.min(initial=0) < -tol_neg:
        raise V('negative', '%s has an entry %.6g' % (name, a.min()))
    s = a.sum(axis=-1)
    e = np.abs(s - 1).max(initial=0)
    if e > tol_sum:
        raise V('not-normalised', '%s: sums off by %.3g: %s' % (name, e, core.short(s)))


def fembv_tol(scale=1.0):
    return 1e-6, 1e-5


# ------------------------------------------------------------------ objectives

def pair_penalty(S):
    k, d = S.shape
    if k == 1:
        return 0.0
    t = 0.0
    for i in range(k):
        for j in range(k):
            if i != j:
                t += ((S[i] - S[j]) ** 2).sum()
    return t / (d * k * (k - 1))


def lagged(G, lags, ow, P):
    m = max(lags)
    n = len(G)
    Z = np.zeros((n - m, G.shape[1]))
    for i, lag in enumerate(lags):
        for t in range(m, n):
            Z[t - m] += ow[i] * P[i].dot(G[t - lag])
    return Z


def objective(kind, o, X, W, D, ow=None, P=None):
    """Cost of the factorisation kinds, coded from the definition."""
    W = np.asarray(W, dtype=float)
    D = np.asarray(D, dtype=float)
    X = np.asarray(X, dtype=float)
    if kind in ('kaa', 'aa'):           # X is the kernel matrix
        R = np.eye(X.shape[0]) - W.dot(D)
        return float(np.einsum('ij,jk,ik->', R, X, R))
    n, d = X.shape
    R = X - W.dot(D)
    c = (R * R).sum() / (n * d) + o['eps'] * pair_penalty(D)
    if kind == 'mtd' and D.shape[0] > 1:
        lags = o['lags'] or [1]
        m = max(lags)
        if n > m:
            Z = lagged(W, lags, ow, P)
            c += o['epsw'] * ((W[m:] - Z) ** 2).sum() / (D.shape[0] * (n - m))
    return float(c)


def objective_scale(kind, o, X, W, D):
    """Size of the terms the objective is a difference of (for rounding allowances)."""
    X = np.asarray(X, dtype=float)
    if kind in ('kaa', 'aa'):
        K = X
        A = np.abs(np.asarray(W).dot(np.asarray(D)))
        return float(np.abs(np.trace(K)) + np.einsum('ij,jk,ik->', A, np.abs(K), A) + 1e-300)
    n, d = X.shape
    return float((X * X).sum() / (n * d) + (1 + o.get('eps', 0)) * (np.asarray(D) ** 2).sum() +
                 o.get('epsw', 0) + 1e-300)


def kernel_of(spec, X):
    """Kernel matrix the archetypal analyses work with."""
    X = np.asarray(X, dtype=float)
    if spec['kind'] == 'kaa':
        return X
    how = spec['o'].get('kernel')
    if how is None:
        return X.dot(X.T)
    from sim import world
    return world.KernelFunc(how)(X)


def obj_matrix(spec, X):
    return kernel_of(spec, X) if spec['kind'] in ('kaa', 'aa') else np.asarray(X, dtype=float)


def model_objective(spec, X, model, W, transform=False):
    """(objective of the model at the weights W, scale)."""
    kind, o = spec['kind'], spec['o']
    M = obj_matrix(spec, X)
    D = np.asarray(model.dictionary_)
    ow = getattr(model, 'order_weights', None)
    P = getattr(model, 'transition_matrices', None)
    return (objective(kind, o, M, W, D, ow, P), objective_scale(kind, o, M, W, D))


# ------------------------------------------------------------------ FEM-BV

def fembv_memory(spec):
    o = spec['o']
    m = o.get('memory') or 0
    k = o['k']
    return list(m) if isinstance(m, (list, tuple)) else [m] * k


def fembv_distances(spec, params, X, U=None):
    """Squared residuals of every component for every weighted sample."""
    X = np.asarray(X, dtype=float)
    n = len(X)
    if spec['kind'] == 'fkm':
        T = np.asarray(params['Theta'], dtype=float)
        return ((X[:, None, :] - T[None]) ** 2).sum(axis=2)
    mem = [int(v) for v in params['memory']]
    m = max(mem)
    k = len(mem)
    D = np.zeros((n - m, k))
    for i in range(k):
        for t in range(m, n):
            p = np.array(params['mu'][i], dtype=float)
            for tau in range(1, mem[i] + 1):
                p = p + np.asarray(params['A'])[i, tau - 1].dot(X[t - tau])
            if U is not None:
                p = p + np.asarray(params['B0'])[i].dot(np.asarray(U, dtype=float)[t])
            D[t - m, i] = ((X[t] - p) ** 2).sum()
    return D


def tv(G):
    return np.abs(np.diff(np.asarray(G, dtype=float), axis=0)).sum(axis=0)


def lp_optimum(D, bound):
    """Minimum of sum(G * D) over stochastic rows with total variation <= bound per column."""
    n, k = D.shape
    if bound is None or bound < 0:
        return float(D.min(axis=1).sum())
    if k == 1:
        return float(D.sum())
    nv = n * k + (n - 1) * k
    c = np.concatenate([D.ravel(), np.zeros((n - 1) * k)])
    rows, cols, vals = [], [], []
    b = []
    r = 0
    for t in range(n - 1):
        for i in range(k):
            for sgn in (1.0, -1.0):
                rows += [r, r, r]
                cols += [(t + 1) * k + i, t * k + i, n * k + t * k + i]
                vals += [sgn, -sgn, -1.0]
                b.append(0.0)
                r += 1
    for i in range(k):
        for t in range(n - 1):
            rows.append(r)
            cols.append(n * k + t * k + i)
            vals.append(1.0)
        b.append(float(bound))
        r += 1
    A_ub = scipy.sparse.csr_matrix((vals, (rows, cols)), shape=(r, nv))
    A_eq = scipy.sparse.csr_matrix(
        (np.ones(n * k), (np.repeat(np.arange(n), k), np.arange(n * k))), shape=(n, nv))
    s = np.abs(D).max() or 1.0
    res = scipy.optimize.linprog(c / s, A_ub=A_ub, b_ub=b, A_eq=A_eq, b_eq=np.ones(n),
                                 bounds=[(0, None)] * nv, method='highs')
    if res.status != 0:
        raise core.HarnessError('reference LP: %s' % res.message)
    return float(res.fun * s)


def wls(Z, Y, w):
    """Objective value of the weighted least-squares optimum."""
    s = np.sqrt(w)[:, None]
    q = np.linalg.lstsq.real(s * Z, s * Y, rcond=None)[0]
    return float(((s * (Y - Z.dot(q))) ** 2).sum())


def varx_design(X, U, p, m):
    """Regressors [1, x_{t-1}, ..., x_{t-p}, u_t] for t >= m."""
    X = np.asarray(X, dtype=float)
    n = len(X)
    cols = [np.ones((n - m, 1))]
    for tau in range(1, p + 1):
        cols.append(X[m - tau:n - tau])
    if U is not None:
        cols.append(np.asarray(U, dtype=float)[m:])
    return np.hstack(cols)


def all_sequences(labels, k):
    return itertools.product(range(k), repeat=labels)


# ------------------------------------------------------------------ optimisation oracles

def project_simplex(v):
    u = np.sort(v)[::-1]
    c = np.cumsum(u) - 1
    rho = np.nonzero(u - c / np.arange(1, len(u) + 1) > 0)[0][-1]
    return np.maximum(v - c[rho] / (rho + 1.0), 0)


def project_rows(M):
    return np.array([project_simplex(r) for r in M])
