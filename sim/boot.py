"""Process bootstrap: fixed interpreter environment, source-only import of reor, time seam.

Everything that must happen before reor is imported happens here.
"""
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

PYTHON = '/opt/venv/bin/python'
REPO_SRC = os.environ.get('REORSIM_SRC', '/repo/src')
FIXED_ENV = {
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'MPLBACKEND': 'Agg',
    'PYTHONPATH': '', 'REORSIM_BOOTED': '1',
}


def reexec_if_needed(script):
    """Re-execute under the repository's virtual environment with a fixed environment."""
    if os.environ.get('REORSIM_BOOTED') == '1':
        return
    env = dict(os.environ)
    env.update(FIXED_ENV)
    env.setdefault('REORSIM_HASHSEED', '0')
    env['PYTHONHASHSEED'] = env['REORSIM_HASHSEED']
    os.execve(PYTHON, [PYTHON, '-X', 'faulthandler', script] + sys.argv[1:], env)


class _SourceOnlyLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the source of the working tree; never reads or writes bytecode files."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _ReorFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'reor' and not fullname.startswith('reor.'):
            return None
        rel = os.path.join(REPO_SRC, *fullname.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            loc = os.path.join(rel, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, loc, loader=_SourceOnlyLoader(fullname, loc),
                submodule_search_locations=[rel])
        if os.path.exists(rel + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, rel + '.py', loader=_SourceOnlyLoader(fullname, rel + '.py'))
        return None


BEFORE = {'hook': None}      # called with a routine's name before the routine; may raise


def _finite_problem(problem, *a, **k):
    """Some solvers never return if the problem's data are not finite; refuse it instead."""
    import cvxpy
    import numpy as np
    for c in problem.constants():
        v = c.value
        if not np.all(np.isfinite(getattr(v, 'data', v) if hasattr(v, 'tocsr') else v)):
            raise cvxpy.error.SolverError('problem data are not finite')


def _seam(owner, attr, name, check=None):
    """Put a routine the library calls behind a seam that can fail."""
    real = getattr(owner, attr)

    @functools.wraps(real)
    def routine(*a, **k):
        if BEFORE['hook'] is not None:
            BEFORE['hook'](name)
            if check is not None:
                check(*a, **k)
        return real(*a, **k)
    routine.real = real
    setattr(owner, attr, routine)


def load():
    """Import the numerical stack, install the time seam, then import reor."""
    import warnings
    warnings.simplefilter('ignore')
    # numerical stack first, so that it keeps its own bindings where it took any
    import numpy  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.sparse  # noqa: F401
    import cvxpy  # noqa: F401
    import sklearn.cluster  # noqa: F401
    import sklearn.mixture  # noqa: F401
    import sklearn.svm  # noqa: F401
    import sklearn.neighbors  # noqa: F401
    import multiprocessing  # noqa: F401
    # exercise every lazy import once before anything is patched
    x = cvxpy.Variable(2)
    for s in ('CLARABEL', 'HIGHS', 'SCIPY'):
        cvxpy.Problem(cvxpy.Minimize(cvxpy.sum(x)), [x >= 0]).solve(solver=s)
    import numpy as np
    sklearn.cluster.KMeans(2, n_init=1, random_state=0).fit(np.arange(8.).reshape(4, 2))
    sklearn.svm.SVC().fit(np.arange(8.).reshape(4, 2), [0, 1, 0, 1])

    from sim import clock
    clock.install()
    # numerical routines are reached through seams that can fail
    _seam(np.linalg, 'lstsq', 'lstsq')
    _seam(cvxpy.Problem, 'solve', 'lp', _finite_problem)
    for attr in ('fit', 'predict', 'fit_predict', 'transform'):
        _seam(sklearn.cluster.KMeans, attr, 'kmeans')
    for attr in ('fit', 'predict'):
        _seam(sklearn.svm.SVC, attr, 'svc')
    # uninitialised memory holds what the simulation put there
    from sim import mem
    mem.install(REPO_SRC.rstrip('/') + '/reor/')
    from sim import entropy
    entropy.install(REPO_SRC.rstrip('/') + '/reor/')
    sys.meta_path.insert(0, _ReorFinder())
    for name in ('archetypal_analysis', 'gpnh_convex_coding', 'gpnh_convex_coding_crom',
                 'mtd_convex_coding', 'fembv', 'fembv_kmeans', 'fembv_varx', 'crom', 'pwvarx',
                 'furthest_sum', 'simplex_projection', 'spg', '_random_matrix', '_validation'):
        full = 'reor.' + name
        if importlib.util.find_spec(full) is not None:
            m = importlib.import_module(full)
            if not os.path.abspath(m.__file__).startswith(os.path.abspath(REPO_SRC) + '/'):
                raise RuntimeError('%s imported from %s' % (full, m.__file__))
