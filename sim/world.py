"""Estimators under simulation: specifications, data, operations, fitted state.

Everything here is described by JSON values, so that a plan is a replay file.  Only the public
interface of reor is used: constructors, fit / fit_transform / transform / inverse_transform /
predict and fitted attributes.
"""
import copy
import warnings

import numpy as np

from reor.archetypal_analysis import ArchetypalAnalysis, KernelAA
from reor.crom import KMeansMarkovCROM
from reor.fembv_kmeans import FEMBVKMeans
from reor.fembv_varx import FEMBVVARX
from reor.gpnh_convex_coding import GPNHConvexCoding
from reor.gpnh_convex_coding_crom import GPNHConvexCodingCROM
from reor.mtd_convex_coding import MTDConvexCoding
from reor.pwvarx import ClusterPWVARX
from sklearn.cluster import KMeans
from sklearn.neighbors import KNeighborsClassifier
from sklearn.svm import SVC

from sim import boot, core

ALL = ('kaa', 'aa', 'gpnh', 'crom', 'mtd', 'fkm', 'fvx', 'mkc', 'pwv')
FACTOR = ('kaa', 'aa', 'gpnh', 'crom', 'mtd')
FEMBV = ('fkm', 'fvx')

PARAMS = {          # fitted parameters that queries must never change
    'kaa': ('dictionary_', 'cost_', 'n_iter_', 'n_components_'),
    'aa': ('dictionary_', 'cost_', 'n_iter_', 'n_components_'),
    'gpnh': ('dictionary_', 'cost_', 'n_iter_', 'n_components_'),
    'crom': ('dictionary_', 'cost_', 'n_iter_', 'n_components_', 'lags', 'order_weights',
             'transition_matrices'),
    'mtd': ('dictionary_', 'cost_', 'n_iter_', 'n_components_', 'lags', 'order_weights',
            'transition_matrices'),
    'fkm': ('Theta', 'cost_', 'n_iter_', 'n_components_'),
    'fvx': ('mu', 'A', 'B0', 'cost_', 'n_iter_', 'n_components_', 'memory'),
    'mkc': ('cluster_centers_', 'labels_', 'inertia_', 'n_iter_', 'transition_matrix_'),
    'pwv': ('mu', 'A', 'B', 'Sigma_u', 'residuals', 'cluster_labels_'),
}
QUERIES = {
    'kaa': ('transform', 'inverse'), 'aa': ('transform', 'inverse'),
    'gpnh': ('transform', 'inverse'), 'crom': ('transform', 'inverse', 'predict'),
    'mtd': ('transform', 'inverse', 'predict'), 'fkm': ('transform',), 'fvx': ('transform',),
    'mkc': ('transform', 'predict'), 'pwv': ('transform',),
}


# ------------------------------------------------------------------ user components

CTRL = {'ctx': None, 'faults': {}}      # per process; reset by reset_components()


def reset_components(ctx):
    CTRL['ctx'] = ctx
    CTRL['faults'] = {}
    boot.BEFORE['hook'] = component_called


def arm_component(name, n, exc):
    CTRL['faults'][name] = [n, exc, None]


def component_fired():
    for f in CTRL['faults'].values():
        if f[2] is not None:
            return f[2]
    return None


def disarm_components():
    CTRL['faults'] = {}


def component_called(name):
    f = CTRL['faults'].get(name)
    if f is not None and f[2] is None:
        f[0] -= 1
        if f[0] <= 0:
            f[2] = core.make_exc(f[1])
            CTRL['ctx'].stats['fault:%s:%s' % (name, f[1])] += 1
            raise f[2]


class KernelFunc:
    """User-supplied kernel; caches its last result like a user's function well may."""

    def __init__(self, how):
        self.how = how

    def __call__(self, data):
        component_called('kernel')
        data = np.asarray(data, dtype=float)
        if self.how == 'linear':
            return data.dot(data.T)
        if self.how == 'poly':
            return (1.0 + data.dot(data.T)) ** 2
        d2 = ((data[:, np.newaxis, :] - data[np.newaxis]) ** 2).sum(axis=2)
        return np.exp(-0.5 * d2)


class StubClusterer:
    """Clusterer whose labels are whatever the plan says."""

    def __init__(self, labels, ldata=0):
        self.labels = list(labels)
        self.ldata = ldata

    def fit_predict(self, z):
        component_called('clusterer')
        n = len(z)
        j = 0
        if self.ldata:      # labels that depend on the data; sometimes all the same
            j = int(np.abs(np.asarray(z, dtype=float)).sum() * 1e3) % (len(self.labels) + 3)
            if j >= len(self.labels):
                return np.full(n, self.labels[(j - len(self.labels)) % len(self.labels)],
                               dtype='i8')
        return np.array([self.labels[(i + j) % len(self.labels)] for i in range(n)], dtype='i8')


class StubClassifier:
    """Classifier that labels by hyperplanes of the plan, or by a memorised labelling."""

    def __init__(self, how, k, coef, off=0, dtype='i8'):
        self.how = how
        self.k = k
        self.coef = list(coef)
        self.off = off          # labels need not start from zero
        self.dtype = dtype      # nor be integers

    def fit(self, x, labels):
        component_called('classifier.fit')
        if self.how == 'memory':
            self.x_ = np.array(x)
            self.y_ = np.array(labels)
        return self

    def predict(self, x):
        component_called('classifier.predict')
        return np.asarray(self.labels(np.asarray(x)) + self.off, dtype=self.dtype)

    def labels(self, x):
        if self.how == 'hash':
            v = np.floor(np.abs(np.asarray(x, dtype=float)).sum(axis=1) * 1e3)
            return (v.astype('i8') * 7919 // 13) % self.k
        if self.how == 'memory':
            d = ((x[:, np.newaxis, :] - self.x_[np.newaxis]) ** 2).sum(axis=2)
            return self.y_[d.argmin(axis=1)]
        c = np.resize(np.asarray(self.coef, dtype=float), x.shape[1])
        v = x.dot(c)
        return np.clip(np.floor(v * 2 + self.k / 2.0), 0, self.k - 1).astype('i8')


class Recorder:
    """Wraps a clusterer or classifier; can fail, remembers what it answered last."""

    def __init__(self, inner, name):
        self.inner = inner
        self.name = name
        self.last = None

    def __getattr__(self, attr):
        if attr.startswith('__') or 'inner' not in self.__dict__:
            raise AttributeError(attr)
        return getattr(self.inner, attr)

    def fit(self, x, labels):
        component_called(self.name + '.fit')
        self.inner.fit(x, labels)
        return self

    def predict(self, x):
        component_called(self.name + '.predict')
        self.last = np.array(self.inner.predict(x))
        return np.array(self.last)

    def fit_predict(self, z):
        component_called(self.name)
        self.last = np.array(self.inner.fit_predict(z))
        return np.array(self.last)


# ------------------------------------------------------------------ data

def tame(spec, d):
    """Interior-point solvers give up on numbers that are too large."""
    if spec['kind'] in FEMBV and d['sc'] > 50:
        d['sc'] = 50
    return d


def gen_data(rng, n=None, d=None, lo=7, hi=18, kinds=None):
    n = n or rng.randint(lo, hi)
    d = d or rng.choice([1, 2, 2, 3, 4])
    kind = rng.choice(kinds or ['gauss', 'gauss', 'clusters', 'simplex', 'ar', 'regimes', 'ties',
                                'int', 'offset', 'dup', 'tail'])
    return {'s': rng.randrange(10 ** 6), 'n': n, 'd': d, 'k': kind,
            'sc': rng.choice([1, 1, 1, 1, 0.1, 5]) if rng.random() < 0.94 else
            rng.choice([1e-3, 1e3]),
            'lay': rng.choice(['C', 'C', 'C', 'F', 'S', 'R'])}


def base_array(ds):
    r = np.random.RandomState(ds['s'])
    n, d, k = ds['n'], ds['d'], ds['k']
    if k == 'seq':
        # visits of separated (or, for sp=0, coinciding) places in a given order
        c = ds['sp'] * np.random.RandomState(ds['cs']).randn(max(ds['seq']) + 1, d)
        return c[np.asarray(ds['seq'])] + ds['nz'] * r.randn(n, d)
    if k == 'clusters':
        c = 3 * r.randn(3, d)
        x = c[r.randint(3, size=n)] + 0.3 * r.randn(n, d)
    elif k == 'simplex':
        w = r.dirichlet(np.ones(3), size=n)
        x = w.dot(r.randn(3, d))
    elif k in ('ar', 'regimes'):
        x = np.zeros((n, d))
        e = r.randn(n, d)
        reg = (np.arange(n) // max(2, n // 3)) % 2
        for t in range(n):
            p = x[t - 1] if t else 0
            if k == 'ar':
                x[t] = 0.7 * p + e[t]
            else:
                x[t] = (0.8 * p + 2 if reg[t] else -0.5 * p - 2) + 0.3 * e[t]
    elif k == 'ties':
        x = np.round(r.randn(n, d))
    elif k == 'int':
        return tweak(r.randint(-5, 6, size=(n, d)), ds)
    elif k == 'offset':
        x = r.randn(n, d) + 20
    elif k == 'tail':
        # a regime that is entered with the last sample
        x = r.randn(n, d)
        x[-1] += 20
    elif k == 'const':
        x = np.repeat(r.randn(1, d), n, axis=0)
    elif k == 'dup':
        x = r.randn(n, d)
        x[r.randint(n, size=max(1, n // 3))] = x[0]
    else:
        x = r.randn(n, d)
    return tweak(x * ds.get('sc', 1), ds)


def tweak(x, ds):
    """The same series with some of its inner samples changed."""
    if ds.get('tw') is not None and len(x) > 3:
        r = np.random.RandomState(ds['tw'])
        i = r.choice(np.arange(1, len(x) - 1), size=max(1, (len(x) - 2) // 2), replace=False)
        x = np.array(x)
        x[i] = x[i][::-1] + r.randint(-2, 3, size=(i.size, 1))
    return x


def layout(x, lay):
    if lay == 'F':
        return np.asfortranarray(x)
    if lay == 'S':
        big = np.full((2 * x.shape[0],) + x.shape[1:], 7, dtype=x.dtype)
        big[::2] = x
        return big[::2]
    if lay == 'H':
        return np.array(x, dtype='f4')
    if lay == 'N':
        return np.array(x[::-1])[::-1]
    x = np.array(x)
    if lay == 'R':
        x.flags.writeable = False
    return x


def make_data(ds):
    return layout(base_array(ds), ds.get('lay', 'C'))


def make_exog(ds, q):
    r = np.random.RandomState(ds['s'] + 77)
    return layout(r.randn(ds['n'], q), ds.get('lay', 'C'))


def right_stochastic(r, n, k, sparse=False):
    m = r.dirichlet(np.ones(k), size=n)
    if sparse:
        m = np.eye(k)[r.randint(k, size=n)]
    return m


def start_weights(r, n, k, seed):
    if seed % 13 == 0:      # all components alike: every sample is a tie
        return np.full((n, k), 1.0 / k)
    return right_stochastic(r, n, k, seed % 3 == 0)


# ------------------------------------------------------------------ specifications

BIG = 0.07


def gen_spec(rng, kind=None, **force):
    kind = kind or rng.choice(ALL)
    o = {}
    big = rng.random() < BIG
    if kind in FACTOR:
        o['k'] = rng.choice([1, 2, 2, 3, 3, 4])
        if kind not in ('crom',) and rng.random() < 0.07:
            o['k'] = None
        o['init'] = rng.choice([None, 'random', 'furthest_sum', 'furthest_sum', 'custom'])
        o['tol'] = rng.choice([1e-3, 1e-4, 1e-6, 1e-8])
        o['mi'] = rng.choice([1, 2, 3, 5, 8, 12])
        o['verbose'] = int(rng.random() < 0.25)
        if rng.random() < 0.12:
            o['mem'] = rng.choice([2, 4])
        if kind in ('kaa', 'aa'):
            o['delta'] = rng.choice([0, 0, 0, 0.1, 0.5])
        if kind == 'aa':
            o['kernel'] = rng.choice([None, None, 'linear', 'rbf', 'poly'])
        if kind in ('gpnh', 'crom', 'mtd'):
            o['eps'] = rng.choice([0, 0, 1e-3, 0.1, 1.0])
        if kind in ('crom', 'mtd'):
            o['lags'] = rng.choice([None, [1], [1, 2], [2], [1, 3], [3, 1], [2, 1],
                                    [1, 3, 2], [2, 3, 1]])
        if kind == 'mtd':
            o['epsw'] = rng.choice([0, 1e-3, 0.1, 1.0])
        if rng.random() < 0.1:
            o['spg'] = {'gamma': 1e-2, 'sigma_one': 0.2, 'sigma_two': 0.7, 'alpha_min': 1e-2,
                        'alpha_max': 10.0}
    elif kind in FEMBV:
        o['k'] = rng.choice([1, 2, 2, 2, 3])
        if kind == 'fkm' and rng.random() < 0.04:
            o['k'] = None
        o['init'] = rng.choice(['random', 'random', 'custom'])
        o['tol'] = rng.choice([1e-2, 1e-4, 1e-6])
        o['mi'] = rng.choice([1, 2, 3, 5])
        o['verbose'] = int(rng.random() < 0.25)
        o['tv'] = rng.choice([None, None, -1, 0, 0.5, 1, 2.5, 4])
        o['solver'] = rng.choice([None, None, None, 'HIGHS', 'SCIPY', 'CLARABEL'])
        if kind == 'fvx':
            o['memory'] = rng.choice([None, 0, 1, 1, 2, 't'])
            if o['memory'] == 't':
                o['memory'] = [rng.choice([0, 1, 2]) for _ in range(o['k'])]
            o['q'] = rng.choice([0, 0, 1, 2])
    elif kind == 'mkc':
        o['k'] = rng.choice([None, 1, 2, 3, 4])
        o['n_init'] = rng.choice([1, 2])
        o['mi'] = rng.choice([1, 5, 300])
        o['kinit'] = rng.choice(['k-means++', 'random'])
        o['sw'] = int(rng.random() < 0.3)
    elif kind == 'pwv':
        o['k'] = rng.choice([2, 2, 3])
        o['p'] = rng.choice([1, 1, 2])
        o['s'] = rng.choice([0, 0, 1, 2])
        o['q'] = 0 if o['s'] == 0 else rng.choice([0, 1, 2])
        o['trend'] = rng.random() < 0.7
        o['clusterer'] = rng.choice([None, None, 'kmeans', 'stub'])
        o['classifier'] = rng.choice([None, 'knn', 'stub', 'memory'])
        o['labels'] = [rng.randrange(o['k']) for _ in range(rng.randint(3, 9))]
        for j in range(o['k']):     # every label occurs: SVC needs two classes
            o['labels'][j] = j
        o['coef'] = [round(rng.uniform(-1, 1), 2) for _ in range(3)]
        o['nd1'] = int(rng.random() < 0.15)
        o['xd1'] = int(rng.random() < 0.25)     # one exogenous factor given as a vector
    if big:
        make_big(rng, kind, o)
    if rng.random() < 0.2:
        o['rsi'] = rng.randrange(10 ** 6)       # random_state is an integer
    o.update(force)
    return {'kind': kind, 'o': o}


# public options the user may change on a live object before the next call
ATTRS = {'mi': 'max_iterations', 'tol': 'tolerance', 'eps': 'epsilon_states',
         'epsw': 'epsilon_weights', 'tv': 'max_tv_norm', 'verbose': 'verbose'}


def gen_set(rng, spec, keep_k=False):
    """New values for some public options."""
    o = spec['o']
    new = {}
    if spec['kind'] == 'mkc':
        if not keep_k and o['k'] is not None:
            new['k'] = rng.choice([1, 2, 3, 4])
        return new
    if spec['kind'] == 'pwv':
        return new
    for key, values in (('mi', [1, 2, 3, 5]), ('tol', [1e-2, 1e-4, 1e-6]),
                        ('eps', [0, 1e-3, 0.1, 1.0]), ('epsw', [0, 1e-3, 0.1, 1.0]),
                        ('tv', [None, 0, 0.5, 1, 2.5]), ('verbose', [0, 1])):
        if key in o and rng.random() < 0.5:
            new[key] = rng.choice(values)
    if not keep_k and o['k'] is not None and spec['kind'] != 'fvx' and rng.random() < 0.5:
        new['k'] = rng.choice([1, 2, 3, 4])
    return new


def merged(spec, op):
    if not op.get('set'):
        return spec
    return {'kind': spec['kind'], 'o': dict(spec['o'], **op['set'])}


def set_options(model, spec, new):
    for key, v in new.items():
        if key == 'k':
            setattr(model, 'n_clusters' if spec['kind'] == 'mkc' else 'n_components', v)
        else:
            setattr(model, ATTRS[key], v)


def make_big(rng, kind, o):
    """Sizes well beyond the usual ones, in some of the dimensions."""
    o['big'] = 1
    if o.get('k') and rng.random() < 0.6:
        o['k'] = rng.choice([5, 6, 8]) if kind in FACTOR or kind == 'mkc' else 4
        if isinstance(o.get('memory'), list):
            o['memory'] = [rng.choice([0, 1, 2, 3]) for _ in range(o['k'])]
        if kind == 'pwv':
            o['labels'] = [rng.randrange(o['k']) for _ in range(11)]
            o['labels'][:o['k']] = range(o['k'])
    if kind in FACTOR:
        o['mi'] = rng.choice([o['mi'], 20, 40])
        o['spg'] = rng.choice([o.get('spg'), {'gamma': 1e-3, 'sigma_one': 0.3, 'sigma_two': 0.6,
                                              'alpha_min': 1e-5, 'alpha_max': 1e5}])
        if kind in ('crom', 'mtd'):
            o['lags'] = rng.choice([o['lags'], [1, 2, 3], [5], [2, 5], [4, 1, 2], [1, 2, 3, 4]])
    elif kind in FEMBV:
        o['mi'] = rng.choice([o['mi'], 8, 15])
        o['tv'] = rng.choice([o['tv'], 3, 10])
        if kind == 'fvx':
            o['memory'] = rng.choice([o['memory'], 3, 4])
            if isinstance(o['memory'], list):
                o['memory'] = (o['memory'] * 3)[:o['k']]
    elif kind == 'pwv':
        o['p'] = rng.choice([o['p'], 3, 4])
        o['s'] = rng.choice([o['s'], 3]) if o['q'] else o['s']
        o['nd1'] = 0


def build(spec, rs, verbose=None, solver_kwargs=None, lags=None):
    """A fresh model; rs is whatever is supplied as random_state, lags the caller's array."""
    kind, o = spec['kind'], spec['o']
    v = o.get('verbose', 0) if verbose is None else verbose
    if kind in FACTOR:
        kw = dict(init=o['init'], tolerance=o['tol'], max_iterations=o['mi'], verbose=v,
                  random_state=rs)
        kw.update(o.get('spg') or {})
        if o.get('mem'):
            kw.update(line_search_memory=o['mem'], require_monotonic_cost_decrease=False)
        if kind == 'kaa':
            return KernelAA(o['k'], delta=o['delta'], **kw)
        if kind == 'aa':
            f = KernelFunc(o['kernel']) if o.get('kernel') else None
            return ArchetypalAnalysis(o['k'], kernel_func=f, delta=o['delta'], **kw)
        if kind == 'gpnh':
            return GPNHConvexCoding(o['k'], epsilon_states=o['eps'], **kw)
        if kind == 'crom':
            if lags is None and o['lags'] is not None:
                lags = np.array(o['lags'], dtype='i8')
            return GPNHConvexCodingCROM(o['k'], lags=lags, epsilon_states=o['eps'], **kw)
        return MTDConvexCoding(o['k'], lags=o['lags'] if lags is None else lags, epsilon_states=o['eps'],
                               epsilon_weights=o['epsw'], **kw)
    if kind in FEMBV:
        kw = dict(init=o['init'], tolerance=o['tol'], max_iterations=o['mi'], verbose=v,
                  random_state=rs)
        if solver_kwargs is not None:
            kw['weights_solver_kwargs'] = solver_kwargs
        elif o.get('solver'):
            kw['weights_solver_kwargs'] = {'solver': o['solver']}
        if kind == 'fkm':
            return FEMBVKMeans(o['k'], o['tv'], **kw)
        mem = o['memory']
        if isinstance(mem, list):
            mem = tuple(mem)
        return FEMBVVARX(o['k'], o['tv'], memory=mem, **kw)
    if kind == 'mkc':
        return KMeansMarkovCROM(o['k'], n_init=o['n_init'], max_iter=o['mi'], init=o['kinit'],
                                random_state=rs, verbose=0)
    c = o['clusterer']
    if c == 'kmeans':
        c = KMeans(n_clusters=o['k'], n_init=1, random_state=rs)
    elif c == 'stub':
        c = StubClusterer(o['labels'], o.get('ldata', 0))
    f = o['classifier']
    if f == 'knn':
        f = KNeighborsClassifier(n_neighbors=1)
    elif f == 'svc':
        f = SVC(random_state=0)
    elif f == 'stub':
        f = StubClassifier('plane', o['k'], o['coef'], o.get('off', 0), o.get('ldt', 'i8'))
    elif f in ('memory', 'hash'):
        f = StubClassifier(f, o['k'], o['coef'], o.get('off', 0), o.get('ldt', 'i8'))
    if o.get('rec'):
        c = Recorder(c, 'rec.clusterer') if c is not None else None
        f = Recorder(f, 'rec.classifier') if f is not None else None
    return ClusterPWVARX(o['k'], o['p'], s=o['s'], include_trend=o['trend'], clusterer=c,
                         classifier=f, random_state=rs)


def max_memory(spec):
    o = spec['o']
    if spec['kind'] == 'pwv':
        return max(o['p'], o['s'])
    m = o.get('memory') or 0
    return max(m) if isinstance(m, list) else m


def min_samples(spec):
    """Smallest series a fit of this spec makes sense for."""
    kind, o = spec['kind'], spec['o']
    if kind in ('crom', 'mtd'):
        return 2 + max(o['lags'] or [1])
    if kind == 'fvx':
        m = o['memory'] or 0
        return 5 + (max(m) if isinstance(m, list) else m)
    return 5


# ------------------------------------------------------------------ operations

def gen_op(rng, spec, fit_data, force=None):
    """fit_data: data spec of the fit in force (queries must have compatible dimensions)."""
    kind, o = spec['kind'], spec['o']
    what = force or rng.choice(('fit',) + QUERIES[kind] * 2)
    op = {'o': what, 'rs': rng.randrange(10 ** 6)}
    if what == 'fit':
        op['d'] = dict(fit_data)
        op['ft'] = int(rng.random() < 0.7)
        if kind == 'mkc':
            op['ft'] = rng.choice([0, 1, 2])
        if rng.random() < 0.3:
            op['st'] = rng.randrange(10 ** 6)    # start_index etc. when applicable
        if o.get('k') and kind in FACTOR + FEMBV and rng.random() < 0.12:
            # part of the model is given and kept
            parts = {'mtd': ('dictionary', 'weights', 'parameters'),
                     'fkm': ('weights', 'parameters'), 'fvx': ('weights', 'parameters')}
            op['keep'] = rng.choice(parts.get(kind, ('dictionary', 'weights')))
        if rng.random() < 0.3:
            op['same'] = 1      # the caller reuses its buffer, see hist.Runner.inputs
        return op
    lo = max(3, min_samples(spec))
    r = rng.random()
    if kind in ('kaa', 'aa') or r < 0.2 or (o.get('big') and r < 0.6):
        n = fit_data['n']
    elif r < 0.45:
        n = max(lo, 8)          # queries of equal size
    else:
        n = rng.randint(lo, 14)
        if rng.random() < 0.15:     # very short series
            n = rng.randint(1, 4) + (max_memory(spec) if kind in ('fvx', 'pwv') else 0)
    op['d'] = tame(spec, gen_data(rng, n=n, d=fit_data['d']))
    r = rng.random()
    if r < 0.22:
        op['d'] = dict(fit_data)
    elif r < 0.4:
        op['d'] = dict(fit_data, tw=rng.randrange(10 ** 6))
    if rng.random() < 0.35:
        op['same'] = 1
        if rng.random() < 0.5:
            op['d']['lay'] = fit_data.get('lay', 'C')
    if fit_data.get('nou'):
        op['d']['nou'] = 1
    if what == 'predict':
        op['h'] = rng.choice([0, 1, 1, 2, 3, 5])
        if rng.random() < 0.08:
            op['h'] = rng.choice([4, 6, 7, 9, 12, 20, 31])
    return op


class Inputs:
    """The very objects handed to the library by one call."""

    def __init__(self):
        self.pos = []
        self.kw = {}

    def all(self):
        d = {'arg%d' % i: x for i, x in enumerate(self.pos)}
        d.update(self.kw)
        return d


def start_args(spec, ds, seed, X=None):
    """Custom initial values (init='custom')."""
    kind, o = spec['kind'], spec['o']
    r = np.random.RandomState(seed)
    n, d = ds['n'], ds['d']
    k = o['k']
    if k is None:
        k = n if kind in ('kaa', 'aa') else d
    lay = ds.get('lay', 'C')
    a = {}
    if kind in ('kaa', 'aa'):
        a['dictionary'] = layout(right_stochastic(r, k, n), lay)
        a['weights'] = layout(right_stochastic(r, n, k), lay)
    elif kind in ('gpnh', 'crom', 'mtd'):
        a['dictionary'] = layout(r.randn(k, d), lay)
        a['weights'] = layout(right_stochastic(r, n, k), lay)
        if kind == 'mtd':
            L = len(o['lags'] or [1])
            a['order_weights'] = layout(r.dirichlet(np.ones(L)), lay)
            a['transition_matrices'] = layout(
                np.array([right_stochastic(r, k, k).T for _ in range(L)]), lay)
    elif kind == 'fkm':
        a['parameters'] = layout(r.randn(k, d), lay)
        a['weights'] = layout(start_weights(r, n, k, seed), lay)
    elif kind == 'fvx':
        m = o['memory'] or 0
        m = max(m) if isinstance(m, list) else m
        p = {'mu': layout(r.randn(k, d), lay),
             'A': layout(0.3 * r.randn(k, m, d, d), lay) if m else None,
             'B0': layout(r.randn(k, d, o['q']), lay)
             if o['q'] and not ds.get('nou') else None}
        a['parameters'] = p
        a['weights'] = layout(start_weights(r, n - m, k, seed), lay)
    return a


def prepare(spec, op, fitted_k=None):
    """Build the caller's objects for one operation."""
    kind, o = spec['kind'], spec['o']
    i = Inputs()
    what = op['o']
    ds = op['d']
    if what == 'inverse':
        r = np.random.RandomState(ds['s'])
        k = fitted_k if fitted_k else (o['k'] or 2)
        i.pos = [layout(right_stochastic(r, ds['n'], k), ds.get('lay', 'C'))]
        return i
    X = make_data(ds)
    if kind == 'kaa':
        X = layout(np.asarray(X, dtype=float).dot(np.asarray(X, dtype=float).T) if ds['k'] != 'int'
                   else np.asarray(X).dot(np.asarray(X).T), ds.get('lay', 'C'))
    if kind == 'pwv' and o.get('nd1'):
        X = X[:, 0]
    i.pos = [X]
    if kind in ('fvx',) and o['q'] and not ds.get('nou'):
        i.kw['external_factors'] = make_exog(ds, o['q'])
    if kind == 'pwv' and o['q'] and not ds.get('nou'):
        i.kw['exog'] = make_exog(ds, o['q'])
        if o['q'] == 1 and o.get('xd1'):
            i.kw['exog'] = i.kw['exog'][:, 0]
    if what == 'fit':
        if kind == 'mkc' and o['sw']:
            r = np.random.RandomState(ds['s'] + 5)
            w = r.randint(1, 4, size=ds['n']).astype(float)
            if ds['s'] % 3 == 0:        # samples without weight are still visited
                w[r.permutation(ds['n'])[:max(0, min(ds['n'] // 4, ds['n'] - 2 * (
                    o['k'] or 2) - 1))]] = 0
            i.kw['sample_weight'] = layout(w, 'R' if ds.get('lay') == 'R' else 'C')
        if o.get('init') == 'custom':
            if op.get('start') is not None:
                i.kw.update({k: (copy.deepcopy(v)) for k, v in op['start'].items()})
            else:
                i.kw.update(start_args(spec, ds, op['rs']))
        elif o.get('init') == 'furthest_sum' and op.get('st') is not None:
            r = np.random.RandomState(op['st'])
            if r.rand() < 0.6:
                i.kw['n_extra_steps'] = int(r.randint(0, 6))
            ex = []
            k = o['k'] or 1
            if r.rand() < 0.5 and ds['n'] > k + 3:
                ex = [int(v) for v in r.choice(ds['n'], 2, replace=False)]
                i.kw['exclude'] = ex if r.rand() < 0.5 else np.array(ex)
            if r.rand() < 0.5:
                i.kw['start_index'] = int(r.choice([v for v in range(ds['n']) if v not in ex]))
        if op.get('keep') and (kind in FACTOR or o.get('init') == 'custom'):
            i.kw['update_' + op['keep']] = False
            if o.get('init') != 'custom':
                a = start_args(spec, ds, op['rs'])
                for p in (('order_weights', 'transition_matrices') if op['keep'] == 'parameters'
                          else (op['keep'],)):
                    i.kw[p] = a[p]
    elif what == 'predict':
        i.kw['horizon'] = op['h']
        if kind == 'mkc' and op['d']['s'] % 4 == 0:
            i.kw['sample_weight'] = np.ones(ds['n'])
    return i


def values(ret):
    """Normalise what a call returned."""
    if isinstance(ret, np.ndarray):
        return {'ret': ret}
    return {}


def fitted(model, kind, extra=True):
    out = {}
    names = PARAMS[kind] + (('Gamma',) if extra and kind in FEMBV else ())
    for n in names:
        if hasattr(model, n):
            v = getattr(model, n)
            out[n] = None if v is None else np.array(v)
    return out


def invoke(model, spec, op, inp):
    """The call into the library.  Returns the raw result."""
    kind = spec['kind']
    what = op['o']
    if what == 'fit':
        if kind == 'mkc':
            f = (model.fit, model.fit_predict, model.fit_transform)[op['ft']]
        else:
            f = model.fit_transform if op['ft'] else model.fit
        return f(*inp.pos, **inp.kw)
    if what == 'transform':
        return model.transform(*inp.pos, **inp.kw)
    if what == 'inverse':
        return model.inverse_transform(*inp.pos)
    if what == 'predict':
        return model.predict(*inp.pos, **inp.kw)
    raise core.HarnessError('unknown operation %r' % what)


class Session:
    """One model object with the generator the harness supplied to it."""

    def __init__(self, spec, model=None, rs=None, verbose=None, solver_kwargs=None, seed=0):
        self.spec = spec
        self.kind = spec['kind']
        if rs is None:
            rs = spec['o'].get('rsi')
        self.rs = rs if rs is not None else np.random.RandomState(seed)
        self.set = {}
        if solver_kwargs is None and spec['o'].get('simsolver'):
            from sim import solver
            solver_kwargs = solver.kwargs()
        if model is None:
            model = build(spec, self.rs, verbose=verbose, solver_kwargs=solver_kwargs)
        self.model = model
        self.fit_k = None

    def op(self, ctx, op, inp=None, raw=None, reseed=True, **kw):
        """Run one operation; the outcome's values are copies of result and fitted state."""
        if op.get('set') and op['set'] != self.set:
            self.set = dict(op['set'])
            set_options(self.model, self.spec, self.set)
            self.spec = merged(self.spec, op)
        if inp is None:
            inp = prepare(self.spec, op, self.k())
        if reseed and isinstance(self.rs, np.random.RandomState):
            self.rs.seed(op['rs'])

        if self.spec['o'].get('simsolver'):
            from sim import solver
            solver.reset(ctx, op.get('solver') or (), op.get('sdef'))

        def f():
            ret = invoke(self.model, self.spec, op, inp)
            if raw is not None:
                raw.append(ret)
            v = {k: np.array(x) for k, x in values(ret).items()}
            if op['o'] == 'fit':
                if ret is None:
                    raise core.Violation('no-result', 'fit returned None')
                v.update(fitted(self.model, self.kind))
            return v
        out = core.call(ctx, f, **kw)
        if out.ok and op['o'] == 'fit':
            self.fit_k = self.k()
        return out

    def k(self):
        m = self.model
        for a in ('n_components_', 'n_clusters'):
            if getattr(m, a, None) is not None:
                return int(getattr(m, a))
        return self.spec['o'].get('k') or 2

    def params(self):
        return fitted(self.model, self.kind, extra=False)


def quiet():
    warnings.simplefilter('ignore')
