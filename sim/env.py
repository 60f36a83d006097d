"""Surroundings of a call that its results must not depend on."""
import contextlib
import gc
import os
import sys
import tempfile
import threading
import warnings

import numpy as np

KINDS = ('cwd', 'environ', 'printopts', 'cpus', 'gcoff', 'reclimit', 'filters', 'errstate',
         'timezone', 'argv', 'module', 'allocator')
VARS = {'OMP_NUM_THREADS': '3', 'OPENBLAS_NUM_THREADS': '3', 'MKL_NUM_THREADS': '2',
        'LANG': 'tr_TR.UTF-8', 'LC_ALL': 'C', 'HOME': '/nonexistent', 'USER': 'someone',
        'DEBUG': '1', 'CI': 'true', 'TMPDIR': '/nonexistent', 'SEED': '17', 'VERBOSE': '1',
        'PYTHONHASHSEED': '7', 'PYTHONOPTIMIZE': '2', 'COLUMNS': '20', 'REOR_SEED': '3',
        'PYTEST_CURRENT_TEST': 'x', 'NPY_DISABLE_CPU_FEATURES': 'AVX2'}


@contextlib.contextmanager
def changed(kinds, r):
    """The process with some of its surroundings changed."""
    with contextlib.ExitStack() as st:
        for k in kinds:
            if k == 'cwd':
                old = os.getcwd()
                d = st.enter_context(tempfile.TemporaryDirectory(prefix='reorsim'))
                st.callback(os.chdir, old)
                os.chdir(d)
            elif k == 'environ':
                old = dict(os.environ)

                def back(old=old):
                    os.environ.clear()
                    os.environ.update(old)
                st.callback(back)
                os.environ.update(VARS)
            elif k == 'printopts':
                old = np.get_printoptions()
                st.callback(lambda old=old: np.set_printoptions(**old))
                np.set_printoptions(precision=1 + r % 3, threshold=3, suppress=True, sign='+')
            elif k == 'cpus':
                for owner, attr, fake in ((os, 'cpu_count', lambda: 1 + r % 64),
                                          (os, 'sched_getaffinity',
                                           lambda pid: set(range(1 + r % 64)))):
                    st.callback(setattr, owner, attr, getattr(owner, attr))
                    setattr(owner, attr, fake)
            elif k == 'gcoff':
                if gc.isenabled():
                    st.callback(gc.enable)
                gc.disable()
            elif k == 'reclimit':
                st.callback(sys.setrecursionlimit, sys.getrecursionlimit())
                sys.setrecursionlimit(800 + r % 5000)
            elif k == 'filters':
                old = warnings.filters[:]

                def back(old=old):
                    warnings.filters[:] = old
                    warnings._filters_mutated()
                st.callback(back)
                warnings.simplefilter(('ignore', 'default', 'once', 'module')[r % 4])
            elif k == 'errstate':
                st.enter_context(np.errstate(all='ignore'))
            elif k == 'timezone':
                import time
                old = os.environ.get('TZ')

                def back(old=old):
                    if old is None:
                        os.environ.pop('TZ', None)
                    else:
                        os.environ['TZ'] = old
                    time.tzset()
                st.callback(back)
                os.environ['TZ'] = 'Pacific/Apia'
                time.tzset()
            elif k == 'argv':
                st.callback(setattr, sys, 'argv', sys.argv)
                sys.argv = ['other', '--seed', '3', '-v']
            elif k == 'module':
                m = sys.modules['__main__']
                st.callback(setattr, m, '__name__', m.__name__)
                m.__name__ = 'notebook'
            elif k == 'allocator':
                # arrays live at other addresses from here on
                st.callback(list, [np.empty(1 + (r * j) % 977) for j in range(1, 200)])
        yield


def on_thread(fn):
    """Run fn on a thread of its own."""
    res = []

    def body():
        try:
            res.append((fn(), None))
        except BaseException as e:
            res.append((None, e))
    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join()
    if res[0][1] is not None:
        raise res[0][1]
    return res[0][0]
