"""Simulated contents of uninitialised memory.

numpy.empty and numpy.empty_like, when called by reor code, hand out memory filled with a pattern
the simulation chose; any other caller gets the real thing.
"""
import sys

import numpy as np

MODES = ('zero', 'junk', 'huge', 'nan', 'ones', 'negative')
STATE = {'mode': 'zero', 'fills': 0}
real_empty = np.empty
real_empty_like = np.empty_like


def set_mode(mode):
    STATE['mode'] = mode


def fill(a):
    mode = STATE['mode']
    STATE['fills'] += 1
    kind = a.dtype.kind
    if kind == 'f':
        if mode == 'junk':
            a.flat = np.cos(np.arange(a.size) * 12.9898 + a.size) * 437.5
        else:
            a.fill({'zero': 0.0, 'huge': 1e200, 'nan': np.nan, 'ones': 1.0,
                    'negative': -3.25}[mode])
    elif kind in 'iu':
        a.fill({'zero': 0, 'ones': 1}.get(mode, 97))
    elif kind == 'b':
        a.fill(mode != 'zero')
    return a


def install(prefix):
    def seam(real):
        def alloc(*args, **kw):
            a = real(*args, **kw)
            if sys._getframe(1).f_code.co_filename.startswith(prefix):
                fill(a)
            return a
        alloc.__name__ = real.__name__
        return alloc
    np.empty = seam(real_empty)
    np.empty_like = seam(real_empty_like)
