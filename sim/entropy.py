"""Simulated entropy, process identity and object identity.

Everything the operating system would answer differently in every execution: os.urandom (and with
it secrets, uuid4, SystemRandom and every generator created without a seed), the process id, the
host name, and the addresses that id() shows, which are reused at once when an object dies.  Only
reor code sees the simulated identities; any other caller gets the real ones.
"""
import builtins
import hashlib
import os
import random
import socket
import sys
import weakref

STATE = {'key': 'plain', 'n': 0, 'pid': 4242, 'reads': 0, 'host': 'sim'}
_live = weakref.WeakValueDictionary()       # simulated address -> object
_addr = {}                                  # real address -> simulated address
real_id = id


def reset(key, pid=4242, host='sim'):
    STATE.update(key=str(key), n=0, pid=pid, host=host)


def _urandom(size):
    STATE['reads'] += 1
    out = b''
    while len(out) < size:
        STATE['n'] += 1
        out += hashlib.sha256(('%s/%d' % (STATE['key'], STATE['n'])).encode()).digest()
    return out[:size]


def _simulated_id(obj):
    a = _addr.get(real_id(obj))
    if a is not None and _live.get(a) is obj:
        return a
    a = 4096
    while _live.get(a) is not None:
        a += 16
    try:
        _live[a] = obj
    except TypeError:                       # no weak references to this kind of object
        return real_id(obj)
    _addr[real_id(obj)] = a
    return a


def install(prefix):
    def mine():
        return sys._getframe(2).f_code.co_filename.startswith(prefix)

    def seam(owner, attr, fake):
        real = getattr(owner, attr)

        def f(*a, **k):
            return fake(*a, **k) if mine() else real(*a, **k)
        f.__name__ = attr
        setattr(owner, attr, f)
    os.urandom = _urandom
    os.getrandom = lambda size, flags=0: _urandom(size)
    random._urandom = _urandom
    real_seed = random.Random.seed

    def seed(self, a=None, version=2):
        real_seed(self, int.from_bytes(_urandom(32), 'big') if a is None else a, version)
    random.Random.seed = seed
    random.seed = random._inst.seed
    seam(os, 'getpid', lambda: STATE['pid'])
    seam(os, 'getppid', lambda: STATE['pid'] - 1)
    seam(socket, 'gethostname', lambda: STATE['host'])
    seam(builtins, 'id', _simulated_id)
