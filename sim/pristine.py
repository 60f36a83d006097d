"""Reference executions in processes that saw nothing of the history under test.

A server is forked at the start of a run; every request is executed in its own fork of the server.
"""
import os
import pickle
import struct

from sim import core, entropy, mem


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    def read(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    n = struct.unpack('<I', read(4))[0]
    return pickle.loads(read(n))


class Server:
    """ctx.pristine = Server(ctx); ctx.pristine(fn, *args): fn(ctx, *args) in a pristine fork."""

    def __init__(self, ctx):
        self.ctx = ctx
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            mem.set_mode('zero')
            entropy.reset('plain')
            try:
                os.close(a_w)
                os.close(b_r)
                while True:
                    try:
                        fn, args = _recv(a_r)
                    except EOFError:
                        break
                    kid = os.fork()
                    if kid == 0:
                        try:
                            s0 = ctx.tracer.total
                            c0 = dict(ctx.stats)
                            try:
                                r = ('ok', fn(ctx, *args))
                            except core.Violation as v:
                                r = ('violation', v.cls, v.msg)
                            except core.StepLimit as e:
                                r = ('steplimit', str(e))
                            except BaseException as e:
                                import traceback
                                r = ('error', traceback.format_exc())
                            st = {k: v - c0.get(k, 0) for k, v in ctx.stats.items()}
                            _send(b_w, (r, ctx.tracer.total - s0, st))
                        finally:
                            os._exit(0)
                    _, st = os.waitpid(kid, 0)
                    if st != 0:
                        _send(b_w, (('error', 'reference process died (%d)' % st), 0, {}))
            finally:
                os._exit(0)
        os.close(a_r)
        os.close(b_w)
        self.w, self.r, self.pid = a_w, b_r, pid

    def __call__(self, fn, *args):
        _send(self.w, (fn, args))
        r, steps, _ = _recv(self.r)
        self.ctx.tracer.total += steps
        self.ctx.stats['reference executions'] += 1
        if r[0] == 'ok':
            return r[1]
        if r[0] == 'violation':
            raise core.Violation(r[1], r[2])
        if r[0] == 'steplimit':
            raise core.StepLimit(r[1])
        raise core.HarnessError('reference execution failed: ' + r[1])

    def close(self):
        os.close(self.w)
        os.close(self.r)
        os.waitpid(self.pid, 0)
