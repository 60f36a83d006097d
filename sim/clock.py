"""Simulated wall clock.  All deadlines and timings the library could read come from here."""
import random
import time as _time

real_perf_counter = _time.perf_counter
real_time = _time.time
real_sleep = _time.sleep
real_monotonic = _time.monotonic


class Clock:
    """modes: steady, frozen, backward, jumpy, fast, erratic, wall

    wall: the clock of the day jumps, the others are steady.
    """

    def __init__(self, mode='steady', seed=0):
        self.mode = mode
        self.now = 1.0e6
        self.elapsed = 0.0
        self.reads = 0
        self.jumps = 0
        self.off = 0.0
        self.rng = random.Random('clock/%s/%s' % (mode, seed))

    def read(self, wall=False):
        self.reads += 1
        m = self.mode
        if m == 'wall' and wall and self.rng.random() < 0.3:
            self.off += self.rng.choice([-1e5, 86400.0, 3.2e7, -10.0, -0.5])
            self.jumps += 1
        if m in ('steady', 'wall'):
            d = 1e-3
        elif m == 'frozen':
            d = 0.0
        elif m == 'backward':
            d = -0.5
            self.jumps += 1
        elif m == 'fast':
            d = 3600.0
        elif m == 'jumpy':
            d = 1e-3
            if self.rng.random() < 0.2:
                d = self.rng.choice([-1e5, 86400.0, 3.2e7, -10.0])
                self.jumps += 1
        else:
            d = self.rng.uniform(-1, 1) * 10 ** self.rng.randint(-6, 6)
            self.jumps += 1
        self.now += d
        self.elapsed += abs(d)
        return self.now + self.off if wall else self.now


current = Clock()


def set_clock(c):
    global current
    current = c
    return c


def _install_datetime():
    import datetime as dt

    class SimDatetime(dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return dt.datetime.fromtimestamp(max(0, current.read(True)), tz)

        @classmethod
        def utcnow(cls):
            return dt.datetime.fromtimestamp(max(0, current.read(True)),
                                             dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()
    SimDatetime.__name__ = 'datetime'
    dt.datetime = SimDatetime


def install():
    """Replace the clocks of the time module by the simulated one."""
    def make(n):
        wall = n == 'time'

        def f():
            t = current.read(wall)
            # processor time: three threads of the process are busy, this one mostly waits
            return 3 * t if n == 'process_time' else t / 4 if n == 'thread_time' else t

        def f_ns():
            return int(f() * 1e9)
        setattr(_time, n, f)
        setattr(_time, n + '_ns', f_ns)
    for n in ('perf_counter', 'time', 'monotonic', 'process_time', 'thread_time'):
        make(n)
    _time.clock_gettime = lambda c: current.read(c == _time.CLOCK_REALTIME)
    _time.clock_gettime_ns = lambda c: int(current.read(c == _time.CLOCK_REALTIME) * 1e9)
    for n in ('localtime', 'gmtime', 'ctime'):
        def convert(secs=None, real=getattr(_time, n)):
            return real(max(0, current.read(True)) if secs is None else secs)
        setattr(_time, n, convert)
    real_strftime = _time.strftime
    _time.strftime = lambda fmt, t=None: real_strftime(fmt, _time.localtime() if t is None else t)
    _install_datetime()

    def sleep(s):
        current.now += s
        current.elapsed += s
    _time.sleep = sleep
