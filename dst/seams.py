"""Seams: everything nondeterministic the library touches is taken over here, from outside.

* time        - every clock function of the time module is replaced by a shim before the library is imported
* randomness  - numpy's global generator (and `random`) are seeded or replaced by a simulated stream
* stdout      - replaced by a sink that can fail
* scheduling  - threads are parked and released one at a time at calls made from library code
* faults      - an exception can be raised at the n-th call made from library code
* work        - executed library code is counted (function starts, jumps, calls); bounds termination
"""
import os
import sys
import threading
import zlib
import time as _time

REPO = os.path.realpath(os.environ.get('DST_REPO', '/repo'))
PREFIX = REPO + os.sep

_REAL = {n: getattr(_time, n) for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time',
                                        'time_ns', 'monotonic_ns', 'perf_counter_ns', 'process_time_ns',
                                        'thread_time_ns', 'sleep')}
wall = _REAL['monotonic']


class StepLimit(BaseException):
    """The operation did not finish within its bound of executed library steps."""


# ------------------------------------------------------------------ clock
class SimClock:
    """spec: {start, cost (s per read), rate (s per executed step), quantum, jumps: [[unit, at, delta], ...]}
    unit 'r': the jump takes effect just before the at-th read; unit 's': once at steps were executed."""

    def __init__(self, spec=None, steps=None):
        spec = spec or {}
        self.now = float(spec.get('start', 1.7e9))
        self.cost = float(spec.get('cost', 0.0))
        self.rate = float(spec.get('rate', 0.0))
        self.quantum = float(spec.get('quantum', 0.0))
        self.jumps = sorted(([u, int(a), float(d)] for u, a, d in spec.get('jumps', [])), key=lambda j: (j[0], j[1]))
        self.reads = 0
        self.base = MON.steps
        self.last = MON.steps
        self.fired = 0
        self.backward = 0
        self.covered = 0.0
        self.log = []

    def read(self):
        self.reads += 1
        done = MON.steps
        if self.rate:
            adv = (done - self.last) * self.rate
            self.now += adv
            self.covered += adv
        self.last = done
        for j in list(self.jumps):
            if (j[0] == 'r' and self.reads >= j[1]) or (j[0] == 's' and done - self.base >= j[1]):
                self.jumps.remove(j)
                self.now += j[2]
                self.covered += abs(j[2])
                self.fired += 1
                if j[2] < 0:
                    self.backward += 1
        t = self.now
        self.now += self.cost
        self.covered += self.cost
        if self.quantum:
            t = (t // self.quantum) * self.quantum
        self.log.append(t)
        return t


class _ClockHolder:
    clock = None


CLOCK = _ClockHolder()


def _mk(name):
    real = _REAL[name]
    ns = name.endswith('_ns')

    def shim():
        c = CLOCK.clock
        if c is None:
            return real()
        t = c.read()
        return int(t * 1e9) if ns else t
    shim.__name__ = name
    return shim


def _sleep(d):
    c = CLOCK.clock
    if c is None:
        return _REAL['sleep'](d)
    c.now += d
    c.covered += d


# ------------------------------------------------------------------ monitoring (work, faults, switches)
class _Mon:
    steps = 0          # executed library steps: function starts + jumps + calls
    calls = 0          # calls made from library code
    limit = None       # absolute step bound of the running operation
    fault_at = None    # absolute call number at which to raise
    fault_exc = None
    fault_fired = None
    sched = None       # cooperative scheduler, if threads are being simulated
    stall = None       # {function name: [calls so far, {call number: seconds}]}: time lost on entry of library functions
    main = threading.get_ident()


MON = _Mon()
TOOL = 4
mon = sys.monitoring
DISABLE = mon.DISABLE


def _lib(code):
    return code.co_filename.startswith(PREFIX)


def _on_start(code, off):
    if not _lib(code):
        return DISABLE
    MON.steps += 1
    if MON.limit is not None and MON.steps > MON.limit:
        raise StepLimit()
    if MON.stall is not None and code.co_name in MON.stall:
        s = MON.stall[code.co_name]
        s[0] += 1
        CLOCK.clock.now += s[1].get(s[0], 0.)
    if MON.sched is not None:
        MON.sched.point(code, off)


def _on_jump(code, off, dst):
    if not _lib(code):
        return DISABLE
    MON.steps += 1
    if MON.limit is not None and MON.steps > MON.limit:
        raise StepLimit()
    if MON.sched is not None:
        MON.sched.point(code, off)


_OPS = __import__('dis').opmap


def _plain_call(code, off):
    """CPython 3.12 corrupts its stack when the instrumentation of a call with keyword names or unpacked arguments raises; such
    calls are left alone and the fault hits the next plain one"""
    c = code.co_code
    return c[off] == _OPS['CALL'] and not (off >= 2 and c[off - 2] == _OPS['KW_NAMES'])


def _on_call(code, off, func, arg0):
    if not _lib(code):
        return DISABLE
    MON.steps += 1
    MON.calls += 1
    if MON.fault_at is not None and MON.calls >= MON.fault_at and _plain_call(code, off):
        e = MON.fault_exc
        MON.fault_at = None
        MON.fault_fired = '%s:%s' % (os.path.basename(code.co_filename), code.co_name)
        raise e
    s = MON.sched
    if s is not None:
        s.point(code, off)


def _on_c_return(code, off, func, arg0):
    if MON.sched is not None and _lib(code):
        MON.sched.point(code, off)


BASE_EVENTS = mon.events.PY_START | mon.events.JUMP | mon.events.CALL


def install_monitoring():
    mon.use_tool_id(TOOL, 'dst')
    E = mon.events
    mon.register_callback(TOOL, E.PY_START, _on_start)
    mon.register_callback(TOOL, E.JUMP, _on_jump)
    mon.register_callback(TOOL, E.CALL, _on_call)
    mon.set_events(TOOL, BASE_EVENTS)


# ------------------------------------------------------------------ stdout
class SimStdout:
    """Sink for the library's output; can fail at the n-th write like a full disk or a closed pipe."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, fail_at=None, exc=None):
        self.chars = 0
        self.writes = 0
        self.fail_at = fail_at
        self.exc = exc
        self.fired = 0
        self.text = []

    def write(self, s):
        self.writes += 1
        if self.fail_at is not None and self.writes == self.fail_at:
            self.fired += 1
            raise self.exc
        self.chars += len(s)
        if self.chars < 20000:
            self.text.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# ------------------------------------------------------------------ cooperative threads
class Deadlock(BaseException):
    pass


_LOCK, _RLOCK = threading.Lock, threading.RLock


class CoopLock:
    """What library code gets when it asks for a lock: a simulated thread that has to wait lets the others run"""

    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        s = MON.sched
        if s is None or not blocking or threading.get_ident() not in s.ids:
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def _lock_factory(real):
    def make():
        if sys._getframe(1).f_code.co_filename.startswith(PREFIX):
            return CoopLock(real())
        return real()
    return make


class CoopSched:
    """Real threads, exactly one runnable at a time; wherever CPython may switch inside library code (function starts, jumps,
    before and after calls) the running thread may be parked and another released.
    switches: list of [point index, target] or None with rng+rate to draw them."""

    def __init__(self, fns, rng=None, rate=0.3, switches=None, budget=400000, private=None, focus=None):
        self.fns = fns
        self.n = len(fns)
        self.rng = rng
        self.rate = rate
        self.plan = {p: t for p, t in switches} if switches is not None else None
        self.taken = []
        self.points = 0
        self.cond = threading.Condition()
        self.cur = None
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.ids = {}
        self.budget = budget
        self.private = private          # (save, restore) of what every thread has to itself in the simulation
        self.focus = focus              # (salt, one in how many places of the code, rate there): the places where switches are likely
        self.hot = {}
        self.waits = 0

    def _rate(self, code, off):
        if self.focus is None or code is None:
            return self.rate
        r = self.hot.get((code, off))
        if r is None:
            salt, k, rate = self.focus
            r = rate if zlib.crc32(('%s:%s:%s' % (salt, code.co_qualname, off)).encode()) % k == 0 else self.rate
            self.hot[(code, off)] = r
        return r

    def _alive(self):
        return [i for i in range(self.n) if not self.done[i]]

    def point(self, code=None, off=0):
        me = self.ids.get(threading.get_ident())
        if me is None:
            return
        self.points += 1
        if self.points > self.budget:
            raise StepLimit()
        alive = self._alive()
        if len(alive) < 2:
            return
        if self.plan is not None:
            tgt = self.plan.get(self.points)
            if tgt is None or tgt not in alive or tgt == me:
                return
        else:
            if self.rng.random() >= self._rate(code, off):
                return
            others = [i for i in alive if i != me]
            tgt = others[self.rng.randrange(len(others))]
        self.taken.append([self.points, tgt])
        self._switch(me, tgt)

    def blocked(self):
        """the running thread waits for a lock another one holds"""
        me = self.ids.get(threading.get_ident())
        self.points += 1
        alive = self._alive()
        if me is None or len(alive) < 2 or self.points > self.budget:
            raise Deadlock()
        self.waits += 1
        self._switch(me, alive[(alive.index(me) + 1) % len(alive)])

    def _switch(self, me, tgt):
        mine = self.private[0]() if self.private else None
        with self.cond:
            self.cur = tgt
            self.cond.notify_all()
            while self.cur != me:
                self.cond.wait()
        if self.private:
            self.private[1](mine)

    def _body(self, i):
        self.ids[threading.get_ident()] = i
        with self.cond:
            while self.cur != i:
                self.cond.wait()
        try:
            self.results[i] = ('ok', self.fns[i]())
        except BaseException as e:  # noqa: the outcome of the reader, judged by the caller
            self.results[i] = ('exc', e)
        with self.cond:
            self.done[i] = True
            alive = self._alive()
            if alive:
                nxt = alive[0]
                if self.plan is None:
                    nxt = alive[self.rng.randrange(len(alive))]
                    self.taken.append([-1 - i, nxt])
                else:
                    t = self.plan.get(-1 - i)
                    if t in alive:
                        nxt = t
                self.cur = nxt
            else:
                self.cur = 'end'
            self.cond.notify_all()

    def run(self, first=0):
        ts = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        # all threads registered and parked before the first is released
        while len(self.ids) < self.n:
            _REAL['sleep'](0.0002)
        MON.sched = self
        mon.register_callback(TOOL, mon.events.C_RETURN, _on_c_return)
        with self.cond:
            self.cur = first
            self.cond.notify_all()
            while self.cur != 'end':
                self.cond.wait()
        MON.sched = None
        mon.register_callback(TOOL, mon.events.C_RETURN, None)
        for t in ts:
            t.join()
        return self.results


# ------------------------------------------------------------------ install
_installed = False


def install():
    """Patch the clocks, import the library from REPO, switch on monitoring. Idempotent."""
    global _installed
    if _installed:
        return
    _installed = True
    for n in _REAL:
        setattr(_time, n, _sleep if n == 'sleep' else _mk(n))
    threading.Lock, threading.RLock = _lock_factory(_LOCK), _lock_factory(_RLOCK)
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use('Agg')
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import utils, obstacles, starshaped_hull  # noqa: the library under test
    from obstacles import motion_model  # noqa
    for m in (utils, obstacles, starshaped_hull):
        assert os.path.realpath(m.__file__).startswith(PREFIX), (m.__file__, REPO)
    import matplotlib.pyplot as plt
    plt.show = lambda *a, **k: None
    install_monitoring()
