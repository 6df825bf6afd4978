"""Deterministic threads: real threads, exactly one of which runs at a time.

Every source line (or instruction) executed inside the code under test is a
preemption point; the choices of the run decide at which of them the running
thread is parked and which thread continues.  Locks created by the code under
test through `threading` are replaced by simulated ones (see `patch_locks`).
"""
import _thread
import threading
import zlib

from .core import Cancelled, Monitor, Outcome, SimHang, Violation

_allocate = _thread.allocate_lock


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.sem = _allocate()
        self.sem.acquire()
        self.done = False
        self.waiting = None           # simulated lock this task waits for
        self.outcome = None
        self.cancel_at = None         # cancel at the n-th instant where that is possible
        self.points = 0
        self.events = 0
        self.fatal = None


class Sched:
    current_sched = None
    sites = {}

    def __init__(self, w, max_events=4000000):
        self.w = w
        self.ch = w.ch
        self.tasks = []
        self.cur = None
        self.main = _allocate()
        self.main.acquire()
        self.countdown = 0
        self.switches = 0
        self.total = 0
        self.max_events = max_events
        self.trace = []
        self.dead = False
        self.site = None

    def spawn(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    # -- scheduling decisions -------------------------------------------------
    def _next_distance(self):
        """Number of events until the next preemption (0 on the tape: never)."""
        if self.switches > 60:
            return 1 << 60
        d = self.ch.log_int(0, 16383)
        return d if d else 1 << 60

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.waiting is None]

    def _hook(self, code, offset):
        t = self.cur
        if t is None or self.dead:
            return
        t.events += 1
        self.total += 1
        if self.total > self.max_events:
            self.dead = True
            t.fatal = SimHang(f'more than {self.max_events} scheduling events')
            raise t.fatal
        if t.cancel_at is not None and offset is not None and Monitor.interruptible(code, offset):
            t.points += 1
            if t.points >= t.cancel_at:
                t.cancel_at = None
                self.w.faults['cancel'] += 1
                self.w.log(t.name, 'cancelled in', code.co_name)
                raise Cancelled('cancelled by the simulator')
        if self.site is not None:
            self.countdown -= 1
            if self.countdown > 0 or self.switches > 60 or not self._at_site(code, offset) or self.ch.chance(0.3):
                return
        self.countdown -= 1
        if self.countdown <= 0:
            self.countdown = self._next_distance() if self.site is None else self.ch.log_int(0, 2047)
            others = [x for x in self._runnable() if x is not t]
            if others:
                nxt = self.ch.pick(others)
                self.w.log('switch', t.name, '->', nxt.name, 'in', code.co_name)
                self.trace.append((t.name, nxt.name, code.co_name))
                self._switch(t, nxt)

    def _at_site(self, code, offset):
        """Some runs preempt (nearly) always at a few places, and nowhere else."""
        place = Monitor.line - code.co_firstlineno if offset is None else -1 - offset
        h = self.sites.get((code, place))
        if h is None:
            h = self.sites[code, place] = zlib.crc32(f'{code.co_name} {place}'.encode())
        return h % self.site[0] == self.site[1]

    def yield_point(self, label):
        """Explicit preemption point, for simulated I/O."""
        t = self.cur
        if t is None or self.dead:
            return
        if self.ch.chance(0.3):
            others = [x for x in self._runnable() if x is not t]
            if others:
                nxt = self.ch.pick(others)
                self.w.log('switch', t.name, '->', nxt.name, 'at', label)
                self.trace.append((t.name, nxt.name, label))
                self._switch(t, nxt)

    def _switch(self, t, nxt):
        self.switches += 1
        self.cur = nxt
        nxt.sem.release()
        t.sem.acquire()
        if self.dead:
            raise SimHang('run abandoned')

    def _finish(self, t):
        t.done = True
        run = self._runnable()
        if run:
            nxt = run[self.ch.draw(len(run))] if len(run) > 1 else run[0]
            self.cur = nxt
            nxt.sem.release()
        else:
            self.cur = None
            self.main.release()

    def block_on(self, lock):
        """The running task waits for a simulated lock."""
        t = self.cur
        t.waiting = lock
        run = self._runnable()
        if not run:
            self.dead = True
            t.waiting = None
            raise Violation('deadlock', 'all threads wait for locks')
        nxt = run[self.ch.draw(len(run))] if len(run) > 1 else run[0]
        self.w.log(t.name, 'waits for lock')
        self._switch(t, nxt)

    def unblock(self, lock):
        for t in self.tasks:
            if t.waiting is lock:
                t.waiting = None

    def _body(self, t):
        t.sem.acquire()
        try:
            if not self.dead:
                try:
                    t.outcome = Outcome(value=t.fn())
                except (Exception, Cancelled) as e:
                    t.outcome = Outcome(exc=e)
        except BaseException as e:      # SimHang
            t.fatal = e
        finally:
            self._finish(t)

    def run(self, mode='line'):
        """Runs all tasks to completion under the chosen schedule."""
        if not self.tasks:
            return
        for t in self.tasks:
            _thread.start_new_thread(self._body, (t,))
        if self.ch.chance(0.35):
            n = self.ch.pick([5, 2, 12, 30, 80])
            self.site = (n, self.ch.draw(n))
        else:
            self.countdown = self._next_distance()
        first = self.ch.pick(self.tasks)
        self.cur = first
        Sched.current_sched = self
        if any(t.cancel_at is not None for t in self.tasks):
            mode = 'instr'
        Monitor.set_mode(mode)
        Monitor.hook = self._hook
        try:
            first.sem.release()
            self.main.acquire()
        finally:
            Monitor.hook = None
            Monitor.set_mode(None)
            Sched.current_sched = None
        self.w.steps += self.total
        for t in self.tasks:
            if isinstance(t.fatal, SimHang):
                raise Violation('endless', f'{t.name}: {t.fatal}')
            if t.outcome is not None and isinstance(t.outcome.exc, Violation):
                raise t.outcome.exc
        if self.switches:
            self.w.nontrivial = True
            self.w.faults['preemption'] += self.switches


class SimLock:
    """Lock (or reentrant lock) scheduled by the simulator."""
    reentrant = False

    def __init__(self):
        self._owner = None
        self._depth = 0

    def _me(self):
        s = Sched.current_sched
        return (s.cur if s is not None else None) or 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self._owner is not None:
            if self.reentrant and self._owner is me:
                break
            s = Sched.current_sched
            if not blocking or timeout >= 0:
                return False
            if s is None or s.cur is None:
                raise Violation('deadlock', 'lock acquired twice by one thread')
            s.block_on(self)
        self._owner = me
        self._depth += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            s = Sched.current_sched
            if s is not None:
                s.unblock(self)

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def patch_locks():
    """Locks that the code under test creates belong to the simulator."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
