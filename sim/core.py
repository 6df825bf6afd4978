"""Core of the simulator: recorded choices, the world of one run, step counting.

One run is a pure function of (property, choices, code under test).  All
choices come from one `Choices` object, which draws from a PRNG seeded with
VERIF_SEED and the run number, or replays a recorded tape.  No other source of
randomness, no clock and no real thread schedule is read while a run executes.
"""
import dis
import hashlib
import os
import random as _random
import sys
import traceback
from collections import Counter

SRC = os.path.realpath(os.environ.get('MELODIA_SRC', '/repo/src')) + os.sep


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """The code under test used up its step or CPU budget."""


class Cancelled(KeyboardInterrupt):
    """Cancellation (Ctrl-C) delivered at an instant chosen by the simulator."""


class Choices:
    """Source of all decisions of a run.  Records everything it hands out.

    Zero is always the simplest decision; a replayed tape that is too short
    continues with zeros.
    """
    __slots__ = ('rng', 'tape', 'rec')

    def __init__(self, seed=None, tape=None):
        self.rng = None if tape is not None else _random.Random(seed)
        self.tape = tape
        self.rec = []

    def draw(self, n):
        """Integer in [0, n)."""
        rec = self.rec
        if self.rng is not None:
            v = int(self.rng.random() * n) if n < (1 << 40) else self.rng.randrange(n)
        else:
            i = len(rec)
            v = self.tape[i] if i < len(self.tape) else 0
            if v >= n:
                v = n - 1
        rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, p):
        """True with probability p (zero on the tape means False)."""
        return self.draw(1000) >= 1000 - int(p * 1000)

    def weighted(self, pairs):
        """pairs of (value, weight); the first value is the simplest."""
        total = sum(w for _, w in pairs)
        v = self.draw(total)
        for value, w in pairs:
            if v < w:
                return value
            v -= w
        raise AssertionError

    def log_int(self, lo, hi):
        """Roughly log-uniform integer in [lo, hi] (small values are simple)."""
        span = hi - lo
        bits = self.draw(max(1, span.bit_length()) + 1)
        if bits == 0:
            return lo
        return lo + min(span, (1 << (bits - 1)) + self.draw(1 << (bits - 1)))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)          # zero: leave in place
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subrandom(self):
        """A PRNG for bulk data, decided by one recorded number."""
        return _random.Random('bulk:%d' % self.draw(1 << 30))


class Outcome:
    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def brief(self):
        if self.exc is not None:
            return 'raises ' + type(self.exc).__name__
        return 'returns'


class World:
    """State of one simulated run: choices, event log, fault counters."""

    def __init__(self, ch):
        self.ch = ch
        self.events = []
        self.big_files = False
        self.faults = Counter()
        self.probes = Counter()
        self.steps = 0
        self.nontrivial = False
        self.key = []                 # schedule/fault signature of the run

    def log(self, *parts):
        self.events.append(' '.join(str(p) for p in parts))

    def fault(self, kind):
        self.faults[kind] += 1
        self.nontrivial = True
        self.events.append('FAULT ' + kind)

    def probe(self, name):
        self.probes[name] += 1

    def call(self, fn, *args, **kwargs):
        """Calls code under test; every ordinary exception becomes an outcome."""
        self.steps += 1
        try:
            return Outcome(value=fn(*args, **kwargs))
        except (SimHang, SimCrash, Violation):
            raise
        except (Exception, Cancelled) as e:
            return Outcome(exc=e)

    def must(self, what, fn, *args, **kwargs):
        """Calls code under test where no exception is acceptable."""
        out = self.call(fn, *args, **kwargs)
        if out.exc is not None:
            raise Violation('unexpected-exception', f'{what} raised {describe(out.exc)}')
        return out.value

    def digest(self):
        h = hashlib.sha1()
        for e in self.events:
            h.update(e.encode('utf-8', 'replace'))
            h.update(b'\n')
        return h.hexdigest()[:16]


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(SRC):
            where = f' at {os.path.basename(fr.filename)}:{fr.lineno}'
            break
    text = str(exc)
    if len(text) > 160:
        text = text[:160] + '...'
    return f'{type(exc).__name__}({text!r}){where}'


def chain_contains(exc, wanted):
    """True if `wanted` is `exc` or among its causes and contexts."""
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        if e is wanted:
            return True
        todo.append(e.__cause__)
        todo.append(e.__context__)
    return False


def arrived(exc, injected):
    """True if the failure `injected` reached the caller as `exc`: the same exception, or a new one of its kind.

    An exception of another kind which only mentions the failure hides it from a caller who handles failures of
    the stream.  Python itself turns a StopIteration inside a generator into a RuntimeError.
    """
    if exc is injected or isinstance(exc, type(injected)):
        return True
    return isinstance(injected, StopIteration) and isinstance(exc, RuntimeError) and chain_contains(exc, injected)


# ---------------------------------------------------------------- monitoring

class Monitor:
    """Calls `hook(code, offset)` at every source line (offset None) or
    instruction of the code under test."""
    TOOL = 3
    hook = None
    line = 0            # of the latest line event
    installed = False
    mode = None
    _own = {}
    _points = {}

    @classmethod
    def install(cls):
        if cls.installed:
            return
        mon = sys.monitoring
        mon.use_tool_id(cls.TOOL, 'melodia-sim')
        own = cls._own
        DISABLE = mon.DISABLE

        def on_line(code, line):
            mine = own.get(code)
            if mine is None:
                mine = own[code] = code.co_filename.startswith(SRC)
            if not mine:
                return DISABLE
            h = cls.hook
            if h is not None:
                cls.line = line
                h(code, None)
            return None

        def on_instruction(code, offset):
            mine = own.get(code)
            if mine is None:
                mine = own[code] = code.co_filename.startswith(SRC)
            if not mine:
                return DISABLE
            h = cls.hook
            if h is not None:
                h(code, offset)
            return None

        mon.register_callback(cls.TOOL, mon.events.LINE, on_line)
        mon.register_callback(cls.TOOL, mon.events.INSTRUCTION, on_instruction)
        cls.installed = True

    @classmethod
    def set_mode(cls, mode):
        if not cls.installed:
            if mode is None:
                return
            cls.install()
        if cls.mode == mode:
            return
        mon = sys.monitoring
        ev = {None: 0, 'line': mon.events.LINE, 'points': mon.events.INSTRUCTION,
              'instr': mon.events.LINE | mon.events.INSTRUCTION}[mode]
        mon.set_events(cls.TOOL, ev)
        cls.mode = mode

    @classmethod
    def interruptible(cls, code, offset):
        """True if CPython may deliver an asynchronous exception (Ctrl-C) right before this instruction:
        it looks for one when a function starts or resumes, after every call and when a loop jumps back."""
        points = cls._points.get(code)
        if points is None:
            points = set()
            previous = ''
            for ins in dis.get_instructions(code):
                if previous == 'RESUME' or (previous.startswith('CALL') and 'INTRINSIC' not in previous):
                    points.add(ins.offset)
                if ins.opname == 'JUMP_BACKWARD':
                    points.add(ins.offset)
                previous = ins.opname
            points = cls._points[code] = frozenset(points)
        return offset in points


class Interrupt:
    """Raises `exc` at the n-th instant at which an asynchronous exception can arrive in the code under test."""

    def __init__(self, n, exc):
        self.left = n
        self.exc = exc
        self.where = None
        self.fired = False

    def _hook(self, code, offset):
        if self.fired or offset is None or not Monitor.interruptible(code, offset):
            return
        self.left -= 1
        if self.left <= 0:
            self.fired = True
            self.where = code.co_name
            raise self.exc

    def __enter__(self):
        Monitor.set_mode('points')
        Monitor.hook = self._hook
        return self

    def __exit__(self, *a):
        Monitor.hook = None
        Monitor.set_mode(None)
        return False


class StepBudget:
    """Limits the number of source lines the code under test may execute."""

    def __init__(self, limit):
        self.limit = limit
        self.used = 0

    def _hook(self, _code, _offset):
        self.used += 1
        if self.used > self.limit:
            Monitor.hook = None
            raise SimHang(f'more than {self.limit} source lines')

    def __enter__(self):
        Monitor.set_mode('line')
        Monitor.hook = self._hook
        return self

    def __exit__(self, *a):
        Monitor.hook = None
        Monitor.set_mode(None)
        return False
