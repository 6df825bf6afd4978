"""C22: streams, tracks and the process belong to the caller."""
import contextlib
import decimal
import gc
import io
import locale
import os
import random
import signal
import sys
import threading
import tracemalloc
import warnings
import weakref

from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi
from melodia.music import chord
from melodia.processing.track import randomize_velocities

from .core import Violation, describe
from .gen import (Config, build_note, build_time, check_content, check_file, gen_cfg, gen_notes, gen_signature,
                  match_loaded, observe, quantized)
from .props_load import damage
from .props_misc import RandomSeam
from .streams import READ_ERRORS, WRITE_ERRORS, SimReader, SimWriter, make_error
from . import wire


class Owned(Track):
    """A caller's own kind of track, which can be watched."""


class Outbox:
    """A stream that can do nothing but write."""

    def __init__(self, room=None, part=None, error=None):
        self._kept = []
        self._room, self._part, self._error = room, part, error
        self._calls = 0
        self._over = None

    def write(self, data):
        self._calls += 1
        k = len(data) if not self._part else min(len(data), self._part)
        if self._room is not None:
            if self._room <= 0:
                raise self._error
            k = min(k, self._room)
            self._room -= k
        self._kept.append(bytes(data[:k]))
        return k


class Inbox:
    """A stream that can do nothing but read."""

    def __init__(self, data, size, room=None, error=None):
        self._data, self._size, self._room, self._error = data, size, room, error
        self._at = 0
        self._calls = 0
        self._over = None

    def read(self, n):
        self._calls += 1
        if self._room is not None and self._at >= self._room:
            raise self._error
        k = min(n, self._size, len(self._data) - self._at)
        if self._room is not None:
            k = min(k, self._room - self._at)
        self._at += k
        return self._data[self._at - k:self._at]


def process_state():
    """Settings of the process that a library has no business with."""
    return dict(
        recursion=sys.getrecursionlimit(), gc=(gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        switch=sys.getswitchinterval(), digits=sys.get_int_max_str_digits(), random=random.getstate(),
        decimal=repr(decimal.getcontext()), warnings=list(warnings.filters), stdout=sys.stdout, stderr=sys.stderr,
        stdin=sys.stdin, hook=(sys.excepthook, threading.excepthook, sys.unraisablehook, sys.displayhook),
        trace=(sys.gettrace(), sys.getprofile()), threads=threading.active_count(),
        signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)],
        timer=signal.getitimer(signal.ITIMER_REAL), cwd=os.getcwd(), environment=dict(os.environ),
        locale=locale.setlocale(locale.LC_ALL), files=len(os.listdir('/proc/self/fd')), path=list(sys.path),
        umask=_umask())


def _umask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def count_tracks():
    gc.collect()
    return sum(1 for x in gc.get_objects() if isinstance(x, Track))


def run_c22(w):
    ch = w.ch
    gc.freeze()         # what existed before this run is not looked at any more
    try:
        history(w)
        if ch.chance(0.15):
            repetition(w)
    finally:
        gc.unfreeze()


def history(w):
    ch = w.ch
    watched = []        # (what, weak reference)
    streams = []        # every stream that was handed out, with what it must hold in the end
    at_first = count_tracks()
    keep = ch.chance(0.3)       # the caller keeps the streams until the end; else each is dropped at once
    seam = RandomSeam(w, 'seeded', ch.draw(1 << 30))

    def host(what, fn):
        """Runs code under test and looks for traces of it in the process."""
        before = process_state()
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            before['stdout'], before['stderr'] = sys.stdout, sys.stderr
            res = w.call(fn)
            after = process_state()
        for k, v in before.items():
            if after[k] != v:
                if k == 'random':
                    raise Violation('process-changed', f'{what}: the state of the random module changed')
                raise Violation('process-changed', f'{what}: {k} was {v!r} and is {after[k]!r}'[:400])
        if out.getvalue() or err.getvalue():
            raise Violation('printed', f'{what} printed {(out.getvalue() + err.getvalue())[:100]!r}')
        return res

    def watch(what, x):
        watched.append((what, weakref.ref(x)))
        return x

    def over(kind, f, raw):
        """The library has returned: the stream is the caller's alone."""
        if kind in ('raw', 'buffered', 'memory') and f.closed:
            raise Violation('closed', f'the {kind} stream was closed')
        if kind in ('outbox', 'inbox', 'raw', 'buffered'):
            raw._over = raw._calls if kind in ('outbox', 'inbox') else raw.calls

    def save():
        cfg = gen_cfg(ch)
        sig = gen_signature(ch)
        notes = gen_notes(ch, cfg.mc, overlap=True, limit=cfg.limit, far=cfg.far, count=ch.int(0, 12))
        track = watch('a saved track', Owned(sig))
        for m in notes:
            w.must('add', track.add, build_note(ch, m), build_time(ch, m.pos))
        bad = ch.chance(0.15)
        if bad:
            w.must('add', track.add, Note(cfg.mc + 400, (1, 4)), (ch.draw(9), 4))
        kind = ch.weighted([('outbox', 4), ('raw', 3), ('buffered', 2), ('memory', 2)])
        n = 1 + ch.draw(3) if not bad else 1
        fail_at = ch.int(0, 60) if not bad and ch.chance(0.3) else None
        error = ch.pick(WRITE_ERRORS)
        if kind == 'outbox':
            exc = make_error(error) if fail_at is not None else None
            f = raw = Outbox(fail_at, ch.pick([None, 1, 2, 7, 100]), exc)
        elif kind == 'memory':
            f, raw, fail_at = io.BytesIO(b'something'), None, None
            f.seek(0, 2)
        else:
            raw = f = SimWriter(w, accept=ch.pick(['whole', 'half', 'mixed']), fail_at=fail_at,
                                error=error if error not in ('eintr', 'eagain') else 'eio', initial=b'something')
            if kind == 'buffered':
                f = io.BufferedWriter(raw, ch.pick([8192, 16]))
        between = b'--' if fail_at is None and ch.chance(0.3) else b''
        w.log('save', kind, len(notes), 'notes', n, 'times', 'unrepresentable' if bad else fail_at)
        failed = False
        for _ in range(n):
            res = host('saving', lambda: cfg.dump(track, f))
            over(kind, f, raw)
            failed = not res.ok
            if bad and res.ok or failed and not bad and fail_at is None:
                raise Violation('outcome', f'saving to a {kind} stream: {"accepted" if res.ok else describe(res.exc)}')
            if failed:
                break
            if between:
                rest = between
                while rest:
                    rest = rest[f.write(rest):]
                over(kind, f, raw)
        res = None
        if kind == 'buffered':
            # the caller flushes it; what fails only now is not ours to judge
            raw.fail_at = None
            w.call(f.flush)
        if not failed and fail_at is None:
            one = w.must('dumps', cfg.dumps, track)
            why = check_file(one, notes, sig, cfg)
            if why:
                raise Violation('outcome', f'dumps: {why}')
            want = (one + between) * n

            def holds(got):
                if got != want:
                    return f'{len(got)} bytes that are not {n} complete files of {len(one)} bytes'
                return None
            streams.append((kind, f, raw, holds))
        else:
            streams.append((kind, f, raw, None))
        if not bad:
            check_content(w, track, notes, sig, 'a saved track')
        if kind in ('outbox', 'raw'):
            watch(f'the {kind} stream of a save', f)

    def load():
        cfg = Config()
        f0 = wire.gen_file(w, max_players=3, max_events=8)
        data = f0.data
        damaged = ch.chance(0.3)
        if damaged:
            data = data[:ch.draw(len(data))] if ch.chance(0.4) else damage(w, data, 1 + ch.draw(3))
        kind = ch.weighted([('inbox', 4), ('raw', 3), ('buffered', 2), ('memory', 2)])
        fail_at = ch.int(0, len(data)) if ch.chance(0.3) and kind != 'memory' else None
        error = ch.pick(READ_ERRORS)
        if error in ('eintr', 'eagain'):
            error = 'eio'
        size = ch.pick([1 << 20, 1, 7, 100])
        if kind == 'inbox':
            f = raw = Inbox(data, size, fail_at, make_error(error) if fail_at is not None else None)
        elif kind == 'memory':
            f, raw = io.BytesIO(data), None
        else:
            f = raw = SimReader(w, data, deliver='fixed', size=size, fail_at=fail_at, error=error)
            if kind == 'buffered':
                f = io.BufferedReader(raw, ch.pick([8192, 16]))
        w.log('load', kind, len(data), 'bytes', 'damaged' if damaged else '', fail_at)
        res = host('loading', lambda: cfg.load(f))
        over(kind, f, raw)
        if fail_at is None and not damaged:
            if not res.ok:
                raise Violation('outcome', f'loading from a {kind} stream: {describe(res.exc)}')
            why = match_loaded(f0.expected(None, 36), observe(w, res.value))
            if why:
                raise Violation('outcome', f'loading from a {kind} stream: {why}')
        streams.append((kind, f, raw, None))
        if kind in ('inbox', 'raw'):
            watch(f'the {kind} stream of a load', f)

    def memory():
        cfg = gen_cfg(ch)
        notes = gen_notes(ch, cfg.mc, overlap=False, limit=cfg.limit, far=cfg.far, count=ch.int(0, 8))
        track = watch('a serialized track', Owned((4, 4)))
        for m in notes:
            track.add(build_note(ch, m), build_time(ch, m.pos))
        w.log('memory', len(notes))
        res = host('dumps', lambda: cfg.dumps(track))
        if not res.ok:
            raise Violation('outcome', f'dumps: {describe(res.exc)}')
        data = res.value
        if ch.chance(0.3):
            data = data[:ch.draw(len(data))]
            host('loads', lambda: cfg.loads(data))
            return
        res = host('loads', lambda: cfg.loads(data))
        why = match_loaded(quantized(notes, cfg), observe(w, res.value)) if res.ok else describe(res.exc)
        if why:
            raise Violation('outcome', f'loads: {why}')

    def collect():
        """Adding what an iterable of the caller delivers, which may fail."""
        notes = gen_notes(ch, 36, overlap=True, limit=1000, count=ch.int(0, 8))
        fail = ch.chance(0.4)

        def deliver():
            for m in notes:
                yield Note(m.pitch, (m.dur.numerator, m.dur.denominator), m.vel)
            if fail:
                raise ValueError('no more notes')
        track = watch('a track', Owned((3, 4)))
        it = watch('an iterable of notes', deliver())
        w.log('collect', len(notes), fail)
        res = host('adding', lambda: track.add(it, (1, 4)))
        if res.ok is fail:
            raise Violation('outcome', f'adding from a generator: {res.ok}')
        host('iterating', lambda: [next(iter(track), None) for _ in range(3)])
        host('comparing', lambda: (track == Owned((3, 4)), track != track, repr(track), str(track), len(track),
                                   track.length))

    def process():
        notes = gen_notes(ch, 36, overlap=True, limit=1000, count=ch.int(0, 8))
        track = watch('a processed track', Owned((4, 4)))
        for m in notes:
            track.add(build_note(ch, m), build_time(ch, m.pos))
        w.log('process', len(notes))
        high = ch.pick([1.0, 0.5, 0.0])
        res = None
        with seam.active():
            res = w.call(lambda: randomize_velocities(track, minimum=0.0 if high else 0.5, maximum=high))
        host('reading', lambda: list(track))

    def values():
        w.log('values')
        make = getattr(chord, ch.pick(['major', 'minor', 'maj']))
        host('values', lambda: (
            make(Note('C3', (1, 4))), Tone.from_notation('D#4').transposed(3), str(Signature(3, 4)), Signature(1, 4) + Signature(3, 8),
            Note('E2', (1, 8), 0.5)))
        res = host('values', lambda: Tone.from_notation('nothing'))
        res = host('values', lambda: Signature(1, 3))

    names = dict(save=(save, 5), load=(load, 5), memory=(memory, 2), collect=(collect, 2), process=(process, 1),
                 values=(values, 1))
    for _ in range(ch.int(1, 7)):
        what = ch.weighted([(k, v[1]) for k, v in names.items()])
        names[what][0]()
        if not keep and len(streams) > 3:
            settle(w, streams)
    settle(w, streams)
    gc.collect()
    for what, ref in watched:
        if ref() is not None:
            raise Violation('kept', f'{what} is still alive although the caller has dropped it')
    n = count_tracks()
    if n > at_first:
        raise Violation('kept', f'{n - at_first} tracks are still alive although the caller has dropped them')


def settle(w, streams):
    """All is quiet: nothing was used after its time, and what was handed over is what it was."""
    gc.collect()
    for kind, f, raw, holds in streams:
        calls = getattr(raw, '_calls', None) if kind in ('outbox', 'inbox') else None
        if calls is not None and calls != raw._over:
            raise Violation('used-later', f'the {kind} stream was used {calls - raw._over} times after the operation')
        if kind == 'memory' and f.closed:
            raise Violation('closed', 'the stream in memory was closed')
        if holds is not None:
            got = f.getvalue()[9:] if kind == 'memory' else bytes(raw.data[9:]) if kind in ('raw', 'buffered') else \
                b''.join(raw._kept)
            why = holds(got)
            if why:
                raise Violation('outcome', f'the {kind} stream: {why}')
    streams.clear()


def repetition(w):
    """Doing the same thing over and over takes no more and no more memory."""
    ch = w.ch
    notes = gen_notes(ch, 36, overlap=False, limit=1000, count=ch.int(1, 6))
    base = Track((4, 4))
    for m in notes:
        base.add(build_note(ch, m), build_time(ch, m.pos))
    data = midi.dumps(base)
    torn = [data[:ch.draw(len(data))], damage(w, data, 1), damage(w, data, 2), damage(w, data, 3),
            data[:18] + (len(data) - 26).to_bytes(4, 'big') + data[22:-4]]
    writer, reader = midi.MIDIWriter(), midi.MIDIReader()
    if not notes:
        return
    first = next(iter(base))

    def grown():
        t = Track((4, 4))
        t.add([first[1], first[1]], first[0])
        return t == base, t.length

    def refused():
        for bad in torn:
            with contextlib.suppress(midi.MIDIParsingError):
                reader.loads(bad)

    def rejected():
        with contextlib.suppress(Exception):
            Track().add(5)
        with contextlib.suppress(Exception):
            Tone.from_notation('H0')

    actions = dict(dumps=lambda: writer.dumps(base), loads=lambda: reader.loads(data), refused=refused, grown=grown,
                   module=lambda: midi.loads(midi.dumps(base)), repr=lambda: repr(base), rejected=rejected,
                   process=lambda: randomize_velocities(base), list=lambda: list(base),
                   chord=lambda: chord.major(first[1]),
                   values=lambda: (first[0] + first[1].duration, first[0].to(first[0].denominator * 2),
                                   first[1].tone.transposed(1)))
    name = ch.pick(sorted(actions))
    f = actions[name]
    n = 60
    w.log('repeat', name)
    state = random.getstate()
    try:
        for _ in range(10):
            f()
        gc.collect()
        tracemalloc.start()
        try:
            used = []
            for _ in range(4):
                for _ in range(n):
                    f()
                gc.collect()
                used.append(tracemalloc.get_traced_memory()[0])
        finally:
            tracemalloc.stop()
    finally:
        random.setstate(state)
    growth = [b - a for a, b in zip(used, used[1:])]
    if min(growth) >= 4 * n:
        raise Violation('leak', f'{name}: {n} more repetitions take {growth} more bytes each time')
    w.probe('repetitions')
