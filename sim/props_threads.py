"""C12, C13: caller threads under a simulated schedule."""
import copy
from fractions import Fraction

from melodia.core import Note, Track
from melodia.io import midi
from melodia.processing.track import randomize_velocities

from .core import Cancelled, Violation, describe
from .gen import (Config, MNote, ascending, build_note, build_time, build_track, check_content, check_file, gen_cfg,
                  gen_notes, gen_signature, match_loaded, observe, observe_note, observe_signature, quantized, show)
from .props_load import damage
from .props_misc import RandomSeam
from .sched import Sched
from .streams import SimReader, SimWriter
from . import wire


def twin(sig, notes, k=1):
    """The same track, built in the plainest way, for the expected results.
    k: factor by which the fractions are extended."""
    t = Track(signature=sig)
    for m in notes:
        t.add(Note(m.pitch, (m.dur.numerator * k, m.dur.denominator * k), m.vel),
              (m.pos.numerator * k, m.pos.denominator * k))
    return t


def raw_observe(track):
    out = []
    for pos, note in track:
        out.append(observe_note(pos, note))
    return out


def structure(notes):
    return sorted((n.pos, n.pitch, n.dur) for n in notes)


# ------------------------------------------------------------------------ C12

def run_c12(w):
    ch = w.ch
    sig = gen_signature(ch)
    count = ch.weighted([(3, 2), (8, 4), (20, 2), (40, 1)])
    notes = gen_notes(ch, 36, count=ch.int(1, count), overlap=True) or [MNote(Fraction(0), 36, Fraction(1, 4), 1.0)]
    cfg = Config(bpm=100.0, channel=3)
    track = w.must('building', twin, sig, notes)
    other = w.must('building', twin, sig, ch.shuffle(notes), ch.pick([1, 1, 4, 1 << 20]))
    less = w.must('building', twin, sig, notes[:-1], ch.pick([1, 64]))
    near = MNote(notes[-1].pos, notes[-1].pitch, notes[-1].dur + Fraction(1, 1 << 24), notes[-1].vel)
    near = w.must('building', twin, sig, notes[:-1] + [near])
    solo = w.must('building', twin, sig, notes)
    if ch.chance(0.2):
        w.must('iter', lambda: list(track))
        extra = gen_notes(ch, 36, count=ch.int(1, 3), overlap=True)
        for t in (track, other, solo, less, near):
            for m in extra:
                w.must('add', t.add, Note(m.pitch, (m.dur.numerator, m.dur.denominator), m.vel),
                       (m.pos.numerator, m.pos.denominator))
        notes = notes + extra
    expected_seq = observe(w, solo)
    expected_bytes = w.must('dumps', cfg.dumps, solo)
    expected_repr = w.must('repr', repr, solo)
    expected_str = w.must('str', str, solo)
    expected_len = max((m.pos + m.dur for m in notes), default=Fraction(0))
    writer = w.must('MIDIWriter', midi.MIDIWriter, bpm=100.0, channel=3)
    sched = Sched(w)
    verdicts = []

    def reader(name, ops):
        def body():
            for op in ops:
                w.log(name, op)
                verdicts.append(perform(name, op))
        return body

    def perform(name, op):
        """Runs one read operation in a thread; returns a complaint or None."""
        if op == 'iter':
            got = raw_observe(track)
            if got != expected_seq:
                return f'{name}: iteration gave {len(got)} of {len(expected_seq)} notes: {show(got)}'
        elif op == 'dumps':
            if midi.dumps(track, bpm=100.0, channel=3) != expected_bytes:
                return f'{name}: dumps gave other bytes'
        elif op == 'dump':
            out = SimWriter(w, name=name, accept='half')
            writer.dump(track, out)
            if out.received != expected_bytes:
                return f'{name}: dump wrote {len(out.received)} other bytes (expected {len(expected_bytes)})'
        elif op == 'eq':
            if not (track == other):
                return f'{name}: track != equal track'
        elif op == 'req':
            if not (other == track):
                return f'{name}: equal track != track'
        elif op == 'ne':
            if track == less or less == track or track == near or near == track or not track != near:
                return f'{name}: track == a track with other notes'
        elif op == 'eqsolo':
            if not (solo == track) or solo != track:
                return f'{name}: sorted twin != track'
        elif op == 'repr':
            if repr(track) != expected_repr:
                return f'{name}: repr differs'
        elif op == 'str':
            if str(track) != expected_str:
                return f'{name}: str differs: {str(track)}'
        elif op == 'len':
            if len(track) != len(notes):
                return f'{name}: len {len(track)} instead of {len(notes)}'
        elif op == 'length':
            x = track.length
            if Fraction(x.nominator, x.denominator) != expected_len:
                return f'{name}: length {x} instead of {expected_len}'
        elif op == 'copy':
            c = Track(signature=track.signature, content=[(n, p) for p, n in track])
            got = raw_observe(c)
            if got != expected_seq:
                return f'{name}: copy has {len(got)} of {len(expected_seq)} notes'
        elif op == 'ccopy':
            c = copy.copy(track)
            got = raw_observe(c)
            if got != expected_seq:
                return f'{name}: copy.copy has {len(got)} of {len(expected_seq)} notes'
        elif op == 'process':
            c = randomize_velocities(track)
            if structure(raw_observe(c)) != structure(expected_seq):
                return f'{name}: processed track has {len(c)} of {len(expected_seq)} notes'
        elif op == 'signature':
            if observe_signature(track) != tuple(sig):
                return f'{name}: signature {track.signature}'
        return None

    names = ['A', 'B', 'C', 'D'][:ch.weighted([(2, 4), (3, 2), (4, 1)])]
    cancel = ch.chance(0.3)
    tasks = []
    for n in names:
        ops = [ch.pick(['iter', 'dumps', 'eq', 'len', 'length', 'repr', 'str', 'dump', 'req', 'copy', 'process',
                        'signature', 'eqsolo', 'ne', 'iter', 'ccopy']) for _ in range(ch.int(1, 3))]
        tasks.append(sched.spawn(n, reader(n, ops)))
    if cancel:
        tasks[0].cancel_at = 1 + ch.log_int(0, 2000)
    w.log('readers', names, len(notes), 'notes', sig)
    with RandomSeam(w, 'seeded', ch.draw(1 << 30)).active():
        sched.run('instr' if ch.chance(0.25) else 'line')
    for v in verdicts:
        if v:
            raise Violation('reader-disturbed', v)
    for t in tasks:
        if t.fatal is not None:
            raise t.fatal
        e = t.outcome.exc
        if isinstance(e, Cancelled) and t is tasks[0] and cancel:
            w.nontrivial = True
            continue
        if e is not None:
            raise Violation('reader-disturbed', f'{t.name} failed: {describe(e)}')
    check_content(w, track, notes, sig, 'after concurrent reading')
    if observe(w, track) != expected_seq:
        raise Violation('track-damaged', 'the track iterates differently afterwards')
    if w.must('repr', repr, track) != expected_repr:
        raise Violation('track-damaged', 'the track prints differently afterwards')
    if w.must('dumps', cfg.dumps, track) != expected_bytes:
        raise Violation('track-damaged', 'the track saves to other bytes afterwards')
    w.probes['switches'] += sched.switches
    w.key = sched.trace


# ------------------------------------------------------------------------ C13

class Work:
    """Plans and performs independent pieces of work that share a reader, a writer or the module functions."""

    def __init__(self, w, callbacks=None):
        self.w, self.ch = w, w.ch
        ch = w.ch
        self.cfg = cfg = gen_cfg(ch)
        self.shared = ch.weighted([('objects', 3), ('module', 1)])
        self.writer = w.must('MIDIWriter', cfg.writer)
        self.reader = w.must('MIDIReader', midi.MIDIReader, 36)
        # settings that the module-level functions are called with: some agree in part
        self.mods = [Config(bpm=cfg.bpm, channel=cfg.channel), Config(bpm=cfg.bpm, channel=(cfg.channel + 5) % 16),
                     Config(bpm=90.0 if cfg.bpm != 90.0 else 91.0, channel=cfg.channel), Config()]
        for c in self.mods:
            c.omit = ch.chance(0.3)
        self.callbacks = callbacks      # called while the library runs through an iterable of ours
        self.tracks = None              # tracks that several jobs work on, by the job that made them

    def plan(self):
        """A list of jobs with everything drawn in advance."""
        ch, w = self.ch, self.w
        jobs = []
        for _ in range(ch.int(1, 2)):
            k = ch.pick(['save', 'load', 'build', 'roundtrip', 'bad-save', 'bad-load', 'load', 'save', 'process',
                         'broken-stream'])
            c = self.cfg if self.shared == 'objects' else ch.pick(self.mods)
            memory = ch.chance(0.4)     # dumps/loads instead of dump/load
            if k in ('save', 'build', 'roundtrip', 'process', 'broken-stream', 'bad-save'):
                sig = gen_signature(ch)
                notes = gen_notes(ch, c.mc, count=ch.int(1, 10), overlap=k not in ('roundtrip',), limit=c.limit)
                fail_at = ch.int(0, 40) if k == 'broken-stream' else None
                bad_at = ch.int(0, len(notes)) if k == 'bad-save' else None
                jobs.append((k, c, sig, notes, fail_at, bad_at, memory))
            elif k == 'load':
                f = wire.gen_file(w, max_players=3, max_events=8)
                jobs.append((k, f, ch.pick([None] + f.channels), memory))
            else:
                f = wire.gen_file(w, max_players=2, max_events=6)
                jobs.append((k, damage(w, f.data, 1 + ch.int(0, 2)), memory))
        return jobs

    def build(self, sig, notes):
        t = Track(signature=sig)
        for i, m in enumerate(notes):
            n = Note(m.pitch, (m.dur.numerator, m.dur.denominator), m.vel)
            at = (m.pos.numerator, m.pos.denominator)
            if i % 3 == 1 and self.callbacks is not None:
                t.add(self.delivered(n), at)
            elif i % 3 == 1:
                t.add([n], at)
            else:
                t.add(n, at)
        return t

    def delivered(self, n):
        self.callbacks('iterable')
        yield n
        self.callbacks('iterable')

    def track(self, job):
        """The track of a job: of its own, or the same every time."""
        if self.tracks is None or job[0] in ('build', 'bad-save'):
            return self.build(job[2], job[3])
        key = id(job)
        if key not in self.tracks:
            self.tracks[key] = self.build(job[2], job[3])
        return self.tracks[key]

    def read(self, data, size, memory, channel=None, r=None):
        r = r or (self.reader if self.shared == 'objects' else midi)
        if memory:
            return r.loads(data, channel=channel)
        return r.load(SimReader(self.w, data, deliver='fixed', size=size), channel=channel)

    def write(self, t, c, out, memory):
        writer, objects = self.writer, self.shared == 'objects'
        if memory:
            data = writer.dumps(t) if objects else midi.dumps(t, bpm=c.bpm, channel=c.channel)
            out._put(data)
        elif objects:
            writer.dump(t, out)
        else:
            midi.dump(t, out, bpm=c.bpm, channel=c.channel)

    def perform(self, job):
        """Returns a complaint or None."""
        k = job[0]
        w = self.w
        if k == 'load':
            _, f, channel, memory = job
            t = self.read(f.data, 11, memory, channel)
            got = raw_observe(t)
            return match_loaded(f.expected(channel, 36), got) or (
                None if observe_signature(t) in f.signatures(channel) else
                f'signature {t.signature} instead of {f.signatures(channel)}')
        if k == 'bad-load':
            try:
                self.read(job[1], 100, job[2])
            except midi.MIDIParsingError:
                pass
            return None
        _, c, sig, notes, fail_at, bad_at, memory = job
        t = self.track(job)
        if k == 'bad-save':
            t.add(Note(c.mc + 500 if bad_at % 2 else c.mc - 500, (1, 4)), (bad_at, 4))
            out = SimWriter(w, accept='half')
            try:
                self.write(t, c, out, memory)
            except ValueError:
                return None
            return 'an unrepresentable track was saved'
        if k == 'build':
            got = raw_observe(t)
            if sorted(got) != sorted(notes) or not ascending(got):
                return f'built track has {show(got)} instead of {show(sorted(notes))}'
            x = t.length
            want = max(m.pos + m.dur for m in notes) if notes else 0
            return None if Fraction(x.nominator, x.denominator) == want else f'length {x} instead of {want}'
        if k == 'process':
            p = randomize_velocities(t, minimum=0.2, maximum=0.4)
            got = raw_observe(p)
            if structure(got) != structure(notes):
                return 'processed track has other notes'
            if not all(0.2 <= m.vel <= 0.4 for m in got):
                return 'velocity outside the limits'
            return None
        out = SimWriter(w, accept='half', fail_at=fail_at, error='eio', style='partial')
        try:
            self.write(t, c, out, memory and fail_at is None)
        except OSError as e:
            if e is out.injected:
                return None
            raise
        if out.raised:
            return 'a failing stream went unnoticed'
        bad = check_file(out.received, notes, sig, c)
        if bad:
            return bad
        if k == 'roundtrip':
            r = c.reader() if self.shared == 'objects' else midi
            return match_loaded(quantized(notes, c), raw_observe(self.read(bytes(out.received), 50, memory, None, r)))
        return None


def run_c13(w):
    ch = w.ch
    work = Work(w)
    sched = Sched(w)
    names = ['A', 'B', 'C'][:ch.weighted([(2, 4), (3, 2)])]
    if ch.chance(0.15):
        # all of them do the same thing, at the same time
        same = work.plan()
        plans = {n: same for n in names}
        w.probe('same work in every thread')
    else:
        plans = {n: work.plan() for n in names}
    after = work.plan()
    verdicts = []

    def body(name):
        def run():
            for job in plans[name]:
                w.log(name, job[0])
                verdicts.append((name, job[0], work.perform(job)))
        return run

    tasks = [sched.spawn(n, body(n)) for n in names]
    cancel = ch.chance(0.3)
    if cancel:
        tasks[0].cancel_at = 1 + ch.log_int(0, 3000)
    seam = RandomSeam(w, 'seeded', ch.draw(1 << 30))
    with seam.active():
        sched.run('instr' if ch.chance(0.15) else 'line')
    for name, kind, v in verdicts:
        if v:
            raise Violation('interference', f'thread {name}, {kind}: {v}')
    for t in tasks:
        if t.fatal is not None:
            raise t.fatal
        e = t.outcome.exc
        if isinstance(e, Cancelled) and t is tasks[0] and cancel:
            w.nontrivial = True
            continue
        if e is not None:
            raise Violation('interference', f'thread {t.name} failed: {describe(e)}')
    for job in after:
        w.log('after', job[0])
        with seam.active():
            v = w.must('later work', work.perform, job)
        if v:
            raise Violation('aftermath', f'later {job[0]}: {v}')
    w.probes['switches'] += sched.switches
    w.key = sched.trace
