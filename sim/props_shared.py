"""C20: one task adds to a track while others read it (threads and signal handlers)."""
import copy
import pickle
from collections import Counter
from fractions import Fraction

from melodia.core import Note, Track
from melodia.io import midi
from melodia.processing.track import randomize_velocities

from .core import Cancelled, Monitor, Violation, describe
from .gen import (Config, MNote, ascending, build_note, build_time, check_content, check_file, gen_notes, gen_signature,
                  observe, observe_signature, show)
from .props_misc import RandomSeam
from .props_threads import raw_observe, structure
from .sched import Sched
from .streams import SimWriter


class Nested:
    """Runs handlers in the middle of the code under test, at instants where CPython runs signal handlers, and
    (`point`) where the code under test calls something of ours."""

    def __init__(self, w, handlers, depth=1, signals=True):
        self.w = w
        self.handlers = list(handlers)
        self.depth = 0
        self.max_depth = depth
        self.signals = signals
        self.ran = 0
        self.deepest = 0
        self.left = self._distance()

    def _distance(self):
        return 1 + self.w.ch.log_int(0, 511)

    def _hook(self, code, offset):
        if self.depth >= self.max_depth or offset is None or not self.handlers \
                or not Monitor.interruptible(code, offset):
            return
        self.left -= 1
        if self.left <= 0:
            self.w.fault('signal')
            self._handle('signal handler in ' + code.co_name)

    def point(self, label):
        if self.depth < self.max_depth and self.handlers and self.w.ch.chance(0.3):
            self.w.fault('callback')
            self._handle('callback from ' + label)

    def _handle(self, label):
        self.depth += 1
        self.deepest = max(self.deepest, self.depth)
        self.ran += 1
        try:
            self.w.log(label)
            self.left = self._distance()
            self.handlers.pop(0)()
            self.left = self._distance()
        finally:
            self.depth -= 1

    def __enter__(self):
        if self.signals:
            Monitor.set_mode('points')
            Monitor.hook = self._hook
        return self

    def __exit__(self, *a):
        Monitor.hook = None
        Monitor.set_mode(None)
        return False


READS = ['iter', 'dumps', 'len', 'length', 'repr', 'dump', 'copy', 'content', 'process', 'pickle', 'two', 'eq', 'ne',
         'deepcopy', 'steps', 'iter', 'self']


class Shared:
    """A track, the adds made to it so far, and judges for readings of it."""

    def __init__(self, w, sig, track, notes):
        self.w, self.sig, self.track = w, sig, track
        self.order = list(notes)        # every note, in the order of the adds
        self.begun = self.ended = len(notes)
        self.verdicts = []
        self.readings = 0
        self.cfg = Config()
        self.writer = midi.MIDIWriter()
        self.sides = {}

    def add(self, group, where, forms):
        """One add by the only adder: `group` model notes at one position."""
        self.order += group
        self.begun += len(group)
        if forms == 'note':
            self.track.add(self.note(group[0]), where)
        elif forms == 'list':
            self.track.add([self.note(m) for m in group], where)
        else:
            self.track.add((self.note(m) for m in group), where)
        self.ended += len(group)

    @staticmethod
    def note(m):
        return Note(m.pitch, (m.dur.numerator, m.dur.denominator), m.vel)

    def instants(self, lo, hi):
        """The possible contents: all that had ended before, the first ones of what began meanwhile."""
        return [self.order[:k] for k in range(lo, hi + 1)]

    def judge(self, name, op, got, lo, hi):
        if not ascending(got):
            self.verdicts.append(f'{name}, {op}: not in ascending order: {show(got)}')
        elif not any(sorted(got) == sorted(s) for s in self.instants(lo, hi)):
            missing = list((Counter(self.order[:lo]) - Counter(got)).elements())
            invented = list((Counter(got) - Counter(self.order[:hi])).elements())
            self.verdicts.append(f'{name}, {op}: {len(got)} notes, between {lo} and {hi} had been added; missing '
                                 f'{show(missing)}, unexpected {show(invented)}')

    def read(self, name, op):
        t, w = self.track, self.w
        self.readings += 1
        lo = self.ended
        if op == 'iter':
            got = raw_observe(t)
            self.judge(name, op, got, lo, self.begun)
        elif op == 'two':
            # an iterator that is used while later adds happen
            it = iter(t)
            hi = self.begun
            first = [x for _, x in zip(range(2), it)]
            t.length, len(t)
            got = [MNote(*_observe(p, n)) for p, n in first + list(it)]
            self.judge(name, 'iter in two steps', got, lo, hi)
        elif op == 'steps':
            got = []
            it = iter(t)
            hi = self.begun
            for p, n in it:
                got.append(MNote(*_observe(p, n)))
            self.judge(name, 'loop', got, lo, hi)
        elif op in ('dumps', 'dump'):
            if op == 'dumps':
                data = midi.dumps(t)
            else:
                out = SimWriter(w, name=name, accept='half')
                self.writer.dump(t, out)
                data = out.received
            bad = None
            for s in self.instants(lo, self.begun):
                bad = check_file(data, s, self.sig, self.cfg)
                if not bad:
                    break
            if bad:
                self.verdicts.append(f'{name}, {op}: {bad} ({lo} to {self.begun} notes had been added)')
        elif op == 'len':
            n = len(t)
            if not lo <= n <= self.begun:
                self.verdicts.append(f'{name}: len {n}, between {lo} and {self.begun} notes had been added')
        elif op == 'length':
            x = t.length
            x = Fraction(x.nominator, x.denominator)
            if not end(self.order[:lo]) <= x <= end(self.order[:self.begun]):
                self.verdicts.append(f'{name}: length {x} after {lo} to {self.begun} notes')
        elif op == 'repr':
            text = repr(t)
            got = raw_observe(evaluated(text))
            self.judge(name, op, got, lo, self.begun)
        elif op in ('copy', 'pickle', 'deepcopy', 'content', 'process'):
            if op == 'copy':
                c = copy.copy(t)
            elif op == 'pickle':
                c = pickle.loads(pickle.dumps(t))
            elif op == 'deepcopy':
                c = copy.deepcopy(t)
            elif op == 'content':
                c = Track(signature=t.signature, content=[(n, p) for p, n in t])
            else:
                c = randomize_velocities(t)
            got = raw_observe(c)
            if op == 'process':
                if not ascending(got):
                    self.verdicts.append(f'{name}, {op}: not ascending')
                if not any(structure(got) == structure(s) for s in self.instants(lo, self.begun)):
                    self.verdicts.append(f'{name}, {op}: {len(got)} notes after {lo} to {self.begun}')
            else:
                self.judge(name, op, got, lo, self.begun)
        elif op == 'eq':
            # equal to a track that this one never was: never; to what it was all the time: always
            k = lo
            other = self.side(k)
            answers = [t == other, other == t]
            can_be = {sorted(s) == sorted(self.order[:k]) for s in self.instants(lo, self.begun)}
            for a in answers:
                if a not in can_be:
                    self.verdicts.append(f'{name}: comparison with the first {k} notes gave {a} after {lo} to '
                                         f'{self.begun}')
        elif op == 'ne':
            # with one of the latest notes replaced by the next one, or with a note that is never added
            k = lo if (-1 - lo) in self.sides else 0
            other = self.side(-1 - k)
            if other is not None and (t == other or other == t or not t != other):
                self.verdicts.append(f'{name}: equal to a track that it never was')
        elif op == 'self':
            if observe_signature(t) != tuple(self.sig):
                self.verdicts.append(f'{name}: signature {t.signature}')

    def side(self, k):
        """Another track: the first k notes, or (-1) all of them with one that is never added instead of the first,
        or (-1 - k) the first k with the next one instead of the last."""
        x = self.sides.get(k)
        if x is None:
            if k >= 0:
                notes = self.order[:k]
            elif k == -1:
                notes = [MNote(Fraction(3, 64), 11, Fraction(5, 64), 0.125)] + self.planned[1:]
            else:
                k0 = -1 - k
                notes = self.planned[:k0 - 1] + self.planned[k0:k0 + 1]
                if len(notes) < k0 or self.planned[k0] == self.planned[k0 - 1]:
                    return None
            x = self.sides[k] = Track(signature=self.sig)
            for m in notes:
                x.add(self.note(m), (m.pos.numerator, m.pos.denominator))
        return x


def _observe(p, n):
    return (Fraction(p.nominator, p.denominator), n.tone.pitch, Fraction(n.duration.nominator, n.duration.denominator),
            n.velocity)


def end(notes):
    return max((m.pos + m.dur for m in notes), default=Fraction(0))


def evaluated(text):
    from melodia.core import Signature, Tone
    return eval(text, {'Track': Track, 'Note': Note, 'Signature': Signature, 'Tone': Tone})


def run_c20(w):
    ch = w.ch
    sig = gen_signature(ch)
    before = gen_notes(ch, 36, count=ch.pick([3, 0, 1, 8, 20]), overlap=True, limit=30000, big=False)
    extra = gen_notes(ch, 36, count=ch.int(1, ch.pick([4, 12])), overlap=True, limit=30000, big=False) \
        or [MNote(Fraction(0), 40, Fraction(1, 4), 1.0)]
    track = w.must('Track', Track, sig)
    sh = Shared(w, sig, track, [])
    for m in before:
        w.must('add', sh.add, [m], (m.pos.numerator, m.pos.denominator), 'note')
    if ch.chance(0.3):
        w.must('iter', lambda: list(track))
    adds = []
    left = list(extra)
    while left:
        k = ch.pick([1, 1, 1, 2, 3])
        group, left = left[:k], left[k:]
        if ch.chance(0.15):
            pos = None
        else:
            pos = group[0].pos
        group = [MNote(pos, m.pitch, m.dur, m.vel) for m in group]
        adds.append((group, pos, 'note' if len(group) == 1 and ch.chance(0.7) else ch.pick(['list', 'gen'])))
    # where notes without position go
    model = list(before)
    planned = []
    for group, pos, form in adds:
        if pos is None:
            pos = end(model)
            planned.append(([MNote(pos, m.pitch, m.dur, m.vel) for m in group], None, form))
        else:
            planned.append((group, (pos.numerator, pos.denominator), form))
        model += planned[-1][0]
    sh.planned = model
    side = ch.chance(0.4)
    if side:
        w.must('building', sh.side, -1)
        w.must('building', sh.side, len(before))
        if before:
            w.must('building', sh.side, -1 - len(before))
    reads = [[ch.pick(READS) for _ in range(ch.int(1, 4))] for _ in range(ch.weighted([(1, 4), (2, 2), (3, 1)]))]
    if not side:
        reads = [[op if op not in ('eq', 'ne') else 'iter' for op in ops] for ops in reads]
    else:
        reads = [[op if op != 'eq' or k == 0 else 'ne' for k, op in enumerate(ops)] for ops in reads]
    how = ch.weighted([('threads', 5), ('handler-reads', 3), ('handler-adds', 2)])
    w.log(how, len(before), 'notes,', len(planned), 'adds', reads)
    seam = RandomSeam(w, 'seeded', ch.draw(1 << 30))

    def adder():
        for group, where, form in planned:
            w.log('add', len(group), form)
            sh.add(group, where, form)

    def reader(name, ops):
        def body():
            for op in ops:
                w.log(name, op)
                sh.read(name, op)
        return body

    cancel = None
    if how == 'threads':
        sched = Sched(w)
        tasks = [sched.spawn('adder', adder)]
        for name, ops in zip('ABC', reads):
            tasks.append(sched.spawn(name, reader(name, ops)))
        if ch.chance(0.2):
            cancel = tasks[1]
            cancel.cancel_at = 1 + ch.log_int(0, 1000)
        with seam.active():
            sched.run('instr' if ch.chance(0.25) else 'line')
        for t in tasks:
            if t.fatal is not None:
                raise t.fatal
            e = t.outcome.exc
            if e is not None and not (t is cancel and isinstance(e, Cancelled)):
                raise Violation('unexpected-exception', f'{t.name} failed: {describe(e)}')
        w.key = sched.trace
        w.probes['switches'] += sched.switches
    else:
        if how == 'handler-reads':
            inner = [lambda op=op: sh.read('handler', op) for ops in reads for op in ops]
            outer = adder
        else:
            inner = [lambda a=a: sh.add(*a) for a in planned]
            outer = reader('main', [op for ops in reads for op in ops])
        with seam.active(), Nested(w, inner) as nested:
            res = w.call(outer)
        if not res.ok:
            raise Violation('unexpected-exception', f'{how}: {describe(res.exc)}')
        w.probes['handlers'] += nested.ran
        if nested.ran:
            w.nontrivial = True
        with seam.active():
            for f in nested.handlers:
                w.must('later', f)
    for v in sh.verdicts:
        raise Violation('reading', v)
    check_content(w, track, model, sig, 'afterwards')
    solo = Track(signature=sig)
    for m in model:
        w.must('building', solo.add, sh.note(m), (m.pos.numerator, m.pos.denominator))
    if not w.must('==', lambda: track == solo) or w.must('dumps', midi.dumps, track) != midi.dumps(solo):
        raise Violation('differs', 'the track differs from one to which the same notes were added without readers')
    if observe(w, track) != observe(w, solo):
        raise Violation('differs', 'the track iterates differently from one that was never read')
