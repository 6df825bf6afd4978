"""C21: operations nested in one another, in one thread."""
from melodia.core import Note, Signature, Tone

from . import streams
from .core import Violation, describe
from .gen import build_track, check_content, gen_notes, gen_signature, gen_velocity
from .props_misc import RandomSeam
from .props_shared import Nested
from .props_threads import Work
from .props_track import gen_pos
from .props_value import ATOMS, perform_atom, value_of


class Values:
    """Computations with tones, signatures and notes that all pieces of work share."""

    def __init__(self, w):
        ch = w.ch
        self.w = w
        self.specs = (ch.int(0, 96) - 24, gen_pos(ch), gen_pos(ch), gen_velocity(ch))
        self.shared = w.must('values', self.make)
        self.before = {k: value_of(v) for k, v in self.shared.items()}
        self.expected = {}

    def make(self):
        p, f, g, v = self.specs
        tone = Tone(p)
        sigs = [Signature(f.numerator, f.denominator), Signature(g.numerator * 8, g.denominator * 8)]
        return dict(sig=sigs, tone=[tone], note=[Note(tone, sigs[0], v), Note(tone, sigs[1], v)])

    def plan(self):
        ch = self.w.ch
        kind = ch.pick(sorted(ATOMS))
        job = (kind, ch.pick(ATOMS[kind]), ch.draw(1 << 16))
        self.expected[job] = self.w.must(f'{job[0]} {job[1]}',
                                         lambda: value_of(perform_atom(*job[:2], self.make(), job[2])))
        return job

    def perform(self, job):
        got = value_of(perform_atom(job[0], job[1], self.shared, job[2]))
        if got != self.expected[job]:
            return f'{job[:2]} gave {got} instead of {self.expected[job]}'
        return None


def run_c21(w):
    """Signal handlers, streams, iterables and sources of randomness that use the library themselves."""
    ch = w.ch
    nested = None

    def point(label):
        if nested is not None:
            nested.point(label)

    work = Work(w, callbacks=point)
    values = Values(w)
    if ch.chance(0.5):
        work.tracks = {}
    verdicts = []

    def unit():
        if ch.chance(0.25):
            job = values.plan()
            return job[0], values, job
        job = ch.pick(work.plan())
        return job[0], work, job

    def running(name, u):
        def run():
            kind, by, job = u
            w.log(name, kind)
            try:
                v = by.perform(job)
            except Violation:
                raise
            except Exception as e:
                # a handler must not disturb what it interrupts
                v = f'failed: {describe(e)}'
            verdicts.append((name, kind, v))
        return run

    outer = [unit() for _ in range(ch.int(1, 2))]
    inner = []
    for _ in range(ch.int(1, 5)):
        inner.append(ch.pick(outer) if ch.chance(0.25) else unit())
    after = [unit()]
    w.log('outer', [u[0] for u in outer], 'inner', [u[0] for u in inner])
    seam = RandomSeam(w, 'seeded', ch.draw(1 << 30))
    seam.callback = point
    streams.callback = point
    try:
        with seam.active():
            nested = Nested(w, [running(f'inner {k}', u) for k, u in enumerate(inner)],
                            depth=ch.weighted([(1, 2), (2, 2), (3, 1)]), signals=ch.chance(0.7))
            with nested:
                for k, u in enumerate(outer):
                    running(f'outer {k}', u)()
            rest, nested.handlers = nested.handlers, []
            if nested.ran:
                w.nontrivial = True
            w.probes['nested operations'] += nested.ran
            w.probes['nested in nested'] += nested.deepest > 1
            for f in rest:
                f()
            for k, u in enumerate(outer + after):
                running(f'later {k}', u)()
    finally:
        streams.callback = None
    for name, kind, v in verdicts:
        if v:
            raise Violation('interference', f'{name}, {kind}: {v}')
    for key, t in (work.tracks or {}).items():
        for u in outer + inner + after:
            if id(u[2]) == key:
                check_content(w, t, u[2][3], u[2][2], 'a track that was worked on')
    for k, v in values.shared.items():
        if value_of(v) != values.before[k]:
            raise Violation('value-changed', f'{values.before[k]} became {value_of(v)}')
