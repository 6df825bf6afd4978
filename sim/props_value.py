"""C17..C19: operations that are interrupted, values that outlive operations, values shared by threads."""
import copy
import pickle
from collections import Counter
from fractions import Fraction

from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi
from melodia.music import chord as chords
from melodia.processing.track import randomize_velocities

from .core import Cancelled, Interrupt, Violation, describe
from .gen import (Config, MNote, ascending, build_note, build_time, check_file, gen_cfg, gen_signature, gen_velocity,
                  match_loaded, observe, observe_note, observe_signature, quantized, show)
from .props_load import damage
from .props_misc import RandomSeam
from .props_track import IterableFailed, gen_mnote, gen_pos
from .sched import Sched
from .streams import SimReader, SimWriter, make_error
from . import wire


def gen_interrupt(w, small=True):
    ch = w.ch
    kind = ch.pick(['cancel', 'memory'])
    n = ch.weighted([('early', 5), ('log', 3)])
    n = 1 + ch.draw(40) if n == 'early' else 1 + ch.log_int(0, 4000)
    return kind, Interrupt(n, make_error(kind))


def interrupted(w, fn, *args, **kwargs):
    """Calls fn with an interrupt at some instant.  Returns (outcome, fired)."""
    kind, it = gen_interrupt(w)
    with it:
        res = w.call(fn, *args, **kwargs)
    if it.fired:
        w.fault('interrupt-' + kind)
        w.log('interrupted in', it.where, res.brief())
    elif res.exc is it.exc:
        raise Violation('harness', 'interrupt without interrupt')
    return res, it


def must_have(t, what):
    if t.exc is not None:
        raise Violation('unexpected-exception', f'{what} raised {describe(t.exc)}')
    return t.value


# ------------------------------------------------------------------------ C17

def run_c17(w):
    """Adds, reads, saves and loads that stop at an arbitrary instant."""
    ch = w.ch
    sig = gen_signature(ch)
    cfg = Config(ppq=ch.pick([96, 480, 4097]), bpm=100.0, channel=ch.draw(16), module=False)
    writer = w.must('MIDIWriter', cfg.writer)
    reader = w.must('MIDIReader', cfg.reader)
    t = w.must('Track', Track, sig)
    have = []               # MNotes in the track
    length = Fraction(0)
    iterators = []          # (iterator, remaining expected)
    palette = [cfg.mc + k for k in (0, 4, 7, -12)]

    def mnote(pos):
        m = gen_mnote(ch, pos)
        # short enough for a file
        return MNote(m.pos, ch.pick(palette), m.dur % 100, m.vel)

    def place():
        return gen_pos(ch) % 1000

    def seen_length():
        x = must_have(w.call(lambda: t.length), 'length')
        return Fraction(x.nominator, x.denominator)

    def check(where):
        nonlocal length
        got = observe(w, t)
        if not ascending(got):
            raise Violation('order', f'{where}: positions are not ascending: {show(got)}')
        if Counter(got) != Counter(have):
            lost = Counter(have) - Counter(got)
            new = Counter(got) - Counter(have)
            raise Violation('content', f'{where}: missing {show(sorted(lost))}, unexpected {show(sorted(new))}')
        if w.must('len', len, t) != len(have):
            raise Violation('content', f'{where}: number of notes')
        if seen_length() != length:
            raise Violation('length', f'{where}: length {seen_length()} instead of {length}')
        if observe_signature(t) != tuple(sig):
            raise Violation('signature', f'{where}: {t.signature}')

    def step_iterator(k, n):
        it, rest = iterators[k]
        for _ in range(n):
            out = w.call(next, it, None)
            if not out.ok:
                raise Violation('iteration', f'an earlier iteration raised {describe(out.exc)}')
            if out.value is None:
                if rest:
                    raise Violation('iteration', f'an iteration lost {show(rest)}')
                iterators.pop(k)
                return
            got = observe_note(*out.value)
            if not rest or not same_place(got, rest):
                raise Violation('iteration', f'an iteration gave {show([got])}, expected {show(rest[:1])}')
            rest.remove(got)

    def same_place(got, rest):
        return got in rest and got.pos == rest[0].pos

    def sync(where, base, extra, old_length):
        """After an add that was interrupted: takes over what it achieved."""
        nonlocal have, length
        got = observe(w, t)
        if not ascending(got):
            raise Violation('order', f'{where}: positions are not ascending: {show(got)}')
        if w.must('len', len, t) != len(got):
            raise Violation('content', f'{where}: {len(t)} notes counted, {len(got)} iterated')
        lost = Counter(base) - Counter(got)
        if lost:
            raise Violation('content', f'{where}: earlier notes are gone: {show(sorted(lost.elements()))}')
        new = Counter(got) - Counter(base)
        k = sum(new.values())
        if Counter(extra[:k]) != new:
            raise Violation('content', f'{where}: {show(sorted(new.elements()))} came in, the add was {show(extra)}')
        have = list(base) + list(extra[:k])
        now = seen_length()
        least = max([old_length] + [m.pos + m.dur for m in got])
        most = max([least] + [m.pos + m.dur for m in extra])
        if not least <= now <= most:
            raise Violation('length', f'{where}: length {now}, but it was {old_length} before and the last note ends '
                                      f'at {least}')
        length = now

    def same_load(f, track):
        bad = match_loaded(f.expected(None, 36), observe(w, track))
        if bad or observe_signature(track) not in f.signatures(None):
            raise Violation('load', f'{bad or track.signature}')

    steps = ch.int(2, ch.weighted([(8, 4), (25, 2)]))
    for step in range(steps):
        op = ch.weighted([('int-add', 6), ('add', 4), ('int-read', 3), ('check', 2), ('iter', 1), ('step', 2),
                          ('int-group', 4), ('append', 2), ('int-append', 3), ('int-build', 1), ('int-load', 2),
                          ('rebuild', 1)])
        if op in ('add', 'int-add'):
            m = mnote(place())
            note, pos = build_note(ch, m), build_time(ch, m.pos)
            w.log(op, show([m]))
            if op == 'add':
                w.must('add', t.add, note, pos)
                have.append(m)
                length = max(length, m.pos + m.dur)
            else:
                res, it = interrupted(w, t.add, note, pos)
                if res.ok:
                    have.append(m)
                    length = max(length, m.pos + m.dur)
                elif not it.fired:
                    raise Violation('unexpected-exception', describe(res.exc))
                else:
                    sync('after an interrupted add', have, [m], length)
        elif op in ('append', 'int-append'):
            m = mnote(length)
            note = build_note(ch, m)
            w.log(op, show([m]))
            res, it = interrupted(w, t.add, note) if op == 'int-append' else (w.call(t.add, note), None)
            if res.ok:
                have.append(m)
                length = max(length, m.pos + m.dur)
            elif it is None or not it.fired:
                raise Violation('unexpected-exception', describe(res.exc))
            else:
                sync('after an interrupted append', have, [m], length)
        elif op == 'int-group':
            pos = place()
            ms = [mnote(pos) for _ in range(ch.int(1, 6))]
            notes = [build_note(ch, m) for m in ms]
            form = ch.pick([list, tuple, iter, lambda x: (y for y in x)])
            w.log(op, show(ms))
            res, it = interrupted(w, t.add, form(notes), build_time(ch, pos))
            if res.ok:
                have.extend(ms)
                length = max([length] + [m.pos + m.dur for m in ms])
            elif not it.fired:
                raise Violation('unexpected-exception', describe(res.exc))
            else:
                sync('after an interrupted group', have, ms, length)
        elif op == 'int-read':
            k = ch.pick(['list', 'iter', 'eq', 'repr', 'dumps', 'dump', 'process', 'len', 'length', 'copy', 'ccopy', 'deep'])
            w.log(op, k)
            out = SimWriter(w, accept='half')
            fn = dict(list=lambda: list(t), iter=lambda: iter(t), eq=lambda: t == t, repr=lambda: repr(t),
                      dumps=lambda: writer.dumps(t), dump=lambda: writer.dump(t, out),
                      process=lambda: randomize_velocities(t), len=lambda: len(t), length=lambda: t.length,
                      copy=lambda: rebuilt(t), ccopy=lambda: copy.copy(t), deep=lambda: copy.deepcopy(t))[k]
            with RandomSeam(w, 'seeded', 1).active():
                res, it = interrupted(w, fn)
            if not res.ok and not it.fired:
                raise Violation('unexpected-exception', f'{k}: {describe(res.exc)}')
            if k == 'dump' and not res.ok:
                # whatever arrived is the beginning of the file
                full = w.must('dumps', writer.dumps, t)
                if not full.startswith(out.received):
                    raise Violation('torn', 'an interrupted save wrote something that is no beginning of the file')
            if k == 'dumps' and res.ok:
                bad = check_file(res.value, have, sig, cfg)
                if bad:
                    raise Violation('content', f'file: {bad}')
            if ch.chance(0.5):
                check(f'after an interrupted {k}')
        elif op == 'int-build':
            ms = [mnote(place()) for _ in range(ch.int(1, 5))]
            content = [(build_note(ch, m), build_time(ch, m.pos)) for m in ms]
            w.log(op, show(ms))
            res, it = interrupted(w, lambda: Track(sig, content))
            if not res.ok and not it.fired:
                raise Violation('unexpected-exception', describe(res.exc))
            again = w.must('Track(content)', Track, sig, content)
            if Counter(observe(w, again)) != Counter(ms):
                raise Violation('content', 'a track built after an interrupted construction has other notes')
        elif op == 'int-load':
            files = [wire.gen_file(w, max_players=2, max_events=ch.pick([5, 14])) for _ in range(ch.int(1, 2))]
            f = files[0]
            k = ch.pick(['loads', 'load'])
            for _ in range(ch.int(1, 3)):
                res, it = interrupted(w, reader.loads, f.data) if k == 'loads' else \
                    interrupted(w, reader.load, SimReader(w, f.data, deliver='fixed', size=9))
                if res.ok:
                    same_load(f, res.value)
                elif not it.fired or isinstance(res.exc, midi.MIDIParsingError):
                    raise Violation('unexpected-exception', describe(res.exc))
            for f in reversed(files):
                res = w.call(reader.loads, f.data)
                if not res.ok:
                    raise Violation('aftermath', f'after an interrupted load the reader raised {describe(res.exc)}')
                same_load(f, res.value)
        elif op == 'iter':
            iterators.append((w.must('iter', iter, t), sorted(have)))
        elif op == 'step' and iterators:
            step_iterator(ch.draw(len(iterators)), ch.int(1, 4))
        elif op == 'rebuild':
            other = w.must('rebuild', lambda: Track(sig, [(n, p) for p, n in t]))
            if not w.must('==', lambda: t == other):
                raise Violation('content', 'the track is not equal to its own copy')
        elif op == 'check':
            check('later')
    check('finally')
    while iterators:
        step_iterator(0, 1 + len(iterators[0][1]))
    bad = check_file(w.must('dumps', writer.dumps, t), have, sig, cfg)
    if bad:
        raise Violation('content', f'file: {bad}')
    w.key = [len(have), steps]


# ------------------------------------------------------------------------ C18

def value_of(x):
    """The value of an object of the library, exactly as a caller can see it."""
    if isinstance(x, Signature):
        return 'signature', x.nominator, x.denominator
    if isinstance(x, Tone):
        return 'tone', x.pitch
    if isinstance(x, Note):
        return 'note', value_of(x.tone), value_of(x.duration), x.velocity
    if isinstance(x, Track):
        # positions by value: a track is free to rescale what it hands out later
        pairs = [(Fraction(p.nominator, p.denominator),) + value_of(n) for p, n in x]
        n, d = x.length.nominator, x.length.denominator
        return 'track', value_of(x.signature), len(x), Fraction(n, d), tuple(sorted(pairs, key=repr)), \
            tuple(p[0] for p in pairs)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(value_of(y) for y in x)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return 'bytes', bytes(x)
    if isinstance(x, (int, float, str)) or x is None:
        return x
    if isinstance(x, (midi.MIDIReader, midi.MIDIWriter)):
        return type(x).__name__
    raise Violation('malformed', f'unexpected {type(x).__name__}')


def failing():
    yield from ()
    raise IterableFailed('the iterable fails')


def unpickled(x):
    return pickle.loads(pickle.dumps(x))


def rebuilt(t):
    return Track(t.signature, [(n, p) for p, n in t])


COPIES = [rebuilt, copy.copy, copy.deepcopy, unpickled]

CHORDS = sorted(n for n in dir(chords) if not n.startswith('_') and callable(getattr(chords, n))
                and getattr(getattr(chords, n), '__module__', '') == chords.__name__)


def run_c18(w):
    """Several clients work with shared values; nobody's values change."""
    ch = w.ch
    pool = []               # [object, value, what]
    by_kind = {}
    files = []
    names = []              # of chords
    results = {}            # what a pure function gave earlier
    cfg = gen_cfg(ch, allow_module=False)
    writer = w.must('MIDIWriter', cfg.writer)
    reader = w.must('MIDIReader', cfg.reader)

    def keep(x, what):
        v = w.must('reading a value', value_of, x)
        entry = [x, v, what]
        pool.append(entry)
        by_kind.setdefault(type(x), []).append(entry)
        return x

    def verify(entry, when):
        v = w.must('reading a value', value_of, entry[0])
        if v != entry[1]:
            raise Violation('value-changed', f'{entry[2]} was {short(entry[1])} and is {short(v)} after {when}')

    def short(v):
        s = str(v)
        return s if len(s) < 200 else s[:200] + '...'

    def some(kind):
        xs = by_kind.get(kind)
        return ch.pick(xs[-6:])[0] if xs else None

    def a_sig():
        x = some(Signature) if ch.chance(0.6) else None
        if x is None or x.denominator > 1 << 40 or x.nominator > 1 << 60:
            f = gen_pos(ch)
            x = keep(w.must('Signature', Signature, f.numerator, f.denominator), 'a signature')
        return x

    def a_tone():
        x = some(Tone) if ch.chance(0.6) else None
        return x if x is not None else keep(w.must('Tone', Tone, cfg.mc + ch.int(0, 12)), 'a tone')

    def a_note():
        x = some(Note) if ch.chance(0.6) else None
        if x is None:
            x = keep(w.must('Note', Note, a_tone(), a_sig(), gen_velocity(ch)), 'a note')
        return x

    def a_track():
        x = some(Track) if ch.chance(0.85) else None
        return x if x is not None else keep(w.must('Track', Track, a_sig()), 'a track')

    def a_place():
        k = ch.draw(4)
        if k == 0:
            return None
        if k == 1:
            f = gen_pos(ch)
            return keep(ch.pick([list, tuple])([f.numerator, f.denominator]), 'a position')
        return a_sig()

    def pure(key, fn, *args):
        """A function of its arguments gives the same value whenever it is called."""
        x = w.must(key, fn, *args)
        v = value_of(x)
        k = (key,) + tuple(value_of(a) for a in args)
        if results.setdefault(k, v) != v:
            raise Violation('value-changed', f'{key} gave {short(results[k])} before and {short(v)} now')
        return x

    steps = ch.int(4, ch.weighted([(15, 4), (40, 2)]))
    entry_of = {}
    for step in range(steps):
        op = ch.weighted([('add', 6), ('group', 4), ('derive', 4), ('signature', 4), ('chord', 3), ('iterate', 4),
                          ('track', 2), ('content', 2), ('save', 3), ('load', 3), ('process', 2), ('compare', 2),
                          ('print', 1), ('length', 3), ('bad-add', 2), ('bad-load', 1), ('bad-save', 1), ('copy', 1)])
        w.log(op)
        changed = None
        if op == 'add':
            t, n, p = a_track(), a_note(), a_place()
            w.must('add', t.add, n, p)
            changed = t
        elif op == 'group':
            t, p = a_track(), a_place()
            notes = [a_note() for _ in range(ch.int(0, 4))]
            keep(notes, 'a list of notes')
            w.must('add', t.add, notes, p)
            changed = t
        elif op == 'derive':
            n = a_note()
            k = ch.draw(4)
            if k == 0:
                keep(pure('transposed', lambda x, k: x.transposed(k), n, ch.int(0, 24) - 12), 'a transposed note')
            elif k == 1:
                keep(pure('with_duration', lambda x, k: x.with_duration(k), n, a_sig()), 'a note with another duration')
            elif k == 2:
                keep(pure('with_velocity', lambda x, k: x.with_velocity(k), n, gen_velocity(ch)), 'a note with another velocity')
            else:
                keep(pure('tone.transposed', lambda x, k: x.transposed(k), a_tone(), ch.int(0, 24) - 12), 'a transposed tone')
        elif op == 'signature':
            a, b = a_sig(), a_sig()
            k = ch.draw(6)
            if k == 0:
                keep(pure('+', lambda x, y: x + y, a, b), 'a sum')
            elif k == 1:
                keep(pure('*', lambda x, y: x * y, a, b), 'a product')
            elif k == 2:
                keep(pure('normalized', lambda x: x.normalized(), a), 'a normalized signature')
            elif k == 3:
                keep(pure('to', lambda x: x.to(x.denominator << 2), a), 'a rescaled signature')
            elif k == 4:
                keep(pure('abs', abs, a), 'an absolute value')
            else:
                pure('compare', lambda x, y: [x < y, x <= y, x == y, x != y, x > y, x >= y], a, b)
        elif op == 'chord':
            if not names or ch.chance(0.3):
                names.append(ch.pick(CHORDS))
            name = ch.pick(names)
            base = ch.draw(4)
            base = a_tone() if base == 0 else a_note() if base == 1 else cfg.mc if base == 2 else 'C4'
            args = ch.pick([(), (), (None, 0.5), ('s', None), ('s', 0.25)])
            args = tuple(a_sig() if x == 's' else x for x in args)
            notes = pure(name, getattr(chords, name), base, *args)
            keep(notes, f'a {name} chord')
            for n in notes[:2]:
                keep(n, f'a note of a {name} chord')
        elif op == 'iterate':
            t = a_track()
            pairs = w.must('iterate', lambda: list(t))
            keep(pairs, 'an iterated track')
            if pairs:
                p, n = ch.pick(pairs)
                keep(p, 'an iterated position')
                keep(n, 'an iterated note')
        elif op == 'track':
            keep(w.must('Track', Track, ch.pick([a_sig(), list(gen_signature(ch)), gen_signature(ch)])), 'a track')
        elif op == 'content':
            pairs = [(a_note(), a_place()) for _ in range(ch.int(0, 4))]
            keep(list(pairs), 'a list of content')
            keep(w.must('Track', Track, a_sig(), pairs), 'a track with content')
            if ch.chance(0.5):
                pairs.clear()       # the list belongs to the caller
        elif op == 'copy':
            t = a_track()
            c = w.must('copy', ch.pick(COPIES), t)
            if value_of(c) != value_of(t) or not w.must('==', lambda: t == c and c == t):
                raise Violation('value-changed', f'the copy of {short(value_of(t))} is {short(value_of(c))}')
            keep(c, 'a copied track')
            if ch.chance(0.5):
                x = ch.pick(pool)[0]
                c = w.must('copy', ch.pick([copy.copy, copy.deepcopy, unpickled]), x)
                if value_of(c) != value_of(x):
                    raise Violation('value-changed', f'the copy of {short(value_of(x))} is {short(value_of(c))}')
                keep(c, 'a copy')
        elif op == 'length':
            t = a_track()
            keep(w.must('length', lambda: t.length), 'a length')
            keep(w.must('signature', lambda: t.signature), 'a time signature')
        elif op == 'save':
            t = a_track()
            if ch.chance(0.5):
                res = w.call(writer.dumps, t)
                if res.ok:
                    keep(res.value, 'a saved file')
                    twin = Track(t.signature, [(n, p) for p, n in t])
                    if w.must('dumps', cfg.dumps, twin) != res.value:
                        raise Violation('value-changed', 'a track and its copy save to different bytes')
            else:
                w.call(writer.dump, t, SimWriter(w, accept='half'))
        elif op == 'bad-save':
            t = a_track()
            res = w.call(writer.dump, t, SimWriter(w, accept='half', fail_at=ch.draw(60), error='eio', style='partial'))
            if res.ok:
                w.log('it fitted')
        elif op == 'load':
            if not files or ch.chance(0.5):
                files.append(wire.gen_file(w, max_players=2, max_events=5))
            f = ch.pick(files)
            channel = ch.pick([None] + f.channels)
            if ch.chance(0.5):
                res = pure('load', lambda d, c: reader.loads(d, channel=c), f.data, channel)
            else:
                res = pure('load', lambda d, c: reader.load(SimReader(w, d, deliver='fixed', size=9), channel=c), f.data,
                           channel)
            keep(res, 'a loaded track')
        elif op == 'bad-load':
            f = wire.gen_file(w, max_players=2, max_events=5)
            res = w.call(reader.loads, damage(w, f.data, 1 + ch.draw(2)))
            if res.ok:
                keep(res.value, 'a loaded track')
        elif op == 'process':
            t = a_track()
            with RandomSeam(w, 'seeded', ch.draw(1 << 20)).active():
                keep(w.must('randomize_velocities', randomize_velocities, t), 'a processed track')
        elif op == 'compare':
            a, b = a_track(), a_track()
            w.must('==', lambda: (a == b, a != b))
            a, b = a_note(), a_note()
            pure('compare notes', lambda x, y: [x < y, x <= y, x == y, x != y, x > y, x >= y], a, b)
        elif op == 'print':
            x = ch.pick(pool)[0] if pool else a_note()
            text, _ = w.must('print', lambda: (repr(x), str(x)))
            if isinstance(x, (Tone, Signature, Note, Track)):
                # what is printed is Python for the same value
                again = w.must('evaluating', eval, text, dict(Tone=Tone, Signature=Signature, Note=Note, Track=Track))
                if w.must('reading a value', value_of, again) != value_of(x):
                    raise Violation('value-changed', f'{short(value_of(x))} prints as {short(text)}')
        elif op == 'bad-add':
            t = a_track()
            what = ch.pick([None, 5, [5], failing()])
            where = ch.pick([None, 5, (1, 3), (-1, 4), 'place']) if ch.chance(0.5) else a_place()
            res = w.call(t.add, what, where)
            if res.ok:
                changed = t
        # whatever was not added to is as it was
        if changed is not None:
            for e in by_kind[Track]:
                if e[0] is changed:
                    e[1] = w.must('reading a value', value_of, changed)
        if step % 4 == 3 or ch.chance(0.2):
            for e in pool[-40:]:
                verify(e, op)
        elif pool:
            for _ in range(3):
                verify(ch.pick(pool), op)
    for e in pool:
        verify(e, 'everything')
    w.probes['values kept'] += len(pool)
    w.faults['shared-value'] += len(pool)
    w.nontrivial = True
    w.key = [len(pool)]


# ------------------------------------------------------------------------ C19

ATOMS = {
    'sig': ['lt', 'le', 'eq', 'ge', '+', '*', 'to', 'normalized', 'abs', 'str', 'repr', 'parts', 'copy', 'chain', 'max'],
    'tone': ['notation', 'flat', 'frequency', 'octave', 'up', 'compare', 'parse', 'str'],
    'note': ['transposed', 'longer', 'louder', 'compare', 'repr', 'str', 'sorted', 'parts'],
    'chord': ['chord', 'chord', 'chord-with'],
    'track': ['build', 'group', 'save', 'append', 'reload'],
}


def perform_atom(kind, op, v, k):
    """One computation on the shared values v; k decides the details.  The result depends on nothing else."""
    sigs, tones, notes = v['sig'], v['tone'], v['note']
    a, b = sigs[k % len(sigs)], sigs[k // 7 % len(sigs)]
    t, u = tones[k % len(tones)], tones[k // 5 % len(tones)]
    n, m = notes[k % len(notes)], notes[k // 3 % len(notes)]
    if kind == 'sig':
        return dict(lt=lambda: (a < b, b < a, a > b), le=lambda: (a <= b, b <= a), eq=lambda: (a == b, a != b),
                    ge=lambda: (a >= b, a > b), to=lambda: a.to(a.denominator << k % 5), abs=lambda: abs(a),
                    normalized=lambda: a.normalized(), str=lambda: str(a), repr=lambda: repr(a),
                    parts=lambda: (a.nominator, a.denominator), copy=lambda: copy.copy(a),
                    chain=lambda: (a + b + a) * b, max=lambda: max(sigs) if len(sigs) else None,
                    **{'+': lambda: a + b, '*': lambda: a * b})[op]()
    if kind == 'tone':
        return dict(notation=lambda: t.to_notation(), flat=lambda: t.to_notation(transpose_down=True),
                    frequency=lambda: (t.to_frequency(), t.to_frequency(base=432.0)), octave=lambda: (t.octave, t.pitch),
                    up=lambda: t.transposed(k % 25 - 12), compare=lambda: (t < u, t <= u, t == u, t != u, t >= u, t > u),
                    parse=lambda: (Tone.from_notation(str(t)), Tone.from_notation('G#b#bb#5')), str=lambda: repr(t))[op]()
    if kind == 'note':
        return dict(transposed=lambda: n.transposed(k % 25 - 12), longer=lambda: n.with_duration(a),
                    louder=lambda: n.with_velocity((k % 101) / 100), repr=lambda: repr(n), str=lambda: str(n),
                    compare=lambda: (n < m, n <= m, n == m, n != m, n >= m, n > m), sorted=lambda: sorted(notes),
                    parts=lambda: (n.tone, n.duration, n.velocity))[op]()
    if kind == 'chord':
        fn = getattr(chords, CHORDS[k % len(CHORDS)])
        base = (t, n, t.pitch, str(t))[k % 4]
        return fn(base) if op == 'chord' else fn(base, a, (k % 101) / 100)
    x = Track(a, [(y, sigs[(i * k) % len(sigs)]) for i, y in enumerate(notes)])
    if op == 'group':
        x.add(list(notes), b)
        x.add(getattr(chords, CHORDS[k % len(CHORDS)])(n), a)
    elif op == 'append':
        x.add(n)
        x.add([m, n])
    elif op in ('save', 'reload'):
        y = Track((3, 4), [(z.with_duration((1, 4)), (i, 4)) for i, z in enumerate(notes) if -24 <= z.tone.pitch <= 91])
        data = midi.dumps(y)
        return midi.loads(data) if op == 'reload' else data
    return x


def run_c19(w):
    """Threads compute with the same tones, signatures, notes and chord functions."""
    ch = w.ch
    specs = dict(sig=[gen_pos(ch) for _ in range(ch.int(1, 4))], tone=[ch.int(0, 96) - 24 for _ in range(ch.int(1, 3))],
                 note=[])
    for _ in range(ch.int(1, 5)):
        specs['note'].append((ch.pick(specs['tone']), ch.pick(specs['sig']), gen_velocity(ch)))
    wide = ch.pick([0, 0, 1, 3])
    styles = [ch.draw(3) for _ in range(12)]

    def make(style):
        """The values, sharing parts of each other or not."""
        def sig(i, f):
            k = 1 << (wide if i % 2 else 0)
            return Signature(f.numerator * k, f.denominator * k)
        sigs = [sig(i, f) for i, f in enumerate(specs['sig'])]
        tones = [Tone(p) for p in specs['tone']]
        notes = []
        for i, (p, f, v) in enumerate(specs['note']):
            tone = tones[specs['tone'].index(p)]
            dur = sigs[specs['sig'].index(f)]
            if style[i % len(style)] == 1:
                tone = p
            if style[i % len(style)] == 2:
                dur = (dur.nominator, dur.denominator)
            notes.append(Note(tone, dur, v))
        return dict(sig=sigs, tone=tones, note=notes)

    shared = w.must('building values', make, styles)
    before = {k: value_of(v) for k, v in shared.items()}
    names = ['A', 'B', 'C', 'D'][:ch.weighted([(2, 4), (3, 2), (4, 1)])]
    favourite = ch.pick(sorted(ATOMS)) if ch.chance(0.5) else None
    same = ch.draw(1 << 16)
    plans = {}
    for name in names:
        plan = []
        for _ in range(ch.int(1, 6)):
            kind = favourite if favourite and ch.chance(0.7) else ch.pick(sorted(ATOMS))
            plan.append((kind, ch.pick(ATOMS[kind]), same if ch.chance(0.4) else ch.draw(1 << 16)))
        plans[name] = plan
    expected = {}

    def expect(job):
        """What the job gives alone, with values of its own."""
        if job not in expected:
            expected[job] = w.must(f'{job[0]} {job[1]}', lambda: value_of(perform_atom(*job[:2], make([0]), job[2])))
        return expected[job]

    jobs = [job for plan in plans.values() for job in plan]
    if ch.chance(0.5):
        for job in jobs:
            expect(job)
    held = []

    def body(name):
        def run():
            for job in plans[name]:
                w.log(name, *job)
                got = perform_atom(job[0], job[1], shared, job[2])
                held.append((got, value_of(got), job, name))
        return run

    sched = Sched(w)
    tasks = [sched.spawn(n, body(n)) for n in names]
    cancel = ch.chance(0.25)
    if cancel:
        tasks[0].cancel_at = 1 + ch.log_int(0, 1000)
    sched.run('instr' if ch.chance(0.5) else 'line')
    for got, v, job, name in held:
        if v != expect(job):
            raise Violation('interference', f'{name}: {job[:2]} gave {v} instead of {expect(job)}')
    for t in tasks:
        if t.fatal is not None:
            raise t.fatal
        e = t.outcome.exc
        if isinstance(e, Cancelled) and t is tasks[0] and cancel:
            w.nontrivial = True
        elif e is not None:
            raise Violation('interference', f'{t.name} failed: {describe(e)}')
    for k, v in shared.items():
        if w.must('reading values', value_of, v) != before[k]:
            raise Violation('value-changed', f'{before[k]} became {value_of(v)}')
    for got, v, job, _ in held:
        if w.must('reading values', value_of, got) != v:
            raise Violation('value-changed', f'the result of {job[:2]} was {v} and is {value_of(got)}')
    for job in jobs:
        v = expect(job)
        if w.must('later work', lambda: value_of(perform_atom(*job[:2], shared, job[2]))) != v:
            raise Violation('aftermath', f'{job[:2]} gives something else than before')
    w.probes['switches'] += sched.switches
    w.key = sched.trace
