"""Generation of notes, tracks and configurations, and their reference model.

A model note is (position, pitch, duration, velocity) with exact fractions for
times; `pitch` is melodia's tone number.  The model never calls melodia.
"""
from fractions import Fraction
from math import floor

from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi

from .core import Violation
from . import smf

NAMES_UP = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']
NAMES_DOWN = ['C', 'Db', 'D', 'Eb', 'E', 'F', 'Gb', 'G', 'Ab', 'A', 'Bb', 'B']


def notation(pitch, down=False):
    return (NAMES_DOWN if down else NAMES_UP)[pitch % 12] + str(pitch // 12)


class MNote(tuple):
    """(pos, pitch, dur, vel)"""
    __slots__ = ()

    def __new__(cls, pos, pitch, dur, vel):
        return tuple.__new__(cls, (pos, pitch, dur, vel))

    pos = property(lambda s: s[0])
    pitch = property(lambda s: s[1])
    dur = property(lambda s: s[2])
    vel = property(lambda s: s[3])


# ---------------------------------------------------------------- configuration

class Config:
    def __init__(self, ppq=96, mc=36, mc_form='str', bpm=120.0, channel=0, module=True):
        self.ppq, self.mc, self.mc_form, self.bpm, self.channel, self.module = ppq, mc, mc_form, bpm, channel, module
        self.omit = False       # leave out the arguments that have the default value

    def __repr__(self):
        return f'cfg(ppq={self.ppq} middle_c={self.mc}/{self.mc_form} bpm={self.bpm} channel={self.channel}' \
               f'{" module" if self.module else ""}{" defaults omitted" if self.omit else ""})'

    @property
    def limit(self):
        """Length (in whole notes) that keeps all delta times in four bytes."""
        return min(40000, self.far)

    @property
    def far(self):
        """The longest pause in whole notes."""
        return ((1 << 28) - 1) // (4 * self.ppq)

    def middle_c(self):
        if self.mc_form == 'str':
            return notation(self.mc)
        if self.mc_form == 'tone':
            return Tone(self.mc)
        return self.mc

    def arguments(self, **kw):
        defaults = dict(pulses_per_quarter=96, bpm=120.0, channel=0)
        if self.mc == 36:
            defaults['middle_c'] = kw.get('middle_c')
        return {k: v for k, v in kw.items() if not self.omit or k not in defaults or v != defaults[k]}

    def writer(self):
        return midi.MIDIWriter(**self.arguments(pulses_per_quarter=self.ppq, middle_c=self.middle_c(), bpm=self.bpm,
                                                channel=self.channel))

    def reader(self):
        return midi.MIDIReader(**self.arguments(middle_c=self.middle_c()))

    def dump(self, track, file, writer=None):
        if writer is not None:
            return writer.dump(track, file)
        if self.module:
            return midi.dump(track, file, **self.arguments(bpm=self.bpm, channel=self.channel))
        return self.writer().dump(track, file)

    def dumps(self, track, writer=None):
        if writer is not None:
            return writer.dumps(track)
        if self.module:
            return midi.dumps(track, **self.arguments(bpm=self.bpm, channel=self.channel))
        return self.writer().dumps(track)

    def load(self, file, channel=None, reader=None):
        if reader is not None:
            return reader.load(file, channel) if channel is not None else reader.load(file)
        kw = {} if self.omit and channel is None else {'channel': channel}
        if self.module:
            return midi.load(file, **kw)
        return self.reader().load(file, **kw)

    def loads(self, data, channel=None):
        kw = {} if self.omit and channel is None else {'channel': channel}
        if self.module:
            return midi.loads(data, **kw)
        return self.reader().loads(data, **kw)


PPQS = [96, 480, 1, 2, 3, 5, 24, 48, 64, 100, 120, 127, 128, 192, 240, 255, 256, 257, 384, 960, 1000, 1920, 3840,
        4095, 4096, 4097, 8192, 9600, 10080, 15360, 16383, 16384, 16385, 30000, 32766, 32767]


def gen_bpm(ch):
    kind = ch.weighted([('default', 4), ('int', 4), ('edge', 3), ('float', 3)])
    if kind == 'default':
        return 120.0
    if kind == 'int':
        return ch.int(4, 1000)
    if kind == 'edge':
        return ch.pick([60, 3.58, 4, 5.5, 57.0, 914.0, 915.5, 916.0, 66666.0, 1000000, 59999999.0, 60000000.0,
                        30000000, 3.5763, 117.1875, 183.0, 1e5])
    return 4 + ch.int(0, 10 ** 6) / 997.0


def gen_cfg(ch, allow_module=True, max_ppq=32767):
    cfg = _gen_cfg(ch, allow_module, max_ppq)
    cfg.omit = ch.chance(0.5)
    return cfg


def _gen_cfg(ch, allow_module, max_ppq):
    if allow_module and ch.weighted([(True, 3), (False, 5)]):
        return Config(bpm=gen_bpm(ch), channel=gen_channel(ch))
    ppq = ch.weighted([('table', 4), ('any', 2)])
    ppq = ch.pick(PPQS) if ppq == 'table' else ch.int(1, 32767)
    if ppq > max_ppq:
        ppq = max_ppq
    mc = ch.weighted([(36, 4), (48, 3), (0, 1), (60, 1), (24, 1), ('any', 2)])
    if mc == 'any':
        mc = ch.int(0, 240) - 120
    return Config(ppq=ppq, mc=mc, mc_form=ch.pick(['str', 'tone', 'int']), bpm=gen_bpm(ch),
                  channel=gen_channel(ch), module=False)


def gen_channel(ch):
    return ch.pick([0, 0, 0, 15, 9, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14])


# ---------------------------------------------------------------- values

def gen_time(ch, fine=None):
    """A dyadic duration or gap (Fraction)."""
    kind = ch.weighted([('common', 8), ('fine', 3 if fine is None else fine), ('edge', 2), ('zero', 1), ('eps', 1)])
    if kind == 'common':
        return Fraction(ch.int(1, 16), ch.pick([4, 8, 16, 1, 2, 32, 64, 128]))
    if kind == 'fine':
        return Fraction(ch.int(1, 4096), ch.pick([256, 512, 1024, 2048, 4096, 16384, 32768, 1 << 20]))
    if kind == 'eps':
        # next to a common value: floating point does not see the difference
        n, d, e = ch.int(1, 16), ch.pick([4, 8, 16, 1, 128]), 1 << ch.pick([40, 60, 70])
        return Fraction(n * e + ch.pick([-1, 1]) * d, d * e)
    if kind == 'edge':
        # lengths whose pulse counts lie around the limits of variable length numbers
        return Fraction(ch.pick([127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152,
                                 2097153]), ch.pick([4, 16, 128, 256, 512]))
    return Fraction(0)


def gen_velocity(ch):
    kind = ch.weighted([('one', 2), ('default', 2), ('k', 3), ('near', 2), ('any', 3), ('low', 1)])
    if kind == 'one':
        return 1.0
    if kind == 'default':
        return 0.75
    if kind == 'k':
        return ch.int(1, 127) / 127.0
    if kind == 'near':
        k = ch.int(1, 126)
        return (k + ch.pick([0.5, 0.001, 0.999])) / 127.0
    if kind == 'any':
        return 0.008 + ch.int(0, 992) / 1000.0
    return ch.pick([1 / 127.0, 0.0, 0.004, 0.0078, 0.00788, 1e-9, 1])


def gen_signature(ch):
    kind = ch.weighted([('common', 6), ('any', 3), ('edge', 1)])
    if kind == 'common':
        return ch.pick([(4, 4), (3, 4), (6, 8), (2, 2), (7, 8), (12, 8), (5, 4)])
    if kind == 'any':
        return ch.int(0, 255), 1 << ch.int(0, 8)
    return ch.pick([0, 1, 127, 128, 254, 255]), 1 << ch.pick([0, 7, 8, 15, 31, 63, 127, 254, 255])


def gen_count(ch, big=True):
    """How many notes: mostly few, sometimes many, rarely thousands."""
    kind = ch.weighted([('few', 30), ('some', 30), ('dozens', 16), ('hundreds', 4 if big else 0)]
                       + ([('thousands', 1)] if big else []))
    if kind == 'few':
        return ch.int(0, 3)
    if kind == 'some':
        return ch.int(3, 12)
    if kind == 'dozens':
        return ch.int(12, 60)
    if kind == 'hundreds':
        return ch.int(100, 700)
    return ch.int(1000, 9000)


class _Bulk:
    """Same drawing interface as Choices, over a PRNG, for bulk data."""

    def __init__(self, rng):
        self.r = rng

    def draw(self, n):
        return int(self.r.random() * n)

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, p):
        return self.r.random() < p

    def weighted(self, pairs):
        total = sum(x for _, x in pairs)
        v = self.draw(total)
        for value, x in pairs:
            if v < x:
                return value
            v -= x

    def shuffle(self, seq):
        seq = list(seq)
        self.r.shuffle(seq)
        return seq


def source(ch, count):
    """Per-note choices for small tracks, one recorded number for large ones."""
    return ch if count <= 60 else _Bulk(ch.subrandom())


def gen_pitches(ch, mc):
    """A palette of tones representable with this middle C."""
    lo, hi = mc - 60, mc + 67
    kind = ch.weighted([('middle', 4), ('all', 3), ('edges', 2), ('one', 2)])
    if kind == 'middle':
        return [lo + 60 + k for k in range(0, 13)]
    if kind == 'all':
        return list(range(lo, hi + 1))
    if kind == 'edges':
        return [lo, hi, lo + 1, hi - 1, lo + 60]
    return [lo + ch.int(0, 127)]


def gen_notes(ch, mc, count=None, overlap=False, limit=40000, min_gap=Fraction(0), audible=False, big=True, far=None):
    """Model notes in random order; unless `overlap`, notes of one pitch are disjoint."""
    if count is None:
        count = gen_count(ch, big)
    src = source(ch, count)
    palette = gen_pitches(ch, mc)
    start = Fraction(0)
    if ch.chance(0.3):
        start = gen_time(ch)
    ends = {}
    notes = []
    t = start
    zero_gap = ch.pick([0.6, 0.2, 0.9, 0.0])
    big_left = 2
    for _ in range(count):
        pitch = src.pick(palette)
        dur = gen_time(src)
        vel = gen_velocity(src)
        if audible and vel * 127 < 1:
            vel = 1.0
        if overlap:
            if not src.chance(0.4):
                t = t + gen_time(src) if src.chance(0.7) else gen_time(src)
            pos = t
        else:
            pos = max(ends.get(pitch, start), t if src.chance(0.5) else Fraction(0))
            if pitch in ends:
                pos += min_gap
            if not src.chance(zero_gap):
                pos += gen_time(src)
            if src.chance(0.3):
                t = pos
        if dur > limit / 3:
            big_left -= 1
            if big_left < 0 or dur > limit:
                dur = Fraction(1, 4)
        if pos + dur > limit:
            continue            # delta times stay below the four byte limit of the format
        if not overlap:
            ends[pitch] = pos + dur
        notes.append(MNote(pos, pitch, dur, vel))
    if far and notes and ch.chance(0.04):
        # the same again after pauses that are as long as possible: positions beyond 2^28 pulses
        some = notes[:12]
        for k in range(1, 1 + ch.int(1, 3)):
            notes = notes + [MNote(n.pos + k * far, n.pitch, n.dur, n.vel) for n in some]
    order = ch.weighted([('asis', 3), ('shuffle', 3), ('sorted', 2), ('reversed', 1)])
    if order == 'shuffle':
        notes = src.shuffle(notes)
    elif order == 'sorted':
        notes.sort()
    elif order == 'reversed':
        notes.sort(reverse=True)
    return notes


# ---------------------------------------------------------------- building

def frac_pair(ch, f):
    """(n, d) with d a power of two and n/d == f, not always in lowest terms."""
    n, d = f.numerator, f.denominator
    if ch.chance(0.2):
        k = ch.pick([1, 2, 3])
        n <<= k
        d <<= k
    return n, d


def build_time(ch, f):
    n, d = frac_pair(ch, f)
    form = ch.draw(3)
    if form == 0:
        return (n, d)
    if form == 1:
        return Signature(n, d)
    return [n, d]


def build_note(ch, m):
    form = ch.draw(4)
    if form == 0:
        tone = m.pitch
    elif form == 1:
        tone = Tone(m.pitch)
    else:
        tone = notation(m.pitch, down=form == 3)
    kw = {'duration': build_time(ch, m.dur), 'velocity': m.vel}
    if m.dur == Fraction(1, 4) and m.vel == 0.75 and ch.draw(2):
        # what the caller leaves out is a quarter note with velocity 0.75
        for k in ch.pick([('duration',), ('velocity',), ('duration', 'velocity')]):
            del kw[k]
    elif m.dur == Fraction(1, 4) and ch.draw(2):
        del kw['duration']
    elif m.vel == 0.75 and ch.draw(2):
        del kw['velocity']
    elif ch.draw(2):
        return Note(tone, *kw.values())
    return Note(tone, **kw)


def build_track(w, sig, notes):
    """Builds the track with explicit positions, in the order given."""
    ch = w.ch
    src = source(ch, len(notes))

    def make():
        t = Track() if tuple(sig) == (4, 4) and src.chance(0.5) else \
            Track(signature=sig if src.chance(0.5) else Signature(*sig))
        for m in notes:
            t.add(build_note(src, m), build_time(src, m.pos))
        return t
    return w.must('building a track', make)


# ---------------------------------------------------------------- observing

def sig_value(s, what='signature'):
    if not isinstance(s, Signature):
        raise Violation('malformed-track', f'{what} is {type(s).__name__}')
    return Fraction(s.nominator, s.denominator)


def observe_note(pos, note):
    if not isinstance(note, Note) or not isinstance(note.tone, Tone):
        raise Violation('malformed-track', f'content has {type(note).__name__} instead of a note')
    v = note.velocity
    if not isinstance(v, (int, float)):
        raise Violation('malformed-track', f'velocity is {v!r}')
    return MNote(sig_value(pos, 'position'), note.tone.pitch, sig_value(note.duration, 'duration'), v)


def observe(w, track):
    """Content of a track through its public interface, in iteration order."""
    if not isinstance(track, Track):
        raise Violation('malformed-track', f'got {type(track).__name__} instead of a track')
    pairs = w.must('iterating a track', lambda: list(track))
    out = []
    for item in pairs:
        if not isinstance(item, tuple) or len(item) != 2:
            raise Violation('malformed-track', f'iteration yields {item!r}')
        out.append(observe_note(*item))
    return out


def observe_signature(track):
    s = track.signature
    sig_value(s)
    return s.nominator, s.denominator


def ascending(notes):
    return all(a.pos <= b.pos for a, b in zip(notes, notes[1:]))


def show(notes, limit=6):
    txt = ', '.join(f'[{n.pos} p{n.pitch} {n.dur} v{n.vel:.4g}]' for n in notes[:limit])
    return txt + (f', ... {len(notes)} notes' if len(notes) > limit else '')


def multiset_diff(expected, got):
    from collections import Counter
    a, b = Counter(expected), Counter(got)
    return list((a - b).elements()), list((b - a).elements())


def check_content(w, track, notes, sig, where):
    """The track contains exactly `notes` (any tie order), ascending, with all
    derived observations consistent."""
    got = observe(w, track)
    if not ascending(got):
        raise Violation('order', f'{where}: positions not ascending: {show(got)}')
    if sorted(got) != sorted(notes):
        missing, extra = multiset_diff(notes, got)
        raise Violation('content', f'{where}: missing {show(missing)}; unexpected {show(extra)}')
    if observe_signature(track) != tuple(sig) and sig_value(track.signature) != Fraction(*sig):
        raise Violation('signature', f'{where}: {track.signature} instead of {sig}')
    n = w.must('len', len, track)
    if n != len(notes):
        raise Violation('content', f'{where}: len is {n}, {len(notes)} notes')
    length = sig_value(w.must('length', lambda: track.length), 'length')
    want = max((m.pos + m.dur for m in notes), default=Fraction(0))
    if length != want:
        raise Violation('length', f'{where}: length {length}, largest end {want}')


# ---------------------------------------------------------------- file oracle

def vel_options(v):
    """MIDI velocity of a note velocity, rounded down (float or exact product)."""
    return {max(0, min(127, int(v * 127))), max(0, min(127, floor(Fraction(v) * 127)))}


def check_file(data, notes, sig, cfg):
    """None if `data` is the correct MIDI file for the model track, else a text."""
    try:
        div, events = smf.parse_strict(data)
    except smf.BadFile as e:
        return f'not a well-formed MIDI file: {e}'
    if div != cfg.ppq:
        return f'resolution {div} instead of {cfg.ppq}'
    tempo = [(e[0], e[3]) for e in events if e[1] == 'meta' and e[2] == 0x51]
    tsig = [(e[0], e[3]) for e in events if e[1] == 'meta' and e[2] == 0x58]
    if len(tempo) != 1 or tempo[0][0] != 0 or len(tempo[0][1]) != 3:
        return f'tempo events {tempo}'
    us = int.from_bytes(tempo[0][1], 'big')
    if abs(us - 60000000 / cfg.bpm) > 1.000001:
        return f'tempo {us} us per quarter instead of {60000000 / cfg.bpm}'
    if len(tsig) != 1 or tsig[0][0] != 0 or len(tsig[0][1]) != 4:
        return f'time signature events {tsig}'
    if tuple(tsig[0][1][2:]) != (24, 8):
        return f'time signature with {tsig[0][1][2]} clocks per click, {tsig[0][1][3]} 32nd notes per quarter'
    if (tsig[0][1][0], 1 << tsig[0][1][1]) != (sig[0], sig[1]):
        return f'time signature {tsig[0][1][0]}/2^{tsig[0][1][1]} instead of {sig}'
    whole = 4 * cfg.ppq
    want_on, want_off = [], []
    for m in notes:
        p = m.pitch - cfg.mc + 60
        on = floor(m.pos * whole)
        off = on + floor(m.dur * whole)
        want_on.append((on, p, m.vel))
        want_off.append((off, p))
    got_on, got_off = [], []
    for tick, kind, ch, pitch, vel in events:
        if kind in ('on', 'off'):
            if ch != cfg.channel:
                return f'event on channel {ch} instead of {cfg.channel}'
            if kind == 'on':
                got_on.append((tick, pitch, vel))
            else:
                got_off.append((tick, pitch))
    if sorted(want_off) != sorted(got_off):
        a, b = multiset_diff(want_off, got_off)
        return f'note-off (tick, pitch): missing {a[:4]}, unexpected {b[:4]}'
    if len(want_on) != len(got_on):
        return f'{len(got_on)} note-on events for {len(want_on)} notes'
    for (a, b, v), (c, d, k) in zip(sorted(want_on, key=lambda x: (x[0], x[1], x[2])), sorted(got_on)):
        if (a, b) != (c, d):
            return f'note-on at tick {c} pitch {d}, expected tick {a} pitch {b}'
        if k not in vel_options(v):
            return f'note-on velocity {k} for note velocity {v}'
    return None


# ---------------------------------------------------------------- load oracle

UNIT = Fraction(1, 16384)


def quantized(notes, cfg):
    """Per note: (pitch, position on the pulse grid, duration on it, velocities);
    inaudible notes left out."""
    whole = 4 * cfg.ppq
    out = []
    for m in notes:
        vs = vel_options(m.vel)
        if 0 in vs:
            if vs == {0}:
                continue
        out.append((m.pitch, Fraction(floor(m.pos * whole), whole), Fraction(floor(m.dur * whole), whole),
                    frozenset(x / 127.0 for x in vs if x)))
    return out


def match_loaded(expected, got):
    """expected: (pitch, pos, dur, {velocities}); got: MNote list.  None or a text."""
    e = sorted(expected, key=lambda x: (x[0], x[1], x[2], max(x[3])))
    g = sorted(got, key=lambda x: (x.pitch, x.pos, x.dur, x.vel))
    if len(e) != len(g):
        return f'{len(g)} notes instead of {len(e)}: got {show(g)}; expected ' + \
            ', '.join(f'[{float(x[1]):g} p{x[0]} {float(x[2]):g}]' for x in e[:6])
    first = None
    for x, m in zip(e, g):
        why = _mismatch(x, m)
        if why:
            first = why
            break
    if first is None:
        return None
    # not the order decides but whether a one-to-one assignment exists
    by_pitch = {}
    for m in g:
        by_pitch.setdefault(m.pitch, []).append(m)
    if len(e) > 2000:
        return first
    for pitch in {x[0] for x in e}:
        want = [x for x in e if x[0] == pitch]
        have = by_pitch.get(pitch, [])
        if len(want) != len(have) or not _assign(want, have):
            return first
    return None


def _mismatch(x, m):
    p, pos, dur, vels = x
    if p != m.pitch:
        return f'pitch {m.pitch} where {p} was expected'
    if abs(m.pos - pos) >= UNIT:
        return f'pitch {p}: position {m.pos} instead of {pos}'
    if abs(m.dur - dur) >= UNIT:
        return f'pitch {p} at {pos}: duration {m.dur} instead of {dur}'
    if not any(abs(m.vel - v) < 1e-9 for v in vels):
        return f'pitch {p} at {pos}: velocity {m.vel} instead of {sorted(vels)}'
    return None


def _assign(want, have):
    """Bipartite matching (augmenting paths)."""
    owner = [None] * len(have)

    def place(i, seen):
        for j, m in enumerate(have):
            if j not in seen and _mismatch(want[i], m) is None:
                seen.add(j)
                if owner[j] is None or place(owner[j], seen):
                    owner[j] = i
                    return True
        return False
    return len(want) <= 300 and all(place(i, set()) for i in range(len(want)))
