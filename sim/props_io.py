"""C01..C05, C14: saving, failing, crashing, reloading."""
import io
from fractions import Fraction
from math import floor

from melodia.core import Note, Track
from melodia.io import midi

from . import smf
from .core import Cancelled, SimCrash, Violation, arrived, describe
from .gen import (MNote, UNIT, build_note, build_time, build_track, check_content, check_file, gen_cfg, gen_count,
                  gen_notes, gen_signature, gen_time, gen_velocity, match_loaded, multiset_diff, observe, observe_signature,
                  quantized, show)
from .streams import RETRIED_BY_BUFFERS, SimWriter, WRITE_ERRORS, gen_reader


def new_case(w, overlap=True, **kw):
    ch = w.ch
    cfg = gen_cfg(ch)
    sig = gen_signature(ch)
    notes = gen_notes(ch, cfg.mc, overlap=overlap and ch.chance(0.5), limit=cfg.limit, far=cfg.far, **kw)
    track = build_track(w, sig, notes)
    w.log(cfg, 'sig', sig, len(notes), 'notes', show(notes, 3))
    return cfg, sig, notes, track


def gen_accept(ch, size_hint=0):
    return ch.weighted([('whole', 1), ('mixed', 6), ('tiny', 2 if size_hint < 3000 else 0), ('half', 2),
                        ('block', 1 if size_hint < 3000 else 6)])


def check_track_unchanged(w, track, notes, sig, where):
    check_content(w, track, notes, sig, where)


def full_bytes(w, cfg, track, notes, sig, writer=None):
    data = w.must('serializing a valid track', cfg.dumps, track, writer)
    if not isinstance(data, bytes):
        raise Violation('wrong-file', f'dumps returned {type(data).__name__}')
    bad = check_file(data, notes, sig, cfg)
    if bad:
        raise Violation('wrong-file', f'{cfg}: {bad}')
    return data


# ------------------------------------------------------------------------ C01

def run_c01(w):
    ch = w.ch
    cfg, sig, notes, track = new_case(w)
    writer = w.must('MIDIWriter', cfg.writer) if ch.chance(0.5) else None
    flavour = ch.weighted([('raw', 5), ('buffered', 2), ('silent', 1), ('bytesio', 1)])
    initial = b''
    if ch.chance(0.2):
        initial = b'previous content'
    saves = ch.weighted([(1, 5), (2, 2), (3, 1)])
    raw = None
    if flavour == 'bytesio':
        out = io.BytesIO()
        out.write(initial)
    else:
        raw = SimWriter(w, accept=gen_accept(ch, len(notes) * 8) if flavour != 'silent' else 'whole',
                        count=flavour != 'silent', initial=initial, seekable=ch.chance(0.3))
        out = raw
        if flavour == 'buffered':
            out = io.BufferedWriter(raw, buffer_size=ch.pick([8192, 1, 10, 14, 64, 1000]))
    w.log('stream', flavour, raw.accept if raw else '', 'saves', saves)
    expected = bytearray()
    for k in range(saves):
        if k and ch.chance(0.6):
            # edit the track between two saves
            m = MNote(min(gen_time(ch), Fraction(cfg.limit // 2)), cfg.mc, min(gen_time(ch), Fraction(cfg.limit // 2)),
                      gen_velocity(ch))
            w.must('add', track.add, build_note(ch, m), build_time(ch, m.pos))
            notes = notes + [m]
        res = w.call(cfg.dump, track, out, writer)
        if not res.ok:
            raise Violation('save-failed', f'the stream never failed, but saving raised {describe(res.exc)}')
        if getattr(out, 'closed', False):
            raise Violation('closed', 'saving closed the stream of the caller')
        # when saving returned, everything must be with the stream
        if flavour == 'buffered':
            w.must('flush', out.flush)
        got = bytes(raw.data) if raw is not None else out.getvalue()
        got = got[len(initial) + len(expected):]
        bad = check_file(got, notes, sig, cfg)
        if bad:
            raise Violation('wrong-file', f'save {k + 1} of {saves} through a {flavour} stream: {bad}')
        memory = full_bytes(w, cfg, track, notes, sig)
        if memory != got:
            raise Violation('wrong-file', 'stream and memory serialization differ')
        expected += got
        w.log('save', k, len(got), 'bytes', hash_bytes(got))
    total = bytes(raw.data) if raw is not None else out.getvalue()
    if total != initial + bytes(expected):
        raise Violation('wrong-file', 'earlier content of the stream changed')
    check_track_unchanged(w, track, notes, sig, 'after saving')
    w.key = [flavour, saves]
    if len(notes) > 1:
        w.nontrivial = True
    if len(expected) > 65536:
        w.probe('file over 64 KiB')


def hash_bytes(b):
    import hashlib
    return hashlib.sha1(b).hexdigest()[:12]


# ------------------------------------------------------------------------ C02

def run_c02(w):
    ch = w.ch
    cfg, sig, notes, track = new_case(w)
    writer = w.must('MIDIWriter', cfg.writer) if ch.chance(0.7) else None
    reference = None
    if ch.chance(0.5):
        reference = full_bytes(w, cfg, track, notes, sig, writer)
        size = len(reference)
    else:
        size = 14 + 8 + 20 + 8 * len(notes)
    attempts = ch.weighted([(1, 5), (2, 3), (3, 1)])
    prefixes = []
    for k in range(attempts):
        flavour = ch.weighted([('raw', 5), ('buffered', 2), ('silent', 1)])
        where = ch.weighted([('anywhere', 5), ('start', 1), ('header', 1), ('end', 2)])
        if where == 'start':
            at = 0
        elif where == 'header':
            at = ch.int(0, 22)
        elif where == 'end':
            at = max(0, size - 1 - ch.int(0, 8))
        else:
            at = ch.int(0, max(0, size - 1))
        error = ch.pick(WRITE_ERRORS)
        if flavour == 'buffered' and error in RETRIED_BY_BUFFERS:
            error = 'enospc'        # BufferedWriter handles these itself
        style = ch.weighted([('short', 3), ('before', 3), ('partial', 3), ('stuck', 1)])
        if style == 'stuck' and flavour != 'raw':
            style = 'short'         # BufferedWriter handles this itself; a silent stream cannot tell
        raw = SimWriter(w, accept=gen_accept(ch, size), fail_at=at, heal=flavour != 'buffered' and ch.chance(0.4),
                        style=style, error=error, count=flavour != 'silent',
                        seekable=ch.chance(0.3), initial=b'before' if ch.chance(0.2) else b'')
        out = raw
        if flavour == 'buffered':
            out = io.BufferedWriter(raw, buffer_size=ch.pick([8192, 16, 64, 1000]))
        w.log('attempt', k, flavour, 'fails at', at, raw.style, error)
        res = w.call(cfg.dump, track, out, writer)
        w.log('dump', res.brief(), len(raw.received), 'bytes accepted')
        if raw.refused:
            w.nontrivial = True
            if res.ok:
                raise Violation('failure-hidden', f'the stream took only {len(raw.received)} bytes, but saving returned '
                                                  f'normally')
        elif raw.raised:
            w.nontrivial = True
            if res.ok:
                raise Violation('failure-hidden', f'the stream raised {raw.injected!r} after {len(raw.data)} bytes, '
                                                  f'but saving returned normally')
            if not arrived(res.exc, raw.injected):
                raise Violation('failure-replaced', f'the stream raised {raw.injected!r}, the caller got '
                                                    f'{describe(res.exc)}')
            if isinstance(raw.injected, Cancelled) and not isinstance(res.exc, KeyboardInterrupt):
                raise Violation('failure-replaced', f'cancellation became {describe(res.exc)}')
        else:
            if not res.ok:
                raise Violation('save-failed', f'the stream has not failed yet, but saving raised {describe(res.exc)}')
            if flavour == 'buffered':
                # the library handed everything over; the buffer meets the failure
                fl = w.call(out.flush)
                w.log('flush', fl.brief())
        if raw.base and not bytes(raw.data).startswith(b'before'):
            raise Violation('not-a-prefix', 'what the stream held before the save is gone')
        prefixes.append((raw.received, res.ok and not raw.raised))
        raw.dead = True
        check_track_unchanged(w, track, notes, sig, 'after a failed save')
    # faults stop: the next save must succeed
    good = SimWriter(w, accept=gen_accept(ch, size))
    res = w.call(cfg.dump, track, good, writer)
    if not res.ok:
        raise Violation('no-recovery', f'saving to a healthy stream after a failure raised {describe(res.exc)}')
    full = good.received
    bad = check_file(full, notes, sig, cfg)
    if bad:
        raise Violation('no-recovery', f'the file saved after a failure is wrong: {bad}')
    if reference is not None and full != reference:
        raise Violation('no-recovery', 'the file saved after a failure differs from the one before')
    for data, complete in prefixes:
        if not full.startswith(data):
            n = next((i for i, (a, b) in enumerate(zip(data, full)) if a != b), len(full))
            raise Violation('not-a-prefix', f'the failed stream received {len(data)} bytes that differ from the file '
                                            f'at byte {n}')
        if complete and data != full:
            raise Violation('not-a-prefix', 'a save that returned normally delivered another file')
    check_track_unchanged(w, track, notes, sig, 'after retrying')


# ------------------------------------------------------------------------ C03

def far_note(ch, cfg, notes, pulses):
    """A note that many pulses after the end of the others, or that long."""
    per_whole = 4 * max(1, cfg.ppq)
    end = max((floor(m.pos * per_whole) + floor(m.dur * per_whole) for m in notes), default=0)

    def exactly(n):
        return Fraction(-(-n * (1 << 24) // per_whole), 1 << 24)

    if ch.chance(0.5):
        return MNote(exactly(end + pulses), cfg.mc, Fraction(1, 4), 0.5)
    return MNote(exactly(end), cfg.mc, exactly(pulses), 0.5)


def run_c03(w):
    ch = w.ch
    cfg = gen_cfg(ch)
    sig = gen_signature(ch)
    notes = gen_notes(ch, cfg.mc, overlap=ch.chance(0.5), limit=cfg.limit)
    lo, hi = cfg.mc - 60, cfg.mc + 67
    defects = []
    if ch.chance(0.8):
        w.nontrivial = True
        for kind in [ch.weighted([('pitch', 6), ('nominator', 2), ('denominator', 2), ('tempo', 2), ('channel', 1),
                                   ('resolution', 1), ('gap', 2)])] + \
                ([ch.pick(['pitch', 'nominator', 'tempo'])] if ch.chance(0.2) else []):
            if kind == 'pitch':
                for _ in range(ch.weighted([(1, 4), (2, 1), (5, 1)])):
                    bad = ch.weighted([(hi + 1, 3), (lo - 1, 3), (hi + 2, 1), (lo - 12, 1), (hi + 129, 1),
                                       (lo - 128, 2), (hi + 128, 2), (hi + 256, 1), (lo - 256, 1), (10 ** 6, 1)])
                    where = ch.weighted([('any', 3), ('last', 2), ('first', 1)])
                    end = max((m.pos + m.dur for m in notes), default=Fraction(0))
                    pos = end + 1 if where == 'last' else Fraction(0) if where == 'first' else gen_time(ch)
                    dur = gen_time(ch)
                    m = MNote(pos, bad, dur, gen_velocity(ch))
                    i = ch.int(0, len(notes))
                    notes = notes[:i] + [m] + notes[i:]
                    defects.append(f'pitch {bad} outside [{lo}, {hi}] ({where})')
            elif kind == 'nominator':
                sig = (ch.pick([256, 257, 300, 511, 512, 1000, 65536, 1 << 40]), sig[1])
                defects.append(f'nominator {sig[0]}')
            elif kind == 'denominator':
                sig = (sig[0], 1 << ch.pick([256, 257, 300, 512]))
                defects.append('denominator too large')
            elif kind == 'channel':
                cfg.channel = ch.pick([16, -1, 17, 31, 127, 255, 256, 1000])
                defects.append(f'channel {cfg.channel}')
            elif kind == 'resolution':
                cfg.module = False
                cfg.ppq = ch.pick([0, -1, 32768, 32769, 65535, 65536, 1 << 20])
                defects.append(f'resolution {cfg.ppq}')
            elif kind == 'gap':
                # a rest or a note of more pulses than a delta time can hold
                over = ch.pick([1 << 28, (1 << 28) + 1, 1 << 29, 1 << 35, 1 << 40])
                notes = notes + [far_note(ch, cfg, notes, over)]
                if 1 <= cfg.ppq <= 32767:
                    defects.append(f'gap of {over} pulses')
            else:
                cfg.bpm = ch.pick([3.5, 3.57, 0, -1, -120.0, 1, 0.001, 3, 1e-9, float('nan')])
                defects.append(f'tempo {cfg.bpm}')
    elif ch.chance(0.2):
        # the longest rest or note that can be written
        for _ in range(ch.int(1, 3)):
            notes = notes + [far_note(ch, cfg, notes, (1 << 28) - ch.pick([1, 1, 2, 1000]))]
        w.probe('longest delta time')
    track = build_track(w, sig, notes)
    raw = SimWriter(w, accept=gen_accept(ch, 8 * len(notes)), initial=b'kept' if ch.chance(0.5) else b'',
                    seekable=ch.chance(0.4))
    before = bytes(raw.data)
    flavour = ch.weighted([('raw', 3), ('buffered', 1)])
    out = raw if flavour == 'raw' else io.BufferedWriter(raw, buffer_size=ch.pick([8192, 1, 16]))
    w.log(cfg, 'sig', sig, len(notes), 'notes; defects:', defects or 'none')
    if ch.chance(0.3) and not any(d.startswith(('tempo', 'channel', 'resolution')) for d in defects):
        writer = w.must('MIDIWriter', cfg.writer)
    else:
        writer = None
    for attempt in range(ch.weighted([(1, 4), (2, 1)])):
        res = w.call(cfg.dump, track, out, writer)
        w.log('dump', res.brief())
        if flavour == 'buffered':
            w.must('flush', out.flush)
        got = bytes(raw.data)[len(before):]
        if defects:
            w.faults['unrepresentable'] += 1
            if res.ok:
                raise Violation('not-refused', f'saving accepted {defects}')
            if got:
                raise Violation('bytes-before-refusal', f'saving was refused ({describe(res.exc)}) after '
                                                        f'{len(got)} bytes were written: {defects}')
            if not bytes(raw.data).startswith(before):
                raise Violation('bytes-before-refusal', 'previous content changed')
            mem = w.call(cfg.dumps, track, writer)
            if mem.ok:
                raise Violation('not-refused', f'serializing accepted {defects}')
        else:
            if not res.ok:
                raise Violation('refused', f'a representable track was refused: {describe(res.exc)} ({cfg}, {sig})')
            bad = check_file(got, notes, sig, cfg)
            if bad:
                raise Violation('wrong-file', bad)
            break
    check_track_unchanged(w, track, notes, sig, 'after a refused save')
    if defects and ch.chance(0.4):
        # the same stream and writer accept a good track afterwards
        cfg.bpm = 120.0
        cfg.channel &= 15
        if not 1 <= cfg.ppq <= 32767:
            cfg.ppq = 96
        good = gen_notes(ch, cfg.mc, count=ch.int(0, 5), limit=cfg.limit)
        t2 = build_track(w, (4, 4), good)
        if writer is None:
            res = w.call(cfg.dump, t2, out)
        else:
            cfg.bpm = getattr(cfg, 'bpm')
            res = w.call(writer.dump, t2, out)
        if not res.ok:
            raise Violation('refused', f'a good track was refused after a bad one: {describe(res.exc)}')
        if flavour == 'buffered':
            w.must('flush', out.flush)
        got = bytes(raw.data)[len(before):]
        if writer is None:
            bad = check_file(got, good, (4, 4), cfg)
            if bad:
                raise Violation('wrong-file', f'good track saved after a refused one: {bad}')


# ------------------------------------------------------------------------ C04

def surviving(w, full, kept):
    """What the disk shows after the crash: a prefix, maybe with a zero tail."""
    ch = w.ch
    data = full[:kept]
    if ch.chance(0.35):
        to = kept + ch.int(0, len(full) - kept)
        if ch.chance(0.4):
            to = len(full)
        if to > kept:
            w.fault('zero-tail')
            data = data + b'\0' * (to - kept)
    return data


def run_c04(w):
    ch = w.ch
    cfg, sig, notes, track = new_case(w, overlap=False)
    full = full_bytes(w, cfg, track, notes, sig)
    cuts = 1 + ch.int(0, 5)
    for k in range(cuts):
        where = ch.weighted([('anywhere', 6), ('head', 2), ('tail', 3), ('meta', 2)])
        if where == 'anywhere':
            at = ch.int(0, len(full))
        elif where == 'head':
            at = ch.int(0, 22)
        elif where == 'meta':
            at = ch.int(22, min(len(full), 40))
        else:
            at = len(full) - ch.int(0, 12)
        flavour = ch.weighted([('raw', 3), ('buffered', 2)])
        raw = SimWriter(w, accept=gen_accept(ch, len(full)), fail_at=at, style=ch.pick(['partial', 'short', 'before']),
                        error='crash')
        out = raw if flavour == 'raw' else io.BufferedWriter(raw, buffer_size=ch.pick([8192, 16, 64, 1000]))
        crashed = False
        try:
            res = w.call(cfg.dump, track, out)
            if not res.ok:
                raise Violation('save-failed', f'saving raised {describe(res.exc)}')
            if flavour == 'buffered':
                if ch.chance(0.5):
                    raw.dead = crashed = True       # dies before the buffer is flushed
                    w.fault('crash-before-close')
                else:
                    out.flush()
        except SimCrash:
            crashed = True
        raw.dead = True
        disk = bytes(raw.data)
        if not full.startswith(disk):
            raise Violation('wrong-file', 'the crashed save had written something else than a prefix of the file')
        if not crashed and disk != full:
            raise Violation('wrong-file', 'save without crash is incomplete')
        data = surviving(w, full, len(disk)) if crashed else disk
        w.log('cut', at, 'disk has', len(disk), 'of', len(full), 'visible', len(data), 'crashed', crashed)
        stream, _ = gen_reader(w, data)
        # a file without events does not contain the channel: ask for all
        channel = ch.pick([None, None, cfg.channel])
        res = w.call(cfg.load, stream, channel if notes else None)
        w.log('load', res.brief())
        if data == full:
            w.probe('complete file survived')
            if not res.ok:
                raise Violation('complete-refused', f'the complete file was refused: {describe(res.exc)}')
            bad = match_loaded(quantized(notes, cfg), observe(w, res.value))
            if bad:
                raise Violation('complete-differs', bad)
        else:
            if res.ok:
                got = observe(w, res.value)
                raise Violation('torn-accepted', f'{len(data)} visible bytes ({len(disk)} written) of {len(full)} '
                                                 f'loaded as a track with {len(got)} of {len(notes)} notes')
            if not isinstance(res.exc, midi.MIDIParsingError):
                raise Violation('wrong-error', f'torn file ({len(data)} of {len(full)} bytes) raised '
                                               f'{describe(res.exc)}')


# ------------------------------------------------------------------------ C05

def resaved(w, cfg, first, second, expected):
    whole = 4 * cfg.ppq
    a, b = smf.parse_strict(first), smf.parse_strict(second)
    if a[0] != b[0]:
        return f'resolution {b[0]} instead of {a[0]}'
    ons = [sorted((e[0], e[3], e[4]) for e in f[1] if e[1] == 'on' and e[4]) for f in (a, b)]
    if ons[0] != ons[1]:
        return f'note-on (tick, pitch, velocity): missing, unexpected {multiset_diff(*ons)}'
    offs = sorted(((pos + dur) * whole, pitch - cfg.mc + 60) for pitch, pos, dur, _ in expected)
    got = sorted((e[0], e[3]) for e in b[1] if e[1] == 'off')
    if offs != got:
        return f'note-off (tick, pitch): missing, unexpected {multiset_diff(offs, got)}'
    return None


def run_c05(w):
    ch = w.ch
    cfg, sig, notes, track = new_case(w, overlap=False)
    raw = SimWriter(w, accept=gen_accept(ch, 8 * len(notes)))
    res = w.call(cfg.dump, track, raw)
    if not res.ok:
        raise Violation('save-failed', f'{describe(res.exc)} ({cfg})')
    data = raw.received
    expected = quantized(notes, cfg)
    for channel in ([None] if ch.chance(0.5) else [None, cfg.channel]):
        if channel is not None and not notes:
            continue
        stream, _ = gen_reader(w, data)
        mode = ch.draw(2)
        if mode == 0:
            res = w.call(cfg.load, stream, channel)
        else:
            res = w.call(cfg.loads, data, channel)
        if not res.ok:
            raise Violation('load-failed', f'loading the saved track raised {describe(res.exc)} ({cfg}, {sig})')
        got = observe(w, res.value)
        bad = match_loaded(expected, got)
        if bad:
            raise Violation('differs', f'{cfg}: {bad}')
        if Fraction(*observe_signature(res.value)) != Fraction(*sig):
            raise Violation('differs', f'time signature {res.value.signature} instead of {sig}')
        if sig[0] and observe_signature(res.value) != tuple(sig):
            raise Violation('differs', f'time signature {res.value.signature} instead of {sig}')
        check_content(w, res.value, got, sig, 'loaded track')
        w.log('loaded', channel, len(got), 'notes')
    if ch.chance(0.5) and (notes or not cfg.channel):
        # what was loaded is saved with the same settings: every note at the same pulses
        bad = resaved(w, cfg, data, w.must('saving the loaded track', cfg.dumps, res.value), expected)
        if bad:
            raise Violation('moved', f'{cfg}: after loading and saving again: {bad}')
        w.probe('saved again')
    # exact grid: equality of tracks
    if notes and all(m.vel == 1.0 for m in notes) and \
            all((4 * cfg.ppq * x).denominator == 1 and (16384 * x).denominator == 1
                for m in notes for x in (m.pos, m.dur)):
        w.probe('exactly representable track')
        if not w.must('comparing', lambda: res.value == track) or w.must('comparing', lambda: res.value != track):
            raise Violation('differs', 'loaded track is not equal to the saved one')
    if len(notes) > 1:
        w.nontrivial = True
    pulse_pitch = [(p, pos) for p, pos, _, _ in expected]
    if len(set(pulse_pitch)) < len(pulse_pitch):
        w.probe('equal pitch at equal pulse')
    if any(a[0] == b[0] and a[1] + a[2] == b[1] for a, b in zip(sorted(expected, key=lambda x: x[:3]),
                                                               sorted(expected, key=lambda x: x[:3])[1:])):
        w.probe('back-to-back repeat')
    w.key = [cfg.ppq, len(notes)]


# ------------------------------------------------------------------------ C14

def run_c14(w):
    """Edit, save, crash, reload, over and over: settled notes never move."""
    ch = w.ch
    cfg = gen_cfg(ch)
    sig = gen_signature(ch)
    pulse = Fraction(1, 4 * cfg.ppq)
    track = w.must('Track', Track, sig)
    palette = [cfg.mc - 60 + p for p in (60, 64, 67, 0, 127, 61)][:ch.int(1, 6)]
    settled = []            # exact MNotes that have been loaded before
    fresh = []              # MNotes added since the last load
    saved = None            # (bytes, settled, fresh) of the last acknowledged save
    ends = {}
    writer = w.must('MIDIWriter', cfg.writer) if ch.chance(0.5) else None
    reader = w.must('MIDIReader', cfg.reader) if ch.chance(0.5) else None
    generations = 0
    w.log(cfg, sig)

    def reload():
        nonlocal track, settled, fresh, ends, generations
        if saved is None:
            track = w.must('Track', Track, sig)
            settled, fresh, ends = [], [], {}
            w.log('restart with nothing saved')
            return
        data, s_settled, s_fresh = saved
        stream, _ = gen_reader(w, data)
        res = w.call(cfg.load, stream, None, reader)
        if not res.ok:
            raise Violation('lost', f'an acknowledged save does not load: {describe(res.exc)}')
        track = res.value
        got = observe(w, track)
        bad = compare(s_settled, s_fresh, got)
        if bad:
            raise Violation('drift', f'generation {generations}, {cfg}: {bad}')
        if observe_signature(track) != tuple(sig) and (sig[0] or track.signature.nominator):
            raise Violation('drift', f'time signature became {track.signature}')
        settled, fresh = got, []
        ends = {}
        for m in got:
            ends[m.pitch] = max(ends.get(m.pitch, Fraction(0)), m.pos + m.dur)
        generations += 1
        w.log('reloaded generation', generations, len(got), 'notes')

    def compare(s_settled, s_fresh, got):
        from collections import Counter
        if len(got) != len(s_settled) + len(s_fresh):
            return f'{len(got)} notes after reload, {len(s_settled)} settled + {len(s_fresh)} new expected'
        rest = Counter(got)
        for m in s_settled:
            if not rest[m]:
                near = [g for g in got if g.pitch == m.pitch]
                return f'settled note {show([m])} is gone; notes of that pitch: {show(near)}'
            rest[m] -= 1
        left = sorted(rest.elements(), key=lambda m: (m.pitch, m.pos))
        for m, g in zip(sorted(s_fresh, key=lambda m: (m.pitch, m.pos)), left):
            if m.pitch != g.pitch:
                return f'new note {show([m])} came back as {show([g])}'
            if abs(m.pos - g.pos) >= pulse + UNIT or abs(m.dur - g.dur) >= pulse + UNIT:
                return f'new note {show([m])} came back as {show([g])}'
            if not -1e-9 <= m.vel - g.vel < 1 / 127 + 1e-9:
                return f'new note {show([m])} came back as {show([g])}'
        return None

    for step in range(3 + ch.int(0, 12)):
        op = ch.weighted([('add', 5), ('save', 3), ('reload', 3), ('failed-save', 1), ('crash', 2)])
        if op == 'add':
            for _ in range(1 + ch.int(0, 4)):
                pitch = ch.pick(palette)
                pos = ends.get(pitch, -3 * pulse) + 2 * pulse + 2 * UNIT
                pos = Fraction(-(-pos * 65536 // 1), 65536) if pos > 0 else Fraction(0)
                if not ch.chance(0.3):
                    pos += gen_time(ch, fine=6)
                dur = gen_time(ch, fine=6)
                if pos + dur > cfg.limit / 3:
                    continue
                vel = max(gen_velocity(ch), 0.01)
                m = MNote(pos, pitch, dur, vel)
                w.must('add', track.add, build_note(ch, m), build_time(ch, m.pos))
                fresh.append(m)
                ends[pitch] = pos + dur
                w.log('add', show([m]))
        elif op in ('save', 'failed-save', 'crash'):
            fail = None
            size = 40 + 8 * (len(settled) + len(fresh))
            if op != 'save':
                fail = ch.int(0, size)
            raw = SimWriter(w, accept=gen_accept(ch, size), fail_at=fail, style=ch.pick(['partial', 'short', 'before']),
                            error='crash' if op == 'crash' else ch.pick(['enospc', 'eio', 'epipe']))
            crashed = False
            try:
                res = w.call(cfg.dump, track, raw, writer)
                w.log(op, res.brief(), len(raw.data))
                if res.ok:
                    saved = (raw.received, list(settled), list(fresh))
                elif not raw.raised:
                    raise Violation('save-failed', describe(res.exc))
            except SimCrash:
                crashed = True
                w.log('crash after', len(raw.data), 'bytes')
            if crashed:
                # the torn new file is refused, the previous save is used
                t = w.call(cfg.loads, raw.received)
                if t.ok:
                    raise Violation('torn-accepted', f'{len(raw.data)} bytes of a torn save loaded')
                reload()
        else:
            reload()
    if saved is not None:
        # drift shows in repeated cycles
        for _ in range(3):
            reload()
            raw = SimWriter(w)
            w.must('saving', cfg.dump, track, raw, writer)
            saved = (raw.received, list(settled), list(fresh))
        reload()
    w.probes['generations'] += generations
    if generations > 1:
        w.nontrivial = True
