"""C06, C07, C08: loading."""
import tracemalloc
from fractions import Fraction

from melodia.core import Track
from melodia.io import midi

from .core import SimHang, StepBudget, Violation, arrived, describe
from .gen import (UNIT, ascending, build_track, gen_cfg, gen_notes, gen_signature, match_loaded, notation, observe,
                  observe_signature, quantized, show)
from .streams import gen_reader
from . import smf, wire


def own_file(w, count=None):
    ch = w.ch
    cfg = gen_cfg(ch)
    sig = gen_signature(ch)
    notes = gen_notes(ch, cfg.mc, count=count, overlap=False, limit=cfg.limit, far=cfg.far)
    track = build_track(w, sig, notes)
    data = w.must('saving', cfg.dumps, track)
    return cfg, sig, notes, data


def loader(ch, reader=None):
    """One of the ways to load from a stream."""
    if reader is not None:
        return lambda f, c: reader.load(f, channel=c)
    return ch.pick([lambda f, c: midi.load(f, channel=c), lambda f, c: midi.MIDIReader().load(f, channel=c)])


def outcome_key(w, res):
    """Comparable form of a load outcome."""
    if res.ok:
        return ('track', observe_signature(res.value), tuple(observe(w, res.value)))
    return ('error', type(res.exc).__name__)


# ------------------------------------------------------------------------ C08

def run_c08(w):
    ch = w.ch
    f = wire.gen_file(w, big_ok=True)
    mc = ch.pick([36, 48, 36, 0, 60])
    reader = w.must('MIDIReader', midi.MIDIReader, ch.pick([mc, notation(mc)]))
    asked = [None]
    if f.channels:
        asked += ch.shuffle(f.channels)[:2] if len(f.channels) > 2 and ch.chance(0.7) else f.channels
    for channel in ch.shuffle(asked):
        stream, _ = gen_reader(w, f.data)
        res = w.call(reader.load, stream, channel) if ch.draw(2) == 0 else w.call(reader.loads, f.data, channel)
        if not res.ok:
            raise Violation('refused', f'a valid file was refused: {describe(res.exc)}')
        got = observe(w, res.value)
        if not ascending(got):
            raise Violation('order', show(got))
        bad = match_loaded(f.expected(channel, mc), got)
        if bad:
            raise Violation('wrong-notes', f'channel {channel}: {bad}')
        if observe_signature(res.value) not in f.signatures(channel):
            raise Violation('wrong-signature', f'channel {channel}: {res.value.signature} instead of '
                                               f'{f.signatures(channel)}')
        w.log('channel', channel, len(got), 'notes')
    if f.channels and ch.chance(0.2):
        absent = [c for c in range(16) if c not in f.channels]
        if absent:
            c = ch.pick(absent)
            res = w.call(reader.loads, f.data, c)
            if res.ok and observe(w, res.value):
                raise Violation('wrong-notes', f'channel {c} has no events but notes were returned')
            if not res.ok and not isinstance(res.exc, ValueError):
                raise Violation('wrong-error', f'absent channel: {describe(res.exc)}')
    if len(f.channels) > 1:
        w.nontrivial = True


# ------------------------------------------------------------------------ C06

def run_c06(w):
    ch = w.ch
    kind = ch.weighted([('own', 4), ('foreign', 3), ('damaged', 3)])
    expected = None
    if kind == 'own':
        cfg, _, notes, data = own_file(w)
        load = lambda f, c: cfg.load(f, c)
        loads = lambda d, c: cfg.loads(d, c)
        expected = quantized(notes, cfg)
    else:
        f = wire.gen_file(w, big_ok=kind == 'foreign')
        data = f.data
        load = loader(ch)
        loads = lambda d, c: midi.loads(d, channel=c)
        expected = f.expected(None, 36)
        if kind == 'damaged':
            if ch.chance(0.5):
                data = data[:ch.int(0, len(data))]
            else:
                data = damage(w, data, 1 + ch.int(0, 3))
            expected = None
    whole = w.call(loads, data, None)
    want = outcome_key(w, whole)
    if expected is not None:
        if not whole.ok:
            raise Violation('refused', f'a valid file was refused: {describe(whole.exc)}')
        bad = match_loaded(expected, list(want[2]))
        if bad:
            raise Violation('differs', bad)
    w.log(kind, len(data), 'bytes, whole:', want[0])
    for _ in range(1 + ch.int(0, 3)):
        stream, raw = gen_reader(w, data)
        got = outcome_key(w, w.call(load, stream, None))
        if got != want:
            if got[0] == want[0] == 'track':
                raise Violation('delivery-dependent', f'other track when delivered in parts: {show(got[2])} instead of '
                                                      f'{show(want[2])}')
            raise Violation('delivery-dependent', f'{got[:2]} when delivered in parts ({raw.deliver}), {want[:2]} from '
                                                  f'memory')
    if ch.chance(0.6):
        # the stream fails
        stream, raw = gen_reader(w, data, fail=True)
        res = w.call(load, stream, None)
        if raw.injected is not None:
            if res.ok:
                raise Violation('failure-hidden', f'the stream raised {raw.injected!r} after {raw.pos} of {len(data)} '
                                                  f'bytes, but loading returned a track')
            if not arrived(res.exc, raw.injected):
                raise Violation('failure-replaced', f'the stream raised {raw.injected!r}, the caller got '
                                                    f'{describe(res.exc)}')
        elif raw.calls:
            got = outcome_key(w, res)
            if got != want:
                raise Violation('delivery-dependent', f'{got[:2]} instead of {want[:2]}')


# ------------------------------------------------------------------------ C07

INTERESTING = [0x00, 0x01, 0x20, 0x2F, 0x3C, 0x58, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x91, 0x9F, 0xA0, 0xB0, 0xC0, 0xD0,
               0xE0, 0xF0, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]


def damage(w, data, n):
    ch = w.ch
    data = bytearray(data)
    for _ in range(n):
        size = len(data)
        if not size:
            data += bytes([ch.draw(256)])
            continue
        kind = ch.weighted([('flip', 4), ('set', 5), ('insert', 3), ('delete', 2), ('cut', 2), ('repeat', 1),
                            ('swap', 1), ('zero', 1), ('size', 2), ('header', 2), ('division', 1), ('body', 3)])
        w.fault('damage-' + kind)
        at = ch.draw(size)
        if ch.chance(0.4):
            at = min(size - 1, ch.draw(48))
        if kind == 'flip':
            data[at] ^= 1 << ch.draw(8)
        elif kind == 'set':
            data[at] = ch.pick(INTERESTING) if ch.chance(0.8) else ch.draw(256)
        elif kind == 'insert':
            data[at:at] = bytes(ch.pick(INTERESTING) for _ in range(1 + ch.draw(4)))
        elif kind == 'delete':
            del data[at:at + 1 + ch.draw(4)]
        elif kind == 'cut':
            del data[at:]
        elif kind == 'repeat':
            k = 1 + ch.draw(min(30, size))
            data[at:at] = data[at:at + k]
        elif kind == 'swap':
            b = ch.draw(size)
            data[at], data[b] = data[b], data[at]
        elif kind == 'zero':
            k = 1 + ch.draw(20)
            data[at:at + k] = bytes(len(data[at:at + k]))
        elif kind == 'size' and size >= 22:
            off = ch.pick([4, 18])
            data[off:off + 4] = max(0, ch.pick([0, 1, 5, 7, size, size - 22, size - 23, size - 21, 0xFFFFFFFF, 0x80000000,
                                                0x01000000, 0xFFFFFF])).to_bytes(4, 'big')
        elif kind == 'header' and size >= 14:
            data[8 + ch.draw(6)] = ch.pick([0, 1, 2, 255, 128, 127])
        elif kind == 'division' and size >= 14:
            data[12:14] = ch.pick([b'\0\0', b'\xff\xff', b'\x80\x00', b'\x7f\xff', b'\0\1', b'\xe7\x28'])
        elif kind == 'body' and size >= 22:
            # fresh track body in front of the old one, chunk size corrected
            k = ch.int(1, 12)
            new = bytes(ch.pick(INTERESTING) for _ in range(k))
            data[22:22] = new
            data[18:22] = (len(data) - 22).to_bytes(4, 'big')
    return bytes(data)


PATTERNS = [
    '00903C40', '00803C40', '003C40', '00903C40107F3C00', '01903C40017F3C0001913C4001813C40', '00FF0101FF',
    '00FF200105', '00FF580403020808', '00FF200103 00FF580405030808', '00B04001', '0040', '00F00105', '00F8', '00909040 10809040', '0090FF7F 0190FF00', '0090A5FF 0180A500',
    'FFFFFF7F903C40 FFFFFF7F803C40', '8100903C40 8100803C00', '017F', '00C005', '00FF2F00', '7F903C407F3C0001913E40013E00',
]


def odd_events(w):
    """Events that pair up as usual, but carry values that no regular file has."""
    ch = w.ch
    body = bytearray()
    pitches = [ch.pick([0x3C, 0x80, 0x90, 0xFF, 0x7F, 0xF7, 0x2F, 0xA5]) for _ in range(1 + ch.draw(3))]
    channels = [ch.draw(16) for _ in range(1 + ch.draw(2))]
    running = ch.chance(0.3)
    status = None
    for _ in range(1 + ch.draw(14)):
        k = ch.weighted([('on', 6), ('off', 5), ('sig', 2), ('prefix', 1), ('meta', 1), ('raw', 1), ('sysex', 1)])
        body += ch.pick([b'\0', b'\1', b'\x10', b'\x7f', b'\x81\0', b'\xff\x7f', b'\xff\xff\xff\x7f', b'\x80\x80\0'])
        if k in ('on', 'off'):
            st = (0x90 if k == 'on' else 0x80) | ch.pick(channels)
            if not (running and st == status and ch.chance(0.7)):
                body.append(st)
            status = st
            body += bytes([ch.pick(pitches), ch.pick([0x40, 0, 0x7F, 0x80, 0xFF, 0x90, 1])])
            continue
        if k == 'sig':
            body += b'\xFF\x58\x04' + bytes([ch.pick([4, 0, 255, 128, 1]), ch.pick([2, 0, 8, 64, 255, 128, 31]),
                                             ch.draw(256), ch.draw(256)])
        elif k == 'prefix':
            body += b'\xFF\x20\x01' + bytes([ch.pick([0, 15, 16, 255, 128, ch.pick(channels)])])
        elif k == 'meta':
            body += bytes([0xFF, ch.draw(256)]) + ch.pick([b'\0', b'\2\xFF\x2F', b'\x81\0', b'\x80\0', b'\x80\x80\x80\0'])
        elif k == 'sysex':
            body += ch.pick([b'\xF0', b'\xF7']) + ch.pick([b'\0', b'\1\xF7', b'\x80\1\x90', b'\2\x90\x3C'])
        else:
            body.append(ch.draw(256))
        status = None
    if ch.chance(0.8):
        body += b'\0\xFF\x2F' + ch.pick([b'\0', b'\0', b'\0', b'\1x', b'\x80\0'])
    return bytes(body)


def odd_file(w):
    """Chunks in unusual numbers, orders and sizes."""
    ch = w.ch
    head = smf.header(ch.pick([96, 1, 480, 0x7FFF, 4097, 0, 0x8000]), fmt=ch.weighted([(0, 8), (1, 1), (2, 1)]),
                      ntrk=ch.weighted([(1, 8), (0, 1), (2, 1), (0xFFFF, 1)]))
    out = []
    for k in ch.pick(['ht', 'ht', 'ht', 'ht', 'th', 't', 'h', 'htt', 'hht', 'hth', 'xht', 'hxt', 'htx', 'sht', 'lht', '',
                      'htth', 'tht']):
        if k == 'h':
            out.append(head)
        elif k == 't':
            out.append(smf.chunk(b'MTrk', odd_events(w)))
        elif k == 'x':
            out.append(smf.chunk(ch.pick([b'junk', b'MTrx', b'mthd', b'\0\0\0\0', b'\xff\xfe\x80\x81', b'RIFF']),
                                 bytes(ch.draw(256) for _ in range(ch.draw(9)))))
        elif k == 's':
            out.append(smf.chunk(b'MThd', head[8:8 + ch.draw(6)]))
        elif k == 'l':
            out.append(smf.chunk(b'MThd', head[8:] + bytes(ch.draw(256) for _ in range(ch.draw(9)))))
    w.fault('odd-file')
    return b''.join(out)


def large_data(w):
    """Much data with the same few events over and over: work must stay linear."""
    ch = w.ch
    kind = ch.weighted([('events', 8), ('vlq', 1), ('chunks', 1), ('tracks', 1), ('scales', 2)])
    w.fault('large-' + kind)
    size = ch.pick([2000, 6000, 20000])
    if kind == 'chunks':
        return smf.header(96) + smf.chunk(b'MTrk', b'\0\xFF\x2F\0') + ch.pick([b'junk\0\0\0\0', b'junk\0\0\0\1x']) * (size // 8)
    if kind == 'tracks':
        return (smf.header(96) + smf.chunk(b'MTrk', b'\0\x90\x3c\x40\x10\x3c\0\0\xFF\x2F\0')) * (size // 33)
    if kind == 'vlq':
        body = bytes([ch.pick([0xFF, 0x81, 0x80])]) * ch.pick([size, 1200000]) + b'\x00\xFF\x2F\0'
    elif kind == 'scales':
        # many notes, every one somewhere else
        body = bytearray()
        step = ch.pick([1, 3, 7, 64])
        for i in range(size // 8):
            body += bytes([step, 0x90 | i % ch.pick([1, 16]), i % 128, 64, step, 0x80 | i % 16, i % 128, 0])
        body = bytes(body) + b'\0\xFF\x2F\0'
    else:
        unit = b''.join(bytes.fromhex(ch.pick(PATTERNS).replace(' ', '')) for _ in range(1 + ch.draw(3)))
        body = unit * (size // len(unit))
        if ch.chance(0.8):
            body += b'\0\xFF\x2F\0'
    data = smf.header(ch.pick([96, 1, 0x7FFF, 480])) + smf.chunk(b'MTrk', body)
    if ch.chance(0.3):
        data = data[:ch.draw(len(data))]
    return data


def unsupported(data):
    """Why these bytes are certainly not a file that the reader supports, or None."""
    try:
        chunks = smf.parse_chunks(data)
    except smf.BadFile:
        return None
    names = [c[0] for c in chunks]
    if b'MTrk' not in names:
        return 'there is no track'
    if b'MThd' not in names[:names.index(b'MTrk')]:
        return 'the header is missing'
    head = dict(reversed(chunks))[b'MThd']
    fmt, tracks, division = (int.from_bytes(head[k:k + 2], 'big') for k in (0, 2, 4))
    if len(head) < 6:
        return 'the header is too short'
    if fmt != 0:
        return f'the format is {fmt}'
    if tracks != 1:
        return f'the header announces {tracks} tracks'
    if not 1 <= division <= 0x7FFF:
        return f'the division is {division}'
    return None


def run_c07(w):
    ch = w.ch
    reader = w.must('MIDIReader', midi.MIDIReader) if ch.chance(0.7) else None
    load = loader(ch, reader)
    for k in range(1 + ch.int(0, 3)):
        kind = ch.weighted([('foreign', 5), ('own', 3), ('garbage', 1), ('skeleton', 3), ('odd', 5)])
        if ch.chance(0.015):
            kind = 'large'
        healthy = None
        if kind == 'own':
            _, _, _, data = own_file(w, count=ch.int(0, 8))
        elif kind == 'foreign':
            f = healthy = wire.gen_file(w, max_players=3, max_events=10)
            data = f.data
        elif kind == 'large':
            data = large_data(w)
        elif kind == 'odd':
            data = odd_file(w)
        elif kind == 'garbage':
            n = ch.int(0, 60)
            data = bytes(ch.pick(INTERESTING) for _ in range(n))
        else:
            # valid header and chunk, arbitrary body
            n = ch.int(0, 40)
            body = bytes(ch.pick(INTERESTING) if ch.chance(0.7) else ch.draw(256) for _ in range(n))
            if ch.chance(0.5):
                body += b'\x00\xFF\x2F\x00'
            data = smf.header(ch.pick([96, 1, 0, 0x7FFF, 0x8000])) + smf.chunk(b'MTrk', body)
        if kind not in ('large', 'odd') or ch.chance(0.3):
            data = damage(w, data, ch.weighted([(1, 5), (2, 3), (4, 2), (0, 1)]))
        if kind in ('garbage', 'skeleton'):
            w.nontrivial = True
        channel = ch.weighted([(None, 5), (0, 1), (9, 1), (15, 1)])
        limit = 6000 + 300 * len(data)
        budget = StepBudget(limit)
        stream, _ = gen_reader(w, data)
        measure = kind != 'large' and ch.chance(0.1)
        try:
            with budget:
                if measure:
                    tracemalloc.start()
                res = w.call(load, stream, channel)
        except SimHang as e:
            raise Violation('endless', f'loading {len(data)} bytes executed {e}: {data[:60].hex()}')
        finally:
            if measure:
                peak = tracemalloc.get_traced_memory()[1]
                tracemalloc.stop()
        if measure:
            w.probe('memory measured')
            if peak > (16 << 20) + 4000 * len(data):
                raise Violation('memory', f'loading {len(data)} bytes took {peak >> 20} MiB of memory: {data[:60].hex()}')
        w.steps += budget.used
        w.log(kind, len(data), 'bytes', res.brief())
        why = unsupported(data)
        if why:
            w.probe('unsupported file')
            if res.ok:
                raise Violation('misread', f'{why}, but a track was returned: {data[:60].hex()}')
        if res.ok:
            w.probes['damaged data loaded'] += 1
            got = observe(w, res.value)
            if not ascending(got):
                raise Violation('malformed-track', f'positions not ascending: {show(got)}')
            for m in got:
                if not 0.0 <= m.vel <= 1.0 or m.pos < 0 or m.dur < 0:
                    raise Violation('malformed-track', show([m]))
        elif isinstance(res.exc, midi.MIDIParsingError):
            w.probes['damaged data refused'] += 1
        elif channel is not None and isinstance(res.exc, ValueError):
            # only for a channel that is not there: without a channel it must load
            import io
            allc = w.call(load, io.BytesIO(data), None)
            if not allc.ok:
                raise Violation('wrong-error', f'{describe(res.exc)} for damaged data {data[:60].hex()}')
        else:
            raise Violation('wrong-error', f'{describe(res.exc)} for data {data[:80].hex()} (channel {channel})')
        if ch.chance(0.3):
            # the same reader is not impressed
            f = wire.gen_file(w, max_players=2, max_events=6)
            stream, _ = gen_reader(w, f.data)
            res = w.call(load, stream, None)
            if not res.ok:
                raise Violation('aftermath', f'a good file was refused after damaged data: {describe(res.exc)}')
            bad = match_loaded(f.expected(None, 36), observe(w, res.value))
            if bad:
                raise Violation('aftermath', f'good file after damaged data: {bad}')
