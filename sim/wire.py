"""Foreign MIDI files: several players on one wire (used by C06, C07, C08, C13)."""
from fractions import Fraction

from . import smf


class WireFile:
    """bytes of a file, and the notes that it denotes per channel."""

    def __init__(self, data, division, notes, sigs, channels):
        self.data, self.division, self.notes, self.sigs, self.channels = data, division, notes, sigs, channels

    def signatures(self, channel):
        """Time signatures that a channel, or all together (None), may have."""
        own = [self.sigs.get(c, self.sigs.get(None, (4, 4))) for c in self.channels or [0]]
        if channel is not None:
            return {self.sigs.get(channel, self.sigs.get(None, (4, 4)))}
        longest = max(Fraction(*s) for s in own)
        return {s for s in own if Fraction(*s) == longest}

    def expected(self, channel, mc):
        """[(pitch, pos, dur, {velocity})] of a channel, or of all (None)."""
        out = []
        for c, ns in self.notes.items():
            if channel is not None and c != channel:
                continue
            for start, end, pitch, vel in ns:
                out.append((pitch - 60 + mc, Fraction(start, 4 * self.division),
                            Fraction(end - start, 4 * self.division), frozenset([vel / 127.0])))
        return out


DIVISIONS = [96, 480, 1, 2, 3, 24, 100, 120, 127, 192, 256, 384, 960, 1920, 3840, 4096, 4097, 9600, 15360, 32767]


def gen_players(w, n_players, length, timing):
    """Each player is an independent list of (tick, kind, channel, pitch, velocity)."""
    ch = w.ch
    channels = ch.shuffle(range(16))[:n_players]
    if ch.chance(0.3):
        # two players on one channel share it like two keyboards
        channels[-1] = channels[0]
    players = []
    for c in channels:
        t = ch.pick([0, 0, 1, 10])
        if ch.chance(0.01):
            # every key held down at once
            keys = ch.shuffle(range(128))
            ons = [(t + ch.draw(2) * k, 'on', c, p, 1 + p % 127) for k, p in enumerate(keys)]
            t = max(e[0] for e in ons) + ch.pick(timing)
            players.append(sorted(ons) + [(t + k, 'off', c, p, 64) for k, p in enumerate(ch.shuffle(keys))])
            continue
        palette = ch.pick([[60, 64, 67], [60], list(range(128)), [0, 127, 60, 61], [0, 1], [127]])
        evs = []
        held = []
        for _ in range(ch.int(1, length)):
            t += ch.pick(timing)
            if held and ch.chance(0.5):
                p = held.pop(ch.draw(len(held)))
                evs.append((t, 'off', c, p, ch.pick([64, 0, 127])))
            else:
                p = ch.pick(palette)
                evs.append((t, 'on', c, p, ch.pick([100, 127, 1, 64, 63, 126, 2, 1 + ch.draw(127)])))
                held.append(p)
        if ch.chance(0.8):
            for p in held:
                t += ch.pick(timing)
                evs.append((t, 'off', c, p, 64))
        players.append(evs)
    return players


def merge(w, players):
    """One wire: a seeded merge of the players, by time, ties in any order."""
    ch = w.ch
    queues = [list(reversed(p)) for p in players if p]
    out = []
    while queues:
        first = min(q[-1][0] for q in queues)
        ready = [q for q in queues if q[-1][0] == first]
        q = ready[ch.draw(len(ready))] if len(ready) > 1 else ready[0]
        out.append(q.pop())
        if not q:
            queues.remove(q)
    return out


def wire_faults(w, events):
    """Lost, repeated and delayed messages."""
    ch = w.ch
    rate = ch.pick([0, 0, 0.05, 0.15])
    if not rate:
        return events
    out = []
    delayed = []
    for e in events:
        if ch.chance(rate):
            k = ch.pick(['lose', 'repeat', 'delay'])
            w.fault('wire-' + k)
            if k == 'lose':
                continue
            if k == 'repeat':
                out.append(e)
                out.append(e)
                continue
            delayed.append((e[0] + ch.pick([1, 5, 50, 200]),) + e[1:])
            continue
        out.append(e)
    # stable: delayed messages come after what is already there at that time
    return sorted(out + delayed, key=lambda e: e[0])


def noise_event(w):
    """(bytes, status that becomes the running status or None)"""
    ch = w.ch
    k = ch.weighted([('cc', 3), ('bend', 2), ('prog', 2), ('pressure', 1), ('touch', 1), ('text', 3), ('sysex', 3),
                     ('meta', 3), ('system', 2), ('escape', 1), ('port', 1)])
    c = ch.draw(16)
    d = ch.pick([[64, 100], [0, 0], [127, 127], [60, 64], [1, 0x20]])
    if k == 'cc':
        return bytes([0xB0 | c] + d), 0xB0 | c
    if k == 'bend':
        return bytes([0xE0 | c] + d), 0xE0 | c
    if k == 'prog':
        return bytes([0xC0 | c, d[0]]), 0xC0 | c
    if k == 'pressure':
        return bytes([0xD0 | c, d[1]]), 0xD0 | c
    if k == 'touch':
        return bytes([0xA0 | c] + d), 0xA0 | c
    if k == 'text':
        n = ch.pick([0, 1, 5, 127, 128, 129, 300])
        if ch.chance(0.02):
            n = ch.pick([16383, 16384, 40000, 2097152] if w.big_files else [16383, 16384])
            return b'\xFF' + bytes([ch.int(1, 9)]) + smf.vlq(n) + b't' * n, None
        return b'\xFF' + bytes([ch.int(1, 9)]) + smf.vlq(n) + bytes((i * 7) % 256 for i in range(n)), None
    if k == 'meta' and ch.chance(0.3):
        kind = ch.pick([0x7F, 0x00, 0x01, 0x07, 0x09, 0x0A, 0x0F, 0x10, 0x21, 0x2E, 0x30, 0x4B, 0x54, 0x57, 0x5A, 0x60, 0x7E] if ch.chance(0.5) else
                       [k for k in range(128) if k not in (0x20, 0x2F, 0x51, 0x58)])
        body = ch.pick([b'', b'\0', b'\0\0\0', b'\xFF\x2F\0', b'\x90\x3C\x40', b'\x80' * 5, b'\x7F' * 4])
        return bytes([0xFF, kind]) + smf.vlq(len(body)) + body, None
    if k == 'meta':
        return ch.pick([b'\xFF\x51\x03\x07\xA1\x20', b'\xFF\x59\x02\x00\x00', b'\xFF\x54\x05\x00\x00\x00\x00\x00',
                        b'\xFF\x7F\x03\x00\x01\x02', b'\xFF\x00\x02\x00\x01', b'\xFF\x7F\x04\xFF\x2F\x00\x90']), None
    if k == 'port':
        return ch.pick([b'\xFF\x21\x01\x00', b'\xFF\x20\x01' + bytes([c])]), None
    if k == 'sysex':
        n = ch.pick([0, 1, 4, 126, 127, 128, 200])
        if ch.chance(0.1):
            # nothing, or the first packet of a message that is continued later
            return b'\xF0' + ch.pick([b'\0', b'\x01\x7E', b'\x03\x43\x12\x00']), None
        if ch.chance(0.03):
            n = ch.pick([16382, 16383, 16384, 70000, 2097151] if w.big_files else [16382, 16383])
            return b'\xF0' + smf.vlq(n + 1) + bytes(n) + b'\xF7', None
        return b'\xF0' + smf.vlq(n + 1) + bytes(i % 128 for i in range(n)) + b'\xF7', None
    if k == 'escape':
        n = ch.pick([1, 3, 0, 130, 127, 128])
        return b'\xF7' + smf.vlq(n) + bytes([0xF8] * n), None
    return ch.pick([b'\xF1\x10', b'\xF2\x10\x20', b'\xF3\x05', b'\xF6', b'\xF8', b'\xFA', b'\xFB', b'\xFC',
                    b'\xFE']), None


def encode(w, events, division, sigs, noise_rate, running, off_as_on, big=False):
    """Bytes of a format-0 file with these events in this order. sigs: pairs of
    channel (None: all) and time signature; those of all channels come first."""
    ch = w.ch
    body = bytearray()
    last = 0
    status = None

    def put(tick, data):
        nonlocal last
        body.extend(smf.vlq(tick - last))
        body.extend(data)
        last = tick

    def put_signature(tick, c, sig):
        nonlocal status
        if c is not None:
            put(tick, b'\xFF\x20\x01' + bytes([c]))
        put(tick, b'\xFF\x58\x04' + bytes([sig[0], sig[1].bit_length() - 1, 24, 8]))
        status = None

    later = []
    for n, (c, sig) in enumerate(sigs):
        # the first one is at the beginning; the others are anywhere, in this order
        if n == 0 or later == [] and ch.chance(0.5):
            put_signature(0, c, sig)
        else:
            later.append((c, sig))
    later.reverse()
    if big:
        w.probe('chunk over 16 MiB')
        n = (1 << 24) + 77
        put(0, b'\xFF\x01' + smf.vlq(n) + b'x' * n)
    for tick, kind, c, pitch, vel in events:
        while tick - last >= 1 << 28:
            put(last + (1 << 28) - 1, b'\xFF\x01\0')
            status = None
        while later and ch.chance(0.3):
            put_signature(tick, *later.pop())
        while noise_rate and ch.chance(noise_rate):
            data, st = noise_event(w)
            if later and data[:2] == b'\xFF\x20':
                continue        # would take a later signature for itself
            w.faults['noise-event'] += 1
            at = last + ch.draw(tick - last + 1) if tick - last < 1000 else last
            if st is not None and running and st == status and ch.chance(0.5):
                data = data[1:]
            put(at, data)
            status = st
        if kind == 'off' and off_as_on and ch.chance(0.5):
            st, vel = 0x90 | c, 0
        else:
            st = (0x90 if kind == 'on' else 0x80) | c
        data = bytes([pitch, vel])
        if running and st == status:
            w.probes['running status'] += 1
        else:
            data = bytes([st]) + data
        status = st
        put(tick, data)
    while later:
        put_signature(last, *later.pop())
    put(last + ch.pick([0, 0, 1, 1000]), b'\xFF\x2F\x00')
    return bytes(body)


def gen_file(w, big_ok=False, max_players=6, max_events=14):
    ch = w.ch
    w.big_files = big_ok
    division = ch.pick(DIVISIONS)
    if ch.chance(0.3):
        division = ch.int(1, 32767)
    n_players = ch.weighted([(1, 2), (2, 3), (3, 3), (max_players, 2)] + ([(16, 1)] if max_players > 4 else []))
    timing = ch.pick([[0, 24, 48, 96], [0, 0, 1, 2], [1, 7, 13, 32], [10, 500, 20000], [0, 32, 64, 127, 128, 16384],
                      [0, 1], [0, 5, 2097151, 2097152], [1, 268435455, 16383, 40000000]])
    players = gen_players(w, n_players, ch.int(1, max_events), timing)
    events = wire_faults(w, merge(w, players))
    metres = [((4, 4), 2), ((3, 4), 2), ((7, 8), 1), ((255, 1 << 5), 1), ((1, 1), 1), ((2, 2), 1), ((6, 8), 1)]
    sigs = []
    if ch.chance(0.8):
        sigs = [(None, ch.weighted(metres)) for _ in range(ch.weighted([(1, 6), (2, 1), (3, 1)]))]
    if ch.chance(0.15):
        own = sorted({e[2] for e in events}) + [ch.draw(16)]
        sigs += [(ch.pick(own), ch.weighted(metres)) for _ in range(1 + ch.draw(4))]
    if len(sigs) > 1:
        w.probe('several time signatures')
    big = big_ok and ch.chance(0.004)
    body = encode(w, events, division, sigs, ch.pick([0, 0.1, 0.3]), ch.chance(0.6), ch.chance(0.4), big)
    extra = bytes(ch.pick([1, 2, 3, 3, 4, 100, 250, 300])) if ch.chance(0.1) else b''
    data = smf.header(division, extra=extra)
    alien = [(b'XFIH', b'abc'), (b'junk', b''), (b'MTrX', b'\x00\xFF\x2F\x00' * 3)]
    if ch.chance(0.2):
        alien = [(b'MTr2', bytes(ch.pick([1, 2, 4, 255, 256, 4096])))]
    if big_ok and ch.chance(0.01):
        alien = [(b'XFKM', bytes(ch.pick([65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1])))]
    if ch.chance(0.15):
        data += smf.chunk(*ch.pick(alien))
        w.faults['alien-chunk'] += 1
    data += smf.chunk(b'MTrk', body)
    if ch.chance(0.15):
        data += smf.chunk(*ch.pick(alien))
        w.faults['alien-chunk'] += 1
    notes = smf.decode_notes(events)
    w.log('wire file', len(data), 'bytes', n_players, 'players', len(events), 'events division', division, 'sigs', sigs)
    return WireFile(data, division, notes, dict(sigs), sorted({e[2] for e in events}))
