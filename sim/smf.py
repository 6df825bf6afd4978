"""Independent Standard MIDI File reference: strict parser, encoder, note model.

Written from the Standard MIDI Files 1.0 specification, shares no code with
melodia.
"""


class BadFile(Exception):
    pass


# ---------------------------------------------------------------- parsing

def _vlq(body, i):
    v = 0
    for n in range(10):
        if i >= len(body):
            raise BadFile('variable length number cut')
        b = body[i]
        i += 1
        v = (v << 7) | (b & 0x7F)
        if not b & 0x80:
            return v, i
    raise BadFile('variable length number too long')


def parse_chunks(data):
    chunks = []
    i = 0
    while i < len(data):
        if i + 8 > len(data):
            raise BadFile(f'{len(data) - i} stray bytes after the last chunk')
        name = bytes(data[i:i + 4])
        size = int.from_bytes(data[i + 4:i + 8], 'big')
        if i + 8 + size > len(data):
            raise BadFile(f'chunk {name!r} claims {size} bytes, {len(data) - i - 8} present')
        chunks.append((name, bytes(data[i + 8:i + 8 + size])))
        i += 8 + size
    return chunks


DATA_LEN = {0x8: 2, 0x9: 2, 0xA: 2, 0xB: 2, 0xC: 1, 0xD: 1, 0xE: 2}


def parse_strict(data):
    """Returns (division, events) of a format-0 file; events are
    (tick, kind, a, b, c); anything irregular raises BadFile."""
    chunks = parse_chunks(data)
    if [c[0] for c in chunks] != [b'MThd', b'MTrk']:
        raise BadFile(f'chunks are {[c[0] for c in chunks]}')
    head, body = chunks[0][1], chunks[1][1]
    if len(head) != 6:
        raise BadFile('header size')
    fmt, ntrk, div = (int.from_bytes(head[k:k + 2], 'big') for k in (0, 2, 4))
    if fmt != 0 or ntrk != 1:
        raise BadFile(f'format {fmt}, {ntrk} tracks')
    if not 1 <= div <= 0x7FFF:
        raise BadFile(f'division {div}')
    events = []
    i = 0
    tick = 0
    status = None
    while True:
        if i >= len(body):
            raise BadFile('no end of track')
        d, i = _vlq(body, i)
        tick += d
        if i >= len(body):
            raise BadFile('event missing')
        b = body[i]
        if b == 0xFF:
            if i + 1 >= len(body):
                raise BadFile('meta event cut')
            kind = body[i + 1]
            n, i = _vlq(body, i + 2)
            if i + n > len(body):
                raise BadFile('meta event cut')
            payload = body[i:i + n]
            i += n
            status = None
            if kind == 0x2F:
                if n:
                    raise BadFile('end of track with data')
                events.append((tick, 'end', None, None, None))
                break
            events.append((tick, 'meta', kind, payload, None))
            continue
        if b in (0xF0, 0xF7):
            n, i = _vlq(body, i + 1)
            if i + n > len(body):
                raise BadFile('sysex cut')
            i += n
            status = None
            events.append((tick, 'sysex', None, None, None))
            continue
        if b >= 0xF0:
            raise BadFile(f'status {b:#x} in a file')
        if b >= 0x80:
            status = b
            i += 1
        elif status is None:
            raise BadFile('data byte without status')
        n = DATA_LEN[status >> 4]
        if i + n > len(body):
            raise BadFile('channel event cut')
        args = body[i:i + n]
        i += n
        if any(x > 127 for x in args):
            raise BadFile('data byte above 127')
        ch = status & 0xF
        hi = status >> 4
        if hi == 9:
            events.append((tick, 'on', ch, args[0], args[1]))
        elif hi == 8:
            events.append((tick, 'off', ch, args[0], args[1]))
        else:
            events.append((tick, 'other', ch, None, None))
    if i != len(body):
        raise BadFile('data after end of track')
    return div, events


# ---------------------------------------------------------------- encoding

def vlq(n):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.append(0x80 | (n & 0x7F))
        n >>= 7
    return bytes(reversed(out))


def chunk(name, body):
    return name + len(body).to_bytes(4, 'big') + body


def header(division, fmt=0, ntrk=1, extra=b''):
    return chunk(b'MThd', fmt.to_bytes(2, 'big') + ntrk.to_bytes(2, 'big') + division.to_bytes(2, 'big') + extra)


# ---------------------------------------------------------------- notes on a wire

def decode_notes(events):
    """events: iterable of (tick, 'on'|'off', channel, pitch, velocity), in file
    order.  Returns {channel: [(start, end, pitch, velocity)]} by the rules of C08."""
    sounding = {}
    notes = {}
    for tick, kind, ch, pitch, vel in events:
        notes.setdefault(ch, [])
        key = (ch, pitch)
        if kind == 'on' and vel > 0:
            if key not in sounding:
                sounding[key] = (tick, vel)
        else:
            if key in sounding:
                start, v = sounding.pop(key)
                notes[ch].append((start, tick, pitch, v))
    return notes
