"""Simulated streams and disk: the seam is the file argument of dump/load."""
import errno
import io

from .core import Cancelled, SimCrash, SimHang
from .sched import Sched


class StreamTimeout(TimeoutError):
    pass


class StreamStopped(Exception):
    """An error of the stream that no library knows."""


def make_error(kind):
    if kind == 'enospc':
        return OSError(errno.ENOSPC, 'No space left on device (simulated)')
    if kind == 'eio':
        return OSError(errno.EIO, 'Input/output error (simulated)')
    if kind == 'epipe':
        return BrokenPipeError(errno.EPIPE, 'Broken pipe (simulated)')
    if kind == 'timeout':
        return StreamTimeout('timed out (simulated)')
    if kind == 'eagain':
        return BlockingIOError(errno.EAGAIN, 'would block (simulated)')
    if kind == 'eintr':
        return InterruptedError(errno.EINTR, 'interrupted (simulated)')
    if kind == 'reset':
        return ConnectionResetError(errno.ECONNRESET, 'reset (simulated)')
    if kind == 'perm':
        return PermissionError(errno.EACCES, 'denied (simulated)')
    if kind == 'closed':
        return ValueError('I/O operation on closed file (simulated)')
    if kind == 'unsupported':
        return io.UnsupportedOperation('not supported (simulated)')
    if kind == 'runtime':
        return RuntimeError('stream failed (simulated)')
    if kind == 'eof':
        return EOFError('stream ended (simulated)')
    if kind == 'memory':
        return MemoryError('allocation failed (simulated)')
    if kind == 'stop':
        return StreamStopped('stopped (simulated)')
    if kind == 'cancel':
        return Cancelled('cancelled (simulated)')
    raise AssertionError(kind)


WRITE_ERRORS = ('enospc', 'eio', 'epipe', 'timeout', 'closed', 'reset', 'eagain', 'perm',
                'unsupported', 'runtime', 'memory', 'cancel', 'eintr', 'stop')
READ_ERRORS = ('eio', 'timeout', 'reset', 'closed', 'eagain', 'perm', 'unsupported', 'runtime',
               'memory', 'cancel', 'eof', 'eintr', 'stop')
RETRIED_BY_BUFFERS = ('eintr', 'eagain')


callback = None         # called at every read and write (C21)


def _yield(label):
    if callback is not None:
        callback(label)
    s = Sched.current_sched
    if s is not None:
        s.yield_point(label)


class SimWriter(io.RawIOBase):
    """Unbuffered output stream.

    accept    'whole' | 'tiny' | 'half' | 'block' | 'mixed': how much of a write is accepted
    fail_at   fail when this many bytes have been accepted in total
    style     'before': the write that would cross fail_at accepts nothing and raises
              'partial': it accepts up to fail_at and then raises
              'short': it accepts up to fail_at, reports that, and the next write raises
              'stuck': it accepts up to fail_at and from then on nothing, reporting 0 bytes
    error     kind of exception, or 'crash'
    count     False: write() returns None (file-likes that report nothing)
    heal      the failure happens once, later writes are accepted
    seekable  the stream can be moved and cut, like a regular file
    """

    def __init__(self, w, name='out', accept='whole', fail_at=None, style='short', error='enospc',
                 count=True, heal=False, seekable=False, initial=b''):
        super().__init__()
        self.w, self.name = w, name
        self.accept, self.fail_at, self.style, self.error, self.count = accept, fail_at, style, error, count
        self.data = bytearray(initial)
        self.base = len(self.data)
        self.heal = heal
        self.can_seek = seekable
        self.at = len(self.data)        # where the next write goes
        self.total = 0                  # bytes accepted
        self.calls = 0
        self.nonempty_calls = 0
        self.injected = None
        self.raised = 0
        self.refused = 0                # writes of which nothing was accepted
        self.dead = False
        self.draws = 0
        self.block = None

    def writable(self):
        return True

    def seekable(self):
        return self.can_seek

    def tell(self):
        if not self.can_seek:
            raise io.UnsupportedOperation('not seekable')
        return self.at

    def seek(self, offset, whence=0):
        if not self.can_seek:
            raise io.UnsupportedOperation('not seekable')
        self.at = max(0, offset + (0, self.at, len(self.data))[whence])
        return self.at

    def truncate(self, size=None):
        if not self.can_seek:
            raise io.UnsupportedOperation('not seekable')
        size = self.at if size is None else size
        del self.data[size:]
        self.data += bytes(size - len(self.data))
        return size

    def _put(self, piece):
        if self.at != len(self.data):
            if self.at > len(self.data):
                self.data += bytes(self.at - len(self.data))
            self.data[self.at:self.at + len(piece)] = piece
        else:
            self.data += piece
        self.at += len(piece)
        self.total += len(piece)

    def _fail(self):
        self.raised += 1
        if self.heal:
            self.fail_at = None
        if self.error == 'crash':
            self.dead = True
            self.w.fault('crash-in-write')
            raise SimCrash('crash')
        if self.injected is None:
            self.injected = make_error(self.error)
        self.w.fault('write-' + self.error)
        raise self.injected

    def _stuck(self):
        self.refused += 1
        if self.refused == 1:
            self.w.fault('write-stuck')
        elif self.refused > 20000:
            raise SimHang('writing to a stream which accepts nothing does not end')
        return 0

    def write(self, b):
        if self.dead:
            raise OSError(errno.EIO, 'dead')
        data = bytes(b)
        self.calls += 1
        self.w.steps += 1
        if self.calls > 2000000:
            raise SimHang('stream written too often')
        if not data:
            return 0 if self.count else None
        self.nonempty_calls += 1
        _yield('write')
        n = len(data)
        have = self.total
        if self.fail_at is not None and have + n > self.fail_at:
            room = max(0, self.fail_at - have)
            if self.style == 'stuck' and room == 0:
                return self._stuck()
            if self.style == 'before' or room == 0:
                self._fail()
            if self.style == 'partial' or not self.count:
                self._put(data[:room])
                self._fail()
            n = room
        k = n
        if self.count and n > 1:
            if self.accept == 'tiny':
                k = 1
            elif self.accept == 'half':
                k = (n + 1) // 2
            elif self.accept == 'block':
                if self.block is None:
                    self.block = self.w.ch.pick([512, 64, 128, 256, 1024, 4096, 8192, 16384, 65536])
                k = min(n, self.block)
            elif self.accept == 'mixed':
                if self.draws < 150:
                    self.draws += 1
                    # zero on the tape: everything
                    k = n - self.w.ch.log_int(0, n - 1)
                else:
                    k = max(1, min(n, 64))
        if k < len(data):
            self.w.faults['short-write'] += 1
            self.w.nontrivial = True
        self._put(data[:k])
        self.w.events.append(f'{self.name}.write({len(data)}) -> {k}')
        return k if self.count else None

    @property
    def received(self):
        return bytes(self.data[self.base:])


class SimReader(io.RawIOBase):
    """Unbuffered input stream.

    deliver   'whole' | 'tiny' | 'fixed' | 'mixed'
    fail_at   raise when this many bytes have been delivered
    """

    def __init__(self, w, data, name='in', deliver='whole', size=1, fail_at=None, error='eio', heal=False,
                 start=0):
        super().__init__()
        self.w, self.name = w, name
        self.src = bytes(data)
        self.pos = self.start = start
        self.heal = heal
        self.deliver, self.size, self.fail_at, self.error = deliver, size, fail_at, error
        self.calls = 0
        self.draws = 0
        self.injected = None

    def readable(self):
        return True

    def _take(self, n):
        """Next piece, at most n bytes (n < 0: no limit); empty at the end."""
        self.calls += 1
        self.w.steps += 1
        if self.calls > 2000000 + len(self.src):
            raise SimHang('stream read too often')
        _yield('read')
        if n == 0:
            return b''
        left = len(self.src) - self.pos
        if self.fail_at is not None:
            room = self.fail_at - self.pos
            if room <= 0:
                if self.heal:
                    self.fail_at = None
                if self.injected is None:
                    self.injected = make_error(self.error)
                self.w.fault('read-' + self.error)
                raise self.injected
            left = min(left, room)
        n = left if n < 0 else min(n, left)
        if n <= 0:
            return b''
        k = n
        if n > 1:
            if self.deliver == 'tiny':
                k = 1
            elif self.deliver == 'fixed':
                k = min(n, self.size)
            elif self.deliver == 'mixed':
                if self.draws < 200:
                    self.draws += 1
                    k = n - self.w.ch.log_int(0, n - 1)
                else:
                    k = min(n, self.size)
        if k < n:
            self.w.faults['short-read'] += 1
            self.w.nontrivial = True
        piece = self.src[self.pos:self.pos + k]
        self.pos += k
        if self.calls <= 400:
            self.w.events.append(f'{self.name}.read -> {k}')
        return piece

    def readinto(self, b):
        piece = self._take(len(b))
        b[:len(piece)] = piece
        return len(piece)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        return self._take(n)

    def readall(self):
        parts = []
        while True:
            p = self._take(-1)
            if not p:
                return b''.join(parts)
            parts.append(p)

    def read1(self, n=-1):
        return self._take(n)


def gen_reader(w, data, fail=False):
    """Reader over data with a delivery chosen by the run; possibly failing."""
    ch = w.ch
    deliver = ch.weighted([('whole', 2), ('mixed', 5), ('tiny', 2), ('fixed', 3)])
    if len(data) > 200000 and deliver == 'tiny':
        deliver = 'fixed'
    size = ch.pick([7, 8, 2, 3, 4, 5, 9, 13, 14, 16, 22, 64, 1000, 4096] if len(data) < 4000 else
                   [8192, 4096, 512, 1024, 65536, 7, 100, 1000, 32768, 1 << 20])
    if len(data) > 200000:
        size = max(size, 1000)
    fail_at = None
    error = 'eio'
    heal = False
    flavour = ch.weighted([('raw', 4), ('buffered', 1), ('bytesio', 1)])
    if fail:
        # the end of the data is a place to fail, too, and so are the borders of chunks
        fail_at = ch.weighted([('any', 4), ('end', 1), ('head', 1)])
        fail_at = len(data) if fail_at == 'end' else min(len(data), ch.pick([0, 8, 14, 22, 4, 12, 18])) \
            if fail_at == 'head' else ch.int(0, len(data))
        error = ch.pick(READ_ERRORS)
        heal = ch.chance(0.4)
        if flavour == 'buffered' and error in RETRIED_BY_BUFFERS:
            error = 'eio'           # BufferedReader handles these itself
    junk = b''
    if ch.chance(0.15):
        # something in front of the file that the caller has read already
        junk = b'MThd\0\0\0\6junk'[:1 + ch.draw(12)]
    start = len(junk)
    if fail_at is not None:
        fail_at += start
    raw = SimReader(w, junk + data, deliver=deliver, size=size, fail_at=fail_at, error=error, heal=heal, start=start)
    if flavour == 'buffered':
        w.log('reader buffered', deliver, size, fail_at)
        return io.BufferedReader(raw, buffer_size=ch.pick([8192, 1, 3, 16, 100])), raw
    if flavour == 'bytesio' and not fail:
        w.log('reader bytesio')
        f = io.BytesIO(junk + data)
        f.seek(start)
        return f, raw
    w.log('reader raw', deliver, size, fail_at, error if fail else '')
    return raw, raw
