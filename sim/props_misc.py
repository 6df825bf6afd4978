"""C15 (random numbers), C16 (chord generator and its disk)."""
import builtins
import contextlib
import errno
import io
import math
import os
import random
import shutil
import sys
import tempfile

from melodia.core import Note, Track
from melodia.processing.track import randomize_velocities

from .core import SimHang, StepBudget, Violation, arrived, describe
from .gen import build_track, check_content, gen_notes, gen_signature, observe, observe_signature, show
from .streams import make_error

REPO = os.path.realpath(os.environ.get('MELODIA_REPO', '/repo'))


# ------------------------------------------------------------------------ C15

class RandomSeam:
    """Owns the random module: seeded, and on demand as extreme as it can be."""

    def __init__(self, w, mode, seed, entropy=0):
        self.w, self.mode = w, mode
        self.src = random.Random('rng:%d' % seed)
        # what the operating system gives is not part of the state of the random module
        self.entropy = random.Random('entropy:%d:%d' % (seed, entropy))
        self.n = 0
        self.callback = None

    def uniform(self):
        self.n += 1
        if self.callback is not None:
            self.callback('random')
        u = self.src.random()
        if self.mode == 'extreme' and self.src.random() < 0.35:
            self.w.faults['extreme-random'] += 1
            return self.src.choice([0.0, 1.0 - 2.0 ** -53, 2.0 ** -53, 0.5, 0.25, 0.75])
        return u

    def bits(self, k):
        return self.src.getrandbits(k)

    @contextlib.contextmanager
    def active(self):
        inst = random._inst
        state = inst.getstate()
        inst.seed(self.src.getrandbits(64))
        inst.random = self.uniform
        orig_seed = random.Random.seed
        src = self.entropy

        def seed(self_, a=None, version=2):
            if a is None:
                a = src.getrandbits(64)
            return orig_seed(self_, a, version)
        random.Random.seed = seed
        saved_random = random.random
        random.random = self.uniform
        saved_urandom = random._urandom
        random._urandom = lambda n: bytes(src.getrandbits(8) for _ in range(n))
        try:
            yield
        finally:
            random._urandom = saved_urandom
            random.random = saved_random
            random.Random.seed = orig_seed
            del inst.random
            inst.setstate(state)


def gen_level(ch):
    return ch.pick([0.5, 1.0, 0.75, 0.0, 0.25, 0.1, 0.9, 0.999, 1e-6, 1, 0]) if ch.chance(0.7) else ch.int(0, 1000) / 1000


def normal_velocities(w):
    """Many notes and wide limits: mean and variance must be the ones asked for."""
    ch = w.ch
    kind = ch.pick(['both', 'mean', 'variance'])
    mean, var, kw = 0.5, 0.01, {'minimum': 0.0, 'maximum': 1.0}
    if kind != 'variance':
        mean = kw['mean'] = ch.pick([0.5, 0.45, 0.55])
    else:
        mean = 0.75
    if kind != 'mean':
        var = kw['variance'] = ch.pick([0.0025, 0.0001, 1e-6])
    n = 1500
    track = Track()
    for k in range(n):
        track.add(Note(k % 100, (1, 4)), (k, 16))
    seam = RandomSeam(w, 'seeded', ch.draw(1 << 30))
    with seam.active():
        out = w.must('randomizing', randomize_velocities, track, **kw)
    vs = [note.velocity for _, note in out]
    got = sum(vs) / n
    std = math.sqrt(sum((v - got) ** 2 for v in vs) / n)
    w.log('normal', kw, got, std)
    w.probe('distribution')
    w.nontrivial = True
    if len(vs) != n or abs(got - mean) > 9 * math.sqrt(var / n):
        raise Violation('distribution', f'{len(vs)} velocities have mean {got}, mean {mean} was asked for ({kw})')
    if not 0.8 < std / math.sqrt(var) < 1.2:
        raise Violation('distribution', f'velocities have variance {std ** 2}, {var} was asked for ({kw})')


def run_c15(w):
    ch = w.ch
    if ch.chance(0.02):
        return normal_velocities(w)
    sig = gen_signature(ch)
    notes = gen_notes(ch, 36, overlap=True)
    track = build_track(w, sig, notes)
    if ch.chance(0.3):
        w.must('iter', lambda: list(track))
    kwargs = {}
    lo, hi, mean, var = 0.5, 1.0, 0.75, 0.01
    if ch.chance(0.7):
        lo, hi = sorted([gen_level(ch), gen_level(ch)])
        kwargs.update(minimum=lo, maximum=hi)
    if ch.chance(0.6):
        mean = kwargs['mean'] = gen_level(ch)
    if ch.chance(0.7):
        var = kwargs['variance'] = ch.pick([0.01, 0, 0.0, 1e-12, 0.1, 1, 4, 100.0, 1e6, 1e300, 0.5])
    if ch.chance(0.05):
        # parameters that make no sense
        kind = ch.pick(['minimum', 'maximum', 'mean', 'variance'])
        bad = ch.pick([-0.1, -1, -1e-9, float('nan'), float('-inf')] +
                      ([] if kind == 'variance' else [1.0000001, 2, 127, float('inf')]))
        res = w.call(randomize_velocities, track, **dict(kwargs, **{kind: bad}))
        w.log('bad', kind, bad, res.brief())
        w.fault('bad-parameter')
        if res.ok:
            raise Violation('not-refused', f'{kind} {bad} was accepted')
        check_content(w, track, notes, sig, 'the given track after a refusal')
    state = ch.draw(1 << 30)
    seam = RandomSeam(w, ch.pick(['seeded', 'extreme']), state)
    w.log('randomize', kwargs, len(notes), 'notes', seam.mode)
    before = [MNote for MNote in notes]
    src = track
    for k in range(1 + ch.draw(2)):
        counted = ch.chance(0.15) and len(notes) < 100
        try:
            with seam.active(), StepBudget(50000 + 5000 * len(notes)) if counted else contextlib.nullcontext():
                res = w.call(randomize_velocities, src, **kwargs)
        except SimHang as e:
            raise Violation('endless', f'randomize_velocities({kwargs}) on {len(notes)} notes executed {e}')
        if not res.ok:
            raise Violation('unexpected-exception', f'randomize_velocities({kwargs}) raised {describe(res.exc)}')
        out = res.value
        got = observe(w, out)
        want = sorted((m.pos, m.pitch, m.dur) for m in before)
        have = sorted((m.pos, m.pitch, m.dur) for m in got)
        if want != have:
            raise Violation('notes-changed', f'{len(have)} notes instead of {len(want)}, or other positions, pitches '
                                             f'or durations')
        for m in got:
            if not lo <= m.vel <= hi:
                raise Violation('out-of-range', f'velocity {m.vel} outside [{lo}, {hi}] ({kwargs})')
            if var == 0 and m.vel != max(lo, min(hi, mean)):
                raise Violation('out-of-range', f'velocity {m.vel} with variance 0 and mean {mean} in [{lo}, {hi}]')
        if out is src:
            raise Violation('not-a-copy', 'the given track itself was returned')
        check_content(w, out, got, sig, 'randomized track')
        if observe_signature(out) != tuple(sig):
            raise Violation('notes-changed', f'signature {out.signature} instead of {sig}')
        check_content(w, track, notes, sig, 'the given track after randomizing')
        if k == 0 and ch.chance(0.2):
            # the same random numbers, an equal track: the same result
            again = src if ch.chance(0.5) else build_track(w, sig, ch.shuffle(notes) if len(notes) < 60 else notes)
            seam2 = RandomSeam(w, seam.mode, state, entropy=1)
            with seam2.active():
                res = w.call(randomize_velocities, again, **kwargs)
            if not res.ok or observe(w, res.value) != got:
                raise Violation('not-repeatable', f'the same random numbers gave {res.brief()} with other velocities')
            w.probe('repeated with the same random numbers')
        w.log('result', len(got), ' '.join('%.6f' % m.vel for m in got[:5]))
        # changing the copy does not change the original
        if ch.chance(0.3):
            w.must('add', out.add, Note(1, (1, 4)), (7, 8))
            check_content(w, track, notes, sig, 'the given track after editing the copy')
            break
        src = out
    if notes:
        w.nontrivial = True
    w.faults['random-stream'] += 1


# ------------------------------------------------------------------------ C16

class FaultRaw(io.RawIOBase):
    """A real file below, a disk that splits and fails writes on top."""

    def __init__(self, w, real, plan):
        super().__init__()
        self.w, self.real, self.plan = w, real, plan
        self.count = 0
        self.injected = None

    def readable(self):
        return self.real.readable()

    def writable(self):
        return self.real.writable()

    def seekable(self):
        return self.real.seekable()

    def seek(self, *a):
        return self.real.seek(*a)

    def tell(self):
        return self.real.tell()

    def truncate(self, *a):
        return self.real.truncate(*a)

    def fileno(self):
        return self.real.fileno()

    def isatty(self):
        return False

    def readinto(self, b):
        return self.real.readinto(b)

    def _fail(self):
        if self.injected is None:
            self.injected = make_error(self.plan['error'])
            self.plan['injected'].append(self.injected)
        self.w.fault('disk-' + self.plan['error'])
        raise self.injected

    def write(self, b):
        data = bytes(b)
        self.w.steps += 1
        n = len(data)
        at = self.plan['fail_at']
        if at is not None and self.count + n > at:
            room = at - self.count
            if room <= 0:
                self._fail()
            n = room
        how = self.plan['accept']
        if n > 1 and how == 'mixed' and self.plan['draws'] < 100:
            self.plan['draws'] += 1
            n = n - self.w.ch.log_int(0, n - 1)
        elif n > 1 and how == 'half':
            n = (n + 1) // 2
        if n < len(data):
            self.w.faults['short-write'] += 1
            self.w.nontrivial = True
        k = 0
        while k < n:
            k += self.real.write(data[k:n])
        self.count += n
        self.w.log('disk write', len(data), '->', n)
        return n

    def close(self):
        if not self.closed:
            super().close()
            self.real.close()
            if self.plan['fail_close'] and self.writes_expected():
                self._fail()

    def writes_expected(self):
        return self.count > 0


@contextlib.contextmanager
def faulty_disk(w, folder, plan):
    """Every file opened for writing inside `folder` gets the faulty disk."""
    real_open = builtins.open

    def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        inside = False
        if isinstance(file, (str, os.PathLike)) and any(c in mode for c in 'wax+'):
            inside = os.path.realpath(os.fspath(file)).startswith(folder + os.sep)
        if not inside:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw_mode = mode.replace('b', '').replace('t', '')
        if plan['fail_open']:
            e = make_error(plan['error'])
            plan['injected'].append(e)
            w.fault('open-' + plan['error'])
            raise e
        real = io.FileIO(file, raw_mode)
        plan['opened'] += 1
        raw = FaultRaw(w, real, plan)
        if 'b' in mode and buffering == 0:
            return raw
        size = plan['buffer'] if buffering in (-1, 1) else buffering
        buf = io.BufferedRandom(raw, size) if '+' in mode else io.BufferedWriter(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    builtins.open = fopen
    io.open = fopen
    try:
        yield
    finally:
        builtins.open = real_open
        io.open = real_open


class Generator:
    """The generator script of the tree under test, and what the tree ships."""
    cache = None

    def __init__(self):
        self.folder = os.path.realpath(tempfile.mkdtemp(prefix='melodia-gen-'))
        import atexit
        atexit.register(shutil.rmtree, self.folder, True)
        path = os.path.join(REPO, 'scripts', 'generate_chords.py')
        self.path = path
        with open(path, 'rb') as f:
            self.code = compile(f.read(), path, 'exec')
        self.good = {}
        self.size = 50000
        import types
        from melodia.music import chord
        self.shipped = {k: v for k, v in vars(chord).items()
                        if isinstance(v, types.FunctionType) and not k.startswith('_') and v.__module__ == chord.__name__}
        self.previous = self.size_of_healthy_output()

    def size_of_healthy_output(self):
        """Output of a run without faults (whatever it is worth)."""
        target = os.path.join(self.folder, 'chord.py')
        argv = sys.argv
        sys.argv = ['generate_chords.py', target]
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                self.run()
            with open(target, 'rb') as f:
                data = f.read()
            self.size = len(data)
            return data
        except (Exception, SystemExit):
            return b'# nothing\n'
        finally:
            sys.argv = argv

    @classmethod
    def get(cls):
        if cls.cache is None:
            cls.cache = cls()
        return cls.cache

    def run(self):
        """What `python scripts/generate_chords.py OUTPUT` does."""
        exec(self.code, {'__name__': '__main__', '__file__': self.path, '__builtins__': builtins})

    def judge(self, data):
        """None if the text is the complete module, else a complaint."""
        if data in self.good:
            return self.good[data]
        self.good[data] = verdict = self._judge(data)
        return verdict

    def _judge(self, data):
        from melodia.core import Note, Signature, Tone
        try:
            ns = {'__name__': 'generated_chord'}
            exec(compile(data.decode('utf-8'), 'generated', 'exec'), ns)
        except Exception as e:
            return f'the generated module does not work: {type(e).__name__}: {e}'
        cases = [('C3', None, None), (0, (1, 1), None), (Tone(-7), (3, 8), 0.5), (Note('F#2', (5, 16), 0.25), None, None),
                 (Note('A4', (1, 2), 1.0), (1, 8), 0.0), (100, None, 0.9),
                 ('Bb-1', Signature(7, 64), 1.0), (Note(-40, (0, 1), 0.0), None, None), (Tone(5), None, 0.0),
                 (Note(7, (9, 2), 0.1), Signature(0, 1), None)]
        for name, fn in sorted(self.shipped.items()):
            g = ns.get(name)
            if not callable(g):
                return f'function {name} is missing'
            for c in cases:
                try:
                    a, b = fn(*c), g(*c)
                    if list(b) != list(g(base=c[0], duration=c[1], velocity=c[2])):
                        return f'{name} depends on how it is called'
                except Exception as e:
                    return f'{name}{c} raised {type(e).__name__}: {e}'
                ka = [(n.tone.pitch, n.duration.nominator, n.duration.denominator, n.velocity) for n in a]
                kb = [(n.tone.pitch, n.duration.nominator, n.duration.denominator, n.velocity) for n in b]
                if ka != kb:
                    return f'{name}{c}: generated {kb}, shipped {ka}'
        return None


def run_c16(w):
    ch = w.ch
    g = Generator.get()
    target = os.path.join(g.folder, 'chord.py')
    for name in os.listdir(g.folder):
        p = os.path.join(g.folder, name)
        os.unlink(p)
    previous = ch.weighted([(None, 2), ('short', 1), ('long', 2), ('same', 1), ('damaged', 2), ('torn', 1), ('longer', 1),
                            ('binary', 1), ('empty', 1)])
    if previous == 'short':
        with open(target, 'wb') as f:
            f.write(b'old = 1\n')
    elif previous == 'long':
        with open(target, 'wb') as f:
            f.write(b'raise RuntimeError("left over from before")\n' * 4000)
    elif previous:
        old = bytearray(g.previous)
        if previous == 'damaged':
            # the same size, other content
            for _ in range(1 + ch.draw(3)):
                at = ch.int(0, len(old) - 1)
                old[at] = ch.pick([b'0', b'#', b'\n', b' ', b'\xff', b'\0'])[0]
        elif previous == 'torn':
            del old[ch.int(0, len(old) - 1):]
        elif previous == 'longer':
            old += b'\n\nmajor = None\n' * ch.int(1, 50)
        elif previous == 'binary':
            old = ch.subrandom().randbytes(ch.pick([1, 100, len(old)]))
        elif previous == 'empty':
            old = b''
        with open(target, 'wb') as f:
            f.write(old)
    if previous and ch.chance(0.5):
        when = ch.pick([0, 10 ** 9, 4 * 10 ** 9])
        os.utime(target, (when, when))
    plan = dict(accept=ch.weighted([('whole', 1), ('mixed', 3), ('half', 1)]), fail_at=None, fail_close=False,
                fail_open=False, error='enospc', buffer=ch.pick([8192, 1, 100, 4096, 65536, 1 << 20]), draws=0, opened=0, injected=[])
    if plan['buffer'] == 1:
        plan['accept'] = 'whole'
    fail = ch.weighted([('none', 3), ('byte', 5), ('close', 1), ('early', 1), ('late', 2), ('open', 1)])
    size = g.size
    if fail == 'byte':
        plan['fail_at'] = ch.int(0, size)
    elif fail == 'early':
        plan['fail_at'] = ch.int(0, 10)
    elif fail == 'late':
        plan['fail_at'] = max(0, size - 1 - ch.int(0, 9000))
    elif fail == 'close':
        plan['fail_close'] = True
    elif fail == 'open':
        plan['fail_open'] = True
    if fail != 'none':
        plan['error'] = ch.pick(['enospc', 'eio', 'perm', 'timeout'])
    w.log('generate, previous', previous, 'fail', fail, plan['fail_at'], plan['error'], plan['accept'], plan['buffer'])
    argv = sys.argv
    sys.argv = ['generate_chords.py', target]
    try:
        with faulty_disk(w, g.folder, plan), contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            try:
                res = w.call(g.run)
                status = 0 if res.ok else 1
                exc = res.exc
            except SystemExit as e:
                status, exc = (0 if e.code in (None, 0) else 1), e
    finally:
        sys.argv = argv
    w.log('generator', 'finished' if status == 0 else f'failed: {type(exc).__name__}')
    if plan['injected']:
        if status == 0:
            raise Violation('failure-hidden', f'the disk raised {plan["injected"][0]!r}, but the generator finished')
        if not isinstance(exc, SystemExit) and not any(arrived(exc, i) for i in plan['injected']):
            raise Violation('failure-replaced', f'the disk raised {plan["injected"][0]!r}, the generator ended with '
                                                f'{describe(exc)}')
    else:
        if status != 0:
            raise Violation('generator-failed', f'the disk never failed, but the generator ended with {describe(exc)}')
        try:
            with open(target, 'rb') as f:
                data = f.read()
        except OSError as e:
            raise Violation('incomplete', f'no output file: {e}')
        bad = g.judge(data)
        if bad:
            raise Violation('incomplete', bad)
        w.log('module', len(data), 'bytes')
    if fail != 'none' or previous:
        w.nontrivial = True
