"""C09, C10, C11: the track as a mutable collection used by several tasks."""
from collections import Counter
from fractions import Fraction

from melodia.core import Note, Signature, Tone, Track
from melodia.io import midi

from .core import SimHang, StepBudget, Violation, describe
from .gen import (MNote, ascending, build_note, build_time, build_track, check_content, check_file, Config, gen_count,
                  gen_notes, gen_signature, gen_time, gen_velocity, observe, observe_note, observe_signature, show)
from .props_io import hash_bytes


class IterableFailed(Exception):
    pass


DENOMS = [4, 1, 2, 8, 16, 32, 64, 128, 256, 512, 1024, 4096, 65536, 1 << 20]


def gen_pos(ch):
    k = ch.weighted([('small', 12), ('any', 6), ('big', 2), ('fine', 1)])
    if k == 'fine':
        # more significant bits than a float has
        return Fraction((ch.draw(1 << 30) << 35) | 1, 1 << ch.int(45, 70))
    if k == 'small':
        return Fraction(ch.int(0, 12), ch.pick([1, 2, 4, 8, 16]))
    if k == 'any':
        return Fraction(ch.int(0, 3000), ch.pick(DENOMS))
    return Fraction(ch.int(0, 1 << 20), ch.pick(DENOMS))


def gen_mnote(ch, pos):
    dur = Fraction(ch.int(0, 9), ch.pick(DENOMS[:8])) if ch.chance(0.8) else gen_time(ch)
    pitch = ch.int(0, 12) + ch.pick([36, 0, -20, 60])
    return MNote(pos, pitch, dur, gen_velocity(ch))


class Model:
    def __init__(self, sig):
        self.sig = sig
        self.notes = []

    @property
    def length(self):
        return max((m.pos + m.dur for m in self.notes), default=Fraction(0))

    def copy(self):
        c = Model(self.sig)
        c.notes = list(self.notes)
        return c


def as_iterable(ch, w, items, kind):
    if kind == 'tuple':
        return tuple(items)
    if kind == 'list':
        return list(items)
    if kind == 'iter':
        return iter(list(items))
    if kind == 'gen':
        return (x for x in list(items))
    if kind == 'dict':
        return {i: x for i, x in enumerate(items)}.values()
    if kind == 'map':
        return map(lambda x: x, list(items))
    if kind == 'nested':
        items = list(items)
        k = len(items) // 2
        return [tuple(items[:k]), items[k:]]
    raise AssertionError(kind)


class Weird:
    """Not a note, but it looks a little like one."""
    def __init__(self, duration):
        self.duration = duration


def run_c09(w):
    ch = w.ch
    tracks = []

    def new_track():
        sig = gen_signature(ch)
        m = Model(sig)
        if ch.chance(0.3):
            content = []
            for _ in range(ch.int(0, 6)):
                if ch.chance(0.3):
                    content.append((gen_mnote(ch, m.length), None))
                    m.notes.append(content[-1][0])
                else:
                    n = gen_mnote(ch, gen_pos(ch))
                    content.append((n, n.pos))
                    m.notes.append(n)
            pairs = [(build_note(ch, n), None if p is None else build_time(ch, p)) for n, p in content]
            form = ch.pick([list, tuple, iter, lambda x: (y for y in x)])
            t = w.must('Track(content)', lambda: Track(signature=Signature(*sig), content=form(pairs)))
        else:
            t = w.must('Track', Track, sig)
        w.log('new track', len(tracks), sig, len(m.notes))
        tracks.append((t, m))

    new_track()
    ops = ch.weighted([(6, 4), (15, 4), (40, 2)])
    ops = ch.int(1, ops)
    for step in range(ops):
        i = ch.draw(len(tracks))
        t, m = tracks[i]
        op = ch.weighted([('add', 8), ('append', 5), ('group', 5), ('fail-arg', 3), ('fail-iter', 3), ('check', 4),
                          ('reentrant', 2), ('compare', 3), ('new', 1), ('copy', 1), ('peek', 2), ('bulk', 1)])
        if op == 'add':
            n = gen_mnote(ch, gen_pos(ch))
            w.must('add', t.add, build_note(ch, n), build_time(ch, n.pos))
            m.notes.append(n)
            w.log(i, 'add', show([n]))
        elif op == 'append':
            n = gen_mnote(ch, m.length)
            if ch.chance(0.5):
                w.must('add', t.add, build_note(ch, n))
            else:
                w.must('add', lambda: t.add(what=build_note(ch, n), where=None))
            m.notes.append(n)
            w.log(i, 'append', show([n]))
        elif op == 'group':
            where = None if ch.chance(0.5) else gen_pos(ch)
            pos = m.length if where is None else where
            ns = [gen_mnote(ch, pos) for _ in range(ch.int(0, 5))]
            kind = ch.pick(['tuple', 'list', 'iter', 'gen', 'dict', 'map', 'nested'])
            it = as_iterable(ch, w, [build_note(ch, n) for n in ns], kind)
            w.must('add of a group', t.add, it, None if where is None else build_time(ch, where))
            m.notes.extend(ns)
            w.log(i, 'group', kind, where, show(ns))
        elif op == 'fail-arg':
            bad = ch.pick(['what-int', 'what-none', 'where-int', 'where-bad', 'where-neg', 'where-float', 'what-tone',
                           'what-sig', 'what-float', 'where-str', 'where-long', 'what-track-items', 'where-zero',
                           'what-weird', 'group-where'])
            n = build_note(ch, gen_mnote(ch, Fraction(0)))
            pos = None if ch.chance(0.4) else build_time(ch, gen_pos(ch))
            args = {
                'what-int': lambda: (5, pos), 'what-none': lambda: (None, pos), 'what-tone': lambda: (Tone(3), pos),
                'what-float': lambda: (0.5, pos), 'what-sig': lambda: (Signature(1, 4), pos),
                'what-weird': lambda: (Weird('long'), pos),
                'where-int': lambda: (n, 7), 'where-bad': lambda: (n, (1, 3)), 'where-neg': lambda: (n, (-1, 4)),
                'where-float': lambda: (n, 0.5), 'where-str': lambda: (n, 'C4'), 'where-long': lambda: (n, (1, 4, 8)),
                'where-zero': lambda: (n, (1, 0)),
                'what-track-items': lambda: ([(Signature(0, 1), n)][0][0], pos),
                'group-where': lambda: ([n, n], (1, 3)),
            }[bad]()
            res = w.call(t.add, *args)
            w.fault('rejected-add')
            w.log(i, 'bad add', bad, res.brief())
            if res.ok:
                raise Violation('not-rejected', f'add accepted {bad}')
            check_content(w, t, m.notes, m.sig, f'after a rejected add ({bad})')
        elif op == 'fail-iter':
            where = None if ch.chance(0.5) else gen_pos(ch)
            pos = m.length if where is None else where
            ns = [gen_mnote(ch, pos) for _ in range(ch.int(0, 4))]
            kind = ch.pick(['raise', 'bad-item', 'bad-middle', 'stop'])

            def gen():
                for n in ns:
                    yield build_note(ch, n)
                if kind == 'raise':
                    raise IterableFailed('iterable failed')
                if kind == 'stop':
                    raise KeyError('iterable failed')
                yield ch.pick([5, None, 2.5])
                if kind == 'bad-middle':
                    yield build_note(ch, gen_mnote(ch, pos))
            it = gen() if kind == 'raise' or ch.chance(0.5) or kind == 'stop' else list(gen())
            res = w.call(t.add, it, None if where is None else build_time(ch, where))
            w.fault('failing-iterable')
            w.log(i, 'failing group', kind, len(ns), res.brief())
            if res.ok:
                raise Violation('not-rejected', f'add accepted an iterable that failed ({kind})')
            rest = Counter(observe(w, t))
            rest.subtract(m.notes)
            extra = list((+rest).elements())
            if Counter(extra) <= Counter(ns):
                m.notes = m.notes + extra       # delivered notes may be in
            check_content(w, t, m.notes, m.sig, f'after a failing iterable ({kind}, {len(ns)} notes delivered)')
        elif op == 'reentrant':
            # the iterable itself uses the track while it is being added
            where = None if ch.chance(0.5) else gen_pos(ch)
            pos = m.length if where is None else where
            ns = [gen_mnote(ch, pos) for _ in range(ch.int(1, 4))]
            inner = []
            acts = [ch.pick(['read', 'add', 'len', 'dump']) for _ in ns]

            def gen2():
                for n, act in zip(ns, acts):
                    if act == 'read':
                        list(t)
                    elif act == 'len':
                        len(t), t.length
                    elif act == 'dump':
                        repr(t)
                    else:
                        x = gen_mnote(ch, gen_pos(ch))
                        t.add(build_note(ch, x), build_time(ch, x.pos))
                        inner.append(x)
                    yield build_note(ch, n)
            w.fault('reentrant-iterable')
            w.must('add of a reentrant iterable', t.add, gen2(), None if where is None else build_time(ch, where))
            m.notes = m.notes + ns + inner
            w.log(i, 'reentrant', acts, where, show(ns))
            check_content(w, t, m.notes, m.sig, 'after a reentrant add')
        elif op == 'check':
            check_content(w, t, m.notes, m.sig, 'check')
        elif op == 'peek':
            what = ch.pick(['len', 'length', 'iter', 'str', 'partial'])
            if what == 'len':
                if w.must('len', len, t) != len(m.notes):
                    raise Violation('content', f'len is {len(t)} instead of {len(m.notes)}')
            elif what == 'length':
                v = w.must('length', lambda: t.length)
                if Fraction(v.nominator, v.denominator) != m.length:
                    raise Violation('length', f'{v} instead of {m.length}')
            elif what == 'iter':
                w.must('iterating', lambda: list(t))
            elif what == 'partial':
                it = w.must('iter', iter, t)
                for _ in range(ch.int(0, len(m.notes))):
                    w.must('next', next, it)
            else:
                w.must('str', str, t)
        elif op == 'compare':
            j = ch.draw(len(tracks))
            o, om = tracks[j]
            if ch.chance(0.5):
                # a twin: same content, another order, sometimes one difference
                om = m.copy()
                how = ch.weighted([('same', 3), ('fewer', 2), ('more', 2), ('velocity', 1), ('position', 1),
                                   ('pitch', 1), ('duration', 1), ('signature', 1), ('double', 1)])
                if om.notes:
                    k = ch.draw(len(om.notes))
                    x = om.notes[k]
                    if how == 'fewer':
                        del om.notes[k]
                    elif how == 'velocity':
                        vel = 0.123 if x.vel != 0.123 else 0.5
                        if ch.chance(0.3):
                            step = ch.pick([1e-2, 1e-4, 1e-7, 1e-9, 1e-13])
                            vel = x.vel + step if x.vel + step <= 1 else x.vel - step
                        om.notes[k] = MNote(x.pos, x.pitch, x.dur, vel)
                    elif how == 'position':
                        om.notes[k] = MNote(x.pos + Fraction(1, 1 << ch.pick([10, 10, 20, 40])), x.pitch, x.dur, x.vel)
                    elif how == 'pitch':
                        om.notes[k] = MNote(x.pos, x.pitch + 1, x.dur, x.vel)
                    elif how == 'duration':
                        om.notes[k] = MNote(x.pos, x.pitch, x.dur + Fraction(1, 1 << ch.pick([10, 10, 20, 40])), x.vel)
                    elif how == 'double':
                        om.notes.append(x)
                if how == 'more':
                    om.notes.append(gen_mnote(ch, gen_pos(ch)))
                if how == 'signature':
                    om.sig = (m.sig[0] + 1, m.sig[1])
                om.notes = ch.shuffle(om.notes)
                o = build_track(w, om.sig, om.notes)
                w.log('twin', how)
            want = Fraction(*m.sig) == Fraction(*om.sig) and sorted(m.notes) == sorted(om.notes)
            for a, b in ((t, o), (o, t)):
                eq = w.must('==', lambda: a == b)
                ne = w.must('!=', lambda: a != b)
                if bool(eq) != want or bool(ne) == want:
                    raise Violation('equality', f'== is {eq}, != is {ne} for tracks with {len(a)} and {len(b)} notes, '
                                                f'expected {want}')
            w.log('compare', want)
        elif op == 'new':
            if len(tracks) < 4:
                new_track()
        elif op == 'copy':
            if len(tracks) < 4:
                c = w.must('copy', lambda: Track(signature=t.signature, content=((n, p) for p, n in t)))
                tracks.append((c, m.copy()))
                w.log('copy of', i)
        elif op == 'bulk':
            huge = ch.chance(0.01)
            ns = gen_notes(ch, 36, count=ch.int(1000, 6000) if huge else ch.int(60, 250), overlap=True)
            if huge:
                w.probe('thousands of notes')
            def add_all():
                from .gen import source
                src = source(ch, 100)
                for n in ns:
                    t.add(build_note(src, n), build_time(src, n.pos))
            w.must('adding', add_all)
            m.notes = m.notes + ns
            w.log(i, 'bulk', len(ns))
    for k, (t, m) in enumerate(tracks):
        check_content(w, t, m.notes, m.sig, f'finally, track {k}')
    if ops > 3:
        w.nontrivial = True


# ------------------------------------------------------------------------ C10

def run_c10(w):
    ch = w.ch
    sig = gen_signature(ch)
    voices = []
    dense = ch.chance(0.5)
    n_voices = ch.int(1, 5)
    shared_pos = [gen_pos(ch) for _ in range(4)]
    for v in range(n_voices):
        ns = []
        for _ in range(ch.int(1, ch.pick([4, 10, 30]))):
            pos = ch.pick(shared_pos) if dense and ch.chance(0.7) else gen_pos(ch)
            if pos > 30000:
                pos = Fraction(pos.numerator % 30000, pos.denominator)
            n = gen_mnote(ch, pos)
            if dense and ch.chance(0.5):
                n = MNote(pos, 40, Fraction(ch.int(1, 6), ch.pick([4, 8, 16, 32])), ch.pick([0.5, 0.75, 1.0]))
            if dense and ch.chance(0.3):
                n = MNote(pos, ch.int(38, 42), Fraction(0), ch.pick([0.5, 0.75]))     # zero-length notes
            if n.dur > 5000:
                n = MNote(n.pos, n.pitch, Fraction(1, 4), n.vel)
            ns.append(n)
        if ns and ch.chance(0.2):
            ns.append(ns[0])            # the same note twice
        while ns and ch.chance(0.3):
            # almost the same note: one component differs by very little
            n = ch.pick(ns)
            kind = ch.pick(['vel', 'vel', 'dur', 'pos', 'pitch'])
            step = Fraction(1, 1 << ch.pick([5, 10, 14, 20, 40, 60]))
            if kind == 'vel':
                delta = ch.pick([0.004, 0.001, 1e-4, 1e-6, 1e-9, 1e-15])
                n = MNote(n.pos, n.pitch, n.dur, n.vel + delta if n.vel + delta <= 1 else n.vel - delta)
            elif kind == 'dur':
                n = MNote(n.pos, n.pitch, n.dur + step, n.vel)
            elif kind == 'pos':
                n = MNote(n.pos + step, n.pitch, n.dur, n.vel)
            else:
                n = MNote(n.pos, n.pitch + 1, n.dur, n.vel)
            ns.insert(ch.int(0, len(ns)), n)
        voices.append(ns)
    lo, hi = -24, 103
    voices = [[MNote(n.pos, min(hi, max(lo, n.pitch)), n.dur, n.vel) for n in v] for v in voices]
    model = [n for v in voices for n in v]
    cfg = Config(bpm=120.0, channel=0)
    results = []

    def assemble(k):
        t = w.must('Track', Track, sig)
        queues = [list(v) for v in voices]
        done = []
        for q in queues:
            q.reverse()
        queues = [q for q in queues if q]
        style = ch.pick(['interleaved', 'sequential', 'random-order', 'ascending'])
        reads = ch.pick([0.15, 0.02, 0.6])
        if style == 'random-order':
            queues = [ch.shuffle(model)]
        elif style == 'ascending':
            # ascending positions, ties in any order
            queues = [sorted(ch.shuffle(model), key=lambda x: -x.pos)]
        while queues:
            q = queues[-1 if style == 'sequential' else ch.draw(len(queues))]
            n = q.pop()
            group = [n]
            while q and q[-1].pos == n.pos and ch.chance(0.5):
                group.append(q.pop())
            if not q:
                queues.remove(q)
            notes = [build_note(ch, x) for x in group]
            if len(group) > 1 or ch.chance(0.2):
                w.must('add', t.add, notes if ch.chance(0.5) else iter(notes), build_time(ch, n.pos))
            else:
                w.must('add', t.add, notes[0], build_time(ch, n.pos))
            done += group
            w.log(k, 'add', show(group, 2))
            if ch.chance(reads):
                act = ch.pick(['iter', 'dumps', 'eq', 'len', 'peek', 'repr'])
                w.log(k, act)
                if act == 'iter':
                    w.must('iter', lambda: list(t))
                elif act == 'dumps':
                    b = w.must('dumps', cfg.dumps, t)
                    bad = check_file(b, done, sig, cfg)
                    if bad:
                        raise Violation('wrong-file', bad)
                elif act == 'eq':
                    w.must('==', lambda: t == t)
                elif act == 'repr':
                    w.must('repr', repr, t)
                elif act == 'peek':
                    w.must('peek', lambda: next(iter(t)))
                else:
                    w.must('len', len, t)
        w.faults['interleaving'] += 1
        check_content(w, t, model, sig, 'assembled track')
        seq = observe(w, t)
        data = w.must('dumps', cfg.dumps, t)
        bad = check_file(data, model, sig, cfg)
        if bad:
            raise Violation('wrong-file', bad)
        w.log(k, 'bytes', hash_bytes(data))
        return t, seq, data

    n = 2 + ch.int(0, 1)
    for k in range(n):
        results.append(assemble(k))
        a, b = results[0], results[-1]
        if not w.must('==', lambda: a[0] == b[0]) or not w.must('==', lambda: b[0] == a[0]):
            raise Violation('order-dependent', 'tracks assembled in different orders are not equal')
        if a[1] != b[1]:
            i = next(i for i, (x, y) in enumerate(zip(a[1], b[1])) if x != y)
            raise Violation('order-dependent', f'tracks iterate differently at {i}: {show(a[1][i:i + 2])} / '
                                               f'{show(b[1][i:i + 2])}')
        if a[2] != b[2]:
            raise Violation('order-dependent', f'the same content saved to different bytes')
    if len(model) > 2:
        w.nontrivial = True


# ------------------------------------------------------------------------ C11

def run_c11(w):
    ch = w.ch
    sig = (4, 4)
    notes = gen_notes(ch, 36, count=ch.weighted([(ch.int(0, 4), 3), (ch.int(3, 15), 4), (ch.int(15, 60), 1)]),
                      overlap=True)
    track = build_track(w, sig, notes)
    model = list(notes)
    if ch.chance(0.4):
        w.must('iter', lambda: list(track))
    open_its = []               # [iterator, allowed snapshots, produced, name]
    made = 0

    def check_prefix(rec, finished):
        _, snaps, got, name = rec
        keep = []
        for s in snaps:
            want = sorted(s)
            if len(got) > len(want):
                continue
            # ascending positions and a sub-multiset; complete when finished
            rest = list(want)
            ok = ascending(got)
            for g in got:
                if g in rest:
                    rest.remove(g)
                else:
                    ok = False
                    break
            if ok and rest and got and min(r.pos for r in rest) < got[-1].pos:
                ok = False
            if ok and (not finished or not rest):
                keep.append(s)
        rec[1] = keep
        if not keep:
            raise Violation('not-a-snapshot', f'iteration {name} produced {show(got, 8)}'
                            + (' and ended' if finished else '') + f'; the track had {show(sorted(snaps[0]), 8)} when it started')

    total = 400000
    budget = StepBudget(total)
    steps = ch.weighted([(8, 3), (25, 4), (80, 2)])
    try:
        with budget:
            for step in range(ch.int(1, steps)):
                op = ch.weighted([('next', 10), ('open', 3), ('add', 6), ('list', 1), ('loop', 1), ('dump', 1),
                                  ('group', 1), ('drain', 1), ('eq', 1)])
                if op == 'open' and len(open_its) < 6:
                    it = w.must('iter', iter, track)
                    open_its.append([it, [list(model)], [], f'#{made}'])
                    made += 1
                    w.log('open', made - 1, len(model))
                elif op in ('next', 'drain') and open_its:
                    rec = open_its[ch.draw(len(open_its))]
                    for _ in range(1 if op == 'next' else 10 ** 9):
                        res = w.call(next, rec[0])
                        if res.ok:
                            if not isinstance(res.value, tuple) or len(res.value) != 2:
                                raise Violation('malformed-track', f'iteration yields {res.value!r}')
                            rec[2].append(observe_note(*res.value))
                            w.log(rec[3], 'next')
                            check_prefix(rec, False)
                        elif isinstance(res.exc, StopIteration):
                            check_prefix(rec, True)
                            open_its.remove(rec)
                            w.log(rec[3], 'end')
                            break
                        else:
                            raise Violation('unexpected-exception', f'next() raised {describe(res.exc)}')
                elif op in ('add', 'group'):
                    where = None if ch.chance(0.3) else gen_pos(ch)
                    pos = max((m.pos + m.dur for m in model), default=Fraction(0)) if where is None else where
                    ns = [gen_mnote(ch, pos) for _ in range(1 if op == 'add' else ch.int(1, 4))]
                    ns = [MNote(n.pos, min(103, max(-24, n.pitch)), n.dur, n.vel) for n in ns]
                    if open_its:
                        w.fault('add-during-iteration')
                    arg = [build_note(ch, n) for n in ns]
                    w.must('add', track.add, arg[0] if op == 'add' else arg,
                           None if where is None else build_time(ch, where))
                    model.extend(ns)
                    w.log('add', show(ns, 2))
                elif op == 'list':
                    got = observe(w, track)
                    if sorted(got) != sorted(model) or not ascending(got):
                        raise Violation('content', 'a full iteration differs from the content')
                elif op == 'eq':
                    if not w.must('==', lambda: track == track):
                        raise Violation('content', 'track is not equal to itself')
                elif op == 'dump':
                    if max((m.pos + m.dur for m in model), default=0) < 40000:
                        data = w.must('dumps', midi.dumps, track)
                        bad = check_file(data, model, sig, Config())
                        if bad:
                            raise Violation('wrong-file', bad)
                elif op == 'loop' and len(model) <= 80:
                    # a loop over the track that adds to the same track
                    before = sorted(model)
                    seen = []
                    k = ch.pick([12, -12, 7, 0])
                    some = ch.pick([1, 2, 3])
                    w.fault('add-during-iteration')

                    def body():
                        for j, (p, n) in enumerate(track):
                            x = observe_note(p, n)
                            seen.append(x)
                            if len(seen) > len(before) + 5:
                                raise Violation('endless', f'a loop over {len(before)} notes that adds to the track '
                                                           f'visited {len(seen)}: {show(seen)}')
                            if j % some == 0:
                                pitch = min(103, max(-24, x.pitch + k))
                                track.add(Note(pitch, n.duration, n.velocity), p)
                                model.append(MNote(x.pos, pitch, x.dur, x.vel))
                    w.must('loop that adds', body)
                    w.log('loop', len(before), 'visited', len(seen))
                    if sorted(seen) != before or not ascending(seen):
                        raise Violation('not-a-snapshot', f'a loop that adds to its track visited {show(seen, 8)} '
                                                          f'instead of {show(before, 8)}')
            check_content(w, track, model, sig, 'finally')
            for rec in list(open_its):
                while True:
                    res = w.call(next, rec[0])
                    if not res.ok:
                        break
                    rec[2].append(observe_note(*res.value))
                    if len(rec[2]) > len(model) + 5:
                        break
                check_prefix(rec, True)
    except SimHang as e:
        raise Violation('endless', f'{e}')
    w.steps += budget.used
