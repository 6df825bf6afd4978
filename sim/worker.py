"""A worker process: executes runs of one property, or minimises or replays one.

    python -m sim.worker sweep    PID SEED FIRST STEP COUNT WALL OUTDIR NAME
    python -m sim.worker minimise PID FILE SECONDS
    python -m sim.worker replay   PID FILE
    python -m sim.worker digests  PID SEED COUNT OUT
"""
import faulthandler
import json
import mmap
import os
import resource
import signal
import sys
import threading
import time
import traceback

from . import sched
sched.patch_locks()         # before the code under test is imported

from . import registry                                                  # noqa: E402
from .core import Choices, Monitor, SimCrash, SimHang, SRC, Violation, World, describe     # noqa: E402

CPU_LIMIT = 40.0            # CPU seconds one run may take (ordinary runs: milliseconds)


class HarnessError(Exception):
    pass


def on_cpu_limit(_sig, _frame):
    Monitor.hook = None
    raise SimHang(f'more than {CPU_LIMIT:g} s of CPU time')


def in_code_under_test(exc):
    """True if the exception was raised inside the code under test."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and last.startswith(SRC)


def execute(fn, ch):
    """One run.  Returns (world, violation or None); HarnessError otherwise."""
    w = World(ch)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        fn(w)
        return w, None
    except Violation as v:
        return w, v
    except SimHang as e:
        return w, Violation('endless', str(e))
    except SimCrash:
        raise HarnessError('a simulated crash escaped')
    except Exception as e:
        if in_code_under_test(e):
            return w, Violation('unexpected-exception', describe(e))
        raise HarnessError(traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        Monitor.hook = None
        sched.Sched.current_sched = None


def setup():
    faulthandler.enable()
    signal.signal(signal.SIGPROF, on_cpu_limit)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    threading.stack_size(16 << 20)
    sys.setrecursionlimit(3000)


def seed_of(pid, seed, index):
    return f'{pid}:{seed}:{index}'


def record(pid, seed, index, w, v):
    return dict(property=pid, seed=seed, index=index, kind=v.kind, detail=v.detail, tape=list(w.ch.rec),
                digest=w.digest(), events=w.events[-400:], faults=dict(w.faults))


def sweep(pid, seed, first, step, count, wall, outdir, name):
    fn = registry.scenario(pid)
    started = time.monotonic()
    with open(os.path.join(outdir, 'shared'), 'r+b') as f:
        shared = mmap.mmap(f.fileno(), 0)
    slot = 8 + 8 * int(name)

    def stop_at():
        return int.from_bytes(shared[0:8], 'little')

    res = dict(runs=0, nontrivial=0, faults={}, probes={}, steps=0, harness=[], violations=[], samples=[], cut=False,
               draws=0)
    faults, probes = {}, {}
    keys = set()
    schedules = set()
    i = first
    while i < count:
        if i > stop_at():
            break
        if time.monotonic() - started > wall:
            res['cut'] = True
            break
        shared[slot:slot + 8] = (i + 1).to_bytes(8, 'little')
        ch = Choices(seed_of(pid, seed, i))
        try:
            w, v = execute(fn, ch)
        except HarnessError as e:
            res['harness'].append((i, str(e)))
            if len(res['harness']) > 3:
                break
            i += step
            continue
        res['runs'] += 1
        res['steps'] += w.steps
        res['draws'] += len(ch.rec)
        for k, n in w.faults.items():
            faults[k] = faults.get(k, 0) + n
        for k, n in w.probes.items():
            probes[k] = probes.get(k, 0) + n
        if w.nontrivial:
            res['nontrivial'] += 1
            keys.add(hash_key(w.digest()))
        if w.key:
            schedules.add(hash_key(repr(w.key)))
        if len(res['samples']) < 2 and w.nontrivial and i > 3:
            res['samples'].append(dict(run=seed_of(pid, seed, i), choices=len(ch.rec), events=w.events[:25]))
        if v is not None:
            res['violations'].append(record(pid, seed, i, w, v))
            if i < stop_at():
                shared[0:8] = i.to_bytes(8, 'little')
            break
        i += step
    res['faults'], res['probes'] = faults, probes
    res['keys'] = sorted(keys)
    res['schedules'] = sorted(schedules)
    write_json(os.path.join(outdir, f'result-{name}.json'), res)
    sys.stdout.flush()
    os._exit(0)         # parked threads of abandoned runs do not matter


def hash_key(text):
    import hashlib
    return hashlib.sha1(text.encode('utf-8', 'replace')).hexdigest()[:14]


def write_json(path, data):
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(data, f)
    os.replace(tmp, path)


# ---------------------------------------------------------------- minimising

def minimise(pid, path, seconds):
    """Shrinks the recorded choices while the same kind of violation persists."""
    fn = registry.scenario(pid)
    with open(path) as f:
        rec = json.load(f)
    kind = rec['kind']
    deadline = time.monotonic() + seconds
    tries = 0

    used = 0                    # choices the last attempt consumed

    def attempt(tape):
        nonlocal tries, used
        tries += 1
        ch = Choices(tape=tape)
        used = 0
        try:
            w, v = execute(fn, ch)
        except HarnessError:
            return None
        used = len(ch.rec)
        if v is None or v.kind != kind:
            return None
        return record(pid, rec['seed'], rec['index'], w, v)

    def key(tape):
        return len(tape), sum(min(x, 1 << 20) for x in tape)

    best = attempt(rec['tape'])
    if best is None:
        rec['minimised'] = False
        write_json(path, rec)
        return
    original = len(rec['tape'])

    def better(tape):
        nonlocal best
        got = attempt(tape)
        if got is not None and key(got['tape']) < key(best['tape']):
            best = got
            return True
        return False

    def strip(tape):
        n = len(tape)
        while n and tape[n - 1] == 0:
            n -= 1
        return tape[:n]

    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        size = max(1, len(best['tape']) // 2)
        while size >= 1 and time.monotonic() < deadline:
            i = 0
            while i < len(best['tape']) and time.monotonic() < deadline:
                tape = best['tape']
                if better(tape[:i] + tape[i + size:]):
                    progress = True
                    continue
                if any(tape[i:i + size]) and better(tape[:i] + [0] * len(tape[i:i + size]) + tape[i + size:]):
                    progress = True
                i += size
            size //= 2
        i = 0
        while i < len(best['tape']) and time.monotonic() < deadline:
            v = best['tape'][i]
            lo = 0
            while v > lo and time.monotonic() < deadline:
                mid = (lo + v) // 2
                tape = list(best['tape'])
                if i >= len(tape):
                    break
                tape[i] = mid
                if better(tape):
                    progress = True
                    if i >= len(best['tape']):
                        break
                    v = best['tape'][i]
                else:
                    lo = mid + 1
            i += 1
        # a smaller number of items, together with the choices of one item
        i = 0
        while i < len(best['tape']) and time.monotonic() < deadline:
            tape = best['tape']
            if not 0 < tape[i] < 1000:
                i += 1
                continue
            shrunk = better(tape[:i] + [tape[i] - 1] + tape[i + 1:])
            sizes = {len(tape) - used, *range(1, 15)}
            for gone in sorted(sizes, reverse=True):
                if shrunk or time.monotonic() > deadline:
                    break
                if not 0 < gone <= 100:
                    continue
                for j in range(i + 1, len(tape) - gone + 1, gone):
                    if better(tape[:i] + [tape[i] - 1] + tape[i + 1:j] + tape[j + gone:]):
                        shrunk = True
                        break
            if shrunk:
                progress = True
            else:
                i += 1
    best['tape'] = strip(best['tape'])
    final = attempt(best['tape']) or best
    final['tape'] = best['tape']
    final['minimised'] = True
    final['original_choices'] = original
    final['minimiser_tries'] = tries
    write_json(path, final)


def replay(pid, path):
    fn = registry.scenario(pid)
    with open(path) as f:
        rec = json.load(f)
    for i in rec.get('history') or []:
        # earlier runs of the same process, where the code under test keeps state between them
        try:
            execute(fn, Choices(seed_of(pid, rec['seed'], i)))
        except HarnessError:
            pass
    if rec.get('tape') is not None:
        ch = Choices(tape=rec['tape'])
    else:
        ch = Choices(seed_of(pid, rec['seed'], rec['index']))
    w, v = execute(fn, ch)
    out = dict(kind=v.kind if v else None, detail=v.detail if v else None, digest=w.digest(), events=w.events)
    sys.stdout.write('REPLAY ' + json.dumps(out) + '\n')
    sys.stdout.flush()
    os._exit(0)


def digests(pid, seed, count, out, first=0):
    fn = registry.scenario(pid)
    rows = []
    for i in range(first, first + count):
        w, v = execute(fn, Choices(seed_of(pid, seed, i)))
        rows.append([i, w.digest(), v.kind if v else None])
        if v is not None:
            break
    write_json(out, rows)
    sys.stdout.flush()
    os._exit(0)


def main(argv):
    setup()
    if argv[0] == 'sweep':
        pid, seed, first, step, count, wall, outdir, name = argv[1:9]
        sweep(pid, int(seed), int(first), int(step), int(count), float(wall), outdir, name)
    elif argv[0] == 'minimise':
        minimise(argv[1], argv[2], float(argv[3]))
        os._exit(0)
    elif argv[0] == 'replay':
        replay(argv[1], argv[2])
    elif argv[0] == 'digests':
        digests(argv[1], int(argv[2]), int(argv[3]), argv[4], int(argv[5]) if len(argv) > 5 else 0)


if __name__ == '__main__':
    main(sys.argv[1:])
