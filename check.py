#!/usr/bin/env python3
"""Decides one property by seeded simulation.   usage: check.py PROPERTY [--tier quick|thorough]

exit 0: no violation in the runs made; 1: VIOLATION line printed; 2: error of the check.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('MELODIA_REPO', '/repo')
WALL = {'quick': 400.0, 'thorough': 3 * 3600.0}
STUCK = 400.0                   # wall seconds a worker may stay in one run
HASHSEED_RUNS = {'quick': 400, 'thorough': 4000}

from sim.registry import SCENARIOS, runs        # noqa: E402


def interpreter():
    for p in ('/opt/venv/bin/python', sys.executable, '/usr/bin/python3'):
        if p and os.path.exists(p):
            return p
    return 'python3'


def environment(scratch, hashseed='0'):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONPATH=HERE + ':' + os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pycache'), PYTHONHASHSEED=hashseed,
               MELODIA_SRC=os.path.join(REPO, 'src'), MELODIA_REPO=REPO, TMPDIR=scratch, PYTHONWARNINGS='ignore')
    return env


class Check:
    def __init__(self, pid, tier, seed, workers, count=None, wall=None):
        self.pid, self.tier, self.seed, self.workers = pid, tier, seed, workers
        self.count = count or runs(pid, tier)
        self.wall = wall or WALL[tier]
        self.scratch = tempfile.mkdtemp(prefix='melodia-sim-')
        self.started = time.monotonic()

    def worker(self, *args, hashseed='0', **kw):
        return subprocess.Popen([interpreter(), '-B', '-m', 'sim.worker', *map(str, args)], cwd=HERE,
                                env=environment(self.scratch, hashseed), **kw)

    # ------------------------------------------------------------ sweeping
    def sweep(self):
        """All runs, spread over the workers.  Returns the merged result."""
        shared = os.path.join(self.scratch, 'shared')
        with open(shared, 'wb') as f:
            f.write(b'\xff' * 7 + b'\x7f' + b'\0' * (8 * self.workers))
        procs = {}
        for k in range(self.workers):
            log = open(os.path.join(self.scratch, f'log-{k}'), 'wb')
            procs[k] = self.worker('sweep', self.pid, self.seed, k, self.workers, self.count, self.wall,
                                   self.scratch, k, stdout=log, stderr=log)
        merged = dict(runs=0, nontrivial=0, steps=0, draws=0, faults={}, probes={}, harness=[], violations=[],
                      samples=[], keys=set(), schedules=set(), cut=False, died=[])
        last = {k: (None, time.monotonic()) for k in procs}
        while procs:
            time.sleep(0.05)
            with open(shared, 'rb') as f:
                state = f.read()
            for k, p in list(procs.items()):
                current = int.from_bytes(state[8 + 8 * k:16 + 8 * k], 'little') - 1
                now = time.monotonic()
                if last[k][0] != current:
                    last[k] = (current, now)
                elif p.poll() is None and current >= 0 and now - last[k][1] > STUCK:
                    p.kill()
                    p.wait()
                if p.poll() is None:
                    continue
                del procs[k]
                path = os.path.join(self.scratch, f'result-{k}.json')
                if p.returncode == 0 and os.path.exists(path):
                    with open(path) as f:
                        r = json.load(f)
                    for n in ('runs', 'nontrivial', 'steps', 'draws'):
                        merged[n] += r[n]
                    for n in ('faults', 'probes'):
                        for a, b in r[n].items():
                            merged[n][a] = merged[n].get(a, 0) + b
                    for n in ('harness', 'violations', 'samples'):
                        merged[n] += r[n]
                    merged['keys'].update(r['keys'])
                    merged['schedules'].update(r['schedules'])
                    merged['cut'] |= r['cut']
                else:
                    with open(os.path.join(self.scratch, f'log-{k}'), 'rb') as f:
                        log = f.read()[-3000:].decode('utf-8', 'replace')
                    merged['died'].append((k, current, p.returncode, log))
        return merged

    # ------------------------------------------------------------ one run again
    def replay(self, rec, timeout=600):
        """Executes one record in a fresh process: (kind, digest, ...) or ('died', status)."""
        path = os.path.join(self.scratch, 'replay-in.json')
        with open(path, 'w') as f:
            json.dump(rec, f)
        p = self.worker('replay', self.pid, path, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return dict(kind='died', detail='no end', digest='')
        for line in out.decode('utf-8', 'replace').splitlines():
            if line.startswith('REPLAY '):
                return json.loads(line[7:])
        return dict(kind='died', detail=f'exit status {p.returncode}', digest='',
                    stderr=err.decode('utf-8', 'replace')[-2000:])

    def minimise(self, rec, seconds):
        path = os.path.join(self.scratch, 'min.json')
        with open(path, 'w') as f:
            json.dump(rec, f)
        p = self.worker('minimise', self.pid, path, seconds, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            p.communicate(timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
        with open(path) as f:
            return json.load(f)

    def with_history(self, v, seconds):
        """A violation that only happens after earlier runs of the same process:
        finds few earlier runs that suffice."""
        deadline = time.monotonic() + seconds
        first = v['index'] % self.workers
        history = list(range(first, v['index'], self.workers))

        def fails(h):
            got = self.replay(dict(v, tape=None, history=h), timeout=max(60, seconds))
            return got if got['kind'] == v['kind'] else None

        best = fails(history)
        if best is None:
            return None
        n = 1
        while n < len(history) and time.monotonic() < deadline:
            got = fails(history[-n:])
            if got:
                best, history = got, history[-n:]
                break
            n *= 4
        size = max(1, len(history) // 2)
        while time.monotonic() < deadline:
            i = 0
            while i < len(history) and time.monotonic() < deadline:
                h = history[:i] + history[i + size:]
                got = fails(h)
                if got:
                    best, history = got, h
                else:
                    i += size
            if size == 1:
                break
            size //= 2
        return dict(v, tape=None, history=history, detail=best['detail'], digest=best['digest'], events=best['events'])

    def hashseed_check(self, n):
        """The same runs in two processes that differ in hash randomisation."""
        outs, procs = [], []
        parts = 4
        for k in range(2 * parts):
            out = os.path.join(self.scratch, f'digests-{k}.json')
            outs.append(out)
            procs.append(self.worker('digests', self.pid, self.seed, n // parts, out, (k // 2) * (n // parts),
                                     hashseed=['1', '4242'][k % 2], stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL))
        for p in procs:
            p.wait()
        checked = 0
        for k in range(parts):
            rows = []
            for out in outs[2 * k:2 * k + 2]:
                if not os.path.exists(out):
                    return checked, None
                with open(out) as f:
                    rows.append(json.load(f))
            for a, b in zip(*rows):
                checked += 1
                if a != b:
                    return checked, a[0]
        return checked, None


def known_findings():
    """Open findings, as {(property, kind, detail substring)}; fixed entries suppress nothing."""
    path = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f).get('findings', []) if x.get('status') == 'open']


REAL = 'melodia (all modules involved, unmodified, imported from /repo/src)'
COMPONENTS = {
    'C01': ([REAL], ['output stream (SimWriter)']),
    'C02': ([REAL], ['output stream (SimWriter)']),
    'C03': ([REAL], ['output stream (SimWriter)']),
    'C04': ([REAL], ['disk below the output stream (SimWriter, crash image)', 'input stream (SimReader)']),
    'C05': ([REAL], ['output stream (SimWriter)', 'input stream (SimReader)']),
    'C06': ([REAL], ['input stream (SimReader)', 'MIDI files of other programs (generated)']),
    'C07': ([REAL], ['input stream (SimReader)', 'storage damage (generated)']),
    'C08': ([REAL], ['players and wire (generated)', 'input stream (SimReader)']),
    'C09': ([REAL], ['callers and iterables (generated)']),
    'C10': ([REAL], ['voices (simulated tasks)']),
    'C11': ([REAL], ['tasks holding iterators (simulated)']),
    'C12': ([REAL, 'Python threads (one at a time, parked and released by the simulator)'],
            ['thread scheduler', 'locks made through threading', 'streams', 'random number generator']),
    'C13': ([REAL, 'Python threads (one at a time, parked and released by the simulator)'],
            ['thread scheduler', 'locks made through threading', 'streams']),
    'C14': ([REAL], ['disk, process lifetime (crash and restart)', 'streams']),
    'C15': ([REAL, 'random (distributions)'], ['source of uniform random numbers below the random module']),
    'C16': (['scripts/generate_chords.py', 'melodia.music.chord', 'text and buffered layers of io'],
            ['raw file writes and close below them']),
    'C17': ([REAL], ['instants of interruption (signals, failing allocations)', 'callers and iterables (generated)',
                     'streams']),
    'C18': ([REAL, 'melodia.music.chord'], ['clients and their shared values (generated)', 'streams']),
    'C21': ([REAL], ['signal handlers', 'streams, iterables and source of random numbers that use the library themselves']),
    'C22': ([REAL], ['streams', 'disk below them', 'callers (generated)', 'source of uniform random numbers below the random module']),
    'C20': ([REAL, 'Python threads (one at a time, parked and released by the simulator)'],
            ['thread scheduler', 'signal handlers', 'locks made through threading', 'streams',
             'random number generator']),
    'C19': ([REAL, 'melodia.music.chord', 'Python threads (one at a time, parked and released by the simulator)'],
            ['thread scheduler', 'locks made through threading']),
}
RULE = ('one evaluation = one simulated run decided by the PRNG seeded with "<property>:<VERIF_SEED>:<run>"; '
        'non-trivial = the run injected at least one fault, preemption or interleaving (or, where the scenario says so, '
        'handled more than a trivial track); distinct = different event log (SHA-1 over all logged operations, stream '
        'calls, faults and switches)')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or os.cpu_count() or 4)
    ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
    ap.add_argument('--replays', default=os.path.join(HERE, 'replays'))
    args = ap.parse_args()
    tier = args.tier if args.tier in WALL else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if args.property not in SCENARIOS:
        print('unknown property', args.property)
        return 2
    c = Check(args.property, tier, seed, max(1, min(args.workers, 64)), args.runs, args.wall)
    try:
        return decide(c, args)
    finally:
        shutil.rmtree(c.scratch, True)


def decide(c, args):
    pid = c.pid
    print(f'{pid}: {c.count} runs, seed {c.seed}, tier {c.tier}, {c.workers} workers, code from {REPO}', flush=True)
    m = c.sweep()
    sweep_s = time.monotonic() - c.started
    violations = sorted(m['violations'], key=lambda v: v['index'])
    for k, index, status, log in m['died']:
        # a run that ends the process: the property is broken if it does so again
        if index is None or index < 0:
            m['harness'].append((-1, f'worker {k} ended with {status}:\n{log}'))
            continue
        rec = dict(property=pid, seed=c.seed, index=index, tape=None)
        again = c.replay(rec)
        if again['kind'] == 'died':
            rec.update(kind='died', detail=f'the run ended its process ({again["detail"]})', digest='', events=[])
            violations.append(rec)
        elif again['kind'] is not None:
            rec.update(kind=again['kind'], detail=again['detail'], digest=again['digest'], events=again['events'])
            violations.append(rec)
        else:
            m['harness'].append((index, f'worker {k} ended with {status}, which does not repeat:\n{log}'))
    hash_runs = 0
    if pid == 'C10' and not violations:
        hash_runs, bad = c.hashseed_check(HASHSEED_RUNS[c.tier])
        if bad is not None:
            violations.append(dict(property=pid, seed=c.seed, index=bad, kind='process-dependent', tape=None, digest='',
                                   events=[], detail='the run ends differently in processes with another hash seed'))
    findings = known_findings()
    reported = []
    for v in violations:
        known = [f for f in findings if f['property'] == pid and f['kind'] == v['kind'] and f['match'] in v['detail']]
        if known:
            print(f'KNOWN-FINDING: property={pid} {known[0]["what"]}')
        else:
            reported.append(v)
    code = 0
    if reported:
        v = reported[0]
        if v.get('tape') is not None and not (v['kind'] == 'endless' and 'CPU' in v['detail']):
            v = c.minimise(v, 60 if c.tier == 'quick' else 300)
        exact = None
        if v['kind'] != 'process-dependent':
            again = c.replay(v)
            exact = again['kind'] == v['kind'] and again.get('digest', '') == v['digest']
            if not exact and v['kind'] != 'died':
                longer = c.with_history(v, 60 if c.tier == 'quick' else 600)
                if longer is not None:
                    v = longer
                    again = c.replay(v)
                    exact = again['kind'] == v['kind'] and again.get('digest', '') == v['digest']
        v['replays_exactly'] = exact
        os.makedirs(args.replays, exist_ok=True)
        path = os.path.join(args.replays, f'{pid}-{v["kind"]}-{v["seed"]}-{v["index"]}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print(f'{pid}: {v["kind"]}: {v["detail"]}')
        how = f'{len(v["tape"])} choices after minimising (from {v.get("original_choices", "?")})' if v.get('tape') \
            else f'after {len(v["history"])} earlier runs in the process' if v.get('history') else 'whole run'
        print(f'{pid}: run {pid}:{v["seed"]}:{v["index"]}, {how}, fresh process reproduces it: {exact}')
        for e in v['events'][-25:]:
            print('   ', str(e)[:200])
        print(f'VIOLATION property={pid} replay={path}')
        code = 1
    elif m['harness']:
        for i, text in m['harness'][:3]:
            print(f'ERROR of the check in run {i}:\n{text}')
        code = 2
    elif not m['runs']:
        print('ERROR: no runs were made')
        code = 2
    wall = time.monotonic() - c.started
    real, stubs = COMPONENTS[pid]
    evidence = dict(
        property=pid, tier=c.tier, seed=c.seed, level='exploration',
        coverage=dict(
            evaluations=m['runs'], distinct_nontrivial=len(m['keys']), rule=RULE, samples=m['samples'][:3],
            nontrivial_runs=m['nontrivial'],
            runs_per_hour=int(m['runs'] / max(sweep_s, 1e-3) * 3600),
            seeds_per_hour=int(m['runs'] / max(sweep_s, 1e-3) * 3600),
            simulated_time='no clock or timer in the code; logical steps (calls, stream operations, scheduling events): '
                           + str(m['steps']),
            logical_steps=m['steps'], recorded_choices=m['draws'],
            faults_injected=dict(sorted(m['faults'].items())), probes=dict(sorted(m['probes'].items())),
            distinct_schedules=len(m['schedules']),
            distinct_schedules_measure='distinct switch sequences (from, to, function) or scenario shapes',
            processes_compared_runs=hash_runs,
            planned_runs=c.count, cut_by_wall_clock=m['cut'], components_real=real, components_stubbed=stubs),
        assumptions=['sampling, not enumeration: a clean batch is evidence, not proof',
                     'the reference models in /verif/sim (gen.py, smf.py, wire.py) state the property correctly',
                     'CPython 3.12 semantics; preemption only at lines or instructions of melodia and at stream calls'],
        wall_s=round(wall, 2), violations=len(reported))
    os.makedirs(args.evidence, exist_ok=True)
    tmp = os.path.join(args.evidence, f'.{pid}.tmp')
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(args.evidence, f'{pid}.json'))
    print(f'{pid}: {m["runs"]} runs ({len(m["keys"])} distinct non-trivial) in {wall:.1f} s, '
          f'{sum(m["faults"].values())} faults, exit {code}')
    return code


if __name__ == '__main__':
    sys.exit(main())
