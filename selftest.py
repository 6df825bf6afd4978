#!/usr/bin/env python3
"""Self-test of the simulator.

  --setup         quick sanity: the worker starts and one run of every scenario works
  --determinism   same seeds in many processes, with other worker counts and hash seeds; event logs must be equal
"""
import argparse
import json
import os
import shutil
import subprocess
import sys

import check


def digests(pid, seed, first, count, hashseeds):
    c = check.Check(pid, 'quick', seed, 1)
    try:
        procs = []
        for k, hs in enumerate(hashseeds):
            out = os.path.join(c.scratch, f'd{k}')
            procs.append((out, c.worker('digests', pid, seed, count, out, first, hashseed=hs,
                                        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        rows = []
        for out, p in procs:
            _, err = p.communicate()
            if not os.path.exists(out):
                print(err.decode()[-2000:])
                return None
            with open(out) as f:
                rows.append(json.load(f))
        return rows
    finally:
        shutil.rmtree(c.scratch, True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--determinism', action='store_true')
    ap.add_argument('--count', type=int, default=300)
    ap.add_argument('--seeds', type=int, default=3)
    args = ap.parse_args()
    bad = 0
    if args.setup:
        for pid in check.SCENARIOS:
            rows = digests(pid, 0, 0, 3, ['0'])
            if rows is None:
                print(pid, 'does not run')
                bad += 1
        print('setup', 'failed' if bad else 'ok')
        # a broken tree is for the checks to report
        return 0
    if args.determinism:
        for pid in check.SCENARIOS:
            total = diff = 0
            for seed in range(100, 100 + args.seeds):
                # whole range in six processes, and in two halves (other history within the process)
                rows = digests(pid, seed, 0, args.count, ['0', '0', '1', '2', '77', 'random'])
                half = digests(pid, seed, args.count // 2, args.count - args.count // 2, ['0', 'random'])
                if rows is None or half is None:
                    bad += 1
                    continue
                for other in rows[1:]:
                    total += len(other)
                    diff += sum(a != b for a, b in zip(rows[0], other))
                for other in half:
                    total += len(other)
                    diff += sum(a != b for a, b in zip(rows[0][args.count // 2:], other))
            print(f'{pid}: {total} repeated runs, {diff} with another event log', flush=True)
            bad += diff
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
