#!/usr/bin/env python3
"""Executes a replay file in a fresh process.   usage: replay.py FILE

exit 1 with the VIOLATION line if the violation happens again, 0 if it does not.
"""
import json
import os
import shutil
import sys

import check


def main():
    path = os.path.abspath(sys.argv[1])
    with open(path) as f:
        rec = json.load(f)
    pid = rec['property']
    c = check.Check(pid, 'quick', rec['seed'], 1)
    try:
        if rec['kind'] == 'process-dependent':
            got = []
            for hs in ('1', '4242'):
                out = os.path.join(c.scratch, 'd' + hs)
                c.worker('digests', pid, rec['seed'], 1, out, rec['index'], hashseed=hs).wait()
                with open(out) as f:
                    got.append(json.load(f))
            again = dict(kind='process-dependent' if got[0] != got[1] else None, detail=str(got), digest='', events=[])
        else:
            again = c.replay(rec)
    finally:
        shutil.rmtree(c.scratch, True)
    for e in again.get('events') or []:
        print('   ', e)
    if again['kind'] is None:
        print(f'{pid}: no violation')
        return 0
    same = again['kind'] == rec['kind'] and again.get('digest', '') == rec['digest']
    print(f'{pid}: {again["kind"]}: {again["detail"]}')
    print('same violation and same event log as recorded' if same else 'differs from the recording')
    print(f'VIOLATION property={pid} replay={path}')
    return 1


if __name__ == '__main__':
    sys.exit(main())
