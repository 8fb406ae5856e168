#!/usr/bin/env python3
"""selftest.py [-n RUNS] [PROPERTY...]: is the simulator deterministic?

Runs each check twice, in a scratch copy, with other numbers of workers; the
X
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=64)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('props', nargs='*')
    args = ap.parse_args()
    props = args.props or sorted(
        os.path.basename(p)[:-3].upper()
        for p in glob.glob(os.path.join(HERE, 'dst', 'props', 'p??.py')))
    root = tempfile.mkdtemp(prefix='dst-selftest-')
    bad = 0
    try:
        work = os.path.join(root, 'v')
        shutil.copytree(HERE, work, ignore=shutil.ignore_patterns(
            '.git', 'evidence', 'seeded', '__pycache__', 'replays'))
        for p in props:
            seen = []
            for workers in (8, 3):
                r = subprocess.run(
                    [sys.executable, 'check.py', p, '--seed', str(args.seed)],
                    cwd=work, capture_output=True, text=True,
                    env=dict(os.environ, DST_RUNS=str(args.n),
                             DST_WORKERS=str(workers)))
                with open(os.path.join(work, 'evidence', p + '.json')) as f:
                    cov = json.load(f)['coverage']
                seen.append((r.returncode, cov['evaluations'],
                             cov['execution_digest']))
            ok = len(set(seen)) == 1 and seen[0][0] == 0
            bad += not ok
            print(p, 'ok' if ok else 'DIFFERS', *map(str, sorted(set(seen))),
                  flush=True)
    finally:
        shutil.rmtree(root)
    sys.exit(bool(bad))


if __name__ == '__main__':
    main()
