#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Runs under any Python 3; re-executes itself in lambeq's own environment with
every ambient source of nondeterminism pinned."""
import argparse
import importlib
import os
import sys

PY = '/opt/venv/bin/python'
PINNED = {
    'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
    'MPLBACKEND': 'Agg', 'HF_HUB_OFFLINE': '1', 'TRANSFORMERS_OFFLINE': '1',
    'CUDA_VISIBLE_DEVICES': '', 'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
    'TF_CPP_MIN_LOG_LEVEL': '3', 'JAX_PLATFORMS': 'cpu', 'LANG': 'C.UTF-8',
    'TZ': 'UTC', 'TOKENIZERS_PARALLELISM': 'false', 'PYTHONUTF8': '1',
    'NO_PROXY': '*', 'no_proxy': '*',
}


def fixed_addresses():
    """No address space randomisation, where that is allowed: the order of
    sets of objects depends on their addresses."""
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        libc.personality(libc.personality(0xffffffff) | 0x0040000)
    except Exception:
        pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--hashseed', default='0')
    args = ap.parse_args()
    want = dict(PINNED, PYTHONHASHSEED=args.hashseed)
    if os.environ.get('DST_CHILD') != '1':
        env = dict(os.environ, **want)
        env['DST_CHILD'] = '1'
        for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP'):
            env.pop(k, None)
        fixed_addresses()
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)
    here = os.path.dirname(os.path.abspath(__file__))
    os.chdir(here)
    sys.path.insert(0, here)
    from dst import boot
    boot.start()
    from dst import runner
    prop = importlib.import_module('dst.props.' + args.property.lower())
    if args.replay:
        sys.exit(runner.replay(prop, args.replay))
    sys.exit(runner.check(prop, args.tier, args.seed))


if __name__ == '__main__':
    main()
