"""Installs the seams and imports lambeq from /repo's working tree."""
import os
import sys
import types
import warnings

REPO = os.environ.get('DST_REPO', '/repo')


def start():
    from dst import seams
    seams.install()
    warnings.filterwarnings('ignore')
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, 'lambeq', 'version.py')):
        m = types.ModuleType('lambeq.version')
        m.version = m.__version__ = '0.5.0'
        m.version_tuple = m.__version_tuple__ = (0, 5, 0)
        sys.modules['lambeq.version'] = m
    from dst import sched
    sched.install()
    import lambeq
    got = os.path.realpath(os.path.dirname(lambeq.__file__))
    if got != os.path.realpath(os.path.join(REPO, 'lambeq')):
        print(f'lambeq imported from {got}', file=sys.stderr)
        sys.exit(3)
    import torch
    torch.set_num_threads(1)
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    mods = [m for n, m in list(sys.modules.items())
            if n.startswith('lambeq') and m is not None]
    seams.patch_datetime_in(mods)
