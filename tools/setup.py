"""Nothing is compiled; checks that the environment can run the simulator."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

env = dict(os.environ, DST_CHILD='1', **check.PINNED)
sys.exit(subprocess.run(
    [check.PY, '-c', 'import sys; sys.path.insert(0, ".");'
     'from dst import boot; boot.start(); from dst import runner, train'],
    cwd=HERE, env=env).returncode)
