"""A separate interpreter with its own hash seed: simulated processes whose
identity matters (string hashing, pickling across processes) run here."""
import importlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spawn(func, arg, hashseed):
    """func: 'module:function' taking and returning JSON values."""
    import check
    env = dict(os.environ, **check.PINNED)
    env.update(DST_CHILD='1', PYTHONHASHSEED=str(hashseed))
    p = subprocess.Popen(
        [check.PY, os.path.join(HERE, 'dst', 'child.py'), func],
        env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
        stderr=subprocess.PIPE, cwd=HERE)
    p.stdin.write(json.dumps(arg).encode())
    p.stdin.close()
    return p


def collect(p):
    out = p.stdout.read()
    err = p.stderr.read()
    p.wait()
    mark = out.rfind(b'\n@@RESULT ')
    if mark < 0:
        from dst.core import HarnessError
        raise HarnessError('child failed: ' + err.decode()[-1500:])
    return json.loads(out[mark + 10:])


def main():
    sys.path.insert(0, HERE)
    sys.path.remove(os.path.join(HERE, 'dst')) if os.path.join(
        HERE, 'dst') in sys.path else None
    from dst import boot
    boot.start()
    mod, fn = sys.argv[1].split(':')
    arg = json.loads(sys.stdin.read())
    res = getattr(importlib.import_module(mod), fn)(arg)
    sys.stdout.flush()
    print('\n@@RESULT ' + json.dumps(res))


if __name__ == '__main__':
    main()
