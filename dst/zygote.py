"""Simulated processes: interpreters with chosen hash seeds that fork a fresh
child for every request, so that no request sees what another left behind."""
import atexit
import importlib
import json
import os
import select
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = 120


class Pool:
    """One server per hash seed, for functions of one module."""

    def __init__(self, module, seeds):
        import check
        self.pid = os.getpid()
        self.root = tempfile.mkdtemp(prefix='dst-zygote-')
        self.procs = []
        atexit.register(self.close)
        for s in seeds:
            env = dict(os.environ, **check.PINNED)
            env.update(DST_CHILD='1', PYTHONHASHSEED=str(s))
            self.procs.append(subprocess.Popen(
                [check.PY, os.path.join(HERE, 'dst', 'zygote.py'), module,
                 self.path(s)], env=env, stdin=subprocess.PIPE,
                stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(self.root, f'err{s}'), 'wb'),
                cwd=HERE))
        for p, s in zip(self.procs, seeds):
            while not os.path.exists(self.path(s)):
                if p.poll() is not None:
                    from dst.core import HarnessError
                    with open(os.path.join(self.root, f'err{s}')) as f:
                        raise HarnessError('server failed: '
                                           + f.read()[-1500:])
                time.sleep(0.05)

    def path(self, s):
        return os.path.join(self.root, str(s))

    def close(self):
        if os.getpid() != self.pid:
            return
        for p in self.procs:
            p.stdin.close()
            p.kill()
            p.wait()
        shutil.rmtree(self.root, ignore_errors=True)

    def ask(self, seed, func, arg):
        """Start a request; call the result to get the answer."""
        c = socket.socket(socket.AF_UNIX)
        c.settimeout(LIMIT + 10)
        c.connect(self.path(seed))
        c.sendall(json.dumps([func, arg]).encode() + b'\n')

        def answer():
            data = b''
            while True:
                x = c.recv(1 << 16)
                if not x:
                    break
                data += x
            c.close()
            if not data.endswith(b'\n'):
                from dst.core import HarnessError
                raise HarnessError('a simulated process died')
            out = json.loads(data)
            if isinstance(out, dict) and 'harness_error' in out:
                from dst.core import HarnessError
                raise HarnessError(out['harness_error'])
            return out
        return answer


def serve(module, path):
    mod = importlib.import_module(module)
    if hasattr(mod, 'warm'):
        mod.warm()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path + '.new')
    s.listen(64)
    os.rename(path + '.new', path)
    while True:
        ready, _, _ = select.select([s, sys.stdin], [], [])
        if sys.stdin in ready:
            return
        c, _ = s.accept()
        if os.fork():
            c.close()
            continue
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        signal.alarm(LIMIT)
        try:
            f = c.makefile('rb')
            func, arg = json.loads(f.readline())
            out = getattr(mod, func)(arg)
            c.sendall(json.dumps(out).encode() + b'\n')
        except BaseException:
            c.sendall(json.dumps({'harness_error': traceback.format_exc()[
                -1500:]}).encode() + b'\n')
        finally:
            os._exit(0)


def main():
    sys.path.insert(0, HERE)
    d = os.path.join(HERE, 'dst')
    if d in sys.path:
        sys.path.remove(d)
    from dst import boot
    boot.start()
    serve(sys.argv[1], sys.argv[2])


if __name__ == '__main__':
    main()
