"""Process-wide seams, installed once before lambeq is imported.

Every seam dispatches to the active simulation object (disk, clock, network)
and passes straight through to the real function when none is active or the
path is outside the simulated root, so nothing outside a scratch directory is
ever touched by a simulated fault.
"""
from __future__ import annotations

import builtins
import errno
import io
import os
import shutil
import tarfile
import time
from types import SimpleNamespace

from dst.core import SimKill

real = SimpleNamespace(
    open=builtins.open, os_open=os.open, os_write=os.write, os_close=os.close,
    os_read=os.read, fsync=os.fsync, fdatasync=os.fdatasync, replace=os.replace,
    rename=os.rename, unlink=os.unlink, remove=os.remove, rmdir=os.rmdir,
    mkdir=os.mkdir, truncate=os.truncate, ftruncate=os.ftruncate,
    link=os.link, symlink=os.symlink,
    time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
    time_ns=time.time_ns, monotonic_ns=time.monotonic_ns,
    perf_counter_ns=time.perf_counter_ns, sleep=time.sleep,
    process_time=time.process_time, thread_time=time.thread_time)

DISK = None
CLOCK = None
_fds: dict[int, tuple] = {}          # fd -> (disk, path, inode)
_installed = False


# ----------------------------------------------------------------- disk
class Inode:
    __slots__ = ('durable', 'trunc', 'dirty', 'stash')

    def __init__(self, durable=None):
        self.durable = durable       # content as of the last sync, or None
        self.trunc = False           # truncated since then
        self.dirty = durable is None
        self.stash = None            # volatile content once unlinked


class SimDisk:
    """Everything under ``root``.  The real files there are the volatile
    (page cache) state; the object tracks what is durable, counts mutating
    and reading steps and injects the planned fault at the planned step.

    plan:  {step: [kind, arg]} on mutating steps, kinds
           crash | torn | enospc | enospc_sticky | eio | short
    rplan: {step: kind} on reading steps: eio | short | open_eio | open_eacces
    """

    def __init__(self, root, plan=None, rplan=None, ctx=None):
        self.root = os.path.realpath(root)
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.rplan = {int(k): v for k, v in (rplan or {}).items()}
        self.ctx = ctx
        self.n = 0
        self.rn = 0
        self.frozen = False
        self.sticky = None
        self.trace: list = []
        self.fired: list = []
        self.hook = None             # called on every step (scheduler)
        self.base: dict = {}
        self.tree: dict = {}
        self.journal: list = []
        self._scan()

    # -- lifecycle
    def __enter__(self):
        global DISK
        if DISK is not None:
            raise RuntimeError('a simulated disk is already active')
        DISK = self
        return self

    def __exit__(self, *exc):
        global DISK
        DISK = None
        return False

    def _scan(self):
        self.tree = {}
        for d, dirs, files in os.walk(self.root):
            for x in dirs:
                self.tree[os.path.join(d, x)] = 'd'
            for x in files:
                p = os.path.join(d, x)
                with real.open(p, 'rb') as f:
                    self.tree[p] = Inode(f.read())
        self.base = dict(self.tree)
        self.journal = []

    def owns(self, path) -> bool:
        return path == self.root or path.startswith(self.root + os.sep)

    def kill(self):
        self.frozen = True

    def heal(self):
        self.sticky = None
        self.plan = {}
        self.rplan = {}

    def _fire(self, kind):
        self.fired.append(kind)
        if self.ctx is not None:
            self.ctx.fault('disk_' + kind)

    # -- steps
    def step(self, op, path, size=0):
        """Returns None (perform the operation), or ('partial', n)."""
        if self.frozen:
            raise SimKill('disk is frozen')
        if self.hook is not None:
            self.hook(op, path)
        k = self.n
        self.n += 1
        self.trace.append((op, os.path.relpath(path, self.root), size))
        fault = self.plan.pop(k, None)
        if fault is None:
            if self.sticky and op in ('write', 'create', 'mkdir', 'trunc'):
                if op == 'trunc':
                    return None
                raise OSError(self.sticky, os.strerror(self.sticky), path)
            return None
        kind, arg = (fault if isinstance(fault, (list, tuple))
                     else (fault, 0.5))
        if kind == 'crash':
            self._fire('crash')
            self.kill()
            raise SimKill(f'killed before {op}')
        if kind == 'torn':
            self._fire('torn_write' if op == 'write' else 'crash')
            if op == 'write':
                return ('torn', int(size * arg))
            self.kill()
            raise SimKill(f'killed before {op}')
        if kind == 'crash_after':
            self._fire('crash')
            return ('after', 0)
        if kind in ('enospc', 'enospc_sticky', 'edquot'):
            no = errno.EDQUOT if kind == 'edquot' else errno.ENOSPC
            if op in ('write', 'create', 'mkdir', 'rename', 'fsync', 'close'):
                if kind == 'enospc_sticky':
                    self.sticky = no
                self._fire(kind)
                if op == 'write':
                    return ('fail', int(size * arg), no)
                raise OSError(no, os.strerror(no), path)
            return None
        if kind == 'eio':
            self._fire('eio')
            raise OSError(errno.EIO, os.strerror(errno.EIO), path)
        if kind == 'eacces':
            if op in ('create', 'trunc', 'mkdir', 'rename', 'unlink'):
                self._fire('eacces')
                raise PermissionError(errno.EACCES,
                                      os.strerror(errno.EACCES), path)
            return None
        if kind == 'emfile':
            if op in ('create', 'trunc', 'openw'):
                self._fire('emfile')
                raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), path)
            return None
        if kind == 'short':
            if op == 'write' and size > 1:
                self._fire('short_write')
                return ('short', max(1, int(size * arg)))
            return None
        raise ValueError(kind)

    def rstep(self, op, path):
        if self.frozen:
            raise SimKill('disk is frozen')
        if self.hook is not None:
            self.hook(op, path)
        k = self.rn
        self.rn += 1
        kind = self.rplan.pop(k, None)
        if kind is None:
            return None
        if kind == 'short':
            if op == 'open':
                return None
            self._fire('short_read')
            return 'short'
        if kind == 'eacces' and op == 'open':
            self._fire('read_eacces')
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), path)
        self._fire('read_eio')
        raise OSError(errno.EIO, os.strerror(errno.EIO), path)

    # -- durability model
    def log(self, *op):
        self.journal.append(op)

    def _apply(self, tree, op):
        k = op[0]
        if k == 'create':
            tree[op[1]] = op[2]
        elif k == 'mkdir':
            tree[op[1]] = 'd'
        elif k in ('unlink', 'rmdir'):
            tree.pop(op[1], None)
        elif k == 'rename':
            src, dst = op[1], op[2]
            for p in list(tree):
                if p == src or p.startswith(src + os.sep):
                    tree[dst + p[len(src):]] = tree.pop(p)
        elif k == 'link':
            tree[op[2]] = tree.get(op[1])

    def did(self, *op):
        """A metadata operation took effect in the volatile state."""
        self._apply(self.tree, op)
        self.journal.append(op)

    def commit(self):
        for op in self.journal:
            self._apply(self.base, op)
            if op[0] == 'trunc':
                op[1].durable = op[1].durable and b''
        self.journal = []

    def sync_inode(self, inode, content):
        self.commit()
        inode.durable = content
        inode.dirty = False
        inode.trunc = False

    def inode_at(self, path):
        return self.tree.get(path)

    def after_crash(self, loss=None):
        """Rewrite the scratch directory to what survives.

        loss None: process kill, the page cache survives.  Otherwise
        {'meta': m, 'data': d} in [0, 1]: power loss; only the first m of
        the pending metadata operations are durable, and of every unsynced
        file only the first d of its bytes."""
        if loss is None:
            return
        content = {}
        for p, ino in self.tree.items():
            if ino != 'd' and os.path.isfile(p):
                with real.open(p, 'rb') as f:
                    content[id(ino)] = f.read()
        k = int(round(len(self.journal) * loss['meta']))
        tree = dict(self.base)
        truncated = set()
        for op in self.journal[:k]:
            self._apply(tree, op)
            if op[0] == 'trunc':
                truncated.add(id(op[1]))
        final = {}
        for p, ino in tree.items():
            if ino == 'd':
                final[p] = None
                continue
            if not ino.dirty:
                data = ino.durable
            elif ino.durable is not None and id(ino) not in truncated \
                    and not (ino.durable == b'' and ino.trunc):
                data = ino.durable
            else:
                cur = content.get(id(ino), ino.stash or b'')
                data = cur[:int(len(cur) * loss['data'])]
            final[p] = data if data is not None else b''
        for d, dirs, files in os.walk(self.root, topdown=False):
            for x in files:
                real.unlink(os.path.join(d, x))
            for x in dirs:
                q = os.path.join(d, x)
                if os.path.islink(q):
                    real.unlink(q)
                else:
                    real.rmdir(q)
        for p in sorted(final):
            if final[p] is None:
                os.path.isdir(p) or _makedirs(p)
        for p in sorted(final):
            if final[p] is not None:
                _makedirs(os.path.dirname(p))
                with real.open(p, 'wb') as f:
                    f.write(final[p])


def _makedirs(p):
    if not os.path.isdir(p):
        _makedirs(os.path.dirname(p))
        real.mkdir(p)


def _abs(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    p = os.path.abspath(p)
    return os.path.join(os.path.realpath(os.path.dirname(p)),
                        os.path.basename(p))


def _disk_for(path, dir_fd=None):
    """(disk, absolute path) when path is under the active root."""
    d = DISK
    if d is None or isinstance(path, int) or dir_fd is not None:
        return None, None
    try:
        p = _abs(path)
    except (TypeError, ValueError):
        return None, None
    return (d, p) if d.owns(p) else (None, None)


def _crash_now(disk, why):
    disk.kill()
    raise SimKill(why)


class SimRaw(io.FileIO):
    """A raw file on the simulated disk."""

    def __init__(self, disk, file, mode, closefd=True, opener=None, path=None,
                 inode=None):
        self._d = disk
        self._p = path
        self._ino = inode
        self._w = any(c in mode for c in 'wax+')
        super().__init__(file, mode, closefd=closefd, opener=opener)
        _fds[self.fileno()] = (disk, path, inode)

    def _mark(self):
        if self._ino is not None and self._ino != 'd':
            self._ino.dirty = True

    def write(self, b):
        mv = memoryview(b).cast('B')
        return _do_write(self._d, self._p, self._ino, mv,
                         lambda x: io.FileIO.write(self, x))

    def truncate(self, size=None):
        act = self._d.step('trunc', self._p)
        r = super().truncate(size)
        self._mark()
        if self._ino is not None:
            self._ino.trunc = True
            self._d.log('trunc', self._ino)
        if act and act[0] == 'after':
            _crash_now(self._d, 'killed after truncate')
        return r

    def readinto(self, b):
        act = self._d.rstep('read', self._p)
        if act == 'short':
            mv = memoryview(b).cast('B')
            return super().readinto(mv[:max(1, len(mv) // 2)])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        act = self._d.rstep('read', self._p)
        if act == 'short' and size > 1:
            size = max(1, size // 2)
        return super().read(size)

    def readall(self):
        self._d.rstep('read', self._p)
        return super().readall()

    def close(self):
        if not self.closed:
            try:
                _fds.pop(self.fileno(), None)
            except (ValueError, OSError):
                pass
        super().close()


def _do_write(disk, path, inode, mv, writer):
    size = len(mv)
    act = disk.step('write', path, size)
    if inode is not None and inode != 'd':
        inode.dirty = True
    if act is None:
        return writer(mv)
    if act[0] == 'after':
        writer(mv)
        _crash_now(disk, 'killed after write')
    if act[0] == 'torn':
        if act[1]:
            writer(mv[:act[1]])
        _crash_now(disk, 'killed during write')
    if act[0] == 'fail':
        if act[1]:
            writer(mv[:act[1]])
        raise OSError(act[2], os.strerror(act[2]), path)
    if act[0] == 'short':
        return writer(mv[:act[1]])
    raise AssertionError(act)


def _prepare_write(disk, path, creating, truncating, exclusive):
    """Create/truncate step for an open for writing.  Returns
    (inode, crash_after)."""
    exists = os.path.lexists(path)
    act = None
    if exists and exclusive:
        return disk.inode_at(path), False     # real open raises FileExistsError
    if not exists and creating:
        if os.path.isdir(os.path.dirname(path)):
            act = disk.step('create', path)
        return None, bool(act and act[0] == 'after')
    if exists and truncating and not os.path.isdir(path):
        act = disk.step('trunc', path)
        return disk.inode_at(path), bool(act and act[0] == 'after')
    if exists:
        act = disk.step('openw', path)
    return disk.inode_at(path), bool(act and act[0] == 'after')


def _finish_write(disk, path, inode, existed, truncating):
    if not existed:
        inode = Inode()
        disk.did('create', path, inode)
    elif truncating and inode is not None and inode != 'd':
        inode.dirty = True
        inode.trunc = True
        disk.log('trunc', inode)
    return inode


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if isinstance(file, int) and not isinstance(file, bool):
        ent = _fds.get(file)
        if ent is None or ent[0] is not DISK:
            return real.open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
        disk, path, inode = ent
    else:
        disk, path = _disk_for(file)
        inode = None
        if disk is None:
            return real.open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    modes = set(mode)
    text = 't' in modes or 'b' not in modes
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    if text is False and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if sum(c in raw_mode for c in 'rwax') != 1:
        return real.open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    writing = any(c in raw_mode for c in 'wax+')
    if isinstance(file, int):
        raw = SimRaw(disk, file, raw_mode, closefd=closefd, path=path,
                     inode=inode)
    elif opener is not None:
        raw = SimRaw(disk, file, raw_mode, closefd=closefd, opener=opener,
                     path=path)
        ent = None
        ino = disk.inode_at(path)
        raw._ino = ino
        _fds[raw.fileno()] = (disk, path, ino)
    else:
        after = False
        if writing:
            existed = os.path.lexists(path)
            trunc = 'w' in raw_mode
            inode, after = _prepare_write(
                disk, path, creating=raw_mode[0] in 'wax', truncating=trunc,
                exclusive='x' in raw_mode)
        else:
            if os.path.exists(path):
                disk.rstep('open', path)
            elif disk.frozen:
                raise SimKill('disk is frozen')
            inode = disk.inode_at(path)
        raw = SimRaw(disk, file, raw_mode, closefd=closefd, path=path,
                     inode=inode)
        if writing:
            inode = _finish_write(disk, path, inode, existed,
                                  'w' in raw_mode)
            raw._ino = inode
            _fds[raw.fileno()] = (disk, path, inode)
            if after:
                _crash_now(disk, 'killed after open')
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = False
    if buffering == 1:
        buffering = -1
        line_buffering = True
    if buffering < 0:
        buffering = io.DEFAULT_BUFFER_SIZE
    if '+' in raw_mode:
        buf = io.BufferedRandom(raw, buffering)
    elif writing:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if not text:
        return buf
    wrapper = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                               line_buffering)
    wrapper.mode = mode
    return wrapper


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    disk, p = _disk_for(path, dir_fd)
    if disk is None:
        return real.os_open(path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR)
    if not writing:
        if disk.frozen:
            raise SimKill('disk is frozen')
        fd = real.os_open(path, flags, mode)
        _fds[fd] = (disk, p, disk.inode_at(p))
        return fd
    existed = os.path.lexists(p)
    inode, after = _prepare_write(disk, p, bool(flags & os.O_CREAT),
                                  bool(flags & os.O_TRUNC),
                                  bool(flags & os.O_EXCL))
    fd = real.os_open(path, flags, mode)
    inode = _finish_write(disk, p, inode, existed, bool(flags & os.O_TRUNC))
    _fds[fd] = (disk, p, inode)
    if after:
        _crash_now(disk, 'killed after open')
    return fd


def sim_os_write(fd, data):
    ent = _fds.get(fd)
    if ent is None or ent[0] is not DISK:
        return real.os_write(fd, data)
    disk, path, inode = ent
    return _do_write(disk, path, inode, memoryview(data).cast('B'),
                     lambda x: real.os_write(fd, x))


def sim_os_close(fd):
    _fds.pop(fd, None)
    return real.os_close(fd)


def _sim_sync(real_fn):
    def f(fd):
        n = fd if isinstance(fd, int) else fd.fileno()
        ent = _fds.get(n)
        if ent is None or ent[0] is not DISK:
            return real_fn(fd)
        disk, path, inode = ent
        act = disk.step('fsync', path)
        if inode is None or inode == 'd':
            disk.commit()
        else:
            pos = os.lseek(n, 0, os.SEEK_CUR)
            os.lseek(n, 0, os.SEEK_SET)
            try:
                chunks = []
                while True:
                    try:
                        c = real.os_read(n, 1 << 20)
                    except OSError:          # write-only descriptor
                        chunks = None
                        break
                    if not c:
                        break
                    chunks.append(c)
            finally:
                os.lseek(n, pos, os.SEEK_SET)
            if chunks is None:
                with real.open(f'/proc/self/fd/{n}', 'rb') as g:
                    content = g.read()
            else:
                content = b''.join(chunks)
            disk.sync_inode(inode, content)
        if act and act[0] == 'after':
            _crash_now(disk, 'killed after fsync')
    return f


def _stash(disk, p):
    ino = disk.inode_at(p)
    if isinstance(ino, Inode) and os.path.isfile(p):
        with real.open(p, 'rb') as f:
            ino.stash = f.read()


def _sim_rename(real_fn):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        d1, p1 = _disk_for(src, src_dir_fd)
        d2, p2 = _disk_for(dst, dst_dir_fd)
        disk = d1 or d2
        if disk is None:
            return real_fn(src, dst, src_dir_fd=src_dir_fd,
                           dst_dir_fd=dst_dir_fd)
        act = disk.step('rename', p2 or p1)
        if d2 is not None:
            _stash(disk, p2)
        if d1 is not None and d2 is None:
            _stash(disk, p1)
        r = real_fn(src, dst)
        if d1 is not None and d2 is not None:
            disk.did('rename', p1, p2)
        elif d1 is not None:
            disk.did('unlink', p1)
        else:
            ino = Inode()
            disk.did('create', p2, 'd' if os.path.isdir(p2) else ino)
        if act and act[0] == 'after':
            _crash_now(disk, 'killed after rename')
        return r
    return f


def _sim_path_op(name, real_fn):
    def f(path, *args, dir_fd=None, **kw):
        disk, p = _disk_for(path, dir_fd)
        if disk is None:
            if dir_fd is not None:
                kw['dir_fd'] = dir_fd
            return real_fn(path, *args, **kw)
        if name == 'mkdir' and os.path.lexists(p):
            return real_fn(path, *args, **kw)
        if name != 'mkdir' and not os.path.lexists(p):
            if disk.frozen:
                raise SimKill('disk is frozen')
            return real_fn(path, *args, **kw)
        act = disk.step(name, p)
        if name == 'unlink':
            _stash(disk, p)
        r = real_fn(path, *args, **kw)
        disk.did(name, p)
        if act and act[0] == 'after':
            _crash_now(disk, f'killed after {name}')
        return r
    return f


def sim_truncate(path, length):
    ent = _fds.get(path) if isinstance(path, int) else None
    if ent is not None and ent[0] is DISK:
        disk, p, inode = ent
    else:
        disk, p = _disk_for(path)
        inode = disk.inode_at(p) if disk else None
    if disk is None:
        return real.truncate(path, length)
    disk.step('trunc', p)
    r = real.truncate(path, length)
    if isinstance(inode, Inode):
        inode.dirty = inode.trunc = True
        disk.log('trunc', inode)
    return r


# ----------------------------------------------------------------- clock
class SimClock:
    """Virtual time.  ``tick`` advances both clocks, ``jump`` steps only the
    wall clock, as an NTP step or an administrator does."""

    def __init__(self, ctx=None, start=1_700_000_000.0):
        self.mono = 1000.0
        self.wall = start
        self.ctx = ctx

    def __enter__(self):
        global CLOCK
        CLOCK = self
        return self

    def __exit__(self, *exc):
        global CLOCK
        CLOCK = None
        return False

    def tick(self, dt):
        self.mono += dt
        self.wall += dt
        if self.ctx is not None:
            self.ctx.sim_time += dt

    def jump(self, dt):
        self.wall += dt
        if self.ctx is not None:
            self.ctx.fault('clock_jump_back' if dt < 0
                           else 'clock_jump_forward')


def _clock_fn(name, attr, scale):
    real_fn = getattr(real, name)

    def f():
        c = CLOCK
        if c is None:
            return real_fn()
        v = getattr(c, attr)
        return int(v * 1e9) if scale else v
    f.__name__ = name
    return f


def _sim_sleep(secs):
    c = CLOCK
    if c is None:
        return real.sleep(secs)
    c.tick(secs)


def patch_datetime_in(modules):
    """Replace `datetime` imported into the given modules by one that reads
    the virtual clock."""
    import datetime as dt

    class SimDateTime(dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), dt.timezone.utc).replace(
                tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    for m in modules:
        if getattr(m, 'datetime', None) is dt.datetime:
            m.datetime = SimDateTime


class bypass:
    """Inspect the real files without the simulation noticing."""

    def __enter__(self):
        global DISK, CLOCK
        self.saved = DISK, CLOCK
        DISK = CLOCK = None

    def __exit__(self, *exc):
        global DISK, CLOCK
        DISK, CLOCK = self.saved
        return False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.open = sim_os_open
    os.write = sim_os_write
    os.close = sim_os_close
    os.fsync = _sim_sync(real.fsync)
    os.fdatasync = _sim_sync(real.fdatasync)
    os.replace = _sim_rename(real.replace)
    os.rename = _sim_rename(real.rename)
    os.unlink = _sim_path_op('unlink', real.unlink)
    os.remove = os.unlink
    os.rmdir = _sim_path_op('rmdir', real.rmdir)
    os.mkdir = _sim_path_op('mkdir', real.mkdir)
    os.truncate = sim_truncate
    os.ftruncate = sim_truncate
    tarfile.bltn_open = sim_open
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, '_USE_CP_COPY_FILE_RANGE'):
        shutil._USE_CP_COPY_FILE_RANGE = False
    shutil._use_fd_functions = False
    time.time = _clock_fn('time', 'wall', False)
    time.monotonic = _clock_fn('monotonic', 'mono', False)
    time.perf_counter = _clock_fn('perf_counter', 'mono', False)
    time.process_time = _clock_fn('process_time', 'mono', False)
    time.thread_time = _clock_fn('thread_time', 'mono', False)
    time.time_ns = _clock_fn('time_ns', 'wall', True)
    time.monotonic_ns = _clock_fn('monotonic_ns', 'mono', True)
    time.perf_counter_ns = _clock_fn('perf_counter_ns', 'mono', True)
    time.sleep = _sim_sleep
    import gc
    gc.collect()
