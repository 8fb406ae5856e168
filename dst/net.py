"""A simulated network below urllib3: sockets are fake, everything above
(http.client, urllib3, requests) is real code.

A *server* is any object with ``handle(method, path, query, headers, body) ->
(status, headers, body bytes)``.  ``plan`` maps the number of a connection to
a fault [kind, arg]."""
from __future__ import annotations

import errno
import io
import socket
import ssl
from urllib.parse import parse_qs, urlsplit

import urllib3.connection as uc

from dst import seams
from dst.core import SimKill

NET = None
_real_create = uc.connection.create_connection
_real_https_connect = uc.HTTPSConnection.connect


class SimHang(BaseException):
    """The system waits for the network without any time limit."""


class SimBug(BaseException):
    """The simulation itself is at fault."""


CONNECT = ('dns', 'refused', 'unreachable', 'connect_timeout', 'tls',
           'connect_stall')
RESPONSE = ('reset_before', 'reset_body', 'close_body', 'stall_before',
            'stall_body', 'garbage_status', 'truncated_header',
            'http_500', 'http_404', 'http_503_empty', 'http_429',
            'slow')
CONTENT = ('flip', 'cut', 'extra', 'bad_gzip', 'html_200', 'empty_200')


class SimNet:
    def __init__(self, server, plan=None, offline=False, ctx=None,
                 before=None):
        self.server = server
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.offline = offline
        self.ctx = ctx
        self.n = 0
        self.before = before          # called with the connection number
        self.log = []                 # (number, path, fault fired, status)

    def __enter__(self):
        global NET
        NET = self
        return self

    def __exit__(self, *exc):
        global NET
        NET = None
        return False

    def fired(self, kind):
        if self.ctx is not None:
            self.ctx.fault('net_' + kind)

    def tick(self, dt):
        if seams.CLOCK is not None:
            seams.CLOCK.tick(dt)

    def connect(self, address, timeout):
        k = self.n
        self.n += 1
        self.tick(0.02)
        if self.before is not None:
            self.before(k)
        kind, arg = self.plan.get(k, (None, 0))
        if self.offline:
            kind = 'dns'
        if kind in CONNECT:
            self.fired('offline' if self.offline else kind)
            self.log.append([k, None, kind, None])
            if kind == 'dns':
                raise socket.gaierror(-3, 'Temporary failure in name '
                                          'resolution')
            if kind == 'refused':
                raise ConnectionRefusedError(errno.ECONNREFUSED,
                                             'Connection refused')
            if kind == 'unreachable':
                raise OSError(errno.ENETUNREACH, 'Network is unreachable')
            if kind == 'tls':
                return FakeSock(self, k, 'tls', arg)
            if kind == 'connect_timeout':
                # the operating system gives up after about two minutes
                self.tick(130.0 if timeout is None else min(timeout, 130.0))
                raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
            if kind == 'connect_stall':
                self.tick(130.0 if timeout is None else min(timeout, 130.0))
                raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
        return FakeSock(self, k, kind, arg)


class FakeSock:
    def __init__(self, net, k, kind, arg):
        self.net, self.k, self.kind, self.arg = net, k, kind, arg
        self.out = bytearray()
        self.timeout = None
        self.closed = False

    def settimeout(self, t):
        self.timeout = t if isinstance(t, (int, float)) else None

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def sendall(self, data, *a):
        self.out += bytes(data)

    def send(self, data, *a):
        self.out += bytes(data)
        return len(data)

    def shutdown(self, how=None):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        return -1

    def makefile(self, mode='rb', buffering=None, **kw):
        return io.BufferedReader(_Reply(self), 1 << 16)


class _Reply(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock
        self.data = None
        self.pos = 0
        self.limit = None
        self.at_limit = None

    def readable(self):
        return True

    def _build(self):
        s = self.sock
        net, kind, arg = s.net, s.kind, s.arg
        head, _, body = bytes(s.out).partition(b'\r\n\r\n')
        line, *rest = head.decode('latin-1').split('\r\n')
        method, target, _ = line.split(' ')
        u = urlsplit(target)
        hdrs = {h.split(':', 1)[0].lower(): h.split(':', 1)[1].strip()
                for h in rest if ':' in h}
        try:
            status, headers, content = net.server.handle(
                method, u.path, parse_qs(u.query, keep_blank_values=True),
                hdrs, body, s.k)
        except Exception as e:
            raise SimBug(f'simulated server: {e!r}') from e
        headers = dict(headers)
        fired = None
        if kind in RESPONSE or kind in CONTENT:
            fired = kind
            net.fired(kind)
        if kind in ('http_500', 'http_404', 'http_503_empty', 'http_429'):
            status = int(kind[5:8])
            content = b'' if kind.endswith('empty') else (
                b'<html><body><h1>%d Error</h1></body></html>' % status)
            headers = {'content-type': 'text/html'}
        elif kind == 'html_200':
            content = b'<html><body>Please log in to the WiFi</body></html>'
            headers = {'content-type': 'text/html'}
        elif kind == 'empty_200':
            content = b''
        elif kind == 'flip' and content:
            i = int(arg * len(content)) % len(content)
            content = (content[:i] + bytes([content[i] ^ (1 << (i % 7))])
                       + content[i + 1:])
        elif kind == 'cut':
            content = content[:int(arg * len(content))]
        elif kind == 'extra':
            content = content + b'\0garbage\xff' * 3
        elif kind == 'bad_gzip':
            headers['content-encoding'] = 'gzip'
        chunked = headers.pop('x-sim-chunked', None)
        reason = {200: 'OK'}.get(status, 'Error')
        out = [f'HTTP/1.1 {status} {reason}']
        if chunked:
            headers['transfer-encoding'] = 'chunked'
            parts = [content[i:i + 700] for i in range(0, len(content), 700)]
            payload = b''.join(b'%x\r\n%s\r\n' % (len(p), p)
                               for p in parts) + b'0\r\n\r\n'
        else:
            headers.setdefault('content-length', str(len(content)))
            payload = content
        out += [f'{k}: {v}' for k, v in headers.items()]
        start = ('\r\n'.join(out) + '\r\n\r\n').encode('latin-1')
        if kind == 'garbage_status':
            start = b'\x00\x01garbage\r\n\r\n'
        self.data = start + payload
        if kind in ('reset_before', 'stall_before'):
            self.limit = 0
        elif kind in ('reset_body', 'close_body', 'stall_body'):
            self.limit = len(start) + int(
                arg * max(0, len(payload) - 1))
        elif kind == 'truncated_header':
            self.limit = len(start) // 2
        self.at_limit = {'reset_before': 'reset', 'reset_body': 'reset',
                         'stall_before': 'stall', 'stall_body': 'stall',
                         'close_body': 'eof', 'truncated_header': 'eof'}.get(
                             kind)
        net.log.append([s.k, u.path, fired, status])

    def readinto(self, b):
        s = self.sock
        if seams.DISK is not None and seams.DISK.frozen:
            raise SimKill('disk is frozen')
        if self.data is None:
            s.net.tick(0.05)
            self._build()
        end = len(self.data) if self.limit is None else self.limit
        if self.pos >= end:
            if self.at_limit == 'reset':
                raise ConnectionResetError(errno.ECONNRESET,
                                           'Connection reset by peer')
            if self.at_limit == 'stall':
                if s.timeout is None:
                    raise SimHang('reading from a stalled server without '
                                  'a timeout')
                s.net.tick(s.timeout)
                raise TimeoutError('timed out')
            return 0
        if s.kind == 'slow':
            s.net.tick(2.0)
        n = min(len(b), end - self.pos, 4096)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


def _create_connection(address, timeout=None, *a, **kw):
    if NET is None:
        raise OSError(errno.ENETUNREACH, 'no network in the simulator')
    t = timeout if isinstance(timeout, (int, float)) else None
    sock = NET.connect(address, t)
    sock.settimeout(t)
    return sock


def _https_connect(self):
    sock = self._new_conn()
    self.sock = sock
    if getattr(sock, 'kind', None) == 'tls':
        raise ssl.SSLCertVerificationError(
            1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed')
    self.is_verified = True


def install():
    uc.connection.create_connection = _create_connection
    uc.HTTPSConnection.connect = _https_connect
