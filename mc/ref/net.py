"""A network in memory: the real http, ftp and ssl clients talk to scripted servers.

Every connection, transmission and read is one step; a fault (reset, timeout or close) can be
put at any step.  No address outside the given servers can be reached."""
import base64
import contextlib
import io
import os
import re
import socket
import ssl
import urllib.parse
import urllib.request


class Net:
    def __init__(self, servers, fault=None, segment=64):
        # servers: {(host, port): function(net) -> server}
        self.servers = dict(servers)
        self.fault = fault
        self.segment = segment
        self.count = 0
        self.steps = []
        self.connects = []
        self.fired = False
        self.within_head = False
        self.sent = b''

    def step(self, op):
        """raises or returns True to end the stream"""
        n = self.count
        self.count += 1
        self.steps.append(op)
        if self.fault is None or n != self.fault[0]:
            return False
        self.fired = True
        kind = self.fault[1]
        if kind == 'timeout':
            raise socket.timeout('timed out')
        if kind == 'reset':
            raise (ConnectionRefusedError if op == 'connect' else ConnectionResetError)(111, 'fault')
        if op == 'connect':
            raise OSError(101, 'Network is unreachable')
        if op == 'send':
            raise BrokenPipeError(32, 'Broken pipe')
        return True

    def create_connection(self, address, timeout=None, source_address=None, **kw):
        host, port = address
        self.connects.append((host, port, timeout))
        if (host, port) not in self.servers:
            raise socket.gaierror(-2, 'Name or service not known')
        self.step('connect')
        return Sock(self, host, port, self.servers[host, port](self))

    @contextlib.contextmanager
    def patched(self):
        old = socket.create_connection, ssl.SSLContext.wrap_socket
        op = urllib.request._opener
        env = {k: os.environ.pop(k) for k in list(os.environ) if k.lower().endswith('_proxy')}
        socket.create_connection = self.create_connection
        ssl.SSLContext.wrap_socket = lambda ctx, sock, *a, **k: sock
        urllib.request.install_opener(None)
        try:
            yield self
        finally:
            socket.create_connection, ssl.SSLContext.wrap_socket = old
            urllib.request.install_opener(op)
            os.environ.update(env)


class Raw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        d = self.sock.recv(len(b))
        b[:len(d)] = d
        return len(d)


class Sock:
    family = socket.AF_INET

    def __init__(self, net, host, port, server):
        self.net, self.host, self.port, self.server = net, host, port, server
        self.dead = False
        self.closed = False
        self.given = 0
        if hasattr(server, 'opened'):
            server.opened(self)

    def sendall(self, data, *a):
        self.net.step('send')
        self.net.sent += bytes(data)
        self.server.feed(bytes(data))

    send = sendall

    def recv(self, n, *a):
        if self.dead:
            return b''
        if self.net.step('read'):
            self.dead = True
            # within the status line and headers of a http response
            self.net.within_head = 0 < self.given < getattr(self.server, 'head', 0)
            return b''
        out = self.server.out
        if not out:
            if self.server.closed:
                return b''
            raise socket.timeout('timed out')
        k = min(n, self.net.segment)
        d, self.server.out = out[:k], out[k:]
        self.given += k
        return d

    def makefile(self, mode='r', buffering=None, *, encoding=None, errors=None, newline=None):
        b = io.BufferedReader(Raw(self))
        return b if 'b' in mode else io.TextIOWrapper(b, encoding=encoding, newline=newline)

    def close(self):
        if not self.closed:
            self.closed = True
            if hasattr(self.server, 'ended'):
                self.server.ended(self.dead)

    def getpeername(self):
        return (self.host, self.port)

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def setsockopt(self, *a):
        pass

    def shutdown(self, how):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class HTTP:
    """one connection of a http server: respond(method, url path, headers) gives
    (status, [(header, value)], body, style)"""
    def __init__(self, net, respond):
        self.respond = respond
        self.buf = b''
        self.out = b''
        self.closed = False

    def feed(self, data):
        self.buf += data
        while b'\r\n\r\n' in self.buf:
            head, rest = self.buf.split(b'\r\n\r\n', 1)
            lines = head.decode('latin1').split('\r\n')
            h = {}
            for x in lines[1:]:
                a, b = x.split(':', 1)
                h[a.strip().lower()] = b.strip()
            n = int(h.get('content-length', 0))
            if len(rest) < n:
                return
            self.buf = rest[n:]
            method, path, _ = lines[0].split(' ')
            self.out += encode(*self.respond(method, path, h))
            self.head = self.out.index(b'\r\n\r\n') + 4
            self.closed = True


def encode(status, headers, body, style='length'):
    version = '1.0' if style == 'http/1.0' else '1.1'
    out = [f'HTTP/{version} {status} {"OK" if status == 200 else "Status"}']
    out += [f'{a}: {b}' for a, b in headers]
    if style in ('length', 'http/1.0'):
        out.append(f'Content-Length: {len(body)}')
    if style == 'chunked':
        out.append('Transfer-Encoding: chunked')
        data = b''
        for i in range(0, len(body), 5):
            c = body[i:i + 5]
            data += b'%x\r\n' % len(c) + c + b'\r\n'
        body = data + b'0\r\n\r\n'
    out.append('Connection: close')
    return ('\r\n'.join(out) + '\r\n\r\n').encode('latin1') + body


class Data:
    """data connection of a ftp server"""
    def __init__(self, control, payload):
        self.control, self.out, self.closed = control, payload, True

    def feed(self, data):
        pass

    def ended(self, cut):
        self.control.out += (b'426 Connection closed; transfer aborted.\r\n'
                             if cut or self.out else b'226 Transfer complete.\r\n')


class FTP:
    """control connection; files {path: (bytes, mdtm)}, lists {path: [names]}"""
    ports = 40000

    def __init__(self, net, host, files, lists, users, mdtm=True):
        self.net, self.host = net, host
        self.files, self.lists, self.users, self.mdtm = files, lists, users, mdtm
        self.out = b'220 Ready.\r\n'
        self.buf = b''
        self.user = None
        self.login = False
        self.port = None
        self.closed = False
        self.log = []

    def feed(self, data):
        self.buf += data
        while b'\r\n' in self.buf:
            line, self.buf = self.buf.split(b'\r\n', 1)
            self.out += self.command(line.decode('utf8'))

    def command(self, line):
        self.log.append(line)
        cmd, _, arg = line.partition(' ')
        cmd = cmd.upper()
        if cmd == 'USER':
            self.user = arg
            return b'331 Password required.\r\n'
        if cmd == 'PASS':
            self.login = self.users is None or self.users.get(self.user) == arg
            self.given = (self.user, arg)
            return b'230 Logged in.\r\n' if self.login else b'530 Login incorrect.\r\n'
        if cmd == 'QUIT':
            self.closed = True
            return b'221 Goodbye.\r\n'
        if not self.login:
            return b'530 Please login.\r\n'
        if cmd in ('TYPE', 'NOOP'):
            return b'200 OK.\r\n'
        if cmd == 'PASV':
            FTP.ports += 1
            self.port = 256 + FTP.ports % 60000
            self.data = Data(self, b'')
            self.net.servers[self.host, self.port] = lambda n, x=self.data: x
            return b'227 Entering Passive Mode (127,0,0,1,%d,%d).\r\n' % divmod(self.port, 256)
        if cmd == 'RETR':
            if arg not in self.files:
                return b'550 No such file.\r\n'
            self.data.out = self.files[arg][0]
            return b'150 Opening.\r\n'
        if cmd == 'NLST':
            if arg not in self.lists:
                return b'550 No such directory.\r\n'
            p = ''.join(x + '\r\n' for x in self.lists[arg]).encode('utf8')
            self.data.out = p
            return b'150 Opening.\r\n'
        if cmd == 'MDTM':
            if not self.mdtm:
                return b'500 Unknown command.\r\n'
            m = self.files.get(arg, (None, None))[1]
            return b'550 Not a file.\r\n' if m is None else f'213 {m}\r\n'.encode()
        return b'502 Not implemented.\r\n'


def http(host, respond, secure=False, port=None):
    p = port or (443 if secure else 80)
    return {(host, p): lambda net: HTTP(net, respond)}


def basic(headers):
    """username and password of a request"""
    h = headers.get('authorization')
    if h is None or not h.startswith('Basic '):
        return None
    return tuple(base64.b64decode(h[6:]).decode('utf8').split(':', 1))
