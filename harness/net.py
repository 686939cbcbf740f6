'''In-memory network with an HTTP/1.1 server whose framing and faults are chosen by the case.

`trio.open_tcp_stream` is replaced, so that everything the code under test sends and receives goes
through `MemStream` objects; TLS is replaced by a stand-in that passes data through unencrypted
(unless `Net.tls` is set to the real thing).
The parser of requests is independent of the library that the code under test uses.
'''

import contextlib
import random
from collections import deque

import trio


class Pipe:
    def __init__(self):
        self.chunks = deque()
        self.eof = False  # writer has closed
        self.broken = False  # connection was reset
        self.gone = False  # reader has closed
        self.lot = trio.lowlevel.ParkingLot()


class MemStream(trio.abc.Stream):
    def __init__(self, rx, tx):
        self.rx, self.tx = rx, tx
        self.closed = False
        self.failed = 0  # number of writes that have failed

    async def send_all(self, data):
        await trio.lowlevel.checkpoint()
        if self.closed:
            raise trio.ClosedResourceError('closed')
        if self.tx.gone or self.tx.broken:
            self.failed += 1
            raise trio.BrokenResourceError('peer has gone')
        if data:
            self.tx.chunks.append(bytes(data))
            self.tx.lot.unpark_all()

    async def wait_send_all_might_not_block(self):
        await trio.lowlevel.checkpoint()

    async def receive_some(self, max_bytes=None):
        await trio.lowlevel.checkpoint()
        while True:
            if self.closed:
                raise trio.ClosedResourceError('closed')
            if self.rx.chunks:
                c = self.rx.chunks.popleft()
                if max_bytes is not None and len(c) > max_bytes:
                    self.rx.chunks.appendleft(c[max_bytes:])
                    c = c[:max_bytes]
                return c
            if self.rx.broken:
                raise trio.BrokenResourceError('reset by peer')
            if self.rx.eof:
                return b''
            await self.rx.lot.park()

    def reset(self):
        self.closed = True
        for p in (self.rx, self.tx):
            p.broken = True
            p.gone = True
            p.lot.unpark_all()

    def close_now(self):
        self.closed = True
        self.tx.eof = True
        self.tx.lot.unpark_all()
        self.rx.gone = True
        self.rx.lot.unpark_all()

    async def aclose(self):
        self.close_now()
        await trio.lowlevel.checkpoint()


class PassTLS:
    '''Stand-in for trio.SSLStream'''

    def __init__(self, transport_stream, ssl_context=None, *, server_hostname=None, **kw):
        self.transport_stream = transport_stream
        transport_stream.tls_name = server_hostname

    async def do_handshake(self):
        await trio.lowlevel.checkpoint()

    def __getattr__(self, name):
        return getattr(self.transport_stream, name)


class Net:
    '''Replaces the network inside the context. *connect(host, port, stream)* serves one connection.'''

    def __init__(self, connect):
        self.handler = connect
        self.tls = PassTLS
        self.nursery = None
        self.clients = []
        self.all = []
        self.max_open = 0  # highest number of connections that the client had open
        self.opened = 0
        self.refuse = []  # exceptions for the next connection attempts

    async def _open(self, host, port, **kw):
        await trio.lowlevel.checkpoint()
        if self.refuse:
            exc = self.refuse.pop(0)
            if exc:
                raise exc
        a, b = Pipe(), Pipe()
        client, server = MemStream(a, b), MemStream(b, a)
        server.client = client
        self.clients = [c for c in self.clients if not c.closed] + [client]
        self.all.append(client)
        self.max_open = max(self.max_open, len(self.clients))
        self.nursery.start_soon(self._serve, host, port, server)
        return client

    async def _serve(self, host, port, stream):
        self.opened += 1
        try:
            await self.handler(host, port, stream)
        except (trio.BrokenResourceError, trio.ClosedResourceError):
            pass
        finally:
            if not stream.closed:
                stream.close_now()

    @contextlib.asynccontextmanager
    async def running(self):
        saved = trio.open_tcp_stream, trio.SSLStream
        trio.open_tcp_stream, trio.SSLStream = self._open, self.tls
        try:
            async with trio.open_nursery() as n:
                self.nursery = n
                yield self
                n.cancel_scope.cancel()
        finally:
            trio.open_tcp_stream, trio.SSLStream = saved


class Request:
    def __init__(self, method, target, headers):
        self.method, self.target, self.headers = method, target, headers
        self.body = None

    def get(self, name, default=None):
        vals = [v for k, v in self.headers if k.lower() == name.lower()]
        return vals[0] if vals else default

    def __repr__(self):
        return '<%s %s>' % (self.method, self.target)


class BadRequest(Exception):
    pass


class ClientGone(Exception):
    pass


TOKEN = set("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")


class Reader:
    def __init__(self, stream):
        self.stream = stream
        self.buf = bytearray()

    async def more(self):
        try:
            c = await self.stream.receive_some(65536)
        except (trio.BrokenResourceError, trio.ClosedResourceError):
            c = b''
        if not c:
            raise ClientGone
        self.buf += c

    async def head(self):
        '''-> Request, or None if the client has closed the connection'''
        while b'\r\n\r\n' not in self.buf:
            try:
                await self.more()
            except ClientGone:
                if self.buf:
                    raise
                return None
        i = self.buf.index(b'\r\n\r\n')
        lines = bytes(self.buf[:i]).split(b'\r\n')
        del self.buf[: i + 4]
        parts = lines[0].split(b' ')
        if len(parts) != 3 or parts[2] != b'HTTP/1.1' or not parts[0].isalpha() or not parts[1]:
            raise BadRequest('bad request line %r' % lines[0])
        if any(c <= 32 or c >= 127 for c in parts[1]):
            raise BadRequest('bad request target %r' % parts[1])
        headers = []
        for ln in lines[1:]:
            k, colon, v = ln.partition(b':')
            if not colon or not k or any(chr(c) not in TOKEN for c in k):
                raise BadRequest('bad header line %r' % ln)
            if any(c < 32 and c != 9 or c == 127 for c in v):
                raise BadRequest('control character in header %r' % ln)
            headers.append((k.decode('latin1'), v.strip(b' \t').decode('latin1')))
        req = Request(parts[0].decode(), parts[1].decode(), headers)
        for n in ('host', 'content-length'):
            if sum(k.lower() == n for k, _ in headers) > 1:
                raise BadRequest('repeated header %s' % n)
        if req.get('Host') is None:
            raise BadRequest('no Host header')
        if req.get('Transfer-Encoding'):
            raise BadRequest('unexpected transfer encoding')
        return req

    def length(self, req):
        cl = req.get('Content-Length', '0')
        if not cl.isdigit():
            raise BadRequest('bad content length %r' % cl)
        return int(cl)

    async def body(self, n):
        while len(self.buf) < n:
            await self.more()
        b = bytes(self.buf[:n])
        del self.buf[:n]
        return b


def split(rng, data, how):
    '''Deliver *data* in pieces: how = 0 (one piece) ... 3 (single bytes)'''
    if how == 0 or not data:
        return [data]
    if how == 3 and len(data) < 3000:
        return [data[i:i + 1] for i in range(len(data))]
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(3 if how == 1 else 12))
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)]) if b > a]


async def send(stream, pieces):
    for p in pieces:
        await stream.send_all(p)


def chunked(rng, body, how):
    out = bytearray()
    pos = 0
    while pos < len(body):
        n = len(body) if how == 0 else rng.choice((1, 2, 7, 100, 5000, 70000))
        c = body[pos:pos + n]
        pos += n
        ext = b';x=y' if rng.random() < 0.1 else b''
        size = b'%X' % len(c) if rng.random() < 0.5 else b'%x' % len(c)
        out += (b'0' * rng.randrange(3) if rng.random() < 0.1 else b'') + size + ext + b'\r\n' + c + b'\r\n'
    out += b'0\r\n' + (b'X-Trailer: 1\r\n' if rng.random() < 0.2 else b'') + b'\r\n'
    return bytes(out)


def rng_for(*a):
    return random.Random('/'.join(map(str, a)))
