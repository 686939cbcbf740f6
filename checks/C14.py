'''C14: the HTTP client delivers exact messages over reused connections.'''

import io
import os

from harness import env, net
from harness.core import Part, Property, Violation, check

METHODS = ('GET', 'PUT', 'POST', 'HEAD', 'DELETE', 'COPY', 'get')
PATHS = ('/', '/a/b%20c', '/x?list&prefix=s3ql_', '/s3ql_data_%C3%A9', '/~;,:@=+$')
STATUS = (200, 201, 202, 204, 206, 304, 301, 400, 401, 403, 404, 408, 412, 429, 500, 502, 503)
REASONS = ('OK', 'Not so good', '', 'Gr\xfc\xdfe')
NAMES = ('X-Amz-Meta-001', 'Content-Type', 'ETag', 'x-object-meta-format', 'Accept', 'Date')
VALUES = ('a', '"0123"', 'text/xml; charset="utf-8"', 'b c  d', '', 'caf\xe9', "it's=1,'2'", 'x' * 300)
SIZES = (0, 1, 2, 5, 100, 1000, 65535, 65536, 65537, 131072, 140000)
MALFORMED = ('status', 'status2', 'nocolon', 'cl-text', 'cl-two', 'cl-neg', 'chunk-size', 'chunk-end',
             'garbage', 'huge', 'version', 'control')  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    size = st.one_of(st.sampled_from(SIZES), st.integers(0, 3000))
    headers = st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(VALUES)).map(list), max_size=4)
    part = st.tuples(st.sampled_from(('b', 'fh', 'file', 'other')), size, st.integers(0, 9)).map(list)
    resp = st.fixed_dictionaries({
        'status': st.one_of(st.sampled_from((200, 204)), st.sampled_from(STATUS)),
        'reason': st.sampled_from(REASONS), 'headers': headers,
        'framing': st.sampled_from(('cl', 'cl', 'chunked', 'close')),
        'http10': st.sampled_from((False,) * 5 + (True,)),
        'connclose': st.sampled_from((False,) * 4 + (True,)),
        'size': size, 'split': st.integers(0, 3),
        'info': st.lists(st.sampled_from((100, 102, 103)), max_size=2),
    })  # fmt: skip
    fault = st.one_of(
        st.just(['none']), st.just(['none']), st.just(['none']),
        st.tuples(st.just('cut'), st.floats(0, 0.999), st.sampled_from(('eof', 'reset', 'stall', 'cancel'))),
        st.tuples(st.just('cut'), st.floats(0, 0.3), st.sampled_from(('eof', 'reset', 'stall', 'cancel'))),
        st.tuples(st.just('malformed'), st.sampled_from(MALFORMED)),
        st.just(['idle-close']), st.just(['idle-reset']), st.just(['excess']),
        st.tuples(st.just('refuse'), st.integers(1, 2)),
        st.tuples(st.just('drop'), st.sampled_from(('eof', 'reset'))),
    ).map(list)  # fmt: skip
    exchange = st.fixed_dictionaries({
        'method': st.integers(0, len(METHODS) - 1), 'path': st.integers(0, len(PATHS) - 1),
        'headers': headers, 'body': st.one_of(st.just([]), st.lists(part, max_size=3)),
        'expect': st.sampled_from((None, None, True, False)),
        'mismatch': st.sampled_from((0,) * 12 + (-1, 1, -70000, 5)),
        'given': st.booleans(),
        'resp': resp, 'fault': fault,
        'early': st.sampled_from(('no',) * 6 + ('reject', 'reject', 'mid', 'mid-reset')),
        'read': st.sampled_from(('all', 'all', 'loop', 'fh', 'file', 'discard', 'partial', 'none')),
    })  # fmt: skip
    return st.fixed_dictionaries({
        'pool': st.sampled_from((True, True, False)), 'max': st.integers(1, 3), 'tasks': st.integers(1, 4),
        'tls': st.booleans(), 'proxy': st.sampled_from((False, False, True)),
        'ipv6': st.sampled_from((False, False, False, True)),
        'port': st.sampled_from((None, 8080)), 'seed': st.integers(0, 9999),
        'exchanges': st.lists(exchange, min_size=1, max_size=8),
    })  # fmt: skip


def hostname(case):
    if case.get('ipv6') and not (case['proxy'] and case['tls']):
        return '2001:db8::7'
    return 'srv.example'


def data(seed, n):
    return net.rng_for('data', seed, n).randbytes(n)


class OtherStream:
    '''A stream that is neither a BytesIO nor a real file'''

    def __init__(self, buf):
        self._b = io.BytesIO(buf)

    def read(self, size=-1):
        # may return less than requested
        return self._b.read(min(size, 50000) if size > 0 else size)

    def seek(self, off, whence=0):
        return self._b.seek(off, whence)

    def tell(self):
        return self._b.tell()


class Server:
    def __init__(self, case):
        self.case = case
        self.seen = {}  # id -> list of Request
        self.complete = set()  # ids whose response was sent completely and unmodified
        self.problems = []
        self.fate = {}  # id -> what really happened to the last attempt
        self.touched = set()  # ids that were visible in what the server has received

    async def connect(self, host, port, stream):
        try:
            await self.serve(host, port, stream)
        except net.BadRequest as exc:
            self.problems.append('client has sent an invalid request: %s' % exc)
        except net.ClientGone:
            pass

    async def serve(self, host, port, stream):
        c = self.case
        want = ('proxy.example', 3128) if c['proxy'] else (hostname(c), self.port())
        if (host, port) != want:
            self.problems.append('client connects to %r' % ((host, port),))
        rd = net.Reader(stream)
        if c['proxy'] and c['tls']:
            while b'\r\n\r\n' not in rd.buf:
                await rd.more()
            line = bytes(rd.buf).split(b'\r\n')[0]
            if line != b'CONNECT srv.example:%d HTTP/1.0' % self.port():
                self.problems.append('client sends %r to the proxy' % line)
            del rd.buf[:]
            await net.send(stream, [b'HTTP/1.1 200 Connection', b' established\r\nX: y\r\n\r\n'])
        while True:
            req = await rd.head()
            if req is None:
                return
            if c['tls'] and getattr(stream.client, 'tls_name', None) != hostname(c):
                self.problems.append('request is sent without TLS')
            if not await self.answer(req, rd, stream):
                return

    def port(self):
        return self.case['port'] or (443 if self.case['tls'] else 80)

    async def after_close(self, rd, stream):
        '''The connection has been announced to be closed: nothing may be sent on it any more'''
        try:
            await rd.more()
            self.problems.append('client has sent %r on a connection that the server has announced '
                                 'to close' % bytes(rd.buf[:40]))  # fmt: skip
        except net.ClientGone:
            pass

    async def answer(self, req, rd, stream):
        '''-> True if the connection stays open'''
        import trio

        xid = int(req.get('X-Id', '-1'))
        ex = self.case['exchanges'][xid]
        self.touched.add(xid)
        self.fate[xid] = 'partial'
        r, fault, early = ex['resp'], ex['fault'], ex['early']
        n = rd.length(req)
        rng = net.rng_for('srv', self.case['seed'], xid)
        expect = req.get('Expect')
        if expect is not None and expect.lower() != '100-continue':
            self.problems.append('client sends Expect: %s' % expect)
        wire, info, bodiless = self.response(ex, xid, req.method)
        if fault[0] == 'drop':
            self.fate[xid] = 'drop'
            if fault[1] == 'reset':
                stream.reset()
            return False
        rejected = early == 'reject' and expect
        if rejected:
            info = b''.join(i for i in self.info_parts(r) if b' 100 ' not in i)
        req.body = b''
        if not rejected:
            if expect:
                await net.send(stream, net.split(rng, info + b'HTTP/1.1 100 Continue\r\n\r\n', r['split']))
            if early in ('mid', 'mid-reset') and n > 10:
                # final response in the middle of the body, connection closed
                req.body = await rd.body(n // 2)
                self.seen.setdefault(xid, []).append(req)
                self.fate[xid] = 'mid'
                await net.send(stream, net.split(rng, wire, r['split']))
                if early == 'mid-reset':
                    stream.reset()
                return False
            req.body = await rd.body(n)
        self.seen.setdefault(xid, []).append(req)
        req.rejected = rejected
        # (informational responses may come at any time before the final one)
        wire = info + wire
        if fault[0] == 'cut':
            cut = int(len(wire) * fault[1])
            self.fate[xid] = 'cut'
            await net.send(stream, net.split(rng, wire[:cut], r['split']))
            if fault[2] == 'reset':
                # (what was sent before arrives)
                await trio.sleep(0.01)
                stream.reset()
            elif fault[2] in ('stall', 'cancel'):
                await trio.sleep(10000)
            return False
        if fault[0] == 'malformed':
            self.fate[xid] = 'malformed'
            await net.send(stream, net.split(rng, self.malform(wire[len(info):], fault[1]), r['split']))
            await trio.sleep(0.01)
            return False
        if fault[0] == 'excess' and (r['framing'] != 'close' or bodiless):
            wire += b'*' * rng.randrange(1, 50)
        else:
            self.complete.add(xid)
        self.fate[xid] = 'complete'
        await net.send(stream, net.split(rng, wire, r['split']))
        if r['framing'] == 'close' and not bodiless:
            return False
        if r['connclose'] or r['http10']:
            # The server may close later
            with trio.move_on_after(rng.choice((0, 0.5, 5))):
                await self.after_close(rd, stream)
            return False
        if fault[0] == 'idle-close':
            return False
        if fault[0] == 'idle-reset':
            await trio.sleep(0.01)
            stream.reset()
            return False
        return True

    def response(self, ex, xid, method):
        r = ex['resp']
        bodiless = method.upper() == 'HEAD' or r['status'] in (204, 304)
        body = data(xid, r['size'])
        rng = net.rng_for('frame', self.case['seed'], xid)
        info = b''.join(self.info_parts(r))
        headers = ['%s: %s' % (k, v) for k, v in r['headers']]
        framing = r['framing']
        if framing == 'chunked' and r['http10']:
            framing = 'cl'
        if framing == 'cl' and (not bodiless or method.upper() == 'HEAD' or r['status'] == 304):
            headers.insert(rng.randrange(len(headers) + 1), 'Content-Length: %d' % len(body))
            wire = body
        elif framing == 'chunked' and not bodiless:
            headers.append('transfer-encoding: chunked')
            wire = net.chunked(rng, body, r['split'])
        else:
            wire = body
        if bodiless:
            wire = b''
        if r['connclose']:
            headers.append('connection: Close')
        elif r['http10'] and rng.random() < 0.3:
            headers.append('Connection: keep-alive')
        head = 'HTTP/1.%d %d %s\r\n%s\r\n' % (0 if r['http10'] else 1, r['status'], r['reason'],
                                             ''.join(h + '\r\n' for h in headers))  # fmt: skip
        head = head.encode('latin1')
        ex['_want'] = (r['status'], r['reason'], [tuple(h.split(': ', 1)) for h in headers],
                       b'' if bodiless else body,
                       0 if bodiless else len(body) if framing == 'cl' else None, len(info) + len(head))  # fmt: skip
        return head + wire, info, bodiless

    def info_parts(self, r):
        if r['http10']:
            return []
        return [b'HTTP/1.1 %d Info\r\n%s\r\n' % (s, b'Link: </%d>\r\n' % i if s == 103 else b'')
                for i, s in enumerate(r['info'])]  # fmt: skip

    def malform(self, wire, kind):
        head, _, body = wire.partition(b'\r\n\r\n')
        line, _, hdrs = head.partition(b'\r\n')
        if hdrs:
            hdrs = b'\r\n' + hdrs
        nofr = b''.join(b'\r\n' + h for h in hdrs.split(b'\r\n')
                        if h and not h.lower().startswith((b'content-length', b'transfer-')))  # fmt: skip
        if kind == 'status':
            line = b'HTTP/1.1 abc OK'
        elif kind == 'status2':
            line = b'HTTP/1.1 20'
        elif kind == 'version':
            line = b'XTTP/1.1 200 OK'
        elif kind == 'garbage':
            return b'\x00\x01garbage\r\n\r\n' + wire
        elif kind == 'nocolon':
            hdrs += b'\r\nno colon here'
        elif kind == 'control':
            hdrs += b'\r\nX-Foo: a\x00b'
        elif kind == 'cl-text':
            hdrs = nofr + b'\r\nContent-Length: many'
        elif kind == 'cl-two':
            hdrs = nofr + b'\r\nContent-Length: 3\r\nContent-Length: 4'
        elif kind == 'cl-neg':
            hdrs = nofr + b'\r\nContent-Length: -3'
        elif kind == 'huge':
            hdrs += b'\r\nX-Huge: ' + b'x' * 300000
        elif kind == 'chunk-size':
            hdrs, body = nofr + b'\r\nTransfer-Encoding: chunked', b'5\r\nhello\r\nzz\r\nfoo'
        elif kind == 'chunk-end':
            hdrs, body = nofr + b'\r\nTransfer-Encoding: chunked', b'5\r\nhelloworld\r\n0\r\n\r\n'
        return line + hdrs + b'\r\n\r\n' + body


def malformed_applies(ex):
    if ex['fault'][1] in ('chunk-size', 'chunk-end'):
        r = ex['resp']
        return METHODS[ex['method']].upper() != 'HEAD' and r['status'] not in (204, 304)
    return True


class Client:
    def __init__(self, case, server, network, tmp, info):
        self.case, self.server, self.net, self.tmp, self.info = case, server, network, tmp, info

    def body(self, xid, ex):
        items, bufs = [], []
        for i, (kind, n, pos) in enumerate(ex['body']):
            buf = data((xid, i), n)
            bufs.append((kind, buf))
            if kind == 'b':
                items.append(buf)
                continue
            if kind == 'fh':
                fh = io.BytesIO(buf)
            elif kind == 'other':
                fh = OtherStream(buf)
            else:
                p = os.path.join(self.tmp, '%d-%d' % (xid, i))
                with open(p, 'wb') as f:
                    f.write(buf)
                fh = open(p, 'rb')  # noqa: SIM115
            fh.seek(min(pos, n))
            items.append(fh)
        return items, bufs

    async def exchange(self, xid, conn):
        '''-> (status, reason, headers, body, length)'''
        ex = self.case['exchanges'][xid]
        headers = {'X-Id': str(xid)}
        for k, v in ex['headers']:
            headers[k] = v.strip()
        items, bufs = self.body(xid, ex)
        total = sum(len(b) for _, b in bufs)
        kw = {}
        if ex['mismatch'] and bufs:
            kw['body_len'] = max(0, total + ex['mismatch'])
        elif ex['given']:
            kw['body_len'] = total
        if ex['expect'] is not None and (ex['expect'] is False or items):
            kw['expect100'] = ex['expect']
        self.info.label('body' if total else 'nobody')
        try:
            resp = await conn.send_request(METHODS[ex['method']], PATHS[ex['path']], headers=dict(headers),
                                           body=items, **kw)  # fmt: skip
            ex['_got_head'] = True
            body = await self.read(xid, ex, conn)
        finally:
            for it in items:
                if hasattr(it, 'close'):
                    it.close()
        return resp, body

    async def read(self, xid, ex, conn):
        how = ex['read']
        if how == 'all':
            return await conn.readall()
        if how == 'loop':
            out = b''
            while True:
                b = await conn.read()
                if not b:
                    break
                out += b
            check(await conn.read() == b'', 'read() returns data after the end')
            return out
        if how == 'discard':
            await conn.discard()
            return None
        if how == 'none':
            return None
        if how == 'partial':
            return ('partial', bytes(await conn.read()))
        got = []
        if how == 'fh':
            fh = io.BytesIO()
            await conn.readinto_fh(fh, update=lambda b: got.append(bytes(b)))
            check(b''.join(got) == fh.getvalue(), 'update() gets something else than the file')
            return fh.getvalue()
        with open(os.path.join(self.tmp, 'out%d' % xid), 'w+b') as fh:
            await conn.readinto_fh(fh)
            fh.seek(0)
            return fh.read()

    def check_request(self, xid):
        ex = self.case['exchanges'][xid]
        for req in self.server.seen.get(xid, ()):
            check(req.method == METHODS[ex['method']], 'method %r is sent as %r', METHODS[ex['method']], req.method)
            target = PATHS[ex['path']]
            host = hostname(self.case)
            if ':' in host:
                host = '[%s]' % host
            if self.case['port']:
                host += ':%d' % self.case['port']
            if self.case['proxy'] and not self.case['tls']:
                target = 'http://' + host + target
            check(req.target == target, 'path %r is sent as %r', target, req.target)
            check(req.get('Host') == host, 'host is sent as %r', req.get('Host'))
            want = {'x-id': str(xid)}
            for k, v in ex['headers']:
                want[k.lower()] = v.strip()
            got = [(k.lower(), v) for k, v in req.headers]
            for k, v in want.items():
                check(got.count((k, v)) == 1, 'header %r: %r is sent as %r', k, v, got)
            extra = {k for k, _ in got} - set(want)
            allowed = {'host', 'content-length', 'expect', 'accept-encoding', 'connection', 'user-agent'}
            check(extra <= allowed, 'client has added headers %r', extra - allowed)
            total = b''.join(data((xid, i), n) for i, (_, n, _) in enumerate(ex['body']))
            if ex['mismatch'] and ex['body']:
                n = max(0, len(total) + ex['mismatch'])
            else:
                n = len(total)
            check(req.get('Content-Length', '0') == str(n), 'announced length is %r instead of %d',
                  req.get('Content-Length'), n)  # fmt: skip
            b = req.body
            if getattr(req, 'rejected', False):
                check(b == b'', 'body is sent without permission')
            else:
                check(total[:len(b)] == b, 'body is sent wrong')
                check(req.get('X-Mid') or len(b) >= len(total[:n]) or len(b) == n // 2, 'body is incomplete')
            if ex['expect'] and ex['body']:
                check(req.get('Expect'), 'client does not wait for permission')
            if ex['expect'] is False:
                check(not req.get('Expect'), 'client asks for permission although it should not')

    def check_response(self, xid, resp, body):
        ex = self.case['exchanges'][xid]
        status, reason, headers, want, length, _ = ex['_want']
        check(resp.status == status, 'status %r arrives as %r', status, resp.status)
        check(resp.reason == reason, 'reason %r arrives as %r', reason, resp.reason)
        got = [(k.lower(), v) for k, v in resp.headers.items()]
        exp = [(k.lower(), v.strip()) for k, v in headers]
        check(sorted(got) == sorted(exp), 'headers %r arrive as %r', exp, got)
        check([x for x in got if x[0] in {n.lower() for n in NAMES}]
              == [x for x in exp if x[0] in {n.lower() for n in NAMES}], 'order of headers has changed')  # fmt: skip
        check(resp.length == length, 'length of response is %r instead of %r', resp.length, length)
        if isinstance(body, tuple):
            check(want.startswith(body[1]) and (body[1] or not want), 'partial body is wrong')
        elif body is not None:
            check(bytes(body) == want, 'body (%d bytes) arrives wrong (%d bytes)', len(want), len(body))


def local_error(ex):
    '''The request as given cannot be sent'''
    if not ex['mismatch'] or not ex['body']:
        return None
    sizes = [(k, n) for k, n, _ in ex['body']]
    total = sum(n for _, n in sizes)
    rem = max(0, total + ex['mismatch'])
    if rem > total:
        return 'short'
    for k, n in sizes:
        if rem <= 0:
            break
        if k == 'b' and n > rem:
            return 'excess'
        rem -= min(n, rem)
    return None


async def drive(case, tmp, info):
    import trio

    from s3ql import http

    for xid, ex in enumerate(case['exchanges']):
        ex.pop('_want', None)
        ex.pop('_got_head', None)
    srv = Server(case)
    network = net.Net(srv.connect)
    cl = Client(case, srv, network, tmp, info)
    ssl_context = object() if case['tls'] else None
    proxy = ('proxy.example', 3128) if case['proxy'] else None
    errors = (http.InvalidResponse, http.ConnectionClosed, http.ConnectionTimedOut)

    def judge(xid, exc, resp, body, closed_before):
        '''*closed_before*: the connection may have been closed by the server before'''
        ex = case['exchanges'][xid]
        fault, r = ex['fault'], ex['resp']
        loc = local_error(ex)
        fate = srv.fate.get(xid)  # None: the server has seen nothing
        cl.check_request(xid)
        if exc is None:
            check(fate in ('complete', 'mid', 'cut', 'malformed'), 'response although there was none')
            # (a response may arrive before the error is noticed)
            check(not loc or ex['early'] != 'no', 'inconsistent body is sent without error')
            if fate == 'malformed':
                if ex['read'] in ('none', 'partial') and fault[1].startswith('chunk'):
                    return
                check(not malformed_applies(ex), 'malformed response (%s) is taken for complete', fault[1])
            elif fate == 'cut':
                status, _, _, want, length, _ = ex['_want']
                check(resp.status == status, 'status %r arrives as %r', status, resp.status)
                bodiless = METHODS[ex['method']].upper() == 'HEAD' or r['status'] in (204, 304)
                check(not bodiless and length != 0, 'response without its complete head is accepted')
                if ex['read'] in ('none', 'partial'):
                    return
                check(length is None and r['framing'] != 'chunked' and fault[2] == 'eof',
                      'truncated response (%s, %s, %.3f) is taken for complete', r['framing'], fault[2],
                      fault[1])  # fmt: skip
                check(body is None or want.startswith(bytes(body)), 'truncated body contains other data')
                info.label('cut-unnoticeable')
            else:
                cl.check_response(xid, resp, body)
                info.label('complete')
            return
        if isinstance(exc, trio.TooSlowError):
            check(fate == 'cut' and fault[2] == 'cancel', 'unexpected cancellation')
        elif loc and isinstance(exc, (http.StateError, http.ExcessBodyData)):
            info.label('local')
        elif fate is None and not isinstance(exc, errors) and any(
            e['fault'][0] == 'refuse' for e in case['exchanges']
        ):
            # (possibly meant for another task)
            check(http.is_temp_network_error(exc), 'refused connection gives %r', exc)
        elif not isinstance(exc, errors):
            check(False, 'exchange fails with %s: %s', type(exc).__name__, exc)
        elif fate is None:
            check(closed_before, 'nothing was sent: %r', exc)
            info.label('idle-closed')
        elif isinstance(exc, http.InvalidResponse) and any(
            e['fault'][0] == 'excess' for e in case['exchanges']
        ):
            info.label('excess')  # left over from the exchange before
        elif fate == 'cut':
            info.label('cut')
            if fault[2] == 'stall':
                check(isinstance(exc, http.ConnectionTimedOut), 'stalled response gives %r', exc)
        elif fate == 'malformed':
            info.label('malformed')
            check(not isinstance(exc, http.ConnectionTimedOut), 'malformed response gives %r', exc)
        else:
            check(fate in ('mid', 'drop') or loc, 'exchange %d (%s) fails with %s: %s', xid, fault[0],
                  type(exc).__name__, exc)  # fmt: skip

    async def attempt(fn, xid):
        ex = case['exchanges'][xid]
        if ex['fault'][0] == 'refuse':
            network.refuse[:] = [ConnectionRefusedError(111, 'refused')] * 1
        try:
            return None, *(await fn(xid))
        except Violation:
            raise
        except Exception as exc:
            return exc, None, None
        finally:
            network.refuse[:] = []

    async def timed(xid, conn):
        fault = case['exchanges'][xid]['fault']
        if fault[0] == 'cut' and fault[2] == 'cancel':
            with trio.fail_after(5):
                return await cl.exchange(xid, conn)
        return await cl.exchange(xid, conn)

    async with network.running():
        if case['pool']:
            async with http.Pool(hostname(case), case['port'], ssl_context=ssl_context, proxy=proxy,
                                 max_connections=case['max'], timeout=20) as pool:  # fmt: skip

                async def one(xid):
                    async with pool.get() as conn:
                        return await timed(xid, conn)

                async def worker(k):
                    for xid in range(k, len(case['exchanges']), case['tasks']):
                        exc, resp, body = await attempt(one, xid)
                        judge(xid, exc, resp, body, True)
                        if exc is not None and xid not in srv.touched:
                            # The connection was closed while it was idle. It must not be used again, so
                            # that at most one attempt per pooled connection fails.
                            ex = case['exchanges'][xid]
                            for _ in range(case['max'] + len(case['exchanges'])):
                                if ex['fault'][0] == 'refuse':
                                    ex['fault'] = ['none']
                                exc, resp, body = await attempt(one, xid)
                                if exc is None or xid in srv.touched:
                                    break
                            else:
                                check(False, 'pool hands out dead connections: %r', exc)
                            judge(xid, exc, resp, body, False)

                async with trio.open_nursery() as n:
                    for k in range(case['tasks']):
                        n.start_soon(worker, k)
                # All connections that are still there are usable
                idle = network.opened
                check(network.max_open <= case['max'], '%d connections at the same time', network.max_open)
                info.label('reused' if idle < len(case['exchanges']) else 'fresh')
        else:
            conn = http.HTTPConnection(hostname(case), case['port'], ssl_context=ssl_context, proxy=proxy)
            conn.timeout = 20
            state = 'clean'  # clean, closing (announced), unread, broken

            async def one(xid):
                return await timed(xid, conn)

            for xid, ex in enumerate(case['exchanges']):
                if state != 'clean':
                    # (must not be sent)
                    before = (network.opened, len(srv.touched))
                    probe = dict(ex, fault=['none'])
                    exc, _, _ = await attempt(one, xid)
                    if state == 'closing':
                        check(isinstance(exc, http.ConnectionClosed),
                              'request on a connection that will be closed gives %r', exc)  # fmt: skip
                    elif state == 'unread':
                        check(isinstance(exc, (http.StateError, http.ConnectionClosed)), 'request with unread response gives %r', exc)
                    if state in ('closing', 'unread'):
                        check(before == (network.opened, len(srv.touched)), 'request was sent nevertheless')
                        await conn.aclose()
                    del probe
                    if state == 'broken':
                        await conn.aclose()
                exc, resp, body = await attempt(one, xid)
                if exc is not None and xid not in srv.touched and state == 'idle?':
                    await conn.aclose()
                judge(xid, exc, resp, body, xid not in srv.touched and state != 'fresh')
                r = ex['resp']
                bodiless = METHODS[ex['method']].upper() == 'HEAD' or r['status'] in (204, 304)
                if exc is not None:
                    await conn.aclose()
                    state = 'clean'
                elif ex['early'] in ('mid', 'mid-reset') or ex['fault'][0] not in ('none',):
                    await conn.aclose()
                    state = 'clean'
                elif ex['read'] in ('none', 'partial'):
                    # the end may or may not have been noticed
                    want = ex['_want'][3]
                    if ex['read'] == 'none' and want and not bodiless:
                        state = 'unread'
                    else:
                        await conn.aclose()
                        state = 'clean'
                elif r['connclose'] or (r['http10']) or (r['framing'] == 'close' and not bodiless):
                    state = 'closing'
                else:
                    state = 'clean'
            await conn.aclose()
    check(not srv.problems, '%s', srv.problems[0] if srv.problems else '')
    check(all(c.failed < 2 for c in network.all), 'connection is used again after a write has failed')
    info.nontrivial = len(case['exchanges']) > 1 or bool(case['exchanges'][0]['body'])


def run(case, info):
    import copy

    case = copy.deepcopy(case)
    env.vtime.reset()
    with env.Scratch() as root:
        env.trio_run(drive, case, root, info)


TECHNIQUE = (
    'model-based fuzzing of request/response sequences against an independent in-memory HTTP/1.1 '
    'server that chooses framing, segmentation and faults'
)
NOTE = 'In-memory network below trio.open_tcp_stream, virtual clock, TLS replaced by a pass-through.'
PROPERTY = Property(
    'C14',
    'One to eight exchanges over a pool (one to four tasks, one to three connections) or a single '
    'connection, directly or through a proxy: all methods, bodies from byte strings, buffers and '
    'files, permission granted, denied or not asked for; fixed-length, chunked, until-close and '
    'empty responses delivered in arbitrary pieces with informational responses; cut, reset, '
    'stalled, malformed and dropped responses, idle closes, refused connections, cancellation. '
    'Non-trivial: more than one exchange or a request with a body.',
    [Part('exchanges', strategy, run, quick=800, thorough=30000)],
)
