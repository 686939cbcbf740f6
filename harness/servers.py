'''Storage servers (S3, B2, Google Storage, Swift) on the in-memory network.

Every server keeps the objects in one dictionary, checks the requests against its protocol
(signatures, tokens, checksums, paths) and answers according to a plan of faults.
'''

import base64
import hashlib
import hmac
import json
import re
import urllib.parse
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape as xml_escape

import trio

from . import net

S3_NS = 'http://s3.amazonaws.com/doc/2006-03-01/'
RFC3986 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~'


def enc(s):
    return ''.join(chr(c) if chr(c) in RFC3986 else '%%%02X' % c for c in s.encode())


class Reject(Exception):
    '''The request is not what the protocol demands'''


class Resp:
    def __init__(self, status, body=b'', headers=(), ctype=None, head_length=None):
        self.status = status
        self.body = body if isinstance(body, bytes) else body.encode()
        self.headers = list(headers)
        if ctype:
            self.headers.append(('Content-Type', ctype))
        self.head_length = head_length
        self.reason = 'X'


class Obj:
    def __init__(self, data, headers):
        self.data, self.headers = data, headers
        self.md5 = hashlib.md5(data).hexdigest()


# transient faults: (kind, does the operation take effect)
FAULTS = (
    'status', 'status', 'status-applied', 'reset-head', 'close-head', 'mid-body', 'drop-applied',
    'truncate', 'truncate-head', 'stall', 'stall-applied', 'idle-close', 'refuse', 'expired',
    'early', 'partial', 'service', 'service',
)  # fmt: skip


class Server:
    data_hosts = ()
    tls = True
    statuses = (500, 502, 503, 504, 408, 429, 507, 520)

    def __init__(self, cfg):
        self.cfg = cfg
        self.rng = net.rng_for('srv', cfg['seed'])
        self.objects = {}
        self.page = cfg['page']
        self.problems = []
        self.plan = []
        self.armed = False
        self.requests = 0
        self.handled = 0
        self.fired = []
        self.reached = []  # what could not fire
        self.net = net.Net(self.connect)
        self.attempts = 0

    # --- to be overridden
    def handle(self, req):
        raise NotImplementedError

    def locked(self, key):
        '''Whether deleting this object is forbidden'''
        return key in self.cfg.get('locked', ())

    def transient(self, req, how):
        '''An error response that clients are supposed to retry'''
        return self.plain_error(how)

    def service_fault(self, req, how):
        '''A fault specific to this kind of server -> Resp or None'''
        return None

    def partial(self, req, how):
        '''Answer for a bulk request of which some parts fail -> Resp or None'''
        return None

    def expire(self):
        return False

    def supports_bulk(self):
        return False

    # ---

    def plain_error(self, how):
        status = self.statuses[how % len(self.statuses)]
        kind = (how // 10) % 4
        headers = []
        ra = (how // 40) % 6
        if ra < 3:
            headers.append(('Retry-After', ('1', '7', 'Fri, 31 Dec 1999 23:59:59 GMT')[ra]))
        if kind == 0:
            return Resp(status, b'', headers)
        if kind == 1:
            return Resp(status, b'<html><body><h1>Bad &nbsp; Gateway</h1></body></html>', headers, 'text/html')
        if kind == 2:
            return Resp(status, b'x' * 3000, headers, 'text/plain')
        return Resp(status, b'upstream failure', headers)

    def next_fault(self, req):
        """Entries of the plan are [how many matching requests to skip, kind, how, which requests]"""
        if not self.armed:
            return None
        self.requests += 1
        for i, f in enumerate(self.plan):
            if not self.concerns(f[3] if len(f) > 3 else None, req):
                continue
            if f[0] <= 0:
                del self.plan[i]
                return f[1:3]
            f[0] -= 1
        return None

    def concerns(self, which, req):
        if which is None or which == req.method:
            return True
        # a request for the contents of an object
        return which == 'DATA' and req.method == 'GET' and (
            req.args == {'alt': 'media'} or (not req.args and self.name != 'gs'))  # fmt: skip

    async def connect(self, host, port, stream):
        try:
            if self.cfg.get('proxy'):
                if (host, port) != ('proxy.example', 3128):
                    raise Reject('connection to %s:%d bypasses the proxy' % (host, port))
                await self.be_proxy(stream)
            else:
                await self.serve(host, port, stream)
        except (net.BadRequest, Reject) as exc:
            self.problems.append(str(exc))
        except net.ClientGone:
            pass

    async def be_proxy(self, stream):
        rd = net.Reader(stream)
        while len(rd.buf) < 8:
            await rd.more()
        if not rd.buf.startswith(b'CONNECT '):
            return await self.serve(None, None, stream, rd)
        while b'\r\n\r\n' not in rd.buf:
            await rd.more()
        head = bytes(rd.buf)
        m = re.match(rb'^CONNECT ([a-z0-9.-]+):([0-9]+) HTTP/1\.[01]\r\n(?:.*\r\n)?\r\n$', head, re.S)
        if not m:
            raise Reject('malformed request to the proxy: %r' % head)
        await stream.send_all(b'HTTP/1.0 200 Connection established\r\n\r\n')
        await self.serve(m.group(1).decode(), int(m.group(2)), stream)

    async def serve(self, host, port, stream, rd=None):
        plain_proxy = rd is not None
        rd = rd or net.Reader(stream)
        while True:
            req = await rd.head()
            if req is None:
                return
            if plain_proxy:
                m = re.match(r'^http://([^/:]+)(?::([0-9]+))?(/.*)$', req.target)
                if not m:
                    raise Reject('the proxy got request target %r' % req.target)
                host, port, req.target = m.group(1), int(m.group(2) or 80), m.group(3)
            req.host, req.port = host, port
            req.tls = getattr(stream.client, 'tls_name', None)
            req.path, _, q = req.target.partition('?')
            req.query = urllib.parse.parse_qsl(q, keep_blank_values=True)
            req.args = dict(req.query)
            if (req.tls is not None) != self.wants_tls(host, port):
                raise Reject('TLS: %r for %s:%d' % (req.tls, host, port))
            if req.tls is not None and req.tls != host:
                raise Reject('wrong TLS name %r for %s' % (req.tls, host))
            n = rd.length(req)
            expect = req.get('Expect')
            fault = self.next_fault(req)
            kind, how = fault if fault else (None, 0)
            if fault:
                self.fired.append(kind)
            if kind == 'refuse':
                self.net.refuse.append(ConnectionRefusedError(111, 'refused'))
                kind = 'reset-head'
            if kind == 'reset-head':
                stream.reset()
                return
            if kind == 'close-head':
                return
            if kind == 'early':
                # reply before the body has been received, then give up the connection
                r = self.transient(req, how)
                r.headers.append(('Connection', 'close'))
                await self.reply(stream, req, r, 0)
                return
            if expect:
                if expect.lower() != '100-continue':
                    raise Reject('Expect: %s' % expect)
                await stream.send_all(b'HTTP/1.1 100 Continue\r\n\r\n')
            if kind == 'mid-body':
                await rd.body(n // 2)
                stream.reset()
                return
            req.body = await rd.body(n)
            if kind == 'expired' and not self.expire():
                kind = 'status'
            if kind == 'partial':
                r = self.partial(req, how)
                if r is not None:
                    await self.reply(stream, req, r, how)
                    continue
                kind = 'status-applied'
            if kind == 'service':
                r = self.service_fault(req, how)
                if r is not None:
                    await self.reply(stream, req, r, how)
                    continue
                kind = 'status'
            if kind == 'status':
                r = self.transient(req, how)
            else:
                if kind == 'stall':
                    await trio.sleep(1000)
                    return
                self.handled += 1
                try:
                    r = self.handle(req)
                except Reject as exc:
                    raise Reject('%s (%s %r)' % (exc, req.method, req.target))
            if kind == 'drop-applied':
                if how % 2:
                    stream.reset()
                return
            if kind == 'stall-applied':
                await trio.sleep(1000)
                return
            if kind == 'status-applied' and r.status < 300:
                r = self.transient(req, how)
            cut = None
            if kind == 'truncate':
                cut = 'body'
            elif kind == 'truncate-head':
                cut = 'head'
            if await self.reply(stream, req, r, how, cut):
                return
            if kind == 'idle-close':
                return

    async def reply(self, stream, req, r, how, cut=None):
        '''Send the response; returns True if the connection is to be closed'''
        rng = self.rng
        status = '%d %s' % (r.status, r.reason)
        h = list(r.headers)
        body = r.body
        close = False
        framing = rng.choice(('cl', 'cl', 'chunked', 'close'))
        if r.status == 204 or req.method == 'HEAD':
            if req.method == 'HEAD' and r.status < 300:
                h.append(('Content-Length', str(r.head_length or 0)))
            elif r.status != 204:
                h.append(('Content-Length', '0'))
            payload = b''
        else:
            if framing == 'close' and cut:
                framing = 'cl'
            if framing == 'cl':
                h.append(('Content-Length', str(len(body))))
                payload = body
            elif framing == 'chunked':
                h.append(('Transfer-Encoding', 'chunked'))
                payload = net.chunked(rng, body, rng.randrange(3))
            else:
                h.append(('Connection', 'close'))
                close = True
                payload = body
        if not close and (rng.random() < 0.1 or (self.cfg.get('auth_close') and self.is_auth(req))):
            h.append(('Connection', 'close'))
            close = True
        names = [n.lower() for n, _ in h]
        if names.count('connection') > 1:
            close = True
            i = names.index('connection')
            del h[i]
        rng.shuffle(h)
        head = ('HTTP/1.1 %s\r\n' % status + ''.join('%s: %s\r\n' % x for x in h) + '\r\n').encode('latin1')
        out = head + payload
        if cut == 'head':
            out = out[: how % len(head)]
        elif cut == 'body':
            if payload:
                out = head + payload[: (how * 7919) % len(payload)]
            else:
                out = out[: how % len(head)]
        await net.send(stream, net.split(rng, out, rng.randrange(3)))
        if cut:
            if how % 3 == 0:
                stream.reset()
            return True
        return close

    def wants_tls(self, host, port):
        return self.tls

    def is_auth(self, req):
        return False

    # --- listing

    def names(self, prefix, marker=None):
        '''All names with *prefix* behind *marker*, in the order of their UTF-8 encodings'''
        return sorted(
            (k for k in self.objects
             if k.startswith(prefix) and (marker is None or k.encode() > marker.encode())),
            key=lambda k: k.encode(),
        )  # fmt: skip


# ------------------------------------------------------------------------------- S3


S3_TRANSIENT = (
    ('InternalError', 500), ('SlowDown', 503), ('ServiceUnavailable', 503), ('RequestTimeout', 400),
    ('OperationAborted', 409), ('IncompleteBody', 400), ('Timeout', 503), ('InternalError', 200),
)  # fmt: skip


class S3(Server):
    '''Path-style S3 with signatures of version 2 or 4'''

    v4 = False
    region = 'us-east-1'

    def __init__(self, cfg):
        super().__init__(cfg)
        self.host, self.port = 'store.example', cfg.get('port', 9000)
        self.bucket = cfg.get('sbucket', 'bucket')
        self.tls = cfg['tls']
        self.login, self.password = 'AKID', 'se/cr+et'
        self.empty_page = cfg.get('empty_page', False)

    def xml_error(self, code, status, msg='something', headers=()):
        return Resp(
            status,
            '<?xml version="1.0" encoding="UTF-8"?>\n<Error><Code>%s</Code><Message>%s</Message>'
            '<Resource>/x</Resource></Error>' % (code, msg), headers, 'application/xml')  # fmt: skip

    def transient(self, req, how):
        if req.method == 'HEAD' or how % 3 == 0:
            return self.plain_error(how // 3)
        code, status = S3_TRANSIENT[(how // 3) % (len(S3_TRANSIENT) - 1)]
        return self.xml_error(code, status, headers=[('Retry-After', '3')] if how % 7 == 0 else [])

    # --- signatures

    def check_auth(self, req):
        auth = req.get('Authorization', '')
        if not req.get('Host', '').startswith(self.host):
            raise Reject('wrong Host %r' % req.get('Host'))
        if self.v4:
            return self.check_v4(req, auth)
        return self.check_v2(req, auth)

    def check_v2(self, req, auth):
        if auth.split(':')[0] != 'AWS ' + self.login:
            return 'InvalidAccessKeyId'
        amz = sorted((k.lower(), v) for k, v in req.headers if k.lower().startswith('x-amz-'))
        sub = [k for k, v in req.query if k in ('acl', 'delete', 'uploads', 'versioning')]
        s = '\n'.join([req.method, req.get('Content-MD5', ''), req.get('Content-Type', ''),
                       req.get('Date', '')]) + '\n'  # fmt: skip
        s += ''.join('%s:%s\n' % x for x in amz) + req.path + ('?' + sub[0] if sub else '')
        want = base64.b64encode(hmac.new(self.password.encode(), s.encode('latin1'), 'sha1').digest())
        if auth != 'AWS %s:%s' % (self.login, want.decode()):
            return 'SignatureDoesNotMatch'
        return None

    def check_v4(self, req, auth):
        m = re.match(r'^AWS4-HMAC-SHA256 Credential=([^,]+), ?SignedHeaders=([^,]+), ?Signature=([0-9a-f]{64})$', auth)  # fmt: skip
        if not m:
            raise Reject('malformed Authorization %r' % auth)
        cred, signed, sig = m.groups()
        parts = cred.split('/')
        if parts[0] != self.login:
            return 'InvalidAccessKeyId'
        date = req.get('x-amz-date', '')
        if parts[1:] != [date[:8], self.region, 's3', 'aws4_request']:
            raise Reject('wrong scope %r (date %r, region %r)' % (cred, date, self.region))
        hs = signed.split(';')
        need = {'host'} | {k.lower() for k, _ in req.headers if k.lower().startswith('x-amz-')}
        if hs != sorted(hs) or not need <= set(hs):
            raise Reject('signed headers %r' % signed)
        q = '&'.join('%s=%s' % x for x in sorted((enc(k), enc(v)) for k, v in req.query))
        canon = [req.method, '/'.join(enc(urllib.parse.unquote(p)) for p in req.path.split('/')), q]
        for h in hs:
            vals = [v for k, v in req.headers if k.lower() == h]
            if not vals:
                raise Reject('signed header %s is missing' % h)
            canon.append('%s:%s' % (h, ','.join(re.sub(' +', ' ', v.strip()) for v in vals)))
        payload = req.get('x-amz-content-sha256')
        if payload not in ('UNSIGNED-PAYLOAD', hashlib.sha256(req.body).hexdigest()):
            raise Reject('wrong payload hash')
        canon += ['', signed, payload]
        h = hashlib.sha256('\n'.join(canon).encode('latin1')).hexdigest()
        s = '\n'.join(['AWS4-HMAC-SHA256', date, '/'.join(parts[1:]), h])
        k = ('AWS4' + self.password).encode()
        for p in parts[1:]:
            k = hmac.new(k, p.encode(), 'sha256').digest()
        if hmac.new(k, s.encode(), 'sha256').hexdigest() != sig:
            return 'SignatureDoesNotMatch'
        return None

    # --- requests

    def split_path(self, req):
        '''-> bucket, key (or None for the bucket itself)'''
        p = req.path.split('/', 2)
        if p[0]:
            raise Reject('path %r' % req.path)
        bucket = urllib.parse.unquote(p[1], errors='strict')
        key = urllib.parse.unquote(p[2], errors='strict') if len(p) > 2 else ''
        return bucket, key

    def handle(self, req):
        bad = self.check_auth(req)
        if bad:
            if req.method == 'HEAD':
                return Resp(403)
            return self.xml_error(bad, 403)
        bucket, key = self.split_path(req)
        deny = self.cfg.get('deny')
        if deny:
            return Resp(403) if req.method == 'HEAD' else self.xml_error('AccessDenied', 403)
        if bucket != self.bucket:
            return Resp(404) if req.method == 'HEAD' else self.xml_error('NoSuchBucket', 404)
        if not key:
            return self.bucket_request(req)
        o = self.objects.get(key)
        if req.method in ('GET', 'HEAD'):
            if o is None:
                return Resp(404) if req.method == 'HEAD' else self.xml_error('NoSuchKey', 404)
            etag = o.md5 if self.rng.random() < 0.8 else o.md5.upper()
            h = self.meta_headers(o) + [('ETag', '"%s"' % etag), ('x-amz-request-id', 'ABC')]
            return Resp(200, b'' if req.method == 'HEAD' else o.data, h, 'binary/octet-stream', len(o.data))
        if req.method == 'DELETE':
            if self.locked(key):
                return self.xml_error('AccessDenied', 403)
            self.objects.pop(key, None)
            if o is None and self.cfg.get('del404'):
                return self.xml_error('NoSuchKey', 404)
            return Resp(204)
        if req.method == 'PUT':
            self.check_md5(req)
            if len(key.encode()) > 1024:
                return self.xml_error('KeyTooLongError', 400)
            hs = [(k.lower(), v) for k, v in req.headers if k.lower().startswith('x-amz-meta-')]
            if sum(len(k) + len(v) for k, v in hs) > 8192:
                return self.xml_error('MetadataTooLarge', 400)
            self.put_headers(req)
            o = self.objects[key] = Obj(req.body, hs)
            return Resp(200, b'', [('ETag', '"%s"' % o.md5)])
        raise Reject('unexpected method')

    def put_headers(self, req):
        pass

    def meta_headers(self, o):
        return o.headers

    def check_md5(self, req):
        md5 = req.get('Content-MD5')
        if md5 and base64.b64decode(md5) != hashlib.md5(req.body).digest():
            raise Reject('wrong Content-MD5')

    def bucket_request(self, req):
        if req.method == 'HEAD':
            return Resp(200)
        if req.method == 'GET':
            return self.list(req)
        if req.method == 'POST' and req.query == [('delete', '')]:
            return self.bulk(req)
        raise Reject('unexpected bucket request %s %r' % (req.method, req.query))

    def list(self, req):
        a = req.args
        if set(a) - {'prefix', 'max-keys', 'marker', 'delimiter', 'encoding-type'}:
            raise Reject('unexpected list arguments %r' % a)
        names = self.names(a.get('prefix', ''), a.get('marker') or None)
        limit = min(int(a.get('max-keys', 1000)), self.page)
        if self.empty_page and names and self.rng.random() < 0.3:
            # a truncated page without contents
            nxt = a.get('marker') or a.get('prefix', '')[:-1] or '\x20'
            return self.page_xml(req, [], True, '<NextMarker>%s</NextMarker>' % xml_escape(nxt))
        return self.page_xml(req, names[:limit], len(names) > limit, '')

    def xmlns(self):
        return '' if self.cfg.get('no_ns') else ' xmlns="%s"' % S3_NS

    def page_xml(self, req, names, truncated, extra):
        out = '<?xml version="1.0" encoding="UTF-8"?>\n<ListBucketResult%s><Name>%s</Name>' % (
            self.xmlns(), self.bucket)  # fmt: skip
        out += '<MaxKeys>%d</MaxKeys><IsTruncated>%s</IsTruncated>%s' % (
            self.page, 'true' if truncated else 'false', extra)  # fmt: skip
        for n in names:
            out += '<Contents><Key>%s</Key><Size>%d</Size><StorageClass>STANDARD</StorageClass></Contents>' % (
                xml_escape(n), len(self.objects[n].data))  # fmt: skip
        ct = self.rng.choice(('application/xml', 'text/xml; charset=utf-8', 'application/xml;charset=UTF-8'))
        return Resp(200, out + '</ListBucketResult>', (), ct)

    def bulk_keys(self, req):
        if req.get('Content-MD5') is None:
            raise Reject('bulk delete without Content-MD5')
        self.check_md5(req)
        root = ET.fromstring(req.body)
        if root.tag.rpartition('}')[2] != 'Delete':
            raise Reject('bulk delete: root element %s' % root.tag)
        keys = [o.findtext('Key') for o in root if o.tag.rpartition('}')[2] == 'Object']
        if not keys or None in keys or len(keys) > 1000:
            raise Reject('bulk delete: malformed list of %d keys' % len(keys))
        return keys

    def bulk(self, req):
        keys = self.bulk_keys(req)
        done = ''
        for k in keys:
            if self.locked(k):
                done += '<Error><Key>%s</Key><Code>AccessDenied</Code><Message>no</Message></Error>' % xml_escape(k)
                continue
            if k not in self.objects and self.cfg.get('del404'):
                done += '<Error><Key>%s</Key><Code>NoSuchKey</Code><Message>no</Message></Error>' % xml_escape(k)
                continue
            self.objects.pop(k, None)
            done += '<Deleted><Key>%s</Key></Deleted>' % xml_escape(k)
        ct = None if self.rng.random() < 0.2 else 'application/xml'
        return Resp(200, '<?xml version="1.0" encoding="UTF-8"?>\n<DeleteResult%s>%s</DeleteResult>'
                    % (self.xmlns(), done), (), ct)  # fmt: skip

    def partial(self, req, how):
        if req.method != 'POST' or self.check_auth(req):
            return None
        keys = self.bulk_keys(req)
        code = ('InternalError', 'SlowDown', 'OperationAborted', 'ServiceUnavailable')[how % 4]
        bad = {k for i, k in enumerate(keys) if (how // 4 + i * 7) % 3 == 0} or {keys[0]}
        out = ''
        for k in keys:
            if k in bad:
                out += '<Error><Key>%s</Key><Code>%s</Code><Message>try again</Message></Error>' % (
                    xml_escape(k), code)  # fmt: skip
            else:
                self.objects.pop(k, None)
                out += '<Deleted><Key>%s</Key></Deleted>' % xml_escape(k)
        return Resp(200, '<?xml version="1.0" encoding="UTF-8"?>\n<DeleteResult%s>%s</DeleteResult>'
                    % (self.xmlns(), out), (), 'application/xml')  # fmt: skip

    # --- what the client needs

    name = 's3c'

    def url(self, prefix):
        return '%s://%s:%d/%s/%s' % (self.name, self.host, self.port, self.bucket, prefix)

    def options(self):
        o = {} if self.tls else {'no-ssl': True}
        if self.cfg.get('no100'):
            o['disable-expect100'] = True
        return o


class S3V4(S3):
    name = 's3c4'
    v4 = True

    def supports_bulk(self):
        return True

    def __init__(self, cfg):
        super().__init__(cfg)
        self.region = cfg.get('region', 'us-east-1')

    def options(self):
        o = super().options()
        if self.region != 'us-east-1':
            o['sig-region'] = self.region
        return o


class Amazon(S3V4):
    name = 's3'

    def __init__(self, cfg):
        super().__init__(cfg)
        self.port = 443 if self.tls else 80
        self.region = cfg.get('region', 'eu-west-2')
        self.first = 's3.%s.amazonaws.com' % self.region
        self.host = self.first
        self.redirect = cfg.get('redirect', False)
        if self.redirect:
            self.host = 's3.far-away-1.amazonaws.com'

    def handle(self, req):
        if req.host != self.host:
            if req.host != self.first:
                raise Reject('request to %s' % req.host)
            return Resp(307, b'', [('Location', '%s://%s/%s/' % ('https' if self.tls else 'http', self.host,
                                                                self.bucket))])  # fmt: skip
        return super().handle(req)

    def put_headers(self, req):
        want = {'ia': 'STANDARD_IA', 'oia': 'ONEZONE_IA', 'rrs': 'REDUCED_REDUNDANCY',
                'ia+rrs': 'REDUCED_REDUNDANCY',
                'it': 'INTELLIGENT_TIERING', None: 'STANDARD'}[self.cfg.get('class')]  # fmt: skip
        if req.get('x-amz-storage-class', 'STANDARD') != want:
            raise Reject('storage class %r' % req.get('x-amz-storage-class'))
        if (req.get('x-amz-server-side-encryption') == 'AES256') != bool(self.cfg.get('sse')):
            raise Reject('server side encryption')

    def url(self, prefix):
        return 's3://%s/%s/%s' % (self.region, self.bucket, prefix)

    def options(self):
        o = super().options()
        o.pop('sig-region', None)
        if self.cfg.get('class'):
            o.update({k: True for k in self.cfg['class'].split('+')})
        if self.cfg.get('sse'):
            o['sse'] = True
        return o


class B2(S3V4):
    name = 'b2'

    def __init__(self, cfg):
        super().__init__(cfg)
        self.tls = True
        self.bucket = 'bucket-1'
        self.port = 443
        self.region = cfg.get('region', 'us-west-004')
        self.host = 's3.%s.backblazeb2.com' % self.region

    def meta_headers(self, o):
        if self.cfg.get('legacy'):
            # an object that was stored through the native API
            return [('x-amz-meta-' + n[6:], v) if n.startswith('x-amz-meta-') else (n, v) for n, v in o.headers]
        return o.headers

    def transient(self, req, how):
        if req.host == 'api.backblazeb2.com':
            return self.plain_error(how)
        return super().transient(req, how)

    def is_auth(self, req):
        return req.host == 'api.backblazeb2.com'

    def handle(self, req):
        if req.host == 'api.backblazeb2.com':
            cred = base64.b64encode(('%s:%s' % (self.login, self.password)).encode()).decode()
            if req.path != '/b2api/v4/b2_authorize_account' or req.method != 'GET':
                raise Reject('unexpected request')
            if req.get('Authorization') != 'Basic ' + cred:
                return Resp(401, '{"code": "bad_auth_token", "status": 401}', (), 'application/json')
            if self.cfg.get('deny'):
                return Resp(403, '{"code": "no", "message": "Caps", "status": 403}', (), 'application/json')
            u = 'https://' + self.host
            d = {'s3ApiUrl': u} if self.cfg['seed'] % 2 else {'apiInfo': {'storageApi': {'s3ApiUrl': u}}}
            return Resp(200, json.dumps(d), (), 'application/json;charset=utf-8')
        return super().handle(req)

    def url(self, prefix):
        return 'b2://%s/%s' % (self.bucket, prefix)

    def options(self):
        return {'disable-expect100': True} if self.cfg.get('no100') else {}


# --------------------------------------------------------------------- Google Storage

_serial = [0]


class Google(Server):
    name = 'gs'
    login = 'oauth2'

    def __init__(self, cfg):
        super().__init__(cfg)
        self.bucket = cfg.get('bucket', 'my_bucket')
        _serial[0] += 1
        # tokens are cached per refresh token beyond the life of a backend
        self.password = 'refresh/%d' % _serial[0]
        self.tokens = {}
        self.count = 0
        self.lifetime = cfg.get('lifetime', 3600)

    def error(self, status, msg):
        return Resp(status, json.dumps({'error': {'code': status, 'message': msg, 'errors': []}}), (),
                    'application/json; charset=UTF-8')  # fmt: skip

    def json(self, obj):
        return Resp(200, json.dumps(obj), (), self.rng.choice((
            'application/json; charset=UTF-8', 'application/json', 'application/json; charset="utf-8"')))  # fmt: skip

    def transient(self, req, how):
        if how % 3 == 0:
            return self.plain_error(how // 3)
        return self.error((500, 502, 503, 504, 408, 429)[(how // 3) % 6], 'Backend Error')

    def service_fault(self, req, how):
        if req.host == 'accounts.google.com':
            return Resp((500, 503)[how % 2], '{"error": "internal_failure"}', (), 'application/json; charset=utf-8')
        if req.method in ('GET', 'POST') and 'alt' not in req.args:
            # a page of some proxy instead of the requested JSON
            return Resp(200, b'<html>Please wait</html>', (), 'text/html')
        return None

    def expire(self):
        self.tokens.clear()
        return True

    def wants_tls(self, host, port):
        return True

    def handle(self, req):
        if req.host == 'accounts.google.com':
            return self.token(req)
        if req.host != 'www.googleapis.com' or req.port != 443:
            raise Reject('request to %s:%d' % (req.host, req.port))
        auth = req.get('Authorization', '')
        until = self.tokens.get(auth.replace('Bearer ', '', 1))
        if until is None or until < trio.current_time():
            return self.error(401, 'Invalid Credentials')
        if self.cfg.get('deny'):
            return self.error(403, 'Forbidden')
        b = urllib.parse.quote(self.bucket, safe='')
        base = '/storage/v1/b/'
        up = '/upload/storage/v1/b/'
        path = req.path[len(up):] if req.path.startswith(up) else req.path[len(base):]
        if not req.path.startswith((base, up)):
            raise Reject('unexpected path')
        name, _, rest = path.partition('/')
        if name != b:
            return self.error(404, 'Not Found')
        if req.path.startswith(up):
            if req.method != 'POST' or rest != 'o' or req.args != {'uploadType': 'multipart'}:
                raise Reject('unexpected upload request')
            return self.upload(req)
        if not rest:
            return self.json({'kind': 'storage#bucket', 'name': self.bucket})
        if rest == 'o':
            return self.list(req)
        if not rest.startswith('o/') or '/' in rest[2:]:
            raise Reject('unexpected path')
        key = urllib.parse.unquote(rest[2:], errors='strict')
        o = self.objects.get(key)
        if o is None:
            return self.error(404, 'No such object: x')
        if req.method == 'DELETE':
            if self.locked(key):
                return self.error(403, 'Forbidden')
            del self.objects[key]
            return Resp(204)
        if req.method != 'GET':
            raise Reject('unexpected method')
        if req.args == {'alt': 'media'}:
            return Resp(200, o.data, (), 'application/octet-stream')
        if req.args:
            raise Reject('unexpected arguments')
        d = {'name': key, 'size': str(len(o.data)), 'bucket': self.bucket, 'md5Hash': o.md5}
        if o.headers:
            d['metadata'] = self.legacy(o.headers) if self.cfg.get('legacy') else o.headers
        return self.json(d)

    def legacy(self, meta):
        '''Format of older versions'''
        buf = ''.join('%r: %s,' % x for x in meta.items())
        d = {'%03d' % i: buf[k : k + 255] for i, k in enumerate(range(0, len(buf), 255))}
        return dict(d, format='raw2', md5='x')

    def is_auth(self, req):
        return req.host == 'accounts.google.com'

    def token(self, req):
        a = dict(urllib.parse.parse_qsl(req.body.decode()))
        if req.path != '/o/oauth2/token' or req.method != 'POST' or a.get('grant_type') != 'refresh_token':
            raise Reject('unexpected token request')
        if a.get('refresh_token') != self.password:
            return Resp(400, '{"error": "invalid_grant"}', (), 'application/json')
        self.count += 1
        t = 'token-%d' % self.count
        self.tokens[t] = trio.current_time() + self.lifetime
        d = {'access_token': t, 'token_type': 'Bearer'}
        if self.cfg['seed'] % 3:
            d['expires_in'] = self.lifetime
        elif self.lifetime < 1800:
            d['expires_in'] = str(self.lifetime)
        return self.json(d)

    def list(self, req):
        a = req.args
        if set(a) - {'prefix', 'maxResults', 'pageToken'}:
            raise Reject('unexpected list arguments %r' % a)
        marker = None
        if 'pageToken' in a:
            marker = base64.b64decode(a['pageToken']).decode()
            if not marker.startswith('M'):
                raise Reject('invalid page token')
            marker = marker[1:] or None
        names = self.names(a.get('prefix', ''), marker)
        limit = min(int(a.get('maxResults', 1000)), self.page)
        d = {'kind': 'storage#objects'}
        if self.cfg.get('empty_page') and names and self.rng.random() < 0.3:
            d['nextPageToken'] = base64.b64encode(b'M' + (marker or '').encode()).decode()
            if self.rng.random() < 0.5:
                d['items'] = []
            return self.json(d)
        if names:
            d['items'] = [{'name': n, 'size': str(len(self.objects[n].data))} for n in names[:limit]]
        if len(names) > limit:
            d['nextPageToken'] = base64.b64encode(b'M' + names[limit - 1].encode()).decode()
        return self.json(d)

    def upload(self, req):
        m = re.match(r'^multipart/related; boundary="?([^"]+)"?$', req.get('Content-Type', ''))
        if not m:
            raise Reject('content type %r' % req.get('Content-Type'))
        bound = b'--' + m.group(1).encode()
        if not req.body.startswith(bound + b'\n') or not req.body.endswith(b'\n' + bound + b'--\n'):
            raise Reject('malformed multipart body')
        body = req.body[len(bound) + 1: -len(bound) - 4]
        head, _, rest = body.partition(b'\n\n')
        if b'application/json' not in head:
            raise Reject('first part is not JSON')
        js, _, rest = rest.partition(b'\n' + bound + b'\n')
        head, _, data = rest.partition(b'\n\n')
        info = json.loads(js.decode())
        meta = info.get('metadata') or {}
        if any(not isinstance(v, str) for v in meta.values()) or set(info) - {'metadata', 'name'}:
            raise Reject('malformed metadata')
        self.objects[info['name']] = Obj(data, meta)
        return self.json({'name': info['name'], 'size': str(len(data))})

    def url(self, prefix):
        return 'gs://%s/%s' % (self.bucket, prefix)

    def options(self):
        return {}


# ------------------------------------------------------------------------------ Swift


class Swift(Server):
    name = 'swift'
    statuses = Server.statuses + (499,)

    def __init__(self, cfg):
        super().__init__(cfg)
        self.bucket = cfg.get('bucket', 'box')
        self.tls = cfg['tls']
        self.login, self.password = 'acct:user', 'pass word'
        self.auth_host, self.auth_port = 'auth.example', 8443
        self.storage_tls = cfg.get('storage_tls', self.tls)
        self.host, self.port = 'storage.example', cfg.get('port', 8888)
        self.base = '/v1/AUTH_' + ('x' if cfg['seed'] % 2 else 'ä b')
        self.token = None
        self.count = 0
        self.bulk_max = cfg.get('bulk', 0)
        self.meta_max = cfg.get('meta_max', 256)
        if cfg.get('noinfo'):
            # the client has to assume the default
            self.meta_max = max(256, self.meta_max)

    def supports_bulk(self):
        return self.bulk_max > 0 and not self.cfg.get('noinfo')

    def wants_tls(self, host, port):
        if host == self.host:
            return self.storage_tls
        return self.tls

    def plain_error(self, how):
        r = super().plain_error(how)
        if r.status == 499:
            r.reason = 'Client Disconnect' + ('ed' if how else 'ed')
        return r

    def expire(self):
        self.token = None
        return True

    def storage_url(self):
        default = self.port == (443 if self.storage_tls else 80)
        return '%s://%s%s%s' % ('https' if self.storage_tls else 'http', self.host,
                                '' if default else ':%d' % self.port,
                                urllib.parse.quote(self.base))  # fmt: skip

    def is_auth(self, req):
        return req.host == self.auth_host

    def auth(self, req):
        paths = ('/v1.0', '/auth/v1.0')
        if req.method != 'GET' or req.path not in paths:
            raise Reject('unexpected request to the auth server')
        if req.path != paths[self.cfg['seed'] % 2]:
            return Resp((404, 412)[self.cfg['seed'] // 2 % 2], b'nothing here', (), 'text/plain')
        if (req.get('X-Auth-User'), req.get('X-Auth-Key')) != (self.login, self.password):
            return Resp(401, b'no')
        self.new_token()
        return Resp(self.rng.choice((200, 204)), b'', [('X-Auth-Token', self.token),
                                                      ('X-Storage-Url', self.storage_url())])  # fmt: skip

    def new_token(self):
        self.count += 1
        self.token = 'tk%d' % self.count

    def handle(self, req):
        if req.host == self.auth_host:
            if req.port != self.auth_port:
                raise Reject('wrong port %d' % req.port)
            return self.auth(req)
        if (req.host, req.port) != (self.host, self.port):
            raise Reject('request to %s:%d' % (req.host, req.port))
        if req.path == '/info':
            return self.info(req)
        if req.get('X-Auth-Token') != self.token or self.token is None:
            return Resp(401, b'<html><h1>Unauthorized</h1></html>', (), 'text/html')
        if self.cfg.get('deny'):
            return Resp(403, b'<html><h1>Forbidden</h1></html>', (), 'text/html')
        path = urllib.parse.unquote(req.path, errors='strict')
        if not path.startswith(self.base + '/'):
            raise Reject('unexpected path %r' % path)
        box, slash, key = path[len(self.base) + 1:].partition('/')
        if box != self.bucket:
            return Resp(404, b'<html><h1>Not Found</h1></html>', (), 'text/html')
        if not key:
            if req.method == 'POST' and req.query == [('bulk-delete', '')]:
                if not self.bulk_max:
                    raise Reject('bulk delete is not supported')
                return self.bulk(req, None)
            if req.method == 'GET':
                return self.list(req)
            raise Reject('unexpected container request')
        o = self.objects.get(key)
        if req.method in ('GET', 'HEAD', 'DELETE') and o is None:
            return Resp(404, b'<html><h1>Not Found</h1></html>', (), 'text/html')
        if req.method in ('GET', 'HEAD'):
            h = o.headers + [('Etag', o.md5 if self.rng.random() < 0.8 else '"%s"' % o.md5),
                             ('X-Timestamp', '1.5')]  # fmt: skip
            return Resp(200, b'' if req.method == 'HEAD' else o.data, h, 'application/octet-stream', len(o.data))
        if req.method == 'DELETE':
            if self.locked(key):
                return Resp(403, b'<html><h1>Forbidden</h1></html>', (), 'text/html')
            del self.objects[key]
            return Resp(204)
        if req.method == 'PUT':
            hs = [(k, v) for k, v in req.headers if k.lower().startswith('x-object-meta-')]
            if any(len(v) > self.meta_max for _, v in hs):
                raise Reject('metadata value too long')
            o = self.objects[key] = Obj(req.body, hs)
            return Resp(201, b'', [('Etag', o.md5)], 'text/html')
        raise Reject('unexpected method')

    def info(self, req):
        k = self.cfg.get('info', 0)
        if self.cfg.get('noinfo'):
            raise Reject('/info was requested in spite of no-feature-detection')
        if not self.bulk_max and self.meta_max == 256 and k:
            return Resp((404, 403, 401)[k % 3], b'no')
        d = {'swift': {'version': '2.1', 'max_meta_value_length': self.meta_max}}
        if self.bulk_max:
            d['bulk_delete'] = {'max_failed_deletes': self.bulk_max, 'max_deletes_per_request': self.bulk_max + k}
        return Resp(200, json.dumps(d), (), self.rng.choice((
            'application/json', 'application/json; charset=utf-8', 'application/json; charset="utf-8"')))  # fmt: skip

    def list(self, req):
        a = req.args
        if set(a) - {'prefix', 'limit', 'marker', 'format'}:
            raise Reject('unexpected list arguments %r' % a)
        names = self.names(a.get('prefix', ''), a.get('marker') or None)[: int(a.get('limit', 10000))]
        if not names and self.rng.random() < 0.5:
            return Resp(204, b'', (), 'text/plain; charset=utf-8')
        if a.get('format') != 'json':
            return Resp(200, '\n'.join(names), (), 'text/plain; charset=utf-8')
        return Resp(200, json.dumps([{'name': n, 'bytes': len(self.objects[n].data)} for n in names]),
                    (), 'application/json; charset=%s' % self.rng.choice(('utf-8', '"utf-8"')))  # fmt: skip

    def bulk(self, req, how):
        if not req.get('Content-Type', '').startswith('text/plain'):
            raise Reject('bulk delete: content type')
        lines = [x for x in req.body.decode().split('\n') if x.strip()]
        pre = '/%s/' % self.bucket
        keys = []
        for ln in lines:
            p = urllib.parse.unquote(ln.strip(), errors='strict')
            if not p.startswith(pre):
                raise Reject('bulk delete: %r is not in the container' % p)
            keys.append(p[len(pre):])
        d = {'Response Status': '200 OK', 'Response Body': '', 'Number Deleted': 0,
             'Number Not Found': 0, 'Errors': []}  # fmt: skip
        if len(keys) > self.bulk_max + self.cfg.get('info', 0):
            d['Response Status'] = '413 Request Entity Too Large'
            d['Response Body'] = 'Maximum Bulk Deletes: %d per request' % self.bulk_max
            return self.bulk_reply(d)
        stop = len(keys)
        bad = set()
        mode = None
        if how is not None:
            mode = ('errors', 'abort', 'expire', 'errors')[how % 4]
            if mode in ('abort', 'expire'):
                stop = (how // 4) % (len(keys) + 1)
            else:
                bad = {k for i, k in enumerate(keys) if (how // 4 + i * 7) % 3 == 0}
        for i, k in enumerate(keys):
            if i >= stop:
                if mode == 'expire':
                    # the token has expired in the middle
                    d['Errors'].append([urllib.parse.quote(pre + k), '401 Unauthorized'])
                    continue
                break
            if self.locked(k) and k in self.objects:
                d['Errors'].append([urllib.parse.quote(pre + k), '403 Forbidden'])
            elif k in bad:
                d['Errors'].append([urllib.parse.quote(pre + k), '503 Service Unavailable'])
            elif self.objects.pop(k, None) is None:
                d['Number Not Found'] += 1
            else:
                d['Number Deleted'] += 1
        if mode == 'expire' and d['Errors']:
            self.token = None
            d['Response Status'] = '401 Unauthorized'
        elif mode == 'abort':
            d['Response Status'] = '500 Internal Error'
        elif d['Errors']:
            d['Response Status'] = '502 Bad Gateway' if (how or 0) % 8 < 4 else '400 Bad Request'
        elif not d['Number Deleted'] and not d['Number Not Found']:
            d['Response Status'], d['Response Body'] = '400 Bad Request', 'Invalid bulk delete.'
        elif not d['Number Deleted'] and self.cfg['seed'] % 2:
            d['Response Status'] = '404 Not Found'
        return self.bulk_reply(d)

    def bulk_reply(self, d):
        return Resp(200, ' ' * self.rng.choice((0, 0, 5)) + json.dumps(d), (), self.rng.choice((
            'application/json', 'application/json; charset=UTF-8')))  # fmt: skip

    def partial(self, req, how):
        if req.method != 'POST' or req.host != self.host or req.get('X-Auth-Token') != self.token:
            return None
        if self.token is None:
            return None
        return self.bulk(req, how)

    def url(self, prefix):
        return 'swift://%s:%d/%s/%s' % (self.auth_host, self.auth_port, self.bucket, prefix)

    def options(self):
        o = {} if self.tls else {'no-ssl': True}
        if self.cfg.get('no100'):
            o['disable-expect100'] = True
        if self.cfg.get('noinfo'):
            o['no-feature-detection'] = True
        return o


class Keystone(Swift):
    name = 'swiftks'
    region = 'Reg-1'

    def __init__(self, cfg):
        super().__init__(cfg)
        self.login = 'tenant:user' if cfg.get('v3') or cfg['seed'] % 3 else 'user'

    def auth(self, req):
        v3 = self.cfg.get('v3')
        if req.method != 'POST' or req.path != ('/v3/auth/tokens' if v3 else '/v2.0/tokens'):
            raise Reject('unexpected request to the auth server')
        d = json.loads(req.body)['auth']
        tenant, _, user = self.login.rpartition(':')
        if v3:
            key = 'name' if v3 == 2 else 'id'
            u = d['identity']['password']['user']
            ok = (u['name'], u['password']) == (user, self.password) and u['domain'] == {key: 'dom'}
            ok = ok and d['scope']['project'] == {'id': tenant, 'domain': {key: 'dom'}}
        else:
            ok = d['passwordCredentials'] == {'username': user, 'password': self.password}
            ok = ok and d.get('tenantName', '') == tenant
        if not ok:
            return Resp(401, '{}', (), 'application/json')
        self.new_token()
        url = self.storage_url()
        other = 'https://wrong.example/v1/other'
        regions = ['Reg-2'] if self.cfg.get('noregion') else ['Reg-2', self.region]
        if v3:
            eps = []
            for r in regions:
                for kind in ('admin', 'internal', 'public'):
                    good = r == self.region and kind == 'public'
                    eps.append({'region': r, 'interface': kind, 'url': url if good else other})
            cat = [{'type': 'compute', 'endpoints': [{'region': self.region, 'interface': 'public', 'url': other}]},
                   {'type': 'object-store', 'endpoints': eps}]  # fmt: skip
            return Resp(201, json.dumps({'token': {'catalog': cat}}), [('X-Subject-Token', self.token)],
                        'application/json')  # fmt: skip
        cat = [{'type': 'compute', 'endpoints': [{'region': self.region, 'publicURL': other}]},
               {'type': 'object-store', 'endpoints': [
                   {'region': r, 'publicURL': url if r == self.region else other} for r in regions]}]  # fmt: skip
        return Resp(200, json.dumps({'access': {'token': {'id': self.token}, 'serviceCatalog': cat}}), (),
                    'application/json')  # fmt: skip

    def url(self, prefix):
        return 'swiftks://%s:%d/%s:%s/%s' % (self.auth_host, self.auth_port, self.region, self.bucket, prefix)

    def options(self):
        o = super().options()
        if self.cfg.get('v3'):
            o['domain'] = 'dom'
            if self.cfg['v3'] == 2:
                o['domain-is-name'] = True
        return o


class Rackspace(Keystone):
    name = 'rackspace'

    def __init__(self, cfg):
        cfg = dict(cfg, v3=0, tls=True)
        super().__init__(cfg)
        self.auth_host, self.auth_port = 'auth.api.rackspacecloud.com', 443

    def url(self, prefix):
        return 'rackspace://%s/%s/%s' % (self.region, self.bucket, prefix)


KINDS = {'s3c': S3, 's3c4': S3V4, 's3': Amazon, 'b2': B2, 'gs': Google, 'swift': Swift,
         'swiftks': Keystone, 'rackspace': Rackspace}  # fmt: skip
