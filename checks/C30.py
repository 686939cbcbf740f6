'''C30: with TLS nothing is sent to a server that does not prove its identity.'''

import contextlib
import datetime
import functools
import os
import ssl
import subprocess
import warnings

from checks.C13 import make_backend, proxies
from harness import env, servers
from harness.core import Part, Property, Violation, check

KINDS = tuple(sorted(servers.KINDS))
GOOD = {'name': ('exact', 'exact', 'wild', 'upper', 'more'), 'chain': ('root', 'root', 'inter'), 'dates': ('ok',),
        'eku': (None, 'server', 'both'), 'tls': ('any', '1.2', '1.3')}  # fmt: skip
BAD = {'name': ('other', 'parent', 'prefix', 'deep', 'suffix', 'star', 'sub'), 'chain': ('nointer', 'self', 'leaf', 'rogue'),
       'dates': ('expired', 'future'), 'eku': ('client',), 'tls': ('1.1',)}  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    def recipe():
        good = st.fixed_dictionaries({k: st.sampled_from(v) for k, v in GOOD.items()})
        flaw = st.sampled_from([(k, v) for k in BAD for v in BAD[k]])
        return st.tuples(good, st.sampled_from('AAAAAAB'), st.one_of(st.none(), st.none(), flaw)).map(
            lambda x: dict(x[0], ca=x[1], **({} if x[2] is None else {x[2][0]: x[2][1]}))
            if x[2] is None or x[2][0] not in x[0] else {**x[0], 'ca': x[1], x[2][0]: x[2][1]})  # fmt: skip

    cfg = st.fixed_dictionaries({
        'seed': st.integers(0, 9999), 'page': st.just(1000), 'tls': st.sampled_from((True, True, True, True, False)),
        'no100': st.booleans(), 'port': st.sampled_from((9000, 443, 80)), 'region': st.just('us-east-1'),
        'redirect': st.sampled_from((False, False, True)), 'class': st.none(), 'sse': st.just(False),
        'empty_page': st.just(False), 'no_ns': st.just(False), 'del404': st.just(False), 'lifetime': st.just(3600),
        'bulk': st.sampled_from((0, 1000)), 'meta_max': st.just(256), 'info': st.integers(0, 3),
        'proxy': st.booleans(), 'auth_close': st.booleans(), 'legacy': st.booleans(),
        'sbucket': st.just('bucket'), 'noinfo': st.booleans(), 'storage_tls': st.just(True),
        'v3': st.sampled_from((0, 1, 2)),
    })  # fmt: skip
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'cfg': cfg, 'prefix': st.sampled_from(('', 'pre/')), 'conns': st.integers(1, 3),
        'given': st.sampled_from(('file', 'file', 'dir', None)), 'given_ca': st.sampled_from(('A', 'A', 'AB', 'B')),
        'env': st.sampled_from((None, 'A', 'A', 'B', 'AB')), 'certs': st.lists(recipe(), min_size=4, max_size=4),
        'size': st.sampled_from((0, 10, 70000)), 'flip': st.sampled_from((None, None, None, 1, 2, 3)),
    })  # fmt: skip


# ------------------------------------------------------------------------- certificates


def day(year):
    return datetime.datetime(year, 1, 1, tzinfo=datetime.timezone.utc)


@functools.cache
def key(name):
    from cryptography.hazmat.primitives.asymmetric import ec

    return ec.generate_private_key(ec.SECP256R1())


def make_cert(subject, pubkey, issuer, signer, ca=False, san=(), dates='ok', eku=None):
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes
    from cryptography.x509.oid import ExtendedKeyUsageOID, NameOID

    def name(s):
        return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, s[:64])])

    first, last = {'ok': (2000, 2120), 'expired': (2000, 2010), 'future': (2100, 2120)}[dates]
    b = (
        x509.CertificateBuilder().subject_name(name(subject)).issuer_name(name(issuer)).public_key(pubkey.public_key())
        .serial_number(x509.random_serial_number()).not_valid_before(day(first)).not_valid_after(day(last))
        .add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True)
    )  # fmt: skip
    if san:
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(s) for s in san]), critical=False)
    use = {'server': [ExtendedKeyUsageOID.SERVER_AUTH], 'client': [ExtendedKeyUsageOID.CLIENT_AUTH],
           'both': [ExtendedKeyUsageOID.CLIENT_AUTH, ExtendedKeyUsageOID.SERVER_AUTH]}.get(eku)  # fmt: skip
    if use:
        b = b.add_extension(x509.ExtendedKeyUsage(use), critical=False)
    return b.sign(signer, hashes.SHA256())


def pem(*certs):
    from cryptography.hazmat.primitives.serialization import Encoding

    return b''.join(c.public_bytes(Encoding.PEM) for c in certs)


@functools.cache
def root(name):
    return make_cert('Root ' + name, key('root' + name), 'Root ' + name, key('root' + name), ca=True)


@functools.cache
def inter(name, ca):
    return make_cert('Middle ' + name, key('inter' + name), 'Root ' + name, key('root' + name), ca=ca)


@functools.cache
def subject_hash(name):
    r = subprocess.run(['openssl', 'x509', '-hash', '-noout'], input=pem(root(name)), capture_output=True, check=True)
    return r.stdout.decode().strip()


def names_for(host, how):
    '''-> (names in the certificate, does it stand for *host*)'''
    first, _, rest = host.partition('.')
    if how == 'wild' and rest.count('.') > 0:
        return ['*.' + rest], True
    return {
        'upper': ([host.upper()], True), 'more': (['a.test', host, 'b.test'], True),
        'other': (['www.evil.test'], False), 'parent': ([rest], False), 'prefix': (['x' + host], False),
        'deep': (['*.' + host], False), 'suffix': ([host + '.evil.test'], False), 'star': (['*'], False),
        'sub': (['www.' + host], False),
    }.get(how, ([host], True))  # fmt: skip


def judge(host, r, trusted):
    return (
        names_for(host, r['name'])[1] and r['chain'] in GOOD['chain'] and r['dates'] == 'ok' and r['eku'] != 'client'
        and r['tls'] != '1.1' and r['ca'] in trusted
    )  # fmt: skip


def server_context(host, r, path):
    from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

    san = names_for(host, r['name'])[0]
    own, ca = key('leaf'), r['ca']
    issuer, signer, more = {
        'root': ('Root ' + ca, key('root' + ca), ()), 'inter': ('Middle ' + ca, key('inter' + ca), (inter(ca, True),)),
        'nointer': ('Middle ' + ca, key('inter' + ca), ()), 'leaf': ('Middle ' + ca, key('inter' + ca), (inter(ca, False),)),
        'self': (host, own, ()), 'rogue': ('Root ' + ca, key('rogue'), ()),
    }[r['chain']]  # fmt: skip
    cert = make_cert(host, own, issuer, signer, san=san, dates=r['dates'], eku=r['eku'])
    with open(path, 'wb') as fh:
        fh.write(own.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()))
        fh.write(pem(cert, *more))
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    ctx.load_cert_chain(path)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if r['tls'] == '1.1':
            ctx.set_ciphers('ALL:@SECLEVEL=0')
            ctx.minimum_version = ssl.TLSVersion.TLSv1
            ctx.maximum_version = ssl.TLSVersion.TLSv1_1
        elif r['tls'] == '1.2':
            ctx.maximum_version = ssl.TLSVersion.TLSv1_2
        elif r['tls'] == '1.3':
            ctx.minimum_version = ssl.TLSVersion.TLSv1_3
    return ctx


# ------------------------------------------------------------------------------- server


class Tap:
    '''Records what the client sends on a connection'''

    def __init__(self, stream):
        self.stream = stream
        self.data = bytearray()

    async def receive_some(self, n=None):
        c = await self.stream.receive_some(n)
        self.data += c
        return c

    def __getattr__(self, name):
        return getattr(self.stream, name)


class Inner(Tap):
    '''The decrypted side'''

    def __init__(self, stream, raw, sni):
        super().__init__(stream)
        self.raw = raw
        self.client = Sni()
        self.client.tls_name = sni

    @property
    def closed(self):
        return self.raw.closed

    def reset(self):
        self.raw.reset()

    def close_now(self):
        self.raw.close_now()


class Sni:
    tls_name = None


class Host:
    def __init__(self, recipe, good, ctx):
        self.recipe, self.good, self.ctx = recipe, good, ctx
        self.attempts = self.served = 0
        self.inner = []
        self.raw = []


@contextlib.contextmanager
def trust(case, sc):
    '''Sets up the certificate stores -> (value for ssl-ca-path, trusted authorities)'''
    saved = {n: os.environ.get(n) for n in ('SSL_CERT_FILE', 'SSL_CERT_DIR')}
    os.mkdir(sc + '/empty')
    os.environ['SSL_CERT_DIR'] = sc + '/empty'
    os.environ['SSL_CERT_FILE'] = sc + '/default.pem'
    if case['env']:
        with open(sc + '/default.pem', 'wb') as fh:
            fh.write(pem(*map(root, case['env'])))
    path, trusted = None, case['env'] or ''
    if case['given']:
        trusted = case['given_ca']
        path = sc + '/given'
        if case['given'] == 'file':
            with open(path, 'wb') as fh:
                fh.write(pem(*map(root, trusted)))
        else:
            os.mkdir(path)
            for n in trusted:
                with open('%s/%s.0' % (path, subject_hash(n)), 'wb') as fh:
                    fh.write(pem(root(n)))
    try:
        yield path, trusted
    finally:
        for n, v in saved.items():
            os.environ.pop(n, None)
            if v is not None:
                os.environ[n] = v


def run(case, info):
    with env.Scratch() as sc, proxies(case['cfg']['proxy']), trust(case, sc) as (path, trusted):
        env.trio_run(play, case, info, sc, path, trusted)


async def play(case, info, sc, path, trusted):
    import trio

    real_tls = trio.SSLStream
    srv = servers.KINDS[case['kind']](case['cfg'])
    srv.net.tls = real_tls
    plain_serve, plain_options = srv.serve, srv.options
    hosts = {}

    def options():
        o = plain_options()
        if path is not None:
            o['ssl-ca-path'] = path
        return o

    async def serve(host, port, stream, rd=None):
        if rd is not None or not srv.wants_tls(host, port):
            return await plain_serve(host, port, stream, rd)
        before = sum(h.attempts for (n, _), h in hosts.items() if n == host)
        # somebody else answers at the address later on
        phase = case.get('flip') is not None and before >= case['flip']
        if (host, phase) not in hosts:
            r = case['certs'][len(hosts) % len(case['certs'])]
            ctx = server_context(host, r, '%s/srv%d.pem' % (sc, len(hosts)))
            hosts[host, phase] = Host(r, judge(host, r, trusted), ctx)
            if phase:
                info.label('another certificate later')
        h = hosts[host, phase]
        h.attempts += 1
        raw = Tap(stream)
        h.raw.append(raw)
        seen = []
        h.ctx.sni_callback = lambda obj, name, ctx: seen.append(name)
        tls = real_tls(raw, h.ctx, server_side=True, https_compatible=True)
        try:
            await tls.do_handshake()
        except trio.BrokenResourceError:
            return
        finally:
            h.ctx.sni_callback = None
        inner = Inner(tls, stream, seen[0] if seen else None)
        h.inner.append(inner)
        h.served += 1
        await plain_serve(host, port, inner)

    srv.serve, srv.options = serve, options
    data = b'contents of the object! ' * (case['size'] // 24 + 1)
    failure = result = None
    async with srv.net.running():
        with trio.move_on_after(4000):
            try:
                b = await make_backend(case, srv, sc)
                await b.store('s3ql_data_1', data, {'k': 'v'})
                result = await b.fetch('s3ql_data_1')
                await b.close()
            except Exception as exc:
                failure = exc
    bad = {n: h for n, h in hosts.items() if not h.good}
    for (n, _), h in sorted(hosts.items()):
        what = '%s (certificate %r, trusted %r)' % (n, h.recipe, trusted)
        sent = [bytes(i.data) for i in h.inner if i.data]
        if not h.good:
            check(not sent, 'the client sent %r to %s', b''.join(sent)[:80], what)
        for raw in h.raw:
            d = bytes(raw.data)
            check(not d or d[0] == 22, 'the client does not start with TLS on the connection to %s: %r', n, d[:40])
            for secret in (srv.password.encode(), b'HTTP/1.1', b'contents of the object', b'uthorization'):
                check(secret not in d, 'the client sent %r unencrypted to %s', secret, n)
        info.label('bad host' if not h.good else 'good host')
    if bad:
        check(any(phase for _, phase in hosts) or failure is not None or result is None,
              'the operations succeeded although the certificates of %s are not valid', sorted(bad))  # fmt: skip
        if len(bad) < len(hosts):
            info.label('only a later host or certificate is bad')
    else:
        if failure is not None:
            raise Violation('cannot use the servers %s although their certificates are valid (trusted %r): %r'
                            % ({n: h.recipe for n, h in hosts.items()}, trusted, failure)) from failure  # fmt: skip
        check(result is not None, 'the operations do not end although the certificates of %s are valid',
              {n: h.recipe for n, h in hosts.items()})  # fmt: skip
        check(bytes(result[0]) == data and result[1] == {'k': 'v'}, 'fetch returned something else')
    check(not srv.problems, 'the client violates the protocol: %s', '; '.join(srv.problems[:3]))
    info.label('kind %s' % case['kind'])
    info.label('tls' if hosts else 'plain')
    if case['cfg']['proxy']:
        info.label('proxy')
    info.nontrivial = bool(hosts)


PROPERTY = Property(
    'C30',
    'A backend of any kind, up to 4 hosts with certificates, a certificate store and optionally a proxy. Non-trivial: at least one '
    'TLS handshake took place.',
    [Part('handshakes', strategy, run, quick=300, thorough=12000)],
)
TECHNIQUE = (
    'property-based testing: generated certificates, chains, protocol versions and certificate stores; real TLS handshakes with '
    'model servers; oracle decides from the recipe of the certificate whether anything may be sent'
)
NOTE = (
    'All network backends with real TLS (OpenSSL) over the in-memory network, directly or through a proxy: wrong names, expired, '
    'self-signed, unknown, forged and incomplete chains, wrong purpose, old protocol versions; ssl-ca-path as file and directory or '
    'the default store. Certificates that identify the host by common name or address, and revocation, are not generated.'
)
