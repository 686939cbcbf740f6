'''C20: credentials and options come from exactly the matching sections.'''

import bz2  # noqa: F401
import lzma
import os
import zlib
from unittest import mock

from harness import env, inspect
from harness.core import Part, Property, check
from harness.world import World

TLS = ['no-ssl', 'ssl-ca-path=', 'tcp-timeout=']
# the options the documentation lists
DOC_OPTS = {
    'local': [],
    'gs': ['ssl-ca-path=', 'tcp-timeout='],
    's3': [*TLS, 'sse', 'it', 'ia', 'oia', 'rrs'],
    'swift': [*TLS, 'disable-expect100', 'no-feature-detection'],
    'swiftks': [*TLS, 'disable-expect100', 'no-feature-detection', 'domain=', 'domain-is-name', 'project-domain=',
                'project-domain-is-name', 'tenant-is-name', 'identity-url='],
    'rackspace': [*TLS, 'disable-expect100', 'no-feature-detection'],
    's3c': [*TLS, 'disable-expect100', 'dumb-copy'],
    's3c4': [*TLS, 'disable-expect100', 'dumb-copy', 'sig-region='],
    'b2': TLS,
}  # fmt: skip
# as given -> canonical
URLS = [
    ('local:///%s/be', 'local:///%s/be/'), ('local:///%s//x/../be/sub', 'local:///%s/be/sub/'),
    ('s3://eu-west-1/bucket/pre/fix', None), ('s3://us-east-1/bucket', None), ('s3://us-east-1/bucket/', None),
    ('gs://bucket', 'gs://bucket/'), ('gs://bucket/pre', None), ('s3c://host:8080/bucket', 's3c://host:8080/bucket/'),
    ('s3c://host/bucket/a', None), ('s3c4://host/bucket', 's3c4://host/bucket/'), ('s3c4://host:1/bucket/a/b', None),
    ('swift://host/cont', 'swift://host/cont/'), ('swift://host:99/cont/p', None),
    ('swiftks://host/reg:cont', 'swiftks://host/reg:cont/'), ('swiftks://host/reg:cont/p', None),
    ('rackspace://reg/cont', 'rackspace://reg/cont/'), ('rackspace://reg/cont/pre', None),
    ('b2://bucket', None), ('b2://bucket/pre', None),
]  # fmt: skip
KEYS = ['backend-login', 'backend-password', 'fs-passphrase', 'backend-options', 'cachedir', 'max-connections',
        'max-threads', 'compress']  # fmt: skip
ADM = ['passphrase', 'clear', 'recover-key', 'restore-metadata', 'shrink-db', 'upgrade']
BREAKS = [
    'mode', 'unknown-key', 'bad-conn', 'bad-compress', 'bad-threads', 'garbage', 'no-header', 'dup-key', 'dup-section',
    'interpolation', 'interpolation-ref', 'utf8', 'unknown-option', 'bad-timeout', 'no-value', 'cli-conn',
    'cli-threads', 'cli-compress', 'cli-url', 'cli-flag', 'cli-option', 'cachedir', 'ro', 'lone-o', 'unclosed',
]  # fmt: skip
BAD_INT = ['0', '-1', 'x', '5x', '', '1 2', '0x10', '--', 'None', '3,5']
BAD_COMPRESS = ['lzma-10', 'LZMA', 'foo', 'lzma-', '', 'zlib--1', 'gzip-6', 'bzip2 6', 'lzma-a', '-6', 'lzma_6', 'none-none']
BAD_TIMEOUT = ['tcp-timeout=abc', 'tcp-timeout', 'tcp-timeout=', 'tcp-timeout=1s', 'tcp-timeout=0', 'tcp-timeout=-5']
BAD_URL = ['foo', 'nosuch://bucket', '://x', 'local://', 's3:/bucket', 's3://', 'S3://bucket/x', ' local:///x', 's3c://host',
           's3c://host:port/bucket', 's3://onlyregion']  # fmt: skip
SPECS = ['lzma', 'bzip2', 'zlib', 'none']


def strategy():
    from hypothesis import strategies as st

    word = st.text('aB3 :=%#;[]"\'\\$\xe9\u6f22,', max_size=12).map(str.strip)
    opt = st.tuples(st.integers(0, 9), st.sampled_from(['v', 'a b', 'x=y', '7', ''])).map(list)
    entry = st.one_of(
        st.tuples(st.sampled_from(KEYS[:3]), word),
        st.tuples(st.sampled_from(KEYS[:2]), word),
        st.tuples(st.just('backend-options'), st.lists(opt, max_size=3)),
        st.tuples(st.just('cachedir'), st.integers(0, 3)),
        st.tuples(st.sampled_from(['max-connections', 'max-threads']), st.integers(1, 99)),
        st.tuples(st.just('compress'), st.tuples(st.sampled_from(SPECS), st.none() | st.integers(0, 9)).map(list)),
    ).map(list)  # fmt: skip
    pattern = st.one_of(
        st.tuples(st.just('prefix'), st.integers(1, 60)), st.tuples(st.just('prefix'), st.integers(1, 60)),
        st.tuples(st.just('full'), st.just(0)), st.tuples(st.just('given'), st.just(0)),
        st.tuples(st.just('longer'), st.integers(0, 3)),
        st.tuples(st.just('inner'), st.integers(1, 20)), st.tuples(st.just('upper'), st.just(0)),
        st.tuples(st.just('other'), st.integers(0, len(URLS) - 1)), st.tuples(st.just('none'), st.just(0)),
    ).map(list)  # fmt: skip
    section = st.fixed_dictionaries({
        'pattern': pattern, 'pos': st.integers(0, 5), 'style': st.integers(0, 5),
        'entries': st.lists(entry, max_size=5, unique_by=lambda e: e[0]),
    })  # fmt: skip
    return st.fixed_dictionaries({
        'cmd': st.sampled_from(['fsck', 'verify', 'mkfs', 'mount', 'mount', *ADM]),
        'url': st.integers(0, len(URLS) - 1),
        'sections': st.lists(section, max_size=5),
        'default': st.none() | st.none() | st.lists(entry, max_size=2, unique_by=lambda e: e[0]),
        'cli': st.lists(entry.filter(lambda e: e[0] not in KEYS[:3]), max_size=3, unique_by=lambda e: e[0]),
        'ostyle': st.booleans(), 'eq': st.booleans(),
        'typed': st.tuples(word, word).map(list),
        'mode': st.sampled_from([0o600, 0o400, 0o700]),
        'break': st.none() | st.sampled_from(BREAKS), 'bparam': st.integers(0, 50),
    })  # fmt: skip


def render_options(scheme, opts):
    known = DOC_OPTS[scheme]
    out = []
    for i, v in opts:
        if known:
            o = known[i % len(known)]
            if o == 'tcp-timeout=':
                v = '7'
            elif o == 'ssl-ca-path=':
                v = '/etc/ssl/certs'
            elif o.endswith('=') and not v:
                v = 'v'
            out.append(o + v if o.endswith('=') else o)
    return out


def parsed_options(items):
    out = {}
    for o in items:
        k, sep, v = o.partition('=')
        out[k] = v if sep else True
    return out


class Setup:
    def __init__(self, root, case):
        self.root, self.case = root, case
        given, canon = URLS[case['url']]
        rel = root.strip('/')
        self.given = given % rel if '%s' in given else given
        self.canon = (canon or given) % rel if '%s' in given else (canon or given)
        if self.given in ('s3://us-east-1/bucket',):
            self.canon = self.given
        self.scheme = self.given.partition('://')[0]
        self.canons = [c % rel if '%s' in c else c for c in (b or a for a, b in URLS)]

    def value(self, key, v):
        if key == 'backend-options':
            return ','.join(render_options(self.scheme, v))
        if key == 'cachedir':
            return os.path.join(self.root, 'c%d' % v)
        if key == 'compress':
            return v[0] if v[1] is None else '%s-%d' % tuple(v)
        return str(v)

    def pattern(self, p):
        how, n = p
        c = self.canon
        return {
            'prefix': lambda: c[:n], 'full': lambda: c, 'given': lambda: self.given,
            'longer': lambda: c + ['x', '/', ' x', '?'][n], 'inner': lambda: c[n:] or 'x',
            'upper': lambda: c.upper(), 'other': lambda: self.canons[n], 'none': lambda: None,
        }[how]()  # fmt: skip


def applies(pat, url):
    return pat is not None and url[: len(pat)] == pat


def line(key, value, style):
    value = value.replace('%', '%%')
    k = [key, key.upper(), key.title()][style % 3]
    return k + [': ', '=', ' : ', ':', ' = ', ':\t'][style % 6] + value


def run(case, info):
    with env.Scratch() as root:
        _run(root, case, info)


def _run(root, case, info):
    import s3ql.backends
    from s3ql import adm, fsck, mkfs, mount, verify
    from s3ql.authinfo import CompressSpec
    from s3ql.backends.common import DanglingStorageURLError
    from s3ql.backends.comprenc import AsyncComprencBackend

    su = Setup(root, case)
    brk, bp = case['break'], case['bparam']
    os.mkdir(os.path.join(root, 'mnt'))
    expect = set()  # acceptable exit codes; empty: everything is fine
    either = False  # ... or it may go on as if nothing had happened

    # ------------------------------------------------------------- the file
    sections = [dict(s) for s in case['sections']]
    eff = {}
    hits = 0
    bits = []
    default = case['default']
    if default is not None:
        bits.append('[DEFAULT]')
        for k, v in default:
            bits.append(line(k, su.value(k, v), 0))
    matching = []
    for s in sections:
        pat = su.pattern(s['pattern'])
        s['pat'] = pat
        s['hit'] = bool(pat) and pat == pat.strip() and applies(pat, su.canon)
        if pat is not None and pat != pat.strip():
            s['hit'] = applies(pat.strip(), su.canon)
            s['pat'] = pat = pat.strip()
        if s['hit']:
            matching.append(s)
            hits += 1
    file_break = {
        'unknown-key': 'backend-passphrase: x', 'bad-conn': 'max-connections: ' + BAD_INT[bp % len(BAD_INT)],
        'bad-threads': 'max-threads: ' + [x for x in BAD_INT if x != '0'][bp % (len(BAD_INT) - 1)],
        'bad-compress': 'compress: ' + BAD_COMPRESS[bp % len(BAD_COMPRESS)], 'garbage': 'just some words',
        'dup-key': 'fs-passphrase: a\nFS-passphrase: b', 'interpolation': 'backend-password: 50%off',
        'interpolation-ref': 'backend-password: %(nope)s', 'utf8': 'backend-password: \udcff\udcfe',
        'unknown-option': 'backend-options: nosuchoption', 'bad-timeout': 'backend-options: ' + BAD_TIMEOUT[bp % len(BAD_TIMEOUT)],
        'no-value': 'backend-password',
    }.get(brk)  # fmt: skip
    target = None
    if brk == 'bad-timeout':
        need = [o[:-1] for o in DOC_OPTS[su.scheme] if o.endswith('=')]
        if not need:
            file_break = None
        elif bp > len(BAD_TIMEOUT):
            file_break = 'backend-options: ' + need[bp % len(need)]
    if file_break:
        if sections:
            target = sections[bp % len(sections)]
    n = 0
    for s in sections:
        lines = []
        for i, (k, v) in enumerate(s['entries']):
            if s is target and file_break.lower().startswith(k):
                continue  # the broken line stands for this entry
            lines.append(line(k, su.value(k, v), s['style'] + i))
            if s['hit']:
                eff[k] = v
        if s['hit'] and default:
            for k, v in default:
                if k not in [e[0] for e in s['entries']]:
                    eff[k] = v
        if s['pat'] is not None:
            lines.insert(min(s['pos'], len(lines)), line('storage-url', s['pat'], s['style']))
        if s is target:
            lines.insert(min(s['pos'], len(lines)), file_break)
        bits.append('[sec%d]' % n)
        n += 1
        if s['style'] == 4:
            lines.insert(0, '# a comment: x')
        if s['style'] == 5:
            lines.insert(0, '')
        bits += lines
    if target is not None:
        key = file_break.partition(':')[0]
        if brk in ('garbage', 'dup-key', 'utf8', 'no-value'):
            expect = {2}
        elif target['hit']:
            later = matching[[m is target for m in matching].index(True) + 1:]
            over = any(key == k for m in later for k, v in m['entries']) or (default and later and any(key == k for k, v in default))
            expect = {3} if brk in ('unknown-option', 'bad-timeout') else {2}
            if over:
                either = brk != 'unknown-key'
            elif brk != 'unknown-key':
                eff.pop(key, None)
            if brk in ('unknown-option', 'bad-timeout') and over:
                expect = set()
            elif any(k == key for k, v in case['cli']) and brk != 'unknown-key':
                # the command line takes precedence; whether an unused malformed value matters is not specified
                either = True
                if brk in ('unknown-option', 'bad-timeout'):
                    expect = set()
        elif brk.startswith('interpolation'):
            expect, either = {2}, True
    text = '\n'.join(bits) + '\n'
    if brk == 'no-header':
        text = 'backend-login: joe\n' + text
        expect = {2}
    elif brk == 'unclosed':
        text += '[section\nbackend-login: joe\n'
        expect = {2}
    elif brk == 'dup-section' and sections:
        text += '[sec0]\nbackend-login: y\n'
        expect = {2}
    mode = case['mode']
    if brk == 'mode':
        mode = [0o644, 0o640, 0o604, 0o660, 0o666, 0o444, 0o440][bp % 7]
        expect = {12}
    path = os.path.join(root, 'authinfo2')
    with open(path, 'wb') as fh:
        fh.write(text.encode('utf-8', 'surrogateescape'))
    os.chmod(path, mode)

    # --------------------------------------------------------- command line
    cmd = case['cmd']
    cli = {}
    for k, v in case['cli']:
        if k == 'compress' and cmd != 'mount':
            continue
        cli[k] = su.value(k, v)
        eff[k] = v
    if 'cachedir' not in eff:
        eff['cachedir'] = 3
        cli['cachedir'] = su.value('cachedir', 3)
    raw = []
    url = su.given
    if brk == 'cli-conn':
        cli['max-connections'] = BAD_INT[bp % len(BAD_INT)]
        expect = expect | {2}
    elif brk == 'cli-threads':
        cli['max-threads'] = [x for x in BAD_INT if x != '0'][bp % (len(BAD_INT) - 1)]
        expect = {2}
    elif brk == 'cli-compress' and cmd == 'mount':
        cli['compress'] = BAD_COMPRESS[bp % len(BAD_COMPRESS)]
        expect = {2}
    elif brk == 'cli-url':
        url = BAD_URL[bp % len(BAD_URL)]
        expect = {2, 3}  # 3: the backend options are those of another scheme
    elif brk == 'cli-flag':
        raw = ['--no-such-thing']
        expect = {2}
    elif brk == 'cli-option':
        cli['backend-options'] = ['nosuch', 'no_ssl', 'NO-SSL', 'nosuch=1', ',,bad option,'][bp % 5]
        expect = {3}
    elif brk == 'cachedir':
        if bp % 2:
            cli['cachedir'] = os.path.join(root, 'missing', 'dir')
        else:
            cli['cachedir'] = path
            os.chmod(path, mode | 0o100)
        expect = {45}
    opts = [('authfile', path), *cli.items()]
    args = []
    ostyle = cmd == 'mount' and case['ostyle'] and not any(',' in v for _, v in opts) and '' not in [v for _, v in opts]
    if ostyle:
        o = ['%s=%s' % kv for kv in opts]
        o[1:1] = [['rw', 'defaults', 'noauto,user', '_netdev', ''][bp % 5]]
        if brk == 'ro':
            o.append('ro')
            expect = {35}
        post = ['-o', ','.join(o)]
        info.label('fstab')
    else:
        post = []
        for k, v in opts:
            args += ['--%s=%s' % (k, v)] if case['eq'] or v.startswith('-') else ['--' + k, v]
    args = raw + args
    if brk == 'lone-o' and cmd == 'mount' and not ostyle:
        post = ['-o']
        expect = {2}
    if cmd == 'mount':
        main = mount.main
        args = ['--fg', '--log', 'none', *args, url, os.path.join(root, 'mnt'), *post]
    elif cmd == 'fsck':
        main, args = fsck.main, ['--log', 'none', *args, url]
    elif cmd == 'mkfs':
        main, args = mkfs.main, ['--plain', *args, url]
    elif cmd == 'verify':
        main = verify.main
        args = ['--missing-file', os.path.join(root, 'miss'), '--corrupted-file', os.path.join(root, 'corr'), *args, url]
    else:
        main, args = adm.main, [*args, cmd, url]

    # -------------------------------------------------------------- execute
    calls = []

    def recorder(scheme, klass):
        async def create(cls, **kw):
            calls.append((scheme, kw))
            if scheme in ('s3', 's3c', 's3c4', 'b2'):  # the constructor parses the URL
                klass(**kw)
            raise DanglingStorageURLError('recorded')

        return type('Recorder', (klass,), {'create': classmethod(create)})

    table = {k: recorder(k, v) for k, v in s3ql.backends.async_prefix_map.items()}
    before = set(os.listdir(root))
    AsyncComprencBackend.set_max_threads(1)
    with mock.patch.dict(s3ql.backends.async_prefix_map, table):
        res = env.run_cli(main, args, stdin='\n'.join(case['typed']) + '\n', reraise=False)
    if res.exc is not None and res.code == 1:
        check(not calls or calls and not expect, 'unexpected %r', res.exc)

    # ---------------------------------------------------------------- judge
    label = brk if expect else 'effective'
    info.label(label)
    if expect:
        ok = res.code in expect
        if ok:
            info.nontrivial = True
            check(not calls or brk == 'cli-url', 'exit %r, but a backend was opened', res.code)
            return
        check(either, 'exit status %r (%r), expected %r (%s)', res.code, res.exc, sorted(expect), brk)
    check(res.code == 16, 'exit status %r (%r) for correct settings', res.code, res.exc)
    check(len(calls) == 1, '%d backends opened', len(calls))
    info.nontrivial = hits > 0
    if hits > 1:
        info.label('several sections')
    scheme, kw = calls[0]
    check(scheme == su.scheme, 'backend %s for %s', scheme, url)
    check(kw['storage_url'] == su.canon, 'storage URL %r became %r, expected %r', url, kw['storage_url'], su.canon)
    got = {k: kw[k] for k in ('backend_login', 'backend_password', 'max_connections', 'backend_options')}
    typed = list(case['typed'])
    want = {'max_connections': eff.get('max-connections', 32)}
    needs = su.scheme != 'local'
    for k in ('backend_login', 'backend_password'):
        v = eff.get(k.replace('_', '-'))
        if v is None:
            v = typed.pop(0) if needs else ''
        want[k] = v
    want['backend_options'] = parsed_options(render_options(su.scheme, eff.get('backend-options', [])))
    check(got == want, 'backend opened with %r, expected %r', got, want)
    if 'max-threads' in eff:
        be = env.trio_run(AsyncComprencBackend.create, None, CompressSpec.parse('none'), None)
        check(be.max_threads == eff['max-threads'], '%d threads instead of %d', be.max_threads, eff['max-threads'])
    new = sorted(x for x in os.listdir(root) if x not in before and x not in ('miss', 'corr'))
    check(new == ['c%d' % eff['cachedir']], 'cache directories %r, expected c%d', new, eff['cachedir'])


# ------------------------------------------------- effect on a real file system


def eff_strategy():
    from hypothesis import strategies as st

    spec = st.tuples(st.sampled_from(SPECS), st.none() | st.integers(0, 9)).map(list)
    section = st.fixed_dictionaries({
        'hit': st.sampled_from([True, True, False]), 'cut': st.integers(1, 40),
        'pass': st.sampled_from([None, 'right', 'right', 'wrong']), 'compress': st.none() | spec,
        'cachedir': st.none() | st.integers(0, 2),
    })  # fmt: skip
    return st.fixed_dictionaries({
        'encrypted': st.booleans(), 'sections': st.lists(section, min_size=1, max_size=4),
        'cli': st.none() | st.none() | spec, 'clidir': st.none() | st.just(3),
        'typed': st.sampled_from(['right', 'wrong']),
        'cmd': st.sampled_from(['mount', 'mount', 'mount', 'fsck', 'verify']),
    })  # fmt: skip


def sniff(raw):
    if raw[:6] == b'\xfd7zXZ\0':
        return 'lzma'
    if raw[:3] == b'BZh':
        return 'bzip2'
    if raw[:1] == b'\x78':
        return 'zlib'
    return 'none'


def eff_run(case, info):
    from s3ql import fsck, mount, verify

    secret = {'right': 'p%ss wörd', 'wrong': 'p%ss word'}
    with env.Scratch() as root:
        w = World(root, passphrase=secret['right'].replace('%', '%%') if case['encrypted'] else None)
        if case['encrypted']:
            w.passphrase = secret['right']
        res = w.mkfs()
        check(res.code == 0, 'mkfs fails with %r', res.code)
        url = 'local://%s/' % w.be
        eff = {'compress': ['lzma', 6]}
        text = []
        for n, s in enumerate(case['sections']):
            pat = url[: -s['cut'] or None] if s['hit'] else url + 'x'
            if not pat.startswith('local://'):
                pat = 'local://'
            text += ['[s%d]' % n, 'storage-url: ' + pat]
            vals = {}
            if s['pass']:
                vals['pass'] = secret[s['pass']]
                text.append('fs-passphrase: ' + vals['pass'].replace('%', '%%'))
            if s['compress']:
                vals['compress'] = s['compress']
                text.append('compress: ' + (s['compress'][0] if s['compress'][1] is None else '%s-%d' % tuple(s['compress'])))
            if s['cachedir'] is not None:
                vals['cachedir'] = s['cachedir']
                text.append('cachedir: %s/d%d' % (root, s['cachedir']))
            if s['hit']:
                eff.update(vals)
                info.nontrivial = True
        auth = os.path.join(root, 'auth')
        with open(auth, 'w') as fh:
            fh.write('\n'.join(text) + '\n')
        os.chmod(auth, 0o600)
        args = ['--authfile', auth, '--log', 'none']
        if case['clidir'] is not None or 'cachedir' not in eff:
            eff['cachedir'] = 3
            args += ['--cachedir', root + '/d3']
        if case['cmd'] == 'mount' and case['cli']:
            eff['compress'] = case['cli']
            args += ['--compress', case['cli'][0] if case['cli'][1] is None else '%s-%d' % tuple(case['cli'])]
        data = b'compress me ' * 80 + b'!'

        async def driver(ops):
            from harness.fsdrive import Ctx

            fi, a = await ops.create(1, b'f', 0o100644, os.O_RDWR, Ctx())
            await ops.write(fi.fh, 0, data)
            await ops.release(fi.fh)
            await ops.forget([(a.st_ino, 1)])
            return True

        kw = {}
        if case['cmd'] == 'mount':
            main, kw['driver'] = mount.main, driver
            args = ['--fg', *args, w.url, w.mnt]
        elif case['cmd'] == 'fsck':
            main, args = fsck.main, [*args, w.url]
        else:
            main = verify.main
            args += ['--missing-file', root + '/miss', '--corrupted-file', root + '/corr', w.url]
        res = env.run_cli(main, args, stdin=secret[case['typed']] + '\n', reraise=True, **kw)
        used = eff.get('pass', secret[case['typed']])
        info.label(case['cmd'])
        dirs = sorted(x for x in os.listdir(root) if len(x) == 2 and x[0] == 'd')
        check(dirs == ['d%d' % eff['cachedir']], 'cache directories %r, expected d%d', dirs, eff['cachedir'])
        if case['encrypted'] and used != secret['right']:
            info.label('wrong passphrase')
            check(res.code == 17, 'exit status %r with the wrong passphrase in effect', res.code)
            w.after_death()
            return
        # fsck finds a file system it has no cached metadata of
        check(res.code == 0, 'exit status %r with the right passphrase in effect', res.code)
        if case['cmd'] != 'mount' or case['encrypted']:
            return
        keys = inspect.local_keys(w.be)
        ids = inspect.data_ids(keys)
        check(len(ids) == 1, 'objects %r', ids)
        from s3ql.backends.local import AsyncBackend

        async def fetch():
            be = await AsyncBackend.create(storage_url=w.url, backend_options={})
            async with be:
                return (await be.fetch('s3ql_data_%d' % ids[0]))[0]

        raw = bytes(env.trio_run(fetch))
        alg, level = eff['compress']
        level = 6 if level is None else level
        info.label(alg)
        check(sniff(raw) == alg, 'data stored with %s instead of %s', sniff(raw), alg)
        if alg == 'bzip2':
            check(int(raw[3:4]) == max(level, 1), 'bzip2 level %r instead of %d', raw[3:4], level)
        elif alg == 'zlib':
            check(raw[1] == zlib.compress(data, level)[1], 'zlib level differs from %d', level)
        elif alg == 'lzma':
            check(raw[16] == lzma.compress(data, preset=level)[16], 'lzma dictionary size differs from level %d', level)


PROPERTY = Property(
    'C20',
    'a section of the file applied to the URL, or the input was refused with the status expected',
    [Part('resolve', strategy, run, quick=900, thorough=20000),
     Part('effect', eff_strategy, eff_run, quick=40, thorough=1000)],
)
TECHNIQUE = (
    'Property-based testing: generated authentication files, storage URLs, command lines and mutilations, every command '
    'run in-process with recording backends; independent evaluation of the documented rules as oracle'
)
NOTE = 'Checks that opened backends are the ones described; the option tables are those of the manual.'
