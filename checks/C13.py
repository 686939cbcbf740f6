'''C13: every storage backend is a key-value map, also under transient faults.'''

import contextlib
import io
import os
import tempfile

from harness import env, net, objects, servers
from harness.core import Part, Property, Violation, check

ODD = 'ab/=#%+& <>"\'é€~:;,@!$()*[]{}^|\\`?.-_1'
URL_PREFIXES = ('', '', 'pre', 'pre/', 'a b/ü&', 's3ql_data_', 'x+y%20=/')
REGIONS = ('us-east-1', 'eu-west-2', 'us-west-004')
KINDS = tuple(sorted(servers.KINDS)) + ('local',)


def keys():
    from hypothesis import strategies as st

    num = st.one_of(st.integers(0, 30), st.integers(990, 1010), st.integers(0, 10**9),
                    st.sampled_from((123, 1234, 12345, 123456, 1234567, 123456789)))  # fmt: skip
    return st.one_of(
        num.map('s3ql_data_{}'.format), num.map('s3ql_data_{}'.format),
        st.sampled_from(('s3ql_passphrase', 's3ql_metadata', 's3ql_metadata_bak_3', 's3ql_params_0a',
                         's3ql_seq_no_12', 's3ql_data_')),
        st.text(st.sampled_from(ODD), min_size=1, max_size=10),
        st.text(st.sampled_from('ab/=23F#D'), min_size=1, max_size=8),
    ).filter(lambda k: not (set(k.split('/')) & {'.', '..', ''}) and k.strip() == k)  # fmt: skip


def strategy(faults=True, opening=False):
    from hypothesis import strategies as st

    def make():
        cfg = st.fixed_dictionaries({
            'seed': st.integers(0, 9999), 'page': st.sampled_from((1, 2, 3, 5, 1000)),
            'tls': st.booleans(), 'no100': st.booleans(), 'port': st.sampled_from((9000, 443, 80)),
            'region': st.sampled_from(REGIONS), 'redirect': st.sampled_from((False, False, True)),
            'class': st.sampled_from((None, None, 'ia', 'oia', 'rrs', 'it', 'ia+rrs')), 'sse': st.booleans(),
            'empty_page': st.booleans(), 'no_ns': st.booleans(), 'del404': st.booleans(),
            'lifetime': st.sampled_from((3600, 3600, 400, 1)), 'bulk': st.sampled_from((0, 1, 2, 3, 1000)),
            'meta_max': st.sampled_from((256, 128, 64, 512)), 'info': st.integers(0, 3),
            'proxy': st.sampled_from((False, False, False, True)), 'auth_close': st.booleans(),
            'legacy': st.sampled_from((False, False, True)),
            'sbucket': st.sampled_from(('bucket', 'bucket', 'stor', 'with.dots', 's3-eu', 'store-x')),
            'noinfo': st.booleans(), 'storage_tls': st.booleans(), 'v3': st.sampled_from((0, 1, 2)),
        })  # fmt: skip
        k = st.one_of(st.integers(0, 2), st.integers(0, 7))
        put = st.tuples(st.sampled_from(('store', 'store', 'write', 'write-file')), k,
                        objects.content(), objects.meta())  # fmt: skip
        op = st.one_of(
            put, put, put,
            st.tuples(st.sampled_from(('fetch', 'read', 'into', 'into-file', 'lookup', 'size', 'contains')), k,
                      st.integers(0, 300)),
            st.tuples(st.just('delete'), k),
            st.tuples(st.just('multi'), st.lists(k, max_size=8, unique=True), st.booleans()),
            st.tuples(st.just('list'), k, st.integers(0, 17)),
            st.tuples(st.just('list'), k, st.just(0)),
        ).map(list)  # fmt: skip
        which = st.sampled_from((None, None, None, 'DATA', 'DATA', 'GET', 'PUT', 'POST', 'HEAD', 'DELETE'))
        fault = st.tuples(st.one_of(st.integers(0, 2), st.integers(0, 7)), st.sampled_from(servers.FAULTS),
                          st.integers(0, 999), which).map(list)  # fmt: skip
        d = {
            'kind': st.sampled_from(KINDS), 'cfg': cfg, 'prefix': st.sampled_from(URL_PREFIXES),
            'conns': st.integers(1, 4), 'keys': st.lists(keys(), min_size=8, max_size=8, unique=True),
            'groups': st.lists(st.lists(op, min_size=1, max_size=6), min_size=2, max_size=8),
            'comp': st.one_of(st.none(), st.none(), st.tuples(
                st.sampled_from(objects.ALGS), st.booleans()).map(list)),
            'faults': st.lists(fault, max_size=8) if faults else st.just([]),
            'pause': st.lists(st.sampled_from((0, 0, 1, 700, 4000)), max_size=6),
        }  # fmt: skip
        if opening:
            d['opening'] = st.just(True)
            d['kind'] = st.sampled_from(sorted(servers.KINDS))
            d['groups'] = st.lists(st.lists(op, min_size=1, max_size=2), max_size=1)
            d['faults'] = st.lists(
                st.tuples(st.integers(0, 2), st.sampled_from(servers.FAULTS), st.integers(0, 999),
                          st.sampled_from((None, None, 'GET', 'POST', 'HEAD'))).map(list),
                min_size=1, max_size=3)  # fmt: skip
        return st.fixed_dictionaries(d)

    return make


class Ctx:
    def __init__(self, backend, layered, local, tmp):
        self.b, self.layered, self.local, self.tmp = backend, layered, local, tmp
        self.model = {}  # key -> (data, meta)
        self.counts = {}
        self.sizes = {}

    async def expect_missing(self, what, key, coro):
        from s3ql.backends.common import NoSuchObject

        try:
            res = await coro
        except NoSuchObject as exc:
            check(exc.key == key, '%s(%r): NoSuchObject names key %r', what, key, exc.key)
            return
        raise Violation('%s(%r) returned %r for an object that does not exist' % (what, key, short(res)))

    def check_meta(self, what, key, got):
        want = self.model[key][1]
        check(objects.same(dict(got), want), '%s(%r) returned metadata %r instead of %r', what, key,
              dict(got), want)  # fmt: skip

    def check_data(self, what, key, got):
        want = self.model[key][0]
        check(got == want, '%s(%r) returned %d bytes %s instead of %d bytes %s', what, key, len(got),
              short(got), len(want), short(want))  # fmt: skip

    async def put(self, how, key, data, meta):
        b = self.b
        if how == 'store':
            run = b.store(key, data, meta) if meta or len(data) % 2 else b.store(key, data)
        else:
            fh = io.BytesIO() if how == 'write' else tempfile.TemporaryFile(dir=self.tmp)
            if self.layered:
                # takes a part of the file, starting at the current position
                fh.write(b'junk!' + data + b'more')
                fh.seek(5)
                run = b.write_fh(key, fh, len(data), metadata=meta)
            else:
                fh.write(data)
                fh.seek(len(data) * 2 // 3)
                run = b.write_fh(key, fh, metadata=meta)
        try:
            n = await run
        except ValueError as exc:
            if 'Metadata too large' not in str(exc):
                raise
            check(meta_size(meta) > 600, 'metadata %r is rejected as too large', meta)
            self.count('too large')
            return
        if not self.layered and not self.local:
            check(n == len(data), '%s(%r) of %d bytes returned %r', how, key, len(data), n)
        self.model[key] = (data, meta)
        self.sizes[key] = n

    def count(self, name):
        self.counts[name] = self.counts.get(name, 0) + 1

    async def get(self, how, key, off):
        b = self.b
        there = key in self.model
        if how == 'contains':
            res = await b.contains(key)
            check(res is there, 'contains(%r) returned %r', key, res)
        elif how == 'lookup':
            if not there:
                return await self.expect_missing(how, key, b.lookup(key))
            self.check_meta(how, key, await b.lookup(key))
        elif how == 'size':
            if not there:
                return await self.expect_missing(how, key, b.get_size(key))
            n = await b.get_size(key)
            check(n == self.sizes[key], 'get_size(%r) returned %r instead of %d', key, n, self.sizes[key])
        elif how == 'fetch':
            if not there:
                return await self.expect_missing(how, key, b.fetch(key))
            data, meta = await b.fetch(key)
            self.check_data(how, key, data)
            self.check_meta(how, key, meta)
        elif how == 'read':
            if not there:
                return await self.expect_missing(how, key, b.read(key))
            self.check_data(how, key, await b.read(key))
        else:
            fh = io.BytesIO() if how == 'into' else tempfile.TemporaryFile(dir=self.tmp)
            pre = net.rng_for('pre', off).randbytes(off)
            fh.write(pre)
            if not there:
                await self.expect_missing(how, key, b.readinto_fh(key, fh))
            else:
                meta = await b.readinto_fh(key, fh)
                self.check_meta(how, key, meta)
            fh.flush()
            fh.seek(0)
            res = fh.read()
            check(res[:off] == pre, '%s(%r) at offset %d changed what lies in front', how, key, off)
            if there:
                self.check_data(how, key, res[off:])

    async def list(self, prefix, stable, maybe):
        '''*maybe*: keys that other tasks are changing'''
        found = [k async for k in self.b.list(prefix)] if prefix else [k async for k in self.b.list()]
        dup = sorted({k for k in found if found.count(k) > 1})
        check(not dup, 'list(%r) returned %r more than once', prefix, dup)
        want = {k for k in stable if k.startswith(prefix)}
        missing = sorted(want - set(found))
        check(not missing, 'list(%r) lacks %r', prefix, missing)
        extra = sorted(set(found) - want - {k for k in maybe if k.startswith(prefix)})
        check(not extra, 'list(%r) also returned %r', prefix, extra)
        return len(found)


def short(x):
    r = repr(x)
    return r if len(r) < 60 else r[:40] + '...' + r[-12:]


def meta_size(meta):
    # generous estimate of how long the headers may become
    return len(repr(sorted(meta.items(), key=lambda x: x[0]))) * 2


def options(srv):
    return srv.options()


async def make_backend(case, srv, path):
    from s3ql import backends

    if srv is None:
        cls = backends.async_prefix_map['local']
        return await cls.create(storage_url='local://' + path, backend_options={},
                                max_connections=case['conns'])  # fmt: skip
    cls = backends.async_prefix_map[srv.name]
    return await cls.create(
        storage_url=srv.url(case['prefix']), backend_options=srv.options(), backend_login=srv.login,
        backend_password=srv.password, max_connections=case['conns'])  # fmt: skip


WRITERS = ('store', 'write', 'write-file', 'delete', 'multi')


def touched(case, op):
    ks = case['keys']
    return {ks[i] for i in op[1]} if op[0] == 'multi' else {ks[op[1]]}


def batches(case):
    '''Groups of operations that do not conflict'''
    for g in case['groups']:
        todo = g
        while todo:
            now, later, w, r = [], [], set(), set()
            for op in todo:
                t = touched(case, op)
                if op[0] == 'list':
                    now.append(op)
                elif later or t & w or (op[0] in WRITERS and t & r):
                    later.append(op)
                else:
                    now.append(op)
                    (w if op[0] in WRITERS else r).update(t)
            yield now, w
            todo = later


def run(case, info):
    with env.Scratch() as sc, proxies(case['cfg'].get('proxy')):
        os.makedirs(os.path.join(sc, 'store'))
        env.trio_run(play, case, info, sc)


@contextlib.contextmanager
def proxies(wanted):
    names = ('http_proxy', 'https_proxy')
    saved = {n: os.environ.pop(n, None) for n in names}
    if wanted:
        os.environ.update({n: 'http://proxy.example:3128' for n in names})
    try:
        yield
    finally:
        for n in names:
            os.environ.pop(n, None)
            if saved[n] is not None:
                os.environ[n] = saved[n]


async def play(case, info, sc):
    import trio

    srv = None if case['kind'] == 'local' else servers.KINDS[case['kind']](case['cfg'])
    path = os.path.join(sc, 'store')
    foreign = {}
    if srv is not None:
        full = case['prefix']
        for n in ('foreign', full[:-1] + '!', '0' + full):
            if not n.startswith(full) and n:
                foreign[n] = srv.objects[n] = servers.Obj(b'other', {} if srv.name == 'gs' else [])
        try:
            async with srv.net.running():
                if case.get('opening'):
                    arm(case, srv)
                b = await make_backend(case, srv, path)
                ctx = await operate(case, info, sc, srv, b)
                srv.armed = False
        except Exception as exc:
            if srv.problems:
                raise Violation('the client violates the protocol: %s' % '; '.join(srv.problems[:3])) from exc
            raise
        check(not srv.problems, 'the client violates the protocol: %s', '; '.join(srv.problems[:3]))
        check(all(srv.objects.get(n) is o for n, o in foreign.items()),
              'objects outside of the prefix were touched')  # fmt: skip
        names = {n[len(full):] for n in srv.objects if n not in foreign}
        check(names == set(ctx.model), 'the server has %r instead of %r', sorted(names), sorted(ctx.model))
        for n in srv.fired:
            info.label('fault ' + n)
        faults = len(srv.fired)
    else:
        b = await make_backend(case, srv, path)
        ctx = await operate(case, info, sc, srv, b)
        left = [f for _, _, fs in os.walk(path) for f in fs]
        check(len(left) == len(ctx.model), 'the directory holds %r instead of %d files', sorted(left), len(ctx.model))
        faults = 0
    info.label('kind ' + case['kind'])
    for k, n in ctx.counts.items():
        info.label(k, n)
    info.nontrivial = faults > 0 if case.get('opening') else ctx.counts.get('write', 0) > 0 and ctx.counts.get('hit', 0) > 0 and (
        faults > 0 or not case['faults'] or srv is None)  # fmt: skip
    await trio.lowlevel.checkpoint()


def arm(case, srv):
    srv.plan = [list(f) for f in case['faults']]
    srv.armed = True


async def operate(case, info, sc, srv, b):
    import trio

    from s3ql.backends.comprenc import AsyncComprencBackend

    low = b
    if case['comp']:
        alg, enc = case['comp']
        b = await AsyncComprencBackend.create(b'phrase' if enc else None, objects.spec(alg, 6), b)
    ctx = Ctx(b, bool(case['comp']), srv is None, sc)
    if srv is not None and not case.get('opening'):
        arm(case, srv)

    async def one(op, w):
        ks = case['keys']
        if op[0] == 'list':
            prefix = ks[op[1]][: op[2]]
            n = await ctx.list(prefix, set(ctx.model) - w, w)
            ctx.count('list')
            if srv is not None and n > srv.page:
                ctx.count('paged list')
        elif op[0] == 'delete':
            key = ks[op[1]]
            ctx.count('hit' if key in ctx.model else 'miss')
            await b.delete(key)
            ctx.model.pop(key, None)
        elif op[0] == 'multi':
            lst = [ks[i] for i in op[1]]
            before = list(lst)
            await b.delete_multi(lst, log_progress=op[2])
            check(lst == [], 'delete_multi(%r) succeeded but left %r in the list', before, lst)
            for k in before:
                ctx.count('bulk hit' if k in ctx.model else 'bulk miss')
                ctx.model.pop(k, None)
        elif op[0] in ('store', 'write', 'write-file'):
            ctx.count('write')
            await ctx.put(op[0], ks[op[1]], objects.make(op[2]), objects.make_meta(op[3]))
        else:
            key = ks[op[1]]
            ctx.count('hit' if key in ctx.model else 'miss')
            await ctx.get(op[0], key, op[2])

    pauses = list(case['pause'])
    for now, w in batches(case):
        async with trio.open_nursery() as nursery:
            for op in now:
                nursery.start_soon(one, op, w)
        if pauses:
            await trio.sleep(pauses.pop(0))

    if srv is not None:
        srv.plan = []
    # the final state, seen through all ways of access
    await ctx.list('', set(ctx.model), set())
    for key in case['keys']:
        for how in ('contains', 'size', 'lookup', 'fetch'):
            await ctx.get(how, key, 0)
    await low.close()
    return ctx


# --------------------------------------------------------------------- permanent errors

MODES = ('login', 'password', 'bucket', 'deny', 'late', 'locked', 'locked', 'locked')


def denied_strategy():
    from hypothesis import strategies as st

    base = strategy(faults=False)()
    return st.fixed_dictionaries({
        'base': base, 'mode': st.sampled_from(MODES),
        'kind': st.sampled_from(sorted(servers.KINDS)),
        'n': st.one_of(st.integers(1, 12), st.sampled_from((999, 1000, 1001, 1500, 2001))),
        'locked': st.lists(st.integers(0, 2500), min_size=1, max_size=4),
        'op': st.sampled_from(('multi', 'multi', 'multi', 'delete')), 'log': st.booleans(),
        'absent': st.booleans(),
    })  # fmt: skip


def run_denied(case, info):
    with env.Scratch() as sc, proxies(case['base']['cfg'].get('proxy')):
        env.trio_run(play_denied, case, info, sc)


def leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        return [x for e in exc.exceptions for x in leaves(e)]
    return [exc]


async def play_denied(case, info, sc):
    import trio

    from s3ql.backends.common import (
        AuthenticationError,
        AuthorizationError,
        DanglingStorageURLError,
        NoSuchObject,
    )

    base, mode = dict(case['base'], kind=case['kind']), case['mode']
    cfg = base['cfg'] = dict(base['cfg'])
    pre = base['prefix']
    n = case['n'] if mode == 'locked' else 3
    keys = ['s3ql_data_%d' % i for i in range(1, n + 1)]
    locked = {keys[i % n] for i in case['locked']} if mode == 'locked' else set()
    cfg['locked'] = [pre + k for k in sorted(locked)]
    if n > 100:
        cfg['bulk'] = max(cfg['bulk'], 50)
    srv = servers.KINDS[case['kind']](cfg)
    for k in keys:
        if not case['absent'] or k in locked or len(k) % 2:
            srv.objects[pre + k] = servers.Obj(b'data', {} if srv.name == 'gs' else [])
    present = set(srv.objects)
    if mode == 'login' and srv.name == 'gs':
        mode = 'password'
    info.label('%s %s' % (mode, case['kind']))
    info.nontrivial = True
    expected = {
        'login': (AuthenticationError, AuthorizationError), 'password': (AuthenticationError, AuthorizationError),
        'bucket': (DanglingStorageURLError,), 'deny': (AuthorizationError, AuthenticationError),
    }.get(mode)  # fmt: skip

    async def quickly(what, coro, limit):
        t0, r0 = trio.current_time(), srv.handled
        try:
            return await coro
        finally:
            took, used = trio.current_time() - t0, srv.handled - r0
            check(took < 60, '%s took %d seconds although repeating it is pointless', what, took)
            check(used <= limit, '%s needed %d requests although repeating it is pointless', what, used)

    async with srv.net.running():
        if expected:
            case_ = base
            real = srv.bucket
            login, password = srv.login, srv.password
            if mode == 'login':
                srv.login = 'other'
            elif mode == 'password':
                srv.password = 'other'
            elif mode == 'deny':
                srv.cfg['deny'] = True

            async def opening():
                from s3ql import backends

                url = srv.url(pre)
                if mode == 'bucket':
                    srv.bucket = 'gone-away'
                b = await backends.async_prefix_map[srv.name].create(
                    storage_url=url, backend_options=srv.options(), backend_login=login,
                    backend_password=password, max_connections=base['conns'])  # fmt: skip
                # B2 does not look for the bucket when it is opened
                check(srv.name == 'b2', 'the storage location was opened in spite of %r', mode)
                return [x async for x in b.list()]

            try:
                res = await quickly('opening', opening(), 10)
            except expected as exc:
                check(str(exc), 'the error message is empty')
            except Violation:
                raise
            except Exception as exc:
                raise Violation('%s: opening raised %r instead of %s' % (mode, exc, expected)) from exc
            else:
                raise Violation('listing returned %r in spite of %r' % (res, mode))
            check(srv.problems == [], 'the client violates the protocol: %s', '; '.join(srv.problems[:3]))
            srv.bucket = real
            check(set(srv.objects) == present, 'objects changed')
            return

        b = await make_backend(base, srv, sc)
        if mode == 'late':
            srv.cfg['deny'] = True
            for what, call in (
                ('lookup', lambda: b.lookup(keys[0])), ('get_size', lambda: b.get_size(keys[0])),
                ('contains', lambda: b.contains(keys[0])), ('fetch', lambda: b.fetch(keys[0])),
                ('store', lambda: b.store(keys[0], b'new')), ('delete', lambda: b.delete(keys[0])),
                ('delete_multi', lambda: b.delete_multi(list(keys))), ('list', lambda: drain(b)),
            ):  # fmt: skip
                try:
                    res = await quickly(what, call(), 12)
                except NoSuchObject:
                    raise Violation('%s: NoSuchObject although access is denied' % what)
                except Violation:
                    raise
                except Exception:
                    pass
                else:
                    raise Violation('%s returned %r although access is denied' % (what, res))
            check(set(srv.objects) == present, 'objects changed')
            return
        if case['op'] == 'delete':
            for k in sorted(locked):
                try:
                    await quickly('delete', b.delete(k), 10)
                except Violation:
                    raise
                except Exception as exc:
                    check(not isinstance(exc, NoSuchObject), 'delete: NoSuchObject although access is denied')
                else:
                    raise Violation('deletion of %r succeeded although access is denied' % k)
            check(set(srv.objects) == present, 'objects changed')
            return
        lst = list(keys)
        try:
            await quickly('delete_multi', b.delete_multi(lst, log_progress=case['log']), 3 * n + 10)
        except Violation:
            raise
        except Exception as exc:
            check(not any(isinstance(e, (NoSuchObject, AssertionError, TypeError, KeyError, ValueError))
                          for e in leaves(exc)), 'delete_multi raised %r', exc)  # fmt: skip
        else:
            raise Violation('delete_multi succeeded although access to %r is denied' % sorted(locked)[:3])
        left = {k for k in keys if pre + k in srv.objects}
        check(len(set(lst)) == len(lst) and set(lst) <= set(keys), 'delete_multi left strange keys %s', short(lst))
        check(left >= locked, 'the server deleted locked objects')
        check(left <= set(lst), 'after delete_multi failed, %r are still there but not in the list of keys',
              sorted(left - set(lst))[:5])  # fmt: skip
        # with requests for single objects the answer to a request may get lost when another one fails
        single = not srv.supports_bulk()
        gone = [k for k in lst if k not in left and pre + k in present]
        check(len(gone) <= (base['conns'] if single else 0),
              'after delete_multi failed, the list of keys contains %d deleted objects (%s)', len(gone), gone[:5])  # fmt: skip
        check(srv.problems == [], 'the client violates the protocol: %s', '; '.join(srv.problems[:3]))
        await b.close()


async def drain(b):
    return [x async for x in b.list()]


# ------------------------------------------------------------------------ long listings


def listing_strategy():
    from hypothesis import strategies as st

    size = st.one_of(st.integers(0, 12), st.sampled_from((998, 999, 1000, 1001, 1500, 1999, 2000, 2001, 2002, 3100)))
    return st.fixed_dictionaries({
        'base': strategy()(), 'n': size, 'other': st.one_of(st.just(0), size), 'seed': st.integers(0, 999),
        'temp': st.lists(st.tuples(st.integers(0, 3300), st.integers(1, 1100)).map(list), max_size=3),
        'list': st.sampled_from(('', 's3ql_', 's3ql_data_', 's3ql_data_1', 'a', 's3ql_metadata_9')),
        'meddle': st.lists(st.tuples(st.integers(0, 3300), st.booleans(), st.integers(0, 3300)).map(list), max_size=6),
        'clear': st.booleans(),
    })  # fmt: skip


def run_listing(case, info):
    with env.Scratch() as sc, proxies(case['base']['cfg'].get('proxy')):
        env.trio_run(play_listing, case, info, sc)


async def play_listing(case, info, sc):
    base = dict(case['base'])
    cfg = base['cfg'] = dict(base['cfg'])
    n, pre = case['n'], base['prefix']
    if n + case['other'] > 100:
        cfg['page'] = 1000 if case['seed'] % 2 else 61
        cfg['bulk'] = max(cfg['bulk'], 200)
    keys = ['s3ql_data_%d' % (i * (1 + case['seed'] % 3)) for i in range(1, n + 1)]
    keys += ['s3ql_metadata_%012x' % i for i in range(case['other'])]
    base['keys'] = keys[:4]
    srv = path = None
    hidden = set()
    if base['kind'] == 'local':
        path = os.path.join(sc, 'be')
        os.mkdir(path)
        b = await make_backend(base, None, path)
        for k in keys:
            await b.store(k, b'd')
        ctl = contextlib.nullcontext()
    else:
        srv = servers.KINDS[base['kind']](cfg)

        def put(k):
            srv.objects[pre + k] = servers.Obj(b'd', {} if srv.name == 'gs' else [])

        for k in keys:
            put(k)
        if 'swift' in base['kind'] or base['kind'] == 'rackspace':
            from s3ql.backends.swift import TEMP_SUFFIX

            order = sorted(keys)
            for at, count in case['temp']:
                for k in order[at % (len(order) or 1):][:count]:
                    hidden.add(k + TEMP_SUFFIX)
            for k in hidden:
                put(k)
            if hidden:
                info.label('temporary objects')
        ctl = srv.net.running()
    touched = set()
    before = set(keys)
    async with ctl:
        if srv is not None:
            b = await make_backend(base, srv, path)
            arm(base, srv)
        meddle = {}
        for at, add, i in case['meddle']:
            meddle.setdefault(at % (len(keys) + 1), []).append((add, i))
        got = []
        async for k in b.list(case['list']) if case['list'] else b.list():
            for add, i in meddle.pop(len(got), ()):
                # meanwhile other objects come and go
                x = 's3ql_data_9%d' % i if add else sorted(before)[i % len(before)]
                touched.add(x)
                if srv is None:
                    if add:
                        await b.store(x, b'd')
                    else:
                        await b.delete(x)
                elif add:
                    put(x)
                else:
                    srv.objects.pop(pre + x, None)
            got.append(k)
        what = 'list(%r) of %d objects' % (case['list'], len(keys))
        check(len(set(got)) == len(got), '%s returned names more than once: %s', what,
              sorted(k for k in set(got) if got.count(k) > 1)[:3])  # fmt: skip
        want = {k for k in before if k.startswith(case['list'])} - touched
        check(want <= set(got), '%s lacks %d names: %s', what, len(want - set(got)), sorted(want - set(got))[:3])
        extra = set(got) - want - touched
        check(not extra, '%s also returned %d names: %s', what, len(extra), sorted(extra)[:3])
        if srv is not None:
            srv.armed = False
        if case['clear']:
            lst = [k async for k in b.list()]
            await b.delete_multi(lst)
            check(lst == [], 'delete_multi left %d names in the list', len(lst))
            left = [k async for k in b.list()]
            check(left == [], 'after all %d listed objects were deleted %d are left', len(keys), len(left))
        await b.close()
    info.label('kind ' + base['kind'])
    if len(want) > 1000:
        info.label('over 1000 names')
    info.nontrivial = len(want) > 1
    if srv is not None:
        check(srv.problems == [], 'the client violates the protocol: %s', '; '.join(srv.problems[:3]))


def full_strategy():
    from hypothesis import strategies as st

    put = st.tuples(st.sampled_from(('store', 'write', 'write-file')), st.integers(0, 2), objects.content(),
                    objects.meta(), st.one_of(st.none(), st.integers(0, 1100), st.integers(0, 1000).map(lambda i: -i)),
                    ).map(list)  # fmt: skip
    return st.fixed_dictionaries({
        'puts': st.lists(put, min_size=1, max_size=8), 'big': st.sampled_from((0, 0, 1, 3)),
        'comp': st.one_of(st.none(), st.none(), st.tuples(
            st.sampled_from(objects.ALGS), st.booleans()).map(list)),
    })  # fmt: skip


@contextlib.contextmanager
def space(limit):
    '''Files cannot become larger than that, as on a disk that is full'''
    import resource

    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    if limit is not None:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def run_full(case, info):
    with env.Scratch() as tmp:
        os.mkdir(tmp + '/be')
        env.trio_run(full_main, case, tmp, info)


async def full_main(case, tmp, info):
    if case['comp']:
        be = await objects.stack(tmp + '/be', b'pw' if case['comp'][1] else None, case['comp'][0], 6)
    else:
        be = await objects.local_backend(tmp + '/be')
    model = {}
    for n, (how, k, content, meta, limit) in enumerate(case['puts']):
        key = 's3ql_data_%d' % (k + 1)
        data = objects.make(content)
        if case['big']:
            data = data * (1 + 40000 * case['big'] // (len(data) or 1))
        meta = objects.make_meta(meta)
        if limit is not None:
            # relative to the size, or that many bytes less
            limit = max(0, len(data) * limit // 1000 if limit > 0 else len(data) + limit)
        if how == 'write-file':
            fh = open(tmp + '/src', 'w+b')  # noqa: SIM115
            fh.write(data)
            fh.seek(0)
        else:
            fh = io.BytesIO(data)
        try:
            with space(limit):
                if how == 'store':
                    await be.store(key, data, meta)
                elif case['comp']:
                    await be.write_fh(key, fh, len(data), meta)
                else:
                    await be.write_fh(key, fh, meta)
        except OSError:
            info.label('refused')
            check(limit is not None, 'put fails although there is enough space')
        else:
            if limit is not None:
                info.label('fits')
            model[key] = (data, meta)
        finally:
            fh.close()
        got = sorted([x async for x in be.list()])
        check(got == sorted(model), 'put %d: list() returns %r, expected %r', n, got, sorted(model))
        for x, (d, m) in model.items():
            gd, gm = await be.fetch(x)
            check(bytes(gd) == d, 'put %d (%d bytes, limit %r): %r has %d bytes, expected %d', n, len(data), limit, x,
                  len(gd), len(d))  # fmt: skip
            check(objects.same(gm, m), 'put %d: %r has metadata %r, expected %r', n, x, gm, m)
    info.nontrivial = info.labels.get('refused', 0) > 0


PROPERTY = Property(
    'C13',
    rule='a case counts as non-trivial if at least one object was written, at least one operation '
    'read or deleted an existing object and (if faults were planned) at least one fault took place; a listing if it has at least two names',
    parts=[
        Part('map', strategy(), run, quick=120, thorough=3000, cpu_limit=60),
        Part('opening', strategy(opening=True), run, quick=40, thorough=800, cpu_limit=60),
        Part('denied', denied_strategy, run_denied, quick=30, thorough=600, cpu_limit=60),
        Part('listing', listing_strategy, run_listing, quick=16, thorough=400, cpu_limit=120),
        Part('full', full_strategy, run_full, quick=60, thorough=3000),
        Part('calm', strategy(faults=False), run, quick=30, thorough=500, cpu_limit=60),
    ],
    assumptions=['servers are in-memory models of the protocols, connected through in-memory streams'],
)
TECHNIQUE = 'model-based random operation histories against protocol-checking in-memory servers with random fault schedules'
NOTE = 'Servers are models of the documented protocols on an in-memory network, not the real services.'
