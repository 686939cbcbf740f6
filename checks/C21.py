'''C21: temporary failures are retried with bounded back-off, others surface at once.'''

import io

from harness import env, net, servers
from harness.core import Part, Property, Violation, check
from harness.fsdrive import ROOT, Ctx
from harness.session import FsDriver, final_walk, make_world, run_history
from harness.tree import mount_tree
from harness.world import NetWorld

DAY = 24 * 3600
FIRST, LONGEST = 0.02, 300  # as documented for mount.s3ql
KINDS = sorted(servers.KINDS)

# ------------------------------------------------------------------ the law


class Temp(Exception):
    def __init__(self, n, **kw):
        super().__init__(n)
        self.__dict__.update(kw)


class Perm(Exception):
    pass


class Fatal(BaseException):
    pass


def law_strategy():
    from hypothesis import strategies as st

    dur = st.sampled_from([0, 0, 0, 0.5, 20, 1000])
    after = st.sampled_from(['none', 'none', 'none', None, 0, 1, 7, 0.3, 30.0, 299, 300])
    fail = st.tuples(st.just('temp'), dur, after).map(list)
    last = st.sampled_from(['ok', 'ok', 'perm', 'fatal', 'forever', 'cancel'])
    return st.fixed_dictionaries({
        'fails': st.one_of(st.lists(fail, max_size=6), st.lists(fail, max_size=40)),
        'last': last, 'dur': dur, 'flag': st.booleans(),
        'always': st.sampled_from(['none', 'none', 120, 300, 3600]), 'nargs': st.integers(0, 3), 'kw': st.booleans(),
        'late': st.floats(0.1, 5), 'seed': st.integers(0, 10**6), 'value': st.sampled_from([None, 0, False, 'x']),
    })  # fmt: skip


def law_run(case, info):
    import random

    random.seed(case['seed'])
    env.trio_run(law_main, case, info)


async def law_main(case, info):
    import trio

    from s3ql.backends.common import retry

    calls = []
    raised = []
    fails = list(case['fails'])
    result = [case['value']]
    state = {'n': 0}
    scope = trio.CancelScope()

    async def body(self, args, kw, flag=None):
        calls.append((trio.current_time(), args, kw, flag))
        n = state['n']
        state['n'] += 1
        if n < len(fails):
            _, dur, after = fails[n]
            exc = Temp(n) if after == 'none' else Temp(n, retry_after=after)
        else:
            dur = case['dur']
            always = {} if case.get('always', 'none') == 'none' else {'retry_after': case['always']}
            check(n < 3000, 'still trying after %.0f s', trio.current_time() - start)
            exc = {'ok': None, 'perm': Perm(n), 'fatal': Fatal(n), 'forever': Temp(n, **always), 'cancel': Temp(n)}[case['last']]
        await trio.sleep(dur)
        if case['last'] == 'cancel' and n == len(fails):
            scope.deadline = trio.current_time() + case['late'] * FIRST
        raised.append((trio.current_time(), exc))
        if exc is not None:
            raise exc
        return result

    class Thing:
        def is_temp_failure(self, exc):
            return isinstance(exc, Temp)

        if case['flag']:

            @retry
            async def work(self, *a, is_retry=False, **kw):
                '''doc'''
                return await body(self, a, kw, is_retry)
        else:

            @retry
            async def work(self, *a, **kw):
                return await body(self, a, kw)

    thing = Thing()
    args = tuple(object() for _ in range(case['nargs']))
    kw = {'x': object()} if case['kw'] else {}
    start = trio.current_time()
    out, exc = None, None
    try:
        with scope:
            out = await thing.work(*args, **kw)
    except Violation:
        raise
    except (Exception, Fatal) as e:
        exc = e
    end = trio.current_time()
    n = len(raised)
    info.label(case['last'])
    info.nontrivial = n > 1

    for i, (_, a, k, flag) in enumerate(calls):
        check(a == args and k == kw, 'attempt %d is made with other arguments', i)
        if case['flag']:
            check(flag is (i > 0), 'is_retry is %r for attempt %d', flag, i)
    # delays
    lo = hi = FIRST
    waited = 0
    after = None
    for i in range(1, n):
        d = calls[i][0] - raised[i - 1][0]
        after = getattr(raised[i - 1][1], 'retry_after', None)
        waited += d
        if after:
            check(after - 1e-6 <= d <= 1.5 * after + 1e-6, 'waited %.3f s although the server asked for %s', d, after)
            lo, hi = sorted((min(lo, after), max(hi, after)))
        else:
            check(lo - 1e-6 <= d <= 1.5 * hi + 1e-6, 'waited %.3f s before attempt %d, expected %.2f..%.2f', d, i,
                  lo, 1.5 * hi)  # fmt: skip
        lo, hi = min(LONGEST, 2 * lo), min(LONGEST, 2 * hi)
    last = raised[-1][1]
    if case['last'] in ('forever',) and isinstance(last, Temp) and n > len(fails):
        check(isinstance(exc, TimeoutError) and exc.__cause__ is last, 'gives up with %r', exc)
        check(end - start > DAY, 'gives up after %.0f s', end - start)
        check(waited <= 1.5 * (DAY + max(LONGEST, after or 0)) + 1, 'gives up only after %.0f s of waiting', waited)
        return
    if isinstance(exc, TimeoutError):
        # the list of failures was long enough
        check(waited >= DAY and exc.__cause__ is last, 'gives up after %.0f s', waited)
        return
    if case['last'] == 'cancel':
        # either during a wait, or in one of the next attempts
        check(n > len(fails), '%d attempts', n)
        check(scope.cancelled_caught and exc is None, 'cancelling has no effect: %r', exc)
        check(end - raised[len(fails)][0] <= case['late'] * FIRST + 1e-6, 'cancelling is delayed')
        return
    check(n == len(fails) + 1, '%d attempts instead of %d', n, len(fails) + 1)
    check(end == raised[-1][0], 'the outcome is delivered with a delay')
    if case['last'] == 'ok':
        check(exc is None and out is result, 'returned %r (%r)', out, exc)
    else:
        check(exc is last, 'raised %r instead of %r', exc, last)


# ------------------------------------------------ what the services answer

TEMPORARY = (500, 502, 503, 504, 408, 429)
PERMANENT = (400, 405, 411, 413, 416, 501, 505)
OPS = ('lookup', 'fetch', 'store', 'size', 'list', 'contains', 'delete')


def answer_strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'op': st.sampled_from(OPS), 'seed': st.integers(0, 999), 'tls': st.booleans(),
        'status': st.one_of(st.sampled_from(TEMPORARY), st.sampled_from(TEMPORARY), st.sampled_from(PERMANENT)),
        'count': st.integers(1, 12),
        'after': st.sampled_from([None, None, '0', '1', '17', '299', '300', '301', '86400', 'date+0', 'date+40', 'date-99',
                                  'date+5000', 'soon', '-3', '1.5', '']),
        'body': st.integers(0, 3), 'pos': st.integers(0, 20), 'size': st.sampled_from([0, 1, 500, 70000]),
    })  # fmt: skip


def answer_run(case, info):
    env.vtime.reset()
    env.trio_run(answer_main, case, info)


def cfg_of(case):
    return {'seed': case['seed'], 'page': 1000, 'tls': case['tls'], 'bulk': 0, 'lifetime': 10**6, 'noinfo': False,
            'meta_max': 256, 'v3': 1}  # fmt: skip


async def connect(srv, prefix='', conns=1):
    from s3ql import backends

    cls = backends.async_prefix_map[srv.name]
    return await cls.create(
        storage_url=srv.url(prefix), backend_options=srv.options(), backend_login=srv.login,
        backend_password=srv.password, max_connections=conns)  # fmt: skip


async def answer_main(case, info):
    import email.utils

    import trio

    srv = servers.KINDS[case['kind']](cfg_of(case))
    times = []
    status = case['status']
    if srv.name == 'gs' and status > 500 and status not in TEMPORARY:
        status = 400  # all of these may be temporary
    after = case['after']

    def respond(req, how):
        times.append(trio.current_time())
        body, ctype = [(b'', None), (b'<html>sorry</html>', 'text/html'), (b'x' * 5000, 'text/plain'),
                       (b'{"a": 1}', 'application/json')][case['body']]  # fmt: skip
        h = []
        if after is not None:
            v = after
            if v.startswith('date'):
                v = email.utils.formatdate(env.vtime.now() + int(v[4:]), usegmt=True)
            h.append(('Retry-After', v))
        return servers.Resp(status, body, h, ctype)

    data = net.rng_for('d', case['seed']).randbytes(case['size'])
    async with srv.net.running():
        b = await connect(srv)
        await b.store('key', data, {'m': 'eta'})
        srv.transient = respond
        srv.plan = [[0, 'status', 0] for _ in range(case['count'])]
        srv.armed = True
        start = trio.current_time()
        exc, res = None, None
        try:
            match case['op']:
                case 'lookup':
                    res = await b.lookup('key')
                case 'fetch':
                    res = await b.fetch('key')
                case 'store':
                    res = await b.store('key', data + b'!', {'m': 'eta2'})
                case 'size':
                    res = await b.get_size('key')
                case 'list':
                    res = [k async for k in b.list()]
                case 'contains':
                    res = await b.contains('key')
                case 'delete':
                    await b.delete('key')
        except Exception as e:
            exc = e
        end = trio.current_time()
        left = len(srv.plan)
        srv.plan = []
        if status in TEMPORARY:
            info.nontrivial = True
            info.label('temporary')
            if exc is not None:
                raise exc
            check(left == 0, 'only %d requests', len(times))
            want = {'lookup': {'m': 'eta'}, 'fetch': (data, {'m': 'eta'}), 'size': len(data), 'list': ['key'],
                    'contains': True}  # fmt: skip
            if case['op'] in want:
                check(res == want[case['op']], '%s returned %r', case['op'], str(res)[:80])
            elif case['op'] == 'store':
                got = await b.fetch('key')
                check(got == (data + b'!', {'m': 'eta2'}), 'stored %r', str(got)[:80])
            else:
                check('key' not in srv.objects, 'the object was not deleted')
        else:
            info.label('permanent')
            info.nontrivial = True
            check(exc is not None, '%s succeeds although the server answered %d', case['op'], status)
            check(len(times) == 1 and end - start < 1, '%d requests and %.1f s for permanent failure %d',
                  len(times), end - start, status)  # fmt: skip
            check('key' in srv.objects and srv.objects['key'].data == data, 'the object was changed')
        await b.close()
    check(not srv.problems, 'protocol: %s', srv.problems[:2])
    if status not in TEMPORARY or srv.name == 'gs':
        return
    # delays
    secs = None
    if after is not None and not after.startswith('date') and after.strip().isdigit():
        secs = min(300, max(1, int(after)))
    elif after is not None and after.startswith('date'):
        secs = min(300, max(1, int(after[4:])))
    iv = FIRST
    for i, (a, z) in enumerate(zip(times, [*times[1:], end])):
        d = z - a
        if secs is not None:
            slack = 1 if after.startswith('date') else 0  # one second resolution
            check(max(secs - slack, FIRST) - 1e-6 <= d <= 1.5 * secs + 5.5, 'waited %.2f s although the server said %r', d, after)
        else:
            # connections may have to be set up again
            check(iv - 1e-6 <= d <= 1.5 * iv + 0.5, 'waited %.2f s before retry %d, expected %.2f', d, i + 1, iv)
        iv = min(LONGEST, 2 * iv)
    if secs:
        info.label('server delay')


# ------------------------------------------------------- contents that change


def swap_strategy():
    from hypothesis import strategies as st

    size = st.sampled_from([0, 1, 300, 5000, 70000, 200000])
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'seed': st.integers(0, 999), 'tls': st.booleans(),
        'versions': st.lists(size, min_size=2, max_size=4), 'off': st.sampled_from([0, 0, 1, 700]),
        'faults': st.lists(st.tuples(st.integers(0, 2), st.sampled_from(['truncate', 'truncate', 'reset-head', 'status',
                           'garbled']), st.integers(0, 999)).map(list), min_size=1, max_size=3),
        'how': st.sampled_from(['fetch', 'into', 'raw']), 'enc': st.booleans(),
    })  # fmt: skip


def swap_run(case, info):
    env.trio_run(swap_main, case, info)


async def swap_main(case, info):
    '''Another version of the object appears whenever an attempt fails'''
    from s3ql.authinfo import CompressSpec
    from s3ql.backends.comprenc import AsyncComprencBackend

    srv = servers.KINDS[case['kind']](cfg_of(case))
    rng = net.rng_for('v', case['seed'])
    versions = [rng.randbytes(n) for n in case['versions']]
    state = {'at': 0}
    async with srv.net.running():
        low = await connect(srv)
        b = low
        if case['how'] != 'raw':
            b = await AsyncComprencBackend.create(b'pw' if case['enc'] else None, CompressSpec.parse('none'), low)
        stored = []
        for i, v in enumerate(versions):
            await b.store('key', v, {'v': i})
            stored.append(srv.objects['key'])
        srv.objects['key'] = stored[0]
        orig, handle = srv.next_fault, srv.handle

        def next_fault(req):
            f = orig(req)
            if f:
                state['swap'] = True
                if f[0] == 'garbled':
                    # the data does not arrive as it was sent
                    state['garble'] = f[1]
                    return None
            elif state.pop('swap', False):
                state['at'] = min(state['at'] + 1, len(versions) - 1)
                srv.objects['key'] = stored[state['at']]
            return f

        def garble(req):
            r = handle(req)
            how = state.pop('garble', None)
            if how is not None and r.status == 200 and srv.concerns('DATA', req):
                r.body = r.body[: len(r.body) // 2] + b'junk' + r.body[len(r.body) // 2:] * (how % 3)
                info.label('garbled')
            return r

        srv.next_fault, srv.handle = next_fault, garble
        srv.plan = [[*f, 'DATA'] for f in case['faults']]
        if srv.name == 'gs':
            # the contents are not protected by a checksum of the transfer
            srv.plan = [[f[0], 'truncate' if f[1] == 'garbled' else f[1], *f[2:]] for f in srv.plan]
        srv.armed = True
        pre = rng.randbytes(case['off'])
        if case['how'] == 'fetch':
            data, meta = await b.fetch('key')
        else:
            fh = io.BytesIO()
            fh.write(pre)
            meta = await b.readinto_fh('key', fh)
            data = fh.getvalue()
            check(data[: len(pre)] == pre, 'what lies in front was changed')
            data = data[len(pre):]
        srv.armed = False
        i = meta.get('v')
        check(i in range(len(versions)), 'metadata %r', meta)
        check(data == versions[i], 'got %d bytes, which are not the %d bytes of the version with this metadata', len(data),
              len(versions[i]))  # fmt: skip
        await b.close()
    check(not srv.problems, 'protocol: %s', srv.problems[:2])
    info.nontrivial = bool(srv.fired) and state['at'] > 0


# --------------------------------------------------------- a mounted file system

WEIGHTS = {
    'create': 8, 'mkdir': 3, 'symlink': 1, 'link': 2, 'unlink': 3, 'rename': 3, 'open': 2, 'release': 3, 'write': 14,
    'read': 8, 'truncate': 4, 'setattr': 1, 'setxattr': 1, 'sync': 3, 'drop': 3, 'sleep': 2, 'forget': 1,
    'remount': 2, 'upmeta': 1,
}  # fmt: skip


def mount_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    which = st.sampled_from((None, None, 'DATA', 'PUT', 'HEAD', 'DELETE', 'POST'))
    fault = st.tuples(st.integers(0, 8), st.sampled_from(servers.FAULTS), st.integers(0, 999), which).map(list)
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(cachesize=st.sampled_from([None, 0, 2, 5])), 'ops': fsops.op_list(WEIGHTS, 3, 25),
        'kind': st.sampled_from(KINDS), 'conns': st.integers(1, 3), 'seed': st.integers(0, 999), 'tls': st.booleans(),
        'faults': st.lists(fault, max_size=10), 'bulk': st.sampled_from([0, 2, 1000]),
        'page': st.sampled_from([2, 1000]), 'lifetime': st.sampled_from([10**6, 400]),
    })  # fmt: skip


def server_of(case):
    return servers.KINDS[case['kind']]({**cfg_of(case), 'bulk': case['bulk'], 'page': case['page'],
                                        'lifetime': case['lifetime']})  # fmt: skip


def mount_run(case, info):
    with env.Scratch() as root:
        srv = server_of(case)
        w = make_world(root, case['cfg'], cls=NetWorld, srv=srv, conns=case['conns'])
        with w.online():
            res = w.mkfs()
            check(res.code == 0, 'mkfs fails with %r (%s)', res.code, res.exc)
            drv = FsDriver(w, case['cfg'], info)
            srv.plan = [list(f) for f in case['faults']]
            srv.armed = True
            run_history(w, drv, case['ops'])
            srv.armed = False
            srv.plan = []
            final_walk(w, drv)
            w.drop_cachedir()
            res = w.fsck('--force')
            check(res.code == 0, 'fsck finds errors (%r)', res.code)
        check(not srv.problems, 'protocol: %s', srv.problems[:2])
    info.label('kind ' + case['kind'])
    for f in srv.fired:
        info.label('fault ' + f)
    info.nontrivial = bool(srv.fired)


# --------------------------------------------------------------------- giving up


def giveup_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({
        'cfg': fsops.cfg(cachesize=st.sampled_from([None, 0, 2, 5])),
        'ops': fsops.op_list({k: v for k, v in WEIGHTS.items() if k != 'remount'}, 0, 10),
        'kind': st.sampled_from(KINDS), 'conns': st.integers(1, 3), 'seed': st.integers(0, 999), 'tls': st.booleans(),
        'bulk': st.sampled_from([0, 2, 1000]), 'page': st.sampled_from([2, 1000]), 'lifetime': st.just(10**6),
        'how': st.sampled_from(['status', 'reset-head', 'refuse', 'expired', 'stall', 'status-applied', 'truncate-head']),
        'num': st.integers(0, 999), 'lapse': st.booleans(),
        'what': st.sampled_from(['upload', 'flush', 'download', 'delete', 'metadata', 'umount']),
        'back': st.sampled_from([None, None, 0.1, 600, 12 * 3600, 23 * 3600]),
    })  # fmt: skip


class Forever:
    '''Connection attempts are refused'''

    def __init__(self, hits):
        self.hits = hits

    def __bool__(self):
        return True

    def pop(self, _):
        self.hits.append(env.vtime.now())
        return ConnectionRefusedError(111, 'refused')

    def append(self, _):
        pass


def quiet_error(resp):
    resp.headers = [h for h in resp.headers if h[0].lower() != 'retry-after']
    return resp


def giveup_run(case, info):
    with env.Scratch() as root:
        srv = server_of(case)
        w = make_world(root, case['cfg'], cls=NetWorld, srv=srv, conns=case['conns'])
        what = case['what']
        down = {'at': None}
        orig = srv.next_fault
        hits = []

        def next_fault(req):
            if down['at'] is None:
                return orig(req)
            hits.append(env.vtime.now())
            return 'reset-head' if case['how'] == 'refuse' else case['how'], case['num']

        srv.next_fault = next_fault
        transient = srv.transient
        # do not ask for short intervals
        srv.transient = lambda req, how: quiet_error(transient(req, how))

        def begin():
            down['at'] = env.vtime.now()
            if case['lapse'] and srv.expire():
                info.label('session lapses')
            if case['how'] == 'refuse':
                srv.net.refuse = Forever(hits)

        def end():
            down['at'] = None
            srv.net.refuse = []

        async def recover():
            import trio

            await trio.sleep(case['back'])
            end()

        async def driver(fsops):
            import trio

            await drv.start(fsops)
            for op in case['ops']:
                await drv.step(op)
            await drv.op_create(0, 0, 0, 0)
            await drv.op_write(0, 0, 0, 2, 1)
            if what in ('download', 'delete', 'metadata'):
                await drv.op_sync()
            if what == 'download':
                await drv.op_drop()
            start = env.vtime.now()
            begin()
            async with trio.open_nursery() as n:
                if case['back'] is not None:
                    n.start_soon(recover)
                if what == 'flush':
                    await drv.op_sync()
                elif what == 'download':
                    for node in drv.files():
                        await drv.check_content(node)
                elif what == 'delete':
                    while drv.handles:
                        await drv.op_release(0)
                    while [p for p in drv.model.paths() if p[2].kind != 'd']:
                        await drv.op_unlink(0)
                elif what == 'metadata':
                    await drv.op_upmeta()
                if what != 'umount':
                    await trio.sleep(2.5 * DAY if case['back'] is None else DAY)
                down['noticed'] = bool(hits)
            if case['back'] is not None:
                check(down['at'] is None, 'the outage is not over')
                await drv.walk()
            await drv.finish_session()
            down['end'] = env.vtime.now() - start
            return True

        with w.online():
            res = w.mkfs()
            check(res.code == 0, 'mkfs fails with %r (%s)', res.code, res.exc)
            drv = FsDriver(w, case['cfg'], info)
            res = w.mount(driver, reraise=False)
            over = env.vtime.now()
            gave_up = False
            info.label(what)
            info.nontrivial = bool(hits)
            if case['back'] is not None:
                info.label('outage of %.0f s' % case['back'])
                check(res.code == 0, 'the mount fails although the server is back: %r', res.exc)
            elif not hits:
                check(res.code == 0, 'mount fails without contacting the server: %r', res.exc)
            else:
                if not down.get('noticed', True):
                    # nothing had to be transferred before
                    check(res.closed is not None, 'not closed')
                    info.label('umount without server')
                else:
                    check(not down.get('end'), 'the mount keeps running without a server for %.0f s', down.get('end') or 0)
                    check(res.closed is False, 'the mountpoint is unmounted after a fatal error (%r, %r)', res.code, res.exc)
                    t = res.closed_at - hits[0]
                    check(DAY <= t <= 1.7 * DAY, 'terminates after %.0f s', t)
                t = over - hits[0]
                check(res.code != 0, 'the mount ends successfully although the server is gone')
                check(DAY <= t <= 4 * DAY, 'has terminated after %.0f s', t)
                info.label('gives up')
                gave_up = True
                end()
                w.after_death()
                res = w.fsck()
                check(res.code in (0, 128), 'fsck fails with %r (%s)', res.code, res.exc)
            end()
            if gave_up:
                # attributes that had not been written back may be lost
                res, tree = mount_tree(w)
                check(res.code == 0 and tree is not None, 'cannot be mounted afterwards: %r (%s)', res.code, res.exc)
            else:
                final_walk(w, drv)
            w.drop_cachedir()
            res = w.fsck('--force')
            check(res.code == 0, 'fsck finds errors (%r)', res.code)
        check(not srv.problems, 'protocol: %s', srv.problems[:2])
    info.label('kind ' + case['kind'])
    info.label('outage ' + case['how'])


PROPERTY = Property(
    'C21',
    'at least one retry took place or a permanent failure was reported; for histories: at least one fault took place',
    [Part('law', law_strategy, law_run, quick=300, thorough=10000),
     Part('answer', answer_strategy, answer_run, quick=250, thorough=5000),
     Part('swap', swap_strategy, swap_run, quick=150, thorough=3000),
     Part('mount', mount_strategy, mount_run, quick=40, thorough=1000, cpu_limit=60),
     Part('giveup', giveup_strategy, giveup_run, quick=8, thorough=400, cpu_limit=120)],
    assumptions=['servers are in-memory models of the protocols, the clock is virtual'],
)
TECHNIQUE = (
    'Property-based testing with fault schedules under virtual time: generated outcome sequences and server answers, '
    'model-based histories of a mounted file system on faulty in-memory servers'
)
NOTE = 'Trusts the models of the storage services and the virtual clock.'
