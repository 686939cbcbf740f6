'''C29: an internal failure ends the mount, but loses nothing that was written before.'''

import contextlib
import errno
import functools
import signal

from checks.C02 import Runner
from harness import env, faults, inspect
from harness.core import Part, Property, Violation, check
from harness.session import FsDriver, make_world
from harness.tree import mount_tree

KINDS = ['handler', 'handler', 'disk', 'disk', 'upload', 'upload', 'download', 'open', 'delete', 'meta', 'term', 'int']
ACTS = ('w', 'r', 't', 'fs', 'sync', 'drop', 'cs', 'sl', 'churn', 'size', 'bigw', 'up')


class Boom(Exception):
    '''The failure'''


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    when = st.one_of(st.integers(0, 8), st.integers(0, 25))
    f, tag = st.integers(0, 2), st.one_of(st.integers(0, 1), st.integers(0, 7))
    blk, sub, ln = st.integers(0, 4), st.integers(0, 3), st.integers(0, 5)
    bag = []
    for n, (name, *args) in [
        (8, ('bigw', f, tag)), (8, ('w', f, blk, sub, ln, tag)), (3, ('t', f, blk, sub)), (3, ('r', f, blk, sub, ln)),
        (3, ('sync',)), (3, ('drop',)), (3, ('fs', f)), (2, ('churn', st.integers(0, 3), blk, tag)),
        (4, ('sl', st.integers(0, 7))), (1, ('cs', st.integers(0, 3))), (1, ('up',)), (1, ('size', f)),
    ]:  # fmt: skip
        bag.extend([st.tuples(st.just(name), *args).map(list)] * n)
    busy = st.lists(st.lists(st.one_of(bag), min_size=3, max_size=12), min_size=2, max_size=4)
    cfg = fsops.cfg(
        passphrase=False, block_kib=1, meta_kib=4, compress='none',
        cachesize=st.sampled_from([None, None, 0, 2, 5]), max_entries=st.sampled_from([None, None, 1, 4]),
        delays=st.lists(st.one_of(st.integers(0, 2), st.integers(10, 60)), min_size=1, max_size=6),
    )  # fmt: skip
    return st.fixed_dictionaries({
        'base': st.fixed_dictionaries({
            'cfg': cfg, 'clients': busy, 'conns': st.sampled_from([1, 1, 2]), 'upload_delay': st.sampled_from([10, 1]),
        }),
        'kind': st.sampled_from(KINDS),
        'when': when,
        'torn': st.sampled_from([0, 0, 1, 300]),
        'hold': st.sampled_from([0, 0, 3, 20, 100]),  # time until the backend reports the failure
    })  # fmt: skip


class Crasher(Runner):
    def __init__(self, case, world, info, plan):
        super().__init__(case, world, info)
        self.plan = plan
        self.files = []
        self.stopped = False

    async def driver(self, ops):
        try:
            await super().driver(ops)
        except BaseException as exc:
            found = [e for e in leaves(exc) if isinstance(e, Violation)]
            if found:
                raise found[0] from None
            raise
        return True

    async def client(self, i, oplist):
        for op in oplist:
            if op[0] not in ACTS:
                continue
            if self.plan.due('handler'):
                # some call fails with an error that is not meant for the kernel
                raise Boom('handler')
            if self.plan.due('term') or self.plan.due('int'):
                signal.raise_signal(signal.SIGTERM if self.plan.kind == 'term' else signal.SIGINT)
                self.stopped = True
            if self.stopped:
                return
            await getattr(self, 'op_' + op[0])(i, *op[1:])

    async def op_w(self, me, fi, *args):
        await self.whole(fi, super().op_w(me, fi, *args))

    async def op_t(self, me, fi, *args):
        await self.whole(fi, super().op_t(me, fi, *args))

    async def whole(self, fi, coro):
        f = self.files[fi]
        try:
            await coro
        except BaseException:
            # this change may have taken place in part, whatever others get done afterwards
            f.certain = min(getattr(f, 'certain', f.done), f.done)
            raise


def leaves(exc):
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from leaves(e)
    else:
        yield exc


class Plan:
    '''The failure happens at the *when*-th occasion and takes place once'''

    def __init__(self, kind, when):
        self.kind, self.left, self.hit, self.armed = kind, when, False, False

    def due(self, kind):
        if kind != self.kind or not self.armed or self.hit:
            return False
        if self.left:
            self.left -= 1
            return False
        self.hit = True
        return True


@contextlib.contextmanager
def failing_cache(plan, torn):
    '''The disk that holds the cache is full, or there are too many open files'''
    from s3ql import block_cache

    cls = block_cache.CacheEntry
    write, init = cls.write, cls.__init__

    @functools.wraps(write)
    def bad_write(self, buf):
        if plan.due('disk'):
            if torn and len(buf) > 1:
                write(self, bytes(buf)[: min(torn, len(buf) - 1)])
            raise OSError(errno.ENOSPC, 'No space left on device')
        return write(self, buf)

    @functools.wraps(init)
    def bad_init(self, *a, **kw):
        if plan.due('open'):
            raise OSError(errno.EMFILE, 'Too many open files')
        return init(self, *a, **kw)

    cls.write, cls.__init__ = bad_write, bad_init
    try:
        yield
    finally:
        cls.write, cls.__init__ = write, init


def failing_backend(plan, hold):
    import trio

    def wrap(name, orig):
        @functools.wraps(orig)
        async def fn(self, key, *a, **kw):
            data = key.startswith('s3ql_data_')
            if name == 'write_fh':
                bad = plan.due('upload') if data else plan.due('meta')
            elif name == 'readinto_fh':
                bad = data and plan.due('download')
            else:
                bad = data and plan.due('delete')
            if bad:
                await trio.sleep(hold)
                raise faults.PermFault('injected')
            return await orig(self, key, *a, **kw)

        return fn

    return faults.patched(wrap)


def run(case, info):
    base = case['base']
    with env.Scratch() as root:
        w = make_world(root, base['cfg'], upload_delay=base['upload_delay'])
        plan = Plan(case['kind'], case['when'])
        r = Crasher(base, w, info, plan)

        async def driver(ops):
            plan.armed = True
            return await r.driver(ops)

        with failing_cache(plan, case['torn']), failing_backend(plan, case.get('hold', 0)):
            res = w.mount(driver, '--max-connections', str(base['conns']), reraise=False)
        if not plan.hit:
            check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)', res.code, res.exc)
            info.label('no-failure')
            return
        info.label(case['kind'])
        exc = res.exc
        env.vtime.advance(10)
        env.set_sched(env.Sched())
        if case['kind'] == 'int':
            # works like unmounting, no check is required
            check(res.code == 0, 'exit code %r after SIGINT (%s)', res.code, exc)
        else:
            check(res.code != 0, 'the failure (%s) has not been reported', case['kind'])
            w.after_death()
            res = w.fsck()
            check(res.code in (0, 1, 128), 'fsck exits with %r (%s) after %r', res.code, res.exc, exc)
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        data = inspect.check_backend(w, db)
        inspect.check_files(db, data, r.bs, empty=True)
        w.drop_cachedir()
        res, tree = mount_tree(w)
        check(res.code == 0, 'next mount exits with %r', res.code)
        for i, f in enumerate(r.files):
            e = tree.get(b'/src/f%d' % i)
            check(e is not None, 'file %d is gone after %s, present: %r', i, case['kind'], sorted(tree))
            done = getattr(f, 'certain', f.done)
            err = f.matches(0, 10**6, e.data, done, len(f.states) - 1, 1)  # writes may be torn anywhere
            if err:
                raise Violation('after %s failure and fsck, file %d (states %d..%d): %s' % (
                    case['kind'], i, done, len(f.states) - 1, err))  # fmt: skip
    info.nontrivial = info.labels.get('write', 0) >= 1


def tree_strategy():
    from hypothesis import strategies as st

    from checks.C28 import WEIGHTS
    from harness import fsops

    fsops.OPS['pause'] = fsops.t('pause', st.one_of(st.integers(0, 20), st.integers(0, 60)))
    weights = {**{k: v for k, v in WEIGHTS.items() if k not in ('wait', 'image')}, 'pause': 4, 'lock': 1, 'drop': 1, 'sync': 1, 'cachesize': 1, 'upmeta': 1}
    start = st.tuples(fsops.OPS['create'], fsops.OPS['write'])
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(), 'delay': st.sampled_from([0, 1, 10, 10, 100]),
        'ops': st.tuples(start, fsops.op_list(weights, 3, 25)).map(lambda x: [*x[0], *x[1]]),
        'end': st.sampled_from(['handler', 'term', 'int', 'upload', 'upload', 'delete']),
        'hold': st.sampled_from([0, 0, 3]),
    })  # fmt: skip


class TreeDriver(FsDriver):
    async def op_pause(self, n):
        import trio

        await trio.sleep(n)


def run_tree(case, info):
    import trio

    from checks.C28 import compare_state, state

    kind = case['end']
    with env.Scratch() as root:
        w = make_world(root, case['cfg'], upload_delay=case['delay'])
        drv = TreeDriver(w, case['cfg'], info)
        plan = Plan(kind, 0)

        async def driver(fsops):
            await drv.start(fsops)
            for op in case['ops']:
                await drv.step(op)
            plan.armed = True
            if kind == 'handler':
                raise Boom('handler')
            elif kind == 'term' or kind == 'int':
                signal.raise_signal(signal.SIGTERM if kind == 'term' else signal.SIGINT)
            else:
                # Uploads or removals take place now
                await trio.sleep(case['delay'] + 20)
            return True

        with failing_backend(plan, case['hold']):
            res = w.mount(driver, reraise=False)
        clean = kind == 'int' or (kind in ('upload', 'delete') and not plan.hit)
        info.label(kind + ('-clean' if clean else ''))
        if clean:
            check(res.code == 0, 'mount/unmount failed with exit code %r (%s)', res.code, res.exc)
        else:
            exc = res.exc
            check(res.code != 0, 'the failure (%s) has not been reported', kind)
            env.vtime.advance(10)
            env.set_sched(env.Sched())
            w.after_death()
            res = w.fsck()
            check(res.code in (0, 1, 128), 'fsck exits with %r (%s) after %r', res.code, res.exc, exc)
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        inspect.check_backend(w, db)
        w.drop_cachedir()
        res, tree = mount_tree(w)
        check(res.code == 0, 'next mount exits with %r', res.code)
        want = state(drv)
        extra = {p for p in set(tree) - set(want) if p and not p.startswith(b'/lost+found')}
        check(not extra, 'files appeared: %r', sorted(extra)[:5])
        for path, v in want.items():
            compare_state('%r was complete, but after the failure (%s)' % (path, kind), v, tree.get(path))
        info.nontrivial = not clean and any(v[1] == 'f' for v in want.values())


PROPERTY = Property(
    'C29',
    '2-4 clients with 3-12 calls each on 3 shared files and private ones, and one failure, or histories of up to 27 calls on a '
    'whole tree that end with a failure. Non-trivial: the failure took place after at least one write had returned.',
    [
        Part('failures', strategy, run, quick=80, thorough=4000),
        Part('tree', tree_strategy, run_tree, quick=40, thorough=3000),
    ],
)
TECHNIQUE = (
    'stateful property-based testing with fault injection: generated concurrent clients on a complete mount, one '
    'generated internal failure, then fsck and comparison with the acknowledged states'
)
NOTE = (
    'Failures: an unexpected exception in a request, ENOSPC (also after a part of the data) and EMFILE in the cache, permanent '
    'errors of uploads, downloads, removals and metadata uploads, SIGTERM, SIGINT, at a generated instant under generated '
    'schedules. The mount has to terminate (no deadlock), fsck has to succeed with consistent metadata and objects, and every '
    'byte has to be that of an acknowledged state or of a call in progress. One failure per case. Part tree: single client, exact comparison of the whole tree.'
)
