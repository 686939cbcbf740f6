'''C24: the local cache respects its limits and is reused only when valid.'''

import errno
import io
import os
import re
import struct

import trio

from harness import env, inspect
from harness.core import Part, Property, Violation, check
from harness.fsdrive import CTRL_INODE, pattern
from harness.session import FsDriver, final_walk, make_world, run_history
from harness.tree import mount_tree

WEIGHTS = {
    'create': 6, 'mkdir': 1, 'unlink': 2, 'rename': 1, 'open': 1, 'release': 1, 'w1': 16, 'r1': 14, 'write': 4,
    'read': 4, 'truncate': 3, 'sync': 5, 'drop': 1, 'sleep': 2, 'cachesize': 2, 'forget': 1, 'remount': 2,
    'copy': 2, 'rmtree': 1, 'fsync': 1, 'cyield': 1, 'drops': 1,
}  # fmt: skip


def limits_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    fsops.OPS['w1'] = fsops.t('w1', fsops.SEL, st.integers(0, 9), st.integers(0, 4), fsops.I8)
    fsops.OPS['r1'] = fsops.t('r1', fsops.SEL, st.integers(0, 9))
    fsops.OPS['drops'] = fsops.t('drops', st.integers(2, 3), st.lists(st.integers(0, 6), max_size=2))
    fsops.OPS['cyield'] = fsops.t('cyield', st.integers(0, 3))
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(
            cachesize=st.sampled_from([0, 2, 3, 5, 8, 900]), max_entries=st.sampled_from([None, 1, 2, 3, 5, 8]),
            delays=st.lists(st.integers(0, 12), max_size=8)),
        'ops': fsops.op_list(WEIGHTS, 8, 60),
    })  # fmt: skip


class CacheDir:
    '''What is really in the cache directory'''

    def __init__(self, world):
        self.path = world.cachepath() + '-cache'

    def files(self):
        res = {}
        if os.path.exists(self.path):
            for f in os.listdir(self.path):
                m = re.fullmatch(r'(\d+)-(\d+)', f)
                if m:
                    res[int(m.group(1)), int(m.group(2))] = os.path.getsize(os.path.join(self.path, f))
        return res


class Proxy:
    '''Passes calls on to the file system and observes the cache around reads and writes'''

    def __init__(self, ops, drv):
        self._ops = ops
        self._drv = drv

    def __getattr__(self, name):
        return getattr(self._ops, name)

    async def open(self, inode, flags, ctx):
        f = await self._ops.open(inode, flags, ctx)
        self._drv.fhs[f.fh] = inode
        return f

    async def create(self, *a):
        f, attr = await self._ops.create(*a)
        self._drv.fhs[f.fh] = attr.st_ino
        return f, attr

    async def read(self, fh, off, length):
        return await self._drv.access(self._ops.read(fh, off, length), fh, off, length, False)

    async def write(self, fh, off, buf):
        return await self._drv.access(self._ops.write(fh, off, buf), fh, off, len(buf), True)

    async def setattr(self, inode, attr, fields, fh, ctx):
        drv = self._drv
        res = await self._ops.setattr(inode, attr, fields, fh, ctx)
        if fields.update_size:
            drv.maybe(inode, attr.st_size // drv.bs)
        return res


class Driver(FsDriver):
    def __init__(self, *a):
        super().__init__(*a)
        self.dir = CacheDir(self.world)
        self.clock = 0
        self.used = {}  # (inode, block) -> [earliest, latest] possible time of the last use
        self.unsaved = set()  # blocks that may be dirty
        self.fhs = {}
        self.max_entries = self.world.max_entries or 10**9
        self.loose = False

    async def start(self, ops):
        await super().start(Proxy(ops, self))
        kib = self.world.cachesize
        self.max_size = kib * 1024 if kib is not None else 10**12
        have = self.dir.files()
        self.used = {k: [0, 10**9] for k in have}
        self.unsaved = set()
        self.loose = True  # a cache kept from an earlier mount may be larger than the limits

    def maybe(self, inode, block):
        '''This block may have been used'''
        self.clock += 1
        u = self.used.setdefault((inode, block), [0, 0])
        u[1] = self.clock
        self.unsaved.add((inode, block))

    async def op_cachesize(self, n):
        kib = [0, 1, 2, 4, 16, 100, 3, 7][n % 8]
        await self.ctrl(b'cachesize', b'%d' % (kib * 1024))
        self.max_size = kib * 1024
        self.loose = True
        self.label('cachesize')

    async def op_sync(self):
        await super().op_sync()
        self.unsaved = set()

    async def op_w1(self, sel, blk, how, tag):
        '''Write to one block only'''
        fh, node, tmp = await self._handle(sel, True)
        if node is None:
            return
        off, length = [(0, self.bs), (0, 100), (self.bs // 2, self.bs // 2), (self.bs - 1, 1), (10, 37)][how]
        off += blk * self.bs
        buf = pattern(tag, off, length)
        if node.locked:
            await self.call((errno.EPERM,), 'write to locked file', self.ops.write(fh, off, buf))
        else:
            await self.call(None, 'write', self.ops.write(fh, off, buf))
            if len(node.data) < off:
                node.data.extend(bytes(off - len(node.data)))
            node.data[off : off + length] = buf
            attr = await self.ops.getattr(node.ino, self.ctx)
            node.mtime, node.ctime, node.atime = attr.st_mtime_ns, attr.st_ctime_ns, attr.st_atime_ns
        if tmp:
            await self.ops.release(fh)
        self.label('write')

    async def op_r1(self, sel, blk):
        fh, node, tmp = await self._handle(sel, False)
        if node is None:
            return
        n = max(1, (len(node.data) + self.bs - 1) // self.bs)
        off = blk % n * self.bs
        self.begin()
        buf = await self.call(None, 'read', self.ops.read(fh, off, self.bs))
        self.compare_data(node, off, buf, bytes(node.data[off : off + self.bs]))
        await self.attrs(node, '', 'a')
        if tmp:
            await self.ops.release(fh)

    async def usage(self):
        buf = await self.ops.getxattr(CTRL_INODE, b's3qlstat', self.ctx)
        return struct.unpack('=12Q', buf)[7:9]

    def over(self, count, size):
        return count > self.max_entries or size > self.max_size

    async def access(self, coro, fh, off, length, write):
        ino = self.fhs[fh]
        before = self.dir.files()
        olduse = {k: list(v) for k, v in self.used.items()}
        dirty = set(self.unsaved)
        res = await coro
        n = length if write else len(res)
        blocks = list(range(off // self.bs, (off + n + self.bs - 1) // self.bs)) if n else []
        for b in blocks:
            self.clock += 1
            self.used[ino, b] = [self.clock, self.clock]
            if write:
                self.unsaved.add((ino, b))
        after = self.dir.files()
        size, count = sum(after.values()), len(after)
        where = '%s of blocks %s of inode %d' % ('write' if write else 'read', blocks, ino)

        # limits: at most the block that was accessed last may be in excess
        if blocks and (not write or after != before):
            self.loose = False
        if not self.loose:
            last = max([after.get((ino, b), 0) for b in blocks] or [0])
            check(count <= self.max_entries + 1, '%d blocks in the cache after a %s, limit is %d', count, where,
                  self.max_entries)  # fmt: skip
            check(size <= self.max_size + max(last, self.bs), '%d bytes in the cache after a %s, limit is %d',
                  size, where, self.max_size)  # fmt: skip

        # which blocks had to go
        out = {k for k in before if k not in after}
        if out:
            self.label('evicted')
            check(self.over(len(before) + len(blocks), sum(before.values()) + len(blocks) * self.bs),
                  'a %s removes blocks from the cache, which has only %d entries with %d bytes', where,
                  len(before), sum(before.values()))  # fmt: skip
            for k in out:
                for r in after:
                    lo = self.used.get(k, olduse.get(k, [0]))[0]
                    if lo > self.used.get(r, [0, 0])[1] and r not in dirty and r not in self.unsaved:
                        raise Violation('%s removes block %r (last use %r) from the cache, but not %r (last use %r)'
                                        % (where, k, self.used[k], r, self.used[r]))  # fmt: skip
            if len(blocks) == 1:
                # no more than necessary
                newest = max(out, key=lambda k: olduse.get(k, [0, 0])[1])
                rest = {k: v for k, v in before.items() if k not in out}
                if all(olduse.get(k, [0, 10**9])[1] < 10**9 for k in out):
                    check(self.over(len(rest) + 1, sum(rest.values()) + before[newest]) or (ino, blocks[0]) in out,
                          '%s removes %d blocks from the cache, fewer would do', where, len(out))  # fmt: skip
                    self.label('minimal')
        return res

    async def step(self, op):
        await super().step(op)
        have = self.dir.files()
        got = await self.usage()
        check(got == (len(have), sum(have.values())), 'cache usage is reported as %r, real one is %r', got,
              (len(have), sum(have.values())))  # fmt: skip
        if op[0] in ('drop', 'drops'):
            check(not have, '%d blocks in the cache after it was dropped', len(have))
        for n in self.model.nodes:
            if n.gone and n.ino is not None and not n.handles and not self.looked.get(n.ino):
                check(not any(k[0] == n.ino for k in have) or any(
                    m.ino == n.ino for m in self.model.live()), 'cache has blocks of removed inode %d', n.ino)  # fmt: skip


def limits_run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = Driver(w, case['cfg'], info)
        run_history(w, drv, case['ops'])
        check(not drv.dir.files(), 'cache still has blocks after unmounting')
        final_walk(w, drv)
    lab = info.labels
    info.nontrivial = lab.get('evicted', 0) >= 2


# ------------------------------------------------------------------------- concurrent clients


def busy_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    acc = st.tuples(st.sampled_from(['w', 'w', 'r']), st.integers(0, 2), st.integers(0, 7), st.integers(0, 4),
                    st.integers(1, 3), st.integers(0, 7)).map(list)  # fmt: skip
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(cachesize=st.sampled_from([1, 2, 4, 6, 900]), max_entries=st.sampled_from([1, 2, 3, 5]),
                         delays=st.lists(st.integers(0, 40), max_size=8)),
        'rounds': st.lists(st.lists(st.lists(acc, min_size=1, max_size=6), min_size=2, max_size=4),
                           min_size=1, max_size=5),
        'conns': st.integers(1, 3),
    })  # fmt: skip


def busy_run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        d = CacheDir(w)
        drv = FsDriver(w, case['cfg'], info)
        max_entries = w.max_entries or 10**9
        max_size = w.cachesize * 1024 if w.cachesize is not None else 10**12
        bs = drv.bs

        async def client(me, fhs, accs):
            for what, fi, blk, how, n, tag in accs:
                off = blk * bs + [0, 1, bs // 2, bs - 1, 37][how]
                if what == 'w':
                    await drv.ops.write(fhs[fi], off, pattern(tag, off + me, bs * n // 2))
                else:
                    await drv.ops.read(fhs[fi], off, bs * n)

        async def watch(limit, scope):
            with scope:
                while True:
                    have = d.files()
                    check(len(have) <= max_entries + limit, '%d blocks in the cache while %d clients are working, '
                          'limit is %d', len(have), limit, max_entries)  # fmt: skip
                    if len(have) > max_entries:
                        info.label('over-while-busy')
                    await trio.sleep(0.013)

        async def driver(ops):
            await drv.start(ops)
            fhs = []
            for i in range(3):
                f, attr = await ops.create(1, b'f%d' % i, 0o100644, os.O_RDWR, drv.ctx)
                fhs.append(f.fh)
            for r in case['rounds']:
                scope = trio.CancelScope()
                async with trio.open_nursery() as outer:
                    outer.start_soon(watch, len(r), scope)
                    async with trio.open_nursery() as nursery:
                        for me, accs in enumerate(r):
                            nursery.start_soon(client, me, fhs, accs)
                    scope.cancel()
                have = d.files()
                n, size = len(have), sum(have.values())
                got = struct.unpack('=12Q', await ops.getxattr(CTRL_INODE, b's3qlstat', drv.ctx))[7:9]
                check(got == (n, size), 'cache usage is reported as %r, real one is %r', got, (n, size))
                check(n <= max_entries + len(r), '%d blocks in the cache, limit is %d', n, max_entries)
                check(size <= max_size + len(r) * bs, '%d bytes in the cache, limit is %d', size, max_size)
                info.label('round')
                # a single access brings everything back into the limits
                await ops.read(fhs[0], 0, 1)
                await ops.write(fhs[1], 0, b'x')
                await ops.read(fhs[1], 0, 1)
                have = d.files()
                n, size = len(have), sum(have.values())
                check(n <= max_entries + 1 and size <= max_size + bs,
                      '%d blocks with %d bytes remain in the cache, limits are %d, %d', n, size, max_entries, max_size)
            for fh in fhs:
                await ops.release(fh)
            return True

        res = w.mount(driver, '--max-connections', str(case['conns']))
        check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)', res.code, res.exc)
        check(not d.files(), 'cache still has blocks after unmounting')
    info.nontrivial = info.labels.get('over-while-busy', 0) >= 1 or info.labels.get('round', 0) >= 3


# -------------------------------------------------------------------------------- kept caches

KEEP_WEIGHTS = {
    'create': 7, 'mkdir': 1, 'unlink': 3, 'rename': 1, 'w1': 14, 'write': 6, 'read': 4, 'r1': 4, 'truncate': 4,
    'sync': 2, 'drop': 1, 'sleep': 1, 'copy': 2, 'rmtree': 1, 'link': 1,
}  # fmt: skip


def keep_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    limits_strategy()
    seg = fsops.op_list(KEEP_WEIGHTS, 2, 14)
    between = st.one_of(
        st.tuples(st.just('nothing')), st.tuples(st.just('delete'), st.integers(0, 255)), st.tuples(st.just('other'), seg),
        st.tuples(st.just('fsck'), st.booleans()), st.tuples(st.just('noparams')), st.tuples(st.just('foreign')),
        st.tuples(st.just('lost'), st.integers(1, 255)),
    ).map(list)  # fmt: skip
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(cachesize=st.sampled_from([None, None, 3, 20]), max_entries=st.sampled_from([None, None, 4])),
        'segs': st.lists(st.tuples(seg, st.booleans(), between).map(list), min_size=2, max_size=5),
    })  # fmt: skip


class KeepDriver(FsDriver):
    op_w1 = Driver.op_w1
    op_r1 = Driver.op_r1


def keep_run(case, info):
    fetched = []

    def wrap(name, orig):
        async def fn(self, key, *a, **kw):
            if key.startswith('s3ql_data_') and name.startswith('read'):
                fetched.append(key)
            return await orig(self, key, *a, **kw)

        return fn

    from harness import faults

    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = KeepDriver(w, case['cfg'], info)
        d = CacheDir(w)
        kept = {}
        for ops, keep, between in case['segs']:
            async def session(fsops, ops=ops, kept=kept):
                await drv.start(fsops)
                if kept:
                    # a current cache is used: blocks in it are not fetched again
                    n = 0
                    for node in drv.model.live('f'):
                        f = await drv.ops.open((await drv.ensure(node)) or node.ino, os.O_RDONLY, drv.ctx)
                        for b in range((len(node.data) + drv.bs - 1) // drv.bs):
                            if (node.ino, b) in kept:
                                del fetched[:]
                                drv.begin()
                                buf = await drv.call(None, 'read', drv.ops.read(f.fh, b * drv.bs, drv.bs))
                                drv.compare_data(node, b * drv.bs, buf, bytes(node.data[b * drv.bs : (b + 1) * drv.bs]))
                                await drv.attrs(node, '', 'a')
                                if w.cachesize is None and w.max_entries is None:
                                    check(not fetched, 'block %d of inode %d was kept in the cache but is fetched again',
                                          b, node.ino)  # fmt: skip
                                n += 1
                        await drv.ops.release(f.fh)
                    if n:
                        drv.label('kept-used')
                for op in ops:
                    await drv.step(op)
                await drv.walk()
                await drv.finish_session()
                return True

            with faults.patched(wrap):
                res = w.mount(session, *(['--keep-cache'] if keep else []))
            check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)', res.code, res.exc)
            env.vtime.advance(100)
            have = d.files()
            if not keep:
                check(not have, 'cache still has blocks after unmounting')
            else:
                data = inspect.load_db(w.cachepath() + '.db')
                blocks = {(r['inode'], r['blockno']) for r in data['inode_blocks']}
                sizes = {n.ino: len(n.data) for n in drv.model.live('f')}
                for k in have:
                    if have[k]:  # (holes that were read are cached as well)
                        check(k in blocks, 'kept cache has block %r, which does not exist', k)
                    check(k[1] * drv.bs < sizes.get(k[0], 0), 'kept cache has block %r beyond the end of file', k)
                have = {k: v for k, v in have.items() if k in blocks}
            kept = have
            what = between[0]
            if have:
                drv.label('kept-' + what)
            if what == 'delete':
                for i, k in enumerate(sorted(have)):
                    if between[1] >> (i % 8) & 1:
                        os.unlink(os.path.join(d.path, '%d-%d' % k))
                kept = d.files()
            elif what == 'other':
                w.use_cachedir('cache2')
                w.drop_cachedir()
                o = list(between[1])

                async def other(fsops, o=o):
                    await drv.start(fsops)
                    for op in o:
                        await drv.step(op)
                    await drv.finish_session()
                    return True

                res = w.mount(other)
                check(res.code == 0 and res.driver, 'mount elsewhere failed with exit code %r (%s)', res.code, res.exc)
                w.use_cachedir('cache')
                env.vtime.advance(100)
                kept = {}
            elif what == 'fsck':
                res = w.fsck(*(['--force'] + (['--keep-cache'] if between[1] else [])))
                check(res.code == 0, 'fsck with a kept cache exits with %r', res.code)
                msgs = [r.getMessage() for r in res.logs if r.levelname in ('WARNING', 'ERROR', 'CRITICAL')]
                check(not [m for m in msgs if 'dirty block' in m], 'fsck takes the kept cache for dirty: %r', msgs[:3])
                if between[1]:
                    check(set(have) <= set(d.files()), 'fsck --keep-cache removed blocks from the cache')
                kept = d.files()
                env.vtime.advance(100)
            elif what == 'noparams':
                # metadata is downloaded again: the cache may belong to something else
                p = w.cachepath() + '.params'
                if os.path.exists(p):
                    os.unlink(p)
                kept = {}
            elif what == 'foreign':
                # another file system at the same place: nothing of the kept cache is valid
                if have:
                    kept = {}
                    for k in have:
                        with open(os.path.join(d.path, '%d-%d' % k), 'r+b') as fh:
                            fh.write(b'FOREIGN')
                    os.unlink(w.cachepath() + '.params')
            elif what == 'lost' and have:
                keys = inspect.local_keys(w.be)
                for i in inspect.data_ids(keys):
                    if between[1] >> (i % 8) & 1:
                        os.unlink(keys['s3ql_data_%d' % i])
                env.vtime.advance(100)
                res = w.fsck('--force')
                check(res.code in (0, 128), 'fsck with lost objects exits with %r (%s)', res.code, res.exc)
                env.vtime.advance(100)
                info.nontrivial = res.code == 128
                res, tree = mount_tree(w)
                check(res.code == 0, 'mount after fsck exits with %r (%s)', res.code, res.exc)
                env.vtime.advance(100)
                w.use_cachedir('cache2')
                w.drop_cachedir()
                res, tree2 = mount_tree(w)
                check(res.code == 0, 'mount elsewhere exits with %r (%s)', res.code, res.exc)
                for path in sorted(set(tree) | set(tree2)):
                    a, b = tree.get(path), tree2.get(path)
                    check(a is not None and b is not None and a.data == b.data,
                          '%r read with a kept cache differs from what is stored', path)  # fmt: skip
                return
        final_walk(w, drv)
    lab = info.labels
    info.nontrivial = lab.get('kept-used', 0) >= 1


# ------------------------------------------------------------------------- no space for the cache


def space_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    limits_strategy()
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(cachesize=st.sampled_from([None, 2, 5]), max_entries=st.sampled_from([None, 3])),
        'ops': fsops.op_list({**WEIGHTS, 'w1': 22, 'write': 12}, 5, 40),
        # for every n-th write to a cache file: written part in 1/8, 8 = all, 9 = no space left
        'short': st.lists(st.sampled_from([8, 8, 8, 0, 1, 4, 7, 7]), min_size=1, max_size=12),
        'full': st.one_of(st.none(), st.integers(0, 20)),
    })  # fmt: skip


class SpaceDriver(FsDriver):
    op_w1 = Driver.op_w1
    op_r1 = Driver.op_r1

    def __init__(self, *a):
        super().__init__(*a)
        self.safe = {}
        self.op = None

    async def op_sync(self):
        await super().op_sync()
        for n in self.model.live('f'):
            self.safe[n.serial] = (n, bytes(n.data))

    async def step(self, op):
        self.op = op
        await super().step(op)
        self.op = None
        for s in list(self.safe):
            n, data = self.safe[s]
            if n.gone or bytes(n.data) != data:
                del self.safe[s]


def space_run(case, info):
    from unittest import mock

    from s3ql import block_cache

    state = {'n': 0, 'full': False, 'off': False}

    class Short(io.FileIO):
        def write(self, buf):
            if state['off']:
                return super().write(buf)
            i = state['n']
            state['n'] += 1
            if case['full'] is not None and i >= case['full']:
                state['full'] = True
                info.label('no-space')
                raise OSError(errno.ENOSPC, 'No space left on device')
            buf = memoryview(buf)
            n = case['short'][i % len(case['short'])]
            if n < 8 and len(buf) > 1:
                info.label('short-write')
                return super().write(buf[: max(1, len(buf) * n // 8)])
            return super().write(buf)

    def opener(path, mode='r', buffering=-1, *a, **kw):
        if buffering == 0 and re.search(r'/\d+-\d+$', os.fspath(path)):
            return Short(path, mode.replace('b', ''))
        return open(path, mode, buffering, *a, **kw)

    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = SpaceDriver(w, case['cfg'], info)
        if case['full'] is None:
            with mock.patch.object(block_cache, 'open', opener, create=True):
                run_history(w, drv, case['ops'])
            final_walk(w, drv)
            info.nontrivial = info.labels.get('short-write', 0) >= 2
            return

        async def driver(fsops):
            await drv.start(fsops)
            for op in case['ops']:
                if op[0] != 'remount':
                    await drv.step(op)
            await drv.finish_session()
            return True

        with mock.patch.object(block_cache, 'open', opener, create=True):
            try:
                res = w.mount(driver, reraise=False)
            except Violation:
                if not state['full']:
                    raise
                res = None
        state['off'] = True
        if not state['full']:
            check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)', res.code, res.exc)
            return
        interrupted = drv.op
        w.after_death()
        env.vtime.advance(5)
        res = w.fsck()
        check(res.code in (0, 128), 'fsck after lack of space exits with %r (%s)', res.code, res.exc)
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        inspect.check_backend(w, db)
        env.vtime.advance(5)
        res, tree = mount_tree(w)
        check(res.code == 0 and tree is not None, 'mount after lack of space exits with %r (%s)', res.code, res.exc)
        byino = {e.ino: e for e in tree.values()}
        odd = [(s, n.ino) for s, (n, data) in sorted(drv.safe.items())
               if n.ino not in byino or byino[n.ino].data != data]  # fmt: skip
        if interrupted is not None and interrupted[0] not in ('sync', 'drop', 'drops', 'read', 'r1') and len(odd) == 1:
            odd = []
        check(not odd, 'synced files (node, inode) %r are lost or changed after lack of space', odd)
        info.nontrivial = bool(drv.safe)


# --------------------------------------------------------------------------- ordering of the cache


def order_strategy():
    from hypothesis import strategies as st

    key = st.integers(0, 5)
    op = st.one_of(
        st.tuples(st.just('set'), key, st.integers(0, 99)), st.tuples(st.just('del'), key),
        st.tuples(st.just('pop'), key), st.tuples(st.just('move'), key), st.tuples(st.just('get'), key),
        st.tuples(st.just('iter')), *[st.tuples(st.just('next'), st.sampled_from([0, 0, 0, 1, 2]))] * 6,
        st.tuples(st.just('close'), st.integers(0, 3)),
        st.tuples(st.just('drain'), st.integers(0, 3)), *[st.tuples(st.just('set'), key, st.integers(0, 99))] * 2,
    ).map(list)  # fmt: skip
    return st.tuples(st.integers(0, 6), st.lists(op, min_size=3, max_size=50)).map(
        lambda x: {'ops': [['set', i, 7] for i in range(x[0])] + [['iter'], ['next', 0]] + x[1] + [['end']]})


def order_run(case, info):
    from s3ql._linked_dict import LinkedDict

    d = LinkedDict()
    m = {}  # insertion-ordered, key -> (value, stamp)
    stamp = 0
    iters = []

    def err(fn, *a):
        try:
            return fn(*a)
        except KeyError:
            return KeyError

    def advance(it):
        if it['done']:
            return
        if not it['started']:
            # begins at the current head
            it.update(started=True, stable=set(m), todo=list(m.values()))
        v = next(it['it'], None)
        if v is None:
            it['done'] = True
            left = [x for k, x in m.items() if k in it['stable'] and x not in it['seen']]
            check(not left, 'iteration skipped %r, which have not been moved', left)
            info.label('iterated')
            if it['mutated']:
                info.label('iterated-mutated')
        else:
            check(v in m.values(), 'iteration yields %r, which is not in the mapping', v)
            k = next(k for k, x in m.items() if x == v)
            if k in it['stable']:
                check(v not in it['seen'], 'iteration yields %r twice', v)
                prev = [x for k2, x in m.items() if k2 in it['stable'] and k2 != k and x not in it['seen']]
                order = list(m.values())
                check(all(order.index(x) > order.index(v) for x in prev), 'iteration is out of order')
            it['seen'].append(v)

    for op, *a in case['ops']:
        if op == 'set':
            stamp += 1
            d[a[0]] = (a[1], stamp)
            m[a[0]] = (a[1], stamp)
            for it in iters:
                it['stable'].discard(a[0])  # value replaced
        elif op == 'del':
            if a[0] in m:
                del d[a[0]]
                del m[a[0]]
            else:
                check(err(d.__delitem__, a[0]) is KeyError, 'removing a missing key does not fail')
        elif op == 'pop':
            got, exp = err(d.pop, a[0]), m.pop(a[0], KeyError)
            check(got == exp, 'pop returns %r, expected %r', got, exp)
        elif op == 'move':
            if a[0] in m:
                d.move_to_tail(a[0])
                m[a[0]] = m.pop(a[0])
            else:
                check(err(d.move_to_tail, a[0]) is KeyError, 'moving a missing key does not fail')
        elif op == 'get':
            check(d.get(a[0], 5) == m.get(a[0], 5) and err(d.__getitem__, a[0]) == m.get(a[0], KeyError),
                  'wrong value')  # fmt: skip
        elif op == 'iter' and len(iters) < 4:
            iters.append({'it': d.mutable_values(), 'stable': set(m), 'todo': list(m.values()), 'seen': [],
                          'started': False, 'done': False, 'mutated': False})  # fmt: skip
        elif op in ('next', 'drain') and iters:
            advance(iters[a[0] % len(iters)])
            while op == 'drain' and not iters[a[0] % len(iters)]['done']:
                advance(iters[a[0] % len(iters)])
        elif op == 'close' and iters:
            iters.pop(a[0] % len(iters))['it'].close()
        if op in ('del', 'pop', 'move'):
            for it in iters:
                it['stable'].discard(a[0])
                it['mutated'] = it['mutated'] or it['started']
        elif op == 'end':
            for it in iters:
                while not it['done']:
                    advance(it)
        check(len(d) == len(m) and set(d) == set(m) == set(d.keys()), 'wrong keys')
        check(dict(d.items()) == m and sorted(d.values()) == sorted(m.values()), 'wrong contents')
        check(all((k in d) == (k in m) for k in range(8)), 'membership is wrong')
        check(list(d.mutable_values()) == list(m.values()), 'order is %r, expected %r', list(d.mutable_values()),
              list(m.values()))  # fmt: skip
    info.nontrivial = info.labels.get('iterated-mutated', 0) >= 1


TECHNIQUE = (
    'stateful model-based testing: the real cache directory is compared with limits, reported usage and access '
    'history after every call; generated remounts with kept, stale, foreign and partial caches; fault injection '
    '(short writes, no space) below the cache files; model-based test of the ordered mapping'
)
NOTE = (
    'Generated access histories under small limits; after each access the cache may exceed the limits by the '
    'accessed block at most (by one block per client when several work at once), victims are least recently used '
    'and no more than needed. Kept caches must be used without fetching when current and ignored otherwise. '
    'Limited to the histories generated.'
)
PROPERTY = Property(
    'C24',
    'Histories of 8-60 calls / 1-5 rounds of 2-4 clients / 2-5 mounts / 3-60 operations of the mapping. '
    'Non-trivial: two evictions / limit reached / a kept block was used / short writes or survival of synced data / '
    'mapping changed during a complete iteration.',
    [
        Part('limits', limits_strategy, limits_run, quick=110, thorough=5000),
        Part('busy', busy_strategy, busy_run, quick=60, thorough=3000),
        Part('keep', keep_strategy, keep_run, quick=60, thorough=3000),
        Part('space', space_strategy, space_run, quick=60, thorough=3000),
        Part('order', order_strategy, order_run, quick=400, thorough=20000),
    ],
)
