'''C02: concurrent calls behave as if executed one at a time.'''

import errno
import os
import stat

from harness import env, faults, inspect
from harness.core import Part, Property, Violation, check
from harness.fsdrive import CTRL_INODE, CTRL_NAME, ROOT, Ctx, Fields, pattern
from harness.session import make_world
from harness.tree import mount_tree

NFILES = 3
PATIENCE = 3 * 3600  # virtual seconds within which everything has to be finished


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    f = st.integers(0, NFILES - 1)
    blk = st.integers(0, 4)
    sub = st.integers(0, 3)
    ln = st.integers(0, 5)
    tag = st.integers(0, 7)
    weights = [
        (12, ('w', f, blk, sub, ln, tag)), (10, ('r', f, blk, sub, ln)), (4, ('t', f, blk, sub)),
        (2, ('fs', f)), (2, ('sync',)), (2, ('drop',)), (2, ('cs', st.integers(0, 3))),
        (5, ('sl', st.integers(0, 7))), (3, ('churn', st.integers(0, 3), blk, tag)),
        (1, ('cp',)), (1, ('up',)), (2, ('size', f)),
        (2, ('bigw', f, tag)), (1, ('ls',)), (1, ('ren', st.integers(0, 3), tag)),
    ]  # fmt: skip
    bag = []
    for n, (name, *args) in weights:
        bag.extend([st.tuples(st.just(name), *args).map(list)] * n)
    client = st.lists(st.one_of(bag), min_size=2, max_size=16)
    delay = st.one_of(st.integers(0, 2), st.integers(0, 40))
    cfg = fsops.cfg(
        passphrase=False, block_kib=1, meta_kib=4, compress='none',
        cachesize=st.sampled_from([None, 0, 1, 2, 3, 5, 8]),
        max_entries=st.sampled_from([None, None, 1, 2, 4]),
        delays=st.lists(delay, min_size=0, max_size=12),
    )  # fmt: skip
    return st.fixed_dictionaries({
        'cfg': cfg,
        'clients': st.lists(client, min_size=2, max_size=4),
        'faults': st.one_of(st.just([]), st.lists(st.sampled_from([0, 0, 0, 1, 2]), max_size=8)),
        'conns': st.sampled_from([1, 2, 4]),
        'upload_delay': st.sampled_from([10, 1]),
    })  # fmt: skip


class File:
    '''All states a file went through; states[lo..hi] may be seen by a call in progress'''

    def __init__(self, ino):
        import trio

        self.ino = ino
        self.lock = trio.Lock()  # what the kernel holds during write, truncate and fsync
        self.states = [b'']
        self.done = 0  # index of the last state whose call has finished
        self.mtime = 0  # the last write did not start before this time

    @property
    def cur(self):
        return self.states[-1]

    def matches(self, off, length, buf, lo, hi, bs):
        '''Explain what is wrong with the result of a read, or None'''
        vs = self.states[lo : hi + 1]
        lens = [max(0, min(len(v) - off, length)) for v in vs]
        if not min(lens) <= len(buf) <= max(lens):
            return 'returned %d bytes, possible are %d..%d' % (len(buf), min(lens), max(lens))
        pos = 0
        while pos < len(buf):
            o = off + pos
            n = min(len(buf) - pos, bs - o % bs)
            piece = bytes(buf[pos : pos + n])
            for v in vs:
                s = v[o : o + n]
                if piece == s + bytes(n - len(s)):
                    break
            else:
                s = vs[-1][o : o + n]
                s += bytes(n - len(s))
                i = [a == b for a, b in zip(piece, s)].index(False)
                return 'at offset %d: %r instead of %r (%d possible states)' % (
                    o + i, piece[i : i + 6], s[i : i + 6], len(vs))  # fmt: skip
            pos += n
        return None


class Runner:
    def __init__(self, case, world, info):
        self.case = case
        self.world = world
        self.info = info
        self.bs = world.block_kib * 1024
        self.ctx = Ctx()
        self.copies = {}  # directory inode -> {name: contents}
        self.ncopy = 0

    async def driver(self, ops):
        import trio

        self.ops = ops
        self.ctrl_lock = trio.Lock()
        self.dir_lock = trio.Lock()
        d = await ops.mkdir(ROOT, b'src', stat.S_IFDIR | 0o755, self.ctx)
        self.src = d.st_ino
        self.ctrl_seen = False
        self.files = []
        for i in range(NFILES):
            fi, attr = await ops.create(self.src, b'f%d' % i, stat.S_IFREG | 0o644, os.O_RDWR,
                                        self.ctx)  # fmt: skip
            f = File(attr.st_ino)
            f.fh = fi.fh
            self.files.append(f)
        self.finished = 0
        with trio.move_on_after(PATIENCE) as scope:
            async with trio.open_nursery() as nursery:
                for i, oplist in enumerate(self.case['clients']):
                    nursery.start_soon(self.client, i, oplist)
        if scope.cancelled_caught:
            raise Violation('clients are still blocked after %d virtual seconds' % PATIENCE)
        await self.ctrl(b's3ql_flushcache!')
        for f in self.files:
            await self.read(f, 0, len(f.cur) + 10)
        for f in self.files:
            await ops.release(f.fh)
        for d, names in self.copies.items():
            await self.check_copy(d, names)
        return True

    async def client(self, i, oplist):
        self.own = {}
        for op in oplist:
            await getattr(self, 'op_' + op[0])(i, *op[1:])

    # -- calls

    async def ctrl(self, name, value=b'dummy'):
        async with self.ctrl_lock:
            if not self.ctrl_seen:
                attr = await self.ops.lookup(ROOT, CTRL_NAME, self.ctx)
                check(attr.st_ino == CTRL_INODE, 'wrong control inode')
                self.ctrl_seen = True
            await self.ops.setxattr(CTRL_INODE, name, value, self.ctx)

    def off(self, blk, sub):
        return blk * self.bs + [0, 1, self.bs // 2, self.bs - 1][sub]

    def len(self, ln):
        return [1, self.bs, self.bs // 2, self.bs + 1, 2 * self.bs, 3 * self.bs][ln]

    async def op_w(self, me, fi, blk, sub, ln, tag):
        f = self.files[fi]
        off = self.off(blk, sub)
        buf = pattern(tag, off, self.len(ln))
        if f.lock.locked():
            self.info.label('contended')
        async with f.lock:
            old = f.cur
            new = old + bytes(max(0, off - len(old)))
            f.states.append(new[:off] + buf + new[off + len(buf) :])
            start = env.vtime.now_ns()
            n = await self.ops.write(f.fh, off, buf)
            check(n == len(buf), 'write returned %r', n)
            f.done = len(f.states) - 1
            f.mtime = start
            await self.times(f)
        self.info.label('write')

    async def op_bigw(self, me, fi, tag):
        await self.op_w(me, fi, 0, 0, 5, tag)

    async def op_t(self, me, fi, blk, sub):
        import pyfuse3

        f = self.files[fi]
        size = self.off(blk, sub)
        async with f.lock:
            old = f.cur
            f.states.append(old[:size] + bytes(max(0, size - len(old))))
            attr = pyfuse3.EntryAttributes()
            attr.st_size = size
            res = await self.ops.setattr(f.ino, attr, Fields(size=True), f.fh, self.ctx)
            check(res.st_size == size, 'truncate to %d gives size %d', size, res.st_size)
            f.done = len(f.states) - 1
        self.info.label('truncate')

    async def read(self, f, off, length):
        lo = f.done
        buf = await self.ops.read(f.fh, off, length)
        hi = len(f.states) - 1
        if hi > lo:
            self.info.label('overlapped-read')
        err = f.matches(off, length, buf, lo, hi, self.bs)
        if err:
            raise Violation('read of %d bytes at %d (states %d..%d): %s' % (length, off, lo, hi, err))

    async def op_r(self, me, fi, blk, sub, ln):
        await self.read(self.files[fi], self.off(blk, sub), self.len(ln))

    async def op_size(self, me, fi):
        f = self.files[fi]
        lo = f.done
        attr = await self.ops.getattr(f.ino, self.ctx)
        await self.times(f)
        sizes = [len(v) for v in f.states[lo:]]
        check(min(sizes) <= attr.st_size <= max(sizes), 'size is %d, possible are %r', attr.st_size,
              sizes)  # fmt: skip

    async def times(self, f):
        since = f.mtime
        attr = await self.ops.getattr(f.ino, self.ctx)
        for t in (attr.st_mtime_ns, attr.st_ctime_ns):
            check(t >= since, 'mtime or ctime of the file (%d) is older than the last write (%d)', t, since)

    async def op_fs(self, me, fi):
        f = self.files[fi]
        async with f.lock:
            await self.ops.fsync(f.ino, False)

    async def op_sync(self, me):
        await self.ctrl(b's3ql_flushcache!')

    async def op_drop(self, me):
        await self.ctrl(b's3ql_dropcache!')

    async def op_up(self, me):
        await self.ctrl(b'upload-meta')

    async def op_cs(self, me, n):
        await self.ctrl(b'cachesize', str([0, self.bs, 3 * self.bs, 10**9][n]).encode())

    async def op_sl(self, me, n):
        import trio

        await trio.sleep([0, 0.005, 0.01, 0.02, 0.1, 0.3, 2, 11][n])

    async def op_churn(self, me, nblk, blk, tag):
        '''Create, write, read back and remove a private file (contents may be shared)'''
        name = b'churn%d' % me
        async with self.dir_lock:
            fi, attr = await self.ops.create(ROOT, name, stat.S_IFREG | 0o600, os.O_RDWR, self.ctx)
        ino = attr.st_ino
        off = blk * self.bs
        buf = pattern(tag, off, (nblk + 1) * self.bs)
        await self.ops.write(fi.fh, off, buf)
        if tag % 2:
            await self.ops.fsync(ino, False)
        got = await self.ops.read(fi.fh, off, len(buf))
        check(bytes(got) == buf, 'private file reads back differently')
        if tag % 3 == 0:
            await self.ops.release(fi.fh)
            async with self.dir_lock:
                await self.ops.unlink(ROOT, name, self.ctx)
            await self.ops.forget([(ino, 1)])
        else:
            async with self.dir_lock:
                await self.ops.unlink(ROOT, name, self.ctx)
            got = await self.ops.read(fi.fh, off, len(buf))
            check(bytes(got) == buf, 'unlinked file reads back differently')
            await self.ops.release(fi.fh)
            await self.ops.forget([(ino, 1)])
        self.info.label('churn')

    async def op_ren(self, me, n, tag):
        '''Replace a private file by rename'''
        a, b = b'new%d' % me, b'keep%d' % me
        buf = pattern(tag, 0, (n + 1) * self.bs - 5)
        async with self.dir_lock:
            fi, attr = await self.ops.create(ROOT, a, stat.S_IFREG | 0o600, os.O_RDWR, self.ctx)
        await self.ops.write(fi.fh, 0, buf)
        await self.ops.release(fi.fh)
        async with self.dir_lock:
            old = None
            if me in self.kept:
                old = await self.ops.lookup(ROOT, b, self.ctx)
            await self.ops.rename(ROOT, a, ROOT, b, 0, self.ctx)
        if old is not None:
            await self.ops.forget([(old.st_ino, 1)])
            await self.ops.forget([(self.kept[me][0], self.kept[me][1])])
        self.kept[me] = (attr.st_ino, 1, buf)

    async def op_ls(self, me):
        names = await listing(self.ops, self.src)
        check(sorted(names) == [b'f%d' % i for i in range(NFILES)], 'directory lists %r',
              sorted(names))  # fmt: skip

    async def op_cp(self, me):
        '''Replicate the shared directory while others write to it'''
        if self.ncopy >= 3:
            return
        self.ncopy += 1
        name = b'copy%d' % self.ncopy
        async with self.dir_lock:
            attr = await self.ops.mkdir(ROOT, name, stat.S_IFDIR | 0o755, self.ctx)
        lo = [f.done for f in self.files]
        await self.ctrl(b'copy', b'(%d, %d)' % (self.src, attr.st_ino))
        hi = [len(f.states) - 1 for f in self.files]
        self.info.label('copy')
        got = {}
        for i, f in enumerate(self.files):
            data = await self.slurp(attr.st_ino, b'f%d' % i)
            err = f.matches(0, 10**6, data, lo[i], hi[i], self.bs)
            if err:
                raise Violation('copy of file %d (states %d..%d): %s' % (i, lo[i], hi[i], err))
            got[b'f%d' % i] = data
        self.copies[attr.st_ino] = got

    async def slurp(self, d, name):
        a = await self.ops.lookup(d, name, self.ctx)
        fi = await self.ops.open(a.st_ino, os.O_RDONLY, self.ctx)
        data = bytes(await self.ops.read(fi.fh, 0, a.st_size + 10))
        check(len(data) == a.st_size, 'read returns %d bytes, size is %d', len(data), a.st_size)
        await self.ops.release(fi.fh)
        return data

    async def check_copy(self, d, names):
        check(sorted(await listing(self.ops, d)) == sorted(names), 'copy lists wrong names')
        for n in names:
            check(await self.slurp(d, n) == names[n], 'contents of the copy have changed')


async def listing(ops, ino):
    fh = await ops.opendir(ino, Ctx())
    names = []

    def token(name, attr, next_):
        names.append(name)
        return True

    await ops.readdir(fh, 0, token)
    await ops.releasedir(fh)
    return names


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'], upload_delay=case['upload_delay'])
        r = Runner(case, w, info)
        r.kept = {}
        with faults.transient(case['faults'], info):
            res = w.mount(r.driver, '--max-connections', str(case['conns']))
        check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)',
              res.code, res.exc)  # fmt: skip
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        data = inspect.check_backend(w, db)
        inspect.check_files(db, data, r.bs)
        w.drop_cachedir()
        env.vtime.advance(10)
        env.set_sched(env.Sched())
        res, tree = mount_tree(w)
        check(res.code == 0, 'second mount exits with %r', res.code)
        want = {b'/src/f%d' % i: f.cur for i, f in enumerate(r.files)}
        for i, d in enumerate(r.copies):
            path = next(p for p, e in tree.items() if e.ino == d)
            for n in r.copies[d]:
                want[path + b'/' + n] = r.copies[d][n]
        for me in r.kept:
            want[b'/keep%d' % me] = r.kept[me][2]
        have = {p: e.data for p, e in tree.items() if stat.S_ISREG(e.mode)}
        check(sorted(have) == sorted(want), 'files after remount: %r, expected %r', sorted(have),
              sorted(want))  # fmt: skip
        for p in sorted(want):
            check(have[p] == want[p], '%r has other contents after remount', p)
        for i, f in enumerate(r.files):
            t = tree[b'/src/f%d' % i].mtime
            check(t >= f.mtime, 'mtime after remount (%d) is older than the last write (%d)', t, f.mtime)
    lab = info.labels
    info.nontrivial = lab.get('write', 0) >= 2 and (
        lab.get('overlapped-read', 0) + lab.get('contended', 0) >= 1
    )


# ---------------------------------------------------------------- name space changes

DIRS = [(b't0',), (b't0', b'a'), (b't0', b'a', b'b'), (b't1',), (b't1', b'd')]
NAMES = [b'x', b'y', b'z', b'w']


def tree_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    d = st.integers(0, len(DIRS) - 1)
    n = st.integers(0, len(NAMES) - 1)
    tag = st.integers(0, 7)
    weights = [
        (8, ('mk', d, n, tag)), (4, ('rm', d, n)), (4, ('mv', d, n, d, n)), (3, ('ln', d, n, d, n)),
        (3, ('mkt', st.integers(0, 2))), (4, ('rmtree', st.integers(0, 2))),
        (3, ('cp', st.integers(0, 1))), (2, ('sync',)), (2, ('drop',)), (1, ('up',)),
        (3, ('sl', st.integers(0, 7))), (3, ('rewrite', d, n, tag)), (1, ('lsd', d)),
        (2, ('rmd', st.integers(0, 2))),
        (3, ('cpx', st.one_of(st.integers(0, 6), st.integers(0, 60)), st.integers(0, 5))),
    ]  # fmt: skip
    bag = []
    for k, (name, *args) in weights:
        bag.extend([st.tuples(st.just(name), *args).map(list)] * k)
    client = st.lists(st.one_of(bag), min_size=3, max_size=16)
    cfg = fsops.cfg(
        passphrase=False, block_kib=1, meta_kib=4, compress='none',
        cachesize=st.sampled_from([None, 0, 2, 5]), max_entries=st.sampled_from([None, None, 1, 4]),
        delays=st.lists(st.one_of(st.integers(0, 2), st.integers(0, 40)), min_size=0, max_size=12),
    )  # fmt: skip
    return st.fixed_dictionaries({
        'cfg': cfg,
        'clients': st.lists(client, min_size=2, max_size=4),
        'conns': st.sampled_from([1, 2]),
    })  # fmt: skip


class TreeRunner:
    '''t0 and below: clients and tree removal collide freely, any error code is accepted.
    t1 and below: calls are serialised like the kernel does, results must be exact.'''

    def __init__(self, case, world, info):
        self.case = case
        self.world = world
        self.info = info
        self.bs = world.block_kib * 1024
        self.ctx = Ctx()
        self.model = {3: {}, 4: {}}  # directory index -> name -> [ino, contents]
        self.copies = []
        self.targets = 0
        self.changed = 0  # counts changes below t1

    async def driver(self, ops):
        import trio

        self.ops = ops
        self.ctrl_lock = trio.Lock()
        self.t1_lock = trio.Lock()
        self.dlocks = {}
        self.handles = set()
        await ops.lookup(ROOT, CTRL_NAME, self.ctx)
        for path in DIRS:
            await self.mkdirs(path)
        with trio.move_on_after(PATIENCE) as scope:
            async with trio.open_nursery() as nursery:
                for i, oplist in enumerate(self.case['clients']):
                    nursery.start_soon(self.client, i, oplist)
        if scope.cancelled_caught:
            raise Violation('clients are still blocked after %d virtual seconds' % PATIENCE)
        await self.check_t1()
        return True

    async def client(self, me, oplist):
        from pyfuse3 import FUSEError

        for op in oplist:
            self.refs = None
            try:
                await getattr(self, 'op_' + op[0])(me, *op[1:])
            except FUSEError as exc:
                self.info.label('errno-%d' % exc.errno_)

    # -- helpers

    def dlock(self, ino):
        import trio

        return self.dlocks.setdefault(ino, trio.Lock())

    async def mkdirs(self, path):
        from pyfuse3 import FUSEError

        ino = ROOT
        refs = []
        for name in path:
            async with self.dlock(ino):
                try:
                    a = await self.ops.lookup(ino, name, self.ctx)
                except FUSEError:
                    try:
                        a = await self.ops.mkdir(ino, name, stat.S_IFDIR | 0o755, self.ctx)
                    except FUSEError:
                        break
            refs.append(a.st_ino)
            ino = a.st_ino
        await self.forget(refs)

    async def forget(self, refs):
        for i in refs:
            await self.ops.forget([(i, 1)])

    async def walkto(self, di, refs):
        ino = ROOT
        for name in DIRS[di]:
            a = await self.ops.lookup(ino, name, self.ctx)
            refs.append(a.st_ino)
            ino = a.st_ino
        return ino

    async def ctrl(self, name, value=b'dummy'):
        async with self.ctrl_lock:
            await self.ops.setxattr(CTRL_INODE, name, value, self.ctx)

    async def exists(self, d, name, refs):
        from pyfuse3 import FUSEError

        try:
            a = await self.ops.lookup(d, name, self.ctx)
        except FUSEError as exc:
            check(exc.errno_ == 2, 'lookup fails with errno %d', exc.errno_)
            return None
        refs.append(a.st_ino)
        return a

    class Locks:
        '''Directory locks, plus one for all of t1'''

        def __init__(self, run, dis, inos):
            self.locks = [run.dlock(i) for i in sorted(set(inos))]
            if any(d >= 3 for d in dis):
                self.locks.insert(0, run.t1_lock)

        async def __aenter__(self):
            for x in self.locks:
                await x.acquire()

        async def __aexit__(self, *a):
            for x in reversed(self.locks):
                x.release()

    def strict(self, dis, exc):
        if all(d >= 3 for d in dis):
            raise Violation('call below t1 fails with errno %d' % exc.errno_)

    # -- calls

    async def op_mk(self, me, di, ni, tag):
        from pyfuse3 import FUSEError

        refs = []
        try:
            d = await self.walkto(di, refs)
            name = NAMES[ni]
            buf = pattern(tag, 0, self.bs * (1 + tag % 3) + tag)
            async with self.Locks(self, [di], [d]):
                a = await self.exists(d, name, refs)
                if di >= 3:
                    check((a is not None) == (name in self.model[di]), 'lookup below t1 is wrong')
                if a is not None:
                    return
                try:
                    fi, a = await self.ops.create(d, name, stat.S_IFREG | 0o644, os.O_RDWR, self.ctx)
                except FUSEError as exc:
                    self.strict([di], exc)
                    raise
                refs.append(a.st_ino)
                if di >= 3:
                    self.model[di][name] = [a.st_ino, buf]
                    self.changed += 1
                await self.ops.write(fi.fh, 0, buf)
            got = await self.ops.read(fi.fh, 0, len(buf) + 1)
            if di < 3:
                check(bytes(got) == buf, 'new file reads back differently')
            await self.ops.release(fi.fh)
            self.info.label('create')
        finally:
            await self.forget(refs)

    async def op_rewrite(self, me, di, ni, tag):
        if di < 3:
            return
        refs = []
        try:
            d = await self.walkto(di, refs)
            async with self.t1_lock:
                a = await self.exists(d, NAMES[ni], refs)
                check((a is not None) == (NAMES[ni] in self.model[di]), 'lookup below t1 is wrong')
                if a is None:
                    return
                ent = self.model[di][NAMES[ni]]
                check(ent[0] == a.st_ino, 'wrong inode below t1')
                buf = pattern(tag, 0, self.bs)
                fi = await self.ops.open(a.st_ino, os.O_RDWR, self.ctx)
                new = buf + ent[1][len(buf) :]
                for m in self.model.values():
                    for e in m.values():
                        if e[0] == a.st_ino:
                            e[1] = new
                self.changed += 1
                await self.ops.write(fi.fh, 0, buf)
                await self.ops.release(fi.fh)
        finally:
            await self.forget(refs)

    async def op_rm(self, me, di, ni):
        from pyfuse3 import FUSEError

        refs = []
        try:
            d = await self.walkto(di, refs)
            name = NAMES[ni]
            async with self.Locks(self, [di], [d]):
                a = await self.exists(d, name, refs)
                if di >= 3:
                    check((a is not None) == (name in self.model[di]), 'lookup below t1 is wrong')
                if a is None or stat.S_ISDIR(a.st_mode):
                    return
                if di >= 3:
                    del self.model[di][name]
                    self.changed += 1
                try:
                    await self.ops.unlink(d, name, self.ctx)
                except FUSEError as exc:
                    self.strict([di], exc)
                    raise
        finally:
            await self.forget(refs)

    async def op_mv(self, me, di, ni, di2, ni2):
        await self.moveorlink('rename', di, ni, di2, ni2)

    async def op_ln(self, me, di, ni, di2, ni2):
        await self.moveorlink('link', di, ni, di2, ni2)

    async def moveorlink(self, what, di, ni, di2, ni2):
        from pyfuse3 import FUSEError

        if what == 'rename' and (di < 3) != (di2 < 3):
            return
        if what == 'link' and di < 3 <= di2:
            return
        refs = []
        try:
            d1 = await self.walkto(di, refs)
            d2 = await self.walkto(di2, refs)
            n1, n2 = NAMES[ni], NAMES[ni2]
            async with self.Locks(self, [di, di2], [d1, d2]):
                a = await self.exists(d1, n1, refs)
                b = await self.exists(d2, n2, refs)
                for x, dd, nn in ((a, di, n1), (b, di2, n2)):
                    if dd >= 3:
                        check((x is not None) == (nn in self.model[dd]), 'lookup in t1 is wrong')
                if a is None or stat.S_ISDIR(a.st_mode):
                    return
                if b is not None and (
                    what == 'link' or stat.S_ISDIR(b.st_mode) or a.st_ino == b.st_ino
                ):
                    return
                try:
                    if what == 'rename':
                        if di >= 3:
                            self.model[di2][n2] = self.model[di].pop(n1)
                            self.changed += 1
                        await self.ops.rename(d1, n1, d2, n2, 0, self.ctx)
                    else:
                        if di2 >= 3:
                            self.model[di2][n2] = list(self.model[di][n1])
                            self.changed += 1
                        await self.ops.link(a.st_ino, d2, n2, self.ctx)
                        refs.append(a.st_ino)
                except FUSEError as exc:
                    self.strict([di, di2], exc)
                    raise
                self.info.label(what)
        finally:
            await self.forget(refs)

    async def op_mkt(self, me, k):
        await self.mkdirs(DIRS[k])

    async def op_rmd(self, me, k):
        refs = []
        try:
            d = await self.walkto(k - 1, refs) if k else ROOT
            async with self.dlock(d):
                if await self.exists(d, DIRS[k][-1], refs) is not None:
                    await self.ops.rmdir(d, DIRS[k][-1], self.ctx)
        finally:
            await self.forget(refs)

    async def op_rmtree(self, me, k):
        refs = []
        try:
            d = await self.walkto(k - 1, refs) if k else ROOT
            await self.ctrl(b'rmtree', b'(%d, %r)' % (d, DIRS[k][-1]))
            self.info.label('rmtree')
        finally:
            await self.forget(refs)

    async def op_lsd(self, me, di):
        refs = []
        try:
            d = await self.walkto(di, refs)
            async with self.Locks(self, [di], [d]):
                fh = await self.ops.opendir(d, self.ctx)
                names = []

                def token(name, attr, next_):
                    names.append(name)
                    refs.append(attr.st_ino)
                    return True

                await self.ops.readdir(fh, 0, token)
                if di >= 3:
                    check(sorted(set(names) - {b'd'}) == sorted(self.model[di]), 't1 lists %r', names)
        finally:
            await self.forget(refs)

    async def op_cp(self, me, which):
        if len(self.copies) >= 3:
            return
        name = b'copy%d' % len(self.copies)
        self.copies.append(None)
        idx = len(self.copies) - 1
        refs = []
        try:
            async with self.dlock(ROOT):
                t = await self.ops.mkdir(ROOT, name, stat.S_IFDIR | 0o755, self.ctx)
            refs.append(t.st_ino)
            if which == 0:
                s = await self.walkto(0, refs)
                await self.ctrl(b'copy', b'(%d, %d)' % (s, t.st_ino))
                self.info.label('copy-t0')
                return
            s = await self.walkto(3, refs)
            async with self.t1_lock:  # a quiescent source has to be copied exactly
                before = {d: {n: e[1] for n, e in m.items()} for d, m in self.model.items()}
                await self.ctrl(b'copy', b'(%d, %d)' % (s, t.st_ino))
            self.copies[idx] = (name, before)
            self.info.label('copy-t1')
        finally:
            await self.forget(refs)

    async def op_cpx(self, me, k, act):
        '''Somebody else uses the target while a tree is being copied'''
        import trio
        from pyfuse3 import FUSEError

        if self.targets >= 3:
            return
        top = b'target%d' % self.targets
        self.targets += 1
        refs = []
        try:
            async with self.dlock(ROOT):
                t = (await self.ops.mkdir(ROOT, top, stat.S_IFDIR | 0o755, self.ctx)).st_ino
            refs.append(t)
            s = await self.walkto(3, refs)
            copied = own = gone = None
            name = (b'own', b'x', b'd')[act % 3]
            async with self.t1_lock:
                want = set(self.model[3]) | {b'd'}

                async def copy():
                    nonlocal copied
                    try:
                        await self.ctrl(b'copy', b'(%d, %d)' % (s, t))
                        copied = True
                    except FUSEError:
                        copied = False

                async with trio.open_nursery() as nursery:
                    nursery.start_soon(copy)
                    for _ in range(k):
                        await trio.lowlevel.checkpoint()
                    before = copied
                    try:
                        if act < 4:
                            async with self.dlock(t):
                                a = await self.ops.mkdir(t, name, stat.S_IFDIR | 0o755, self.ctx)
                            refs.append(a.st_ino)
                            own = True
                        else:
                            async with self.dlock(ROOT):
                                await self.ops.rmdir(ROOT, top, self.ctx)
                            gone = True
                    except FUSEError as exc:
                        own = gone = False
                        check(before or copied or exc.errno_ != errno.EEXIST, 'the target was in use before the copy was complete')
            if before is None:
                self.info.label('copy-busy')
            if gone:
                check(not copied or before, 'a tree has been copied into a removed directory')
                return
            names = sorted(await listing(self.ops, t))
            exp = sorted(([name] if own else []) + (list(want) if copied else []))
            check(names == exp, 'target of a copy (%s) has %r instead of %r', copied, names, exp)
            if own and name in want:
                check(not copied, 'copied over an existing entry')
        finally:
            await self.forget(refs)

    op_sync = Runner.op_sync
    op_drop = Runner.op_drop
    op_up = Runner.op_up
    op_sl = Runner.op_sl

    async def check_t1(self):
        for di in (3, 4):
            refs = []
            d = await self.walkto(di, refs)
            names = set(await listing(self.ops, d)) - {b'd'}
            check(names == set(self.model[di]), 't1 lists %r', names)
            for n in sorted(names):
                a = await self.ops.lookup(d, n, self.ctx)
                refs.append(a.st_ino)
                check(a.st_ino == self.model[di][n][0], 'wrong inode at the end')
            await self.forget(refs)


def tree_run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        r = TreeRunner(case, w, info)
        res = w.mount(r.driver, '--max-connections', str(case['conns']))
        check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)',
              res.code, res.exc)  # fmt: skip
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        data = inspect.check_backend(w, db)
        inspect.check_files(db, data, r.bs)
        w.drop_cachedir()
        env.vtime.advance(10)
        env.set_sched(env.Sched())
        res, tree = mount_tree(w)
        check(res.code == 0, 'second mount exits with %r', res.code)
        compare(tree, b'/t1', {d: {n: e[1] for n, e in m.items()} for d, m in r.model.items()})
        for c in r.copies:
            if c is not None:
                compare(tree, b'/' + c[0], c[1])
    lab = info.labels
    info.nontrivial = lab.get('create', 0) >= 1 and (
        lab.get('rmtree', 0) + lab.get('copy-t0', 0) + lab.get('copy-t1', 0) >= 1
    )


def compare(tree, top, model):
    have = {p: e.data for p, e in tree.items()
            if p.startswith(top + b'/') and stat.S_ISREG(e.mode)}  # fmt: skip
    want = {top + (b'/d' if d == 4 else b'') + b'/' + n: c
            for d, m in model.items() for n, c in m.items()}  # fmt: skip
    check(sorted(have) == sorted(want), 'files below %r: %r, expected %r', top, sorted(have),
          sorted(want))  # fmt: skip
    for p in want:
        check(have[p] == want[p], '%r has other contents after remount', p)


TECHNIQUE = (
    'property-based testing of generated concurrent client programs under generated schedules '
    '(randomised scheduler, generated I/O delays and transient faults), per-block history oracle'
)
NOTE = (
    'Two to four client tasks run generated programs against the mounted file system; the order of '
    'tasks, the duration of every background I/O step and transient backend faults are generated. '
    'Each block a read returns must match a state that the overlapping calls allow; final contents '
    'are compared after a remount from the backend. Limited to the schedules sampled.'
)
PROPERTY = Property(
    'C02',
    '2-4 clients with 2-16 calls each on 3 shared files, private files and replications. '
    'Non-trivial: two writes completed and at least one read or write overlapped another call on '
    'the same file.',
    [
        Part('clients', strategy, run, quick=160, thorough=6000),
        Part('trees', tree_strategy, tree_run, quick=160, thorough=6000),
    ],
)
