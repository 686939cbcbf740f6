'''C16: the control channel and malformed calls cannot crash the file system.'''

import errno
import logging
import os
import stat

from harness import clitools, env, fsdrive, inspect
from harness.core import Part, Property, Violation, check
from harness.fsdrive import CTRL_INODE, CTRL_NAME, NAMES, Fields
from harness.session import FsDriver, final_walk, make_world, run_history

WEIGHTS = {
    'create': 9, 'mkdir': 9, 'mknod': 1, 'symlink': 2, 'link': 3, 'unlink': 3, 'rmdir': 3,
    'rename': 4, 'open': 3, 'release': 2, 'write': 8, 'read': 2, 'truncate': 2, 'setxattr': 2,
    'sync': 1, 'drop': 1, 'sleep': 1, 'forget': 2, 'forgetall': 1, 'remount': 1, 'copy': 1,
    'longname': 1, 'badremove': 1,
}  # fmt: skip

# never valid for any command
GARBAGE = [
    b'', b' ', b'\xff\xfe', b'\0', b'1, 2\0', b'(', b')', b'(1, 2', b'1 2', b'()', b'(1,)', b'(1, 2, 3)',
    b'[1, 2]', b'{1: 2}', b'{[]: 1}', b'{{}}', b'{[]}', b'None', b'True', b'1.0', b'1j', b'1+2j', b'"1"', b"b'1'",
    b'(True, 2)', b'(1, None)', b'(1.0, b"a")', b'(b"a", 1)', b'("a", "b")', b'(1, "a", 2)', b'(1, (2,))',
    b'x', b'__import__("os")', b'1+1', b'1 if 1 else 2', b'(1, b"\xc3\xa4")', b'(1, b"\\x")', b'(1, "\\N{X}")',
    b'(' * 300, b'(' * 5000, b'[' * 150 + b']' * 150, b'-' * 3000 + b'x', b'9' * 5000 + b'.', b'lambda: 1',
    b'"' + b'a' * 3000 + b'"', b'1_', b'0x', b'0777', b'f"1"', b'{**{}}', b'(*(1,), 2)', b'...', b'1 .x', b'~1',
    b'-"a"', b'-[]', b'1:2', b'\n', b'\r\n(', b'#', b'\\',
]  # fmt: skip
COMMANDS = [b'copy', b'lock', b'rmtree', b'cachesize', b'logging']
UNKNOWN = [b'', b'user.x', b's3ql_flushcache', b'COPY', b'copy\0', b'\xff', b'upload-meta!', b's3qlstat', b'a' * 255]
STRANGE = [0, -1, -2, 5000, 2**31, 2**32, 2**63 - 1, 2**63, 2**64, -(2**63), -(2**63) - 1, 10**30]
BADNAMES = [b'', b'.', b'..', CTRL_NAME, b'/', b'a/b', b'\0', b'missing', b'n' * 256, b'n' * 70000, b'\xff' * 9]
MODULES = ['', 'all', 's3ql.fs', 'a,b', ',', '..', 's3ql.fs,all', '\0', 'ä', 'x' * 5000]
SIZES = [0, 1, 1024, 3000, 2**40, 2**63, 10**30, -1, -1024, -(2**63), -(10**30)]


def own_ops():
    from hypothesis import strategies as st

    I8, SEL = st.integers(0, 7), st.integers(0, 31)

    def t(name, *args):
        return st.tuples(st.just(name), *args).map(list)

    return st.one_of(
        t('garbage', st.integers(0, len(COMMANDS) - 1), st.integers(0, len(GARBAGE) - 1)),
        t('garbage', st.integers(0, len(COMMANDS) - 1), st.integers(0, len(GARBAGE) - 1)),
        t('unknown', st.integers(0, len(UNKNOWN) - 1), st.integers(0, len(GARBAGE) - 1)),
        t('xcopy', SEL, SEL, I8), t('xcopy', SEL, SEL, I8), t('xcopy', SEL, SEL, I8),
        t('xlock', SEL, I8), t('xlock', SEL, I8),
        t('xrmtree', SEL, SEL, st.integers(0, 31)), t('xrmtree', SEL, SEL, st.integers(0, 31)),
        t('xsize', st.integers(0, len(SIZES) - 1), I8),
        t('xlog', st.sampled_from((10, 20, 30, 10, 0, -5, 15, 10**12)), st.integers(0, len(MODULES) - 1)),
        t('ctrlfile', st.integers(0, 17), SEL, SEL), t('ctrlfile', st.integers(0, 17), SEL, SEL),
        t('stale', st.integers(0, 15), SEL, I8), t('stale', st.integers(0, 15), SEL, I8),
    )  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    mix = fsops.op_mix(WEIGHTS)
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(), 'pre': st.lists(mix, min_size=3, max_size=15),
        'ops': st.lists(st.one_of(mix, own_ops(), own_ops()), min_size=5, max_size=45),
    })  # fmt: skip


class Driver(FsDriver):
    async def raw(self, name, value):
        '''-> errno or 0'''
        from pyfuse3 import FUSEError

        await self.lookup(fsdrive.ROOT, CTRL_NAME)
        try:
            await self.ops.setxattr(CTRL_INODE, name, value, self.ctx)
        except FUSEError as exc:
            check(exc.errno_ > 0, 'control command %r failed with error %r', name, exc.errno_)
            self.label('refused')
            return exc.errno_
        return 0

    async def refuse(self, name, value, why):
        self.begin()
        res = await self.raw(name, value)
        check(res, 'control command %r with %r (%s) succeeded', name[:40], value[:60], why)

    async def op_garbage(self, c, g):
        self.label('garbage')
        await self.refuse(COMMANDS[c], GARBAGE[g], 'malformed')

    async def op_unknown(self, u, g):
        await self.refuse(UNKNOWN[u], GARBAGE[g], 'unknown command')

    def pick(self, i, mode):
        '''-> (inode number, node or None)'''
        nodes = self.model.live('dflpcbs')
        if mode == 0:
            return self.sel(STRANGE, i), None
        if mode == 1:
            return CTRL_INODE, None
        if mode == 2:
            gone = [n for n in self.model.nodes if n.gone and not n.handles and n.ino is not None]
            n = self.sel(gone, i)
            if n is not None and all(m.ino != n.ino for m in nodes):
                return n.ino, None
            return 4000 + i, None
        if mode == 3:
            n = self.sel(self.model.live('flpcbs'), i)
        else:
            n = self.sel(self.dirs()[1:], i)
        return (n.ino, n) if n is not None else (5000, None)

    async def op_xcopy(self, si, di, mode):
        # one of the two arguments is odd, or both are directories
        s, src = self.pick(si, mode if mode < 4 else 7)
        d, dst = self.pick(di, mode - 4 if 4 <= mode < 8 else 7)
        if mode >= 6:
            d, dst = self.pick(di, 7)
            if mode == 7 and dst is not None:
                # prefer empty directories
                empty = [n for n in self.dirs()[1:] if not n.entries and not n.locked]
                dst = self.sel(empty, di) or dst
                d = dst.ino
        value = ('(%d, %d)' % (s, d)).encode()
        ok = (src is not None and dst is not None and src.kind == dst.kind == 'd' and not dst.entries
              and not dst.locked)  # fmt: skip
        for n in (src, dst):
            if n is not None:
                await self.ensure(n)
        if ok and len(self.model.live()) > 60:
            return
        if not ok:
            why = 'source %r, target %r' % (
                src and src.kind, dst and (dst.kind, 'empty' if not dst.entries else 'not empty', dst.locked))
            await self.refuse(b'copy', value, why)
            for n in (src, dst):
                if n is not None:
                    await self.attrs(n)
            return
        self.begin()
        await self.ctrl(b'copy', value)
        for a in ('mode', 'uid', 'gid', 'atime', 'mtime', 'ctime'):
            setattr(dst, a, getattr(src, a))
        await self.attrs(dst, '', 'a')
        copies = {}

        def dup(s, path):
            out = {}
            for nm in sorted(s.entries):
                c = s.entries[nm]
                if c.serial in copies:
                    copies[c.serial].nlink += 1
                    out[nm] = copies[c.serial]
                    continue
                n = self.model.new(c.kind, c.mode, c.uid, c.gid, c.rdev)
                n.data, n.target, n.xattr = bytearray(c.data), c.target, dict(c.xattr)
                n.atime, n.mtime, n.ctime = c.atime, c.mtime, c.ctime
                copies[c.serial] = n
                self.model.nodes.append(n)
                out[nm] = n
                if c.kind == 'd':
                    n.entries = dup(c, path + [c])
                    for x in n.entries.values():
                        if x.kind == 'd':
                            x.parent = n
            return out

        new = dup(src, [])
        dst.entries = new
        for x in new.values():
            if x.kind == 'd':
                x.parent = dst
        # a copy of a tree into itself
        await self.learn(dst)
        self.label('copied')

    async def op_xlock(self, i, mode):
        ino, node = self.pick(i, mode)
        if mode == 1:
            # no matter what happens to the control file itself
            await self.raw(b'lock', b'%d' % ino)
            return
        if node is None:
            return await self.refuse(b'lock', b'%d' % ino, 'no such inode')
        if node.kind != 'd':
            await self.ensure(node)
            if await self.raw(b'lock', b'%d' % ino) == 0:
                node.locked = True
            return
        if i % 3 and mode != 7:
            return
        await self.op_lock(self.dirs().index(node) - 1)

    async def op_xrmtree(self, di, pi, ni):
        if ni % 4 == 0:
            return await self.op_rmtree(pi)
        ino, node = self.pick(di, ni % 8)
        if node is not None:
            await self.ensure(node)
        name = self.sel(BADNAMES, pi) if ni >= 16 else self.sel(NAMES, pi)
        if node is not None and node.kind == 'd' and name in node.entries:
            return
        await self.refuse(b'rmtree', ('(%d, %r)' % (ino, name)).encode(), 'nothing to remove')
        if node is not None:
            await self.attrs(node)

    async def op_xsize(self, si, back):
        n = SIZES[si]
        res = await self.raw(b'cachesize', b'%d' % n)
        if n < 0:
            check(res, 'a cache size of %d was accepted', n)
        elif n < 2**60:
            check(res == 0, 'a cache size of %d was refused', n)
        self.label('cachesize')
        if back < 4:
            check(await self.raw(b'cachesize', b'%d' % (2**20)) == 0, 'cannot change the cache size')

    async def op_xlog(self, level, mi):
        mods = MODULES[mi]
        try:
            res = await self.raw(b'logging', repr((level, mods)).encode())
            if level == 10 and mods in ('all', 's3ql.fs', 's3ql.fs,all'):
                check(res == 0, 'logging command %r was refused', (level, mods))
                check(logging.getLogger('s3ql.fs').isEnabledFor(10), 'debug messages are not enabled')
            elif level in (20, 30) and mods == 'all':
                check(res == 0, 'logging command %r was refused', (level, mods))
                for n in ('s3ql.fs', 's3ql.block_cache', 's3ql'):
                    check(not logging.getLogger(n).isEnabledFor(10), 'debug messages are still enabled')
                    check(logging.getLogger(n).isEnabledFor(level), 'messages of level %d are not shown', level)
                    if level == 30:
                        check(not logging.getLogger(n).isEnabledFor(20), 'level warn, but info is shown')
            await self.attrs(self.model.root, '', 'a')
        finally:
            reset_logging()

    async def anything(self, what, coro):
        '''Any result and any error code'''
        from pyfuse3 import FUSEError

        try:
            return await coro
        except FUSEError as exc:
            check(exc.errno_ > 0, '%s failed with error %r', what, exc.errno_)
            return None

    async def op_ctrlfile(self, how, di, ni):
        '''Operations on the control file itself'''
        import pyfuse3

        d = self.sel(self.dirs(), di)
        await self.ensure(d)
        name = self.sel(NAMES, ni)
        o, c = self.ops, self.ctx
        attr = await self.lookup(d.ino, CTRL_NAME)
        check(attr.st_ino == CTRL_INODE, 'control inode is %d', attr.st_ino)
        check(stat.S_ISREG(attr.st_mode) and attr.st_uid == os.getuid(), 'control file: %o, uid %d',
              attr.st_mode, attr.st_uid)  # fmt: skip
        denied = tuple(errno.errorcode)
        self.begin()
        self.label('ctrlfile')
        if how == 0:
            await self.call(denied, 'unlink of the control file', o.unlink(d.ino, CTRL_NAME, c))
        elif how == 1:
            await self.call(denied, 'rmdir of the control file', o.rmdir(d.ino, CTRL_NAME, c))
        elif how == 2:
            if name not in d.entries:
                await self.call(denied, 'rename of the control file', o.rename(d.ino, CTRL_NAME, d.ino, name, 0, c))
        elif how == 3:
            if name in d.entries:
                await self.call(denied, 'rename onto the control file',
                                o.rename(d.ino, name, d.ino, CTRL_NAME, 0, c))  # fmt: skip
        elif how == 4:
            if name not in d.entries:
                await self.call(denied, 'link of the control file', o.link(CTRL_INODE, d.ino, name, c))
        elif how == 5:
            n = self.sel(self.model.live('f'), ni)
            if n is not None:
                await self.ensure(n)
                await self.call(denied, 'link onto the control file', o.link(n.ino, d.ino, CTRL_NAME, c))
        elif how == 6:
            await self.call(denied, 'mkdir of the control file', o.mkdir(d.ino, CTRL_NAME, 0o40755, c))
        elif how == 7:
            await self.call(denied, 'mknod of the control file', o.mknod(d.ino, CTRL_NAME, 0o100644, 0, c))
        elif how == 8:
            await self.call(denied, 'symlink as control file', o.symlink(d.ino, CTRL_NAME, b'x', c))
        elif how == 9:
            await self.call(denied, 'create of the control file',
                            o.create(d.ino, CTRL_NAME, 0o100644, os.O_RDWR | os.O_CREAT, c))  # fmt: skip
        elif how == 10:
            f = await self.anything('open', o.open(CTRL_INODE, os.O_RDWR, c))
            if f is not None:
                await self.anything('read', o.read(f.fh, 0, 1000))
                await self.anything('write', o.write(f.fh, ni * 1000, b'hello'))
                await self.anything('fsync', o.fsync(f.fh, False))
                await self.anything('flush', o.flush(f.fh))
                await self.anything('release', o.release(f.fh))
        elif how == 11:
            a = pyfuse3.EntryAttributes()
            a.st_mode, a.st_uid, a.st_gid, a.st_size = 0o100600, 5, 6, ni * 700
            f = [Fields(mode=True), Fields(uid=True, gid=True), Fields(size=True)][ni % 3]
            await self.anything('setattr', o.setattr(CTRL_INODE, a, f, None, c))
        elif how == 12:
            check(await self.call(None, 'getxattr', o.getxattr(CTRL_INODE, b's3ql_pid?', c)) == b'%d' % os.getpid(),
                  'the control file has a wrong pid')  # fmt: skip
        elif how == 13:
            for n in UNKNOWN:
                if n != b's3qlstat':
                    await self.call(denied, 'getxattr %r of the control file' % n, o.getxattr(CTRL_INODE, n, c))
        elif how == 14:
            check(await self.call(None, 'listxattr', o.listxattr(CTRL_INODE, c)) == [], 'control file has attributes')
            await self.call(denied, 'removexattr of the control file', o.removexattr(CTRL_INODE, b'copy', c))
        elif how == 15:
            await self.anything('opendir', o.opendir(CTRL_INODE, c))
            await self.anything('readlink', o.readlink(CTRL_INODE, c))
            await self.anything('lookup', o.lookup(CTRL_INODE, b'a', c))
        elif how == 16:
            await self.anything('mkdir', o.access(CTRL_INODE, 7, c))
            await self.anything('statfs', o.statfs(c))
        else:
            n = self.looked.pop(CTRL_INODE)
            await self.ops.forget([(CTRL_INODE, n)])
        await self.attrs(d, '', 'a')

    async def op_stale(self, how, pi, ni):
        '''Calls on something that is removed but still known'''
        import pyfuse3

        ents = [p for p in self.model.paths() if not p[0].locked and not p[2].entries and p[2].nlink == 1]
        e = self.sel(ents, pi)
        if e is None:
            return
        d, name, node = e
        if node.handles:
            return
        await self.ensure(d)
        await self.ensure(node)
        self.begin()
        o, c = self.ops, self.ctx
        if ni % 2:
            await self.ctrl(b'rmtree', ('(%d, %r)' % (d.ino, name)).encode())
        elif node.kind == 'd':
            if node.locked:
                return
            await self.call(None, 'rmdir', o.rmdir(d.ino, name, c))
        else:
            await self.call(None, 'unlink', o.unlink(d.ino, name, c))
        del d.entries[name]
        self._unlinked(node)
        await self.attrs(d, 'mc')
        self.label('stale ' + ('dir' if node.kind == 'd' else 'other'))
        denied = tuple(errno.errorcode)
        i = node.ino
        if node.kind == 'd':
            other = self.sel(self.model.live('f'), ni)
            if other is not None:
                await self.ensure(other)
            a = pyfuse3.EntryAttributes()
            a.st_mode = 0o40700
            k = how % 14
            if k == 0:
                await self.call(denied, 'mkdir in a removed directory', o.mkdir(i, b'x', 0o40755, c))
            elif k == 1:
                await self.call(denied, 'create in a removed directory', o.create(i, b'x', 0o100644, os.O_RDWR, c))
            elif k == 2:
                await self.call(denied, 'mknod in a removed directory', o.mknod(i, b'x', 0o10644, 0, c))
            elif k == 3:
                await self.call(denied, 'symlink in a removed directory', o.symlink(i, b'x', b'y', c))
            elif k == 4 and other is not None:
                await self.call(denied, 'link in a removed directory', o.link(other.ino, i, b'x', c))
            elif k == 5:
                p = self.sel([p for p in self.model.paths() if not p[0].locked and p[2] is not node], ni)
                if p is not None:
                    await self.ensure(p[0])
                    await self.ensure(p[2])
                    await self.call(denied, 'rename into a removed directory', o.rename(p[0].ino, p[1], i, b'x', 0, c))
            elif k == 6:
                await self.call((errno.ENOENT,), 'lookup in a removed directory', o.lookup(i, b'x', c))
            elif k == 7:
                await self.anything('unlink', o.unlink(i, b'x', c))
                await self.anything('rmdir', o.rmdir(i, b'x', c))
            elif k == 8:
                check(await self.readdir(node, 3) == [], 'a removed directory has entries')
            elif k == 9:
                await self.anything('setattr', o.setattr(i, a, Fields(mode=True), None, c))
            elif k == 10:
                await self.anything('setxattr', o.setxattr(i, b'user.x', b'y', c))
                await self.anything('getxattr', o.getxattr(i, b'user.x', c))
                await self.anything('listxattr', o.listxattr(i, c))
                await self.anything('removexattr', o.removexattr(i, b'user.x', c))
            elif k == 11:
                live = self.sel(self.dirs()[1:], ni)
                if live is not None:
                    await self.refuse(b'copy', ('(%d, %d)' % (live.ino, i)).encode(), 'removed target')
            elif k == 12:
                await self.raw(b'lock', b'%d' % i)
            elif k == 13:
                await self.refuse(b'rmtree', b"(%d, b'x')" % i, 'removed directory')
                await self.anything('lookup', o.lookup(i, CTRL_NAME, c))
                self.got(CTRL_INODE)
        else:
            k = how % 4
            if k == 0:
                await self.anything('getattr', o.getattr(i, c))
            elif k == 1:
                await self.anything('setxattr', o.setxattr(i, b'user.x', b'y', c))
            elif k == 2:
                await self.refuse(b'copy', ('(%d, %d)' % (i, i)).encode(), 'not a directory')
            else:
                # linkat(AT_EMPTY_PATH) of a removed file
                d2 = self.sel([x for x in self.dirs() if not x.locked and b'm' not in x.entries], ni)
                if d2 is not None:
                    await self.ensure(d2)
                    if await self.anything('link', o.link(i, d2.ino, b'm', c)) is not None:
                        self.got(i)
                        await self.call(None, 'unlink', o.unlink(d2.ino, b'm', c))
                    await self.attrs(d2, '', 'mc')
        await self.forget(node)


def reset_logging():
    logging.disable(logging.NOTSET)
    for n in ('s3ql.fs', 'a', 'b', '', '..', '\0', 'ä', 'x' * 5000):
        logging.getLogger(n or None).setLevel(logging.NOTSET if n else logging.WARNING)


def run(case, info):
    level = logging.getLogger().level
    try:
        with env.Scratch() as root:
            w = make_world(root, case['cfg'])
            drv = Driver(w, case['cfg'], info)
            run_history(w, drv, case['pre'] + case['ops'])
            db = inspect.load_db(w.cachepath() + '.db')
            inspect.check_db(db)
            final_walk(w, drv)
            res = w.fsck('--force')
            check(res.code == 0, 'fsck.s3ql exits with %r after a clean unmount', res.code)
    finally:
        reset_logging()
        logging.getLogger().setLevel(level)
    lab = info.labels
    info.nontrivial = sum(lab.get(k, 0) for k in ('refused', 'copied', 'ctrlfile', 'stale dir', 'lock', 'rmtree')) >= 3


# ---------------------------------------------------------------- colliding control commands


def race_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    t = st.integers(0, 1)
    n = st.integers(0, 3)
    weights = [
        (6, ('cp', t)), (3, ('rmdir', t)), (3, ('mv', t)), (3, ('rmtree', t)), (3, ('lock', t)),
        (5, ('mk', t, n, st.integers(0, 3))), (2, ('rmsrc', n)), (1, ('locksrc',)), (4, ('new', t)),
        (3, ('sl', st.integers(0, 9))), (2, ('dirty', n)), (2, ('unmk', t, n)), (1, ('cpcp', t)),
        (2, ('ls', t)), (1, ('sync',)), (1, ('fg', t)),
    ]  # fmt: skip
    bag = []
    for k, (name, *args) in weights:
        bag.extend([st.tuples(st.just(name), *args).map(list)] * k)
    client = st.lists(st.one_of(bag), min_size=2, max_size=10)
    cfg = fsops.cfg(
        passphrase=False, block_kib=1, meta_kib=4, compress='none',
        delays=st.lists(st.one_of(st.integers(0, 2), st.integers(0, 40)), min_size=0, max_size=8),
    )  # fmt: skip
    return st.fixed_dictionaries({
        'cfg': cfg, 'many': st.sampled_from([0, 0, 5, 98, 101, 205, 330]), 'dirty': st.integers(0, 15),
        'clients': st.lists(client, min_size=2, max_size=4),
    })  # fmt: skip


class Race:
    '''Replication, removal and locking of the same trees at the same time. The result may be any
    error, but a replication either appears completely or not at all'''

    SRC = [b'a', b'b', b'c', b'd']
    MADE = [b'a', b'b', b'x', b'm001']

    def __init__(self, case, info):
        self.case = case
        self.info = info
        self.ctx = fsdrive.Ctx()

    async def driver(self, ops):
        import trio

        self.ops = ops
        self.ctrl_lock = trio.Lock()
        self.src_changes = False
        self.targets = [None, None]  # inode numbers
        self.names = {}  # inode -> current name in the root
        self.made = {}  # inode -> names created by clients and not removed
        self.copied = {}  # inode -> entries of the source, None if unknown
        self.dead = set()  # removed directories
        self.frozen = {}  # inode -> entries when it was locked
        self.refs = []
        self.n = 0
        await ops.lookup(fsdrive.ROOT, CTRL_NAME, self.ctx)
        self.src = (await ops.mkdir(fsdrive.ROOT, b'src', 0o40755, self.ctx)).st_ino
        self.files = []
        for i, name in enumerate(self.SRC):
            par = self.src
            if i % 2:
                par = (await ops.mkdir(self.src, name, 0o40755, self.ctx)).st_ino
                name = b'file'
            fi, a = await ops.create(par, name, 0o100644, os.O_RDWR, self.ctx)
            if self.case['dirty'] >> i & 1:
                await ops.write(fi.fh, 0, b'data %d' % i * 300)
            await ops.release(fi.fh)
            self.files.append(a.st_ino)
        for i in range(self.case['many']):
            a = await ops.mknod(self.src, b'm%03d' % i, 0o10644, 0, self.ctx)
            await ops.forget([(a.st_ino, 1)])
        self.inside = set(await self.ls(self.src))
        for t in range(2):
            await self.op_new(t)
        with trio.move_on_after(3 * 3600) as scope:
            async with trio.open_nursery() as nursery:
                for oplist in self.case['clients']:
                    nursery.start_soon(self.client, oplist)
        if scope.cancelled_caught:
            raise Violation('control commands are still blocked after three virtual hours')
        for ino in sorted(self.names):
            await self.judge(ino)
        for ino in self.refs:
            await ops.forget([(ino, 1)])
        return True

    async def client(self, oplist):
        from pyfuse3 import FUSEError

        for op in oplist:
            self.info.label(op[0])
            try:
                await getattr(self, 'op_' + op[0])(*op[1:])
            except FUSEError as exc:
                check(exc.errno_ > 0, '%r failed with error %r', op, exc.errno_)
                self.info.label('errno-%d' % exc.errno_)

    async def ls(self, d):
        names = []
        inos = []

        def token(name, attr, next_):
            names.append(name)
            inos.append(attr.st_ino)
            return True

        await self.ops.readdir(d, 0, token)
        if inos:
            await self.ops.forget([(i, 1) for i in inos])
        return names

    async def judge(self, ino):
        have = set(await self.ls(ino))
        if ino in self.frozen:
            want, why = self.frozen[ino], 'locked'
        elif ino in self.copied:
            if self.copied[ino] is None:
                return
            want, why = self.copied[ino] | self.made[ino], 'replicated'
        else:
            want, why = self.made[ino], 'not replicated'
        check(have == want, 'directory %r (%s) has %d entries, expected %d; missing %r, unexpected %r',
              self.names[ino], why, len(have), len(want), sorted(want - have)[:4],
              sorted(have - want)[:4])  # fmt: skip

    async def ctrl(self, name, value):
        async with self.ctrl_lock:  # the kernel never sends two for the same inode
            await self.ops.setxattr(CTRL_INODE, name, value, self.ctx)

    async def op_new(self, t):
        name = b'tgt%d' % self.n
        self.n += 1
        a = await self.ops.mkdir(fsdrive.ROOT, name, 0o40755, self.ctx)
        self.refs.append(a.st_ino)
        self.targets[t] = a.st_ino
        self.names[a.st_ino] = name
        self.made[a.st_ino] = set()

    async def op_cp(self, t):
        ino = self.targets[t]
        await self.ctrl(b'copy', b'(%d, %d)' % (self.src, ino))
        self.info.label('replicated')
        check(ino not in self.dead, 'replication into a removed directory succeeded')
        check(ino not in self.frozen, 'replication into a locked directory succeeded')
        check(not self.copied.get(ino), 'second replication into the same directory succeeded')
        check(not self.made[ino], 'replication into a directory with %r succeeded', self.made[ino])
        self.copied[ino] = set(self.inside)
        if ino in self.names:
            await self.judge(ino)

    async def op_cpcp(self, t):
        # one target into the other
        a, b = self.targets[t], self.targets[1 - t]
        await self.ctrl(b'copy', b'(%d, %d)' % (a, b))
        self.copied[b] = None

    async def op_rmdir(self, t):
        ino = self.targets[t]
        if ino in self.names:
            await self.ops.rmdir(fsdrive.ROOT, self.names[ino], self.ctx)
            self.info.label('removed')
            self.dead.add(ino)
            self.names.pop(ino, None)

    async def op_mv(self, t):
        ino = self.targets[t]
        if ino in self.names:
            name = b'mv%d' % self.n
            self.n += 1
            await self.ops.rename(fsdrive.ROOT, self.names[ino], fsdrive.ROOT, name, 0, self.ctx)
            self.names[ino] = name

    async def op_rmtree(self, t):
        ino = self.targets[t]
        if ino in self.names:
            name = self.names.pop(ino)
            self.info.label('removed')
            await self.ctrl(b'rmtree', b'(%d, %r)' % (fsdrive.ROOT, name))
            self.dead.add(ino)

    async def op_rmsrc(self, n):
        async with self.ctrl_lock:
            self.src_changes = True
            try:
                await self.ops.setxattr(CTRL_INODE, b'rmtree', b'(%d, %r)' % (self.src, self.SRC[n]), self.ctx)
            finally:
                self.inside = set(await self.ls(self.src))

    async def op_lock(self, t):
        ino = self.targets[t]
        await self.ctrl(b'lock', b'%d' % ino)
        self.info.label('locked')
        if ino in self.names and ino not in self.frozen:
            self.frozen[ino] = set(await self.ls(ino))

    async def op_locksrc(self):
        await self.ctrl(b'lock', b'%d' % self.src)

    async def op_mk(self, t, n, kind):
        ino = self.targets[t]
        name = self.MADE[n]
        if ino not in self.names:
            return
        o, c = self.ops, self.ctx
        if kind == 0:
            a = await o.mkdir(ino, name, 0o40755, c)
        elif kind == 1:
            a = await o.mknod(ino, name, 0o10644, 0, c)
        elif kind == 2:
            a = await o.symlink(ino, name, b'target', c)
        else:
            a = await o.link(self.files[0], ino, name, c)
        self.made[ino].add(name)
        await o.forget([(a.st_ino, 1)])

    async def op_unmk(self, t, n):
        from pyfuse3 import FUSEError

        ino = self.targets[t]
        name = self.MADE[n]
        if ino in self.names and name in self.made[ino]:
            try:
                await self.ops.unlink(ino, name, self.ctx)
            except FUSEError:
                await self.ops.rmdir(ino, name, self.ctx)
            self.made[ino].discard(name)

    async def op_dirty(self, n):
        fi = await self.ops.open(self.files[n], os.O_RDWR, self.ctx)
        await self.ops.write(fi.fh, n * 700, b'more data')
        await self.ops.release(fi.fh)

    async def op_ls(self, t):
        ino = self.targets[t]
        if ino in self.names:
            new = set(await self.ls(ino)) - self.made[ino]
            check(not new or len(new) >= len(self.inside) or ino in self.copied or self.src_changes,
                  'replicated directory shows %d of %d entries', len(new), len(self.inside))  # fmt: skip

    async def op_fg(self, t):
        ino = self.targets[t]
        if ino in self.names:
            a = await self.ops.lookup(fsdrive.ROOT, self.names[ino], self.ctx)
            check(a.st_ino == ino, 'lookup returns another inode')
            await self.ops.forget([(ino, 1)])

    async def op_sync(self):
        await self.ctrl(b's3ql_flushcache!', b'dummy')

    async def op_sl(self, n):
        import trio

        await trio.sleep(n * 0.05)


def race_run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        r = Race(case, info)
        res = w.mount(r.driver)
        check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)', res.code, res.exc)
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        res = w.fsck('--force')
        check(res.code == 0, 'fsck.s3ql exits with %r after a clean unmount', res.code)
    lab = info.labels
    info.nontrivial = lab.get('cp', 0) >= 1 and lab.get('removed', 0) + lab.get('locked', 0) + lab.get('mk', 0) >= 1


TECHNIQUE = 'stateful fuzzing of the control channel and of unusual calls against a reference model'
NOTE = (
    'Generated control commands (well-formed, malformed, with missing or wrong objects), calls on the '
    'control file and on removed objects between ordinary calls; any exception other than an error '
    'code, and any difference from the model, is a violation.'
)
PROPERTY = Property(
    'C16',
    'Random histories of ordinary calls mixed with control commands and unusual calls. '
    'Non-trivial: at least three control commands or unusual calls were refused or took effect.',
    [
        Part('control', strategy, run, quick=150, thorough=5000),
        Part('s3qlctrl', clitools.ctrl_cases, clitools.run_ctrl, quick=100, thorough=10000),
        Part('race', race_strategy, race_run, quick=100, thorough=5000),
    ],
)
