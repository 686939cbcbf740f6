'''C01: file system calls agree with a POSIX reference model.'''

from harness import env
from harness.core import Part, Property, Violation, check
from harness.session import FsDriver, final_walk, make_world, run_history

WEIGHTS = {
    'create': 8, 'mkdir': 4, 'mknod': 1, 'symlink': 2, 'link': 3, 'unlink': 4, 'rmdir': 2,
    'badremove': 1, 'longname': 1, 'rename': 5, 'open': 3, 'release': 3, 'write': 14, 'read': 8, 'truncate': 6,
    'setattr': 3, 'setxattr': 3, 'removexattr': 2, 'sync': 2, 'drop': 2, 'fsync': 1, 'sleep': 2,
    'cachesize': 1, 'forget': 2, 'forgetall': 1, 'lookup': 1, 'dots': 2, 'renflags': 1, 'walk': 1, 'remount': 2, 'upmeta': 1,
}  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({'cfg': fsops.cfg(), 'ops': fsops.op_list(WEIGHTS, 4, 70)})


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = FsDriver(w, case['cfg'], info)
        nfs = ['--nfs'] if case['cfg']['sched'] % 4 == 1 else []
        run_history(w, drv, case['ops'], mount_args=nfs)
        final_walk(w, drv)
    lab = info.labels
    info.nontrivial = lab.get('write', 0) >= 1 and lab.get('create', 0) >= 2


# ------------------------------------------------------------------------------ deep trees


def deep_strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        'depth': st.sampled_from([253, 254, 255, 256, 300, 520, 1010, 1300]),
        'ops': st.lists(st.tuples(st.sampled_from(['rmdir', 'replace', 'ctrl', 'link', 'rename',
                                                   'file', 'copy', 'lock']),
                                  st.integers(0, 3)).map(list), min_size=1, max_size=8),
        'end': st.sampled_from(['rmtree', 'fsck', 'walk']),
    })  # fmt: skip


def deep_run(case, info):
    '''Chains of directories as deep as path names allow (and deeper)'''
    import errno
    import stat

    import pyfuse3

    from harness.fsdrive import CTRL_NAME
    from harness.tree import Ctx

    ctx = Ctx()
    depth = case['depth']
    state = {}

    async def fails(eno, what, coro):
        try:
            await coro
        except pyfuse3.FUSEError as exc:
            check(exc.errno_ == eno, '%s at depth %d: error %d, expected %d', what, depth,
                  exc.errno_, eno)  # fmt: skip
        else:
            raise Violation('%s at depth %d succeeded' % (what, depth))

    async def ctrl(ops, cmd, value):
        from s3ql import CTRL_INODE

        await ops.setxattr(CTRL_INODE, cmd, value, ctx)

    async def driver(ops):
        chain = [1]
        for _ in range(depth):
            a = await ops.mkdir(chain[-1], b'd', stat.S_IFDIR | 0o755, ctx)
            chain.append(a.st_ino)
        top, par, last = chain[1], chain[-2], chain[-1]
        files = []
        await ops.mkdir(last, b'e', stat.S_IFDIR | 0o755, ctx)
        fi, fa = await ops.create(last, b'f', stat.S_IFREG | 0o644, 2, ctx)
        await ops.write(fi.fh, 0, b'bottom')
        await ops.release(fi.fh)
        await ops.mkdir(par, b'x', stat.S_IFDIR | 0o755, ctx)
        locked = False
        for name, k in case['ops']:
            info.label(name)
            if name == 'rmdir':
                await fails(errno.EPERM if locked else errno.ENOTEMPTY, 'rmdir of non-empty directory', ops.rmdir(par, b'd', ctx))
            elif name == 'replace':
                await fails(errno.EPERM if locked else errno.ENOTEMPTY, 'rename onto non-empty directory',
                            ops.rename(par, b'x', par, b'd', 0, ctx))  # fmt: skip
            elif name == 'ctrl':
                await fails(errno.EACCES, 'mkdir of control file',
                            ops.mkdir(last, CTRL_NAME, stat.S_IFDIR | 0o755, ctx))  # fmt: skip
                await fails(errno.EACCES, 'link as control file',
                            ops.link(fa.st_ino, last, CTRL_NAME, ctx))  # fmt: skip
                await fails(errno.EACCES, 'rename to control file',
                            ops.rename(last, b'f', last, CTRL_NAME, 0, ctx))  # fmt: skip
            elif locked:
                continue
            elif name == 'link':
                n = b'l%d' % len(files)
                files.append(n)
                await ops.link(fa.st_ino, last, n, ctx)
            elif name == 'rename':
                await ops.rename(last, b'f', last, b'g', 0, ctx)
                await ops.rename(last, b'g', last, b'f', 0, ctx)
            elif name == 'file':
                n = b'c%d' % len(files)
                files.append(n)
                fi, _ = await ops.create(last, n, stat.S_IFREG | 0o644, 2, ctx)
                await ops.release(fi.fh)
            elif name == 'copy' and 'copy' not in state:
                a = await ops.mkdir(1, b'copy', stat.S_IFDIR | 0o755, ctx)
                state['copy'] = list(files)
                await ctrl(ops, b'copy', b'(%d, %d)' % (top, a.st_ino))
            elif name == 'lock':
                await ctrl(ops, b'lock', b'%d' % top)
                locked = True
        state['files'] = files
        if case['end'] == 'rmtree':
            await ctrl(ops, b'rmtree', b"(1, b'd')")
        return True

    async def again(ops):
        for root, tail, names in ((b'd', depth - 1, state['files']),
                                  (b'copy', depth - 1, state.get('copy'))):  # fmt: skip
            gone = root == b'd' and case['end'] == 'rmtree' or names is None
            if gone:
                await fails(errno.ENOENT, 'lookup of removed tree', ops.lookup(1, root, ctx))
                continue
            ino = (await ops.lookup(1, root, ctx)).st_ino
            for _ in range(tail):
                ino = (await ops.lookup(ino, b'd', ctx)).st_ino
            for n in [b'f', b'e', *names]:
                await ops.lookup(ino, n, ctx)
            fi = await ops.open((await ops.lookup(ino, b'f', ctx)).st_ino, 0, ctx)
            data = await ops.read(fi.fh, 0, 100)
            await ops.release(fi.fh)
            check(data == b'bottom', 'file at depth %d has contents %r', depth, data)
        return True

    with env.Scratch() as root:
        w = make_world(root, {'meta_kib': 64})
        res = w.mount(driver)
        check(res.code == 0 and res.driver, 'mount exits with %r (%s)', res.code, res.exc)
        env.vtime.advance(10)
        if case['end'] == 'fsck' or depth % 2:
            res = w.fsck('--force')
            check(res.code == 0, 'fsck exits with %r (%s)', res.code, res.exc)
        res = w.mount(again)
        check(res.code == 0 and res.driver, 'second mount exits with %r (%s)', res.code, res.exc)
    info.nontrivial = len(case['ops']) >= 2


TECHNIQUE = 'stateful model-based testing (Hypothesis histories against a POSIX reference model)'
NOTE = (
    'Generated histories run through the real mkfs.s3ql / mount.s3ql code with the kernel side of '
    'FUSE replaced by a driver; every result is compared with an in-memory model. Evidence of '
    'absence is limited to the histories generated.'
)
# ------------------------------------------------------------------------------ sparse files

TOP = 2**63 - 1
SPOTS = [0, 1024, 5000, 2**20, 2**31, 2**32, 2**40, 2**45 + 1023, 2**52, 2**53 + 1024, 2**60, 2**62, TOP]


def sparse_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    f = st.integers(0, 3)
    spot = st.one_of(st.integers(0, len(SPOTS) - 1), st.integers(6, len(SPOTS) - 1))
    d = st.sampled_from([0, 0, -1, 1, -1024, 1024, 1023, -1025, 333, -4096, 4096])
    ln = st.sampled_from([1, 10, 1024, 1500, 4096, 5000])
    bag = [(5, ('w', f, spot, d, ln, st.integers(0, 7))), (5, ('t', f, spot, d)), (4, ('r', f, spot, d, ln)), (1, ('fsync', f)),
           (1, ('rm', f)), (1, ('cp',)), (1, ('sync',)), (1, ('drop',)), (1, ('stat',)), (1, ('fsck',)),
           (1, ('remount', st.integers(0, 2)))]  # fmt: skip
    op = st.one_of([st.tuples(st.just(n), *a).map(list) for k, (n, *a) in bag for _ in range(k)])
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(cachesize=st.sampled_from([None, None, 0, 3])), 'ops': st.lists(op, min_size=2, max_size=18),
        'icache': st.just(100),
    })  # fmt: skip


class SparseFile:
    PAGE = 4096

    def __init__(self):
        self.size = 0
        self.pages = {}

    def write(self, off, buf):
        for i in range(off // self.PAGE, (off + len(buf) - 1) // self.PAGE + 1):
            pg = self.pages.setdefault(i, bytearray(self.PAGE))
            lo, hi = max(off, i * self.PAGE), min(off + len(buf), (i + 1) * self.PAGE)
            pg[lo - i * self.PAGE : hi - i * self.PAGE] = buf[lo - off : hi - off]
        self.size = max(self.size, off + len(buf))

    def read(self, off, n):
        end = min(off + n, self.size)
        out = b''
        while off < end:
            i, at = divmod(off, self.PAGE)
            k = min(self.PAGE - at, end - off)
            out += bytes(self.pages[i][at : at + k]) if i in self.pages else bytes(k)
            off += k
        return out

    def truncate(self, n):
        for i in [i for i in self.pages if i * self.PAGE >= n]:
            del self.pages[i]
        i, at = divmod(n, self.PAGE)
        if i in self.pages:
            self.pages[i][at:] = bytes(self.PAGE - at)
        self.size = n

    def copy(self):
        o = SparseFile()
        o.size = self.size
        o.pages = {i: bytearray(p) for i, p in self.pages.items()}
        return o


def sparse_run(case, info):
    '''Files that are mostly holes, up to the largest possible size'''
    import os
    import stat
    import struct

    import pyfuse3

    from harness.fsdrive import CTRL_INODE, CTRL_NAME, ROOT, Fields, pattern
    from harness.tree import Ctx

    ctx = Ctx()
    top = {}  # name -> file in /d
    copies = {}

    async def ctrl(ops, cmd, value=b'dummy'):
        await ops.lookup(ROOT, CTRL_NAME, ctx)
        await ops.setxattr(CTRL_INODE, cmd, value, ctx)

    async def find(ops, parent, name):
        return await ops.lookup(parent, name, ctx)

    async def verify_file(ops, ino, f, where):
        a = await ops.getattr(ino, ctx)
        check(a.st_size == f.size, 'size of %r is %d instead of %d', where, a.st_size, f.size)
        spots = {0, f.size - 2048, f.size - 1} | {i * f.PAGE for i in f.pages}
        fh = (await ops.open(ino, os.O_RDONLY, ctx)).fh
        for off in sorted(x for x in spots if x >= 0)[:12]:
            buf = await ops.read(fh, off, 6000)
            check(bytes(buf) == f.read(off, 6000), 'wrong data in %r at offset %d', where, off)
        await ops.release(fh)

    def driver_for(seg):
        async def driver(ops):
            try:
                d = await find(ops, ROOT, b'd')
            except pyfuse3.FUSEError:
                d = await ops.mkdir(ROOT, b'd', stat.S_IFDIR | 0o755, ctx)
            inos = {}
            for name in sorted(top):
                inos[name] = (await find(ops, d.st_ino, name)).st_ino
                await verify_file(ops, inos[name], top[name], name)
            for op in seg:
                name = b'f%d' % (op[1] % 4) if len(op) > 1 else None
                if op[0] in ('w', 't', 'r', 'fsync', 'rm') and name not in top:
                    if op[0] == 'rm':
                        continue
                    fi, a = await ops.create(d.st_ino, name, stat.S_IFREG | 0o644, os.O_RDWR, ctx)
                    await ops.release(fi.fh)
                    inos[name], top[name] = a.st_ino, SparseFile()
                f = top.get(name)
                ino = inos.get(name)
                match op[0]:
                    case 'w':
                        off = min(max(0, SPOTS[op[2]] + op[3]), TOP - op[4])
                        buf = pattern(op[5], off, op[4])
                        fh = (await ops.open(ino, os.O_RDWR, ctx)).fh
                        n = await ops.write(fh, off, buf)
                        check(n == len(buf), 'write returned %r', n)
                        await ops.release(fh)
                        f.write(off, buf)
                        info.label('write')
                    case 't':
                        n = min(max(0, SPOTS[op[2]] + op[3]), TOP)
                        a = await ops.getattr(ino, ctx)
                        a.st_size = n
                        a = await ops.setattr(ino, a, Fields(size=True), None, ctx)
                        f.truncate(n)
                        check(a.st_size == n, 'size after truncate to %d is %d', n, a.st_size)
                        info.label('huge' if n > 2**40 else 'truncate')
                    case 'r':
                        off = min(max(0, SPOTS[op[2]] + op[3]), TOP - op[4])
                        fh = (await ops.open(ino, os.O_RDONLY, ctx)).fh
                        buf = await ops.read(fh, off, op[4])
                        check(bytes(buf) == f.read(off, op[4]), 'wrong data at offset %d', off)
                        await ops.release(fh)
                    case 'fsync':
                        await ops.fsync(ino, False)
                    case 'rm':
                        await ops.unlink(d.st_ino, name, ctx)
                        await ops.forget([(ino, ops.open_inodes[ino])])
                        del top[name], inos[name]
                        info.label('rm')
                    case 'cp':
                        t = b'c%d' % len(copies)
                        a = await ops.mkdir(ROOT, t, stat.S_IFDIR | 0o755, ctx)
                        await ctrl(ops, b'copy', b'(%d, %d)' % (d.st_ino, a.st_ino))
                        copies[t] = {k: v.copy() for k, v in top.items()}
                        info.label('copy')
                    case 'sync':
                        await ctrl(ops, b's3ql_flushcache!')
                    case 'drop':
                        await ctrl(ops, b's3ql_dropcache!')
                    case 'stat':
                        await ops.lookup(ROOT, CTRL_NAME, ctx)
                        raw = struct.unpack('Q' * 12, await ops.getxattr(CTRL_INODE, b's3qlstat', ctx))
                        total = sum(f.size for x in (top, *copies.values()) for f in x.values())
                        check(raw[3] == min(total, 2**64 - 1), 'reported size of all files is %d instead of %d', raw[3], total)
                        st = await ops.statfs(ctx)
                        check(0 <= st.f_bfree <= st.f_blocks and 0 <= st.f_ffree <= st.f_files, 'statfs')
                        info.label('stat')
                if f is not None and name in top:
                    await verify_file(ops, ino, f, name)
            for t, files in sorted(copies.items()):
                a = await find(ops, ROOT, t)
                for name, f in sorted(files.items()):
                    await verify_file(ops, (await find(ops, a.st_ino, name)).st_ino, f, t + b'/' + name)
            return True

        return driver

    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        segs = [[]]
        for op in case['ops']:
            if op[0] in ('remount', 'fsck'):
                segs.append(op)
                segs.append([])
            else:
                segs[-1].append(op)
        segs += [['remount', 2], []]
        for seg in segs:
            if seg and seg[0] == 'remount':
                if seg[1] == 2:
                    w.drop_cachedir()
            elif seg and seg[0] == 'fsck':
                res = w.fsck('--force')
                check(res.code == 0, 'fsck finds errors (%r)', res.code)
            else:
                res = w.mount(driver_for(seg))
                check(res.code == 0 and res.driver, 'mount/unmount fails with %r (%s)', res.code, res.exc)
                env.vtime.advance(100)
        w.drop_cachedir()
        res = w.fsck('--force')
        check(res.code == 0, 'fsck finds errors in the end (%r)', res.code)
        res = w.verify('--data')
        check(res.code == 0, 'verify finds errors (%r)', res.code)
    info.nontrivial = info.labels.get('huge', 0) > 0 and info.labels.get('write', 0) > 0


PROPERTY = Property(
    'C01',
    'Random call histories (1-60 calls, selectors resolved against the existing tree) run against '
    'a really mounted file system with the kernel interface stubbed; every result, error and '
    'attribute is compared with an in-memory POSIX model after each call, complete walks at '
    'unmount and after a remount from the backend alone. Non-trivial: at least two entries '
    'created and one write; for sparse files: one truncation to more than 1 TiB and one write.',
    [
        Part('posix', strategy, run, quick=350, thorough=6000),
        Part('deep', deep_strategy, deep_run, quick=4, thorough=100),
        Part('sparse', sparse_strategy, sparse_run, quick=40, thorough=2000, cpu_limit=30),
    ],
    assumptions=[
        'the kernel filters what it always filters (type mismatches on rename, existing names on '
        'create, loops)',
    ],
)
