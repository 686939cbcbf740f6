'''Reads a whole mounted file system through the file system calls'''

import os
import stat


class Ent:
    __slots__ = ('ino', 'mode', 'uid', 'gid', 'size', 'nlink', 'rdev', 'mtime', 'atime', 'ctime',
                 'data', 'target', 'xattr', 'error')  # fmt: skip

    def same(self, o, fields):
        return all(getattr(self, f) == getattr(o, f) for f in fields)


class Ctx:
    uid = gid = 0
    pid = 1
    umask = 0


async def read_tree(ops, step=70000, tolerate=()):
    '''{path: Ent} of everything below the root. Errors from *tolerate* are stored in .error'''
    import pyfuse3

    ctx = Ctx()
    res = {}

    async def listing(ino):
        fh = await ops.opendir(ino, ctx)
        out = []
        off = 0
        while True:
            got = []

            def token(name, attr, next_, got=got):
                if len(got) >= 50:
                    return False
                got.append((name, attr, next_))
                return True

            await ops.readdir(fh, off, token)
            out.extend((n, a) for n, a, _ in got)
            if not got:
                break
            off = got[-1][2]
            if len(out) > 20000:
                raise RuntimeError('readdir does not end')
        await ops.releasedir(fh)
        return out

    async def one(path, attr):
        e = Ent()
        e.ino = attr.st_ino
        e.mode, e.uid, e.gid, e.size = attr.st_mode, attr.st_uid, attr.st_gid, attr.st_size
        e.nlink, e.rdev = attr.st_nlink, attr.st_rdev
        e.mtime, e.atime, e.ctime = attr.st_mtime_ns, attr.st_atime_ns, attr.st_ctime_ns
        e.data = e.target = e.error = None
        res[path] = e
        e.xattr = {}
        for n in await ops.listxattr(e.ino, ctx):
            e.xattr[n] = await ops.getxattr(e.ino, n, ctx)
        if stat.S_ISLNK(e.mode):
            e.target = await ops.readlink(e.ino, ctx)
        elif stat.S_ISREG(e.mode):
            f = await ops.open(e.ino, os.O_RDONLY, ctx)
            buf = []
            off = 0
            try:
                while off < e.size:
                    b = await ops.read(f.fh, off, step)
                    if not b:
                        break
                    buf.append(b)
                    off += len(b)
                e.data = b''.join(buf)
            except pyfuse3.FUSEError as exc:
                if exc.errno_ not in tolerate:
                    raise
                e.error = exc.errno_
            await ops.release(f.fh)
        return e

    seen = set()

    async def rec(path, ino):
        if ino in seen:
            raise RuntimeError('directory loop')
        seen.add(ino)
        for name, attr in await listing(ino):
            p = path + b'/' + name
            if p in res:
                raise RuntimeError('duplicate entry %r' % p)
            e = await one(p, attr)
            if stat.S_ISDIR(e.mode):
                await rec(p, e.ino)

    await one(b'', await ops.getattr(1, ctx))
    await rec(b'', 1)
    return res


def mount_tree(world, *extra, tolerate=()):
    '''Mount, read everything, unmount. Returns (CliResult, tree or None)'''

    async def driver(ops):
        return await read_tree(ops, tolerate=tolerate)

    res = world.mount(driver, *extra)
    return res, res.driver
