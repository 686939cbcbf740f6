'''Drives a mounted s3ql file system through the calls a kernel would issue and compares every
result with an in-memory POSIX model.

A case is {'cfg': {...}, 'ops': [[name, int, int, ...], ...]}; all arguments are small integers
that select among whatever exists at that moment, so that every op of every case is meaningful
and cases stay valid while they are shrunk.
'''

import errno
import os
import stat
import struct

from .core import HarnessError, Violation, check
from .env import Sched, set_sched, vtime

NAMES = [b'a', b'b', b'user.x', b'user.y', b'\xff\xfe\xe9', b'n' * 255]
XNAMES = [b'user.x', b'user.y', b'a', b'security.\xff']
CTRL_NAME = b'.__s3ql__ctrl__'
CTRL_INODE = 2
ROOT = 1
PERMS = [0o644, 0o600, 0o755, 0o777, 0o4755, 0o2775, 0o000, 0o1777]


class Node:
    __slots__ = (
        'kind', 'mode', 'uid', 'gid', 'rdev', 'data', 'target', 'xattr', 'nlink', 'ino',
        'atime', 'mtime', 'ctime', 'entries', 'parent', 'locked', 'handles', 'serial', 'gone',
        'lost',
    )  # fmt: skip

    def __init__(self, serial, kind, mode, uid, gid, rdev=0):
        self.serial = serial
        self.kind = kind
        self.mode = mode
        self.uid = uid
        self.gid = gid
        self.rdev = rdev
        self.data = bytearray()
        self.target = None
        self.xattr = {}
        self.nlink = 1
        self.ino = None
        self.atime = self.mtime = self.ctime = None
        self.entries = {} if kind == 'd' else None
        self.parent = None
        self.locked = False
        self.handles = 0
        self.gone = False
        self.lost = False

    @property
    def size(self):
        if self.kind == 'l':
            return len(self.target)
        return len(self.data)


class Ctx:
    def __init__(self, uid=0, gid=0, umask=0):
        self.uid = uid
        self.gid = gid
        self.pid = 1
        self.umask = umask


class Fields:
    def __init__(self, **kw):
        for f in ('mode', 'uid', 'gid', 'atime', 'mtime', 'size', 'ctime'):
            setattr(self, 'update_' + f, kw.pop(f, False))
        assert not kw


def pattern(tag, off, length):
    if tag <= 4:
        return bytes([0 if tag == 0 else 0x40 + tag]) * length
    return bytes(((o * 7 + (o >> 8) * 13 + tag * 31) & 255) for o in range(off, off + length))


class Model:
    def __init__(self):
        self.serial = 0
        self.root = self.new('d', stat.S_IFDIR | 0o755, os.getuid(), os.getgid())
        self.root.ino = ROOT
        self.nodes = [self.root]

    def new(self, kind, mode, uid, gid, rdev=0):
        n = Node(self.serial, kind, mode, uid, gid, rdev)
        self.serial += 1
        return n

    def live(self, kinds=None):
        '''Nodes reachable from the root, in creation order'''
        seen = {}
        stack = [self.root]
        while stack:
            n = stack.pop()
            if n.serial in seen:
                continue
            seen[n.serial] = n
            if n.kind == 'd':
                stack.extend(n.entries.values())
        return [seen[k] for k in sorted(seen) if kinds is None or seen[k].kind in kinds]

    def paths(self):
        '''(parent, name, node) of every entry, in a stable order'''
        res = []

        def rec(d):
            for name in sorted(d.entries):
                res.append((d, name, d.entries[name]))
                if d.entries[name].kind == 'd':
                    rec(d.entries[name])

        rec(self.root)
        return res

    def path_of(self, node):
        '''List of (parent node, name) from the root to *node*, or None'''
        if node is self.root:
            return []
        stack = [(self.root, [])]
        while stack:
            d, p = stack.pop()
            for name in sorted(d.entries):
                c = d.entries[name]
                if c is node:
                    return p + [(d, name)]
                if c.kind == 'd':
                    stack.append((c, p + [(d, name)]))
        return None

    def subtree(self, node):
        res = {}
        stack = [node]
        while stack:
            n = stack.pop()
            if n.serial in res:
                continue
            res[n.serial] = n
            if n.kind == 'd':
                stack.extend(n.entries.values())
        return [res[k] for k in sorted(res)]


class FsDriver:
    '''Executes ops against (real fs, model) in lock step'''

    def __init__(self, world, cfg, info=None):
        self.world = world
        self.cfg = cfg
        self.info = info
        self.model = Model()
        self.bs = world.block_kib * 1024
        self.ops = None
        self.looked = {}  # ino -> kernel lookup count
        self.handles = []  # (fh, node, flags)
        self.trace = []
        self.ctx = Ctx()
        self.t0 = None
        self.allow_eio = False
        self.skip_times = False

    # ------------------------------------------------------------ kernel emulation

    def label(self, name):
        if self.info is not None:
            self.info.label(name)

    async def call(self, expect, what, coro):
        '''Await *coro*; *expect* is None or a tuple of acceptable errnos'''
        from pyfuse3 import FUSEError

        try:
            res = await coro
        except FUSEError as exc:
            self.eno = exc.errno_
            if expect is None or exc.errno_ not in expect:
                raise Violation(
                    '%s failed with %s, model expects %s'
                    % (what, errno.errorcode.get(exc.errno_, exc.errno_),
                       'success' if expect is None
                       else '/'.join(errno.errorcode[e] for e in expect))
                ) from None  # fmt: skip
            return None
        if expect is not None:
            raise Violation(
                '%s succeeded, model expects %s'
                % (what, '/'.join(errno.errorcode[e] for e in expect))
            )
        return res

    def got(self, ino, n=1):
        self.looked[ino] = self.looked.get(ino, 0) + n

    async def lookup(self, parent_ino, name):
        attr = await self.ops.lookup(parent_ino, name, self.ctx)
        self.got(attr.st_ino)
        return attr

    async def ensure(self, node):
        '''Make the kernel know *node* (resolve its path)'''
        if node is self.model.root or self.looked.get(node.ino, 0) > 0:
            return node.ino
        path = self.model.path_of(node)
        if path is None:
            raise HarnessError('node without path is not looked up')
        for parent, name in path:
            child = parent.entries[name]
            if self.looked.get(child.ino, 0) > 0:
                continue
            attr = await self.call(None, 'lookup of %r' % name,
                                   self.ops.lookup(parent.ino, name, self.ctx))  # fmt: skip
            self.got(attr.st_ino)
            check(attr.st_ino == child.ino, 'lookup of %r gives inode %d instead of %d',
                  name, attr.st_ino, child.ino)  # fmt: skip
        return node.ino

    async def forget(self, node, n=None):
        cnt = self.looked.get(node.ino, 0)
        if not cnt:
            return
        n = cnt if n is None else min(n, cnt)
        self.looked[node.ino] = cnt - n
        if cnt == n:
            del self.looked[node.ino]
        await self.ops.forget([(node.ino, n)])

    def begin(self):
        self.t0 = vtime.now_ns()

    async def attrs(self, node, must='', may='', exact=None):
        '''Compare getattr() with the model; *must* / *may*: timestamps that have / are allowed
        to change during the current call'''
        attr = await self.call(None, 'getattr', self.ops.getattr(node.ino, self.ctx))
        self.compare_attr(node, attr, must, may)

    def compare_attr(self, node, attr, must='', may=''):
        t1 = vtime.now_ns()
        what = 'node %d (inode %s, %s)' % (node.serial, node.ino, node.kind)
        check(attr.st_ino == node.ino, '%s: st_ino is %d', what, attr.st_ino)
        check(attr.st_mode == node.mode, '%s: mode %o, expected %o', what, attr.st_mode, node.mode)
        check(attr.st_uid == node.uid, '%s: uid %d, expected %d', what, attr.st_uid, node.uid)
        check(attr.st_gid == node.gid, '%s: gid %d, expected %d', what, attr.st_gid, node.gid)
        check(attr.st_nlink == node.nlink, '%s: nlink %d, expected %d',
              what, attr.st_nlink, node.nlink)  # fmt: skip
        if node.kind != 'd':
            check(attr.st_size == node.size, '%s: size %d, expected %d',
                  what, attr.st_size, node.size)  # fmt: skip
        if node.kind in 'cb':
            check(attr.st_rdev == node.rdev, '%s: rdev %d, expected %d',
                  what, attr.st_rdev, node.rdev)  # fmt: skip
        if self.skip_times:
            node.atime, node.mtime, node.ctime = (
                attr.st_atime_ns, attr.st_mtime_ns, attr.st_ctime_ns)  # fmt: skip
            return
        for f, name in (('a', 'atime'), ('m', 'mtime'), ('c', 'ctime')):
            new = getattr(attr, 'st_%s_ns' % name)
            old = getattr(node, name)
            inwin = self.t0 is not None and self.t0 < new < t1
            if f in must:
                check(inwin, '%s: %s not updated (is %d, call ran during %s..%d)',
                      what, name, new, self.t0, t1)  # fmt: skip
            elif f in may:
                check(inwin or new == old, '%s: %s is %d, neither unchanged (%s) nor current',
                      what, name, new, old)  # fmt: skip
            else:
                check(new == old, '%s: %s changed from %s to %d', what, name, old, new)
            setattr(node, name, new)

    # ------------------------------------------------------------ selection helpers

    def sel(self, lst, i):
        return lst[i % len(lst)] if lst else None

    def dirs(self):
        return self.model.live('d')

    def files(self):
        return self.model.live('f')

    # ------------------------------------------------------------ creation

    async def _exists(self, d, name):
        '''Kernel-side existence check before a create'''
        if name in d.entries:
            attr = await self.call(None, 'lookup', self.ops.lookup(d.ino, name, self.ctx))
            self.got(attr.st_ino)
            check(attr.st_ino == d.entries[name].ino, 'lookup: wrong inode')
            return True
        await self.call((errno.ENOENT,), 'lookup of missing %r' % name,
                        self.ops.lookup(d.ino, name, self.ctx))  # fmt: skip
        return False

    def _newnode(self, d, name, kind, mode, ctx, rdev=0):
        gid = ctx.gid
        if d.mode & stat.S_ISGID:
            gid = d.gid
            if kind == 'd':
                mode |= stat.S_ISGID
        return self.model.new(kind, mode, ctx.uid, gid, rdev)

    async def _created(self, d, name, node, attr):
        check(attr.st_ino not in {n.ino for n in self.model.nodes if not n.gone},
              'new entry got an inode number that is in use (%d)', attr.st_ino)  # fmt: skip
        node.ino = attr.st_ino
        self.got(node.ino)
        d.entries[name] = node
        if node.kind == 'd':
            node.parent = d
        self.model.nodes.append(node)
        self.compare_attr(node, attr, 'amc')
        await self.attrs(d, 'mc')
        self.label('create')

    def _ctxsel(self, i):
        return Ctx(*[(0, 0), (1000, 100), (4294967294, 65535)][i % 3])

    async def op_create(self, di, ni, mi, ci):
        d = self.sel(self.dirs(), di)
        name = self.sel(NAMES, ni)
        await self.ensure(d)
        if await self._exists(d, name):
            if ci >= 4 and d.entries[name].kind == 'f' and len(self.handles) <= 6:
                await self._create_existing(d, name, d.entries[name], ci % 2)
            return
        ctx = self._ctxsel(ci)
        mode = stat.S_IFREG | self.sel(PERMS, mi)
        self.begin()
        if d.locked:
            await self.call((errno.EPERM,), 'create in locked dir',
                            self.ops.create(d.ino, name, mode, os.O_RDWR | os.O_CREAT, ctx))  # fmt: skip
            return await self.attrs(d)
        node = self._newnode(d, name, 'f', mode, ctx)
        fi, attr = await self.call(None, 'create', self.ops.create(
            d.ino, name, mode, os.O_RDWR | os.O_CREAT, ctx))  # fmt: skip
        await self._created(d, name, node, attr)
        node.handles += 1
        self.handles.append((fi.fh, node, os.O_RDWR))
        if ci >= 3:
            await self.op_release(len(self.handles) - 1)

    async def _create_existing(self, d, name, node, trunc):
        '''The kernel did not know that the file exists'''
        flags = os.O_RDWR | os.O_CREAT | (os.O_TRUNC if trunc else 0)
        mode = stat.S_IFREG | 0o600
        self.begin()
        if node.locked:
            await self.call((errno.EPERM,), 'create opens locked file',
                            self.ops.create(d.ino, name, mode, flags, self.ctx))  # fmt: skip
            return await self.attrs(node)
        fi, attr = await self.call(None, 'create', self.ops.create(d.ino, name, mode, flags, self.ctx))
        check(attr.st_ino == node.ino, 'create of an existing file gives inode %d instead of %d', attr.st_ino, node.ino)
        self.got(node.ino)
        node.handles += 1
        self.handles.append((fi.fh, node, os.O_RDWR))
        if trunc:
            node.data = bytearray()
            self.compare_attr(node, attr, 'mc')
        else:
            self.compare_attr(node, attr)
        await self.attrs(node, 'mc' if trunc else '')
        await self.attrs(d)
        self.label('create-existing')

    async def op_mkdir(self, di, ni, mi, ci):
        d = self.sel(self.dirs(), di)
        name = self.sel(NAMES, ni)
        await self.ensure(d)
        if await self._exists(d, name):
            return
        ctx = self._ctxsel(ci)
        mode = stat.S_IFDIR | self.sel(PERMS, mi)
        self.begin()
        if d.locked:
            await self.call((errno.EPERM,), 'mkdir in locked dir',
                            self.ops.mkdir(d.ino, name, mode, ctx))  # fmt: skip
            return await self.attrs(d)
        node = self._newnode(d, name, 'd', mode, ctx)
        attr = await self.call(None, 'mkdir', self.ops.mkdir(d.ino, name, mode, ctx))
        await self._created(d, name, node, attr)

    async def op_mknod(self, di, ni, ki, ri):
        d = self.sel(self.dirs(), di)
        name = self.sel(NAMES, ni)
        await self.ensure(d)
        if await self._exists(d, name):
            return
        kind, fmt = self.sel(
            [('p', stat.S_IFIFO), ('c', stat.S_IFCHR), ('b', stat.S_IFBLK), ('s', stat.S_IFSOCK),
             ('f', stat.S_IFREG)], ki)  # fmt: skip
        rdev = self.sel([0, 1, 0x803, 0xFFFFFFFF], ri) if kind in 'cb' else 0
        ctx = self._ctxsel(ri)
        mode = fmt | self.sel(PERMS, ri)
        self.begin()
        if d.locked:
            await self.call((errno.EPERM,), 'mknod in locked dir',
                            self.ops.mknod(d.ino, name, mode, rdev, ctx))  # fmt: skip
            return await self.attrs(d)
        node = self._newnode(d, name, kind, mode, ctx, rdev)
        attr = await self.call(None, 'mknod', self.ops.mknod(d.ino, name, mode, rdev, ctx))
        await self._created(d, name, node, attr)

    async def op_symlink(self, di, ni, ti):
        d = self.sel(self.dirs(), di)
        name = self.sel(NAMES, ni)
        await self.ensure(d)
        if await self._exists(d, name):
            return
        target = self.sel([b'a', b'../x\xff', b'/' + b'y' * 300, b'.'], ti)
        ctx = self._ctxsel(ti)
        self.begin()
        if d.locked:
            await self.call((errno.EPERM,), 'symlink in locked dir',
                            self.ops.symlink(d.ino, name, target, ctx))  # fmt: skip
            return await self.attrs(d)
        node = self._newnode(d, name, 'l', stat.S_IFLNK | 0o777, ctx)
        node.target = target
        attr = await self.call(None, 'symlink', self.ops.symlink(d.ino, name, target, ctx))
        await self._created(d, name, node, attr)

    async def op_link(self, fi, di, ni):
        node = self.sel(self.model.live('flpcbs'), fi)
        d = self.sel(self.dirs(), di)
        if node is None:
            return
        name = self.sel(NAMES, ni)
        await self.ensure(node)
        await self.ensure(d)
        if await self._exists(d, name):
            return
        self.begin()
        if d.locked or node.locked:
            # linking a locked file into a directory that is not locked is not restricted
            if d.locked:
                await self.call((errno.EPERM,), 'link into locked dir',
                                self.ops.link(node.ino, d.ino, name, self.ctx))  # fmt: skip
                await self.attrs(node)
                return await self.attrs(d)
        attr = await self.call(None, 'link', self.ops.link(node.ino, d.ino, name, self.ctx))
        node.nlink += 1
        d.entries[name] = node
        self.got(node.ino)
        self.compare_attr(node, attr, 'c')
        await self.attrs(d, 'mc')
        self.label('hardlink')

    # ------------------------------------------------------------ removal

    def _unlinked(self, node):
        node.nlink -= 1
        if node.nlink == 0:
            node.gone = True

    async def _after_unlink(self, node):
        '''What the kernel does once a name is gone'''
        if node.nlink > 0:
            await self.attrs(node, 'c')
        elif node.handles == 0:
            self.label('purge')
            await self.forget(node)
        else:
            self.label('unlinked-open')
            await self.attrs(node, 'c')

    async def op_unlink(self, pi):
        ents = [p for p in self.model.paths() if p[2].kind != 'd']
        e = self.sel(ents, pi)
        if e is None:
            return
        d, name, node = e
        await self.ensure(d)
        await self.ensure(node)
        self.begin()
        if d.locked:
            await self.call((errno.EPERM,), 'unlink in locked dir',
                            self.ops.unlink(d.ino, name, self.ctx))  # fmt: skip
            await self.attrs(node)
            return await self.attrs(d)
        await self.call(None, 'unlink', self.ops.unlink(d.ino, name, self.ctx))
        del d.entries[name]
        self._unlinked(node)
        await self.attrs(d, 'mc')
        await self._after_unlink(node)
        self.label('unlink')

    async def op_rmdir(self, pi):
        ents = [p for p in self.model.paths() if p[2].kind == 'd']
        e = self.sel(ents, pi)
        if e is None:
            return
        d, name, node = e
        await self.ensure(d)
        await self.ensure(node)
        if node.locked and not d.locked and not node.entries:
            return  # whether the root of a locked tree may be removed this way is not specified
        self.begin()
        exp = None
        if d.locked or node.locked and node.entries:
            exp = (errno.EPERM,) + ((errno.ENOTEMPTY,) if node.entries else ())
        elif node.entries:
            exp = (errno.ENOTEMPTY,)
        await self.call(exp, 'rmdir', self.ops.rmdir(d.ino, name, self.ctx))
        if exp:
            await self.attrs(node)
            await self.attrs(d)
            self.label('rmdir-refused')
            return
        del d.entries[name]
        self._unlinked(node)
        await self.attrs(d, 'mc')
        await self._after_unlink(node)
        self.label('rmdir')

    async def op_badremove(self, di, ni, how):
        '''unlink / rmdir of missing names and of the wrong type'''
        d = self.sel(self.dirs(), di)
        name = self.sel(NAMES, ni)
        await self.ensure(d)
        node = d.entries.get(name)
        self.begin()
        if node is None:
            fn = self.ops.unlink if how % 2 else self.ops.rmdir
            exp = (errno.ENOENT,) + ((errno.EPERM,) if d.locked else ())
        elif node.kind == 'd':
            fn = self.ops.unlink
            exp = (errno.EISDIR,) + ((errno.EPERM,) if d.locked else ())
        else:
            fn = self.ops.rmdir
            exp = (errno.ENOTDIR,) + ((errno.EPERM,) if d.locked else ())
        await self.call(exp, 'removal of wrong entry', fn(d.ino, name, self.ctx))
        await self.attrs(d)
        if node is not None:
            await self.ensure(node)
            await self.attrs(node)
        self.label('bad-remove')

    async def op_longname(self, di, pi, how):
        '''Names that are too long, through every call that makes names'''
        d = self.sel(self.dirs(), di)
        name = b'L' * self.sel([256, 257, 1024, 300], pi)
        await self.ensure(d)
        ops, ctx = self.ops, self.ctx
        eno = (errno.ENAMETOOLONG,) + ((errno.EPERM,) if d.locked else ())
        await self.call((errno.ENOENT, errno.ENAMETOOLONG), 'lookup of a long name',
                        ops.lookup(d.ino, name, ctx))  # fmt: skip
        self.begin()
        touched = [d]
        how %= 6
        if how == 0:
            coro = ops.create(d.ino, name, stat.S_IFREG | 0o644, os.O_RDWR | os.O_CREAT, ctx)
        elif how == 1:
            coro = ops.mkdir(d.ino, name, stat.S_IFDIR | 0o755, ctx)
        elif how == 2:
            coro = ops.mknod(d.ino, name, stat.S_IFIFO | 0o644, 0, ctx)
        elif how == 3:
            coro = ops.symlink(d.ino, name, b'x', ctx)
        elif how == 4:
            node = self.sel(self.model.live('flpcbs'), pi)
            if node is None:
                return
            await self.ensure(node)
            touched.append(node)
            coro = ops.link(node.ino, d.ino, name, ctx)
        else:
            e = self.sel(self.model.paths(), pi)
            if e is None or e[2].kind == 'd' and d in self.model.subtree(e[2]):
                return
            await self.ensure(e[0])
            await self.ensure(e[2])
            touched += [e[0], e[2]]
            if e[0].locked:
                eno += (errno.EPERM,)
            coro = ops.rename(e[0].ino, e[1], d.ino, name, 0, ctx)
        await self.call(eno, 'entry with a name of %d bytes' % len(name), coro)
        for n in touched:
            await self.attrs(n)
        self.label('longname')

    async def op_rename(self, pi, di, ni):
        e = self.sel(self.model.paths(), pi)
        d2 = self.sel(self.dirs(), di)
        if e is None:
            return
        d1, name1, node = e
        name2 = self.sel(NAMES, ni)
        tgt = d2.entries.get(name2)
        # the kernel itself rejects / handles these
        if node.kind == 'd' and d2 in self.model.subtree(node):
            return
        if tgt is node:
            return
        if tgt is not None and (tgt.kind == 'd') != (node.kind == 'd'):
            return
        if tgt is not None and tgt.kind == 'd' and d1 in self.model.subtree(tgt):
            return
        for n in (d1, d2, node):
            await self.ensure(n)
        if tgt is not None:
            await self.ensure(tgt)
        self.begin()
        exp = None
        if d1.locked or d2.locked:
            exp = (errno.EPERM,)
            if tgt is not None and tgt.kind == 'd' and tgt.entries:
                exp += (errno.ENOTEMPTY,)
        elif tgt is not None and tgt.kind == 'd' and tgt.entries:
            exp = (errno.ENOTEMPTY, errno.EEXIST)
        await self.call(exp, 'rename', self.ops.rename(
            d1.ino, name1, d2.ino, name2, 0, self.ctx))  # fmt: skip
        if exp:
            for n in (d1, d2, node):
                await self.attrs(n)
            if tgt is not None:
                await self.attrs(tgt)
            self.label('rename-refused')
            return
        del d1.entries[name1]
        d2.entries[name2] = node
        if node.kind == 'd':
            node.parent = d2
        await self.attrs(d1, 'mc')
        if d2 is not d1:
            await self.attrs(d2, 'mc')
        await self.attrs(node, '', 'c')
        if tgt is not None:
            self._unlinked(tgt)
            await self._after_unlink(tgt)
            self.label('rename-replace')
        else:
            self.label('rename')

    # ------------------------------------------------------------ handles and data

    async def op_open(self, fi, how):
        node = self.sel(self.files(), fi)
        if node is None or len(self.handles) > 6:
            return
        await self.ensure(node)
        flags = self.sel([os.O_RDWR, os.O_RDONLY, os.O_WRONLY, os.O_RDWR | os.O_TRUNC], how)
        self.begin()
        if node.locked and flags != os.O_RDONLY:
            await self.call((errno.EPERM,), 'open for writing of a locked file',
                            self.ops.open(node.ino, flags, self.ctx))  # fmt: skip
            return await self.attrs(node)
        f = await self.call(None, 'open', self.ops.open(node.ino, flags, self.ctx))
        node.handles += 1
        self.handles.append((f.fh, node, flags))
        if flags & os.O_TRUNC:
            node.data = bytearray()
            await self.attrs(node, 'mc')
        else:
            await self.attrs(node)

    async def op_release(self, hi):
        if not self.handles:
            return
        fh, node, flags = self.handles.pop(hi % len(self.handles))
        await self.call(None, 'flush', self.ops.flush(fh))
        await self.call(None, 'release', self.ops.release(fh))
        node.handles -= 1
        if node.gone and node.handles == 0:
            self.label('purge-on-close')
            await self.forget(node)

    async def _handle(self, sel, write):
        '''Pick an open handle, or open a file (returns (fh, node, temporary))'''
        hs = [h for h in self.handles if not write or h[2] & (os.O_RDWR | os.O_WRONLY)]
        hs = [h for h in hs if write or not h[2] & os.O_WRONLY]
        if hs and sel % 2:
            h = hs[(sel // 2) % len(hs)]
            return h[0], h[1], False
        node = self.sel(self.files(), sel // 2)
        if node is None:
            return None, None, False
        await self.ensure(node)
        flags = os.O_RDWR if write else os.O_RDONLY
        if write and node.locked:
            await self.call((errno.EPERM,), 'open for writing of a locked file',
                            self.ops.open(node.ino, flags, self.ctx))  # fmt: skip
            return None, None, False
        f = await self.call(None, 'open', self.ops.open(node.ino, flags, self.ctx))
        return f.fh, node, True

    def _offset(self, blk, sub):
        '''Offsets around block boundaries'''
        base = (blk % 5) * self.bs if blk < 40 else (blk - 30) * self.bs
        rel = [0, 1, self.bs // 2, self.bs - 1, 37, 100][sub % 6]
        return base + rel

    def _length(self, li):
        bs = self.bs
        return [1, bs, 100, bs - 1, bs + 1, 2 * bs, 2 * bs + 37, 4096, bs // 2, 3 * bs][li % 10]

    async def op_write(self, sel, blk, sub, li, tag):
        fh, node, tmp = await self._handle(sel, True)
        if node is None:
            return
        off = self._offset(blk, sub)
        buf = pattern(tag % 8, off, self._length(li))
        self.begin()
        if node.locked:
            await self.call((errno.EPERM,), 'write to locked file', self.ops.write(fh, off, buf))
            await self.attrs(node)
        else:
            n = await self.call(None, 'write', self.ops.write(fh, off, buf))
            check(n == len(buf), 'write returned %r instead of %d', n, len(buf))
            if len(node.data) < off:
                node.data.extend(bytes(off - len(node.data)))
                self.label('sparse-write')
            node.data[off : off + len(buf)] = buf
            await self.attrs(node, 'mc')
            self.label('write')
        if tmp:
            await self.ops.release(fh)

    async def op_read(self, sel, blk, sub, li):
        fh, node, tmp = await self._handle(sel, False)
        if node is None:
            return
        off = self._offset(blk, sub)
        length = self._length(li)
        self.begin()
        buf = await self.call(None, 'read', self.ops.read(fh, off, length))
        exp = bytes(node.data[off : off + length])
        self.compare_data(node, off, buf, exp)
        await self.attrs(node, '', 'a')
        if tmp:
            await self.ops.release(fh)
        self.label('read')

    def compare_data(self, node, off, buf, exp):
        if buf == exp:
            return
        if len(buf) != len(exp):
            raise Violation('read of node %d at %d returned %d bytes instead of %d'
                            % (node.serial, off, len(buf), len(exp)))  # fmt: skip
        i = [a == b for a, b in zip(buf, exp)].index(False)
        raise Violation('read of node %d returned wrong data at offset %d: %r instead of %r'
                        % (node.serial, off + i, bytes(buf[i : i + 8]), exp[i : i + 8]))  # fmt: skip

    async def op_truncate(self, fi, blk, sub, viafh):
        import pyfuse3

        node = self.sel(self.files(), fi)
        fh = None
        if viafh % 3 == 2 and self.handles:
            fh, node, flags = self.sel(self.handles, fi)
            if not flags & (os.O_RDWR | os.O_WRONLY):
                return
        if node is None:
            return
        await self.ensure(node)
        size = self._offset(blk, sub)
        attr = pyfuse3.EntryAttributes()
        attr.st_size = size
        attr.st_mtime_ns = vtime.now_ns()
        self.begin()
        f = Fields(size=True, mtime=True)
        if node.locked:
            await self.call((errno.EPERM,), 'truncate of locked file',
                            self.ops.setattr(node.ino, attr, f, fh, self.ctx))  # fmt: skip
            return await self.attrs(node)
        res = await self.call(None, 'truncate',
                              self.ops.setattr(node.ino, attr, f, fh, self.ctx))  # fmt: skip
        if size < len(node.data):
            del node.data[size:]
            self.label('truncate-shrink')
        else:
            node.data.extend(bytes(size - len(node.data)))
            self.label('truncate-extend')
        node.mtime = attr.st_mtime_ns
        self.compare_attr(node, res, 'c')
        await self.attrs(node)

    async def op_setattr(self, ni, what, val):
        import pyfuse3

        node = self.sel(self.model.live(), ni)
        await self.ensure(node)
        attr = pyfuse3.EntryAttributes()
        f = Fields()
        what = what % 16 or 4
        new = {}
        if what & 1:
            new['mode'] = attr.st_mode = stat.S_IFMT(node.mode) | self.sel(PERMS, val)
            f.update_mode = True
        if what & 2:
            new['uid'] = attr.st_uid = self.sel([0, 7, 4294967294], val)
            new['gid'] = attr.st_gid = self.sel([5, 0, 4294967294], val)
            f.update_uid = f.update_gid = True
        tv = self.sel([0, 1, -1, 10**18 + 7, 2**63 - 1, -(2**62), 999999999], val)
        if what & 4:
            new['atime'] = attr.st_atime_ns = tv
            f.update_atime = True
        if what & 8:
            new['mtime'] = attr.st_mtime_ns = tv // 2
            f.update_mtime = True
        self.begin()
        if node.locked:
            await self.call((errno.EPERM,), 'setattr on locked node',
                            self.ops.setattr(node.ino, attr, f, None, self.ctx))  # fmt: skip
            return await self.attrs(node)
        res = await self.call(None, 'setattr',
                              self.ops.setattr(node.ino, attr, f, None, self.ctx))  # fmt: skip
        for k, v in new.items():
            setattr(node, k, v)
        self.compare_attr(node, res, 'c')
        await self.attrs(node)
        self.label('setattr')

    # ------------------------------------------------------------ extended attributes

    async def op_setxattr(self, ni, xi, vi):
        node = self.sel(self.model.live(), ni)
        name = self.sel(XNAMES, xi)
        val = self.sel([b'v', b'', b'\x00\xff' * 20, b'w' * 3000], vi)
        await self.ensure(node)
        self.begin()
        if node.locked:
            await self.call((errno.EPERM,), 'setxattr on locked node',
                            self.ops.setxattr(node.ino, name, val, self.ctx))  # fmt: skip
            return await self.attrs(node)
        await self.call(None, 'setxattr', self.ops.setxattr(node.ino, name, val, self.ctx))
        if name in node.xattr:
            self.label('xattr-replace')
        node.xattr[name] = val
        await self.attrs(node, 'c')
        self.label('setxattr')

    async def op_removexattr(self, ni, xi):
        import pyfuse3

        node = self.sel(self.model.live(), ni)
        name = self.sel(XNAMES, xi)
        await self.ensure(node)
        self.begin()
        exp = None
        if node.locked:
            exp = (errno.EPERM,)
        elif name not in node.xattr:
            exp = (pyfuse3.ENOATTR,)
            self.label('removexattr-missing')
        await self.call(exp, 'removexattr', self.ops.removexattr(node.ino, name, self.ctx))
        if exp is None:
            del node.xattr[name]
            await self.attrs(node, 'c')
            self.label('removexattr')
        else:
            await self.attrs(node)
        await self.check_xattr(node)

    async def check_xattr(self, node):
        import pyfuse3

        names = await self.call(None, 'listxattr', self.ops.listxattr(node.ino, self.ctx))
        check(sorted(names) == sorted(node.xattr), 'node %d: xattrs %r, expected %r',
              node.serial, sorted(names), sorted(node.xattr))  # fmt: skip
        for n in sorted(node.xattr):
            v = await self.call(None, 'getxattr', self.ops.getxattr(node.ino, n, self.ctx))
            check(v == node.xattr[n], 'node %d: xattr %r differs', node.serial, n)
        for n in XNAMES:
            if n not in node.xattr:
                await self.call((pyfuse3.ENOATTR,), 'getxattr of missing attribute',
                                self.ops.getxattr(node.ino, n, self.ctx))  # fmt: skip

    # ------------------------------------------------------------ cache control, time

    async def ctrl(self, name, value=b'dummy', expect=None):
        attr = await self.lookup(ROOT, CTRL_NAME)
        check(attr.st_ino == CTRL_INODE, 'control inode is %d', attr.st_ino)
        await self.call(expect, 'control command %s' % name.decode(),
                        self.ops.setxattr(CTRL_INODE, name, value, self.ctx))  # fmt: skip

    async def op_sync(self):
        await self.ctrl(b's3ql_flushcache!')
        self.label('sync')

    async def op_drop(self):
        await self.ctrl(b's3ql_dropcache!')
        self.label('dropcache')

    async def op_drops(self, n, waits):
        '''Several overlapping requests to drop the cache'''
        import trio

        async with trio.open_nursery() as nursery:
            for i in range(n):
                nursery.start_soon(self.op_drop)
                for _ in range(waits[i] if i < len(waits) else 0):
                    await trio.lowlevel.checkpoint()
        self.label('overlapping drops')

    async def op_fsync(self, fi, ds):
        node = self.sel(self.files(), fi)
        if node is None:
            return
        await self.ensure(node)
        await self.call(None, 'fsync', self.ops.fsync(node.ino, bool(ds % 2)))

    async def op_sleep(self, n):
        import trio

        await trio.sleep([0.5, 6, 12, 40][n % 4])

    async def op_upmeta(self):
        import trio

        await self.ctrl(b'upload-meta')
        await trio.sleep(1)
        self.label('upload-meta')

    async def op_cachesize(self, n):
        await self.ctrl(b'cachesize', str([0, self.bs, 4 * self.bs, 10**9][n % 4]).encode())

    async def op_forget(self, ni):
        node = self.sel(self.model.live('flpcbs'), ni)
        if node is None or node.handles:
            return
        await self.forget(node)
        self.label('forget')

    async def op_forgetall(self):
        for n in reversed(self.model.live('flpcbs')):
            if not n.handles:
                await self.forget(n)

    async def op_lookup(self, di, ni):
        d = self.sel(self.dirs(), di)
        await self.ensure(d)
        name = self.sel(NAMES, ni)
        if await self._exists(d, name):
            attr = await self.call(None, 'lookup', self.ops.lookup(d.ino, name, self.ctx))
            self.got(attr.st_ino)
            self.begin()
            self.compare_attr(d.entries[name], attr)

    async def op_renflags(self, pi, ti, flags):
        '''renameat2() onto something that exists: never replaces (1) or is atomic (2)'''
        paths = self.model.paths()
        a, b = self.sel(paths, pi), self.sel(paths, ti)
        if a is None or a[2] is b[2] or a[2].kind == 'd' or b[2].kind == 'd':
            return
        for n in (a[0], b[0], a[2], b[2]):
            await self.ensure(n)
        flag = [1, 2, 1, 4, 3, 8, 1 << 30, 2][flags % 8]
        await self.call((errno.ENOTSUP, errno.EINVAL, errno.ENOSYS, errno.EEXIST, errno.EPERM),
                        'rename with flags %d' % flag,
                        self.ops.rename(a[0].ino, a[1], b[0].ino, b[1], flag, self.ctx))  # fmt: skip
        self.begin()
        for d, name, n in (a, b):
            attr = await self.call(None, 'lookup', self.ops.lookup(d.ino, name, self.ctx))
            self.got(attr.st_ino)
            self.compare_attr(n, attr)
        self.label('rename-flags')

    async def op_dots(self, ni, k):
        '''Lookups by inode, as done by the kernel for NFS clients'''
        live = self.model.live()
        seen = self.__dict__.setdefault('inos_seen', set())
        seen.update(n.ino for n in live if n.ino)
        if k % 4 == 0:
            dead = seen - {n.ino for n in live} - {i for i, n in self.looked.items() if n > 0}
            ino = self.sel(sorted(dead), ni) if dead else 10**6 + ni
            await self.call((errno.ENOENT, errno.ESTALE), 'lookup of . in removed inode %d' % ino,
                            self.ops.lookup(ino, b'.', self.ctx))  # fmt: skip
            self.label('dots-removed')
            return
        if k % 4 == 1:
            node = self.sel(self.dirs(), ni)
            path = self.model.path_of(node)
            want, name = (path[-1][0] if path else node), b'..'
        else:
            node = want = self.sel(live, ni)
            name = b'.'
        if not node.ino or not want.ino:
            return
        attr = await self.call(None, 'lookup of %r in inode %d' % (name, node.ino),
                               self.ops.lookup(node.ino, name, self.ctx))  # fmt: skip
        if want is self.model.root:
            await self.ops.forget([(want.ino, 1)])
        else:
            self.got(attr.st_ino)
        self.begin()
        self.compare_attr(want, attr)
        self.label('dots')

    async def op_walk(self):
        await self.walk()

    async def op_cyield(self, n):
        import trio

        for _ in range(n % 4):
            await trio.lowlevel.checkpoint()

    # ------------------------------------------------------------ snapshots etc.

    async def op_copy(self, si, di, ni):
        '''What s3qlcp does: mkdir the target, then trigger the replication'''
        live = self.dirs()
        cand = live[1:]
        if si % 8:
            cand = [n for n in cand if n.entries] or cand
        src = self.sel(cand, si // 2)
        if src is None or len(self.model.live()) > 60:
            return
        inside = self.model.subtree(src)
        d = self.sel([n for n in live if n not in inside and not n.locked], di)
        if d is None:
            return
        free = [n for n in NAMES if n not in d.entries]
        if not free:
            return
        name = self.sel(free, ni)
        await self.ensure(src)
        await self.ensure(d)
        if await self._exists(d, name):
            return
        await self.replicate(src, d, name)

    async def replicate(self, src, d, name):
        self.begin()
        mode = stat.S_IFDIR | 0o755
        node = self._newnode(d, name, 'd', mode, self.ctx)
        attr = await self.call(None, 'mkdir', self.ops.mkdir(d.ino, name, mode, self.ctx))
        await self._created(d, name, node, attr)
        await self.before_copy(src)
        # attributes as of now (copying does not change the source)
        await self.ctrl(b'copy', ('(%d, %d)' % (src.ino, node.ino)).encode())
        await self.attrs(src, '', 'a')
        for a in ('mode', 'uid', 'gid', 'atime', 'mtime', 'ctime'):
            setattr(node, a, getattr(src, a))
        await self.attrs(node)
        copies = {}

        def dup(s, target):
            for nm in sorted(s.entries):
                c = s.entries[nm]
                if c.serial in copies:
                    copies[c.serial].nlink += 1
                    target.entries[nm] = copies[c.serial]
                    self.label('copied-hardlink')
                    continue
                n = self.model.new(c.kind, c.mode, c.uid, c.gid, c.rdev)
                n.data = bytearray(c.data)
                n.target = c.target
                n.xattr = dict(c.xattr)
                n.atime, n.mtime, n.ctime = c.atime, c.mtime, c.ctime
                n.lost = c.lost
                copies[c.serial] = n
                self.model.nodes.append(n)
                target.entries[nm] = n
                if c.kind == 'd':
                    n.parent = target
                    dup(c, n)

        dup(src, node)
        await self.learn(node)
        self.label('copy')
        if copies:
            self.label('copy-nonempty')
        return node

    async def before_copy(self, src):
        pass

    async def learn(self, d):
        '''Learn the inode numbers below *d* (and compare everything on the way)'''
        self.begin()
        await self.walk(d, learn=True)

    async def op_lock(self, si):
        live = self.dirs()
        node = self.sel(live[1:], si)
        if node is None:
            return
        await self.ensure(node)
        await self.ctrl(b'lock', b'%d' % node.ino)
        for n in self.model.subtree(node):
            n.locked = True
        self.label('lock')

    async def op_rmtree(self, pi):
        e = self.sel(self.model.paths(), pi)
        if e is None:
            return
        d, name, node = e
        await self.ensure(d)
        await self.ensure(node)
        self.begin()
        cmd = ('(%d, %r)' % (d.ino, name)).encode()
        if d.locked:
            await self.ctrl(b'rmtree', cmd, expect=(errno.EPERM,))
            await self.attrs(d)
            await self.attrs(node)
            return
        tree = self.model.subtree(node)
        before = {n.serial: n.nlink for n in tree}
        if len(tree) > 1:
            self.label('rmtree-nonempty')
        if any(n.locked for n in tree):
            self.label('rmtree-locked')
        await self.ctrl(b'rmtree', cmd)
        del d.entries[name]

        def rm(n):
            n.nlink -= 1
            if n.kind == 'd':
                for c in list(n.entries.values()):
                    rm(c)
                n.entries.clear()
            if n.nlink == 0:
                n.gone = True

        rm(node)
        await self.attrs(d, 'mc')
        for n in tree:
            if n.gone:
                if n.handles:
                    await self.attrs(n, 'c', 'm')
                else:
                    await self.forget(n)
            elif n.nlink != before[n.serial]:
                await self.ensure(n)
                await self.attrs(n, 'c')
        self.label('rmtree')

    # ------------------------------------------------------------ full comparison

    async def readdir(self, d, chunk):
        '''All entries, fetched *chunk* at a time like the kernel does'''
        fh = await self.call(None, 'opendir', self.ops.opendir(d.ino, self.ctx))
        out = []
        off = 0
        while True:
            got = []

            def token(name, attr, next_, got=got):
                if len(got) >= chunk:
                    return False
                got.append((name, attr, next_))
                return True

            await self.call(None, 'readdir', self.ops.readdir(fh, off, token))
            for name, attr, next_ in got:
                self.got(attr.st_ino)
                out.append((name, attr))
                check(next_ > 2, 'readdir offset %d is reserved', next_)
            if not got:
                break
            check(got[-1][2] != off, 'readdir does not advance')
            off = got[-1][2]
            check(len(out) < 5000, 'readdir does not end')
        await self.call(None, 'releasedir', self.ops.releasedir(fh))
        return out

    async def walk(self, top=None, learn=False, chunk=3, contents=True):
        top = top or self.model.root
        stack = [top]
        seen = set()
        while stack:
            d = stack.pop()
            await self.ensure(d)
            self.begin()
            ents = await self.readdir(d, chunk)
            if d is self.model.root:
                ents = [e for e in ents if e[0] != b'lost+found']
            names = [e[0] for e in ents]
            check(sorted(names) == sorted(d.entries), 'directory %d lists %r, expected %r',
                  d.serial, sorted(names), sorted(d.entries))  # fmt: skip
            await self.attrs(d, '', 'a')
            for name, attr in sorted(ents, key=lambda e: e[0]):
                c = d.entries[name]
                if learn and c.ino is None:
                    check(attr.st_ino not in {n.ino for n in self.model.nodes if not n.gone},
                          'copy shares inode %d', attr.st_ino)  # fmt: skip
                    c.ino = attr.st_ino
                check(c.ino == attr.st_ino, '%r in directory %d is inode %d, expected %d',
                      name, d.serial, attr.st_ino, c.ino)  # fmt: skip
                self.compare_attr(c, attr)
            for name in sorted(d.entries):
                c = d.entries[name]
                if c.kind == 'd':
                    stack.append(c)
                if c.serial in seen:
                    continue
                seen.add(c.serial)
                if c.kind == 'l':
                    t = await self.call(None, 'readlink', self.ops.readlink(c.ino, self.ctx))
                    check(t == c.target, 'symlink target %r, expected %r', t, c.target)
                    await self.attrs(c, '', 'a')
                elif c.kind == 'f' and contents:
                    await self.check_content(c)
                await self.check_xattr(c)
        return True

    async def check_content(self, c):
        f = await self.call(None, 'open', self.ops.open(c.ino, os.O_RDONLY, self.ctx))
        self.begin()
        off = 0
        step = 3 * self.bs + 11
        while off < len(c.data) or off == 0:
            buf = await self.call(None, 'read', self.ops.read(f.fh, off, step))
            self.compare_data(c, off, buf, bytes(c.data[off : off + step]))
            off += step
        await self.attrs(c, '', 'a')
        await self.ops.release(f.fh)

    # ------------------------------------------------------------ running

    async def start(self, ops):
        '''Begin of a mount session'''
        self.ops = ops
        self.looked = {}
        self.handles = []
        for n in self.model.nodes:
            n.handles = 0
        if self.model.root.atime is None:
            attr = await ops.getattr(ROOT, self.ctx)
            r = self.model.root
            r.atime, r.mtime, r.ctime = attr.st_atime_ns, attr.st_mtime_ns, attr.st_ctime_ns
            r.mode, r.uid, r.gid = attr.st_mode, attr.st_uid, attr.st_gid

    async def step(self, op):
        fn = getattr(self, 'op_' + op[0], None)
        if fn is None:
            raise HarnessError('unknown op %r' % (op,))
        await fn(*op[1:])

    async def finish_session(self):
        '''Before unmount: the kernel closes all files and forgets everything'''
        while self.handles:
            await self.op_release(0)

    def segments(self, ops):
        seg = []
        for op in ops:
            if op[0] == 'remount':
                yield seg, op
                seg = []
            else:
                seg.append(op)
        yield seg, None


def patch_icache(size):
    '''Shrink the inode attribute cache so that generated trees exceed it'''
    try:
        from s3ql import inode_cache
    except ImportError:
        return
    if hasattr(inode_cache, 'CACHE_SIZE'):
        inode_cache.CACHE_SIZE = size


def extstat(buf):
    return struct.unpack('QQQQQQQQQQQQ', buf)


def use_schedule(cfg):
    set_sched(Sched(cfg.get('sched', 0), cfg.get('delays', ())))
