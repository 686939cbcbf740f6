'''C17: lost or corrupted data is reported, never replaced by wrong data.'''

import errno
import os
import shutil
import stat

from checks.C11 import mutate
from checks.C18 import mutation
from harness import env, inspect, objects
from harness.core import Part, Property, Violation, check
from harness.fsdrive import CTRL_INODE, CTRL_NAME, ROOT, Fields
from harness.session import FsDriver, make_world, run_history
from harness.tree import mount_tree

BUILD = {'create': 8, 'mkdir': 3, 'symlink': 1, 'link': 3, 'write': 16, 'truncate': 2, 'copy': 3,
         'setxattr': 1, 'rename': 1, 'sync': 1, 'sleep': 1, 'unlink': 1}  # fmt: skip
PLAIN = {'create': 3, 'mkdir': 2, 'symlink': 1, 'link': 2, 'unlink': 2, 'rename': 2, 'rmdir': 1, 'setxattr': 1,
         'setattr': 1, 'open': 3, 'release': 2, 'copy': 2, 'rmtree': 1, 'forget': 2, 'lock': 1}  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    sel, blk, sub, ln = st.integers(0, 31), st.integers(0, 4), st.integers(0, 5), st.integers(0, 9)

    def t(name, *args):
        return st.tuples(st.just(name), *args).map(list)

    damage = t('damage', st.lists(st.tuples(st.integers(0, 40), mutation()).map(list), min_size=1, max_size=4))
    op = st.one_of(
        t('rd', sel, blk, sub, ln), t('rd', sel, blk, sub, ln), t('rd', sel, blk, sub, ln), t('rdall', sel),
        t('wr', sel, blk, sub, ln), t('wr', sel, blk, sub, ln), t('tr', sel, blk, sub), t('trunc0', sel),
        fsops.op_mix(PLAIN), fsops.op_mix(PLAIN), t('blocked', st.integers(0, 15), sel),
        t('drop'), t('sync'), t('sleep', st.integers(0, 3)), t('fsync', sel, st.integers(0, 1)),
        t('look', sel), t('cachesize', st.integers(0, 3)),
    )  # fmt: skip
    ops = st.lists(op, max_size=25)
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(compress=st.sampled_from(objects.ALGS)),
        'build': fsops.op_list(BUILD, 6, 30),
        'before': st.one_of(st.just([]), ops), 'damage': damage, 'after': ops,
        'second': st.one_of(st.none(), st.tuples(damage, ops).map(list)),
        'keep': st.booleans(), 'drop': st.booleans(),
    })  # fmt: skip


class Blocked(Exception):
    pass


def canon(block):
    return bytes(block).rstrip(b'\0')


class Driver(FsDriver):
    def __init__(self, w, cfg, info):
        super().__init__(w, cfg, info)
        self.mode = 'ok'  # 'maybe': may have become read-only, 'ro': is read-only
        self.deps = {}  # serial -> {blockno: set of possible objects}; weak ones are not certain
        self.weak = set()  # (serial, blockno)
        self.cached = set()  # (serial, blockno) that may be in the cache
        self.bad = {}  # object -> 'missing' | 'corrupted'
        self.known = {}  # canonical content -> object ids
        self.changed = False
        self.count = 0
        self.eio = 0

    # ---- calls that may be refused

    async def call(self, expect, what, coro):
        try:
            return await super().call(expect, what, coro)
        except Violation:
            if self.mode == 'maybe' and getattr(self, 'eno', None) == errno.EPERM:
                raise Blocked from None
            raise

    async def replicate(self, src, d, name):
        node = await super().replicate(src, d, name)

        def rec(s, t):
            for n in s.entries:
                a, b = s.entries[n], t.entries[n]
                self.deps[b.serial] = {k: set(v) for k, v in self.deps.get(a.serial, {}).items()}
                self.weak.update((b.serial, k) for x, k in list(self.weak) if x == a.serial)
                if a.kind == 'd':
                    rec(a, b)

        rec(src, node)
        return node

    async def check_content(self, c):
        pass

    # ---- state of blocks

    def may(self, node, b):
        return any(i in self.bad for i in self.deps.get(node.serial, {}).get(b, ()))

    def must(self, node, b):
        k = (node.serial, b)
        return self.may(node, b) and k not in self.weak and k not in self.cached

    def changed_block(self, node, b):
        '''Contents of block *b* are new'''
        ids = self.known.get(canon(node.data[b * self.bs:(b + 1) * self.bs]), ())
        self.cached.add((node.serial, b))
        dep = self.deps.setdefault(node.serial, {})
        if ids:
            dep[b] = set(ids) | dep.get(b, set())
            self.weak.add((node.serial, b))
        else:
            dep.pop(b, None)

    def touch(self, node, blocks=None):
        '''References to objects are going to be dropped'''
        self.changed = True
        for b, ids in self.deps.get(node.serial, {}).items():
            if blocks is None or b in blocks:
                if self.mode == 'ok' and any(self.bad.get(i) == 'missing' for i in ids):
                    self.mode = 'maybe'

    def failed(self, what):
        self.mode = 'ro'
        self.eio += 1
        self.label('eio-' + what)

    # ---- data calls

    def blocks(self, off, length):
        return list(range(off // self.bs, (off + length - 1) // self.bs + 1)) if length > 0 else []

    async def read_at(self, fh, node, off, length):
        exp = bytes(node.data[off:off + length])
        bl = self.blocks(off, len(exp))
        bad = [b for b in bl if self.may(node, b)]
        must = [b for b in bl if self.must(node, b)]
        what = 'read of node %d at %d (%d bytes)' % (node.serial, off, length)
        self.begin()
        if not bad:
            buf = await self.call(None, what, self.ops.read(fh, off, length))
        elif must:
            await self.call((errno.EIO,), what + ' that needs damaged data', self.ops.read(fh, off, length))
            buf = None
        else:
            from pyfuse3 import FUSEError

            try:
                buf = await self.ops.read(fh, off, length)
            except FUSEError as exc:
                check(exc.errno_ == errno.EIO, '%s fails with %s', what, exc)
                buf = None
        if buf is None:
            self.failed('read')
            # every candidate up to the first certain one
            cand = bad[:bad.index(must[0]) + 1] if must else bad
            if len(cand) == 1:
                self.cached.discard((node.serial, cand[0]))
            stop = cand[-1]
            self.cached.update((node.serial, b) for b in bl if b < stop)
            return False
        self.compare_data(node, off, buf, exp)
        self.cached.update((node.serial, b) for b in bl)
        if bad:
            self.label('read-from-cache')
        return True

    async def op_rd(self, sel, blk, sub, li):
        fh, node, tmp = await self._handle(sel, False)
        if node is None:
            return
        await self.read_at(fh, node, self._offset(blk, sub), self._length(li))
        if tmp:
            await self.ops.release(fh)

    async def op_rdall(self, sel):
        node = self.sel(self.files(), sel)
        if node is not None:
            await self.readfile(node)

    async def readfile(self, node):
        await self.ensure(node)
        f = await self.call(None, 'open', self.ops.open(node.ino, os.O_RDONLY, self.ctx))
        for b in range((len(node.data) + self.bs - 1) // self.bs):
            await self.read_at(f.fh, node, b * self.bs, self.bs)
        await self.ops.release(f.fh)
        await self.attrs(node)

    def fresh(self, n):
        self.count += 1
        unit = b'<%d new data>' % self.count
        return (unit * (n // len(unit) + 1))[:n]

    async def op_wr(self, sel, blk, sub, li):
        hs = [h for h in self.handles if h[2] & (os.O_RDWR | os.O_WRONLY) and not h[1].locked]
        if self.mode == 'ro':
            if not hs:
                return await self.op_blocked(0, sel)
            fh, node, _ = self.sel(hs, sel // 2)
            await self.call((errno.EPERM,), 'write after an I/O error', self.ops.write(fh, 0, b'x'))
            return
        fh, node, tmp = await self._handle(sel, True)
        if node is None:
            return
        if node.locked:
            if tmp:
                await self.ops.release(fh)
            return
        off = self._offset(blk, sub)
        n = self._length(li)
        if any(self.may(node, b) for b in self.blocks(off, n)):
            n = min(n, self.bs - off % self.bs)
        buf = self.fresh(n)
        b = off // self.bs
        what = 'write to node %d at %d (%d bytes)' % (node.serial, off, n)
        bl = self.blocks(off, n)
        full = off % self.bs == 0 and n == self.bs
        ok = True
        self.touch(node, bl)
        if not self.may(node, b):
            await self.call(None, what, self.ops.write(fh, off, buf))
        else:
            from pyfuse3 import FUSEError

            try:
                await self.ops.write(fh, off, buf)
                check(not self.must(node, b) or full, '%s succeeds although the rest of the block is damaged', what)
            except FUSEError as exc:
                if exc.errno_ == errno.EPERM and self.mode == 'maybe':
                    raise Blocked from None
                check(exc.errno_ == errno.EIO, '%s fails with %s', what, exc)
                self.failed('write')
                self.cached.discard((node.serial, b))
                ok = False
        if ok:
            if len(node.data) < off:
                node.data.extend(bytes(off - len(node.data)))
            node.data[off:off + n] = buf
            for x in bl:
                self.changed_block(node, x)
            self.label('write')
        await self.attrs(node)
        if tmp:
            await self.ops.release(fh)

    async def op_tr(self, sel, blk, sub):
        import pyfuse3

        node = self.sel([n for n in self.files() if not n.locked], sel)
        if node is None:
            return
        await self.ensure(node)
        size = self._offset(blk, sub)
        attr = pyfuse3.EntryAttributes()
        attr.st_size = size
        f = Fields(size=True)
        what = 'truncation of node %d from %d to %d' % (node.serial, len(node.data), size)
        if self.mode == 'ro':
            return await self.call((errno.EPERM,), what + ' after an I/O error',
                                   self.ops.setattr(node.ino, attr, f, None, self.ctx))  # fmt: skip
        b = size // self.bs if size % self.bs else None
        self.touch(node, [x for x in self.deps.get(node.serial, ()) if x >= size // self.bs])
        done = True
        if b is None or not self.may(node, b):
            await self.call(None, what, self.ops.setattr(node.ino, attr, f, None, self.ctx))
        else:
            try:
                await self.ops.setattr(node.ino, attr, f, None, self.ctx)
                check(not self.must(node, b), '%s succeeds although the last block is damaged', what)
            except pyfuse3.FUSEError as exc:
                if exc.errno_ == errno.EPERM and self.mode == 'maybe':
                    raise Blocked from None
                check(exc.errno_ == errno.EIO, '%s fails with %s', what, exc)
                self.failed('truncate')
                self.cached.discard((node.serial, b))
                got = await self.ops.getattr(node.ino, self.ctx)
                if got.st_size != size:
                    return await self.attrs(node)
                done = False
        old = bytes(node.data)
        if size < len(node.data):
            del node.data[size:]
        else:
            node.data.extend(bytes(size - len(node.data)))
        self.cut(node, size)
        if b is not None and done:
            if canon(old[b * self.bs:(b + 1) * self.bs]) != canon(node.data[b * self.bs:]) or not self.deps.get(
                node.serial, {}).get(b):  # fmt: skip
                self.changed_block(node, b)
            else:
                # may have got another object with fewer or more zeros
                self.weak.add((node.serial, b))
                self.cached.add((node.serial, b))
        await self.attrs(node)

    def cut(self, node, size):
        dep = self.deps.get(node.serial, {})
        for x in [x for x in dep if x * self.bs >= size]:
            del dep[x]
        self.cached -= {k for k in self.cached if k[0] == node.serial and k[1] * self.bs >= size}
        self.weak -= {k for k in self.weak if k[0] == node.serial and k[1] * self.bs >= size}

    async def op_trunc0(self, sel):
        node = self.sel([n for n in self.files() if not n.locked], sel)
        if node is None:
            return
        await self.ensure(node)
        fl = os.O_RDWR | os.O_TRUNC
        if self.mode == 'ro':
            await self.call((errno.EPERM,), 'open with O_TRUNC after an I/O error',
                            self.ops.open(node.ino, fl, self.ctx))  # fmt: skip
            return await self.attrs(node)
        self.touch(node)
        f = await self.call(None, 'open with O_TRUNC', self.ops.open(node.ino, fl, self.ctx))
        await self.ops.release(f.fh)
        del node.data[:]
        self.cut(node, 0)
        await self.attrs(node)

    # ---- others

    async def op_drop(self):
        await super().op_drop()
        self.cached.clear()

    async def op_look(self, sel):
        '''Everything but contents stays available'''
        await self.walk()

    async def op_blocked(self, how, sel):
        if self.mode != 'ro':
            return
        c, ops = self.ctx, self.ops
        live = self.model.live()
        d = self.sel([n for n in live if n.kind == 'd' and not n.locked], sel)
        node = self.sel([n for n in live if n is not self.model.root and not n.locked], sel)
        e = self.sel([p for p in self.model.paths() if not p[0].locked], sel)
        await self.ensure(d)
        new = b'new name'
        import pyfuse3

        attr = pyfuse3.EntryAttributes()
        attr.st_mode, attr.st_mtime_ns, attr.st_uid = stat.S_IFREG | 0o600, 1, 7
        calls = {
            'create': lambda: ops.create(d.ino, new, stat.S_IFREG | 0o644, os.O_RDWR | os.O_CREAT, c),
            'mkdir': lambda: ops.mkdir(d.ino, new, stat.S_IFDIR | 0o755, c),
            'mknod': lambda: ops.mknod(d.ino, new, stat.S_IFIFO | 0o644, 0, c),
            'symlink': lambda: ops.symlink(d.ino, new, b'x', c),
        }
        if node is not None:
            await self.ensure(node)
            calls['setxattr'] = lambda: ops.setxattr(node.ino, b'user.new', b'x', c)
            for k in node.xattr:
                calls['removexattr'] = lambda k=k: ops.removexattr(node.ino, k, c)
            calls['setattr'] = lambda: ops.setattr(node.ino, attr, Fields(uid=True, mtime=True), None, c)
            if node.kind != 'd':
                calls['link'] = lambda: ops.link(node.ino, d.ino, new, c)
            if node.kind == 'f':
                calls['open'] = lambda: ops.open(node.ino, os.O_RDWR, c)
                calls['open2'] = lambda: ops.open(node.ino, os.O_WRONLY, c)
            if node.kind == 'd':
                calls['lock'] = lambda: ops.setxattr(CTRL_INODE, b'lock', b'%d' % node.ino, c)
                calls['copy'] = lambda: ops.setxattr(CTRL_INODE, b'copy', b'(%d, %d)' % (node.ino, d.ino), c)
        if e is not None:
            p, name, x = e
            await self.ensure(p)
            await self.ensure(x)
            if x.kind != 'd':
                calls['unlink'] = lambda: ops.unlink(p.ino, name, c)
            elif not x.entries:
                calls['rmdir'] = lambda: ops.rmdir(p.ino, name, c)
            calls['rename'] = lambda: ops.rename(p.ino, name, self.model.root.ino, new, 0, c)
            calls['rmtree'] = lambda: ops.setxattr(CTRL_INODE, b'rmtree', ('(%d, %r)' % (p.ino, name)).encode(), c)
        await self.lookup(ROOT, CTRL_NAME)
        which = self.sel(sorted(calls), how)
        self.label('refused-' + which)
        await self.call((errno.EPERM,), '%s after an I/O error' % which, calls[which]())

    async def op_rmtree(self, pi):
        e = self.sel(self.model.paths(), pi)
        if e is not None and not e[0].locked:
            for n in self.model.subtree(e[2]):
                self.touch(n)
        await super().op_rmtree(pi)

    async def guarded(self, op):
        '''Calls of the generic driver'''
        if op[0] in PLAIN and op[0] not in ('release', 'forget', 'open'):
            if self.mode == 'ro':
                return await self.op_blocked(op[1] if len(op) > 1 else 0, op[-1])
            if self.mode == 'maybe' and op[0] == 'copy':
                return
        if op[0] == 'open':
            if self.mode == 'ro':
                op = [op[0], op[1], 1]
            elif op[2] % 4 == 3:
                op = [op[0], op[1], 0]
        if op[0] in ('unlink', 'rename'):
            # may drop the last reference
            for n in self.files():
                self.touch(n)
        if op[0] == 'lock' and self.mode == 'maybe':
            return
        try:
            await self.step(op)
        except Blocked:
            self.mode = 'ro'

    # ---- damage

    def op_damage_now(self, plan, keys):
        for i, (state, raw) in plan.items():
            path = keys['s3ql_data_%d' % i]
            if not os.path.exists(path) or i in self.bad:
                continue
            if state == 'missing':
                os.unlink(path)
                if self.changed and self.mode == 'ok':
                    self.mode = 'maybe'
            else:
                with open(path, 'wb') as fh:
                    fh.write(raw)
            self.bad[i] = state
            self.label(state)


def plan_damage(w, lists, ids):
    '''What to do to which object; only what a reader can detect. -> [{id: (state, bytes)}]'''
    from s3ql.backends.common import CorruptedObjectError

    work = os.path.join(w.root, 'work')
    shutil.copytree(w.be, work)
    keys = inspect.local_keys(work)
    raws = {}
    for i in ids:
        with open(keys['s3ql_data_%d' % i], 'rb') as fh:
            raws[i] = fh.read()
    out = []

    async def main():
        pb = await objects.stack(work, None, w.compress.split('-')[0], 6)
        await pb.store('plain', b'plain text', {'a': 1})
        with open(inspect.local_keys(work)['plain'], 'rb') as fh:
            plain = fh.read()
        be, w.be = w.be, work
        url, w.url = w.url, 'local://' + work
        try:
            async with await inspect.open_backend(w) as b:
                for lst in lists:
                    plan = {}
                    for k, m in lst:
                        if not ids:
                            continue
                        i = ids[k % len(ids)]
                        if m[0] == 'missing':
                            plan[i] = ('missing', None)
                            continue
                        if m[0] == 'rewrite':
                            continue
                        raw = mutate(raws[i], m, [raws[x] for x in ids], plain)
                        with open(keys['s3ql_data_%d' % i], 'wb') as fh:
                            fh.write(raw)
                        try:
                            await b.fetch('s3ql_data_%d' % i)
                        except CorruptedObjectError:
                            plan[i] = ('corrupted', raw)
                    out.append(plan)
        finally:
            w.be, w.url = be, url

    env.trio_run(main)
    return out


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = Driver(w, case['cfg'], info)
        drv.skip_times = True
        keep = ['--keep-cache'] if case['keep'] else []
        run_history(w, drv, case['build'], mount_args=keep)
        db = inspect.load_db(w.cachepath() + '.db')
        rows = {r['id']: r for r in db['objects']}
        nodes = {n.ino: n for n in drv.model.live('f')}
        for r in db['inode_blocks']:
            n = nodes[r['inode']]
            drv.deps.setdefault(n.serial, {})[r['blockno']] = {r['obj_id']}
            if case['keep']:
                drv.cached.add((n.serial, r['blockno']))
            drv.known.setdefault(canon(n.data[r['blockno'] * drv.bs:(r['blockno'] + 1) * drv.bs]), set()).add(r['obj_id'])
        lists = [case['damage'][1]] + ([case['second'][0][1]] if case['second'] else [])
        plans = plan_damage(w, lists, sorted(rows))
        keys = inspect.local_keys(w.be)

        async def driver(ops):
            await drv.start(ops)
            for op in case['before']:
                await drv.guarded(op)
            drv.op_damage_now(plans[0], keys)
            for op in case['after']:
                await drv.guarded(op)
            if case['second']:
                drv.op_damage_now(plans[1], keys)
                for op in case['second'][1]:
                    await drv.guarded(op)
            # everything that is not damaged stays readable
            for n in drv.files():
                await drv.readfile(n)
            await drv.walk()
            if drv.mode == 'ro':
                for i in range(3):
                    await drv.op_blocked(len(case['after']) * 3 + i, i)
            await drv.finish_session()
            return True

        res = w.mount(driver)
        check(res.code == 0 and res.driver, 'mount or unmount failed with exit code %r (%s)', res.code, res.exc)
        env.vtime.advance(100)
        if case['drop']:
            w.drop_cachedir()
        if drv.mode != 'ok':
            async def look(ops):
                return True

            res = w.mount(look)
            check(res.code == 30 or drv.mode == 'maybe' and res.code == 0,
                  'mount after I/O errors exits with %r instead of 30', res.code)  # fmt: skip
            if res.code == 30:
                info.label('mount-refused')
                w.after_death()
        res = w.fsck('--force')
        check(res.code in (0, 128), 'fsck exits with %r (%s)', res.code, res.exc)
        res, tree = mount_tree(w, tolerate=(errno.EIO,))
        check(res.code == 0 and tree is not None, 'mount after fsck exits with %r (%s)', res.code, res.exc)
        final(drv, tree)
        info.nontrivial = drv.eio > 0


def final(drv, tree):
    '''All that was written and is not damaged has survived'''
    byino = {e.ino: e for e in tree.values()}
    damaged = set()
    for n in drv.files():
        bl = range((len(n.data) + drv.bs - 1) // drv.bs)
        bad = {b for b in bl if drv.may(n, b)}
        if bad:
            damaged.add(n.serial)
        e = byino.get(n.ino)
        check(e is not None, 'file (node %d) is lost', n.serial)
        if e.error:
            check(bad, 'intact file (node %d) is not readable after the check', n.serial)
            continue
        check(len(e.data) == len(n.data), 'node %d has size %d after the check, expected %d', n.serial,
              len(e.data), len(n.data))  # fmt: skip
        for b in bl:
            got, exp = (x[b * drv.bs:(b + 1) * drv.bs] for x in (e.data, n.data))
            if got == exp or b in bad and not got.strip(b'\0'):
                continue
            raise Violation('node %d has wrong data in block %d after the check' % (n.serial, b))

    def rec(d, path):
        for name, n in d.entries.items():
            if n.serial in damaged:
                continue
            e = tree.get(path + b'/' + name)
            check(e is not None and e.ino == n.ino, 'intact entry %r is lost after the check', path + b'/' + name)
            if n.kind == 'd':
                rec(n, path + b'/' + name)

    rec(drv.model.root, b'')


TECHNIQUE = 'stateful model-based testing with generated damage to stored objects while the file system is in use'
NOTE = (
    'Generated trees (shared, copied and hard-linked data), then calls before and after objects are lost or '
    'damaged in ways that the stored format can detect; every read must give the exact data or EIO, '
    'depending on whether damaged data is needed and may be cached; refusal of changes and of the '
    'next mount, and recovery by fsck, are checked against the model.'
)
PROPERTY = Property(
    'C17',
    'Histories of 6-30 calls, then up to 75 calls around up to two sets of damages. Non-trivial: an I/O '
    'error was reported for damaged data.',
    [Part('damage', strategy, run, quick=150, thorough=5000)],
)
