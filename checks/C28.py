'''C28: what has been idle for the documented time survives the loss of the machine.'''

import os
import shutil
import stat
import sys

from harness import env, format
from harness.core import Part, Property, check
from harness.session import FsDriver, make_world
from harness.tree import mount_tree

# Both background tasks look for work at intervals of 5 seconds; uploading takes its time
SLACK = 15

WEIGHTS = {
    'create': 6, 'mkdir': 2, 'mknod': 1, 'symlink': 1, 'link': 2, 'unlink': 2, 'rmdir': 1,
    'rename': 2, 'open': 2, 'release': 3, 'write': 16, 'read': 4, 'truncate': 4, 'setattr': 3,
    'setxattr': 2, 'removexattr': 1, 'fsync': 1, 'forget': 1, 'copy': 2, 'rmtree': 1,
    'wait': 12, 'image': 6,
}  # fmt: skip


_waiting = []
_hooked = False


def _audit(name, args):
    if _waiting and name == 'open' and isinstance(args[0], (str, bytes)) and args[2] & (os.O_WRONLY | os.O_RDWR):
        path = os.fsdecode(args[0])
        if '/be/' in path and 's3ql_metadata' in path:
            for ev in _waiting:
                ev.set()


def strategy(intervals):
    from hypothesis import strategies as st

    from harness import fsops

    fsops.OPS['wait'] = fsops.t('wait', st.one_of(st.integers(0, 20), st.integers(0, 60), st.integers(60, 500)))
    fsops.OPS['image'] = fsops.t('image', st.integers(0, 4))
    fsops.OPS['tobackup'] = fsops.t('tobackup', st.one_of(st.integers(0, 4), st.integers(0, 30)))
    weights = {**WEIGHTS, 'tobackup': 6} if any(intervals) else WEIGHTS
    start = st.tuples(fsops.OPS['create'], fsops.OPS['write'], fsops.OPS['create'], fsops.OPS['write'])
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(), 'delay': st.sampled_from([0, 1, 10, 10, 30, 100]),
        'interval': st.sampled_from(intervals),
        'ops': st.tuples(start, fsops.op_list(weights, 3, 25)).map(lambda x: [*x[0], *x[1]]),
    })  # fmt: skip


def state(drv):
    '''What other computers should see: {path: description}'''
    out = {}
    names = {drv.model.root.serial: b''}
    for d, name, n in drv.model.paths():
        path = names[d.serial] + b'/' + name
        if n.kind == 'd':
            names[n.serial] = path
        out[path] = (n.serial, n.kind, n.mode, n.uid, n.gid, n.mtime if n.kind == 'f' else None, n.rdev,
                     bytes(n.data) if n.kind == 'f' else n.target, tuple(sorted(n.xattr.items())))  # fmt: skip
    return out


class Driver(FsDriver):
    def __init__(self, w, case, info):
        super().__init__(w, case['cfg'], info)
        self.case = case
        self.touched = {}
        self.history = []  # (time at which the state was reached, state)
        self.images = []

    def sel(self, lst, i):
        n = super().sel(lst, i)
        if hasattr(n, 'serial'):
            self.touched[n.serial] = env.vtime.now()
        return n

    async def _handle(self, sel, write):
        fh, node, tmp = await super()._handle(sel, write)
        if node is not None:
            self.touched[node.serial] = env.vtime.now()
        return fh, node, tmp

    async def step(self, op):
        await super().step(op)
        if op[0] in ('wait', 'image', 'tobackup'):
            return
        now = env.vtime.now()
        new = state(self)
        old = self.history[-1][1] if self.history else {}
        for path, v in new.items():
            if old.get(path) != v or op[0] in ('copy', 'rmtree', 'lock'):
                self.touched[v[0]] = now
        if new != old:
            self.history.append((now, new))

    async def op_wait(self, n):
        import trio

        await trio.sleep(n)
        idle = env.vtime.now() - max([t for t, _ in self.history], default=0)
        if n >= self.case['delay'] + SLACK:
            self.label('long-wait')
        self.label('idle-%s' % ('long' if idle > 100 else 'short'))
        self.uploaded()

    async def op_tobackup(self, n):
        '''Wait until metadata is being uploaded'''
        global _hooked
        import trio

        if not self.case['interval']:
            return
        if not _hooked:
            _hooked = True
            sys.addaudithook(_audit)
        ev = trio.Event()
        _waiting.append(ev)
        try:
            with trio.move_on_after(self.case['interval'] + SLACK) as scope:
                await ev.wait()
        finally:
            _waiting.remove(ev)
        if scope.cancelled_caught:
            return
        self.label('backup-in-progress')
        for _ in range(n):
            await trio.lowlevel.checkpoint()

    def uploaded(self):
        '''Every block that has not been touched for the delay must be in the backend'''
        limit = env.vtime.now() - self.case['delay'] - SLACK
        todo = [n for n in self.model.live('f') if self.touched.get(n.serial, 0) <= limit and n.data]
        if not todo:
            return
        be = self.world.be
        pw = self.world.passphrase
        keys = format.keys_of(be, partial=True)
        if pw is not None:
            pw = format.decode('s3ql_passphrase', *format.read_file(be, 's3ql_passphrase'), pw.encode())[0]
        have = set()
        for k in keys:
            if k.startswith('s3ql_data_'):
                try:
                    raw = format.read_file(be, k)
                except FileNotFoundError:
                    continue
                have.add(format.decode(k, *raw, pw)[0].rstrip(b'\0'))
        for n in todo:
            for off in range(0, len(n.data), self.bs):
                blk = bytes(n.data[off:off + self.bs]).rstrip(b'\0')
                check(not blk or blk in have,
                      'block at %d of node %d has not been touched for %d seconds (upload delay: %d) '
                      'and is not in the backend', off, n.serial,
                      env.vtime.now() - self.touched.get(n.serial, 0), self.case['delay'])  # fmt: skip
                if blk:
                    self.label('block-uploaded')
                    self.info.nontrivial = True

    async def op_image(self, n):
        '''The computer is lost now'''
        if not self.case['interval'] or len(self.images) > 2:
            return
        if n:
            import trio

            await trio.sleep([0, 1, 7, 40, self.case['delay'] + self.case['interval'] + 2 * SLACK][n])
        dst = os.path.join(self.world.root, 'image%d' % len(self.images))
        shutil.copytree(self.world.be, dst)
        self.images.append((env.vtime.now(), dst, len(self.history)))


def expected(drv, when, upto, case):
    '''-> (paths that must be as described, True if nothing else may exist)'''
    limit = when - case['delay'] - case['interval'] - SLACK
    hist = drv.history[:upto]
    base, changed = None, []
    for t, s in hist:
        if t <= limit:
            base = s
        else:
            changed.append(s)
    if base is None:
        return None, False
    keep = {}
    for path, v in base.items():
        # The whole way to the file must have stayed as it was
        parts = path.split(b'/')
        ways = [b'/'.join(parts[:i]) for i in range(2, len(parts))]
        if all(s.get(path) == v and all(w in s and s[w][0] == base[w][0] for w in ways) for s in changed):
            keep[path] = v
    return keep, not changed


def unfinished(be):
    '''-> (True if metadata was being uploaded, number of backups)'''
    keys = format.keys_of(be, partial=True)
    seqs = [int(k[12:], 16) for k in keys if k.startswith('s3ql_params_')]
    return any(k.startswith('s3ql_metadata_') and int(k[27:], 16) >= max(seqs) for k in keys), len(seqs)


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'], upload_delay=case['delay'])
        drv = Driver(w, case, info)

        async def driver(fsops):
            await drv.start(fsops)
            for op in case['ops']:
                await drv.step(op)
            await drv.finish_session()
            return True

        res = w.mount(driver, '--metadata-backup-interval', str(case['interval']))
        check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)', res.code, res.exc)
        for i, (when, image, upto) in enumerate(drv.images):
            keep, exact = expected(drv, when, upto, case)
            env.vtime.advance(100)
            shutil.rmtree(w.be)
            shutil.move(image, w.be)
            w.use_cachedir('other%d' % i)
            partial, n = unfinished(w.be)
            if partial:
                # The latest metadata is a mixture; the latest complete backup has to be used
                info.label('backup-unfinished')
                res = w.adm(*w.common(), 'restore-metadata', w.url, stdin='%d\n' % max(0, n - 2))
                check(res.code == 0, 'restore-metadata failed with exit code %r (%s)', res.code, res.exc)
                res = w.fsck()
            else:
                res = w.fsck('--force-remote')
            check(res.code in (0, 128), 'fsck of what was stored in the backend failed with exit code %r (%s)',
                  res.code, res.exc)  # fmt: skip
            res, tree = mount_tree(w)
            check(res.code == 0, 'mount after fsck failed with exit code %r (%s)', res.code, res.exc)
            info.label('restored')
            if keep is None:
                continue
            if keep:
                info.label('unchanged-files')
                info.nontrivial = True
            if exact:
                info.label('restored-exactly')
                extra = set(tree) - set(keep) - {b'', b'/lost+found'}
                extra = {p for p in extra if not p.startswith(b'/lost+found/')}
                check(not extra, 'files appeared: %r', sorted(extra)[:5])
            for path, v in keep.items():
                compare(path, v, tree.get(path), case)
        return True


def compare(path, v, e, case):
    what = '%r has not changed for more than %d s (backup interval) + %d s (upload delay), but after the loss of the machine' % (
        path, case['interval'], case['delay'])  # fmt: skip
    compare_state(what, v, e)


def compare_state(what, v, e):
    check(e is not None, '%s it is gone', what)
    serial, kind, mode, uid, gid, mtime, rdev, data, xattr = v
    check((e.mode, e.uid, e.gid) == (mode, uid, gid), '%s its mode and owner are %o %d %d instead of %o %d %d',
          what, e.mode, e.uid, e.gid, mode, uid, gid)  # fmt: skip
    if kind == 'f':
        check(e.size == len(data), '%s its size is %d instead of %d', what, e.size, len(data))
        check(e.data == data, '%s its contents are different', what)
        check(e.mtime == mtime, '%s its mtime is %d instead of %d', what, e.mtime, mtime)
    elif stat.S_ISLNK(mode):
        check(e.target == data, '%s its target is different', what)
    check(dict(e.xattr) == dict(xattr), '%s its extended attributes are different', what)


PROPERTY = Property(
    'C28',
    'Histories of up to 30 operations and waits in one mounted file system with upload delays of 0 to 100 s and backup intervals of 20 to 300 s. '
    'Non-trivial: blocks were found in the backend after their delay, or a state with unchanged files was restored elsewhere.',
    [
        Part('uploads', lambda: strategy([0]), run, quick=80, thorough=3000),
        Part('backups', lambda: strategy([20, 60, 60, 300]), run, quick=100, thorough=3000),
    ],
)
TECHNIQUE = (
    'stateful property-based testing in virtual time: histories with waits run in a mounted file system whose background '
    'tasks are active; the backend is decoded by a reference implementation and copies of it are restored elsewhere'
)
NOTE = 'Histories of up to 30 operations in one session; virtual time; local backend.'
