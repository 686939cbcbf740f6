'''C04: identical blocks share one object, removed exactly when unreferenced.'''

import stat

from harness import env, faults, inspect
from harness.core import Part, Property, Violation, check
from harness.session import FsDriver, make_world, run_history
from harness.tree import mount_tree

WEIGHTS = {
    'create': 7, 'mkdir': 2, 'link': 1, 'unlink': 5, 'rename': 3, 'open': 2, 'release': 3,
    'wblk': 16, 'write': 6, 'read': 1, 'truncate': 5, 'sync': 2, 'drop': 1, 'sleep': 2,
    'cachesize': 1, 'forget': 2, 'forgetall': 1, 'remount': 1, 'copy': 3, 'rmtree': 2,
    'quiesce': 6, 'cyield': 1,
}  # fmt: skip


def ops(lo, hi, weights=WEIGHTS):
    from hypothesis import strategies as st

    from harness import fsops

    fsops.OPS['wblk'] = fsops.t('wblk', fsops.SEL, st.integers(0, 4), st.integers(0, 2),
                                st.integers(0, 5))  # fmt: skip
    fsops.OPS['quiesce'] = fsops.t('quiesce')
    fsops.OPS['cyield'] = fsops.t('cyield', st.integers(0, 3))
    return fsops.op_list(weights, lo, hi)


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({
        'cfg': fsops.cfg(compress='none', delays=st.lists(st.integers(0, 12), max_size=8)),
        'ops': ops(6, 50),
    })  # fmt: skip


def norm(b):
    return b.rstrip(b'\0')


class Driver(FsDriver):
    '''Adds whole-block writes from a small pool of contents and checks at quiescent points'''

    def __init__(self, *a):
        super().__init__(*a)
        self.last = None  # (contents of all blocks, {contents: object}) at the last check
        self.uploads = []

    async def op_wblk(self, sel, blk, n, tag):
        '''Write n+1 whole blocks with the contents no. *tag*'''
        fh, node, tmp = await self._handle(sel, True)
        if node is None:
            return
        off = blk * self.bs
        buf = b''.join(b'%04d' % tag + bytes([65 + tag]) * (self.bs - 4) for _ in range(n + 1))
        n = await self.call(None, 'write', self.ops.write(fh, off, buf))
        if len(node.data) < off:
            node.data.extend(bytes(off - len(node.data)))
        node.data[off : off + len(buf)] = buf
        attr = await self.ops.getattr(node.ino, self.ctx)
        node.mtime, node.ctime, node.atime = attr.st_mtime_ns, attr.st_ctime_ns, attr.st_atime_ns
        if tmp:
            await self.ops.release(fh)
        self.label('write')

    def blocks(self):
        '''{(serial, blockno): contents} of all files that still exist'''
        res = {}
        for n in self.model.nodes:
            if n.kind == 'f' and not n.gone or n.kind == 'f' and n.handles:
                for i in range(0, len(n.data), self.bs):
                    res[n.serial, i // self.bs] = bytes(n.data[i : i + self.bs])
        return res

    async def op_quiesce(self):
        import trio

        await self.op_sync()
        await trio.sleep(60)  # removals run in the background
        blocks = self.blocks()
        have = inspect.data_ids(inspect.local_keys(self.world.be))
        data = await self.fetch(have)
        seen = {}
        for i in have:
            check(data[i] not in seen, 'objects %d and %s have the same contents', i,
                  seen.get(data[i]))  # fmt: skip
            seen[data[i]] = i
        want = {norm(b) for b in blocks.values()} - {b''}
        stored = {norm(b) for b in seen} - {b''}
        check(not want - stored, '%d block contents are not stored', len(want - stored))
        check(not stored - want, 'backend holds %d objects that no file needs (%r)',
              len(stored - want), [seen[b] for b in seen if norm(b) and norm(b) not in want][:5])  # fmt: skip
        if self.last is not None:
            oldblocks, oldseen = self.last
            kept = {b for k, b in oldblocks.items() if blocks.get(k) == b and len(b) == self.bs
                    and k not in self.touched}  # fmt: skip
            for b in kept:
                if norm(b) and b in oldseen and b in seen:
                    check(oldseen[b] == seen[b], 'contents of object %d are in use all the time but '
                          'were stored again as object %d', oldseen[b], seen[b])  # fmt: skip
                    self.label('kept')
        if len(blocks) > len(want) + 1:
            self.label('shared')
        self.last = (blocks, seen)
        self.touched = set()
        self.label('quiescent')

    async def fetch(self, ids):
        async with await inspect.open_backend(self.world) as be:
            return {i: bytes((await be.fetch('s3ql_data_%d' % i))[0]) for i in ids}

    async def step(self, op):
        before = self.blocks() if self.last is not None else None
        await super().step(op)
        if before is not None and self.last is not None:
            after = self.blocks()
            self.touched.update(k for k in before if after.get(k) != before[k])
            self.touched.update(k for k in after if k not in before)

    touched = frozenset()


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = Driver(w, case['cfg'], info)
        drv.touched = set()
        run_history(w, drv, case['ops'])
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        inspect.check_backend(w, db)
    lab = info.labels
    info.nontrivial = lab.get('quiescent', 0) >= 1 and lab.get('shared', 0) >= 1


# ----------------------------------------------------------------- failing uploads / removals

FAULT_WEIGHTS = {
    'create': 8, 'mkdir': 2, 'link': 1, 'unlink': 5, 'rename': 3, 'open': 2, 'release': 3,
    'wblk': 16, 'write': 6, 'read': 3, 'truncate': 5, 'sync': 4, 'drop': 2, 'sleep': 3,
    'cachesize': 1, 'forget': 2, 'forgetall': 1, 'fsync': 2, 'cyield': 1,
}  # fmt: skip


def fault_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({
        'cfg': fsops.cfg(cachesize=st.sampled_from([None, 0, 1, 2, 5]),
                         delays=st.lists(st.integers(0, 40), max_size=8)),
        'ops': ops(4, 40, FAULT_WEIGHTS),
        # number of the failing data object request, kind, lasting
        'fault': st.tuples(st.integers(0, 14), st.sampled_from(['write', 'write', 'delete']),
                           st.sampled_from(['before', 'before', 'after', 'partial']),
                           st.booleans()).map(list),
        'conns': st.sampled_from([1, 2]),
    })  # fmt: skip


class FaultDriver(Driver):
    def __init__(self, *a):
        super().__init__(*a)
        self.safe = {}  # serial -> contents at the last sync / fsync
        self.op = None

    async def op_sync(self):
        await super().op_sync()
        for n in self.model.live('f'):
            self.safe[n.serial] = (n, bytes(n.data))

    async def op_fsync(self, fi, ds):
        node = self.sel(self.files(), fi)
        await super().op_fsync(fi, ds)
        if node is not None and not ds % 2:
            self.safe[node.serial] = (node, bytes(node.data))

    async def step(self, op):
        self.op = op
        await FsDriver.step(self, op)
        self.op = None
        for s in list(self.safe):
            n, data = self.safe[s]
            if n.gone or bytes(n.data) != data:
                del self.safe[s]


def fault_run(case, info):
    n, kind, when, lasting = case['fault']
    state = {'n': 0, 'hit': False, 'off': False}

    def wrap(name, orig):
        async def fn(self, key, *a, **kw):
            if state['off'] or not key.startswith('s3ql_data_') or not name.startswith(kind):
                return await orig(self, key, *a, **kw)
            i = state['n']
            state['n'] += 1
            if i == n or lasting and i > n:
                state['hit'] = True
                info.label('fault-%s-%s' % (kind, when))
                if when == 'after':
                    await orig(self, key, *a, **kw)
                elif when == 'partial':
                    import trio

                    await trio.sleep(0.1)
                raise faults.PermFault('injected')
            return await orig(self, key, *a, **kw)

        return fn

    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = FaultDriver(w, case['cfg'], info)

        async def driver(fsops):
            await drv.start(fsops)
            for op in case['ops']:
                await drv.step(op)
            drv.op = None
            await drv.finish_session()
            return True

        with faults.patched(wrap):
            try:
                res = w.mount(driver, '--max-connections', str(case['conns']), reraise=False)
            except Violation as exc:
                # what calls return once the file system has started to go down is not specified
                if not state['hit']:
                    raise
                check('deadlock' not in str(exc), 'after an injected fault: %s', exc)
                res = None
        state['off'] = True
        if not state['hit']:
            check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)',
                  res.code, res.exc)  # fmt: skip
        else:
            check(res is None or res.code != 0, 'permanent fault was ignored')
        interrupted = drv.op
        w.after_death()
        env.vtime.advance(5)
        res = w.fsck()
        msgs = [r.getMessage() for r in res.logs if r.levelname in ('ERROR', 'CRITICAL')]
        check(res.code in (0, 128), 'fsck after a failed %s exits with %r (%s) %s', kind, res.code,
              res.exc, msgs[:3])  # fmt: skip
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        inspect.check_backend(w, db)
        env.vtime.advance(5)
        res, tree = mount_tree(w)
        check(res.code == 0 and tree is not None, 'mount after recovery exits with %r (%s)',
              res.code, res.exc)  # fmt: skip
        byino = {e.ino: e for e in tree.values() if stat.S_ISREG(e.mode)}
        odd = []
        for s, (node, data) in sorted(drv.safe.items()):
            e = byino.get(node.ino)
            if e is None or e.data != data:
                odd.append((s, node.ino, None if e is None else e.data))
        if interrupted is not None and interrupted[0] not in ('sync', 'drop', 'fsync', 'read'):
            if len(odd) == 1:  # the file that the interrupted call was changing
                odd = []
        check(not odd, 'synced file (node %s, inode %s) is lost or changed after a failed %s', *(
            (odd[0][0], odd[0][1], kind) if odd else (0, 0, kind)))  # fmt: skip
        if drv.safe and state['hit']:
            info.label('recovered')
    info.nontrivial = info.labels.get('recovered', 0) >= 1


TECHNIQUE = (
    'stateful model-based testing with a small pool of block contents; fault injection into object '
    'uploads and removals followed by recovery'
)
NOTE = (
    'Generated write/overwrite/truncate/copy/remove histories with contents from a small pool; at '
    'quiescent points the backend must hold exactly the distinct contents in use, and contents in '
    'use throughout keep their object. The second part makes the n-th upload or removal fail for '
    'good and requires recovery without loss. Limited to the histories generated.'
)
PROPERTY = Property(
    'C04',
    'Histories of 6-50 calls with quiescent points / 4-40 calls with one failing request. '
    'Non-trivial: (a) a quiescent point at which blocks share contents, (b) the fault was hit and '
    'synced files had to survive.',
    [
        Part('dedup', strategy, run, quick=150, thorough=4000),
        Part('faults', fault_strategy, fault_run, quick=150, thorough=4000),
    ],
)
