'''C07: after a crash at any point a file system check recovers all synced data.'''

import os
import stat

from harness import env, inspect
from harness.core import Part, Property, check
from harness.crash import KINDS, Monitor, Snapshots
from harness.session import FsDriver, make_world
from harness.tree import mount_tree

WEIGHTS = {
    'create': 8, 'mkdir': 3, 'mknod': 1, 'symlink': 1, 'link': 2, 'unlink': 4, 'rmdir': 1,
    'rename': 4, 'open': 2, 'release': 2, 'write': 20, 'read': 2, 'truncate': 6, 'setattr': 2,
    'setxattr': 2, 'removexattr': 1, 'sync': 3, 'drop': 2, 'fsync': 6, 'sleep': 3, 'forget': 1,
    'forgetall': 1, 'remount': 1, 'upmeta': 3, 'copy': 2, 'rmtree': 1, 'cyield': 2,
}  # fmt: skip


def strategy(kinds=False):
    from hypothesis import strategies as st

    from harness import fsops

    fsops.OPS['cyield'] = fsops.t('cyield', st.integers(0, 3))
    coarse = st.one_of(st.integers(0, 12), st.integers(0, 60), st.integers(0, 500))
    fine = st.one_of(st.just(0), st.integers(0, 8), st.integers(0, 60))

    def points(n):
        if kinds:
            after = st.one_of(st.just(0), st.just(0), st.integers(0, 6), st.integers(0, 40))
            nth = st.one_of(st.integers(0, 3), st.integers(0, 12), st.integers(0, 40))
            short = st.one_of(fine, st.integers(1, 2))
            return st.lists(st.tuples(st.sampled_from([*KINDS, 'rename-cache']), nth, after, short).map(list),
                            min_size=2, max_size=4)  # fmt: skip
        phase = st.one_of(st.integers(0, n), st.integers(0, n), st.just(n), st.just(-1))
        return st.lists(st.tuples(phase, coarse, fine).map(list), min_size=1, max_size=3)

    def build(ops):
        return st.fixed_dictionaries({
            'cfg': fsops.cfg(), 'ops': st.just(ops), 'crash': points(len(ops)),
            'again': st.one_of(st.none(), st.none(), st.tuples(coarse, fine).map(list)),
            'keep': st.booleans(),
        })  # fmt: skip

    start = st.tuples(fsops.OPS['create'], fsops.OPS['create'], fsops.OPS['write'],
                      fsops.OPS['write'], st.sampled_from([['fsync', 0, 0], ['sync']]))  # fmt: skip
    if kinds:
        back = fsops.op_list({'drop': 4, 'read': 6, 'write': 3, 'truncate': 3, 'remount': 1,
                              'release': 1, 'open': 1, 'sync': 1}, 2, 12)  # fmt: skip
        return st.tuples(start, fsops.op_list(WEIGHTS, 0, 8), back, fsops.op_list(WEIGHTS, 0, 8)).map(
            lambda x: [op for part in x for op in part]
        ).flatmap(build)  # fmt: skip
    rest = fsops.op_list(WEIGHTS, 2, 30)
    return st.one_of(
        fsops.op_list(WEIGHTS, 3, 30), st.tuples(start, rest).map(lambda x: [*x[0], *x[1]])
    ).flatmap(build)


class Rec:
    '''What the model knows about one path'''

    __slots__ = ('serial', 'ino', 'kind', 'mode', 'uid', 'gid', 'mtime', 'data', 'target',
                 'xattr', 'rdev', 'durable')  # fmt: skip


def capture(drv):
    res = {}

    def rec(d, prefix):
        for name, n in d.entries.items():
            r = Rec()
            r.serial, r.ino, r.kind, r.mode, r.uid, r.gid = (
                n.serial, n.ino, n.kind, n.mode, n.uid, n.gid)  # fmt: skip
            r.mtime, r.target, r.rdev = n.mtime, n.target, n.rdev
            r.data = bytes(n.data) if n.kind == 'f' else None
            r.xattr = dict(n.xattr)
            r.durable = n.serial in drv.durable
            res[prefix + b'/' + name] = r
            if n.kind == 'd':
                rec(n, prefix + b'/' + name)

    rec(drv.model.root, b'')
    return res


def fingerprint(n):
    return (n.mode, n.uid, n.gid, n.mtime, bytes(n.data) if n.kind == 'f' else None)


class CrashDriver(FsDriver):
    def __init__(self, *a):
        super().__init__(*a)
        self.durable = set()
        self.prints = {}

    async def op_fsync(self, fi, ds):
        node = self.sel(self.files(), fi)
        await super().op_fsync(fi, ds)
        if node is not None and not ds % 2:
            self.synced(node)

    async def op_sync(self):
        await super().op_sync()
        for n in self.model.live():
            self.synced(n)

    def synced(self, n):
        self.durable.add(n.serial)
        self.prints[n.serial] = fingerprint(n)

    def settle(self):
        '''Forget the durability of everything that has been touched since'''
        for n in self.model.live():
            if n.serial in self.durable and self.prints[n.serial] != fingerprint(n):
                self.durable.discard(n.serial)

    async def step(self, op):
        await super().step(op)
        self.settle()


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = CrashDriver(w, case['cfg'], info)
        snaps = Snapshots(w)
        state = {}  # index of crash point -> (model before the call, after the call, phase)
        cur = {'before': {}, 'phase': -1, 'pending': []}
        cur['before'] = capture(drv)

        def take(i):
            snaps.take(i)
            state[i] = {'before': cur['before'], 'phase': cur['phase']}
            cur['pending'].append(i)

        def settle():
            if cur['pending']:
                after = capture(drv)
                for i in cur['pending']:
                    state[i]['after'] = after
                cur['pending'] = []

        wanted = {p[0] if len(p) == 3 else -1 for p in case['crash']}
        ops = case['ops']
        with Monitor(case['crash'], take) as mon:
            for start, seg, sep in segments(ops):
                async def driver(fsops, start=start, seg=seg, sep=sep):
                    await drv.start(fsops)
                    for k, op in enumerate(seg):
                        settle()
                        cur['phase'] = start + k
                        if start + k in wanted or min(wanted) < start + k:
                            cur['before'] = capture(drv)
                        mon.set_phase(start + k)
                        settle_op = op
                        await drv.step(settle_op)
                    settle()
                    cur['before'] = capture(drv)
                    cur['phase'] = start + len(seg)
                    mon.set_phase(start + len(seg))
                    await drv.finish_session()
                    return True

                args = ['--keep-cache'] if sep is not None and sep[1] % 2 else []
                res = w.mount(driver, *args)
                check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)',
                      res.code, res.exc)  # fmt: skip
                settle()
            mon.finish()
            settle()
        for i in sorted(state):
            p = case['crash'][i]
            if len(p) == 4:
                info.label('at-' + p[0])
            recover(case, w, snaps, i, state[i], info, drv)
    lab = info.labels
    info.nontrivial = lab.get('crash-with-data', 0) >= 1


def segments(ops):
    seg = []
    start = 0
    for i, op in enumerate(ops):
        if op[0] == 'remount':
            yield start, seg, op
            seg = []
            start = i + 1
        else:
            seg.append(op)
    yield start, seg, None


def recover(case, w, snaps, i, st, info, drv):
    snaps.restore(i)
    env.vtime.advance(5)
    ops = case['ops']
    ph = st['phase']
    opname = (ops[ph][0] if ph < len(ops) else 'unmount') if ph >= 0 else 'mount'
    info.label('crash-in-' + opname)
    where = 'crash in phase %d (%s)' % (ph, opname)
    args = ['--keep-cache'] if case['keep'] else []
    if case['again'] is not None:
        # the check itself gets killed once, too
        again = 'again%d' % i

        def take(_):
            snaps.take(again)
            if os.path.exists(w.cachepath() + '-cache') and os.listdir(w.cachepath() + '-cache'):
                info.label('crash-in-fsck-with-cache')

        with Monitor([[0, case['again'][0], case['again'][1]]], take) as mon:
            mon.set_phase(0)
            res = w.fsck(*args)
            mon.finish()
        check_fsck(res, where)
        snaps.restore(again)
        info.label('crash-in-fsck')
    params = w.cachepath() + '.params'
    old = read_file(params)
    res = w.fsck(*args)
    check_fsck(res, where)
    ran = read_file(params) != old  # otherwise: "File system is marked as clean"
    info.label('fsck-exit-%d' % res.code if ran else 'fsck-skipped')
    if ran:
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        inspect.check_backend(w, db)
    env.vtime.advance(5)
    res, tree = mount_tree(w)
    check(res.code == 0 and tree is not None, '%s: mount after recovery exits with %r (%s)', where,
          res.code, res.exc)  # fmt: skip
    compare(where, st['before'], st['after'], tree, info, drv.bs)
    if not ran:
        check_fsck(w.fsck('--force'), where)
    res = w.fsck('--force')
    warned = inspect.warnings_of(res)
    check(res.code == 0 and not warned, '%s: second check exits with %r: %s', where, res.code,
          warned[:3])  # fmt: skip
    db = inspect.load_db(w.cachepath() + '.db')
    inspect.check_db(db)
    inspect.check_backend(w, db)


def read_file(path):
    try:
        with open(path, 'rb') as fh:
            return fh.read()
    except FileNotFoundError:
        return None


def check_fsck(res, where):
    msgs = [r.getMessage() for r in res.logs if r.levelname in ('ERROR', 'CRITICAL')]
    check(res.code in (0, 128), '%s: fsck exits with %r (%s) %s', where, res.code, res.exc, msgs[:3])


def compare(where, before, after, tree, info, bs):
    tree.pop(b'', None)
    byino = {}
    for p, e in tree.items():
        byino.setdefault(e.ino, []).append(p)
    serials = set()
    for p, b in before.items():
        a = after.get(p)
        if a is None or a.serial != b.serial:
            # affected by the interrupted call: a file must at least exist somewhere if it exists
            # both before and after
            if b.kind == 'f' and any(x.serial == b.serial for x in after.values()):
                a = next(x for x in after.values() if x.serial == b.serial)
                check(b.ino in byino, '%s: %r (renamed by the interrupted call) is gone', where, p)
                content(where, byino[b.ino][0], b, a, tree[byino[b.ino][0]], info)
            continue
        check(p in tree, '%s: %r is gone (tree has %r)', where, p, sorted(tree)[:20])
        e = tree[p]
        check(e.ino == b.ino, '%s: %r is inode %d, was %d', where, p, e.ino, b.ino)
        content(where, p, b, a, e, info)
        if b.kind == 'f' and b.data and b.serial not in serials:
            info.label('crash-with-data')
        serials.add(b.serial)
    known = set(before) | set(after)
    for p in tree:
        check(p in known or p == b'/lost+found' or p.startswith(b'/lost+found/')
              or any(p.startswith(k + b'/') for k in after if k not in before),
              '%s: %r was never created', where, p)  # fmt: skip


def zext(buf, n):
    return buf + bytes(n - len(buf))


def content(where, p, b, a, e, info):
    check(stat.S_IFMT(e.mode) == stat.S_IFMT(b.mode), '%s: %r has mode %o', where, p, e.mode)
    if b.xattr == a.xattr:
        check(e.xattr == b.xattr, '%s: extended attributes of %r differ', where, p)
    if b.kind == 'l':
        check(e.target == b.target, '%s: target of %r differs', where, p)
    if b.durable and (b.mode, b.uid, b.gid, b.mtime) == (a.mode, a.uid, a.gid, a.mtime):
        # directory times change with every entry
        fields = ('mode', 'uid', 'gid') + (('mtime',) if b.kind == 'f' else ())
        for f in fields:
            check(getattr(e, f) == getattr(b, f), '%s: synced %s of %r is %r instead of %r', where,
                  f, p, getattr(e, f), getattr(b, f))  # fmt: skip
    if b.kind != 'f':
        return
    if b.durable and b.data == a.data:
        info.label('durable-file')
        check(len(e.data) == len(b.data), '%s: synced file %r has size %d instead of %d', where, p,
              len(e.data), len(b.data))  # fmt: skip
    n = max(len(e.data), len(b.data), len(a.data))
    x, y, z = zext(e.data, n), zext(b.data, n), zext(a.data, n)
    if x == y or x == z:
        return
    for i in range(n):
        check(x[i] == y[i] or x[i] == z[i],
              '%s: %r has wrong data at offset %d (size %d): %r instead of %r / %r', where, p, i,
              len(e.data), x[i : i + 6], y[i : i + 6], z[i : i + 6])  # fmt: skip


TECHNIQUE = 'fault injection with generated crash points (simulated kill at any event) + recovery oracle'
NOTE = (
    'Generated histories are killed at generated instants (any SQL statement, system call, '
    'scheduling step or source line; also during the check itself); the real fsck and mount then '
    'have to recover what a model says must survive. Limited to the histories and instants '
    'generated; power failures (loss of what the kernel has not yet written) are not simulated.'
)
PROPERTY = Property(
    'C07',
    'Random call histories (3-35 calls incl. metadata uploads and remounts) with up to three kill '
    'instants (call, n-th event, m-th line) each, also within mount, unmount and the recovering '
    'check; after recovery by fsck the tree is compared with the model. Non-trivial: at least one '
    'non-empty file has to survive.',
    [
        Part('kill', strategy, run, quick=120, thorough=5000),
        Part('events', lambda: strategy(True), run, quick=100, thorough=5000),
    ],
    assumptions=['a kill leaves everything the process has handed to the operating system'],
)
