'''C10: outdated, in-use or damaged metadata is never silently used.'''

import os
import re
import shutil
import stat

from harness import env, inspect
from harness.core import Part, Property, Violation, check
from harness.crash import Monitor, Snapshots, copytree
from harness.faults import PermFault, patched
from harness.session import make_world

REFUSED = (30, 31)
ZEROS = {inspect.sha(bytes(n)) for n in range(1025)}


def strategy():
    from hypothesis import strategies as st

    m = st.integers(0, 2)
    coarse = st.one_of(st.integers(0, 40), st.integers(0, 200), st.integers(0, 800))
    phase = st.integers(0, 2)
    end = st.one_of(
        st.just(['clean']), st.just(['clean']), st.just(['clean']), st.just(['keep']),
        st.tuples(st.just('kill'), phase, coarse).map(list),
        st.tuples(st.just('kill'), phase, coarse).map(list),
        st.tuples(st.just('offline'), st.integers(0, 20)).map(list),
    )  # fmt: skip
    tool_end = st.one_of(
        st.just(['clean']), st.just(['clean']),
        st.tuples(st.just('kill'), st.just(0), coarse).map(list),
        st.tuples(st.just('offline'), st.integers(0, 12)).map(list),
    )  # fmt: skip
    acts = st.lists(st.sampled_from(['add', 'add', 'file', 'backup', 'saveme']), max_size=5)
    op = st.one_of(
        st.tuples(st.just('mount'), m, acts, end), st.tuples(st.just('mount'), m, acts, end),
        st.tuples(st.just('mount'), m, acts, end),
        st.tuples(st.just('fsck'), m, st.sampled_from(['', '', 'force', 'remote']), tool_end),
        st.tuples(st.just('fsck'), m, st.sampled_from(['', '', 'force', 'remote']), tool_end),
        st.tuples(st.just('vacuum'), m, tool_end),
        st.tuples(st.just('restore'), m, st.integers(0, 40), tool_end),
        st.tuples(st.just('mkfs'), m), st.tuples(st.just('lost'), m),
        st.tuples(st.just('save'), m), st.tuples(st.just('rollback'), m, st.integers(0, 7)),
        st.tuples(st.just('fail'), m), st.tuples(st.just('wait'), st.integers(0, 45)),
    ).map(list)  # fmt: skip
    return st.fixed_dictionaries({
        'cfg': st.fixed_dictionaries({
            'meta_kib': st.sampled_from([4, 4, 64]),
            'pw': st.none(),
            'sched': st.integers(0, 100),
        }),
        'ops': st.lists(op, min_size=2, max_size=14),
    })  # fmt: skip


class World10:
    def __init__(self, w, info):
        self.w = w
        self.info = info
        self.commits = {}  # contents of the parameter object -> names in the file system
        self.crash = None  # session that never ended: {machine, must}
        self.suspect = set()  # machines whose cache directory may hold anything
        self.base = set()  # names that have been committed
        self.pending = set()  # machines where a restore may be waiting for fsck
        self.backups = {}  # the same for all backups
        self.saved = []  # (machine, copy of its cache directory)
        self.count = 0
        self.snapno = 0

    def use(self, m):
        self.m = m
        self.w.use_cachedir('cache%d' % m)

    # -- observation

    def remote(self):
        keys = inspect.local_keys(self.w.be)
        check('s3ql_params' in keys, 'there is no parameter object')
        with open(keys['s3ql_params'], 'rb') as fh:
            buf = fh.read()
        flags = {
            f: re.search(rb"'%s': (True|False)" % f.encode(), buf) for f in ('is_mounted', 'needs_fsck')
        }
        for f, mt in flags.items():
            check(mt is not None, 'parameter object has no field %s', f)
        self.mounted = flags['is_mounted'].group(1) == b'True'
        self.needs_fsck = flags['needs_fsck'].group(1) == b'True'
        return buf

    def local_names(self):
        src = self.w.cachepath() + '.db'
        db = inspect.load_db(src)
        names = {r['id']: r['name'] for r in db['names']}
        objects = {r['id']: r['hash'] for r in db['objects'] if r['hash'] not in ZEROS}
        blocks = {r['inode']: objects.get(r['obj_id']) for r in db['inode_blocks']}
        return visible(
            {names[r['name_id']]: blocks.get(r['inode'])
             for r in db['contents'] if r['parent_inode'] == 1}
        )  # fmt: skip

    def list_backups(self):
        res = []
        for k, p in sorted(inspect.local_keys(self.w.be).items()):
            if k.startswith('s3ql_params_'):
                with open(p, 'rb') as fh:
                    res.append(fh.read())
        return res

    def commit(self):
        '''The machine in use has just completed a change of the file system'''
        buf = self.remote()
        check(not self.mounted and not self.needs_fsck,
              'file system is marked as in use or damaged after a successful command')
        self.commits[buf] = self.backups[buf] = self.local_names()
        self.crash = None
        self.suspect.discard(self.m)
        self.base = set(self.commits[buf])

    # -- running commands

    def interrupted(self, end, run):
        '''Run a command that is killed / loses its connection. -> (result, completed)'''
        w = self.w
        if end[0] == 'kill':
            snap = Snapshots(w)
            try:
                with Monitor([(end[1], end[2], 0)], lambda i: snap.take('k')) as mon:
                    self.mon = mon
                    mon.set_phase(0)
                    res = run()
                    mon.finish()
                self.mon = None
                w.after_death()
                snap.restore('k')
            finally:
                shutil.rmtree(snap.dir)
            self.info.label('killed')
            return res, False
        left = [end[1]]

        def wrap(name, orig):
            async def call(self_, *a, **kw):
                left[0] -= 1
                if left[0] < 0:
                    raise PermFault('no connection')
                return await orig(self_, *a, **kw)

            return call

        with patched(wrap, names=('write_fh', 'readinto_fh', 'lookup')):
            res = run()
        if res.code in (0, 128) and left[0] >= 0:
            return res, True
        self.info.label('offline')
        return res, False

    def session(self, acts):
        '''-> driver that executes *acts* and keeps track of the contents in self.now'''
        import pyfuse3
        import trio

        from harness.tree import Ctx

        ctx = Ctx()
        self.now = {}
        self.seen = None
        before = self.remote()

        async def driver(fs):
            from s3ql import CTRL_INODE

            if self.mon:
                self.mon.set_phase(1)
            now = self.remote()
            check(self.mounted and now != before,
                  'file system is mounted but the backend does not say so')
            seen = {}
            for n in await readdir(fs, await fs.opendir(1, ctx)):
                seen[n] = None
                if n[:1] == b'f':
                    attr = await fs.lookup(1, n, ctx)
                    fi = await fs.open(attr.st_ino, os.O_RDONLY, ctx)
                    buf = bytes(await fs.read(fi.fh, 0, 4096))
                    seen[n] = inspect.sha(buf) if buf.strip(b'\0') else None
                    await fs.release(fi.fh)
                    await fs.forget([(attr.st_ino, 1)])
            self.seen = visible(seen)
            self.now = dict(self.seen)
            known = set(self.list_backups())
            for a in acts:
                self.count += 1
                if a == 'add':
                    n = b'a%05d' % self.count
                    await fs.mkdir(1, n, stat.S_IFDIR | 0o755, ctx)
                    self.now[n] = None
                elif a == 'file':
                    n = b'f%d' % (self.count % 4)
                    buf = b'%s-%d,' % (n, self.count) * 60
                    try:
                        attr = await fs.lookup(1, n, ctx)
                        fi = await fs.open(attr.st_ino, os.O_RDWR, ctx)
                    except pyfuse3.FUSEError:
                        fi, _ = await fs.create(1, n, stat.S_IFREG | 0o644, os.O_RDWR, ctx)
                    await fs.write(fi.fh, 0, buf.ljust(900, b'.'))
                    await fs.release(fi.fh)
                    self.now[n] = inspect.sha(buf.ljust(900, b'.'))
                elif a == 'backup':
                    await fs.setxattr(CTRL_INODE, b'upload-meta', b'x', ctx)
                    await trio.sleep(30)
                    self.remote()
                    for b in self.list_backups():
                        if b not in known:
                            self.backups[b] = visible(self.now)
                            known.add(b)
                    check(self.mounted, 'no longer marked as in use after a metadata backup')
                elif a == 'saveme':
                    self.save()
            if self.mon:
                self.mon.set_phase(2)
            return True

        return driver

    mon = None

    def save(self):
        d = os.path.join(self.w.root, 'saved%d' % len(self.saved))
        copytree(self.w.cachedir, d)
        self.saved.append((self.m, d, self.m in self.pending))

    def expect(self, res, what):
        '''Check the outcome of a command that needs a usable file system. -> whether it ran'''
        buf = self.before
        if self.mounted_before or self.needs_before:
            check(res.code in REFUSED, '%s on a file system that is %s ends with %r (%s)', what,
                  'in use' if self.mounted_before else 'damaged', res.code, res.exc)  # fmt: skip
            self.info.label('refused')
        else:
            check(buf in self.commits, 'backend is marked clean but its state is unknown')
            if res.code == 0:
                return True
            check(self.m in self.suspect and res.code in REFUSED,
                  '%s of a clean file system ends with %r (%s)', what, res.code, res.exc)  # fmt: skip
            self.info.label('refused-suspect')
        check(self.remote() == buf, '%s was refused but changed the backend', what)
        return False

    def look(self):
        self.before = self.remote()
        self.mounted_before, self.needs_before = self.mounted, self.needs_fsck

    # -- operations

    def op_mount(self, m, acts, end):
        self.use(m)
        self.look()
        w = self.w
        drv = self.session(acts)
        if end[0] in ('clean', 'keep'):
            args = ['--keep-cache'] if end[0] == 'keep' else []
            res = w.mount(drv, *args)
            if not self.expect(res, 'mount'):
                return
            self.check_seen()
            names = self.local_names()
            check(names == visible(self.now), 'contents after unmount are wrong')
            self.commit()
            self.info.label('mounted')
            return
        res, done = self.interrupted(
            end, lambda: w.mount(drv, reraise=end[0] == 'kill'))  # fmt: skip
        if self.seen is None and not done:
            # never got as far as mounting (or was not supposed to)
            if end[0] == 'kill':
                self.expect(res, 'mount')
        else:
            check(not self.mounted_before and not self.needs_before,
                  'file system was mounted although it is in use or damaged')
            self.check_seen()
        self.died()

    def check_seen(self):
        want = self.commits[self.before]
        check(self.seen == want, 'mounted file system is outdated: misses %r, has in addition %r',
              sorted(want - self.seen), sorted(self.seen - want))  # fmt: skip

    def died(self):
        '''A command that needs exclusive access ended prematurely on the machine in use'''
        buf = self.remote()
        if buf == self.before:
            # nothing happened as far as the backend knows
            self.suspect.add(self.m)
            if self.crash and self.crash['machine'] == self.m:
                self.crash['must'] = set()
            return
        if self.mounted:
            must = set(dict(self.base))
            if self.crash is None or self.crash['machine'] == self.m:
                self.crash = {'machine': self.m, 'must': must}
            else:
                self.crash = {'machine': self.m, 'must': set()}
            self.suspect.add(self.m)
        elif self.needs_fsck:
            self.suspect.add(self.m)
        else:
            # the very last step had been completed
            self.suspect.add(self.m)
            self.commits[buf] = self.local_names()
            lost = set(dict(self.base)) - set(dict(self.commits[buf]))
            check(not lost or self.m in self.pending, 'committed entries %r have disappeared', sorted(lost))
            self.base = set(self.commits[buf])
            self.crash = None
        self.info.label('died')

    def op_fsck(self, m, how, end, restored=None):
        self.use(m)
        self.look()
        w = self.w
        args = {'': [], 'force': ['--force'], 'remote': ['--force-remote']}[how]
        # (after an interrupted restore or roll-back, the machine may no longer know)
        own = (
            self.crash is not None and self.crash['machine'] == m and m not in self.tampered
        )
        foreign = self.mounted_before and not own
        done = True
        if end[0] == 'clean':
            res = w.fsck(*args, reraise=not (foreign and how == 'remote'))
        else:
            res, done = self.interrupted(end, lambda: w.fsck(*args, reraise=end[0] == 'kill'))
        if not done:
            self.died()
            return False
        if foreign and res.code not in (0, 128):
            # another machine has it mounted, as far as anyone can tell
            if how == 'remote':
                check(res.code != 41, 'fsck --force-remote refuses')
                if self.remote() != self.before:
                    # metadata that was being uploaded may be damaged beyond repair
                    self.died()
                self.info.label('remote-fsck-failed')
            else:
                check(res.code == 41, 'fsck exits with %r (%s)', res.code, res.exc)
                check(self.remote() == self.before, 'fsck refused but changed the backend')
                self.info.label('fsck-refused')
            return False
        if foreign and how != 'remote' and m not in self.suspect and restored is None:
            raise Violation('fsck of a file system in use elsewhere exits with %r' % res.code)
        check(res.code in (0, 128), 'fsck exits with %r (%s)', res.code, res.exc)
        buf = self.remote()
        if buf == self.before:
            check(not self.mounted and not self.needs_fsck, 'fsck left the file system marked')
            return True
        names = self.local_names()
        if restored is not None:
            # (data of files may have been removed in the meantime)
            lost = {n for n in set(dict(restored)) - set(dict(names)) if not n.startswith(b'f')}
            check(not lost, 'fsck lost entries %r of the restored backup', sorted(lost))
            self.base = set()
        elif m in self.pending:
            pass
        elif not self.mounted_before and not self.needs_before:
            want = self.commits[self.before]
            check(names == want, 'fsck replaced the newest metadata: misses %r, has in addition %r',
                  sorted(want - names), sorted(names - want))  # fmt: skip
        elif own and self.crash['must']:
            lost = self.crash['must'] - set(dict(names))
            check(not lost or m in self.tampered, 'fsck lost entries %r', sorted(lost))
        self.tampered.discard(m)
        self.pending.discard(m)
        self.commit()
        self.info.label('fsck')
        return True

    tampered = frozenset()

    def op_vacuum(self, m, end):
        self.use(m)
        self.look()
        w = self.w

        def run():
            return w.adm(*w.common(), 'shrink-db', w.url, reraise=end[0] != 'offline')

        if end[0] == 'clean':
            res = run()
        else:
            res, done = self.interrupted(end, run)
            if not done:
                self.died()
                return
        if self.expect(res, 'shrink-db'):
            names = self.local_names()
            want = self.commits[self.before]
            check(names == want, 'shrink-db worked on outdated metadata')
            self.commit()
            self.info.label('vacuum')

    def op_restore(self, m, k, end):
        '''Restore a backup and commit it with fsck'''
        self.use(m)
        self.look()
        w = self.w

        backups = self.list_backups()

        def run():
            return w.adm(*w.common(), 'restore-metadata', w.url,
                         stdin='%d\n' % (k % len(backups)),
                         reraise=False)  # fmt: skip

        if end[0] == 'clean':
            res = run()
        else:
            res, done = self.interrupted(end, run)
        check(self.remote() == self.before, 'restore-metadata changed the backend')
        # from now on the cache may hold anything, but must not be taken for current
        self.suspect.add(m)
        self.tampered.add(m)
        self.pending.add(m)
        if end[0] == 'clean' and res.code == 0:
            names = self.local_names()
            want = self.backups.get(backups[k % len(backups)])
            if want is not None:
                check(set(dict(names)) == set(dict(want)), 'restored metadata is not that of the '
                      'backup: %r instead of %r', sorted(dict(names)), sorted(dict(want)))  # fmt: skip
                self.info.label('restored-known')
            self.info.label('restored')
            self.op_fsck(m, '', ['clean'], restored=names)
        elif self.crash and self.crash['machine'] == m:
            self.crash['must'] = set()

    def op_mkfs(self, m):
        self.use(m)
        before = tree_bytes(self.w.be), tree_bytes(self.w.cachedir)
        res = self.w.mkfs(reraise=False)
        check(res.code != 0, 'mkfs.s3ql succeeds although there is a file system')
        after = tree_bytes(self.w.be), tree_bytes(self.w.cachedir)
        check(before == after, 'mkfs.s3ql changed an existing file system')
        self.info.label('mkfs')

    def lose(self, m):
        if self.crash and self.crash['machine'] == m:
            self.crash = dict(self.crash, must=set(), machine=None)

    def op_lost(self, m):
        self.use(m)
        self.w.drop_cachedir()
        self.suspect.discard(m)
        self.tampered.discard(m)
        self.pending.discard(m)
        self.lose(m)

    def op_save(self, m):
        self.use(m)
        self.save()

    def op_rollback(self, m, k):
        '''An old copy of the cache directory comes back'''
        mine = [(d, p) for mm, d, p in self.saved if mm == m]
        if not mine:
            return
        self.use(m)
        shutil.rmtree(self.w.cachedir)
        d, pending = mine[k % len(mine)]
        copytree(d, self.w.cachedir)
        self.pending.discard(m)
        if pending:
            self.pending.add(m)
        self.suspect.add(m)
        self.tampered.add(m)
        if self.crash and self.crash['machine'] == m:
            self.crash['must'] = set()
        self.info.label('rollback')

    def op_fail(self, m):
        '''Data turns out to be missing while mounted'''
        self.use(m)
        self.look()
        w = self.w
        from harness.tree import Ctx

        ctx = Ctx()

        async def driver(fs):
            import pyfuse3
            import trio
            from s3ql import CTRL_INODE

            self.count += 1
            fi, _ = await fs.create(1, b'x%05d' % self.count, stat.S_IFREG | 0o644, 2, ctx)
            await fs.write(fi.fh, 0, b'%d' % self.count * 100)
            await fs.setxattr(CTRL_INODE, b's3ql_dropcache!', b'x', ctx)
            await trio.sleep(1)
            newest = max(inspect.data_ids(inspect.local_keys(w.be)))
            os.unlink(inspect.local_keys(w.be)['s3ql_data_%d' % newest])
            try:
                await fs.read(fi.fh, 0, 10)
            except pyfuse3.FUSEError:
                pass
            else:
                raise Violation('read of lost data succeeds')
            await fs.release(fi.fh)
            return True

        res = w.mount(driver)
        if not self.expect(res, 'mount'):
            return
        self.remote()
        check(self.needs_fsck and not self.mounted, 'damaged file system is not marked for fsck')
        self.suspect.discard(m)
        self.info.label('failsafe')

    def op_wait(self, days):
        env.vtime.advance(days * 86400)


def visible(names):
    '''without special entries and files with lost data, which fsck moves away'''
    return frozenset(
        i for i in names.items()
        if i[0] not in (b'.', b'..', b'lost+found') and not i[0].startswith(b'x')
    )  # fmt: skip


async def readdir(fs, fh):
    names = []

    def token(name, attr, next_id):
        names.append(name)
        return True

    await fs.readdir(fh, 0, token)
    return names


def tree_bytes(top):
    res = {}
    for d, _, files in os.walk(top):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                res[p] = fh.read()
    return res


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'], cachedir='cache0')
        h = World10(w, info)
        h.tampered = set()
        h.use(0)
        h.commit()
        for op in case['ops']:
            env.vtime.advance(3)
            getattr(h, 'op_' + op[0])(*op[1:])
            w.after_death()
        # in the end everybody can get back to work
        h.use(3)
        if h.crash is not None:
            h.use(h.crash['machine'] if h.crash['machine'] is not None else 3)
        h.look()
        res = w.fsck('--force-remote', reraise=False)
        if res.code in (0, 128):
            if h.remote() != h.before:
                h.commit()
            for m in (0, 3):
                if m not in h.suspect:
                    h.op_mount(m, ['add'], ['clean'])
        else:
            check(h.mounted_before, 'fsck fails with %r (%s)', res.code, res.exc)
    lab = info.labels
    info.nontrivial = sum(lab.get(x, 0) for x in ('mounted', 'fsck', 'vacuum')) >= 1 and any(
        lab.get(x) for x in ('refused', 'died', 'rollback', 'restored', 'fsck-refused', 'mkfs')
    )


TECHNIQUE = (
    'stateful model-based testing (random histories of commands on several machines, with kills, '
    'lost connections and returning old caches, against a model of the committed states)'
)
NOTE = (
    'Machines are cache directories that share one local backend. Only commands that run one '
    'after the other are generated; an active session elsewhere looks to others exactly like one '
    'that was killed.'
)
PROPERTY = Property(
    'C10',
    'Random histories of mount, fsck, shrink-db, restore-metadata and mkfs on three machines, '
    'ended normally, by a kill at a random instant or by a lost connection; cache directories get '
    'lost or replaced by old copies. A mount must show exactly the names committed last or refuse '
    'with the documented status. Non-trivial: at least one command that succeeded and one '
    'interruption, refusal, roll-back or restore.',
    [Part('machines', strategy, run, quick=240, thorough=6000)],
)
