'''C09: every retained metadata backup restores the state of its time.'''

import contextlib
import os
import re
import shutil
import sqlite3
import stat

from harness import env, inspect
from harness.core import Part, Property, Violation, check
from harness.faults import PermFault, patched
from harness.session import make_world

KEEP = 32
PARAMS_RE = re.compile('^s3ql_params_([0-9a-f]+)$')


# =========================================================================== programming interface


def api_strategy():
    from hypothesis import strategies as st

    row = st.integers(0, 63)
    op = st.one_of(
        st.tuples(st.just('ins'), row, st.sampled_from([10, 1500, 9000, 40000])),
        st.tuples(st.just('ins'), row, st.sampled_from([10, 1500, 9000, 40000])),
        st.tuples(st.just('del'), row, st.integers(1, 40)),
        st.tuples(st.just('upd'), row, st.sampled_from([10, 9000])),
        st.tuples(st.just('vac')),
        st.tuples(st.just('backup'), st.sampled_from([True, True, True, False])),
        st.tuples(st.just('backup'), st.sampled_from([True, True, True, False])),
        st.tuples(st.just('busy'), row, st.integers(0, 6)),
        st.tuples(st.just('fail'), st.integers(0, 8)),
        st.tuples(st.just('expire'), st.integers(1, 6)),
        st.tuples(st.just('reopen')),
        st.tuples(st.just('remount')),
        st.tuples(st.just('skip'), st.integers(1, 300)),
    ).map(list)
    return st.fixed_dictionaries({
        'block': st.sampled_from([4096, 4096, 8192, 65536]),
        'compress': st.sampled_from(['none', 'zlib']),
        'pw': st.booleans(),
        'conns': st.integers(1, 3),
        'delays': st.lists(st.integers(0, 3), max_size=5),
        'sched': st.integers(0, 100),
        'ops': st.lists(op, min_size=4, max_size=40),
    })  # fmt: skip


def api_run(case, info):
    from s3ql import sqlite3ext
    from s3ql.backends import local
    from s3ql.backends.comprenc import AsyncComprencBackend
    from s3ql.database import (
        Connection,
        FsAttributes,
        download_metadata,
        expire_objects,
        upload_metadata,
        upload_params,
    )
    from s3ql.authinfo import CompressAlgorithm, CompressSpec

    env.set_sched(env.Sched(case['sched'], case['delays']))
    spec = CompressSpec(CompressAlgorithm[case['compress'].upper()], 6)
    bs = case['block']
    fault = {'left': None}

    def wrap(name, orig):
        async def write_fh(self, key, fh, *a, **kw):
            if fault['left'] is not None and key.startswith('s3ql_metadata'):
                fault['left'] -= 1
                if fault['left'] < 0:
                    raise PermFault('injected')
            return await orig(self, key, fh, *a, **kw)

        return write_fh

    async def main(root):
        import trio

        be_dir = os.path.join(root, 'be')
        os.mkdir(be_dir)
        raw = local.AsyncBackend(
            storage_url='local://' + be_dir, backend_options={}, max_connections=case['conns']
        )
        be = await AsyncComprencBackend.create(b'xyz' if case['pw'] else None, spec, raw)
        dbfile = os.path.join(root, 'db')
        sqlite3ext.reset()
        sqlite3ext.set_writes_inhibited(False)
        db = Connection(dbfile, bs)
        db.execute('CREATE TABLE foo (id INTEGER PRIMARY KEY, data BLOB)')
        db.close()  # file systems are mounted on existing databases, never on new ones
        db = Connection(dbfile, bs)
        params = FsAttributes(metadata_block_size=bs, data_block_size=bs, seq_no=7)
        truth = {}  # seq_no -> (params, bytes of the database)
        full = True  # the next backup has to be complete
        serial = 0

        def data(n):
            nonlocal serial
            serial += 1
            return (b'%d,' % serial) * (n // 4)

        async def restored(p):
            with contextlib.suppress(FileNotFoundError):
                os.unlink(os.path.join(root, 'out'))
            conn = await download_metadata(be, os.path.join(root, 'out'), p)
            conn.close()
            with open(os.path.join(root, 'out'), 'rb') as fh:
                return fh.read()

        def content(path):
            with open(path, 'rb') as fh:
                return fh.read()

        async def verify():
            listed = sorted(
                int(m.group(1), 16)
                for m in map(PARAMS_RE.match, inspect.local_keys(be_dir)) if m
            )  # fmt: skip
            check(listed == sorted(truth), 'backups %r are listed, expected %r', listed,
                  sorted(truth))  # fmt: skip
            for seq in listed:
                p, ref = truth[seq]
                got = await restored(p.copy())
                check(got == ref, 'backup %d does not restore the database it was taken from',
                      seq)  # fmt: skip
            info.label('restore', len(listed))

        async def backup(incremental, closed=False):
            nonlocal full
            if not closed:
                db.sync_checkpoint()
            await upload_metadata(be, db, params, incremental=incremental and not full)
            full = False
            await upload_params(be, params)
            truth[params.seq_no] = (params.copy(), content(dbfile))
            params.seq_no += 1

        for op in case['ops']:
            name = op[0]
            info.label(name)
            if name == 'ins':
                for k in range(1 + op[1] % 8):
                    db.execute('INSERT OR REPLACE INTO foo VALUES(?, ?)',
                               (op[1] + k, data(op[2])))  # fmt: skip
            elif name == 'del':
                db.execute('DELETE FROM foo WHERE id BETWEEN ? AND ?', (op[1], op[1] + op[2]))
            elif name == 'upd':
                db.execute('UPDATE foo SET data=? WHERE id=?', (data(op[2]), op[1]))
            elif name == 'vac':
                db.execute('VACUUM')
            elif name == 'skip':
                params.seq_no += op[1]
            elif name == 'backup':
                await backup(op[1])
            elif name == 'busy':
                # what a mounted file system does: upload while changes go on, then once more
                # with changes held back
                db.sync_checkpoint()

                async def change(op=op):
                    for k in range(op[2]):
                        await trio.sleep(0.01 * (k % 3))
                        db.execute('INSERT OR REPLACE INTO foo VALUES(?, ?)',
                                   ((op[1] + 5 * k) % 64, data(3000)))  # fmt: skip
                        if k % 2:
                            await db.checkpoint()

                async with trio.open_nursery() as nursery:
                    nursery.start_soon(change)
                    await upload_metadata(be, db, params, update_params=False,
                                          incremental=not full)  # fmt: skip
                    full = False
                    async with db.inhibit_writes():
                        await upload_metadata(be, db, params)
                        await upload_params(be, params)
                        truth[params.seq_no] = (params.copy(), content(dbfile))
                        params.seq_no += 1
            elif name == 'fail':
                # interrupted; as after a crash, the next backup is complete and has a new number
                db.sync_checkpoint()
                fault['left'] = op[1]
                try:
                    await upload_metadata(be, db, params)
                except BaseExceptionGroup as exc:
                    check(exc.subgroup(lambda e: not isinstance(
                        e, (PermFault, trio.Cancelled, BaseExceptionGroup))) is None,
                        'interrupted upload raised %r', exc)  # fmt: skip
                    info.label('interrupted')
                except PermFault:
                    info.label('interrupted')
                fault['left'] = None
                full = True
                params.seq_no += 1
            elif name == 'expire':
                await expire_objects(be, versions_to_keep=op[1])
                for seq in sorted(truth)[: -op[1]]:
                    del truth[seq]
                await verify()
                if truth:
                    check_needed(be_dir, [p for p, _ in truth.values()])
            elif name == 'remount':  # unmounting: the last backup is made of the closed database
                db.close()
                await backup(True, closed=True)
                sqlite3ext.reset()
                db = Connection(dbfile, bs)
            elif name == 'reopen':
                # the tracker only knows about changes since opening, so everything has to be
                # uploaded the next time
                db.close()
                sqlite3ext.reset()
                full = True
                db = Connection(dbfile, bs)
        await backup(True)
        await verify()
        db.close()

    with env.Scratch() as root, patched(wrap, names=('write_fh',)):
        env.trio_run(main, root)
    lab = info.labels
    info.nontrivial = lab.get('restore', 0) >= 3


def check_needed(be_dir, kept):
    '''Metadata blocks that no backup needs are removed'''
    blocks = {}
    for k in inspect.local_keys(be_dir):
        m = re.match('^s3ql_metadata_([0-9a-f]+)_([0-9a-f]+)$', k)
        if m:
            blocks.setdefault(int(m.group(1), 16), set()).add(int(m.group(2), 16))
    for b, seqs in blocks.items():
        need = set()
        for p in kept:
            if b * p.metadata_block_size < p.db_size:
                need.add(max(s for s in seqs if s <= p.seq_no))
        check(seqs == need, 'versions %r of metadata block %d are stored, needed are %r',
              sorted(seqs), b, sorted(need))  # fmt: skip


# =========================================================================== command line tools


def cli_strategy():
    from hypothesis import strategies as st

    n = st.integers(0, 31)
    inner = st.one_of(
        st.tuples(st.just('grow'), n), st.tuples(st.just('grow'), n),
        st.tuples(st.just('shrink'), n, n), st.tuples(st.just('file'), n),
        st.tuples(st.just('touch'), n), st.tuples(st.just('sleep'), n),
        st.tuples(st.just('backup')), st.tuples(st.just('backup')),
        st.tuples(st.just('busy'), n), st.tuples(st.just('series'), st.integers(2, 20)),
    ).map(list)  # fmt: skip
    session = st.tuples(
        st.just('session'),
        st.lists(inner, max_size=8),
        st.sampled_from(['clean', 'clean', 'clean', 'keep', 'crash', 'uploadfault']),
        st.integers(0, 12),
    ).map(list)
    tool = st.one_of(
        st.tuples(st.just('fsck'), st.booleans()), st.tuples(st.just('vacuum')),
        st.tuples(st.just('lostcache')), st.tuples(st.just('restore'), n),
    ).map(list)  # fmt: skip
    return st.fixed_dictionaries({
        'cfg': st.fixed_dictionaries({
            'meta_kib': st.sampled_from([4, 4, 8, 64]),
            'compress': st.sampled_from(['none', 'zlib-6']),
            'pw': st.sampled_from([None, None, 'pw']),
            'sched': st.integers(0, 100),
            'delays': st.lists(st.integers(0, 3), max_size=4),
        }),
        'ops': st.lists(st.one_of(session, session, session, tool), min_size=1, max_size=8),
    })  # fmt: skip


class _Kill(BaseException):
    pass


class History:
    def __init__(self, w, info):
        self.w = w
        self.info = info
        self.truth = {}  # seq_no -> Want
        self.files = {}  # seq_no -> bytes of the parameter object
        self.fragile = set()  # numbers whose backup may have been interrupted
        self.count = 0
        self.names = []  # creation order
        self.ever = set()

    # -- observation

    def listed(self):
        res = {}
        for k, p in inspect.local_keys(self.w.be).items():
            m = PARAMS_RE.match(k)
            if m:
                with open(p, 'rb') as fh:
                    res[int(m.group(1), 16)] = fh.read()
        return res

    def observe(self, want, expired=True):
        '''All backups that are new or were replaced since the last call must restore *want*'''
        cur = self.listed()
        for seq, buf in cur.items():
            if self.files.get(seq) != buf:
                self.truth[seq] = want
        gone = set(self.files) - set(cur)
        self.ever |= set(cur)
        if expired:
            order = sorted(set(self.files) | set(cur))
            check(not gone & set(order[-KEEP:]), 'backup %r removed although it is one of the '
                  'newest %d', sorted(gone & set(order[-KEEP:])), KEEP)  # fmt: skip
        self.files = cur
        return cur

    def dump(self):
        '''Logical content of the local database'''
        src = self.w.cachepath() + '.db'
        if not os.path.exists(src):  # cache is lost, so nothing has changed since the last time
            return self.last
        tmp = os.path.join(self.w.root, 'dump.db')
        for ext in ('', '-wal'):
            with contextlib.suppress(FileNotFoundError):
                os.unlink(tmp + ext)
            if os.path.exists(src + ext):
                shutil.copyfile(src + ext, tmp + ext)
        conn = sqlite3.connect(tmp)
        conn.execute('PRAGMA journal_mode=DELETE')
        conn.close()
        self.last = inspect.load_db(tmp)
        return self.last

    # -- restoring

    def restore(self, seq, strict=True):
        w = self.w
        saved = w.cachedir
        d = os.path.join(w.root, 'restore')
        shutil.rmtree(d, ignore_errors=True)
        w.use_cachedir('restore')
        try:
            order = sorted(self.files)
            res = w.adm(*w.common(), 'restore-metadata', w.url,
                        stdin='%d\n' % order.index(seq), reraise=False)  # fmt: skip
            shown = [int(x, 16) for x in re.findall(r'^ *\d+ ([0-9a-f]{10,}) ', res.stdout, re.M)]
            check(shown == order, 'restore-metadata lists %r, the backend has %r', shown, order)
            self.info.label('restore')
            if res.code != 0:
                check(seq in self.fragile and 'checksum' in str(res.exc),
                      'backup %x can not be restored: %r %s', seq, res.code, res.exc)  # fmt: skip
                self.info.label('restore-refused')
                return False
            db = inspect.load_db(w.cachepath() + '.db')
            self.truth[seq](db, seq)
            return True
        finally:
            w.cachedir = saved

    def restore_all(self):
        for seq in sorted(self.files):
            self.restore(seq)

    # -- actions inside a session

    def name(self):
        self.count += 1
        return b'%06d-' % self.count + b'n' * 200


def exact(want, info):
    def compare(db, seq):
        for t in want:
            check(db[t] == want[t], 'backup %x restores different %s: %s', seq, t,
                  difference(want[t], db[t]))  # fmt: skip

    return compare


def difference(a, b):
    for x in a:
        if x not in b:
            return 'missing %r' % x
    for x in b:
        if x not in a:
            return 'extra %r' % x
    return 'order'


def between(lo, hi):
    '''A state between two moments, while entries lo..hi were created one after the other'''

    def compare(db, seq):
        names = {r['name'] for r in db['names']}
        have = [n for n in hi if n in names]
        check(have[: len(lo)] == lo, 'backup %x misses entries that existed when it was started',
              seq)  # fmt: skip
        check(have == hi[: len(have)], 'backup %x has later but not earlier entries', seq)
        inodes = {r['id'] for r in db['inodes']}
        for r in db['contents']:
            check(r['inode'] in inodes, 'backup %x has an entry without inode', seq)

    return compare


def cli_run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        h = History(w, info)
        h.observe(exact(h.dump(), info))
        for op in case['ops']:
            info.label(op[0])
            env.vtime.advance(3)
            if op[0] == 'session':
                session(h, op, info)
            elif op[0] == 'fsck':
                res = w.fsck(*(['--force'] if op[1] else []))
                check(res.code == 0, 'fsck exits with %r (%s)', res.code, res.exc)
                h.observe(exact(h.dump(), info))
            elif op[0] == 'vacuum':
                before = h.dump()
                res = w.adm(*w.common(), 'shrink-db', w.url)
                check(res.code == 0, 'shrink-db exits with %r (%s)', res.code, res.exc)
                exact(before, info)(h.dump(), 0)
                h.observe(exact(before, info))
            elif op[0] == 'lostcache':
                w.drop_cachedir()
            elif op[0] == 'restore':
                order = sorted(h.files)
                h.restore(order[op[1] % len(order)])
            check(len(h.files) <= KEEP + 1, '%d backups are kept', len(h.files))
        h.restore_all()
        # go back to one of them for good
        ok = [s for s in sorted(h.files) if s not in h.fragile]
        if ok and h.count:
            seq = ok[(h.count * 7) % len(ok)]
            res = w.adm(*w.common(), 'restore-metadata', w.url,
                        stdin='%d\n' % sorted(h.files).index(seq))  # fmt: skip
            check(res.code == 0, 'restore-metadata exits with %r (%s)', res.code, res.exc)
            db = h.dump()
            res = w.fsck()
            check(res.code in (0, 128), 'fsck after restore exits with %r (%s)', res.code, res.exc)
            after = h.dump()
            for t in ('contents', 'inodes'):
                missing = [r for r in db[t] if r not in after[t]]
                if t == 'contents':
                    gone = {r['inode'] for r in missing}
                else:
                    gone = {r['id'] for r in missing}
                data = {r['inode'] for r in db['inode_blocks']}
                check(not gone - data - {1, 3}, 'fsck after restore lost %r', gone - data)
            res = w.fsck('--force')
            check(res.code == 0, 'second fsck after restore exits with %r', res.code)
            info.label('restored')

            async def driver(ops):
                return True

            w.drop_cachedir()
            res = w.mount(driver)
            check(res.code == 0 and res.driver, 'mount after restore: %r', res.code)
    lab = info.labels
    info.nontrivial = lab.get('restore', 0) >= 3 and lab.get('change', 0) >= 1


def session(h, op, info):
    import trio

    from harness.tree import Ctx

    w = h.w
    _, ops, end, at = op
    ctx = Ctx()
    state = {'want': None, 'kill': False}

    async def driver(fs):
        async def ctrl(cmd):
            from s3ql import CTRL_INODE

            await fs.setxattr(CTRL_INODE, cmd, b'x', ctx)

        async def create():
            n = h.name()
            a = await fs.mkdir(1, n, stat.S_IFDIR | 0o755, ctx)
            await fs.forget([(a.st_ino, 1)])
            h.names.append(n)

        async def backup():
            await ctrl(b's3ql_flushcache!')
            old = max(h.files)
            await ctrl(b'upload-meta')
            want = h.dump()
            state['want'] = exact(want, info)
            for _ in range(1000):
                await trio.sleep(1)
                if max(h.listed()) > old:
                    break
            else:
                raise Violation('metadata backup was requested but never happened')
            await trio.sleep(5)
            h.observe(exact(want, info))
            info.label('backup')

        h.observe(exact(h.dump(), info), expired=False)
        for o in ops:
            if o[0] == 'grow':
                for _ in range(o[1] + 1):
                    await create()
                info.label('change')
            elif o[0] == 'shrink':
                lo = o[1]
                for n in h.names[lo : lo + o[2]]:
                    await fs.rmdir(1, n, ctx)
                del h.names[lo : lo + o[2]]
                info.label('change')
            elif o[0] == 'file':
                n = h.name()
                fi, a = await fs.create(1, n, stat.S_IFREG | 0o644, os.O_RDWR, ctx)
                await fs.write(fi.fh, 0, n * (o[1] + 1))
                await fs.release(fi.fh)
                await fs.forget([(a.st_ino, 1)])
            elif o[0] == 'touch':
                if h.names:
                    a = await fs.lookup(1, h.names[o[1] % len(h.names)], ctx)
                    await fs.setxattr(a.st_ino, b'user.t', b'%d' % h.count, ctx)
                    await fs.forget([(a.st_ino, 1)])
            elif o[0] == 'sleep':
                await trio.sleep(o[1] * 3)
            elif o[0] == 'backup':
                await backup()
            elif o[0] == 'series':
                for k in range(o[1]):
                    if k % 3 == 0:
                        await create()
                    await backup()
            elif o[0] == 'busy':
                await ctrl(b's3ql_flushcache!')
                lo = list(h.names)
                old = max(h.files)
                await ctrl(b'upload-meta')
                for k in range(o[1] + 1):
                    await trio.sleep(0.005 * (k % 4))
                    await create()
                hi = list(h.names)
                for _ in range(1000):
                    if max(h.listed()) > old:
                        break
                    await trio.sleep(1)
                else:
                    raise Violation('metadata backup was requested but never happened')
                await trio.sleep(5)
                h.observe(between(lo, hi))
                info.label('busy-backup')
        if end in ('crash', 'uploadfault'):
            await ctrl(b's3ql_flushcache!')
            await ctrl(b'upload-meta')
            state['want'] = exact(h.dump(), info)
            state['kill'] = True
            await trio.sleep(1000)
        return True

    fault = {'left': at}

    def wrap(name, orig):
        async def write_fh(self, key, fh, *a, **kw):
            if state['kill'] and key.startswith(('s3ql_meta', 's3ql_params')):
                fault['left'] -= 1
                if fault['left'] < 0:
                    raise _Kill() if end == 'crash' else PermFault('injected')
            return await orig(self, key, fh, *a, **kw)

        return write_fh

    args = ['--keep-cache'] if end == 'keep' else []
    if end in ('clean', 'keep'):
        res = w.mount(driver, *args)
        check(res.code == 0 and res.driver, 'mount: %r (%s)', res.code, res.exc)
        h.observe(exact(h.dump(), info))
        return
    with patched(wrap, names=('write_fh',)):
        res = w.mount(driver, crash=(_Kill,), reraise=False)
    if res.code == 0:  # the backup was complete before the fault was due
        h.observe(state['want'], expired=False)
        h.observe(exact(h.dump(), info))
        return
    info.label('killed')
    w.after_death()
    cur = h.observe(state['want'], expired=False)
    h.fragile.add(max(cur))
    res = w.fsck()
    check(res.code in (0, 128), 'fsck after crash exits with %r (%s)', res.code, res.exc)
    h.observe(exact(h.dump(), info))


TECHNIQUE = (
    'stateful property-based testing (random histories of changes, backups, expirations, crashes '
    'and restores; every listed backup is restored and compared with a copy taken at its time)'
)
NOTE = (
    'Both the upload / download / expiry functions and the command line tools are driven; the '
    'oracle is a copy of the database (resp. a dump of its tables) taken when the backup was made.'
)
PROPERTY = Property(
    'C09',
    'Random histories of database changes, incremental / full / interrupted / concurrent backups '
    'and expirations; every backup that is listed is restored and compared with the database at '
    'its time. Non-trivial: at least three backups were restored (and, for the command line part, '
    'the tree changed in between).',
    [
        Part('api', api_strategy, api_run, quick=600, thorough=12000),
        Part('cli', cli_strategy, cli_run, quick=35, thorough=900),
    ],
    assumptions=['the number of backups to keep is the default of the code (32)'],
)
