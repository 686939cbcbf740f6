'''C08: the file system check repairs damage, converges and spares intact data.'''

import os
import random
import sqlite3
import stat

from harness import env, inspect
from harness.core import HarnessError, Part, Property, check
from harness.crash import copytree
from harness.session import FsDriver, make_world, run_history
from harness.tree import mount_tree

ROOT, CTRL = 1, 2
BASES = 24

BASE_OPS = {
    'create': (9, (31, 7, 7, 7)), 'mkdir': (7, (31, 7, 7, 7)), 'mknod': (1, (31, 7, 7, 7)),
    'symlink': (2, (31, 7, 7)), 'link': (3, (31, 31, 7)), 'unlink': (1, (31,)),
    'rename': (3, (31, 31, 7)), 'write': (12, (31, 5, 7, 9, 7)), 'truncate': (1, (31, 5, 7, 7)),
    'setattr': (2, (31, 15, 7)), 'setxattr': (4, (31, 7, 7)), 'copy': (1, (31, 31, 7)),
    'sync': (1, ()),
}  # fmt: skip


def base_history(k):
    rng = random.Random(k)
    bag = [n for n in sorted(BASE_OPS) for _ in range(BASE_OPS[n][0])]
    ops = [['mkdir', 0, 0, 2, 0], ['mkdir', 1, 1, 2, 0], ['create', 1, 0, 0, 0]]
    for _ in range(12 + 3 * (k % 8)):
        n = rng.choice(bag)
        ops.append([n] + [rng.randint(0, hi) for hi in BASE_OPS[n][1]])
    cfg = {'block_kib': 1, 'meta_kib': 4, 'compress': ['none', 'zlib-6'][k % 2], 'sched': k,
           'pw': ['secret', None, None][k % 3]}  # fmt: skip
    return cfg, ops


KINDS = {
    # kind: (weight, number of arguments)
    'delrow': (10, 2), 'refcount': (5, 3), 'dangle': (8, 3), 'move': (5, 2), 'size': (3, 2),
    'notype': (2, 1), 'hash': (2, 1), 'physsize': (2, 1), 'delobj': (4, 1), 'addobj': (2, 1),
    'orphan': (4, 2), 'lof': (3, 2), 'lofname': (3, 2), 'rename': (4, 2), 'tmpfile': (1, 1),
    'notarget': (1, 1), 'loop': (3, 1),
}  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    sel = st.integers(0, 63)
    bag = [k for k in sorted(KINDS) for _ in range(KINDS[k][0])]
    op = st.sampled_from(bag).flatmap(
        lambda k: st.tuples(st.just(k), *[sel] * KINDS[k][1]).map(list)
    )
    return st.fixed_dictionaries({
        'base': st.integers(0, BASES - 1),
        'ops': st.lists(op, min_size=1, max_size=7),
        'how': st.integers(0, 5),
    })  # fmt: skip


# ------------------------------------------------------------------------------ base file systems

_bases = {}


def base_world(root, k, info):
    '''A cleanly unmounted file system with the history no. *k* in *root*'''
    cfg, ops = base_history(k)
    store = os.path.join(os.path.dirname(root), 'base%d' % k)
    if k not in _bases:
        w = make_world(root, cfg)
        run_history(w, FsDriver(w, cfg, type(info)()), ops)
        copytree(root, store)
        _bases[k] = w
        w.drained = env.vtime.now()
    else:
        w = _bases[k]
        env.vtime.reset()
        env.vtime.advance(w.drained - env.vtime.now() + 1)
        os.rmdir(root)
        copytree(store, root)
        os.chmod(w.authfile, 0o600)
    return w


# ------------------------------------------------------------------------------ damage

TABLES = ['contents', 'inodes', 'names', 'objects', 'inode_blocks', 'ext_attributes']
KEYCOL = {'contents': 'rowid', 'inodes': 'id', 'names': 'id', 'objects': 'id'}
LONG = [b'l' * 255, b'l' * 252, b'\xc3\xa9' * 127, b'\xff\xfe', b'x_y', b'-', b'%s%d{}', b'lost+found-1',
        b' \n', b'inode-3']  # fmt: skip


class Damage:
    def __init__(self, world, info):
        self.w = world
        self.info = info
        self.conn = sqlite3.connect(world.cachepath() + '.db', isolation_level=None)
        self.conn.text_factory = bytes
        self.conn.execute('PRAGMA foreign_keys=OFF')
        self.n = 0

    def close(self):
        self.conn.close()

    def q(self, sql, *a):
        return self.conn.execute(sql, a).fetchall()

    def do(self, sql, *a):
        try:
            n = self.conn.execute(sql, a).rowcount
        except sqlite3.IntegrityError:
            return 0
        return n

    def pick(self, rows, i):
        return rows[i % len(rows)][0] if rows else None

    def apply(self, op):
        n = getattr(self, 'd_' + op[0])(*op[1:])
        if n:
            self.info.label(op[0])

    def inodes(self, cond='1', extra=''):
        return self.q('SELECT id FROM inodes WHERE id NOT IN (1,2) AND %s ORDER BY id %s'
                      % (cond, extra))  # fmt: skip

    FILES = '(mode & 61440) = 32768'
    DIRS = '(mode & 61440) = 16384'

    def d_delrow(self, t, i):
        t = TABLES[t % len(TABLES)]
        cond = 'id NOT IN (1,2)' if t == 'inodes' else '1'
        r = self.pick(self.q('SELECT rowid FROM %s WHERE %s ORDER BY rowid' % (t, cond)), i)
        return self.do('DELETE FROM %s WHERE rowid=?' % t, r)

    def d_refcount(self, t, i, v):
        t = ['inodes', 'names', 'objects'][t % 3]
        cond = 'id NOT IN (1,2)' if t == 'inodes' else '1'
        r = self.pick(self.q('SELECT id FROM %s WHERE %s ORDER BY id' % (t, cond)), i)
        v = [0, 1, 2, -1, 3, 1000][v % 6]
        return self.do('UPDATE %s SET refcount=? WHERE id=? AND refcount!=?' % t, v, r, v)

    def d_dangle(self, what, i, j):
        '''A column refers to something missing (or, if that is a valid damage, something else)'''
        t, col = [('contents', 'name_id'), ('contents', 'inode'), ('contents', 'parent_inode'),
                  ('inode_blocks', 'inode'), ('inode_blocks', 'obj_id'),
                  ('ext_attributes', 'name_id'), ('ext_attributes', 'inode'),
                  ('symlink_targets', 'inode')][what % 8]  # fmt: skip
        r = self.pick(self.q('SELECT rowid FROM %s ORDER BY rowid' % t), i)
        new = 5000 + j % 3
        if j % 4 == 3:
            if col == 'obj_id':
                new = self.pick(self.q('SELECT id FROM objects ORDER BY id'), j)
            elif col == 'name_id':
                new = self.pick(self.q('SELECT id FROM names ORDER BY id'), j)
            elif col == 'inode' and t == 'contents':
                new = self.pick(self.inodes(self.FILES), j)
        if t == 'symlink_targets' or new is None:
            if t == 'symlink_targets':  # the symlink itself stays complete
                return self.do('INSERT INTO symlink_targets(inode, target) VALUES(?,?)', 5000 + j,
                               b'gone')  # fmt: skip
            return 0
        return self.do('UPDATE %s SET %s=? WHERE rowid=?' % (t, col), new, r)

    def d_move(self, i, j):
        '''Entry moves to another directory without anything else noticing'''
        r = self.pick(self.q('SELECT rowid FROM contents ORDER BY rowid'), i)
        d = self.pick(self.q('SELECT id FROM inodes WHERE %s AND id != 2 ORDER BY id' % self.DIRS), j)
        return self.do('UPDATE contents SET parent_inode=? WHERE rowid=?', d, r)

    def d_loop(self, i):
        '''A directory becomes its own child'''
        d = self.pick(self.inodes(self.DIRS), i)
        return self.do('UPDATE contents SET parent_inode=? WHERE inode=?', d, d)

    def d_size(self, i, v):
        r = self.pick(self.inodes(self.FILES), i)
        v = [0, 1, 1023, 1024, 1025, 5000][v % 6]
        return self.do('UPDATE inodes SET size=? WHERE id=?', v, r)

    def d_notype(self, i):
        r = self.pick(self.inodes('(%s OR %s)' % (self.FILES, self.DIRS)), i)
        return self.do('UPDATE inodes SET mode = mode & 4095 WHERE id=?', r)

    def d_hash(self, i):
        r = self.pick(self.q('SELECT id FROM objects ORDER BY id'), i)
        return self.do('UPDATE objects SET hash=NULL WHERE id=?', r)

    def d_physsize(self, i):
        r = self.pick(self.q('SELECT id FROM objects ORDER BY id'), i)
        return self.do('UPDATE objects SET phys_size=-1 WHERE id=?', r)

    def keys(self):
        return {k: p for k, p in inspect.local_keys(self.w.be).items() if k.startswith('s3ql_data_')}

    def d_delobj(self, i):
        k = sorted(self.keys().items())
        if k:
            os.unlink(k[i % len(k)][1])
        return len(k)

    def d_addobj(self, i):
        async def add():
            async with await inspect.open_backend(self.w) as be:
                await be.store('s3ql_data_%d' % (7000 + i % 5), b'junk')

        env.trio_run(add)
        return 1

    def d_tmpfile(self, i):
        with open(os.path.join(self.w.be, 's3ql_data_%d#%d-%d.tmp' % (i, 100 + i, i)), 'wb') as fh:
            fh.write(b'x')
        return 1

    def d_orphan(self, what, v):
        self.n += 1
        if what % 4 == 0:
            return self.do('INSERT INTO names(name, refcount) VALUES(?,?)', b'orphan%d' % self.n, v % 3)
        if what % 4 == 1:
            return self.do('INSERT INTO objects(hash, refcount, phys_size, length) VALUES(?,?,?,?)',
                           b'%032d' % self.n, v % 3, [-1, 10][v % 2], 10)  # fmt: skip
        mode = stat.S_IFREG if what % 4 == 2 else stat.S_IFDIR
        return self.do('INSERT INTO inodes(uid,gid,mode,mtime_ns,atime_ns,ctime_ns,refcount,size) '
                       'VALUES(?,?,?,?,?,?,?,?)', 5, 6, mode | 0o640, 10**9, 2 * 10**9, 3 * 10**9,
                       v % 3, 0)  # fmt: skip

    def lof(self):
        r = self.q("SELECT contents.rowid, inode FROM contents JOIN names ON names.id=name_id "
                   "WHERE name=? AND parent_inode=1", b'lost+found')  # fmt: skip
        return r[0] if r else (None, None)

    def d_lof(self, how, i):
        rowid, ino = self.lof()
        if rowid is None:
            return 0
        if how % 5 == 0:
            return self.do('DELETE FROM contents WHERE rowid=?', rowid)
        if how % 5 == 1:
            f = self.pick(self.inodes(self.FILES), i)
            return self.do('UPDATE contents SET inode=? WHERE rowid=?', f, rowid) if f else 0
        if how % 5 == 2:
            return self.do('UPDATE contents SET parent_inode=inode WHERE rowid=?', rowid)
        if how % 5 == 3:
            return self.do('DELETE FROM inodes WHERE id=?', ino)
        return self.do('UPDATE names SET name=? WHERE name=?', b'found+lost', b'lost+found')

    def d_lofname(self, i, k):
        '''lost+found already contains the names that the check would use'''
        _, lof = self.lof()
        if lof is None:
            return 0
        ino = self.pick(self.inodes(), i)
        path = [b'inode-%d' % (ino or 0), b'-%d' % (ino or 0), b'inode-%d-1' % (ino or 0), b'a'][k % 4]
        name = self.q('SELECT id FROM names WHERE name=?', path)
        if name:
            nid = name[0][0]
            self.do('UPDATE names SET refcount=refcount+1 WHERE id=?', nid)
        else:
            self.do('INSERT INTO names(name, refcount) VALUES(?,1)', path)
            nid = self.q('SELECT id FROM names WHERE name=?', path)[0][0]
        if self.q('SELECT 1 FROM contents WHERE parent_inode=? AND name_id=?', lof, nid):
            return 0
        self.do('INSERT INTO inodes(uid,gid,mode,mtime_ns,atime_ns,ctime_ns,refcount,size) '
                'VALUES(0,0,?,1,2,3,1,0)', stat.S_IFREG | 0o600)  # fmt: skip
        new = self.q('SELECT max(id) FROM inodes')[0][0]
        return self.do('INSERT INTO contents(name_id, inode, parent_inode) VALUES(?,?,?)', nid, new, lof)

    def d_rename(self, i, k):
        r = self.pick(self.q('SELECT id FROM names WHERE name != ? ORDER BY id', b'lost+found'), i)
        return self.do('UPDATE names SET name=? WHERE id=?', LONG[k % len(LONG)], r)

    def d_notarget(self, i):
        r = self.pick(self.q('SELECT inode FROM symlink_targets ORDER BY inode'), i)
        return self.do('DELETE FROM symlink_targets WHERE inode=?', r)


# ------------------------------------------------------------------------------ what is intact


class View:
    '''What a metadata database and a set of objects mean, as far as it is unambiguous'''

    def __init__(self, db, objects, bs):
        self.db = db
        self.inodes = {r['id']: r for r in db['inodes']}
        self.names = {r['id']: r['name'] for r in db['names']}
        self.objs = {r['id']: r for r in db['objects']}
        self.have = objects  # {id: contents}
        self.blocks = {}  # inode -> {blockno: contents or None}
        for r in db['inode_blocks']:
            o = self.objs.get(r['obj_id'])
            data = objects.get(r['obj_id']) if o is not None and o['hash'] is not None else None
            self.blocks.setdefault(r['inode'], {})[r['blockno']] = data
        self.minsize = {
            i: max(b * bs + (len(d) if d is not None else 0) for b, d in bl.items())
            for i, bl in self.blocks.items()
        }
        self.xattr = {}  # inode -> sorted [(name or None, value)]
        for r in db['ext_attributes']:
            self.xattr.setdefault(r['inode'], []).append((self.names.get(r['name_id']), r['value']))
        self.targets = {r['inode']: r['target'] for r in db['symlink_targets']}
        self.entries = {}
        self.byinode = {}
        for r in db['contents']:
            self.entries.setdefault(r['parent_inode'], []).append(r)
            self.byinode.setdefault(r['inode'], []).append(r)
        self.paths = {}
        self.walk(ROOT, b'', set())

    def lossy(self, ino):
        return any(d is None for d in self.blocks.get(ino, {}).values())

    def walk(self, ino, path, above):
        for r in self.entries.get(ino, ()):
            name = self.names.get(r['name_id'])
            child = self.inodes.get(r['inode'])
            if name is None or child is None or child['id'] in above or child['id'] == ROOT:
                continue
            if not stat.S_IFMT(child['mode']):
                continue
            if stat.S_ISDIR(child['mode']):
                if len(self.byinode[child['id']]) > 1:
                    continue
                self.paths[path + b'/' + name] = child['id']
                self.walk(child['id'], path + b'/' + name, above | {ino})
            elif not self.lossy(child['id']) and (ino, name) != (ROOT, b'lost+found'):
                self.paths[path + b'/' + name] = child['id']

    def attrs(self, ino):
        r = self.inodes[ino]
        return tuple(r[k] for k in ('uid', 'gid', 'mtime_ns', 'atime_ns', 'ctime_ns', 'rdev', 'locked'))

    def lof(self):
        for r in self.entries.get(ROOT, ()):
            if self.names.get(r['name_id']) == b'lost+found':
                return r['inode']
        return None


def unix_problems(db):
    '''Oddities that the check reports every time but has no repair for'''
    v = View(db, {}, 1024)
    out = []
    for i, r in v.inodes.items():
        t = v.targets.get(i)
        m = r['mode']
        if stat.S_ISLNK(m) and (t is None or len(t) != r['size']):
            out.append('symlink')
        if t is not None and not stat.S_ISLNK(m):
            out.append('target')
        if v.entries.get(i) and not stat.S_ISDIR(m):
            out.append('children')
        if v.blocks.get(i) and not stat.S_ISREG(m):
            out.append('blocks')
        if r['size'] and not (stat.S_ISREG(m) or stat.S_ISLNK(m) or stat.S_ISDIR(m)):
            out.append('size')
        if r['rdev'] and not (stat.S_ISBLK(m) or stat.S_ISCHR(m)):
            out.append('rdev')
    return out


def is_damaged(db, w):
    from harness.core import Violation

    try:
        inspect.check_db(db)
        keys = inspect.local_keys(w.be)
        check(inspect.data_ids(keys) == sorted(r['id'] for r in db['objects']), 'objects')
        check(View(db, {}, 1).lof() is not None, 'no lost+found')
        v = View(db, {}, 1)
        check(stat.S_ISDIR(v.inodes[v.lof()]['mode']), 'lost+found')
    except Violation as exc:
        return str(exc)
    return None


def compare(before, after, bs):
    '''Nothing that was intact may have changed'''
    for p, ino in before.paths.items():
        check(after.paths.get(p) == ino, 'intact entry %r (inode %d) is %s after the check', p[-80:],
              ino, after.paths.get(p))  # fmt: skip
    for ino, r in before.inodes.items():
        check(ino in after.inodes, 'inode %d vanished', ino)
        a = after.inodes[ino]
        if stat.S_IFMT(r['mode']):
            check(a['mode'] == r['mode'], 'mode of inode %d changed', ino)
        check(after.attrs(ino) == before.attrs(ino), 'attributes of inode %d changed: %r -> %r', ino,
              before.attrs(ino), after.attrs(ino))  # fmt: skip
        check(before.targets.get(ino) == after.targets.get(ino), 'target of symlink %d changed', ino)
        want = {b: d for b, d in before.blocks.get(ino, {}).items() if d is not None}
        check(after.blocks.get(ino, {}) == want, 'intact blocks %r of inode %d are %r after the check',
              sorted(want), ino, sorted(after.blocks.get(ino, {})))  # fmt: skip
        size = max(r['size'], max([b * bs + len(d) for b, d in want.items()], default=0))
        check(a['size'] == size, 'size of inode %d is %d after the check, was %d with blocks up to %d',
              ino, a['size'], r['size'], size)  # fmt: skip
        xb = before.xattr.get(ino, [])
        xa = list(after.xattr.get(ino, []))
        check(len(xa) == len(xb), 'inode %d has %d attributes after the check, had %d', ino, len(xa),
              len(xb))  # fmt: skip
        for n, v in xb:
            if n is not None:
                check((n, v) in xa, 'attribute %r of inode %d is gone', n, ino)
                xa.remove((n, v))
        check(sorted(v for n, v in xb if n is None) == sorted(v for _, v in xa),
              'attribute values of inode %d changed', ino)  # fmt: skip
        if ino in (ROOT, CTRL):
            continue
        links = len(before.byinode.get(ino, ())) or 1
        ents = before.byinode.get(ino, ())
        now = len(after.byinode.get(ino, ()))
        # a misplaced entry "lost+found" may become a new directory
        lf = any(before.names.get(e['name_id']) == b'lost+found' for e in ents)
        check(now == links or lf and now in (links - 1, 1), 'inode %d has %d entries after the check, '
              'had %d', ino, now, links)  # fmt: skip
        if before.lossy(ino):
            for e in after.byinode[ino]:
                check(e['parent_inode'] == after.lof(), 'inode %d lost data but is still in its old '
                      'directory %d', ino, e['parent_inode'])  # fmt: skip


def fsck_ok(res, what):
    errs = [r.getMessage() for r in res.logs if r.levelname in ('ERROR', 'CRITICAL')]
    check(res.code in (0, 128), '%s exits with %r (%s) %s', what, res.code, res.exc, errs[:3])


def run(case, info):
    with env.Scratch() as root:
        w = base_world(root, case['base'] % BASES, info)
        bs = w.block_kib * 1024
        d = Damage(w, info)
        for op in case['ops']:
            d.apply(op)
        d.close()
        objects = inspect.read_objects_by_file(w)
        dbfile = w.cachepath() + '.db'
        damaged = inspect.load_db(dbfile)
        before = View(damaged, objects, bs)
        why = is_damaged(damaged, w)
        odd = unix_problems(damaged)

        res = w.fsck('--force')
        fsck_ok(res, 'fsck')
        if why:
            check(res.code == 128, 'damage is not reported: %s', why)
            info.label('damaged')
        if res.code == 0:
            # nothing that anyone could notice (the database was changed behind the back of the
            # change tracking, so the rest does not apply)
            check(inspect.load_db(dbfile) == damaged, 'fsck changed the metadata silently')
            return
        repaired = inspect.load_db(dbfile)
        data = {}
        odd = unix_problems(repaired)
        if not odd:
            inspect.check_db(repaired)
        keys = inspect.local_keys(w.be)
        have = inspect.data_ids(keys)
        check(have == sorted(r['id'] for r in repaired['objects']),
              'after the check the backend holds %r, metadata knows %r', have,
              sorted(r['id'] for r in repaired['objects']))  # fmt: skip
        data = {i: objects[i] for i in have}
        after = View(repaired, data, bs)
        check(not any(after.lossy(i) for i in after.inodes), 'block without data')
        lof = after.lof()
        check(lof is not None and stat.S_ISDIR(after.inodes[lof]['mode']), 'no lost+found')
        compare(before, after, bs)
        left = [f for _, _, fs in os.walk(w.be) for f in fs if '#' in f]
        check(not left, 'temporary files are left: %r', left[:3])

        # a second check has nothing to do, also with the metadata from the backend
        fresh = case['how'] % 2 and res.code == 128
        if fresh:
            w.drop_cachedir()
        env.vtime.advance(10)
        res2 = w.fsck('--force')
        fsck_ok(res2, 'second fsck')
        warned = inspect.warnings_of(res2)
        if odd:
            check(res2.code == 128, 'second fsck is silent about %r', odd)
        else:
            check(res2.code == 0 and not warned, 'second fsck exits with %r: %r', res2.code, warned[:3])
        check(inspect.load_db(dbfile) == repaired, 'second fsck (%s) has different metadata',
              'from the backend' if fresh else 'local')  # fmt: skip
        if odd:
            return
        if case['how'] >= 2:
            # and it can be used
            res3, tree = mount_tree(w)
            check(res3.code == 0 and tree is not None, 'mount after repair exits with %r (%s)',
                  res3.code, res3.exc)  # fmt: skip
            for p, ino in after.paths.items():
                if p.split(b'/')[1:] == [b'.__s3ql__ctrl__']:
                    continue
                check(p in tree and tree[p].ino == ino, 'entry %r is not visible', p)
                if stat.S_ISREG(after.inodes[ino]['mode']):
                    buf = bytearray(after.inodes[ino]['size'])
                    for b, blk in after.blocks.get(ino, {}).items():
                        buf[b * bs : b * bs + len(blk)] = blk
                    check(tree[p].data == bytes(buf), 'contents of %r differ', p)
            info.label('mounted')
    lab = info.labels
    info.nontrivial = lab.get('damaged', 0) >= 1 and len(case['ops']) >= 2


TECHNIQUE = (
    'property-based testing: generated combinations of metadata and object damage, with an '
    'independent reading of the database as oracle (intact view preserved, convergence, fixpoint)'
)
NOTE = (
    'Combinations of up to 7 damages (24 kinds, any row) applied to generated file systems; the '
    'check must end normally, report structural damage, preserve everything that an independent '
    'reading of the damaged database finds intact, leave a sound database, converge (a second check '
    'finds nothing and changes nothing, with local or downloaded metadata) and leave it mountable. '
    'Loss of the root directory itself and oddities the check only reports are excluded.'
)
PROPERTY = Property(
    'C08',
    '1-7 damages out of 17 kinds applied to one of 24 generated file systems. Non-trivial: at least '
    'two damages, and the independent invariant check finds the database or backend damaged.',
    [Part('damage', strategy, run, quick=150, thorough=5000)],
)
HarnessError  # noqa
