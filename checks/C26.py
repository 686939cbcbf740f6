'''C26: what is stored has the format of file system revision 26, in both directions.'''

import hashlib
import io
import os
import random
import sqlite3
import stat

from harness import env, format, objects
from harness.core import HarnessError, Part, Property, check
from harness.session import FsDriver, make_world, run_history
from harness.tree import mount_tree

PASSPHRASES = (None, b'secret', b'\x00\xffother' * 5)
KEYS = ('s3ql_data_1', 's3ql_data_999', 's3ql_data_1000', 's3ql_data_1234567', 's3ql_params', 's3ql_metadata_00000000001f_00000000a0',
        's3ql_passphrase_bak1', 'a=b/c#d=2F')  # fmt: skip
READS = ('fetch', 'fh', 'hint', 'badhint', 'file')


def objects_strategy():
    from hypothesis import strategies as st

    obj = st.fixed_dictionaries({
        'key': st.integers(0, len(KEYS) - 1), 'pp': st.integers(0, 2), 'alg': st.sampled_from(objects.ALGS), 'level': st.integers(0, 9),
        'data': objects.content(), 'meta': objects.meta(),
        'offset': st.one_of(st.none(), st.none(), st.just(0), st.integers(1, 300), st.sampled_from([65535, 262144])),
        'size': st.booleans(), 'packet': st.sampled_from([262144, 262144, 65536, 1000, 17]),
        'nonce': st.one_of(st.none(), st.binary(min_size=1, max_size=40).map(bytes.hex)),
        'file': st.booleans(),
    })  # fmt: skip
    return st.fixed_dictionaries({
        'objs': st.lists(obj, min_size=1, max_size=4), 'reader': st.tuples(st.sampled_from(objects.ALGS), st.integers(0, 9)).map(list),
        'reads': st.lists(st.sampled_from(READS), min_size=1, max_size=3, unique=True),
    })  # fmt: skip


async def get(b, way, key, tmp, n):
    if way == 'fetch':
        return await b.fetch(key)
    if way == 'file':
        with open(tmp, 'w+b') as fh:
            meta = await b.readinto_fh(key, fh)
            fh.seek(0)
            return fh.read(), meta
    fh = io.BytesIO()
    kw = {'fh': {}, 'hint': {'size_hint': n}, 'badhint': {'size_hint': 100000 - n if n < 50000 else 1}}[way]
    meta = await b.readinto_fh(key, fh, **kw)
    return fh.getvalue(), meta


def run_objects(case, info):
    env.vtime.reset()
    with env.Scratch() as root:
        be = os.path.join(root, 'be')
        ref = os.path.join(root, 'ref')
        os.mkdir(be)
        os.mkdir(ref)
        tmp = os.path.join(root, 'tmp')

        async def main():
            stored = {}
            for o in case['objs']:
                key, pp = KEYS[o['key']], PASSPHRASES[o['pp']]
                data, meta = objects.make(o['data']), objects.make_meta(o['meta'])
                if {'__size', 'signature'} & set(meta) or len(repr(meta)) > 20000:
                    continue
                # s3ql writes, the reference implementation reads
                b = await objects.stack(be, pp, o['alg'], o['level'])
                if o['file']:
                    with open(tmp, 'w+b') as fh:
                        fh.write(data)
                        fh.seek(0)
                        size = await b.write_fh(key, fh, len(data), meta)
                else:
                    size = await b.store(key, data, meta)
                check(os.path.getsize(format.path_of(be, key)) == size, 'stored size is wrong')
                got, gmeta = format.decode(key, *format.read_file(be, key), pp)
                check(got == data, 'object %s of %d bytes does not have its contents', key, len(data))
                check(objects.same(gmeta, meta), 'object %s has metadata %r instead of %r', key, gmeta, meta)
                # the other way round
                nonce = None if o['nonce'] is None else bytes.fromhex(o['nonce'])
                raw, body = format.encode(key, data, meta, pp, o['alg'], o['level'], o['offset'], o['size'],
                                          o['packet'], nonce)  # fmt: skip
                format.write_file(ref, key, raw, body)
                stored[key] = (pp, data, meta)
                if o['offset']:
                    info.label('payload offset')
                if not o['size']:
                    info.label('without size')
                if pp:
                    info.label('encrypted')
            check(format.keys_of(be) == sorted(stored), 'stored keys are %r', format.keys_of(be))
            for key, (pp, data, meta) in stored.items():
                b = await objects.stack(ref, pp, *case['reader'])
                for way in case['reads']:
                    got, gmeta = await get(b, way, key, tmp, len(data))
                    check(bytes(got) == data, 'foreign object %s of %d bytes is read wrongly (%s)', key, len(data), way)
                    check(objects.same(gmeta, meta), 'foreign object has metadata %r instead of %r', gmeta, meta)
                m = await b.lookup(key)
                check(objects.same(m, meta), 'lookup() of foreign object returns %r instead of %r', m, meta)
                check(await b.contains(key), 'foreign object is not there')
                info.nontrivial |= len(data) > 0
            if stored:
                b = await objects.stack(ref, pp, *case['reader'])
                names = sorted([k async for k in b.list('')])
                check(names == sorted(stored), 'foreign objects are listed as %r', names)

        env.trio_run(main)


# ------------------------------------------------------------- what s3ql writes

WEIGHTS = {
    'create': 8, 'mkdir': 4, 'symlink': 3, 'mknod': 2, 'link': 3, 'unlink': 3, 'rename': 3, 'write': 14, 'truncate': 3,
    'setattr': 4, 'setxattr': 4, 'removexattr': 1, 'copy': 2, 'lock': 1, 'sync': 2, 'upmeta': 2, 'remount': 2,
}  # fmt: skip
FIELDS = ('mode', 'uid', 'gid', 'size', 'nlink', 'rdev', 'mtime', 'ctime', 'data', 'target', 'xattr')


def written_strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({
        'cfg': fsops.cfg(), 'ops': fsops.op_list(WEIGHTS, 3, 40), 'label': st.sampled_from(['', 'x', "it's ä \\"]),
        'fsck': st.booleans(),
    })  # fmt: skip


def compare(want, got, what):
    check(set(want) == set(got), '%s: only stored: %r, only seen: %r', what, sorted(set(want) - set(got))[:4],
          sorted(set(got) - set(want))[:4])  # fmt: skip
    for p, w in want.items():
        g = got[p]
        for f in FIELDS:
            a, b = getattr(w, f), getattr(g, f)
            if f == 'size' and stat.S_ISDIR(w.mode):
                continue
            check(a == b, '%s: %s of %r is %.60r instead of %.60r', what, f, p, b, a)


def run_written(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = FsDriver(w, case['cfg'], info)
        run_history(w, drv, case['ops'])
        if case['fsck']:
            res = w.fsck('--force')
            check(res.code == 0, 'fsck exits with %r (%r)', res.code, res.exc)
            w.after_death()
        params, tree = format.tree_of(w.be, w.passphrase, os.path.join(root, 'db'))
        check(params['revision'] == 26 and not params['is_mounted'] and not params['needs_fsck'], 'parameters are %r', params)
        check(params['data_block_size'] == w.block_kib * 1024 and params['metadata_block_size'] == w.meta_kib * 1024,
              'parameters are %r', params)  # fmt: skip
        w.drop_cachedir()
        res, seen = mount_tree(w)
        check(res.code == 0 and seen, 'mount exits with %r (%r)', res.code, res.exc)
        compare(tree, seen, 'reference reader')
        info.nontrivial |= len(tree) > 3
        if w.passphrase:
            info.label('encrypted')


# -------------------------------------------------------------- what s3ql reads


def foreign_strategy():
    from hypothesis import strategies as st

    name = st.one_of(
        st.binary(min_size=1, max_size=12), st.sampled_from([b'a', b'b', b'\xff\xfe', 'ä'.encode(), b'x' * 255, b' ', b'..a'])
    ).filter(lambda b: b not in (b'.', b'..') and b'/' not in b and b'\0' not in b).map(bytes.hex)  # fmt: skip
    node = st.fixed_dictionaries({
        'kind': st.sampled_from(['d', 'd', 'f', 'f', 'f', 'f', 'l', 'h', 'p', 's', 'c', 'b']),
        'parent': st.integers(0, 50), 'name': name, 'gap': st.sampled_from([0, 0, 0, 1, 7, 100000]),
        'mode': st.integers(0, 0o7777), 'ids': st.sampled_from([[0, 0], [1000, 5], [4294967294, 65536]]),
        'times': st.lists(st.sampled_from([0, 1, 999999999, 10**18 + 7, 1500000000 * 10**9, 4 * 10**18, -5]), min_size=3, max_size=3),
        'blocks': st.lists(st.tuples(st.integers(0, 9), st.integers(0, 6), st.integers(0, 4)).map(list), max_size=5,
                           unique_by=lambda b: b[0]),
        'size': st.tuples(st.integers(0, 10), st.sampled_from([0, 1, 100, 1023, -1])).map(list),
        'target': st.binary(min_size=1, max_size=60).filter(lambda b: b'\0' not in b).map(bytes.hex),
        'rdev': st.sampled_from([0, 1, 259, 65535, 2**31]),
        'xattr': st.lists(st.tuples(name, st.binary(max_size=30).map(bytes.hex)).map(list), max_size=2, unique_by=lambda x: x[0]),
        'locked': st.sampled_from([0, 0, 0, 1]),
    })  # fmt: skip
    return st.fixed_dictionaries({
        'pw': st.sampled_from([None, None, 'geheim', 'ä€ x']), 'nodes': st.lists(node, min_size=1, max_size=14),
        'block_kib': st.sampled_from([1, 4, 64]), 'meta_kib': st.sampled_from([4, 8, 64]), 'page': st.sampled_from([4096, 4096, 1024]),
        'alg': st.sampled_from(objects.ALGS), 'objgap': st.sampled_from([0, 0, 990, 2**33]),
        'seq': st.sampled_from([0x10, 0xffff, 1700000000, 2**32 + 5, 2**39]), 'label': st.sampled_from(['', 'x', "it's ä"]),
        'fill': st.sampled_from([0, 0, 60, 300]), 'old': st.booleans(), 'seed': st.integers(0, 10**6), 'wal': st.booleans(),
        'threads': st.integers(1, 3),
    })  # fmt: skip


class Builder:
    '''Makes a file system out of a description with the reference implementation'''

    def __init__(self, case, root):
        self.case = case
        self.rnd = random.Random(case['seed'])
        self.be = os.path.join(root, 'be')
        self.path = os.path.join(root, 'ref.db')
        self.pw = case['pw']
        self.master = hashlib.sha256(b'%d' % case['seed']).digest() if self.pw is not None else None
        self.bs = case['block_kib'] * 1024
        self.names = {}
        self.nameref = {}
        self.objects = {}
        self.objref = {}
        self.tree = {}
        self.dirs = [(b'', 1)]
        self.files = []

    def name(self, name):
        if name not in self.names:
            cur = self.db.execute('INSERT INTO names (name, refcount) VALUES (?, 1)', (name,))
            self.names[name] = cur.lastrowid
        else:
            self.db.execute('UPDATE names SET refcount = refcount + 1 WHERE id=?', (self.names[name],))
        return self.names[name]

    def object(self, data):
        h = format.sha(data)
        if h not in self.objects:
            i = self.next_obj
            self.next_obj += self.rnd.choice([1, 1, 1, 2, 500])
            case = self.case
            alg = self.rnd.choice([case['alg'], 'none'])
            old = case['old'] and self.rnd.random() < 0.5
            key = 's3ql_data_%d' % i
            n = format.write_file(self.be, key, *format.encode(
                key, data, {}, self.master, alg, 6, self.rnd.randrange(1, 200) if old and self.rnd.random() < 0.5 else None, not old))  # fmt: skip
            self.db.execute('INSERT INTO objects (id, hash, refcount, phys_size, length) VALUES (?,?,0,?,?)', (i, h, n, len(data)))
            self.objects[h] = i
        self.db.execute('UPDATE objects SET refcount = refcount + 1 WHERE id=?', (self.objects[h],))
        return self.objects[h]

    def inode(self, i, mode, spec, refcount=1, size=0, rdev=0):
        t = spec['times']
        self.db.execute('INSERT INTO inodes (id, uid, gid, mode, mtime_ns, atime_ns, ctime_ns, refcount, size, rdev, locked) '
                        'VALUES (?,?,?,?,?,?,?,?,?,?,?)',
                        (i, *spec['ids'], mode, *t, refcount, size, rdev, spec['locked']))  # fmt: skip
        n = format.Node()
        n.ino, n.mode, (n.uid, n.gid), n.size, n.rdev, n.nlink = i, mode, spec['ids'], size, rdev, refcount
        n.mtime, n.atime, n.ctime = t
        n.data = n.target = n.error = None
        n.xattr = {}
        return n

    def entry(self, parent, name, i):
        self.db.execute('INSERT INTO contents (name_id, inode, parent_inode) VALUES (?,?,?)', (self.name(name), i, parent))

    def content(self, spec, size):
        out = bytearray(size)
        blocks = []
        for no, what, cut in spec['blocks']:
            off = no * self.bs
            if off >= size:
                continue
            data = random.Random(what).randbytes(self.bs)[:self.bs - cut * 100] if what else bytes(self.bs - cut * 100)
            data = data[:size - off]
            if not data:
                continue
            out[off:off + len(data)] = data
            blocks.append((no, data))
        return bytes(out), blocks

    def add(self, spec):
        kind = spec['kind']
        ppath, parent = self.dirs[spec['parent'] % len(self.dirs)]
        path = ppath + b'/' + bytes.fromhex(spec['name'])
        if path in self.tree or len(path) > 3000:
            return
        if kind == 'h':
            if not self.files:
                return
            other = self.files[spec['gap'] % len(self.files)]
            other.nlink += 1
            self.db.execute('UPDATE inodes SET refcount = refcount + 1 WHERE id=?', (other.ino,))
            self.entry(parent, bytes.fromhex(spec['name']), other.ino)
            self.tree[path] = other
            return
        i = self.next_ino + spec['gap']
        self.next_ino = i + 1
        mode = spec['mode'] & (0o7777 if kind != 'l' else 0o777)
        size = rdev = 0
        if kind == 'f':
            size = max(0, spec['size'][0] * self.bs + spec['size'][1])
        elif kind == 'l':
            size = len(spec['target']) // 2
        elif kind in 'cb':
            rdev = spec['rdev']
        mode |= {'d': stat.S_IFDIR, 'f': stat.S_IFREG, 'l': stat.S_IFLNK, 'p': stat.S_IFIFO, 's': stat.S_IFSOCK,
                 'c': stat.S_IFCHR, 'b': stat.S_IFBLK}[kind]  # fmt: skip
        n = self.inode(i, mode, spec, size=size, rdev=rdev)
        self.tree[path] = n
        self.entry(parent, bytes.fromhex(spec['name']), i)
        if kind == 'd':
            self.dirs.append((path, i))
        elif kind == 'f':
            n.data, blocks = self.content(spec, size)
            for no, data in blocks:
                self.db.execute('INSERT INTO inode_blocks (inode, blockno, obj_id) VALUES (?,?,?)', (i, no, self.object(data)))
            self.files.append(n)
        elif kind == 'l':
            n.target = bytes.fromhex(spec['target'])
            self.db.execute('INSERT INTO symlink_targets (inode, target) VALUES (?,?)', (i, n.target))
        for k, v in spec['xattr']:
            k, v = bytes.fromhex(k), bytes.fromhex(v)
            n.xattr[k] = v
            self.db.execute('INSERT INTO ext_attributes (inode, name_id, value) VALUES (?,?,?)', (i, self.name(k), v))

    def build(self):
        case = self.case
        self.db = sqlite3.connect(self.path)
        self.db.execute('PRAGMA page_size = %d' % case['page'])
        if case['wal']:
            self.db.execute('PRAGMA journal_mode = WAL')
        self.db.executescript(format.SCHEMA)
        base = {'ids': [0, 0], 'times': [10**18, 10**18, 10**18], 'locked': 0}
        self.tree[b''] = self.inode(1, stat.S_IFDIR | 0o755, base)
        self.inode(2, stat.S_IFREG | 0o600, base, refcount=42)
        self.tree[b'/lost+found'] = self.inode(3, stat.S_IFDIR | 0o700, base)
        self.entry(1, b'lost+found', 3)
        self.next_ino = 4
        self.next_obj = 1 + case['objgap']
        for spec in case['nodes']:
            self.add(spec)
        # enough rows to need several metadata blocks
        for k in range(case['fill']):
            i = self.next_ino
            self.next_ino += 1
            name = b'fill %d ' % k + b'.' * (k % 90)
            self.tree[b'/lost+found/' + name] = self.inode(i, stat.S_IFLNK | 0o777, base, size=5)
            self.tree[b'/lost+found/' + name].target = b'right'
            self.db.execute('INSERT INTO symlink_targets (inode, target) VALUES (?,?)', (i, b'right'))
            self.entry(3, name, i)
        self.db.execute('ANALYZE') if case['seed'] % 2 else None
        self.db.commit()
        self.db.close()
        with open(self.path, 'rb') as fh:
            buf = fh.read()
        now = env.vtime.now_ns() / 1e9
        params = {
            'data_block_size': self.bs, 'metadata_block_size': case['meta_kib'] * 1024, 'seq_no': case['seq'], 'db_size': len(buf),
            'revision': 26, 'label': case['label'], 'needs_fsck': False, 'is_mounted': False, 'inode_gen': 0,
            'last_fsck': now, 'last_modified': now, 'db_md5': hashlib.sha256(buf).hexdigest(),
        }  # fmt: skip
        seq = case['seq']
        vers = {no: sorted({max(1, seq - self.rnd.choice([0, 1, 5, 15])) for _ in range(self.rnd.randrange(1, 3))})
                for no in range(-(-len(buf) // params['metadata_block_size']))}  # fmt: skip
        format.store_fs(self.be, self.pw, self.master, params, buf, vers, case['alg'])
        return params


def run_foreign(case, info):
    from harness.session import patch_icache, reset_statfs, use_schedule
    from harness.world import World

    patch_icache(100)
    use_schedule({})
    env.vtime.reset()
    reset_statfs()
    with env.Scratch() as root:
        w = World(root, passphrase=case['pw'], block_kib=case['block_kib'], meta_kib=case['meta_kib'], compress='zlib')
        bld = Builder(case, root)
        params = bld.build()
        _, ref = format.tree_of(w.be, w.passphrase, os.path.join(root, 'db'), True)
        for p, n in bld.tree.items():
            if ref[p].nlink != n.nlink or ref[p].data != n.data:
                raise HarnessError('reference writer and reader disagree about %r' % p)
        res, seen = mount_tree(w, '--max-connections', str(case['threads']))
        check(res.code == 0 and seen, 'a file system of another release cannot be mounted: %r (%r)', res.code, res.exc)
        compare(bld.tree, seen, 'file system of another release')
        info.nontrivial |= len(bld.tree) > 2
        if len(bld.objects):
            info.label('with objects')
        after, tree = format.tree_of(w.be, w.passphrase, os.path.join(root, 'db'), True)
        compare(bld.tree, tree, 'after use')
        for f in ('label', 'data_block_size', 'metadata_block_size', 'revision'):
            check(after[f] == params[f], 'parameter %s has become %r', f, after[f])
        check(after['seq_no'] >= params['seq_no'], 'sequence number went back')
        res = w.fsck('--force')
        check(res.code == 0, 'fsck of a file system of another release exits with %r (%r)', res.code, res.exc)
        w.after_death()
        res = w.verify('--data')
        check(res.code == 0, 'verify of a file system of another release exits with %r (%r)', res.code, res.exc)


TECHNIQUE = (
    'differential testing against an independent implementation of the storage format: generated objects and file systems '
    'are written by one and read by the other, in both directions'
)
NOTE = (
    'Local storage. The reference implementation (harness/format.py) uses only the standard library and the AES primitive; '
    'it was written from the documentation and the code of revision 26.'
)
PROPERTY = Property(
    'C26',
    'Objects: contents around all thresholds, all algorithms, levels and passphrases, very old objects with payload offset or without size. '
    'File systems: histories of s3ql read by the reference implementation; generated trees, blocks, gaps in numbering and metadata versions '
    'written by the reference implementation and read, checked and verified by s3ql. Non-trivial: at least one non-empty object, or '
    'a file system with more than the initial directories.',
    [
        Part('objects', objects_strategy, run_objects, quick=60, thorough=3000),
        Part('written', written_strategy, run_written, quick=12, thorough=500),
        Part('foreign', foreign_strategy, run_foreign, quick=25, thorough=1000),
    ],
)
