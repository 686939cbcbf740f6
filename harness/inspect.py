'''Independent look at what a file system stores: the metadata database and the backend'''

import hashlib
import os
import re
import sqlite3
import stat

from .core import HarnessError, check

TABLES = ('objects', 'inodes', 'inode_blocks', 'symlink_targets', 'names', 'contents',
          'ext_attributes')  # fmt: skip
ROOT = 1
CTRL = 2


def load_db(path):
    '''Content of all tables, as {table: sorted list of rows}. *path* is not modified.'''
    if not os.path.exists(path):
        raise HarnessError('no database %s' % path)
    uri = 'file:%s?mode=ro&immutable=1' % path.replace('%', '%25').replace('?', '%3f')
    conn = sqlite3.connect(uri, uri=True)
    conn.text_factory = bytes
    res = {}
    try:
        for t in TABLES:
            cur = conn.execute('SELECT * FROM ' + t)
            cols = [d[0] for d in cur.description]
            rows = [dict(zip(cols, r)) for r in cur]
            rows.sort(key=lambda r: repr(sorted(r.items())))
            res[t] = rows
    finally:
        conn.close()
    return res


def check_db(db, allow_null_hash=False):
    '''The documented invariants of the metadata tables'''
    inodes = {r['id']: r for r in db['inodes']}
    objects = {r['id']: r for r in db['objects']}
    names = {r['id']: r for r in db['names']}

    check(ROOT in inodes and stat.S_ISDIR(inodes[ROOT]['mode']), 'no root directory')

    refs = {}
    children = {}
    nameuse = {}
    for r in db['contents']:
        check(r['inode'] in inodes, 'directory entry refers to missing inode %d', r['inode'])
        check(r['parent_inode'] in inodes, 'directory entry in missing inode %d',
              r['parent_inode'])  # fmt: skip
        check(stat.S_ISDIR(inodes[r['parent_inode']]['mode']),
              'inode %d has entries but is not a directory', r['parent_inode'])  # fmt: skip
        check(r['name_id'] in names, 'directory entry with missing name')
        refs[r['inode']] = refs.get(r['inode'], 0) + 1
        children.setdefault(r['parent_inode'], []).append(r['inode'])
        nameuse[r['name_id']] = nameuse.get(r['name_id'], 0) + 1
    for r in db['ext_attributes']:
        check(r['inode'] in inodes, 'extended attribute of missing inode %d', r['inode'])
        check(r['name_id'] in names, 'extended attribute with missing name')
        nameuse[r['name_id']] = nameuse.get(r['name_id'], 0) + 1
    for i, n in names.items():
        check(n['refcount'] == nameuse.get(i, 0), 'name %r has reference count %d, is used %d times',
              n['name'], n['refcount'], nameuse.get(i, 0))  # fmt: skip
        check(n['refcount'] > 0, 'name %r is not used', n['name'])
    for i, r in inodes.items():
        if i in (ROOT, CTRL):
            continue
        check(r['refcount'] == refs.get(i, 0), 'inode %d has reference count %d, %d entries',
              i, r['refcount'], refs.get(i, 0))  # fmt: skip
        check(r['refcount'] > 0, 'inode %d is not used', i)
    # reachability, no loops
    seen = {ROOT}
    stack = [ROOT]
    while stack:
        for c in children.get(stack.pop(), ()):
            if stat.S_ISDIR(inodes[c]['mode']):
                check(c not in seen, 'directory inode %d has two parents', c)
            if c not in seen:
                seen.add(c)
                stack.append(c)
    for i in inodes:
        check(i in seen or i == CTRL, 'inode %d is not reachable', i)

    orefs = {}
    for r in db['inode_blocks']:
        check(r['inode'] in inodes, 'block of missing inode %d', r['inode'])
        check(r['obj_id'] in objects, 'block refers to missing object %d', r['obj_id'])
        check(stat.S_ISREG(inodes[r['inode']]['mode']), 'inode %d has blocks', r['inode'])
        orefs[r['obj_id']] = orefs.get(r['obj_id'], 0) + 1
    hashes = set()
    for i, o in objects.items():
        check(o['refcount'] == orefs.get(i, 0), 'object %d has reference count %d, is used %d times',
              i, o['refcount'], orefs.get(i, 0))  # fmt: skip
        check(o['refcount'] > 0, 'object %d is not used', i)
        if not allow_null_hash:
            check(o['hash'] is not None, 'object %d has no hash', i)
            check(o['phys_size'] > 0, 'object %d has size %d', i, o['phys_size'])
        check(o['hash'] not in hashes, 'two objects with the same contents')
        if o['hash'] is not None:
            hashes.add(o['hash'])
    for r in db['symlink_targets']:
        check(r['inode'] in inodes, 'symlink target of missing inode')
        check(stat.S_ISLNK(inodes[r['inode']]['mode']), 'symlink target of a non-symlink')
        check(inodes[r['inode']]['size'] == len(r['target']), 'symlink size is not target length')
    nlinks = sum(1 for r in inodes.values() if stat.S_ISLNK(r['mode']))
    check(nlinks == len(db['symlink_targets']), '%d symlinks but %d targets', nlinks,
          len(db['symlink_targets']))  # fmt: skip
    return inodes, objects


_ESC = re.compile('=([0-9A-Fa-f]{2})')


def local_keys(be):
    '''Keys of a local:// backend, with the file that holds each'''
    res = {}
    for d, _, files in os.walk(be):
        for f in files:
            if '#' in f:  # temporary file of an unfinished upload
                continue
            key = _ESC.sub(lambda m: chr(int(m.group(1), 16)), f)
            check(key not in res, 'key %s is stored twice', key)
            res[key] = os.path.join(d, f)
    return res


def data_ids(keys):
    return sorted(int(k[len('s3ql_data_'):]) for k in keys if k.startswith('s3ql_data_'))


async def open_backend(world):
    from s3ql.authinfo import Authinfo
    from s3ql.backends import open_backend as ob

    ai = Authinfo.from_file(world.authfile, world.url)
    return await ob(world.url + '/', ai, compress=ai.compress)


def read_objects(world, ids=None):
    '''Fetch (id -> bytes) the data objects through a fresh backend stack'''
    from .env import trio_run

    out = {}

    async def run():
        async with await open_backend(world) as be:
            for i in ids if ids is not None else data_ids(local_keys(world.be)):
                data, _ = await be.fetch('s3ql_data_%d' % i)
                out[i] = bytes(data)

    trio_run(run)
    return out


def check_backend(world, db):
    '''The backend holds exactly the objects of *db*, with the right contents and sizes'''
    keys = local_keys(world.be)
    have = data_ids(keys)
    want = sorted(r['id'] for r in db['objects'])
    check(have == want, 'backend holds data objects %r, metadata knows %r', have, want)
    data = read_objects(world, have)
    for r in db['objects']:
        buf = data[r['id']]
        check(sha(buf) == r['hash'], 'object %d does not have the recorded hash', r['id'])
        check(len(buf) == r['length'], 'object %d has length %d, recorded is %d', r['id'],
              len(buf), r['length'])  # fmt: skip
        raw = os.path.getsize(keys['s3ql_data_%d' % r['id']])
        check(r['phys_size'] == raw, 'object %d has stored size %d, recorded is %d', r['id'],
              raw, r['phys_size'])  # fmt: skip
    return data


def check_files(db, data, block_size, empty=False):
    '''Blocks lie inside their files and are no longer than a block

    *empty*: an interrupted write may have left an empty block at the end of the file.
    '''
    inodes = {r['id']: r for r in db['inodes']}
    for r in db['inode_blocks']:
        size = inodes[r['inode']]['size']
        slack = empty and not data[r['obj_id']]
        check(r['blockno'] * block_size < size + slack, 'inode %d of size %d has block %d',
              r['inode'], size, r['blockno'])  # fmt: skip
        check(len(data[r['obj_id']]) <= block_size, 'block is too long')


def sha(buf):
    return hashlib.sha256(buf).digest()


_file_cache = {}


def read_objects_by_file(world):
    '''Like read_objects(), but remembers the contents by the bytes stored'''
    keys = local_keys(world.be)
    out = {}
    todo = []
    sums = {}
    for k, p in keys.items():
        if not k.startswith('s3ql_data_'):
            continue
        i = int(k[len('s3ql_data_'):])
        with open(p, 'rb') as fh:
            sums[i] = (k, sha(fh.read()))
        if sums[i] in _file_cache:
            out[i] = _file_cache[sums[i]]
        else:
            todo.append(i)
    if todo:
        for i, data in read_objects(world, todo).items():
            out[i] = _file_cache[sums[i]] = data
    return out


def warnings_of(res, levels=('WARNING', 'ERROR', 'CRITICAL')):
    '''What a tool reported (without complaints of SQLite about what the harness does)'''
    return [r.getMessage() for r in res.logs
            if r.levelname in levels and 'unlinked while open' not in r.getMessage()]
