'''An implementation of the storage format of file system revision 26 that shares no code with s3ql:
reads and writes objects of local:// backends, parameters, and metadata.'''

import ast
import base64
import bz2
import hashlib
import hmac
import lzma
import os
import re
import sqlite3
import stat
import struct
import zlib

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from .core import HarnessError, check

TOKENS = {'none': 'None', 'zlib': 'ZLIB', 'bzip2': 'BZIP2', 'lzma': 'LZMA'}
PARAMS = ('data_block_size', 'metadata_block_size', 'seq_no', 'db_size', 'revision', 'label', 'needs_fsck',
          'is_mounted', 'inode_gen', 'last_fsck', 'last_modified', 'db_md5')  # fmt: skip
SCHEMA = '''
CREATE TABLE objects (id INTEGER PRIMARY KEY AUTOINCREMENT, hash BLOB(32) UNIQUE, refcount INT NOT NULL,
    phys_size INT NOT NULL, length INT NOT NULL);
CREATE TABLE inodes (id INTEGER PRIMARY KEY AUTOINCREMENT, uid INT NOT NULL, gid INT NOT NULL,
    mode INT NOT NULL, mtime_ns INT NOT NULL, atime_ns INT NOT NULL, ctime_ns INT NOT NULL,
    refcount INT NOT NULL, size INT NOT NULL DEFAULT 0, rdev INT NOT NULL DEFAULT 0,
    locked BOOLEAN NOT NULL DEFAULT 0);
CREATE TABLE inode_blocks (inode INTEGER NOT NULL REFERENCES inodes(id), blockno INT NOT NULL,
    obj_id INTEGER NOT NULL REFERENCES objects(id), PRIMARY KEY (inode, blockno));
CREATE TABLE symlink_targets (inode INTEGER PRIMARY KEY REFERENCES inodes(id), target BLOB NOT NULL);
CREATE TABLE names (id INTEGER PRIMARY KEY, name BLOB NOT NULL, refcount INT NOT NULL, UNIQUE (name));
CREATE TABLE contents (rowid INTEGER PRIMARY KEY AUTOINCREMENT, name_id INT NOT NULL REFERENCES names(id),
    inode INT NOT NULL REFERENCES inodes(id), parent_inode INT NOT NULL REFERENCES inodes(id),
    UNIQUE (parent_inode, name_id));
CREATE TABLE ext_attributes (inode INTEGER NOT NULL REFERENCES inodes(id),
    name_id INTEGER NOT NULL REFERENCES names(id), value BLOB NOT NULL, PRIMARY KEY (inode, name_id));
CREATE VIEW contents_v AS SELECT * FROM contents JOIN names ON names.id = name_id;
CREATE VIEW ext_attributes_v AS SELECT * FROM ext_attributes JOIN names ON names.id = name_id;
'''


def sha(b):
    return hashlib.sha256(b).digest()


def aes(key, buf):
    '''AES in counter mode (encryption and decryption are the same)'''
    c = Cipher(algorithms.AES(key), modes.CTR(bytes(16))).encryptor()
    return c.update(buf) + c.finalize()


# ---------------------------------------------------------------- dictionaries


def freeze(d):
    out = []
    for k, v in d.items():
        if isinstance(v, bytes):
            v = base64.b64encode(v)
        out.append('%r: %r' % (k, v))
    return ('{ %s }' % ', '.join(out)).encode()


def thaw(buf):
    d = ast.literal_eval(buf.decode())
    check(isinstance(d, dict), 'stored metadata are %r', d)
    return {k: base64.b64decode(v) if isinstance(v, bytes) else v for k, v in d.items()}


def checksum(d, key):
    m = hmac.new(key, digestmod=hashlib.sha256)
    for k in sorted(d):
        if k == 'signature':
            continue
        v = d[k]
        m.update(k.encode())
        if isinstance(v, str):
            m.update(b'\0s' + v.encode() + b'\0')
        elif v is None:
            m.update(b'\0n')
        elif isinstance(v, bool):
            m.update(b'\0t' if v else b'\0f')
        elif isinstance(v, int):
            m.update(b'\0i%d\0' % v)
        elif isinstance(v, float):
            m.update(b'\0d' + struct.pack('<d', v))
        elif isinstance(v, bytes):
            m.update(b'\0b' + struct.pack('<I', len(v)) + v)
        else:
            raise HarnessError('bad value')
    return m.digest()


# --------------------------------------------------------------------- objects


def encode(key, data, meta, passphrase, alg='none', level=6, offset=None, size=True, packet=262144, nonce=None):
    '''-> (headers, body) of a stored object. With *size* unset and *offset* as very old releases do it'''
    meta = dict(meta)
    if size:
        meta['__size'] = len(data)
    raw = {'format_version': 2, 'compression': TOKENS[alg]}
    body = {
        'none': lambda: data, 'zlib': lambda: zlib.compress(data, level),
        'bzip2': lambda: bz2.compress(data, max(level, 1)), 'lzma': lambda: lzma.compress(data, preset=level),
    }[alg]()  # fmt: skip
    if offset is not None:
        raw['payload_offset'] = offset
    if passphrase is None:
        raw['encryption'] = 'None'
        raw['data'] = freeze(meta)
    else:
        nonce = struct.pack('<d', 1234567.5) + key.encode() if nonce is None else nonce
        mkey = sha(passphrase + nonce + b'meta')
        raw['encryption'] = 'AES_v2'
        raw['nonce'] = nonce
        raw['data'] = aes(mkey, freeze(meta))
        raw['object_id'] = key
        raw['signature'] = checksum(raw, mkey)
        dkey = sha(passphrase + nonce)
        out = []
        for i in range(0, len(body), packet):
            p = body[i:i + packet]
            out += [struct.pack('<I', len(p)), p]
        out.append(struct.pack('<I', 0))
        buf = b''.join(out)
        body = aes(dkey, buf + hmac.new(dkey, buf, hashlib.sha256).digest())
    if offset:
        body = bytes((7 * i + 3) % 256 for i in range(offset)) + body
    return raw, body


def decode(key, raw, body, passphrase, old=False):
    '''-> (data, metadata). Everything about the object is checked. *old*: accept a payload offset'''
    check(raw.get('format_version') == 2, 'object %s: format_version %r', key, raw.get('format_version'))
    want = {'format_version', 'compression', 'encryption', 'data'}
    if passphrase is not None:
        want |= {'nonce', 'object_id', 'signature'}
    check(set(raw) >= want and (old or 'payload_offset' not in raw), 'object %s has headers %r', key, sorted(raw))
    body = body[raw.get('payload_offset', 0):]
    if passphrase is None:
        check(raw['encryption'] == 'None', 'object %s: encryption %r', key, raw['encryption'])
        meta = thaw(raw['data'])
    else:
        check(raw['encryption'] == 'AES_v2', 'object %s: encryption %r', key, raw['encryption'])
        check(raw['object_id'] == key, 'object %s: object_id %r', key, raw['object_id'])
        nonce = raw['nonce']
        mkey = sha(passphrase + nonce + b'meta')
        check(raw['signature'] == checksum(raw, mkey), 'object %s: wrong signature', key)
        try:
            meta = thaw(aes(mkey, raw['data']))
        except (ValueError, SyntaxError):
            check(False, 'object %s: metadata cannot be decrypted', key)
        dkey = sha(passphrase + nonce)
        buf = aes(dkey, body)
        out = []
        pos = 0
        while True:
            check(pos + 4 <= len(buf), 'object %s ends too early', key)
            (n,) = struct.unpack('<I', buf[pos:pos + 4])
            pos += 4
            if not n:
                break
            out.append(buf[pos:pos + n])
            pos += n
        check(buf[pos:] == hmac.new(dkey, buf[:pos], hashlib.sha256).digest(), 'object %s: wrong HMAC', key)
        body = b''.join(out)
    alg = {v: k for k, v in TOKENS.items()}.get(raw['compression'])
    check(alg, 'object %s: compression %r', key, raw['compression'])
    try:
        data = {'none': lambda: body, 'zlib': lambda: zlib.decompress(body), 'bzip2': lambda: bz2.decompress(body),
                'lzma': lambda: lzma.decompress(body)}[alg]()  # fmt: skip
    except (zlib.error, OSError, ValueError, lzma.LZMAError) as exc:
        check(False, 'object %s cannot be decompressed: %s', key, exc)
    if '__size' in meta:
        size = meta.pop('__size')
        check(size == len(data), 'object %s of %d bytes is recorded with %r', key, len(data), size)
    return data, meta


def path_of(be, key):
    key = key.replace('=', '=3D').replace('/', '=2F').replace('#', '=23')
    if not key.startswith('s3ql_data_'):
        return os.path.join(be, key)
    no = key[10:]
    return os.path.join(be, 's3ql_data_', *[no[:i] for i in range(3, len(no), 3)], key)


def write_file(be, key, raw, body):
    path = path_of(be, key)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    head = freeze(raw)
    with open(path, 'wb') as fh:
        fh.write(b's3ql_1\n' + struct.pack('<H', len(head)) + head + body)
    return os.path.getsize(path)


def read_file(be, key):
    with open(path_of(be, key), 'rb') as fh:
        buf = fh.read()
    check(buf[:7] == b's3ql_1\n', 'file of %s starts with %r', key, buf[:7])
    (n,) = struct.unpack('<H', buf[7:9])
    return thaw(buf[9:9 + n]), buf[9 + n:]


def keys_of(be, partial=False):
    out = []
    for d, _, files in os.walk(be):
        for f in files:
            if partial and f.endswith('.tmp'):
                continue
            key = f.replace('=2F', '/').replace('=23', '#').replace('=3D', '=')
            check(path_of(be, key) == os.path.join(d, f), 'file %s/%s is in the wrong place', d, f)
            out.append(key)
    return sorted(out)


# ---------------------------------------------------------------- file systems


def load_fs(be, passphrase):
    '''-> (parameters, path of database bytes, master key) of what a local:// backend holds'''
    keys = keys_of(be)
    pw = None
    if passphrase is not None:
        copies = [decode(k, *read_file(be, k), passphrase.encode())[0]
                  for k in ['s3ql_passphrase', *('s3ql_passphrase_bak%d' % i for i in (1, 2, 3))]]  # fmt: skip
        check(len(set(copies)) == 1 and len(copies[0]) == 32, 'copies of the master key differ')
        pw = copies[0]
    params = thaw(decode('s3ql_params', *read_file(be, 's3ql_params'), pw)[0])
    check(set(params) == set(PARAMS), 'parameters are %r', sorted(params))
    seq = params['seq_no']
    same = thaw(decode('s3ql_params_%010x' % seq, *read_file(be, 's3ql_params_%010x' % seq), pw)[0])
    check(same == params, 'the two copies of the parameters differ')
    vers = {}
    for k in keys:
        m = re.fullmatch('s3ql_metadata_([0-9a-f]{12})_([0-9a-f]{10})', k)
        if m:
            vers.setdefault(int(m[1], 16), []).append(int(m[2], 16))
    bs = params['metadata_block_size']
    size = params['db_size']
    db = bytearray()
    for no in range(-(-size // bs)):
        s = [v for v in vers.get(no, ()) if v <= seq]
        check(s, 'there is no usable version of metadata block %d', no)
        k = 's3ql_metadata_%012x_%010x' % (no, max(s))
        buf = decode(k, *read_file(be, k), pw)[0]
        check(len(buf) == bs or no == (size - 1) // bs, 'metadata block %d has %d bytes', no, len(buf))
        db[no * bs:] = buf
    db = bytes(db[:size])
    check(hashlib.sha256(db).hexdigest() == params['db_md5'], 'checksum of the metadata is wrong')
    return params, db, pw


class Node:
    '''(same fields as tree.Ent)'''


def tree_of(be, passphrase, tmp, old=False):
    '''{path: Node} of everything that is stored'''
    params, buf, pw = load_fs(be, passphrase)
    with open(tmp, 'wb') as fh:
        fh.write(buf)
    conn = sqlite3.connect('file:%s?mode=ro&immutable=1' % tmp, uri=True)
    conn.text_factory = bytes
    conn.row_factory = sqlite3.Row
    bs = params['data_block_size']
    cache = {}

    def obj(i):
        if i not in cache:
            k = 's3ql_data_%d' % i
            cache[i] = decode(k, *read_file(be, k), pw, old)[0]
            r = conn.execute('SELECT * FROM objects WHERE id=?', (i,)).fetchone()
            check(r['hash'] == sha(cache[i]), 'object %d does not have the recorded hash', i)
            check(r['length'] == len(cache[i]) <= bs, 'object %d does not have the recorded length', i)
        return cache[i]

    def node(i):
        r = conn.execute('SELECT * FROM inodes WHERE id=?', (i,)).fetchone()
        check(r is not None, 'inode %d is missing', i)
        n = Node()
        n.ino, n.mode, n.uid, n.gid, n.size, n.rdev = i, r['mode'], r['uid'], r['gid'], r['size'], r['rdev']
        n.mtime, n.atime, n.ctime, n.nlink = r['mtime_ns'], r['atime_ns'], r['ctime_ns'], r['refcount']
        n.data = n.target = n.error = None
        n.xattr = {bytes(a['name']): bytes(a['value']) for a in conn.execute(
            'SELECT name, value FROM ext_attributes JOIN names ON names.id = name_id WHERE inode=?', (i,))}  # fmt: skip
        if stat.S_ISLNK(n.mode):
            n.target = bytes(conn.execute('SELECT target FROM symlink_targets WHERE inode=?', (i,)).fetchone()[0])
        elif stat.S_ISREG(n.mode):
            out = bytearray(n.size)
            for b in conn.execute('SELECT * FROM inode_blocks WHERE inode=?', (i,)):
                o = b['blockno'] * bs
                part = obj(b['obj_id'])[:max(0, n.size - o)]
                out[o:o + len(part)] = part
            n.data = bytes(out)
        return n

    res = {b'': node(1)}

    def rec(path, i):
        for r in conn.execute('SELECT name, inode FROM contents JOIN names ON names.id = name_id WHERE parent_inode=?',
                              (i,)).fetchall():  # fmt: skip
            p = path + b'/' + bytes(r['name'])
            check(p not in res and len(p) < 5000, 'name %r is there twice', p)
            res[p] = node(r['inode'])
            if stat.S_ISDIR(res[p].mode):
                rec(p, r['inode'])

    rec(b'', 1)
    conn.close()
    return params, res


def store_fs(be, passphrase, master, params, db, versions=None, alg='none', level=6):
    '''Store parameters and database (bytes). *versions*: block number -> list of sequence numbers'''
    if passphrase is not None:
        for k in ['s3ql_passphrase', *('s3ql_passphrase_bak%d' % i for i in (1, 2, 3))]:
            write_file(be, k, *encode(k, master, {}, passphrase.encode()))
    bs = params['metadata_block_size']
    for no in range(-(-len(db) // bs)):
        good = db[no * bs:no * bs + bs]
        vs = (versions or {}).get(no) or [params['seq_no']]
        best = max(v for v in vs if v <= params['seq_no'])
        for v in vs:
            k = 's3ql_metadata_%012x_%010x' % (no, v)
            buf = good if v == best else bytes(255 - b for b in good)
            write_file(be, k, *encode(k, buf, {}, master, alg, level))
    buf = freeze(params)
    for k in ('s3ql_params', 's3ql_params_%010x' % params['seq_no']):
        write_file(be, k, *encode(k, buf, {}, master, alg, level))


