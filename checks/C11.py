'''C11: modified, exchanged or truncated encrypted objects are always detected.'''

import ast
import base64
import hashlib
import io
import os
import re
import struct

from harness import env, objects
from harness.core import Part, Property, check

KEYS = ('s3ql_data_1', 's3ql_data_2', 's3ql_params')
PASS = (b'secret', b'other')


def literal():
    from hypothesis import strategies as st

    return st.one_of(
        st.sampled_from([
            'None', '0', '2', '-1', '3.5', '1j', 'True', '[]', '()', '{}', "b''", "''", "'None'",
            "'AES_v2'", "'ZLIB'", "'LZMA'", "'BZIP2'", "b'AAAA'", "b'!'", "'\\ud800'", 'set()',
            '1e999', "b'\\xff'", '[1, 2]', "{'a': 1}", '10**9', 'x', '"', '-' * 30 + '1',
            '9' * 5000, '[' * 150 + ']' * 150, '[' * 3000 + ']' * 3000, '-' * 9000 + '1',
        ]),
        st.binary(max_size=20).map(repr), st.text(max_size=10).map(ascii),
    )  # fmt: skip


def strategy(forged=False):
    from hypothesis import strategies as st

    obj = st.tuples(
        st.integers(0, len(KEYS) - 1), st.integers(0, 9).map(lambda x: int(x == 0)),
        st.sampled_from(['none', *objects.ALGS] if forged else objects.ALGS), objects.content(), objects.meta(max_size=3),
    ).map(list)  # fmt: skip
    pos = st.one_of(st.integers(0, 400), st.integers(-60, -1), st.floats(0, 1))
    other = st.integers(0, 4)
    field = st.sampled_from(['format_version', 'compression', 'encryption', 'nonce', 'data',
                             'object_id', 'signature', 'payload_offset', 'other'])  # fmt: skip
    tag = st.one_of(st.just(['keep']), st.tuples(st.just('cut'), st.sampled_from([0, 0, 1, 16, 31])),
                    st.tuples(st.just('ext'), st.integers(1, 40)), st.just(['zero']), st.just(['sha']),
                    st.just(['noend']))  # fmt: skip
    tag = tag.map(list)
    forge = st.tuples(
        st.just('forge'),
        st.lists(st.tuples(
            st.sampled_from(['flip', 'flip', 'drop', 'dup', 'trunc', 'split', 'join', 'add', 'len',
                             'swap']),
            st.integers(0, 40), st.one_of(st.integers(0, 300), st.integers(0, 70000))).map(list),
            min_size=int(forged), max_size=3), tag)  # fmt: skip
    mut = st.one_of(
        st.tuples(st.just('flip'), pos, st.integers(0, 7)),
        st.tuples(st.just('flip'), pos, st.integers(0, 7)),
        st.tuples(st.just('cut'), pos), st.tuples(st.just('extend'), st.binary(max_size=40).map(bytes.hex)),
        st.tuples(st.just('del'), pos, st.integers(1, 40)),
        st.tuples(st.just('ins'), pos, st.binary(max_size=40).map(bytes.hex)),
        st.tuples(st.just('dup'), pos, pos), st.tuples(st.just('zero'), pos, st.integers(1, 300)),
        st.tuples(st.just('swap'), other), st.tuples(st.just('body'), other),
        st.tuples(st.just('head'), other), st.tuples(st.just('plain'), st.booleans()),
        st.tuples(st.just('field'), field, literal()), st.tuples(st.just('field'), field, literal()),
        st.tuples(st.just('copyfield'), field, other), st.tuples(st.just('delfield'), field),
        st.tuples(st.just('strip'), st.sampled_from(['None', 'AES_v2'])),
        forge,
        st.tuples(st.just('bytes'), field, st.sampled_from(['cut', 'flip', 'head', 'ext']),
                  st.integers(0, 40)),
        st.tuples(st.just('rawhead'), st.binary(max_size=60).map(bytes.hex)),
        st.tuples(st.just('rawhead'), literal().map(lambda x: x.encode('utf-8', 'replace').hex())),
    ).map(list)  # fmt: skip
    return st.fixed_dictionaries({
        'objs': st.lists(obj, min_size=1, max_size=5),
        'target': st.integers(0, 4),
        'muts': (st.tuples(forge.map(list)).map(list) if forged
                 else st.lists(mut, min_size=1, max_size=3)),
        'alg': st.sampled_from(objects.ALGS),
    })  # fmt: skip


def at(pos, n):
    if isinstance(pos, float):
        return min(int(pos * n), max(n - 1, 0))
    return pos % n if n else 0


def split(raw):
    n = struct.unpack('<H', raw[7:9])[0] if len(raw) >= 9 else 0
    return raw[9:9 + n], raw[9 + n:]


def join(head, body):
    head = head[:65535]
    return b's3ql_1\n' + struct.pack('<H', len(head)) + head + body


def fields(head):
    '''Dictionary literal -> list of (name, literal)'''
    return re.findall(rb"'(\w+)': (b?'(?:[^'\\]|\\.)*'|b?\"(?:[^\"\\]|\\.)*\"|[^,']+)(?:, | \})", head)


def build(fl):
    return b'{ ' + b', '.join(b"'%s': %s" % f for f in fl) + b' }'


def forge(raw, edits, tag):
    '''What somebody could do who knows the plaintext, and thus the key stream, but not the key'''
    from cryptography.hazmat.primitives import ciphers

    head, body = split(raw)
    try:
        nonce = base64.b64decode(ast.literal_eval(dict(fields(head))[b'nonce'].decode()))
    except (KeyError, ValueError, SyntaxError, UnicodeDecodeError, TypeError):
        return raw
    key = hashlib.sha256(PASS[0] + nonce).digest()
    enc = ciphers.Cipher(ciphers.algorithms.AES(key), ciphers.modes.CTR(bytes(16))).encryptor()
    keys = enc.update(bytes(len(body) + 100000))

    def xor(buf):
        buf = buf[: len(keys)]
        n = len(buf)
        return (int.from_bytes(buf, 'big') ^ int.from_bytes(keys[:n], 'big')).to_bytes(n, 'big')

    plain = xor(body)
    chunks, pos = [], 0
    while True:
        n = int.from_bytes(plain[pos : pos + 4], 'little')
        if n == 0 or pos + 4 + n > len(plain):
            break
        chunks.append((n, plain[pos + 4 : pos + 4 + n]))
        pos += 4 + n
    mac = plain[pos + 4 :]
    for kind, i, v in edits:
        if not chunks:
            if kind == 'add':
                chunks.append((v % 300 + 1, b'x' * (v % 300 + 1)))
            continue
        i %= len(chunks)
        n, c = chunks[i]
        v %= len(c)
        if kind == 'flip':
            chunks[i] = (n, c[:v] + bytes([c[v] ^ 1]) + c[v + 1 :])
        elif kind == 'drop':
            del chunks[i]
        elif kind == 'dup':
            chunks.insert(i, (n, c))
        elif kind == 'trunc' and v:
            chunks[i] = (v, c[:v])
        elif kind == 'split' and v:
            chunks[i : i + 1] = [(v, c[:v]), (len(c) - v, c[v:])]
        elif kind == 'join' and i + 1 < len(chunks):
            c += chunks.pop(i + 1)[1]
            chunks[i] = (len(c), c)
        elif kind == 'add':
            chunks.append((v + 1, b'x' * (v + 1)))
        elif kind == 'len':
            chunks[i] = (v, c)
        elif kind == 'swap':
            chunks.insert(0, chunks.pop(i))
    out = b''.join(struct.pack('<I', n) + c for n, c in chunks)
    if tag[0] != 'noend':
        out += struct.pack('<I', 0)
    if tag[0] == 'cut':
        mac = mac[: tag[1]]
    elif tag[0] == 'ext':
        mac += b'y' * tag[1]
    elif tag[0] == 'zero':
        mac = bytes(len(mac))
    elif tag[0] == 'sha':
        mac = hashlib.sha256(out).digest()
    return join(head, xor(out + mac))


def mutate(raw, m, raws, plain):
    op = m[0]
    n = len(raw)
    head, body = split(raw)
    if op == 'flip' and n:
        p = at(m[1], n)
        return raw[:p] + bytes([raw[p] ^ (1 << m[2])]) + raw[p + 1:]
    if op == 'cut':
        return raw[:at(m[1], n)]
    if op == 'extend':
        return raw + bytes.fromhex(m[1])
    if op == 'del':
        p = at(m[1], n)
        return raw[:p] + raw[p + m[2]:]
    if op == 'ins':
        p = at(m[1], n)
        return raw[:p] + bytes.fromhex(m[2]) + raw[p:]
    if op == 'dup':
        a, b = sorted((at(m[1], n), at(m[2], n)))
        return raw[:b] + raw[a:b] + raw[b:]
    if op == 'zero':
        p = at(m[1], n)
        return raw[:p] + b'\0' * len(raw[p:p + m[2]]) + raw[p + m[2]:]
    if op == 'swap':
        return raws[m[1] % len(raws)]
    if op == 'body':
        return join(head, split(raws[m[1] % len(raws)])[1])
    if op == 'head':
        return join(split(raws[m[1] % len(raws)])[0], body)
    if op == 'plain':
        return plain if m[1] else join(split(plain)[0], body)
    if op == 'rawhead':
        return join(bytes.fromhex(m[1]), body)
    if op == 'forge':
        return forge(raw, m[1], m[2])
    fl = fields(head)
    if op == 'bytes':
        for j, (k, v) in enumerate(fl):
            if k != m[1].encode():
                continue
            try:
                buf = ast.literal_eval(v.decode())
                b64 = isinstance(buf, bytes)
                buf = base64.b64decode(buf) if b64 else str(buf).encode()
            except (ValueError, SyntaxError, UnicodeDecodeError):
                continue
            i = m[3] % (len(buf) + 1)
            buf = {'cut': buf[:i], 'head': buf[i:], 'ext': buf + b'z' * i,
                   'flip': buf[:i] + bytes(x ^ 2 for x in buf[i : i + 1]) + buf[i + 1 :]}[m[2]]  # fmt: skip
            fl[j] = (k, repr(base64.b64encode(buf) if b64 else buf.decode('latin1')).encode())
    elif op == 'field':
        lit = m[2].encode('utf-8', 'replace')
        name = m[1].encode()
        fl = [(k, lit if k == name else v) for k, v in fl]
        if name not in dict(fl):
            fl.append((name, lit))
    elif op == 'copyfield':
        src = dict(fields(split(raws[m[2] % len(raws)])[0]))
        name = m[1].encode()
        fl = [(k, src.get(k, v) if k == name else v) for k, v in fl]
    elif op == 'delfield':
        fl = [(k, v) for k, v in fl if k != m[1].encode()]
    elif op == 'strip':
        # pretend that there is no encryption
        fl = [(k, b"'%s'" % m[1].encode() if k == b'encryption' else v) for k, v in fl
              if k not in (b'nonce', b'signature', b'object_id')]  # fmt: skip
    return join(build(fl), body)


def run(case, info):
    env.vtime.reset()
    with env.Scratch() as root:
        be = os.path.join(root, 'be')
        os.mkdir(be)

        from checks.C12 import raw_file

        async def main():
            from s3ql.backends.common import CorruptedObjectError
            from s3ql.backends.comprenc import ObjectNotEncrypted

            versions = {}
            raws = []
            for key, pp, alg, cspec, mspec in case['objs']:
                env.vtime.advance(1)
                b = await objects.stack(be, PASS[pp], alg, 6)
                data, meta = objects.make(cspec), objects.make_meta(mspec)
                meta.pop('__size', None)
                await b.store(KEYS[key], data, meta)
                raws.append((KEYS[key], raw_file(be, KEYS[key])))
                if pp == 0:
                    versions.setdefault(KEYS[key], []).append((data, meta))
            key, orig = raws[case['target'] % len(raws)]
            allraw = [r for _, r in raws]
            pb = await objects.stack(be, None, case['alg'], 6)
            await pb.store('plain', b'plain text', {'a': 1})
            plain = raw_file(be, 'plain')
            # undamaged objects of this name are fine, whatever else is stored
            raw = orig
            for m in case['muts']:
                raw = mutate(raw, m, allraw, plain)
            path = os.path.join(be, key)
            for d, _, files in os.walk(be):
                if key in files:
                    path = os.path.join(d, key)
            with open(path, 'wb') as fh:
                fh.write(raw)
            info.nontrivial = raw != orig
            good = versions.get(key, [])
            b = await objects.stack(be, PASS[0], case['alg'], 3)

            async def attempt(what, fn):
                try:
                    res = await fn()
                except (CorruptedObjectError, ObjectNotEncrypted):
                    info.label('detected')
                    return None
                info.label('returned')
                return res

            async def into():
                fh = io.BytesIO()
                m = await b.readinto_fh(key, fh, size_hint=10)
                return fh.getvalue(), m

            for what, fn in (('fetch', lambda: b.fetch(key)), ('readinto_fh', into)):
                res = await attempt(what, fn)
                if res is None:
                    continue
                check(
                    any(bytes(res[0]) == d and objects.same(res[1], m) for d, m in good),
                    '%s of a modified object returns %r, %r', what, bytes(res[0])[:80], res[1],
                )  # fmt: skip
            m = await attempt('lookup', lambda: b.lookup(key))
            if m is not None:
                check(any(objects.same(m, g) for _, g in good),
                      'lookup of a modified object returns %r', m)  # fmt: skip
            # and the wrong passphrase never works
            b2 = await objects.stack(be, b'wrong', case['alg'], 3)
            for fn in (lambda: b2.fetch(key), lambda: b2.lookup(key)):
                res = await attempt('wrong passphrase', fn)
                check(res is None, 'object can be read with the wrong passphrase: %r', res)
            if raw == orig and any(m[0] not in ('swap', 'body', 'head') for m in case['muts']):
                pass

        env.trio_run(main)


TECHNIQUE = 'structure-aware mutation fuzzing of stored objects against the set of stored versions'
NOTE = (
    'Mutations of the stored file (bits, ranges, header fields with arbitrary literals, header or '
    'body of another object, an older version, an unencrypted object). The objects were written '
    'by the real code.'
)
PROPERTY = Property(
    'C11',
    'One to five encrypted objects (several versions and passphrases), one or two mutations of '
    'the stored form, read in four ways. Allowed are only the documented corruption errors or '
    'exactly a version stored under that name. Non-trivial: the stored bytes differ.',
    [
        Part('mutate', strategy, run, quick=500, thorough=20000),
        Part('forge', lambda: strategy(True), run, quick=250, thorough=10000),
    ],
)
