'''C12: stored objects read back exactly, with every compression and passphrase.'''

import base64
import bz2
import io
import lzma
import os
import re
import zlib

from harness import env, objects
from harness.core import Part, Property, check

PASSPHRASES = (None, b'secret', b'\x00\xffother' * 5)
KEYS = ('s3ql_data_1', 's3ql_data_12345', 's3ql_params', 'ob=j/e#ct \u20ac')
WAYS = ('store', 'fh', 'fh-off', 'file', 'file-off', 'nocompress')
READS = ('fetch', 'read', 'fh', 'fh-off', 'file', 'hint', 'badhint')


def strategy():
    from hypothesis import strategies as st

    write = st.tuples(
        st.integers(0, len(KEYS) - 1), st.integers(0, len(PASSPHRASES) - 1),
        st.sampled_from(objects.ALGS), st.integers(0, 9), objects.content(), objects.meta(True),
        st.sampled_from(WAYS), st.integers(0, 70),
    ).map(list)  # fmt: skip
    return st.fixed_dictionaries({
        'writes': st.lists(write, min_size=1, max_size=4),
        'reader': st.tuples(st.sampled_from(objects.ALGS), st.integers(0, 9)).map(list),
        'reads': st.lists(st.sampled_from(READS), min_size=1, max_size=4),
        'twice': st.booleans(),
    })  # fmt: skip


async def put(be, way, key, data, meta, off, tmp):
    if way == 'store':
        return await be.store(key, data, meta)
    if way in ('fh', 'nocompress'):
        return await be.write_fh(key, io.BytesIO(data), len(data), meta,
                                 **({'dont_compress': True} if way == 'nocompress' else {}))  # fmt: skip
    pad = b'#' * (off // 3)  # contents may be at the beginning, but not everything
    tail = b'tail' * (off % 3)
    if way == 'fh-off':
        fh = io.BytesIO(pad + data + tail)
        fh.seek(len(pad))
        return await be.write_fh(key, fh, len(data), meta)
    with open(tmp, 'w+b') as fh:
        if way == 'file':
            pad = tail = b''
        fh.write(pad + data + tail)
        fh.seek(len(pad))
        return await be.write_fh(key, fh, len(data), meta)


async def get(be, way, key, tmp, n):
    if way == 'fetch':
        return await be.fetch(key)
    if way == 'read':
        return await be.read(key), await be.lookup(key)
    if way == 'file':
        with open(tmp, 'w+b') as fh:
            m = await be.readinto_fh(key, fh)
            fh.seek(0)
            return fh.read(), m
    fh = io.BytesIO(b'abc' if way == 'fh-off' else b'')
    fh.seek(0, os.SEEK_END)
    kw = {}
    if way == 'hint':
        kw = {'size_hint': n}
    elif way == 'badhint':
        kw = {'size_hint': 100000 - n}
    m = await be.readinto_fh(key, fh, **kw)
    buf = fh.getvalue()
    if way == 'fh-off':
        check(buf[:3] == b'abc', 'bytes before the offset have changed')
        buf = buf[3:]
    return buf, m


def raw_file(be, key):
    '''-> bytes of the file that holds the object'''
    found = []
    want = re.sub('[=/#]', lambda m: '=%02X' % ord(m.group()), key)
    for d, _, files in os.walk(be):
        found += [os.path.join(d, f) for f in files if f == want]
    check(len(found) == 1, 'object %r is stored in %r', key, found)
    with open(found[0], 'rb') as fh:
        return fh.read()


def haystacks(raw):
    '''Everything that can be read off a stored object'''
    res = [raw]
    for m in re.finditer(rb'[A-Za-z0-9+/]{12,}={0,2}', raw[:60000]):
        try:
            res.append(base64.b64decode(m.group()))
        except ValueError:
            pass
    return res


def windows(buf, n=12):
    if len(buf) < n:
        return []
    step = max(1, (len(buf) - n) // 7)
    return [buf[i:i + n] for i in range(0, len(buf) - n + 1, step)]


def needles(data, meta, alg, level):
    '''Byte strings that must not be recognisable in an encrypted object'''
    res = [(w, 'contents') for w in windows(data)]
    comp = {
        'zlib': lambda: zlib.compress(data, level),
        'bzip2': lambda: bz2.compress(data, max(level, 1)),
        'lzma': lambda: lzma.compress(data, preset=level),
    }.get(alg)  # fmt: skip
    if comp:
        # (without the fixed parts at the beginning)
        res += [(w, 'compressed contents') for w in windows(comp()[16:-28], 16)]
    for v in meta.values():
        forms = []
        if isinstance(v, str):
            forms = [v.encode(), ascii(v)[1:-1].encode()]
        elif isinstance(v, bytes):
            forms = [v, base64.b64encode(v), repr(v)[2:-1].encode()]
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            forms = [repr(v).encode()]
        res += [(f, 'metadata value') for f in forms if len(f) >= 9]
    return res


def xor(a, b):
    n = min(len(a), len(b))
    return (int.from_bytes(a[:n], 'big') ^ int.from_bytes(b[:n], 'big')).to_bytes(n, 'big')


def check_secret(seen, raw, data, meta, alg, level, info):
    hay = haystacks(raw)
    for n, what in needles(data, meta, alg, level):
        for h in hay:
            check(n not in h, '%s can be read in an encrypted object: %r', what, n)
        info.label('needles')
    body = raw[9 + int.from_bytes(raw[7:9], 'little'):]
    for obody, odata in seen:
        if odata == data and len(data) >= 16:
            k = min(len(body), len(obody))
            for i in range(0, k - 16, max(1, k // 9)):
                check(body[i:i + 16] != obody[i:i + 16], 'repeated contents are recognisable')
            info.label('repeated')
    # what an attacker who knows the contents of one object learns about others
    if alg == 'none' and len(data) >= 16:
        stream = xor(body, len(data).to_bytes(4, 'little') + data)
        for h in hay[1:]:
            p = xor(h, stream)
            check(b'__size' not in p and b"': " not in p[:60] or len(h) < 14,
                  'data and metadata are encrypted with the same key stream')
    seen.append((body, data))


def run(case, info):
    env.vtime.reset()
    with env.Scratch() as root:
        be = os.path.join(root, 'be')
        os.mkdir(be)
        tmp = os.path.join(root, 'tmp')
        ref = os.path.join(root, 'ref')
        os.mkdir(ref)

        async def main():
            stored = {}
            seen = {}
            for key, pp, alg, level, cspec, mspec, way, off in case['writes']:
                data = objects.make(cspec)
                meta = objects.make_meta(mspec)
                if '__size' in meta:
                    continue
                given = meta if mspec or off % 2 else None
                key = KEYS[key]
                b = await objects.stack(be, PASSPHRASES[pp], alg, level)
                # (the same again at a different time)
                for _ in range(1 + case['twice']):
                    env.vtime.advance(0.5)
                    size = await put(b, way, key, data, given, off, tmp)
                    raw = raw_file(be, key)
                    check(size == len(raw), 'write returns size %r, stored are %d bytes', size,
                          len(raw))  # fmt: skip
                    check(await b.get_size(key) == len(raw), 'get_size() is wrong')
                    calg = 'none' if way == 'nocompress' else alg
                    if pp:
                        check_secret(seen.setdefault(pp, []), raw, data, meta, calg, level, info)
                if calg != 'none':
                    plain = await objects.stack(ref, PASSPHRASES[pp], 'none', 0)
                    n = await plain.store(key, data, meta)
                    check(len(raw) <= n + 1000 + len(data) // 50,
                          'compressed object has %d bytes instead of %d', len(raw), n)  # fmt: skip
                    info.label('compressed')
                stored[key] = (pp, data, meta)
                if pp:
                    info.label('encrypted')
            for key, (pp, data, meta) in stored.items():
                b = await objects.stack(be, PASSPHRASES[pp], *case['reader'])
                for way in case['reads']:
                    buf, m = await get(b, way, key, tmp, len(data))
                    check(bytes(buf) == data, 'contents (%d bytes) read back wrong (%d bytes)',
                          len(data), len(buf))  # fmt: skip
                    check(objects.same(m, meta), 'metadata %r reads back as %r', meta, m)
                m = await b.lookup(key)
                check(objects.same(m, meta), 'lookup() of %r returns %r', meta, m)
                check(await b.contains(key), 'object is not there')
                info.nontrivial |= len(data) > 0
            names = sorted([k async for k in b.list('')]) if stored else []
            check(names == sorted(stored), 'list() gives %r', names)
            # the settings of the writer do not matter, only the passphrase does
            for key, (pp, data, meta) in stored.items():
                if pp:
                    continue
                b = await objects.stack(be, None, *case['reader'])
                check((await b.fetch(key))[0] == data, 'unencrypted object reads back wrong')

        env.trio_run(main)


TECHNIQUE = (
    'round-trip testing of generated contents, metadata and settings; search for plaintext '
    'fragments, repeated ciphertext and shared key streams in what is stored'
)
NOTE = 'Local storage with the real compression and encryption layer, in-process.'
PROPERTY = Property(
    'C12',
    'One to four objects with contents around all buffer and thread thresholds, metadata of all '
    'types, every algorithm and level, two passphrases or none, six ways of storing and seven of '
    'fetching with other settings. Non-trivial: at least one non-empty object was read back.',
    [Part('roundtrip', strategy, run, quick=250, thorough=8000)],
)
