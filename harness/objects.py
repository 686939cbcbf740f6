'''Generators of contents and metadata dictionaries, and a backend stack in a scratch directory'''

import hashlib
import random

ALGS = ('none', 'zlib', 'bzip2', 'lzma')
# sizes around the thresholds for threads and the size of copy buffers
EDGES = (0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 249, 250, 251, 1023, 1024, 3072, 3073, 4096, 4097,
         10239, 10240, 10241, 25600, 25601, 51199, 51200, 51201, 65535, 65536, 65537, 131071,
         131072, 131073, 262143, 262144, 262145, 262150)  # fmt: skip


def content():
    from hypothesis import strategies as st

    size = st.one_of(st.integers(0, 64), st.sampled_from(EDGES), st.integers(0, 20000))
    piece = st.one_of(
        st.tuples(st.just('rep'), st.integers(0, 255), size),
        st.tuples(st.just('rand'), st.integers(0, 5), size),
        st.tuples(st.just('text'), st.integers(0, 5), size),
    ).map(list)
    return st.one_of(
        st.lists(piece, max_size=1), st.lists(piece, max_size=3),
        st.binary(max_size=40).map(lambda b: [['hex', b.hex()]]),
    )  # fmt: skip


def make(spec):
    out = []
    for p in spec:
        if p[0] == 'hex':
            out.append(bytes.fromhex(p[1]))
        elif p[0] == 'rep':
            out.append(bytes([p[1]]) * p[2])
        elif p[0] == 'rand':
            out.append(random.Random(p[1] * 1000003 + p[2]).randbytes(p[2]))
        else:
            t = b' '.join(b'word%d' % (i * (p[1] + 7) % 977) for i in range(p[2] // 5 + 1))
            out.append(t[: p[2]])
    return b''.join(out)


def text(max_size=12):
    from hypothesis import strategies as st

    return st.one_of(
        st.text(st.characters(codec='utf-8'), max_size=max_size),
        st.text(st.sampled_from('ab\'"\\\n\r\t\0 {}:,=/#é€\u2028𝄞'), max_size=max_size),
    )


def value(cplx=False):
    from hypothesis import strategies as st

    return st.one_of(
        st.tuples(st.just('s'), text()),
        st.tuples(st.just('b'), st.binary(max_size=80).map(bytes.hex)),
        st.tuples(st.just('i'), st.one_of(st.integers(-(2**70), 2**70), st.integers(-3, 3))),
        st.tuples(st.just('f'), st.floats(allow_nan=False, allow_infinity=False)),
        st.tuples(st.just('t'), st.booleans()),
        st.just(('n',)),
        *([st.tuples(st.just('c'), st.floats(-9, 9), st.floats(-1e9, 1e9))] if cplx else []),
    ).map(list)  # fmt: skip


def meta(cplx=False, max_size=6):
    from hypothesis import strategies as st

    return st.lists(st.tuples(text(), value(cplx)).map(list), max_size=max_size,
                    unique_by=lambda x: x[0])  # fmt: skip


def make_meta(spec):
    res = {}
    for k, v in spec:
        if v[0] == 'b':
            res[k] = bytes.fromhex(v[1])
        elif v[0] == 'n':
            res[k] = None
        elif v[0] == 'c':
            res[k] = complex(v[1], v[2])
        else:
            res[k] = v[1]
    return res


def same(a, b):
    '''Equality of dictionaries that distinguishes 1, 1.0 and True'''
    return a == b and {k: type(v) for k, v in a.items()} == {k: type(v) for k, v in b.items()}


def spec(alg, level):
    from s3ql.authinfo import CompressAlgorithm, CompressSpec

    return CompressSpec(CompressAlgorithm(alg), level)


async def local_backend(path):
    from s3ql.backends import local

    return await local.AsyncBackend.create(storage_url='local://' + path, backend_options={})


async def stack(path, passphrase, alg, level):
    from s3ql.backends.comprenc import AsyncComprencBackend

    return await AsyncComprencBackend.create(
        passphrase, spec(alg, level), await local_backend(path))  # fmt: skip


def sha(b):
    return hashlib.sha256(b).hexdigest()
