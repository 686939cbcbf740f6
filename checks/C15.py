'''C15: object metadata encoding round-trips and rejects malformed input cleanly.'''

import dataclasses
import sys

from harness import objects
from harness.core import Part, Property, Violation, check

# ------------------------------------------------------------------------- round-trip


def rt_strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        'meta': objects.meta(True, 12),
        'order': st.integers(0, 5),
        'key': st.one_of(st.none(), st.binary(max_size=40).map(bytes.hex)),
        'change': st.tuples(st.integers(0, 11), objects.value()).map(list),
    })  # fmt: skip


def run_rt(case, info):
    from s3ql.backends.common import checksum_basic_mapping
    from s3ql.common import freeze_basic_mapping, thaw_basic_mapping

    d = objects.make_meta(case['meta'])
    buf = freeze_basic_mapping(d)
    check(isinstance(buf, bytes), 'encoding is not bytes')
    back = thaw_basic_mapping(buf)
    check(objects.same(back, d), '%r reads back as %r', d, back)
    check(objects.same(thaw_basic_mapping(bytearray(buf)), d), 'bytearray is decoded differently')
    info.nontrivial = bool(d)
    d2 = {k: v for k, v in d.items() if not isinstance(v, complex)}
    items = list(d2.items())
    r = case['order'] % len(items) if items else 0
    items = (items[r:] + items[:r])[::-1]
    key = None if case['key'] is None else bytes.fromhex(case['key'])
    c1 = checksum_basic_mapping(d2, key)
    check(c1 == checksum_basic_mapping(dict(items), key), 'checksum depends on the order')
    check(c1 == checksum_basic_mapping(thaw_basic_mapping(freeze_basic_mapping(dict(items))), key),
          'checksum changes when encoding and decoding')  # fmt: skip
    check(c1 == checksum_basic_mapping(dict(items, signature=b'x'), key),
          'signature is part of the checksum')  # fmt: skip
    # a changed value changes the checksum (NUL bytes in strings set aside)
    if items:
        k = items[case['change'][0] % len(items)][0]
        new = objects.make_meta([['v', case['change'][1]]])['v']
        other = dict(items)
        other[k] = new
        if k != 'signature' and not objects.same(other, d2) and not any(
            isinstance(v, str) and '\0' in v or '\0' in k for k, v in other.items()
        ) and not any(isinstance(v, str) and '\0' in v for v in d2.values()):
            check(checksum_basic_mapping(other, key) != c1, 'changing %r to %r goes unnoticed',
                  {k: d2[k]}, new)  # fmt: skip
            info.label('changed')
        less = dict(items)
        del less[k]
        if k != 'signature' and '\0' not in ''.join(less):
            check(checksum_basic_mapping(less, key) != c1, 'removing %r goes unnoticed', k)
    if key is not None:
        check(checksum_basic_mapping(d2, key + b'\1') != c1, 'key does not matter')


# -------------------------------------------------------------------------- malformed


def bad_strategy():
    from hypothesis import strategies as st

    from checks.C11 import literal

    atom = st.one_of(literal(), st.sampled_from([
        '__import__("os").system("true")', 'open("/nonexistent")', 'print', '().__class__',
        'lambda: 0', '[x for x in ()]', 'f"{1}"', '1 if 1 else 2', 'eval("1")', '...', '*a',
        'a.b', '"a" "b"', '1+2', '1+2j', '-1', '+1', '~1', 'not 1', '{**{}}', '{1}', '#', '\\', '\0',
        '\ufeff', ' ', '\t', '\n', '\n  ', '\r', '"""', "b'''", '0x', '1_000', '0o17', '1e5', 'Ⅷ',
    ]))  # fmt: skip
    key = st.one_of(atom, objects.text(6).map(repr))
    pair = st.tuples(key, st.one_of(atom, atom)).map(lambda x: '%s: %s' % x)
    lit = st.lists(pair, max_size=4).map(lambda x: '{ %s }' % ', '.join(x))
    txt = st.one_of(lit, lit, atom, st.text(max_size=30)).map(
        lambda s: s.encode('utf-8', 'surrogatepass').hex())  # fmt: skip
    mutated = st.tuples(st.just('mut'), objects.meta(), st.integers(0, 300), st.integers(0, 255),
                        st.integers(0, 3)).map(list)  # fmt: skip
    return st.one_of(
        st.tuples(st.just('raw'), txt).map(list), mutated,
        st.tuples(st.just('raw'), st.binary(max_size=60).map(bytes.hex)).map(list),
    )  # fmt: skip


_watch = [None]


def _audit(name, args):
    if _watch[0] is not None and name in WATCHED:
        _watch[0].append((name, str(args)[:100]))


WATCHED = frozenset((
    'os.system', 'open', 'subprocess.Popen', 'import', 'exec', 'os.exec', 'socket.connect', 'pickle.find_class',
    'marshal.loads',
))  # fmt: skip
_hooked = []


def run_bad(case, info):
    from s3ql.common import ThawError, freeze_basic_mapping, thaw_basic_mapping

    if case[0] == 'raw':
        buf = bytes.fromhex(case[1])
    else:
        buf = freeze_basic_mapping(objects.make_meta(case[1]))
        p = case[2] % len(buf)
        if case[4] == 0:
            buf = buf[:p] + bytes([case[3]]) + buf[p + 1:]
        elif case[4] == 1:
            buf = buf[:p]
        elif case[4] == 2:
            buf = buf[:p] + bytes([case[3]]) + buf[p:]
        else:
            buf = buf[:p] + buf[p + 1 + case[3] % 5:]
    if not _hooked:
        _hooked.append(1)
        sys.addaudithook(_audit)
    import warnings

    done = []
    limit = sys.getrecursionlimit()
    depth = 0
    frame = sys._getframe()
    while frame is not None:
        depth += 1
        frame = frame.f_back
    sys.setrecursionlimit(1000 + depth)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        _watch[0] = done
        try:
            res = thaw_basic_mapping(buf)
        except ThawError as exc:
            str(exc)
            res = None
        finally:
            _watch[0] = None
            sys.setrecursionlimit(limit)
    check(not done, 'decoding does %r', done)
    if res is None:
        info.label('rejected')
    else:
        check(isinstance(res, dict), 'decoder returns %r', type(res))
        info.label('accepted')
    info.nontrivial = True


# ----------------------------------------------------------------------------- escape


def esc_strategy():
    from hypothesis import strategies as st

    s = st.one_of(
        st.text(st.sampled_from('=/\0#23DFd0a.%'), max_size=10),
        st.text(st.characters(codec='utf-8'), max_size=10),
    )
    return st.lists(s, min_size=2, max_size=6)


def run_esc(case, info):
    from s3ql.common import escape

    seen = {}
    for s in case:
        e = escape(s)
        check('/' not in e and '\0' not in e, '%r is escaped to %r', s, e)
        check(seen.setdefault(e, s) == s, '%r and %r are both escaped to %r', seen[e], s, e)
        # a plain decoder of =XX
        back, i = '', 0
        while i < len(e):
            if e[i] == '=':
                back += chr(int(e[i + 1:i + 3], 16))
                i += 3
            else:
                back += e[i]
                i += 1
        check(back == s, '%r is escaped to %r', s, e)
        if e != s:
            info.nontrivial = True
    # likewise file names of the local storage backend
    import os

    from harness import env

    with env.Scratch() as root:
        async def main():
            be = await objects.local_backend(root)
            names = sorted({'k' + s.replace('\0', 'N') for s in case})
            for n in names:
                await be.store(n, n.encode(), {'n': n})
            got = sorted([k async for k in be.list('')])
            check(got == names, 'names %r are listed as %r', names, got)
            for n in names:
                data, meta = await be.fetch(n)
                check(bytes(data) == n.encode() and meta == {'n': n}, 'object %r holds %r', n, data)
            check(len(os.listdir(root)) == len(names), 'names are not distinct')

        env.trio_run(main)


# --------------------------------------------------------- parameters of a file system


def par_strategy():
    from hypothesis import strategies as st

    i = st.integers(0, 2**62)
    f = st.one_of(st.floats(0, 1e12), st.integers(0, 2**40))
    return st.fixed_dictionaries({
        'data_block_size': i, 'metadata_block_size': i, 'seq_no': i, 'db_size': i,
        'label': objects.text(30), 'needs_fsck': st.booleans(), 'is_mounted': st.booleans(),
        'inode_gen': i, 'last_fsck': f, 'last_modified': f, 'db_md5': objects.text(8),
        'min': i,
    })  # fmt: skip


def run_par(case, info):
    from s3ql.database import FsAttributes, OutdatedData

    case = dict(case)
    least = case.pop('min')
    p = FsAttributes(**case)
    q = FsAttributes.deserialize(p.serialize())
    check(dataclasses.asdict(p) == dataclasses.asdict(q), '%r reads back as %r', p, q)
    try:
        r = FsAttributes.deserialize(p.serialize(), min_seq=least)
    except OutdatedData:
        check(p.seq_no < least, 'current parameters are called outdated')
        info.label('outdated')
    else:
        check(p.seq_no >= least, 'outdated parameters are accepted')
        check(r == p, 'parameters differ')
    info.nontrivial = True


assert Violation

TECHNIQUE = (
    'round-trip properties over generated dictionaries; grammar-based and mutation fuzzing of the '
    'decoder with an audit hook that sees any execution'
)
NOTE = (
    'NaN and infinities are not supported values. Metadata checksums of strings with NUL bytes are '
    'not compared (object metadata of s3ql has none).'
)
PROPERTY = Property(
    'C15',
    'Dictionaries of up to twelve values of all supported types; malformed input from a grammar '
    'of Python literals, mutated encodings and random bytes; names over the escaped characters; '
    'file system parameters. Non-trivial: a non-empty dictionary, or malformed input, or a name '
    'that needs escaping.',
    [
        Part('roundtrip', rt_strategy, run_rt, quick=1500, thorough=40000),
        Part('malformed', bad_strategy, run_bad, quick=1500, thorough=40000),
        Part('escape', esc_strategy, run_esc, quick=500, thorough=8000),
        Part('params', par_strategy, run_par, quick=300, thorough=5000),
    ],
)
