'''C18: verification reports exactly the missing and corrupted objects.'''

import os
import random

from checks.C11 import mutate
from harness import boot, env, faults, inspect, objects
from harness.core import Part, Property, check
from harness.fsdrive import ROOT, Ctx
from harness.session import make_world


def mutation():
    from hypothesis import strategies as st

    pos = st.one_of(st.integers(0, 300), st.integers(-60, -1), st.floats(0, 1))
    other = st.integers(0, 9)
    field = st.sampled_from(['format_version', 'compression', 'encryption', 'nonce', 'data', 'object_id',
                             'signature', 'payload_offset'])  # fmt: skip
    return st.one_of(
        st.just(['missing']), st.just(['missing']), st.just(['missing']),
        st.tuples(st.just('flip'), pos, st.integers(0, 7)), st.tuples(st.just('flip'), pos, st.integers(0, 7)),
        st.tuples(st.just('cut'), pos), st.tuples(st.just('extend'), st.binary(min_size=1, max_size=9).map(bytes.hex)),
        st.tuples(st.just('del'), pos, st.integers(1, 40)), st.tuples(st.just('zero'), pos, st.integers(1, 99)),
        st.tuples(st.just('swap'), other), st.tuples(st.just('body'), other), st.tuples(st.just('head'), other),
        st.tuples(st.just('plain'), st.booleans()), st.tuples(st.just('delfield'), field),
        st.tuples(st.just('field'), field, st.sampled_from(
            ["'None'", "b'x'", '0', '-1', '99999', "'ZLIB'", "'BZIP2'", "'LZMA'", "'AES_v2'", "'x'", '[]', '1.5'])),
        st.tuples(st.just('rewrite'), st.sampled_from(['longer', 'shorter', 'other', 'empty', 'same'])),
        st.tuples(st.just('rewrite'), st.sampled_from(['longer', 'shorter', 'other', 'empty', 'same'])),
    ).map(list)  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    blocks = st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(20, 60))
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(block_kib=1, meta_kib=4, compress=st.sampled_from(objects.ALGS), cachesize=None,
                         max_entries=None,
                         delays=st.lists(st.one_of(st.integers(0, 2), st.integers(0, 30)), max_size=8)),
        'nblocks': blocks, 'seed': st.integers(0, 9), 'last': st.integers(1, 1024), 'gaps': st.integers(0, 3),
        'damage': st.lists(st.tuples(st.integers(0, 60), mutation()).map(list), max_size=10),
        'data': st.integers(0, 3).map(lambda x: x > 0), 'start': st.one_of(st.just(0), st.integers(0, 64)),
        'conns': st.sampled_from([None, 1, 2, 5, 20]), 'threads': st.sampled_from([None, 1, 3]),
        'faults': st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from([0, 0, 1, 2]), max_size=6)),
        'drop': st.booleans(), 'report': st.sampled_from(['default', 'named', 'empty', 'named', 'full']),
        'pure': st.integers(0, 3),
    })  # fmt: skip


def content(case, i):
    rnd = random.Random(case['seed'] * 1000 + i)
    if case['seed'] % 3 == 0:
        return rnd.randbytes(1024)
    return b'%5d some compressible text' % i * 50


def snapshot(path):
    out = {}
    for d, ds, fs in os.walk(path):
        for f in ds:
            out[os.path.join(d, f)] = None
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[p] = (fh.read(), os.stat(p).st_mtime_ns)
    return out


def build(w, case):
    '''Fill the file system with *nblocks* distinct blocks, with gaps in the object ids'''

    async def driver(ops):
        ctx = Ctx()
        fi, a = await ops.create(ROOT, b'f', 0o100644, os.O_RDWR, ctx)
        n = case['nblocks']
        g, b = await ops.create(ROOT, b'g', 0o100644, os.O_RDWR, ctx)
        for i in range(n):
            if case['gaps'] and i % (case['gaps'] + 1) == 0:
                await ops.write(g.fh, i * 1024, b'gap %d' % i * 100)
                await w.ctrl(ops, b's3ql_flushcache!')
            buf = content(case, i)
            await ops.write(fi.fh, i * 1024, buf[: 1024 if i < n - 1 else case['last']])
        await ops.release(fi.fh)
        await ops.release(g.fh)
        await ops.unlink(ROOT, b'g', ctx)
        await ops.forget([(a.st_ino, 1), (b.st_ino, 1)])
        return True

    res = w.mount(driver)
    check(res.code == 0 and res.driver, 'mount fails: %r', res.code)


async def ctrl(ops, name, value=b'dummy'):
    from harness.fsdrive import CTRL_INODE, CTRL_NAME

    ctx = Ctx()
    await ops.lookup(ROOT, CTRL_NAME, ctx)
    await ops.setxattr(CTRL_INODE, name, value, ctx)


def damage(w, case, info, rows):
    '''-> ids that must be missing'''
    keys = inspect.local_keys(w.be)
    raws = []
    for r in rows:
        with open(keys['s3ql_data_%d' % r['id']], 'rb') as fh:
            raws.append(fh.read())
    plain = {}
    rewrites = {}
    gone = set()
    touched = set()

    async def main():
        async with await inspect.open_backend(w) as be:
            for i, how in rewrites.items():
                data = bytes(make_other(rows[i], how, case))
                await be.store('s3ql_data_%d' % rows[i]['id'], data)
        pb = await objects.stack(w.be, None, w.compress.split('-')[0], 6)
        await pb.store('plain', b'plain text', {'a': 1})

    for di, m in case['damage']:
        if m[0] == 'rewrite':
            rewrites[di % len(rows)] = m[1]
    env.trio_run(main)
    k2 = inspect.local_keys(w.be)
    with open(k2['plain'], 'rb') as fh:
        plain = fh.read()
    os.unlink(k2['plain'])
    touched.update(rows[i]['id'] for i in rewrites)
    for di, m in case['damage']:
        i = di % len(rows)
        path = keys['s3ql_data_%d' % rows[i]['id']]
        touched.add(rows[i]['id'])
        info.label(m[0])
        if m[0] == 'missing':
            gone.add(rows[i]['id'])
        elif m[0] != 'rewrite':
            with open(path, 'rb') as fh:
                raw = fh.read()
            with open(path, 'wb') as fh:
                fh.write(mutate(raw, m, raws, plain))
    for i in gone:
        os.unlink(keys['s3ql_data_%d' % i])
    return gone, touched


def make_other(row, how, case):
    n = row['length']
    if how == 'longer':
        return b'x' * (n + 7)
    if how == 'shorter':
        return b'y' * max(n - 1, 0)
    if how == 'empty':
        return b''
    if how == 'same':
        return b'z' * n
    return content(case, 777)[:n]


def classify(w, rows):
    '''What a plain sequential reader finds: id -> (state of metadata, state of contents)'''
    from s3ql.backends.common import NoSuchObject

    out = {}

    async def main():
        async with await inspect.open_backend(w) as be:
            for r in rows:
                key = 's3ql_data_%d' % r['id']
                try:
                    await be.lookup(key)
                    m = 'ok'
                except NoSuchObject:
                    m = 'missing'
                except Exception:
                    m = 'corrupted'
                try:
                    data, _ = await be.fetch(key)
                    d = 'ok' if len(data) == r['length'] and inspect.sha(data) == r['hash'] else 'corrupted'
                except NoSuchObject:
                    d = 'missing'
                except Exception:
                    d = 'corrupted'
                out[r['id']] = (m, d)

    env.trio_run(main)
    return out


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        w.ctrl = ctrl
        build(w, case)
        db = inspect.load_db(w.cachepath() + '.db')
        rows = sorted(db['objects'], key=lambda r: r['id'])
        gone, touched = damage(w, case, info, rows)
        state = classify(w, rows)
        for r in rows:
            i = r['id']
            if i in gone:
                check(state[i] == ('missing', 'missing'), 'missing object is %r', state[i])
            elif i not in touched:
                check(state[i] == ('ok', 'ok'), 'intact object %d is %r', i, state[i])
        if case['drop']:
            w.drop_cachedir()
        before = snapshot(w.be)
        names = {k: os.path.join(root, k + '_objects.txt') for k in ('missing', 'corrupted')}
        args = []
        cwd = os.getcwd()
        if case['report'] != 'default':
            names = {k: os.path.join(root, 'my %s.lst' % k) for k in names}
            args += ['--missing-file', names['missing'], '--corrupted-file', names['corrupted']]
        if case['report'] in ('empty', 'full'):
            for k in names:
                with open(names[k], 'w') as fh:
                    if case['report'] == 'full' and (k == 'missing' or case['start'] % 2):
                        fh.write('old\n')
        if case['data']:
            args.append('--data')
        if case['start']:
            args += ['--start-with', str(case['start'])]
        if case['conns']:
            args += ['--max-connections', str(case['conns'])]
        if case['threads']:
            args += ['--max-threads', str(case['threads'])]
        os.chdir(root)
        try:
            with faults.transient(case['faults'], info):
                res = w.verify(*args)
        finally:
            os.chdir(cwd)
        if case['report'] != 'full':
            check(res.code in (0, 46), 's3ql_verify exits with %r (%r)', res.code, res.exc)
        check(snapshot(w.be) == before, 's3ql_verify has modified the backend')
        if case['report'] == 'full':
            check(res.code == 2, 's3ql_verify with an existing report exits with %r', res.code)
            with open(names['missing']) as fh:
                check(fh.read() == 'old\n', 'existing report was overwritten')
            return
        want = {'missing': [], 'corrupted': []}
        for r in rows[case['start']:]:
            s = state[r['id']][1 if case['data'] else 0]
            if s != 'ok':
                want[s].append('s3ql_data_%d' % r['id'])
        got = {}
        for k, p in names.items():
            if os.path.exists(p):
                with open(p) as fh:
                    got[k] = fh.read().split('\n')
                check(got[k].pop() == '', 'last line of the report is incomplete')
            else:
                got[k] = []
        for k in want:
            check(sorted(got[k]) == sorted(want[k]), '%s objects: reported %r, expected %r (%s)', k, sorted(got[k]),
                  sorted(want[k]), 'contents' if case['data'] else 'metadata only')  # fmt: skip
        code = 46 if want['missing'] or want['corrupted'] else 0
        check(res.code == code, 's3ql_verify exits with %r, expected %d', res.code, code)
        if code == 0:
            check(not any(map(os.path.exists, names.values())), 'empty reports are left behind')
        info.nontrivial = bool(code) and len(touched) < len(rows)
        if case['pure'] == 0:
            # still the same after reporting
            check(classify(w, rows) == state, 'state of the objects has changed')
        if case['pure'] == 1 and not case['start'] and case['data']:
            repair(w, names, state, rows, info)


def repair(w, names, state, rows, info):
    '''The documented way to get rid of the damage'''
    mod = script('remove_objects')
    bad = {i for i, s in state.items() if s[1] != 'ok'}
    for p in names.values():
        if os.path.exists(p):
            res = env.run_cli(mod.main, ['--authfile', w.authfile, '--log', 'none', w.url, p])
            check(res.code == 0, 'remove_objects.py exits with %r (%s)', res.code, res.exc)
    left = set(inspect.data_ids(inspect.local_keys(w.be)))
    want = {r['id'] for r in rows} - bad
    check(left == want, 'after the removal of damaged objects there are %r instead of %r', sorted(left), sorted(want))
    res = w.fsck('--force')
    check(res.code in (0, 128, 129, 130, 131, 132, 133, 134), 'fsck exits with %r (%s)', res.code, res.exc)
    res = w.verify('--data')
    check(res.code == 0, 's3ql_verify exits with %r (%s) after the damage has been removed', res.code, res.exc)
    res = w.fsck('--force')
    check(res.code == 0, 'a second check exits with %r', res.code)
    now = {r['id']: r for r in inspect.load_db(w.cachepath() + '.db')['objects']}
    check(set(now) == want, 'the metadata lists the objects %r instead of %r', sorted(now), sorted(want))
    after = classify(w, [now[i] for i in sorted(now)])
    check(all(s == ('ok', 'ok') for s in after.values()), 'damaged objects are left: %r', after)
    check(all(r['hash'] == now[r['id']]['hash'] for r in rows if r['id'] in now), 'contents of intact objects have changed')
    if bad:
        info.label('repaired')


def script(name):
    import importlib.util

    spec = importlib.util.spec_from_file_location(name, os.path.join(boot.REPO, 'contrib', name + '.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


TECHNIQUE = 'property-based fault injection: generated damage to stored objects, exact report oracle'
NOTE = (
    'Sets of objects are removed, truncated, modified, exchanged or rewritten; the report files and '
    'exit code of s3ql_verify (metadata and full mode, generated parallelism, starting point and '
    'transient faults) are compared with what a sequential reader finds in each object.'
)
PROPERTY = Property(
    'C18',
    'File systems with 1-60 objects, 0-10 random damages, both modes. Non-trivial: something '
    'had to be reported and at least one object was intact.',
    [Part('verify', strategy, run, quick=100, thorough=5000)],
)
