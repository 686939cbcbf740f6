'''C25: an upgrade keeps the file system, and can be resumed after any interruption.'''

import os
import random
import shutil

from harness import env, inspect
from harness.core import Part, Property, check
from harness.crash import KINDS, Monitor, Snapshots
from harness.session import FsDriver, final_walk, make_world, run_history

WEIGHTS = {
    'create': 8, 'mkdir': 3, 'symlink': 2, 'link': 2, 'unlink': 2, 'rename': 2, 'write': 12, 'truncate': 3, 'setattr': 2,
    'setxattr': 3, 'copy': 1, 'sync': 1, 'remount': 1,
}  # fmt: skip
OLD = 25
STATES = ['needs_fsck', 'behind', 'ahead', 'older', 'no', 'nodb', 'noparams']


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    fine = st.one_of(st.just(0), st.integers(0, 40))
    point = st.one_of(
        st.tuples(st.just(0), st.integers(0, 400), fine), st.tuples(st.just(0), st.integers(0, 60), fine),
        st.tuples(st.sampled_from([k for k in KINDS if '-be' in k or 'params' in k]), st.integers(0, 8), st.integers(0, 3), fine),
        st.tuples(st.sampled_from([k for k in KINDS if 'params' in k]), st.just(0), st.integers(0, 12), fine),
    ).map(list)  # fmt: skip
    probe = st.sampled_from([None, None, 'mount', 'elsewhere', 'fsck', 'no'])
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(), 'ops': fsops.op_list(WEIGHTS, 2, 16),
        'crash': st.lists(st.tuples(point, probe).map(list), max_size=3),
        'state': st.one_of(st.none(), st.none(), st.none(), st.sampled_from(STATES)),
        'size': st.sampled_from([1, 2, 4, 16, 64, None]), 'label': st.sampled_from(['', 'x', 'ä b']),
        'bak': st.lists(st.integers(0, 12), max_size=4, unique=True), 'seed': st.integers(0, 999),
        'extra': st.lists(st.sampled_from(['bugfix', 'mountcnt', 'DB-Format', 'encrypted']), max_size=2, unique=True),
    })  # fmt: skip


def write(path, buf):
    with open(path, 'wb') as fh:
        fh.write(buf)


def downgrade(w, case):
    '''Give the file system the form that the previous revision has; returns its parameters'''
    from s3ql.common import freeze_basic_mapping, thaw_basic_mapping

    rnd = random.Random(case['seed'])
    with open(w.cachepath() + '.params', 'rb') as fh:
        cur = thaw_basic_mapping(fh.read())
    old = {
        'revision': OLD, 'seq_no': rnd.randrange(1, 2000), 'label': case['label'], 'max_obj_size': cur['data_block_size'],
        'needs_fsck': False, 'inode_gen': cur['inode_gen'], 'last_fsck': cur['last_fsck'], 'last-modified': cur['last_modified'],
    }  # fmt: skip
    for k in case['extra']:
        old[k] = rnd.choice([1, True, 'x', 2.5])
    payload = rnd.randbytes(rnd.randrange(1, 5000))
    gone = [p for k, p in inspect.local_keys(w.be).items() if k.startswith(('s3ql_metadata', 's3ql_params'))]

    async def main():
        async with await inspect.open_backend(w) as be:
            await be.store('s3ql_metadata', payload, old)
            for i in case['bak']:
                await be.store('s3ql_metadata_bak_%d' % i, payload[:i * 10], dict(old, seq_no=old['seq_no'] - i - 1))

    env.trio_run(main)
    for path in gone:
        os.unlink(path)
    write(w.cachepath() + '.params', freeze_basic_mapping(old))
    return old, payload


def contents(w):
    out = {}
    for d, _, fs in os.walk(w.be):
        for f in fs:
            with open(os.path.join(d, f), 'rb') as fh:
                out[os.path.join(d, f)] = fh.read()
    for s in ('.db', '.params'):
        if os.path.exists(w.cachepath() + s):
            with open(w.cachepath() + s, 'rb') as fh:
                out[s] = fh.read()
    return out


def upgrade(w, case, answer='yes\n'):
    args = ['--metadata-block-size', str(case['size'])] if case['size'] else []
    return w.adm(*w.common(), 'upgrade', *args, w.url, stdin=answer, reraise=False)


def refused(w, case, old, info):
    '''What cannot be upgraded stays as it is'''
    from s3ql.common import freeze_basic_mapping

    state = case['state']
    rnd = random.Random(case['seed'])
    path = w.cachepath() + '.params'
    code, answer = 1, 'yes\n'
    match state:
        case 'needs_fsck':
            write(path, freeze_basic_mapping(dict(old, needs_fsck=True)))
            code = 30
        case 'ahead':
            write(path, freeze_basic_mapping(dict(old, seq_no=old['seq_no'] + rnd.randrange(1, 5))))
            code = 30
        case 'behind':
            write(path, freeze_basic_mapping(dict(old, seq_no=old['seq_no'] - 1)))
        case 'older':
            write(path, freeze_basic_mapping(dict(old, revision=OLD - rnd.randrange(1, 4))))
        case 'no':
            answer = rnd.choice(['no\n', '\n', 'y\n', ''])
        case 'nodb':
            os.unlink(w.cachepath() + '.db')
        case 'noparams':
            os.unlink(path)
    before = contents(w)
    res = upgrade(w, case, answer)
    check(res.code == code, 'upgrade (%s) exits with %r (%r) instead of %d', state, res.code, res.exc, code)
    w.after_death()
    check(contents(w) == before, 'an upgrade that was refused (%s) has changed something', state)
    info.label('refused: ' + state)


def interrupted(w, point):
    '''Run the upgrade up to the given instant; returns whether it was reached'''
    snaps = Snapshots(w)

    with Monitor([point], snaps.take) as mon:
        mon.set_phase(0)
        res = yield
        if mon.todo:
            mon.todo.clear()
    hit = bool(mon.taken)
    if hit:
        snaps.restore(0)
    else:
        w.after_death()
    shutil.rmtree(snaps.dir)
    yield res, hit


def probe(w, how, drv, info, ops):
    '''Somebody tries to use the file system between interruption and resumption'''
    if how in ('mount', 'elsewhere'):
        if how == 'elsewhere':
            home = w.cachedir
            w.use_cachedir('other')

        async def driver(fsops):
            await drv.start(fsops)
            await drv.walk()
            for op in ops:
                await drv.step(op)
            await drv.walk()
            await drv.finish_session()
            return True

        res = w.mount(driver, reraise=False)
        if res.mounted:
            if res.exc is not None:
                raise res.exc
            check(res.code == 0 and res.driver, 'mounting the half-upgraded file system: exit code %r', res.code)
            info.label('usable before the resumption')
        else:
            check(res.code not in (0, None), 'mounting fails, but exit code is %r', res.code)
            check(res.code in (30, 31, 32, 33), 'mounting the half-upgraded file system: %r (%s)', res.code, res.exc)
            w.after_death()
        if how == 'elsewhere':
            w.drop_cachedir()
            w.use_cachedir(os.path.basename(home))
        env.vtime.advance(10)
        return res.mounted
    if how == 'fsck':
        res = w.fsck(reraise=False)
        check(res.code in (0, 32), 'fsck of the half-upgraded file system: %r (%s)', res.code, res.exc)
        if res.code:
            w.after_death()
    return False


def run(case, info):
    from s3ql import CURRENT_FS_REV

    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = FsDriver(w, case['cfg'], info)
        run_history(w, drv, case['ops'])
        w.after_death()
        db = inspect.load_db(w.cachepath() + '.db')
        old, payload = downgrade(w, case)
        baks = {k: open(p, 'rb').read() for k, p in inspect.local_keys(w.be).items() if 'bak' in k}
        if case['state'] is not None:
            refused(w, case, old, info)
            info.nontrivial = True
            return
        used = False
        for point, how in case['crash']:
            gen = interrupted(w, point)
            next(gen)
            res, hit = gen.send(upgrade(w, case))
            check(res.code == 0, 'upgrade%s exits with %r (%s)', ' (resumed)' if used else '', res.code, res.exc)
            used = True
            if not hit:
                break
            info.label('interrupted')
            info.nontrivial = True
            if how == 'no':
                before = contents(w)
                res = upgrade(w, case, 'no\n')
                check(res.code in (0, 1), 'a declined resumption exits with %r (%s)', res.code, res.exc)
                w.after_death()
                check(res.code == 0 or contents(w) == before, 'a declined resumption changed something')
            elif how is not None:
                ops = [o for o in case['ops'] if o[0] != 'remount'][:case['seed'] % 5]
                if probe(w, how, drv, info, ops):
                    db = None
        res = upgrade(w, case)
        check(res.code == 0, 'upgrade%s exits with %r (%s)', ' (resumed)' if used else '', res.code, res.exc)
        w.after_death()
        env.vtime.advance(10)
        before = contents(w)
        again = upgrade(w, case)
        check(again.code == 0, 'a second upgrade exits with %r (%s)', again.code, again.exc)
        check('most-recent' in again.stdout, 'a second upgrade does not tell that there is nothing to do')
        w.after_death()
        check(contents(w) == before, 'a second upgrade changed something')
        for d, _, fs in os.walk(w.be):
            for f in fs:
                if f.endswith('.tmp') and used:  # left by a killed process; the check would mention them
                    os.unlink(os.path.join(d, f))
        check_result(w, case, old, payload, baks, db, CURRENT_FS_REV)
        run_history(w, drv, [])
        db = inspect.load_db(w.cachepath() + '.db')
        res = w.fsck('--force')
        check(res.code == 0 and not inspect.warnings_of(res), 'fsck of the upgraded file system: %r %s', res.code,
              inspect.warnings_of(res)[:3])  # fmt: skip
        check(inspect.load_db(w.cachepath() + '.db') == db, 'the check changed the metadata')
        final_walk(w, drv)
        run_history(w, drv, case['ops'][:4])
        now = inspect.local_keys(w.be)
        for k, v in baks.items():
            check(k in now and open(now[k], 'rb').read() == v, 'metadata backup %r of the previous revision has changed', k)
        info.nontrivial = True


def check_result(w, case, old, payload, baks, db, rev):
    async def main():
        from s3ql.common import thaw_basic_mapping

        async with await inspect.open_backend(w) as be:
            data, meta = await be.fetch('s3ql_metadata')
            params = thaw_basic_mapping((await be.fetch('s3ql_params'))[0])
        return data, meta, params

    data, meta, params = env.trio_run(main)
    check(meta['revision'] > OLD, 'older versions of s3ql can still use the file system')
    check(data == payload, 'the metadata of the previous revision has been changed')
    check(params['revision'] == rev, 'revision is %r', params['revision'])
    check(params['label'] == case['label'], 'label is %r instead of %r', params['label'], case['label'])
    check(params['data_block_size'] == old['max_obj_size'], 'block size is %r', params['data_block_size'])
    check(params['metadata_block_size'] == (case['size'] or 64) * 1024, 'metadata block size is %r', params['metadata_block_size'])
    check(params['inode_gen'] == old['inode_gen'], 'inode generation is %r', params['inode_gen'])
    check(params['seq_no'] > old['seq_no'], 'sequence number is %r', params['seq_no'])
    mine = inspect.load_db(w.cachepath() + '.db')
    check(db is None or mine == db, 'metadata has changed')


PROPERTY = Property(
    'C25',
    'The upgrade was carried through (possibly after interruptions) or had to be refused.',
    [Part('upgrade', strategy, run, quick=60, thorough=3000)],
    assumptions=['file systems of the previous revision are constructed from its documented format: same database, one '
                 'metadata object with the parameters as its metadata'],  # fmt: skip
)
TECHNIQUE = (
    'Property-based testing with fault injection: generated file systems in the form of the previous revision, upgrades '
    'interrupted at generated instants and resumed, comparison with a reference model'
)
NOTE = (
    'Interruptions at any system call, SQL statement or source line; an interruption that is followed by a power failure is out of scope.'
)
