'''C06: locked trees cannot change; tree removal removes exactly the tree.'''

from harness import clitools, env, fsdrive, inspect, wide
from harness.core import Part, Property
from harness.session import FsDriver, final_walk, make_world, run_history

WEIGHTS = {
    'create': 9, 'mkdir': 7, 'mknod': 1, 'symlink': 2, 'link': 5, 'unlink': 3, 'rmdir': 3,
    'badremove': 1, 'rename': 6, 'open': 3, 'release': 2, 'write': 8, 'read': 3, 'truncate': 4,
    'setattr': 4, 'setxattr': 4, 'removexattr': 3, 'sync': 1, 'drop': 1, 'sleep': 1,
    'forget': 2, 'forgetall': 1, 'remount': 1, 'copy': 2, 'lock': 5, 'rmtree': 5,
}  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({'cfg': fsops.cfg(), 'ops': fsops.op_list(WEIGHTS, 10, 70)})


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = FsDriver(w, case['cfg'], info)
        run_history(w, drv, case['ops'])
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_db(db)
        inspect.check_backend(w, db)
        final_walk(w, drv)
    lab = info.labels
    info.nontrivial = lab.get('lock', 0) >= 1 or lab.get('rmtree-nonempty', 0) >= 1


def wide_strategy():
    return wide.strategy(['lock', 'rmtree', 'lock+rmtree', 'copy', 'lock+copy+rmtree'])


def wide_run(case, info):
    '''Trees with more entries than one internal batch (100)'''
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = wide.WideDriver(w, case['cfg'], info)

        async def driver(ops):
            await drv.start(ops)
            dirs, files = await drv.build(case)
            live = drv.dirs()
            t = dirs[case['target'] % len(dirs)]
            if 'lock' in case['what']:
                await drv.op_lock(live.index(t) - 1)
                # every single entry refuses modification
                for n in drv.model.subtree(t):
                    await drv.ensure(n)
                    await drv.call((fsdrive.errno.EPERM,), 'setattr of a locked inode',
                                   drv.ops.setattr(n.ino, _attr(), fsdrive.Fields(mode=True), None,
                                                   drv.ctx))  # fmt: skip
            if 'copy' in case['what']:
                await drv.replicate(t, drv.model.root, b'copy')
            if 'rmtree' in case['what']:
                e = [i for i, p in enumerate(drv.model.paths()) if p[2] is t][0]
                par = drv.model.paths()[e][0]
                if not par.locked:
                    await drv.op_rmtree(e)
            await drv.walk(chunk=17)
            await drv.finish_session()
            return True

        res = w.mount(driver)
        fsdrive.check(res.code == 0 and res.driver, 'mount failed: %r', res.code)
        inspect.check_db(inspect.load_db(w.cachepath() + '.db'))
        info.nontrivial = info.labels.get('more-than-one-batch', 0) > 0


def _attr():
    import pyfuse3

    a = pyfuse3.EntryAttributes()
    a.st_mode = 0o100777
    return a


def tools_strategy():
    return clitools.cases(['rm', 'rm', 'lock'])


TECHNIQUE = 'stateful model-based testing (locks and tree removal against a POSIX reference model)'
NOTE = (
    'Generated histories with locks and recursive removals at random points, plus generated wide '
    'trees that exceed the internal batch size; every result is compared with a model in which '
    'locked objects never change. Limited to the histories generated.'
)
PROPERTY = Property(
    'C06',
    'Random call histories (10-70 calls) mixing locks, recursive removals, snapshots and all '
    'mutating calls; and random wide trees (up to ~1500 entries). Non-trivial: a lock or a removal '
    'of a non-empty tree; for wide trees more than one internal batch.',
    [Part('history', strategy, run, quick=200, thorough=4000),
     Part('wide', wide_strategy, wide_run, quick=12, thorough=200),
     Part('tools', tools_strategy, clitools.run_tool, quick=150, thorough=20000)],
)
