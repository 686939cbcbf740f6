'''C03: a cleanly unmounted file system is structurally sound and the check leaves it alone.'''

import os

from harness import env, inspect
from harness.core import Part, Property, check
from harness.session import FsDriver, final_walk, make_world, run_history

WEIGHTS = {
    'create': 8, 'mkdir': 4, 'mknod': 1, 'symlink': 2, 'link': 3, 'unlink': 5, 'rmdir': 3,
    'badremove': 2, 'longname': 1, 'rename': 5, 'open': 3, 'release': 2, 'write': 14, 'read': 2, 'truncate': 6,
    'setattr': 2, 'setxattr': 4, 'removexattr': 3, 'sync': 2, 'drop': 1, 'fsync': 1, 'sleep': 3,
    'cachesize': 1, 'forget': 2, 'forgetall': 1, 'remount': 2, 'upmeta': 2, 'copy': 3, 'lock': 1,
    'rmtree': 2,
}  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({'cfg': fsops.cfg(), 'ops': fsops.op_list(WEIGHTS, 4, 60)})


def check_sound(world, drv):
    '''Everything that has to hold after a clean unmount'''
    path = world.cachepath() + '.db'
    db = inspect.load_db(path)
    inspect.check_db(db)
    data = inspect.check_backend(world, db)
    inspect.check_files(db, data, drv.bs)
    # what another machine would get
    mine = open(path, 'rb').read()
    old = world.cachedir
    world.use_cachedir('cache-b')
    world.drop_cachedir()
    res = world.fsck('--force')
    check_fsck(res, 'with downloaded metadata')
    theirs = inspect.load_db(world.cachepath() + '.db')
    check(theirs == db, 'metadata in the backend differs from the local metadata')
    world.use_cachedir(os.path.basename(old))
    return mine


def check_fsck(res, how):
    warned = inspect.warnings_of(res)
    check(res.code == 0, 'fsck (%s) of a cleanly unmounted file system exits with %r: %s %s',
          how, res.code, res.exc, warned[:3])  # fmt: skip
    check(not warned, 'fsck (%s) of a cleanly unmounted file system reports %r', how, warned[:3])


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = FsDriver(w, case['cfg'], info)
        run_history(w, drv, case['ops'])
        if case['cfg'].get('sched', 0) % 2:
            check_sound(w, drv)
        else:
            # the check with the local metadata
            path = w.cachepath() + '.db'
            db = inspect.load_db(path)
            inspect.check_db(db)
            inspect.check_backend(w, db)
            res = w.fsck('--force')
            check_fsck(res, 'with local metadata')
            check(inspect.load_db(path) == db, 'fsck changed the metadata')
        inspect.check_backend(w, db if 'db' in locals() else inspect.load_db(w.cachepath() + '.db'))
        final_walk(w, drv)
    lab = info.labels
    info.nontrivial = (
        lab.get('write', 0) >= 2
        and lab.get('unlink', 0) + lab.get('rmtree', 0) + lab.get('rename-replace', 0) >= 1
    )


TECHNIQUE = 'stateful property-based testing: generated histories, then independent invariant check + fsck'
NOTE = (
    'After generated histories through the real mount code, an independent reading of the database '
    'and the backend checks the documented invariants, the real fsck must find nothing, and a '
    'remount from the backend must show the model. Limited to the histories generated.'
)
PROPERTY = Property(
    'C03',
    'Random call histories (4-60 calls incl. snapshots, locks, tree removal, cache drops, metadata '
    'uploads and remounts) ending in a clean unmount. Non-trivial: two writes and one removal.',
    [Part('unmounted', strategy, run, quick=160, thorough=4000)],
)
