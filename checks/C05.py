'''C05: a replicated tree equals its source and is independent of it.'''

from harness import clitools, env, inspect, wide
from harness.core import Part, Property, check
from harness.session import FsDriver, final_walk, make_world, run_history

WEIGHTS = {
    'create': 8, 'mkdir': 5, 'mknod': 2, 'symlink': 2, 'link': 4, 'unlink': 3, 'rmdir': 1,
    'rename': 3, 'open': 1, 'release': 3, 'write': 14, 'read': 3, 'truncate': 4,
    'setattr': 2, 'setxattr': 3, 'removexattr': 1, 'sync': 2, 'drop': 1, 'sleep': 2,
    'forget': 3, 'forgetall': 3, 'remount': 1, 'copy': 8, 'rmtree': 2, 'cachesize': 1,
}  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    return st.fixed_dictionaries({'cfg': fsops.cfg(), 'ops': fsops.op_list(WEIGHTS, 8, 60)})


class Driver(FsDriver):
    count = 0
    keys = None

    async def before_copy(self, src):
        self.count += 1
        self.keys = None
        if self.count % 3 == 0:
            # nothing is dirty: replication must not store anything
            await self.op_sync()
            self.keys = inspect.data_ids(inspect.local_keys(self.world.be))
            self.label('copy-clean')

    async def op_copy(self, *a):
        await super().op_copy(*a)
        if self.keys is not None:
            await self.op_sync()
            now = inspect.data_ids(inspect.local_keys(self.world.be))
            # (removals that were pending before may have completed meanwhile)
            check(set(now) <= set(self.keys), 'replication of a clean tree stored data: '
                  '%r before, %r after', self.keys, now)  # fmt: skip
            self.keys = None


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = Driver(w, case['cfg'], info)
        run_history(w, drv, case['ops'])
        db = inspect.load_db(w.cachepath() + '.db')
        inspect.check_backend(w, db)
        final_walk(w, drv)
    info.nontrivial = info.labels.get('copy-nonempty', 0) >= 1 and info.labels.get('write', 0) >= 1


def wide_strategy():
    return wide.strategy(['copy', 'copy-sub', 'copy-change'])


def wide_run(case, info):
    '''Trees with more entries than one internal batch (100)'''
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = wide.WideDriver(w, case['cfg'], info)

        async def driver(ops):
            await drv.start(ops)
            dirs, files = await drv.build(case)
            src = dirs[case['target'] % len(dirs)] if case['what'] == 'copy-sub' else dirs[0]
            new = await drv.replicate(src, drv.model.root, b'copy')
            if case['what'] == 'copy-change':
                copied = [n for n in drv.model.subtree(new) if n.kind == 'f']
                for i, (f, blocks, tag) in enumerate(case['data']):
                    l = files if i % 2 else copied
                    if l:
                        await drv.ensure(l[f % len(l)])
                        await drv.put(l[f % len(l)], 5 - blocks, tag + 1)
            await drv.walk(chunk=17)
            await drv.finish_session()
            return True

        res = w.mount(driver)
        check(res.code == 0 and res.driver, 'mount failed: %r', res.code)
        inspect.check_db(inspect.load_db(w.cachepath() + '.db'))
        info.nontrivial = info.labels.get('more-than-one-batch', 0) > 0


def tools_strategy():
    return clitools.cases(['cp'])


TECHNIQUE = 'stateful model-based testing (tree replication against a POSIX reference model)'
NOTE = (
    'Generated histories with replications at random points (dirty, in-flight, forgotten, '
    'hard-linked, special files); the reference model duplicates the tree and every later result '
    'in both trees is compared. Limited to the histories generated.'
)
PROPERTY = Property(
    'C05',
    'Random call histories (8-60 calls) with several replications; and wide trees (up to ~1500 '
    'entries) with hard links. Non-trivial: a non-empty tree was replicated and data written; for '
    'wide trees more than one internal batch.',
    [Part('copy', strategy, run, quick=160, thorough=4000),
     Part('wide', wide_strategy, wide_run, quick=12, thorough=300),
     Part('tools', tools_strategy, clitools.run_tool, quick=100, thorough=20000)],
)
