'''C23: reported statistics match the contents of the file system.'''

import os
import re
import struct

from harness import env, inspect
from harness.core import Part, Property, check
from harness.fsdrive import CTRL_INODE
from harness.session import FsDriver, make_world, run_history

WEIGHTS = {
    'create': 8, 'mkdir': 3, 'mknod': 1, 'symlink': 2, 'link': 2, 'unlink': 4, 'rmdir': 1, 'rename': 2,
    'open': 3, 'release': 2, 'wblk': 8, 'write': 8, 'read': 3, 'truncate': 5, 'setxattr': 1,
    'sync': 2, 'drop': 1, 'sleep': 2, 'cachesize': 1, 'forget': 1, 'forgetall': 1, 'remount': 1, 'copy': 2,
    'rmtree': 1, 'stat': 4, 'quiesce': 4, 'cyield': 1,
}  # fmt: skip
FIELDS = ('entries', 'objects', 'inodes', 'fs_size', 'dedup', 'compr', 'db_size', 'cache_cnt', 'cache_size',
          'dirty_cnt', 'dirty_size', 'removals')  # fmt: skip


def strategy():
    from hypothesis import strategies as st

    from checks import C04
    from harness import fsops

    C04.ops(1, 2)
    fsops.OPS['stat'] = fsops.t('stat', st.integers(0, 2))
    return st.fixed_dictionaries({'cfg': fsops.cfg(delays=st.lists(st.integers(0, 12), max_size=8)),
                                  'ops': fsops.op_list(WEIGHTS, 5, 50)})  # fmt: skip


class Driver(FsDriver):
    special = None

    async def op_wblk(self, *a):
        from checks import C04

        await C04.Driver.op_wblk(self, *a)

    def cachefiles(self):
        res = {}
        d = self.world.cachepath() + '-cache'
        for f in os.listdir(d):
            if re.fullmatch(r'\d+-\d+', f):
                res[f] = os.path.getsize(os.path.join(d, f))
        return res

    async def extstat(self):
        buf = await self.call(None, 'getxattr', self.ops.getxattr(CTRL_INODE, b's3qlstat', self.ctx))
        check(len(buf) == 96, 's3qlstat record has %d bytes', len(buf))
        return dict(zip(FIELDS, struct.unpack('=12Q', buf)))

    def inodes(self):
        '''All nodes that have not been destroyed'''
        live = self.model.live()
        gone = [n for n in self.model.nodes
                if n.gone and (n.handles or self.looked.get(n.ino)) and n.ino is not None]  # fmt: skip
        return live + gone

    async def op_stat(self, how):
        '''Any time: what does not depend on uploads'''
        if how == 2:
            return await self.statvfs()
        s = await self.extstat()
        files = self.cachefiles()
        check(s['cache_cnt'] == len(files), '%d cache entries reported, there are %d cache files',
              s['cache_cnt'], len(files))  # fmt: skip
        check(s['cache_size'] == sum(files.values()), 'cache size %d reported, cache files have %d',
              s['cache_size'], sum(files.values()))  # fmt: skip
        check(s['dirty_cnt'] <= s['cache_cnt'] and s['dirty_size'] <= s['cache_size'],
              'more dirty than cached blocks: %r', s)  # fmt: skip
        nodes = self.inodes()
        check(s['entries'] == len(self.model.paths()) + 1, '%d directory entries reported, expected %d',
              s['entries'], len(self.model.paths()) + 1)  # fmt: skip
        check(s['inodes'] == len(nodes) + 2, '%d inodes reported, expected %d', s['inodes'],
              len(nodes) + 2)  # fmt: skip
        size = sum(n.size for n in nodes if n.kind != 'd')
        check(s['fs_size'] == size, 'total data size %d reported, expected %d', s['fs_size'], size)
        if self.quiet:
            most = sum((n.size + self.bs - 1) // self.bs for n in nodes if n.kind == 'f') * self.bs
            check(s['dedup'] <= most, '%d bytes after de-duplication, but files have at most %d', s['dedup'], most)
        self.label('stat')
        self.last = s
        if s['dirty_cnt']:
            self.label('stat-dirty')
        return s

    quiet = False

    async def op_quiesce(self):
        '''Everything uploaded'''
        import trio

        await self.op_sync()
        await trio.sleep(60)  # removals run in the background
        self.quiet = True
        s = await self.op_stat(0)
        self.quiet = False
        check(s['dirty_cnt'] == 0 and s['dirty_size'] == 0, 'dirty blocks reported after a flush: %r', s)
        keys = inspect.local_keys(self.world.be)
        have = inspect.data_ids(keys)
        check(s['objects'] == len(have), '%d objects reported, the backend has %d', s['objects'], len(have))
        phys = sum(os.path.getsize(keys['s3ql_data_%d' % i]) for i in have)
        check(s['compr'] == phys, 'size after compression %d reported, the objects have %d', s['compr'], phys)
        async with await inspect.open_backend(self.world) as be:
            plain = 0
            for i in have:
                plain += len((await be.fetch('s3ql_data_%d' % i))[0])
        check(s['dedup'] == plain, 'size after de-duplication %d reported, the objects contain %d',
              s['dedup'], plain)  # fmt: skip
        check(s['removals'] == 0, 'pending removals reported: %d', s['removals'])
        check(s['db_size'] == os.path.getsize(self.world.cachepath() + '.db'), 'wrong database size')
        for n in self.inodes():
            if n.ino in self.looked:
                attr = await self.ops.getattr(n.ino, self.ctx)
                if n.kind != 'd':
                    want = (n.size + 511) // 512
                    check(attr.st_blocks == want, '%s of %d bytes has %d blocks of 512 bytes', n.kind, n.size,
                          attr.st_blocks)  # fmt: skip
                    self.label('st_blocks')
        self.label('quiescent')
        if len(have) >= 2 and s['dedup'] < s['fs_size']:
            self.label('quiescent-shared')
        await self.statvfs(plain, len(have))

    async def statvfs(self, plain=None, objects=None):
        import trio

        await trio.sleep(31)  # results may be this old
        v = await self.call(None, 'statfs', self.ops.statfs(self.ctx))
        what = {a: getattr(v, a) for a in dir(v) if a.startswith('f_')}
        n = len(self.inodes()) + 2
        check(v.f_frsize > 0 and v.f_bsize > 0, 'block size %d/%d', v.f_frsize, v.f_bsize)
        check(0 <= v.f_bavail <= v.f_bfree <= v.f_blocks, 'inconsistent free space: %r', what)
        check(0 <= v.f_favail <= v.f_ffree <= v.f_files, 'inconsistent free inodes: %r', what)
        check(v.f_files - v.f_ffree == n, '%d inodes in use reported, expected %d', v.f_files - v.f_ffree, n)
        check(v.f_bavail > 0 and v.f_favail > 0, 'no free space: %r', what)
        check(v.f_namemax == 255, 'maximum length of names is reported as %d', v.f_namemax)
        if plain is not None:
            used = (v.f_blocks - v.f_bfree) * v.f_frsize
            check(abs(used - plain) <= v.f_frsize, '%d bytes in use reported, expected %d: %r', used, plain, what)
            # df computes with f_bsize
            check(v.f_bsize == v.f_frsize, 'df would show wrong sizes: %r', what)
        self.label('statfs')


def run(case, info):
    with env.Scratch() as root:
        w = make_world(root, case['cfg'])
        drv = Driver(w, case['cfg'], info)
        run_history(w, drv, case['ops'] + [['quiesce']])
    lab = info.labels
    info.nontrivial = lab.get('stat', 0) >= 2 and lab.get('quiescent-shared', 0) >= 1


# ------------------------------------------------------------------------------- the tool


def tool_strategy():
    from hypothesis import strategies as st

    from harness import clitools

    num = st.one_of(st.integers(0, 3000), st.integers(0, 2**42), st.integers(0, 2**64 - 1), st.just(0))
    return st.fixed_dictionaries({
        'values': st.lists(num, min_size=12, max_size=12),
        'tree': clitools.tree_strategy(), 'cwd': st.integers(0, 7), 'raw': st.booleans(),
        'path': clitools.path_strategy().map(
            lambda p: [p[0] if p[3] > 8 else 0, p[1], p[2] if p[3] % 2 else '', p[3]]),
        'foreign': st.sampled_from([0] * 9 + [1]),
    })  # fmt: skip


UNITS = {'bytes': 1, 'KiB': 2**10, 'MiB': 2**20, 'GiB': 2**30, 'TiB': 2**40}
SIZE = r'([\d.]+) (bytes|KiB|MiB|GiB|TiB)'


def tool_run(case, info):
    from unittest import mock

    import pyfuse3

    from harness import clitools
    from s3ql import statfs

    values = dict(zip(FIELDS, case['values']))
    asked = []

    def getxattr(path, name, size_guess=128, namespace='user'):
        asked.append((os.fsencode(path), name))
        return struct.pack('=12Q', *case['values'])

    with env.Scratch() as root:
        fs = clitools.FakeFs(root, case)
        p = fs.path(case['path'])
        good = not case['foreign'] and clitools.in_cwd(fs, lambda: p.rstrip(b'/') and fs.ismount(p.rstrip(b'/')))
        args = ['--raw'] if case['raw'] else []
        with mock.patch.object(pyfuse3, 'getxattr', getxattr):
            res = fs.run(lambda a: statfs.main([*args, *a]), [p], case['foreign'])
        if not good:
            check(res.code != 0 and not asked, 's3qlstat %r does not fail', p)
            return
        check(res.code == 0, 's3qlstat %r fails: %r %s', p, res.code, res.exc)
        check(len(asked) == 1 and asked[0][1] == 's3qlstat' and
              os.path.basename(asked[0][0]) == clitools.CTRL.encode(), 's3qlstat asks for %r', asked)  # fmt: skip
    out = {}
    for line in res.stdout.splitlines():
        k, _, v = line.partition(':')
        out[k] = v.strip()

    def number(key, val):
        check(re.fullmatch(r'\d+', out.get(key, '')), 'unexpected output: %r', res.stdout)
        check(int(out[key]) == val, '%s: %s printed, value is %d', key, out[key], val)

    def size(text, val):
        m = re.match(SIZE, text)
        check(m is not None, 'unexpected output: %r', res.stdout)
        x = float(m.group(1)) * UNITS[m.group(2)]
        if case['raw']:
            check(m.group(2) == 'bytes' and int(m.group(1)) == val, '%r printed for %d', text, val)
        else:
            check(abs(x - val) <= 0.011 * val, '%r printed for %d', text, val)
        return text[m.end() :].strip()

    def percent(text, pairs):
        got = [float(x) for x in re.findall(r'([\d.]+)%', text)]
        check(len(got) == len(pairs), 'unexpected output: %r', res.stdout)
        for g, (a, b) in zip(got, pairs):
            w = a * 100 / b if b else 0
            check(abs(g - w) <= 0.006 + 1e-9 * w, '%r printed for %d of %d', text, a, b)

    number('Directory entries', values['entries'])
    number('Inodes', values['inodes'])
    number('Data objects', values['objects'])
    number('Queued object removals', values['removals'])
    size(out['Total data size'], values['fs_size'])
    percent(size(out['After de-duplication'], values['dedup']), [(values['dedup'], values['fs_size'])])
    percent(size(out['After compression'], values['compr']),
            [(values['compr'], values['fs_size']), (values['compr'], values['dedup'])])  # fmt: skip
    size(out['Database size'], values['db_size'])
    for key, a, b in (('Cache size', 'cache_size', 'cache_cnt'), ('Cache size (dirty)', 'dirty_size', 'dirty_cnt')):
        rest = size(out[key], values[a])
        m = re.search(r'(\d+) entries', rest)
        check(m and int(m.group(1)) == values[b], '%s: %r printed, value is %d', key, rest, values[b])
    info.nontrivial = True
    info.label('printed')


TECHNIQUE = (
    'stateful model-based testing: statistics compared with a reference model, the cache directory and an '
    'independent reading of the stored objects'
)
NOTE = (
    'Generated histories; s3qlstat figures that do not depend on uploads are compared with the model and the '
    'real cache files at any point between calls, the others at quiescent points with the stored objects; '
    'statfs and st_blocks likewise. The output of the command line tool is parsed for generated figures. '
    'Limited to the histories generated; one client.'
)
PROPERTY = Property(
    'C23',
    'Histories of 5-50 calls / generated records. Non-trivial: two comparisons and a quiescent point with '
    'several objects and shared blocks / output was printed.',
    [
        Part('history', strategy, run, quick=120, thorough=4000),
        Part('tool', tool_strategy, tool_run, quick=150, thorough=4000),
    ],
)
