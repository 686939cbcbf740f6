'''Trees with more entries than one internal batch of the file system'''

import os
import stat

from .fsdrive import pattern
from .session import FsDriver


def strategy(whats):
    from hypothesis import strategies as st

    small = st.integers(0, 5)
    return st.fixed_dictionaries({
        'cfg': st.fixed_dictionaries({'icache': st.sampled_from([10, 100]),
                                      'sched': st.integers(0, 99),
                                      'delays': st.lists(st.integers(0, 3), max_size=3)}),
        'dirs': st.lists(st.integers(0, 4), min_size=1, max_size=5),
        'sizes': st.lists(st.integers(0, 260), min_size=1, max_size=6),
        'links': st.lists(st.tuples(st.integers(0, 999), small).map(list), max_size=8),
        'data': st.lists(st.tuples(st.integers(0, 999), small, small).map(list), max_size=6),
        'what': st.sampled_from(whats),
        'target': small,
    })  # fmt: skip


class WideDriver(FsDriver):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.skip_times = True

    async def mk(self, d, name, kind):
        if kind == 'd':
            node = self.model.new('d', stat.S_IFDIR | 0o755, 0, 0)
            attr = await self.call(None, 'mkdir', self.ops.mkdir(d.ino, name, node.mode, self.ctx))
        else:
            node = self.model.new('f', stat.S_IFREG | 0o644, 0, 0)
            attr = await self.call(
                None, 'mknod', self.ops.mknod(d.ino, name, node.mode, 0, self.ctx)
            )
        node.ino = attr.st_ino
        self.got(node.ino)
        node.atime, node.mtime, node.ctime = (attr.st_atime_ns, attr.st_mtime_ns, attr.st_ctime_ns)
        d.entries[name] = node
        self.model.nodes.append(node)
        if kind == 'd':
            node.parent = d
        return node

    async def put(self, f, blocks, tag):
        fi = await self.call(None, 'open', self.ops.open(f.ino, os.O_RDWR, self.ctx))
        buf = pattern(tag, 0, blocks * 700 + 1)
        await self.call(None, 'write', self.ops.write(fi.fh, 0, buf))
        await self.ops.release(fi.fh)
        f.data[0 : len(buf)] = buf

    async def build(self, case):
        top = await self.mk(self.model.root, b'top', 'd')
        dirs = [top]
        for i, p in enumerate(case['dirs']):
            dirs.append(await self.mk(dirs[p % len(dirs)], b'd%d' % i, 'd'))
        files = []
        for i, n in enumerate(case['sizes']):
            d = dirs[i % len(dirs)]
            for k in range(n):
                files.append(await self.mk(d, b'f%d-%d' % (i, k), 'f'))
        outside = await self.mk(self.model.root, b'outside', 'd')
        for i, (f, d) in enumerate(case['links']):
            if not files:
                break
            f = files[f % len(files)]
            d = (dirs + [outside])[d % (len(dirs) + 1)]
            name = b'l%d' % i
            await self.call(None, 'link', self.ops.link(f.ino, d.ino, name, self.ctx))
            self.got(f.ino)
            f.nlink += 1
            d.entries[name] = f
        for f, blocks, tag in case['data']:
            if files:
                await self.put(files[f % len(files)], blocks, tag)
        if len(self.model.live()) > 110:
            self.label('more-than-one-batch')
        return dirs, files
