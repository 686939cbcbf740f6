'''The tools that talk to a mounted file system, run against a directory tree that plays the file
system. Commands are recorded, never executed.'''

import ast
import errno
import os
from types import SimpleNamespace
from unittest import mock

from .core import check
from .env import Scratch, run_cli

NAMES = [b'a', b'b', b'c c', b"it's", b'"q"', b'back\\slash', b'new\nline', b'\xff\xfe', 'ä€'.encode(), b'..a',
         b'...', b'-x', b'%d', b'{}', b'a' * 200, b"'", b'\\x41', b' ', b'~']  # fmt: skip
real_stat = os.stat
CTRL = '.__s3ql__ctrl__'


def tree_strategy():
    from hypothesis import strategies as st

    node = st.tuples(st.integers(0, 7), st.integers(0, len(NAMES) - 1), st.sampled_from('dddfll'), st.integers(0, 9))
    return st.lists(node.map(list), min_size=1, max_size=12)


def path_strategy():
    '''[node, style, base directory, decoration]'''
    from hypothesis import strategies as st

    return st.tuples(
        st.integers(0, 15), st.sampled_from(['abs', 'abs', 'rel', 'rel']),
        st.sampled_from(['', '', '', '', '/', '//', '/.', '/..', '/./', '+', 'missing', 'up', 'dot', 'slash']),
        st.integers(0, 12),
    ).map(list)  # fmt: skip


class FakeFs:
    def __init__(self, root, case):
        self.root = os.fsencode(root) + b'/mnt'
        self.outside = os.fsencode(root) + b'/outside'
        self.cmds = []
        self.synced = []
        os.mkdir(self.root)
        os.mkdir(self.outside)
        os.mkdir(self.outside + b'/sub')
        self.nodes = [self.root]
        self.dirs = [self.root]
        self.euid = None
        for par, ni, kind, tgt in case['tree']:
            d = self.dirs[par % len(self.dirs)]
            p = d + b'/' + NAMES[ni]
            if os.path.lexists(p):
                continue
            if kind == 'd':
                os.mkdir(p)
                self.dirs.append(p)
            elif kind == 'f':
                with open(p, 'wb'):
                    pass
            elif tgt == 8:
                os.symlink(b'dangling', p)
            elif tgt == 9:
                os.symlink(self.outside + b'/sub', p)
            else:
                os.symlink(self.nodes[tgt % len(self.nodes)], p)
            self.nodes.append(p)
        for d in self.dirs:
            with open(d + b'/' + CTRL.encode(), 'wb'):
                pass
        self.cwd = self.dirs[case['cwd'] % len(self.dirs)]

    def path(self, spec):
        i, style, deco, j = spec
        p = self.nodes[i % len(self.nodes)]
        if style == 'rel':
            p = os.path.relpath(p, self.cwd)
        head, tail = os.path.split(p)
        if deco == '+':
            p = p + b'/' + NAMES[j]
        elif deco == '+up':
            p = p + b'/../' + NAMES[j]
        elif deco == 'missing':
            p = os.path.join(head, b'nothing')
        elif deco == 'up':
            p = os.path.join(head, b'..', os.path.basename(os.path.realpath(head or b'.')), tail)
        elif deco == 'dot':
            p = os.path.join(head, b'.', tail)
        elif deco == 'slash':
            p = head + b'//' + tail if head else tail
        else:
            p += deco.encode()
        return p

    def inside(self, p):
        '''Is the directory *p* part of the file system?'''
        if not os.path.isdir(p):
            return False
        p = os.path.realpath(p)
        return (p == self.root or p.startswith(self.root + b'/'))

    # -- what the tools see

    def setxattr(self, path, name, value, namespace='user'):
        path = os.fsencode(path)
        check(os.path.basename(path) == CTRL.encode() and self.inside(os.path.dirname(path) or b'.'),
              'command for %r instead of the control file', path)  # fmt: skip
        self.cmds.append((name, value))

    def listdir(self, path):
        return [x for x in os.listdir(path) if x != CTRL]

    def syncfs(self, path):
        path = os.fsencode(path)
        if not os.path.exists(path):
            raise FileNotFoundError(errno.ENOENT, 'no such file', path)
        d = path if os.path.isdir(path) else os.path.dirname(path) or b'.'
        check(self.inside(d), 'syncfs of %r, which is on another file system', path)
        self.synced.append(path)

    def stat(self, path, *a, **kw):
        st = real_stat(path, *a, **kw)
        if not isinstance(path, int):
            p = os.path.realpath(os.fsencode(path))
            if p != self.root and not p.startswith(self.root + b'/'):
                # everything else is on another device
                st = SimpleNamespace(**{k: getattr(st, k) for k in dir(st) if k.startswith('st_')})
                st.st_dev += 1
        return st

    def ismount(self, path):
        try:
            return os.path.samefile(path, self.root)
        except OSError:
            return False

    def run(self, main, args, foreign=False):
        import pyfuse3

        old = os.getcwd()
        os.chdir(self.cwd)
        self.cmds = []
        try:
            with mock.patch.object(pyfuse3, 'setxattr', self.setxattr), \
                    mock.patch.object(pyfuse3, 'listdir', self.listdir), \
                    mock.patch.object(pyfuse3, 'syncfs', self.syncfs), \
                    mock.patch.object(os.path, 'ismount', self.ismount), \
                    mock.patch.object(os, 'stat', self.stat), \
                    mock.patch.object(os, 'geteuid', lambda: 4711 if foreign else os.getuid()):  # fmt: skip
                return run_cli(main, ['--', *map(os.fsdecode, args)] if args else [], reraise=False)
        finally:
            os.chdir(old)

    def listing(self):
        out = set()
        for d, ds, fs in os.walk(self.root):
            out.update(d + b'/' + x for x in ds + fs)
        return out


def in_cwd(fs, fn):
    old = os.getcwd()
    os.chdir(fs.cwd)
    try:
        return fn()
    finally:
        os.chdir(old)


def cp_paths():
    from hypothesis import strategies as st

    plain = path_strategy().map(lambda p: [p[0], p[1], p[2] if p[3] > 8 else '', p[3]])
    new = path_strategy().map(lambda p: [p[0], p[1], '+' if len(p[2]) < 2 else '+up', p[3]])
    return st.tuples(plain, st.one_of(new, new, new, plain)).map(list)


def cases(tools):
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        'tool': st.sampled_from(tools), 'tree': tree_strategy(), 'cwd': st.integers(0, 7),
        'paths': st.lists(path_strategy(), min_size=2, max_size=3) if tools != ['cp'] else cp_paths(), 'foreign': st.sampled_from([0] * 9 + [1]),
    })  # fmt: skip


def run_tool(case, info):
    with Scratch() as root:
        fs = FakeFs(root, case)
        paths = [fs.path(p) for p in case['paths']]
        before = fs.listing()
        info.label(case['tool'])
        globals()['do_' + case['tool']](fs, paths, case, info)
        if case['tool'] != 'cp':
            check(fs.listing() == before, '%s changes the tree itself', case['tool'])


def accept(fs, res, want, case, info, tool):
    '''want: list of expected commands, None for a path that has to be refused'''
    got = []
    for name, value in fs.cmds:
        got.append((name, value))
    good = want[: want.index(None)] if None in want else want
    if case['foreign']:
        good = []
        check(res.code != 0, '%s by another user succeeds', tool)
    elif None in want:
        check(res.code != 0, '%s succeeds', tool)
    else:
        check(res.code == 0, '%s fails with %r', tool, res.exc)
        info.nontrivial = True
    check(len(got) == len(good), '%s sends %r, expected %r', tool, got, good)
    for (name, value), (n2, types, v2) in zip(got, good):
        check(name == n2, '%s sends command %r, expected %r', tool, name, n2)
        try:
            v = ast.literal_eval(value.decode())
        except (ValueError, SyntaxError):
            v = None
        check(v == v2, '%s sends %r, expected %r', tool, value, v2)


def do_rm(fs, paths, case, info):
    from s3ql import remove

    want = []
    for p in paths:
        q = p.rstrip(b'/')
        head, tail = os.path.split(q)
        w = None
        if tail not in (b'', b'.', b'..'):
            def lookup():
                if not os.path.lexists(q) or fs.ismount(q) or not fs.inside(head or b'.'):
                    return None
                return ('rmtree', (int, bytes), (os.stat(head or b'.').st_ino, tail))
            w = in_cwd(fs, lookup)
            if w is None:
                # the file system itself refuses to remove what does not exist
                def missing():
                    return fs.inside(head or b'.') and not fs.ismount(q)
                if in_cwd(fs, missing):
                    w = 'missing'
            elif os.path.islink(os.path.join(fs.cwd, q)):
                info.label('rm of a link')
        want.append(w)
    if 'missing' in want:
        # only judge what comes before
        i = want.index('missing')
        paths, want = paths[:i], want[:i]
        if not paths:
            return
    res = fs.run(remove.main, paths, case['foreign'])
    accept(fs, res, want, case, info, 's3qlrm %r' % paths)


def do_lock(fs, paths, case, info):
    from s3ql import lock

    def lookup(p):
        p = p.rstrip(b'/')
        if not p or not os.path.isdir(p) or fs.ismount(p) or not fs.inside(p):
            return None
        return ('lock', int, os.stat(p).st_ino)

    want = [in_cwd(fs, lambda: lookup(p)) for p in paths]
    res = fs.run(lock.main, paths, case['foreign'])
    accept(fs, res, want, case, info, 's3qllock %r' % paths)


def do_cp(fs, paths, case, info):
    from s3ql import cp

    src, dst = paths[0], paths[1]

    def expect():
        s, d = src.rstrip(b'/'), dst.rstrip(b'/')
        if not s or not d or not os.path.isdir(s) or fs.ismount(s) or not fs.inside(s):
            return None
        if os.path.lexists(d) or not fs.inside(os.path.dirname(d) or b'.'):
            return None
        return os.stat(s).st_ino

    ino = in_cwd(fs, expect)
    before = fs.listing()
    res = fs.run(cp.main, [src, dst], case['foreign'])
    after = fs.listing()
    what = 's3qlcp %r' % [src, dst]
    if ino is None or case['foreign']:
        accept(fs, res, [None], case, info, what)
        check(before == after, '%s leaves %r', what, after - before)
        return
    t = in_cwd(fs, lambda: os.path.realpath(dst))
    check(after - before == {t} and not before - after, '%s creates %r', what, after - before)
    accept(fs, res, [('copy', (int, int), (ino, os.stat(t).st_ino))], case, info, what)


# ---------------------------------------------------------------- s3qlctrl


def ctrl_cases():
    from hypothesis import strategies as st

    module = st.one_of(st.sampled_from(['s3ql.fs', 's3ql', 'all', "it's", '"', '\\', 'ä', 'a b', '%s', '{0}', '', '-q']),
                       st.text(st.characters(exclude_characters=',\0', exclude_categories=['Cs']), max_size=6))  # fmt: skip
    cmd = st.one_of(
        st.sampled_from([['flushcache'], ['dropcache'], ['backup-metadata']]),
        st.integers(-5, 2**45).map(lambda n: ['cachesize', str(n)]),
        st.sampled_from(['abc', '', '1.5', '1k', '0x10']).map(lambda n: ['cachesize', n]),
        st.tuples(st.sampled_from(['debug', 'debug', 'info', 'warn', 'error', '']), st.lists(module, max_size=3)).map(
            lambda x: ['log', x[0], *x[1]]),
        st.sampled_from([['nonsense'], ['flushcache', 'x']]),
    )  # fmt: skip
    return st.fixed_dictionaries({
        'tree': tree_strategy(), 'cwd': st.integers(0, 7), 'cmd': cmd,
        'path': path_strategy().map(lambda p: [p[0] if p[3] > 8 else 0, p[1], p[2] if p[3] % 2 else '', p[3]]),
        'foreign': st.sampled_from([0] * 9 + [1]),
    })  # fmt: skip


def run_ctrl(case, info):
    import logging

    from s3ql import ctrl

    with Scratch() as root:
        fs = FakeFs(root, case)
        p = fs.path(case['path'])
        name, *args = case['cmd']
        want = {'flushcache': 's3ql_flushcache!', 'dropcache': 's3ql_dropcache!', 'backup-metadata': 'upload-meta'}
        info.label(name)
        w = None
        if name in want and not args:
            w = (want[name], None, None)
        elif name == 'cachesize':
            try:
                n = int(args[0])
            except ValueError:
                pass
            else:
                w = ('cachesize', int, n * 1024)
                if n < 0:
                    return
        elif name == 'log':
            level, mods = args[0], args[1:]
            no = {'debug': logging.DEBUG, 'info': logging.INFO, 'warn': logging.WARNING}.get(level)
            if no is not None and not (mods and level != 'debug'):
                w = ('logging', (int, str), (no, ','.join(mods or ['all'])))
        q = p.rstrip(b'/')
        if not in_cwd(fs, lambda: q and fs.ismount(q)):
            w = None
        main = lambda a: ctrl.main([name, *a[:1], os.fsdecode(p), *args]) if name != 'x' else None  # noqa: E731
        res = fs.run(lambda a: main(['--']), [b'x'], case['foreign'])
        accept_ctrl(fs, res, w, case, info, 's3qlctrl %r %r' % (case['cmd'], p))


def accept_ctrl(fs, res, w, case, info, what):
    if w is not None and w[1] is None:
        if case['foreign']:
            check(res.code != 0 and not fs.cmds, '%s by another user succeeds', what)
            return
        check(res.code == 0, '%s fails with %r', what, res.exc)
        check([c[0] for c in fs.cmds] == [w[0]], '%s sends %r', what, fs.cmds)
        info.nontrivial = True
        return
    accept(fs, res, [w], case, info, what)
