'''C27: unmounting waits until everything is stored; parallel copying copies everything.'''

import errno
import importlib.util
import os
import random
import shutil
import stat
import subprocess
import threading
import time
from unittest import mock

from harness import boot, env
from harness.clitools import FakeFs, tree_strategy
from harness.core import Part, Property, check

# -------------------------------------------------------------------- umount

real_sleep = time.sleep


def umount_strategy():
    from hypothesis import strategies as st

    return st.fixed_dictionaries({
        'tree': tree_strategy(), 'cwd': st.integers(0, 7), 'lazy': st.sampled_from([False, False, False, True]),
        'where': st.sampled_from(['root', 'root', 'root', 'root', 'root/', 'sub', 'outside', 'missing']),
        'busy': st.sampled_from([False, False, False, True]), 'fails': st.sampled_from([0, 0, 0, 0, 1, 32]),
        'flush': st.sampled_from([None, None, None, None, errno.EIO, errno.EPERM]),
        'lives': st.one_of(st.none(), st.integers(0, 30)), 'patience': st.sampled_from([5, 25, 25, 150, 1000, 5000]), 'uid': st.sampled_from([0, 0, 1000]),
        'fusermount3': st.booleans(), 'race': st.one_of(st.none(), st.none(), st.integers(2, 12)),
    })  # fmt: skip


class Daemon:
    '''A process that plays mount.s3ql'''

    def __init__(self):
        self.proc = subprocess.Popen(['/bin/sleep', '300'], stdin=subprocess.DEVNULL)
        self.ended = None
        self.timer = None
        # The arguments of a new program become visible a little later than its start
        while not self.cmdline().startswith(b'/bin/sleep'):
            real_sleep(0.001)

    def cmdline(self):
        with open('/proc/%d/cmdline' % self.proc.pid, 'rb') as fh:
            return fh.read()

    def end(self):
        self.ended = time.monotonic()
        self.proc.kill()
        self.proc.wait()

    def later(self, delay):
        if delay == 0:
            self.end()
            return
        self.timer = threading.Timer(delay, self.end)
        self.timer.start()

    def alive(self):
        # poll() would report a process as alive while another thread waits for it
        return self.ended is None

    def stop(self):
        if self.timer:
            self.timer.join()
        if self.proc.returncode is None:
            self.end()


def run_umount(case, info):
    import pyfuse3

    from s3ql import umount

    with env.Scratch() as root:
        fs = FakeFs(root, case)
        daemon = Daemon()
        events = []
        try:
            where = case['where']
            path = {
                'root': fs.root, 'root/': fs.root + b'/', 'missing': os.path.dirname(fs.root) + b'/nothing', 'outside': fs.outside,
                'sub': fs.dirs[-1],
            }[where]  # fmt: skip
            ok = os.path.realpath(path) == os.path.realpath(fs.root)

            def call(cmd, *a, **kw):
                name = os.path.basename(cmd[0])
                target = os.fsencode(cmd[-1])
                check(os.path.samefile(target, fs.root), 'command %r is about something else', cmd)
                if name == 'fuser':
                    if '-v' not in cmd:
                        events.append('fuser')
                    return 0 if case['busy'] else 1
                lazy = '-l' in cmd or '-z' in cmd
                check(name in ('umount', 'fusermount', 'fusermount3'), 'runs %r', cmd)
                check((name == 'umount') == (case['uid'] == 0), 'uid %d runs %r', case['uid'], cmd)
                check(name == 'umount' or '-u' in cmd, 'runs %r', cmd)
                check(name != 'fusermount' or not case['fusermount3'], 'fusermount3 is not used')
                events.append('lazy' if lazy else 'umount')
                if not case['fails'] and not lazy and case['lives'] is not None:
                    daemon.later(case['lives'] / 100)
                return case['fails']

            def run(cmd, *a, **kw):
                return subprocess.CompletedProcess(cmd, call(cmd))

            def check_call(cmd, *a, **kw):
                rc = call(cmd)
                if rc:
                    raise subprocess.CalledProcessError(rc, cmd)
                return 0

            def setxattr(p, name, value, namespace='user'):
                fs.setxattr(p, name, value)
                check(name == 's3ql_flushcache!', 'command %r', name)
                check('umount' not in events and 'lazy' not in events, 'flushes after unmounting')
                events.append('flush')
                if case['flush']:
                    raise OSError(case['flush'], 'flushing fails')

            def getxattr(p, name, size_guess=128, namespace='user'):
                check(name == 's3ql_pid?', 'asks for %r', name)
                check('umount' not in events, 'asks for the process after unmounting')
                return b'%d' % daemon.proc.pid

            def sleep(s):
                # a process that survives everything must be waited for
                events.append('sleep')
                env.vtime.advance(s)
                if case['lives'] is not None:
                    real_sleep(min(s, 1) / 50)
                elif events.count('sleep') == case['patience']:
                    check(daemon.alive(), 'process is gone')
                    events.append('patience')
                    daemon.end()

            def which(name, *a, **kw):
                if name.startswith('fusermount'):
                    return '/bin/' + name if case['fusermount3'] or name == 'fusermount' else None
                return shutil_which(name, *a, **kw)

            real_open = open

            def open_(path, *a, **kw):
                '''The process may end after its command line has been opened and before it is read'''
                fh = real_open(path, *a, **kw)
                if path == '/proc/%d/cmdline' % daemon.proc.pid:
                    events.append('cmdline')
                    if 'umount' in events and events.count('cmdline') == case['race'] and daemon.alive():
                        events.append('patience')
                        daemon.end()
                return fh

            shutil_which = shutil.which
            args = (['--lazy'] if case['lazy'] else []) + ['--log', 'none']
            with mock.patch.object(subprocess, 'call', call), mock.patch.object(subprocess, 'run', run), \
                    mock.patch.object(subprocess, 'check_call', check_call), \
                    mock.patch.object(pyfuse3, 'setxattr', setxattr), mock.patch.object(pyfuse3, 'getxattr', getxattr), \
                    mock.patch.object(pyfuse3, 'listdir', fs.listdir), mock.patch.object(os.path, 'ismount', fs.ismount), \
                    mock.patch.object(os, 'stat', fs.stat), mock.patch.object(os, 'getuid', lambda: case['uid']), \
                    mock.patch('builtins.open', open_), mock.patch.object(time, 'sleep', sleep), mock.patch.object(shutil, 'which', which):  # fmt: skip
                res = env.run_cli(umount.main, [*args, os.fsdecode(path)], reraise=False)
            alive = daemon.alive()
            did = [e for e in events if e not in ('sleep', 'patience', 'cmdline')]
            if not ok:
                check(res.code not in (0, 3), 'umount of %s exits with %r', where, res.code)
                check(not did, 'umount of %s does %r', where, did)
                info.label('wrong path')
            elif case['lazy']:
                check(did == ['lazy'], 'lazy unmounting does %r', did)
                check(res.code == (2 if case['fails'] else 0), 'exit code is %r (%r)', res.code, res.exc)
                info.label('lazy')
            elif case['busy']:
                check(did == ['fuser'], 'unmounting what is in use does %r', did)
                check(res.code == 1, 'exit code is %r (%r)', res.code, res.exc)
                info.label('busy')
            elif case['flush']:
                check('umount' not in did and res.code != 0, 'unmounted (%r) although flushing failed', did)
                info.label('flush error')
            elif case['fails']:
                check(did == ['fuser', 'flush', 'umount'] and res.code == 2, 'umount fails: %r, exit code %r', did, res.code)
                info.label('umount fails')
            else:
                check(did == ['fuser', 'flush', 'umount'], 'unmounting does %r', did)
                check(res.code == 0, 'exit code is %r (%r)', res.code, res.exc)
                check(not alive, 'umount returns although the file system process is still running')
                if case['lives'] is None:
                    check('patience' in events, 'umount has not waited')
                info.label('waited' if 'sleep' in events else 'at once')
                info.nontrivial = True
        finally:
            daemon.stop()


# ----------------------------------------------------------------------- pcp

_pcp = None


def pcp():
    global _pcp
    if _pcp is None:
        spec = importlib.util.spec_from_file_location('pcp', os.path.join(boot.REPO, 'contrib', 'pcp.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        _pcp = mod
    return _pcp


FIRST = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-+~[]{}!*? \'"\\äÖ€#'


def pcp_strategy():
    from hypothesis import strategies as st

    name = st.tuples(st.integers(0, len(FIRST) - 1), st.sampled_from(['', '', 'x', 'aZ0', ' *', '[a]', 'z' * 100])).map(list)
    node = st.tuples(st.integers(0, 6), name, st.sampled_from('fffffdl'), st.integers(0, 9)).map(list)
    return st.fixed_dictionaries({
        'nodes': st.one_of(st.lists(node, max_size=25), st.just('all')), 'procs': st.one_of(st.integers(2, 27), st.sampled_from([2, 3, 10, 27])),
        'archive': st.booleans(), 'slash': st.booleans(), 'more': st.sampled_from([None, None, 'file', 'dir', 'missing']),
        'fail': st.one_of(st.none(), st.none(), st.integers(0, 26)), 'quiet': st.booleans(), 'old': st.booleans(), 'seed': st.integers(0, 999),
    })  # fmt: skip


def fill(top, case):
    rnd = random.Random(case['seed'])
    dirs = [top]
    os.mkdir(top)
    nodes = case['nodes']
    if nodes == 'all':
        nodes = [[0, [i, ''], 'f', i % 10] for i in range(len(FIRST)) if FIRST[i] != '.']
    for par, (f, rest), kind, no in nodes:
        p = dirs[par % len(dirs)] + '/' + FIRST[f] + rest
        if os.path.lexists(p) or os.path.basename(p) == '.':
            continue
        if kind == 'd':
            os.mkdir(p)
            dirs.append(p)
        elif kind == 'l':
            os.symlink(('nowhere', '.', '../x')[no % 3], p)
        else:
            with open(p, 'wb') as fh:
                fh.write(rnd.randbytes(no * 50))
            os.chmod(p, (0o644, 0o600, 0o755, 0o4711)[no % 4])
            os.utime(p, (10**9, 10**9 + no))


def scan(top, archive):
    out = {}
    for d, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            e = [stat.S_IFMT(st.st_mode)]
            if stat.S_ISLNK(st.st_mode):
                e.append(os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as fh:
                    e.append(fh.read())
                e.append(stat.S_IMODE(st.st_mode))
                if archive:
                    e += [st.st_mtime_ns, st.st_uid, st.st_gid]
            elif archive:
                e.append(stat.S_IMODE(st.st_mode))
            out[os.path.relpath(p, top)] = e
    return out


def run_pcp(case, info):
    if not shutil.which('rsync'):
        info.label('no rsync')
        return
    with env.Scratch() as root:
        src = os.path.join(root, 'src')
        fill(src, case)
        srcs = [src + '/' if case['slash'] else src]
        if case['more'] == 'file':
            with open(os.path.join(root, 'File'), 'wb') as fh:
                fh.write(b'one more')
            srcs.append(os.path.join(root, 'File'))
        elif case['more'] == 'dir':
            os.mkdir(os.path.join(root, 'other'))
            with open(os.path.join(root, 'other', 'q'), 'wb') as fh:
                fh.write(b'other')
            srcs.append(os.path.join(root, 'other'))
        elif case['more'] == 'missing':
            srcs.append(os.path.join(root, 'missing'))
        for d in ('dst', 'ref', 'bin'):
            os.mkdir(os.path.join(root, d))
        if case['old']:
            for d in ('dst', 'ref'):
                with open(os.path.join(root, d, 'old file'), 'wb') as fh:
                    fh.write(b'old')
                os.utime(fh.name, (10**9, 10**9))
        quiet = {'stdin': subprocess.DEVNULL, 'stdout': subprocess.DEVNULL, 'stderr': subprocess.DEVNULL}
        ref = subprocess.run(['rsync', '-aHAX' if case['archive'] else '-r', *srcs, os.path.join(root, 'ref')], **quiet)
        started = []
        Popen = subprocess.Popen

        class Fake(Popen):
            '''Like Popen, but one of the processes fails at the end'''

            def __init__(self, cmd, *a, **kw):
                check(os.path.basename(cmd[0]) == 'rsync' and not kw.get('shell'), 'runs %r', cmd)
                self.no = len(started)
                started.append(cmd)
                super().__init__(cmd, **quiet)

            def wait(self, timeout=None):
                rc = super().wait(timeout)
                return 23 if self.no == case['fail'] else rc

            def poll(self):
                rc = super().poll()
                return 23 if rc is not None and self.no == case['fail'] else rc

            def communicate(self, *a, **kw):
                res = super().communicate(*a, **kw)
                if self.no == case['fail']:
                    self.returncode = 23
                return res

        args = ['--processes=%d' % case['procs'], '--log', 'none']
        if case['archive']:
            args.append('-a')
        if case['quiet']:
            args.append('--quiet')
        with mock.patch.object(subprocess, 'Popen', Fake):
            res = env.run_cli(pcp().main, [*args, *srcs, os.path.join(root, 'dst')], reraise=False)
        bad = ref.returncode != 0 or case['fail'] is not None and case['fail'] < len(started)
        check(len(started) == case['procs'], '%d processes instead of %d', len(started), case['procs'])
        if bad:
            check(res.code != 0, 'a process fails, but the exit code is 0')
            info.label('failure')
        else:
            check(res.code == 0, 'exit code is %r (%r)', res.code, res.exc)
        want, got = scan(os.path.join(root, 'ref'), case['archive']), scan(os.path.join(root, 'dst'), case['archive'])
        check(set(want) == set(got), 'not copied: %r, too many: %r', sorted(set(want) - set(got))[:5], sorted(set(got) - set(want))[:5])
        for p, w in want.items():
            check(got[p] == w, '%r is copied as %.80r instead of %.80r', p, got[p], w)
        info.label('archive' if case['archive'] else 'plain')
        info.nontrivial = len(want) > 2


TECHNIQUE = 'differential testing of the copying tool against a single rsync process on generated trees; scripted outcomes and process life times for unmounting'
NOTE = 'umount: the programs it calls are stand-ins that record the call; the file system process is a real process. pcp.py: real rsync processes in a scratch directory.'
PROPERTY = Property(
    'C27',
    'umount: all combinations of outcomes of the programs called, life times of the file system process, wrong paths, lazy mode, ordinary users. pcp.py: trees with '
    'names that start with any character, 2 to 27 processes, several sources, failing processes. Non-trivial: unmounting completed, or more than two entries copied.',
    [
        Part('umount', umount_strategy, run_umount, quick=60, thorough=1500),
        Part('pcp', pcp_strategy, run_pcp, quick=30, thorough=400),
    ],
)
