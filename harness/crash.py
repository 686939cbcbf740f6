'''Simulated kills: the files of a file system are copied at a chosen instant of a run.

An instant is (phase, coarse, fine): within the given phase (number of the call in the history)
the coarse-th event (SQL statement, system call that the interpreter audits, scheduling step)
and then the fine-th executed source line of the code under test. Or it is (kind, n, coarse, fine):
likewise, but counting from the n-th event of one kind in the whole history.
'''

import os
import re
import shutil
import sys

from . import boot

TOOL = 4


class Monitor:
    '''Only one can be active in the process'''

    active = None
    hooked = False

    def __init__(self, points, take):
        # points: list of (phase, coarse, fine); take(index) is called at each of them
        self.todo = sorted(((tuple(p), i) for i, p in enumerate(points) if len(p) == 3),
                           reverse=True)  # fmt: skip
        self.kinds = [[*p, i] for i, p in enumerate(points) if len(p) == 4]
        self.armed = []
        self.counts = {}
        self.take = take
        self.phase = -1
        self.coarse = 0
        self.fine = None
        self.busy = False
        self.taken = set()

    # -- events

    def event(self, kind=None):
        if self.busy:
            return
        if kind is not None and self.kinds:
            n = self.counts.get(kind, 0)
            self.counts[kind] = n + 1
            for p in [p for p in self.kinds if p[0] == kind and p[1] == n]:
                self.kinds.remove(p)
                self.armed.append(p[2:])
        if self.fine is not None:
            return
        if self.armed:
            a = self.armed[0]
            a[0] -= 1
            if a[0] < 0:
                self.armed.pop(0)
                self.todo.append(((self.phase, 0, a[1]), a[2]))
        n = self.coarse
        self.coarse += 1
        while self.todo and self.fine is None:
            (ph, co, fi), i = self.todo[-1]
            if ph == self.phase and co <= n:
                if fi == 0:
                    self.hit()
                else:
                    self.fine = fi
                    self.lines(True)
            else:
                return

    def hit(self):
        (_, i) = self.todo.pop()
        self.fine = None
        self.lines(False)
        self.busy = True
        try:
            self.taken.add(i)
            self.take(i)
        finally:
            self.busy = False

    def set_phase(self, phase):
        '''Points of the previous phases that were not reached are taken now'''
        while self.todo and (self.todo[-1][0][0] < phase):
            self.hit()
        self.phase = phase
        self.coarse = 0
        self.event()

    def finish(self):
        while self.todo:
            self.hit()

    def lines(self, on):
        mon = sys.monitoring
        mon.set_events(TOOL, mon.events.LINE if on else 0)
        if on:
            mon.restart_events()

    def on_line(self, code, line):
        if not code.co_filename.startswith(boot.SRC):
            return sys.monitoring.DISABLE
        if self.fine is None or self.busy:
            return None
        self.fine -= 1
        if self.fine <= 0:
            self.hit()
        return None

    # -- instrument protocol (trio)

    def before_task_step(self, task):
        self.event()

    # -- lifetime

    def __enter__(self):
        import apsw

        from . import env

        mon = sys.monitoring
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'verif')
        mon.register_callback(TOOL, mon.events.LINE, self.on_line)
        if not Monitor.hooked:
            Monitor.hooked = True
            sys.addaudithook(_audit)
        self.apsw_hook = self.new_connection
        apsw.connection_hooks.append(self.apsw_hook)
        env.extra_instruments.append(self)
        Monitor.active = self
        return self

    def __exit__(self, *a):
        import apsw

        from . import env

        Monitor.active = None
        self.lines(False)
        env.extra_instruments.remove(self)
        apsw.connection_hooks.remove(self.apsw_hook)

    def new_connection(self, conn):
        def trace(cursor, sql, bindings):
            if Monitor.active is self:
                m = _SQL.match(sql)
                self.event('-'.join(m.groups()).lower() if m else None)
            return True

        conn.setexectrace(trace) if hasattr(conn, 'setexectrace') else None
        if not hasattr(conn, 'setexectrace'):
            conn.exec_trace = trace


_EVENTS = frozenset((
    'open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.listdir',
    'os.scandir', 'shutil.rmtree', 'shutil.copyfile', 'os.link', 'os.symlink', 'os.chmod',
))  # fmt: skip


_SQL = re.compile(r'\s*(INSERT|UPDATE|DELETE)\s+(?:OR\s+\w+\s+)?(?:INTO\s+|FROM\s+)?(\w+)', re.I)

# kinds of events that points can refer to
KINDS = [
    'open-cache', 'rename-cache', 'remove-cache', 'open-be', 'rename-be', 'remove-be',
    'open-params', 'rename-params', 'insert-objects', 'update-objects', 'delete-objects',
    'insert-inode_blocks', 'delete-inode_blocks', 'insert-contents', 'update-contents',
    'delete-contents', 'delete-inodes', 'update-inodes', 'update-names', 'insert-names',
]  # fmt: skip


def _kind(name, args):
    verb = {'open': 'open', 'os.rename': 'rename', 'os.remove': 'remove'}.get(name)
    path = args[0] if args else None
    if verb is None or not isinstance(path, (str, bytes)):
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if verb == 'open' and not args[2] & (os.O_WRONLY | os.O_RDWR):
        return None
    if '-cache/' in path:
        return verb + '-cache'
    if '/be/' in path:
        return verb + '-be'
    if '.params' in path:
        return verb + '-params'
    return None


def _audit(name, args):
    m = Monitor.active
    if m is not None and not m.busy and name in _EVENTS:
        m.event(_kind(name, args))


def copytree(src, dst):
    '''Plain recursive copy; files may not disappear meanwhile (everything is one thread)'''
    os.mkdir(dst, 0o700)
    for e in sorted(os.listdir(src)):
        s = os.path.join(src, e)
        d = os.path.join(dst, e)
        if os.path.isdir(s):
            copytree(s, d)
        else:
            with open(s, 'rb') as fi, open(d, 'wb') as fo:
                fo.write(fi.read())


class Snapshots:
    '''Copies of backend and cache directory of a world'''

    def __init__(self, world):
        self.world = world
        self.dir = os.path.join(world.root, 'snap')
        os.mkdir(self.dir)

    def take(self, name):
        d = os.path.join(self.dir, str(name))
        os.mkdir(d)
        copytree(self.world.be, d + '/be')
        copytree(self.world.cachedir, d + '/cache')

    def restore(self, name, keep=False):
        d = os.path.join(self.dir, str(name))
        for sub, target in (('be', self.world.be), ('cache', self.world.cachedir)):
            shutil.rmtree(target)
            if keep:
                copytree(os.path.join(d, sub), target)
            else:
                os.rename(os.path.join(d, sub), target)
