'''Process-wide test environment: virtual time, inline worker threads, deterministic trio
scheduling, stubbed pyfuse3 kernel interface, in-process execution of the command line tools.
'''

import atexit
import contextlib
import io
import logging
import os
import shutil
import signal
import sys
import threading
import time
import warnings

from .core import HarnessError, Violation, _flatten

_real_time = time.time
_real_time_ns = time.time_ns

EPOCH = 1_700_000_000


class VTime:
    '''Virtual wall clock; advances 1 us per reading plus whatever trio's virtual clock slept'''

    def __init__(self):
        self.reset()

    def reset(self, start=EPOCH):
        self.base_ns = int(start * 1e9)
        self.clock = None
        self.clock0 = 0.0

    def attach(self, clock):
        self.clock = clock
        self.clock0 = clock.current_time()

    def detach(self):
        if self.clock is not None:
            self.base_ns += int((self.clock.current_time() - self.clock0) * 1e9)
            self.clock = None

    def advance(self, secs):
        self.base_ns += int(secs * 1e9)

    def now_ns(self):
        self.base_ns += 1000
        x = self.base_ns
        if self.clock is not None:
            x += int((self.clock.current_time() - self.clock0) * 1e9)
        return x

    def now(self):
        return self.now_ns() / 1e9


vtime = VTime()

# ------------------------------------------------------------------- process initialisation

_initialized = False


class _LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.records = []

    def emit(self, record):
        if len(self.records) < 500:
            self.records.append(record)


log_capture = _LogCapture()


def init_process(virtual_time=True):
    global _initialized
    if _initialized:
        return
    _initialized = True
    root = logging.getLogger()
    root.addHandler(log_capture)
    root.setLevel(logging.WARNING)
    logging.raiseExceptions = False
    warnings.simplefilter('ignore')
    if virtual_time:
        time.time = vtime.now
        time.time_ns = vtime.now_ns
    import resource

    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    want = 4096 if hard == resource.RLIM_INFINITY else min(4096, hard)
    resource.setrlimit(resource.RLIMIT_NOFILE, (want, want))
    # runaway cases must not take the machine down
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)


# ------------------------------------------------------------------- deterministic trio


class Deadlock(Exception):
    pass


class Sched:
    '''Schedule control: seed for trio's batch shuffling and extra yields before/after every
    worker-thread job (list of small ints, consumed cyclically; 0 = run on)'''

    def __init__(self, seed=0, delays=()):
        self.seed = seed
        self.delays = list(delays)
        self.pos = 0

    def next_delay(self):
        if not self.delays:
            return 0
        d = self.delays[self.pos % len(self.delays)]
        self.pos += 1
        return d


_sched = Sched()
extra_instruments = []
around = []  # functions returning asynchronous context managers to enter in every run


def set_sched(sched):
    global _sched
    _sched = sched


async def inline_thread(sync_fn, *args, limiter=None, abandon_on_cancel=False, **kw):
    import trio

    d = _sched.next_delay()
    if d:
        await trio.sleep(d * 0.01)
    else:
        await trio.lowlevel.checkpoint()
    res = sync_fn(*args)
    d = _sched.next_delay()
    if d:
        with trio.CancelScope(shield=True):
            await trio.sleep(d * 0.01)
    return res


class _DeadlockDetector:
    '''With inline threads and a virtual clock nothing external can wake up the program: if
    the scheduler is about to wait forever, the program is deadlocked.'''

    def __init__(self):
        self.hit = False
        self.scope = None
        self.count = 0

    def before_io_wait(self, timeout):
        import trio

        if timeout > 1e6 and self.scope is not None:
            self.count += 1
            if self.count < 3:  # the wakeup pipe itself may need one round
                trio.lowlevel.current_trio_token().run_sync_soon(lambda: None)
                return
            self.hit = True
            self.scope.cancel()
            trio.lowlevel.current_trio_token().run_sync_soon(lambda: None)
        else:
            self.count = 0


def trio_run(async_fn, *args, virtual=True, inline=True, detect=True, **kw):
    '''trio.run() with deterministic scheduling, virtual clock and deadlock detection'''
    import trio
    import trio._core._run as tr
    import trio.testing

    tr._ALLOW_DETERMINISTIC_SCHEDULING = True
    tr._r.seed(_sched.seed)
    clock = None
    if virtual:
        clock = trio.testing.MockClock(autojump_threshold=0)
    det = _DeadlockDetector()
    saved_thread = trio.to_thread.run_sync
    if inline:
        trio.to_thread.run_sync = inline_thread

    async def outer():
        with trio.CancelScope() as scope:
            if detect and virtual and inline:
                det.scope = scope
            if not around:
                return await async_fn(*args)
            failure = None
            async with contextlib.AsyncExitStack() as stack:
                for fn in around:
                    await stack.enter_async_context(fn())
                try:
                    return await async_fn(*args)
                except (Exception, SystemExit) as exc:
                    failure = exc  # not to be put into groups by the nurseries in between
            raise failure
        # only reached if the scope was cancelled by the deadlock detector
        raise Deadlock('all tasks blocked forever')

    try:
        if clock is not None:
            vtime.attach(clock)
        return saved_trio_run(outer, clock=clock, instruments=([det] if detect else []) + extra_instruments)
    except BaseException as exc:
        if det.hit:
            raise Violation('deadlock: all tasks are blocked with nothing left to wake them '
                            '(%s)' % type(exc).__name__) from exc  # fmt: skip
        raise
    finally:
        trio.to_thread.run_sync = saved_thread
        vtime.detach()


import trio as _trio  # noqa: E402

saved_trio_run = _trio.run

# ------------------------------------------------------------------- pyfuse3 stub


class FuseStub:
    '''Replaces the kernel side of pyfuse3 while a mount command runs in-process'''

    def __init__(self, driver):
        self.driver = driver
        self.ops = None
        self.invalidated = []
        self.closed = None
        self.closed_at = None
        self.mounted = False
        self.result = None

    def install(self):
        import pyfuse3

        self.saved = {}
        for n in ('init', 'main', 'close', 'terminate', 'invalidate_inode',
                  'invalidate_entry_async', 'readdir_reply', 'invalidate_entry'):  # fmt: skip
            self.saved[n] = getattr(pyfuse3, n)
        pyfuse3.init = self.init
        pyfuse3.main = self.main
        pyfuse3.close = self.close
        pyfuse3.terminate = self.terminate
        pyfuse3.invalidate_inode = lambda *a, **k: self.invalidated.append(('inode', a))
        pyfuse3.invalidate_entry = lambda *a, **k: self.invalidated.append(('entry', a))
        pyfuse3.invalidate_entry_async = lambda *a, **k: self.invalidated.append(('entry', a, k))
        pyfuse3.readdir_reply = lambda token, *a: token(*a)

    def uninstall(self):
        import pyfuse3

        for n, v in self.saved.items():
            setattr(pyfuse3, n, v)

    def init(self, ops, mountpoint, options=None):
        self.ops = ops
        self.options = options

    async def main(self, *a, **kw):
        import pyfuse3
        import trio

        self.mounted = True
        self.ops.init()
        pyfuse3.trio_token = trio.lowlevel.current_trio_token()
        try:
            self.result = await self.driver(self.ops)
        finally:
            pyfuse3.trio_token = None

    def close(self, unmount=True):
        self.closed = unmount
        self.closed_at = vtime.now()

    def terminate(self):
        pass


# ------------------------------------------------------------------- command line tools


class CliResult:
    def __init__(self):
        self.code = None
        self.exc = None
        self.stdout = ''
        self.driver = None
        self.logs = []

    def __repr__(self):
        return 'CliResult(code=%r, exc=%r)' % (self.code, self.exc)


def run_cli(main, args, stdin='', driver=None, reraise=True, crash=()):
    '''Run the main() of one of the command line tools as if it were a fresh process.

    Returns a CliResult with the exit code the process would have had. An exception that
    would have ended the process with a traceback is re-raised (or, if *reraise* is false,
    stored with exit code 1).
    '''
    import trio

    from s3ql import sqlite3ext
    from s3ql.logging import QuietError

    res = CliResult()
    sqlite3ext.reset()
    sqlite3ext.set_writes_inhibited(False)
    saved = (
        threading.Thread.__init__,
        sys.excepthook,
        sys.stdin,
        sys.stdout,
        getattr(warnings, '_showwarnmsg', None),
        trio.run,
        os.environ.get('SQLITE_TMPDIR'),
        logging.getLogger().level,
    )
    is_main = threading.current_thread() is threading.main_thread()
    sigs = {}
    if is_main:
        for s in (signal.SIGTERM, signal.SIGINT):
            sigs[s] = signal.getsignal(s)
    stub = FuseStub(driver) if driver else None
    limit = sys.getrecursionlimit()
    depth = 0
    frame = sys._getframe()
    while frame is not None:
        depth += 1
        frame = frame.f_back
    sys.setrecursionlimit(1000 + depth)  # what a fresh process has
    sys.stdin = io.StringIO(stdin)
    sys.stdout = io.StringIO()
    sys.excepthook = sys.__excepthook__
    trio.run = trio_run
    log_capture.records.clear()
    if stub:
        stub.install()
    at_exit = []
    register = atexit.register
    atexit.register = lambda fn, *a, **kw: at_exit.append((fn, a, kw))
    try:
        try:
            main(args)
            res.code = 0
        except SystemExit as exc:
            res.code = exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
        except QuietError as exc:
            # only the hook of setup_logging() turns the exception into an exit status
            res.code = exc.exitcode if sys.excepthook is not sys.__excepthook__ else 1
            res.exc = exc
        except crash as exc:
            res.code = -9
            res.exc = exc
        except BaseException as exc:
            if crash and any(isinstance(e, crash) for e in _flatten(exc)):
                res.code = -9
                res.exc = exc
            elif reraise or any(
                isinstance(e, (Violation, HarnessError, KeyboardInterrupt)) or type(e).__name__ == 'CpuLimit'
                for e in _flatten(exc)
            ):
                raise
            else:
                res.code = 1
                res.exc = exc
    finally:
        atexit.register = register
        for fn, a, kw in reversed(at_exit):
            fn(*a, **kw)
        sys.setrecursionlimit(limit)
        res.stdout = sys.stdout.getvalue()
        res.logs = list(log_capture.records)
        if stub:
            stub.uninstall()
            res.driver = stub.result
            res.mounted = stub.mounted
            res.closed = stub.closed
            res.closed_at = stub.closed_at
        threading.Thread.__init__ = saved[0]
        sys.excepthook = saved[1]
        sys.stdin = saved[2]
        sys.stdout = saved[3]
        if saved[4] is not None:
            warnings._showwarnmsg = saved[4]
        trio.run = saved[5]
        if saved[6] is None:
            os.environ.pop('SQLITE_TMPDIR', None)
        else:
            os.environ['SQLITE_TMPDIR'] = saved[6]
        logging.getLogger().setLevel(saved[7])
        for s, h in sigs.items():
            signal.signal(s, h)
    if res.code == 0:
        for r in res.logs:
            # objects destroyed with unsaved changes and the like ("BUG ALERT")
            if r.exc_info and r.exc_info[1] is not None and (
                'Uncaught top-level' in str(r.msg) or 'destroy' in str(r.exc_info[1])
            ):
                raise Violation('%s: %s' % (type(r.exc_info[1]).__name__, r.exc_info[1]))
    return res


# ------------------------------------------------------------------- scratch directories

_counter = 0


class Scratch:
    def __init__(self):
        global _counter
        _counter += 1
        root = os.environ.get('VERIF_SCRATCH')
        if not root:
            raise HarnessError('VERIF_SCRATCH is not set')
        self.path = os.path.join(root, 'c')
        shutil.rmtree(self.path, ignore_errors=True)
        os.mkdir(self.path)

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)
