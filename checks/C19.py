'''C19: backup expiry keeps what the age ranges require.'''

import datetime
import importlib.util
import os
import shutil
import sys
import types
from unittest import mock

from harness import boot, env
from harness.clitools import CTRL
from harness.core import Part, Property, check

STATE = '.expire_backups.dat'
STRAY = ['2020-01-01', '2020-01-01_00:00:00x', '2020-01-01_00:00:00\n', 'x2020-01-01_00:00:00', 'lost+found',
         '2020-01-01_00:00:0\u0663', '2020-01-01 00:00:00', '20200101_000000', 'file']  # fmt: skip
CYCLES = [[1, 3, 7, 14, 31], [1], [2], [1, 2], [1, 2, 3], [3, 7], [1, 2, 4, 8], [5], [1, 3], [2, 5, 6], [1, 1, 3],
          [0, 2], [4, 10], [1, 12]]  # fmt: skip


class VDatetime(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(env.vtime.now(), tz)

    today = now


_script = None


def script():
    '''The script, with a virtual clock'''
    global _script
    if _script is None:
        shim = types.ModuleType('datetime')
        shim.__dict__.update({k: v for k, v in datetime.__dict__.items() if not k.startswith('__')})
        shim.datetime = VDatetime
        path = os.path.join(boot.REPO, 'contrib', 'expire_backups.py')
        spec = importlib.util.spec_from_file_location('expire_backups', path)
        mod = importlib.util.module_from_spec(spec)
        import s3ql.remove  # noqa: F401
        import typer  # noqa: F401

        with mock.patch.dict(sys.modules, {'datetime': shim, 'expire_backups': mod}):
            spec.loader.exec_module(mod)
        _script = mod
    return _script


def strategy():
    from hypothesis import strategies as st

    cyc = st.one_of(st.sampled_from(CYCLES), st.lists(st.integers(0, 15), min_size=1, max_size=5).map(sorted))

    def t(name, *args):
        return st.tuples(st.just(name), *args).map(list)

    prop = st.sampled_from([None, None, 1, 1, 0.9, 0.1])
    op = st.one_of(
        t('cycle', st.integers(1, 12)), t('cycle', st.integers(1, 12)), t('cycle', st.integers(1, 40)),
        t('run', st.booleans(), prop), t('run', st.booleans(), prop), t('dry', prop), t('new', st.integers(1, 5)),
        t('odd', st.integers(-5, 9)), t('manual', st.integers(0, 9)), t('stray', st.integers(0, len(STRAY) - 1)),
        t('samefile', st.integers(0, 1)), t('lose', st.booleans()), t('damage', st.integers(0, 5)),
        t('fail', st.integers(1, 2)), t('cycles', cyc), t('wait', st.integers(0, 30)),
    )  # fmt: skip
    return st.fixed_dictionaries({
        'cycles': cyc, 'interval': st.sampled_from([3600, 86400, 604800, 1, 86399]),
        'delay': st.sampled_from([0, 1, 60, 0.5]), 'first': st.integers(1, 3), 'state': st.sampled_from([None, None, 'st']),
        'ops': st.lists(op, min_size=1, max_size=25),
    })  # fmt: skip


def spans(cycles):
    return [(lo, hi) for lo, hi in zip([0] + cycles[:-1], cycles) if hi > lo]


def greedy(state, cycles):
    '''Straightforward procedure: oldest discovered backup that can fill the range first'''
    sim, keep = {}, set()
    for step in range(max(cycles)):
        for x in sim:
            sim[x] += 1
        if step:
            sim[step] = 0
        for lo, hi in spans(cycles):
            if any(lo <= a < hi for a in sim.values()):
                continue
            for b, a in state.items():
                if lo <= a + step < hi:
                    sim[b] = a + step
                    keep.add(b)
                    break
    return keep


class World:
    def __init__(self, root, case, info):
        self.dir = root
        self.case = case
        self.info = info
        self.cycles = case['cycles']
        self.state = {}  # what the state file has to say: name -> age
        self.have_state = False
        self.made = []  # (name, regular)
        self.total = 0  # discovered since the last irregularity
        self.regular = True
        self.slot = 0
        self.stray = {}
        self.fail = 0
        self.trace = []
        self.statefile = case['state'] or STATE
        env.vtime.reset()
        # ages refer to local time
        self.t0 = int(env.vtime.now())
        with open(CTRL, 'w'):
            pass

    def name(self, t):
        return datetime.datetime.fromtimestamp(t).strftime('%Y-%m-%d_%H:%M:%S')

    def existing(self):
        return sorted(x for x in os.listdir('.') if x in self.names)

    @property
    def names(self):
        return {n for n, _ in self.made}

    def make(self, name, regular=True):
        if os.path.lexists(name):
            return
        os.mkdir(name)
        with open(name + '/data', 'w') as fh:
            fh.write(name)
        self.made.append((name, regular))
        if not regular:
            self.regular = False

    def listing(self):
        return {x: (open(x).read() if os.path.isfile(x) and not x.startswith('.') and x != self.statefile else
                    open(x, 'rb').read() if os.path.isfile(x) else None) for x in os.listdir('.')}  # fmt: skip

    # ---- running the script

    def call(self, *args, s3qlrm=False):
        import pyfuse3

        removed = []
        budget = [self.fail]

        def rmtree(path, *a, **kw):
            if budget[0]:
                budget[0] -= 1
                if not budget[0]:
                    raise OSError(5, 'Input/output error', str(path))
            removed.append(os.path.basename(str(path)))
            real(path, *a, **kw)

        def setxattr(path, name, value, namespace='user'):
            import ast

            check(name == 'rmtree' and os.path.samefile(path, CTRL), 'command %r for %r', name, path)
            ino, entry = ast.literal_eval(value.decode())
            check(ino == os.stat('.').st_ino, 'wrong directory')
            rmtree(os.fsdecode(entry))

        real = shutil.rmtree
        a = [] if self.statefile == STATE else ['--state', self.statefile]
        a += ['--use-s3qlrm'] if s3qlrm else []
        with mock.patch.object(shutil, 'rmtree', rmtree), mock.patch.object(pyfuse3, 'setxattr', setxattr), \
                mock.patch.object(pyfuse3, 'syncfs', lambda p: None), \
                mock.patch.object(pyfuse3, 'listdir', lambda p: [x for x in os.listdir(p) if x != CTRL]):  # fmt: skip
            res = env.run_cli(script().main, [*a, *args, '--', *map(str, self.cycles)], reraise=False)
        check(set(removed) <= self.names, 'removed %r', set(removed) - self.names)
        return res, removed

    def discover(self):
        '''State after adding new backups and dropping missing ones'''
        st = dict(self.state)
        have = self.existing()
        new = [x for x in have if x not in st]
        for x in new:
            for y in st:
                st[y] += 1
            st[x] = 0
        return {k: v for k, v in st.items() if k in have}, len(new)

    def run(self, s3qlrm=False, proportion=None, dry=False, reconstruct=False):
        before = self.listing()
        args = ['-n'] if dry else []
        if proportion is not None:
            args += ['-p', str(proportion)]
        if reconstruct:
            args.append('--reconstruct-state')
        lost = not os.path.exists(self.statefile)
        have = self.existing()
        if lost:
            self.state = {}
        st, new = self.discover()
        res, removed = self.call(*args, s3qlrm=s3qlrm)
        what = 'expire_backups %s (ages %s)' % (' '.join(map(str, args + self.cycles)), st)
        if lost and len(have) > 1 and not reconstruct:
            check(res.code not in (0, None) and type(res.exc).__name__ != 'RuntimeError',
                  '%s without state file exits with %r', what, res.code)  # fmt: skip
            check(self.listing() == before, '%s without state file changes something', what)
            self.info.label('refused')
            return 'refused'
        if lost and reconstruct and len(have) > 1:
            return self.rebuilt(res, have, before, dry)
        left = self.existing()
        gone = set(have) - set(left)
        share = 0.5 if proportion is None else proportion
        if self.fail and removed is not None and res.code and self.failed(res):
            check(res.code, 'failure goes unnoticed')
            self.fail = 0
            self.info.label('rm-failed')
            # what could not be removed is not forgotten
            check(gone == set(removed), 'gone %r, removed %r', gone, removed)
            return 'failed'
        if res.code:
            check(res.exc is None or type(res.exc).__name__ == 'QuietError', '%s fails with %r', what, res.exc)
            check(self.listing() == before, '%s exits with %r but has changed something', what, res.code)
            k = greedy(st, self.cycles)
            check(have and 1 - len(k) / len(have) > share, '%s refuses to remove backups', what)
            self.info.label('too-many')
            return 'refused'
        if dry:
            check(self.listing() == before, '%s changes something', what)
            self.info.label('dry')
            return
        self.judge(what, st, left, share)
        self.state = {k: v for k, v in st.items() if k in left}
        self.total += new
        self.have_state = True
        check(os.path.exists(self.statefile), 'no state file after %s', what)
        if gone:
            self.info.label('removed')
        if self.total is not None:
            ages = self.state
            for lo, hi in spans(self.cycles):
                if self.total > lo:
                    check(any(lo <= a < hi for a in ages.values()),
                          'no backup %d to %d cycles old after %d regular cycles: ages %s', lo, hi, self.total,
                          sorted(ages.values()))  # fmt: skip
        if gone:
            # nothing more to do
            res, removed = self.call(s3qlrm=s3qlrm)
            check(res.code == 0 and not removed, 'second run removes %r (%r)', removed, res.code)

    def failed(self, res):
        return isinstance(res.exc, OSError)

    def judge(self, what, st, left, share):
        '''Required backups have been kept and others not'''
        kept = {k: v for k, v in st.items() if k in left}
        check(len(st) - len(kept) <= share * len(st) + 1e-9, '%s removes %d of %d', what, len(st) - len(kept), len(st))
        for step in range(max(self.cycles)):
            for lo, hi in spans(self.cycles):
                if lo < step:
                    continue  # later backups take over
                if any(lo <= a + step < hi for a in st.values()):
                    check(any(lo <= a + step < hi for a in kept.values()),
                          '%s: kept %s, nothing fills %d to %d in %d cycles', what, sorted(kept.values()), lo, hi,
                          step)  # fmt: skip
        k = greedy(st, self.cycles)
        check(len(kept) <= len(k), '%s keeps %s, ages %s are enough', what, sorted(kept.values()),
              sorted(st[x] for x in k))  # fmt: skip
        check(all(v < max(self.cycles) for v in kept.values()), '%s keeps %s', what, sorted(kept.values()))

    def rebuilt(self, res, have, before, dry):
        '''After a run with --reconstruct-state and several backups'''
        self.info.label('rebuilt')
        self.total = 0
        true = {}
        slots = {n: i for i, (n, _) in enumerate(self.made)}
        last = max(slots.values())
        for n in have:
            true[n] = last - slots[n]
        exact = self.regular and min(
            slots[b] - slots[a] for a, b in zip(sorted(have), sorted(have)[1:])) == 1  # fmt: skip
        if dry:
            check(self.listing() == before, 'dry run with --reconstruct-state changes something')
            return
        if res.code:
            # too many to remove; the state has been saved
            check(res.exc is None or type(res.exc).__name__ == 'QuietError', 'reconstruction fails with %r', res.exc)
            check(self.existing() == have, 'backups were removed')
        if exact:
            self.info.label('rebuilt-exactly')
            left = self.existing()
            st = {n: true[n] for n in sorted(have)}
            if res.code == 0:
                self.judge('expire_backups --reconstruct-state (ages %s)' % st, st, left, 0.5)
            self.state = {n: true[n] for n in left}
        else:
            self.resync()
        self.have_state = True

    def resync(self):
        '''Learn the ages from the state file'''
        from s3ql.common import thaw_basic_mapping

        with open(self.statefile, 'rb') as fh:
            self.state = thaw_basic_mapping(fh.read())
        check(set(self.state) >= set(self.existing()), 'state file lacks backups')

    # ---- steps

    def regular_new(self):
        self.slot += 1
        t = self.t0 + self.slot * self.case['interval']
        env.vtime.reset(t + min(self.case['delay'], self.case['interval'] * 0.9))
        self.make(self.name(t))

    def op_cycle(self, n):
        for _ in range(n):
            self.regular_new()
            self.run(proportion=1)

    def op_run(self, s3qlrm, p):
        self.run(s3qlrm, p)

    def op_dry(self, p):
        self.run(proportion=p, dry=True)

    def op_new(self, n):
        for _ in range(n):
            self.regular_new()

    def op_odd(self, n):
        '''A backup at an unusual time (possibly older than others, or in the future)'''
        self.make(self.name(self.t0 + self.slot * self.case['interval'] + n * 7 + 1), False)

    def op_wait(self, n):
        env.vtime.advance(n * self.case['interval'])
        if n:
            self.regular = False

    def op_manual(self, i):
        have = self.existing()
        if have:
            shutil.rmtree(have[i % len(have)])
            self.total = -10**9
            self.info.label('manual')

    def op_stray(self, i):
        n = STRAY[i]
        if not os.path.lexists(n):
            if n == 'file':
                open(n, 'w').close()
            else:
                os.mkdir(n)
            self.stray[n] = True

    def op_samefile(self, how):
        n = ['2001-01-01_00:00:00', '2001-01-02_00:00:00'][how]
        if not os.path.lexists(n):
            if how:
                os.symlink('.', n)
            else:
                open(n, 'w').close()

    def op_lose(self, bare):
        if not os.path.exists(self.statefile):
            return
        os.unlink(self.statefile)
        self.total = -10**9
        self.info.label('lose')
        if bare:
            self.run()
            if len(self.existing()) < 2:
                return
        self.run(reconstruct=True, dry=bare)
        self.run(reconstruct=True)

    def op_damage(self, i):
        if not os.path.exists(self.statefile) or len(self.existing()) < 2:
            return
        with open(self.statefile, 'rb') as fh:
            raw = fh.read()
        bad = [b'', raw[:-1], raw[:len(raw) // 2], b'\0' * len(raw), b'{' + raw, b'garbage'][i]
        with open(self.statefile, 'wb') as fh:
            fh.write(bad)
        before = self.listing()
        res, removed = self.call()
        check(res.code != 0 and not removed and self.listing() == before,
              'run with damaged state file %r: exit code %r, removed %r', bad, res.code, removed)  # fmt: skip
        self.info.label('damaged')
        with open(self.statefile, 'wb') as fh:
            fh.write(raw)

    def op_fail(self, n):
        self.fail = n
        self.run(bool(n % 2), 1)
        self.fail = 0
        # what was not removed then is removed now
        self.run(proportion=1)

    def op_cycles(self, c):
        self.cycles = c
        self.total = -10**9


def run(case, info):
    with env.Scratch() as root:
        old = os.getcwd()
        os.chdir(root)
        try:
            w = World(root, case, info)
            if case['cycles'][-1] == 0:
                w.cycles = case['cycles'] + [1]
            w.regular_new()
            if w.run(proportion=1) is None:
                for _ in range(case['first'] - 1):
                    w.op_cycle(1)
            for op in case['ops']:
                if op[0] == 'cycles' and op[1][-1] == 0:
                    continue
                getattr(w, 'op_' + op[0])(*op[1:])
            for n in w.stray:
                check(os.path.lexists(n), '%r is gone', n)
            for n in w.existing():
                with open(n + '/data') as fh:
                    check(fh.read() == n, 'contents of a backup changed')
        finally:
            os.chdir(old)
    info.nontrivial = info.labels.get('removed', 0) >= 2


TECHNIQUE = 'stateful property-based testing: generated histories of backups and expiry runs against the documented rule'
NOTE = (
    'The script of contrib/ runs in-process with a virtual clock in a scratch directory; s3qlrm talks to a recorder '
    'that removes the named directory. After each run every range that can be filled now or later must '
    'still be fillable, no more is kept than a straightforward procedure needs, and with '
    'uninterrupted use every range always has a backup.'
)
PROPERTY = Property(
    'C19',
    'Up to 25 steps (cycles, runs, dry runs, manual removals, lost or damaged state, stray entries, failing removals). '
    'Non-trivial: at least two runs removed something.',
    [Part('history', strategy, run, quick=200, thorough=10000)],
)
