'''Runs the check of one property: python run.py <ID> [quick|thorough]

Parent process: decides whether the native extensions must be rebuilt, starts one worker
process per shard, merges their counts, writes evidence/<ID>.json, prints the verdict.
Worker: replays the saved corpus (shard 0), then drives every part of the property with
Hypothesis from a seed derived from VERIF_SEED and the shard number.
'''

import argparse
import atexit
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import zlib

from . import boot, core
from .core import HarnessError, Info, Violation

TIER_DEADLINE = {'quick': 420, 'thorough': 6 * 3600}
SHRINK_TIME = {'quick': 30, 'thorough': 300}


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > 2 * 1024**3:
                return d
    return tempfile.gettempdir()


def derive_seed(seed, shard, part):
    return zlib.crc32(('%d/%d/%s' % (seed, shard, part)).encode())


# ------------------------------------------------------------------ executing one case


class CpuLimit(BaseException):
    pass


def execute(part, case, info):
    '''Run one case; raises Violation or HarnessError, nothing else'''

    def on_cpu(signum, frame):
        raise CpuLimit()

    cpu_start = time.process_time()

    def on_wall(signum, frame):
        if time.process_time() - cpu_start > part.cpu_limit:
            raise CpuLimit()
        raise HarnessError('case blocked for 300 s of wall time')

    old = signal.signal(signal.SIGVTALRM, on_cpu)
    old_wall = signal.signal(signal.SIGALRM, on_wall)
    # repeated: the code under test may swallow the exception and carry on
    signal.setitimer(signal.ITIMER_VIRTUAL, part.cpu_limit, 10)
    signal.setitimer(signal.ITIMER_REAL, 300)
    try:
        try:
            part.run(case, info)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGVTALRM, old)
            signal.signal(signal.SIGALRM, old_wall)
    except KeyboardInterrupt:
        raise
    except BaseException as exc:
        if any(isinstance(e, CpuLimit) for e in core._flatten(exc)) or isinstance(exc, CpuLimit):
            raise Violation('no progress after %d s of CPU time: %s'
                            % (part.cpu_limit, core.short_tb(exc, 6))) from None  # fmt: skip
        he = core.find_harness_error(exc)
        if he is not None:
            raise he
        v = core.find_violation(exc)
        if v is not None:
            raise Violation(str(v)) from None
        if core.from_s3ql(exc):
            raise Violation('unexpected exception from the code under test: '
                            + core.short_tb(exc)) from exc  # fmt: skip
        raise


# ------------------------------------------------------------------------------ worker


class Stop(Exception):
    pass


class Worker:
    def __init__(self, args):
        self.args = args
        self.out = args.out
        self.stats = {
            'evaluations': 0, 'labels': {}, 'samples': [], 'violation': None, 'error': None,
            'skipped': 0, 'done': False, 'parts': {},
        }  # fmt: skip
        self.hashes = set()
        self.last_dump = 0
        self.start = time.monotonic()
        self.deadline = self.start + float(
            os.environ.get('VERIF_DEADLINE', TIER_DEADLINE[args.tier]))  # fmt: skip

    def dump(self, force=False):
        now = time.monotonic()
        if not force and now - self.last_dump < 2:
            return
        self.last_dump = now
        st = dict(self.stats)
        st['hashes'] = sorted(self.hashes)
        tmp = self.out + '.tmp'
        with open(tmp, 'w') as fh:
            json.dump(st, fh)
        os.rename(tmp, self.out)

    def account(self, part, case, info):
        self.stats['evaluations'] += 1
        pc = self.stats['parts'].setdefault(part.name, [0, 0])
        pc[0] += 1
        for k, v in info.labels.items():
            k = part.name + ':' + k
            self.stats['labels'][k] = self.stats['labels'].get(k, 0) + v
        if info.nontrivial:
            h = core.case_hash(part.name, case)
            if h not in self.hashes:
                self.hashes.add(h)
                pc[1] += 1
                n = pc[1]
                if n in (3, 11) and len(core.canon(case)) < 6000:
                    self.stats['samples'].append({'part': part.name, 'case': case})

    def run(self, prop):
        # 1. saved regression inputs
        corpus = sorted(glob.glob(os.path.join(boot.VERIF, 'corpus', prop.id, '*.json')))
        parts = {p.name: p for p in prop.parts}
        todo = []
        for f in corpus:
            with open(f) as fh:
                d = json.load(fh)
            todo.append((parts[d['part']], d['case']))
        for p in prop.parts:
            if p.fixed:
                todo.extend((p, c) for c in p.fixed())
        for i, (part, case) in enumerate(todo):
            if i % prop.shards == self.args.shard:
                self.run_one(part, case)
        # 2. generated cases
        for part in prop.parts:
            if self.args.part and part.name not in self.args.part.split(','):
                continue
            n = part.quick if self.args.tier == 'quick' else part.thorough
            n = int(n * float(os.environ.get('VERIF_SCALE', '1')))
            if n:
                self.run_part(part, n)

    def run_one(self, part, case):
        info = Info()
        try:
            execute(part, case, info)
        except Violation as exc:
            self.violation(part, case, str(exc))
            raise Stop()
        finally:
            self.account(part, case, info)
            self.dump()

    def violation(self, part, case, msg):
        self.stats['violation'] = {'part': part.name, 'case': case, 'message': msg}

    def run_part(self, part, n):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        fails = {}
        state = {'first': None}

        @hypothesis.seed(derive_seed(self.args.seed, self.args.shard, part.name))
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
        )
        @given(part.strategy())
        def test(case):
            now = time.monotonic()
            if state['first'] is None and now > self.deadline:
                self.stats['skipped'] += 1
                return
            key = core.canon(case)
            if key in fails:
                raise Violation(fails[key])
            if state['first'] is not None and now - state['first'] > SHRINK_TIME[self.args.tier]:
                return  # stop shrinking
            info = Info()
            try:
                execute(part, json.loads(key), info)
            except Violation as exc:
                if state['first'] is None:
                    state['first'] = now
                fails[key] = str(exc)
                raise
            finally:
                if state['first'] is None:
                    self.account(part, case, info)
                    self.dump()

        try:
            test()
        except HarnessError:
            raise
        except BaseException:
            if not fails:
                raise
        if fails:
            key = min(fails, key=lambda k: (len(k), k))
            case, msg = self.ddmin(part, json.loads(key), fails[key])
            self.violation(part, case, msg)
            raise Stop()

    def ddmin(self, part, case, msg):
        '''Drop elements of case['ops'] while the case keeps failing'''
        if not isinstance(case, dict) or not isinstance(case.get('ops'), list):
            return case, msg
        self.violation(part, case, msg)
        end = time.monotonic() + SHRINK_TIME[self.args.tier]
        n = max(1, len(case['ops']) // 2)
        while n >= 1 and time.monotonic() < end:
            i = 0
            while i < len(case['ops']) and time.monotonic() < end:
                cand = dict(case, ops=case['ops'][:i] + case['ops'][i + n :])
                try:
                    execute(part, json.loads(core.canon(cand)), Info())
                    i += n
                except Violation as exc:
                    case, msg = cand, str(exc)
            n //= 2
        return case, msg


def worker_main(args):
    boot.setup(args.ext)
    from . import env

    env.init_process()
    prop = importlib.import_module('checks.' + args.id).PROPERTY
    w = Worker(args)
    try:
        w.run(prop)
        w.stats['done'] = True
    except Stop:
        pass
    except BaseException as exc:
        import traceback

        w.stats['error'] = ''.join(traceback.format_exception(exc))[-6000:]
    w.dump(force=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def replay_main(args):
    if not os.environ.get('VERIF_SCRATCH'):
        tmp = tempfile.mkdtemp(prefix='verif-replay-', dir=scratch_root())
        os.environ['VERIF_SCRATCH'] = tmp
        atexit.register(shutil.rmtree, tmp, True)
    boot.setup(args.ext)
    from . import env

    env.init_process()
    with open(args.replay) as fh:
        d = json.load(fh)
    prop = importlib.import_module('checks.' + args.id).PROPERTY
    part = [p for p in prop.parts if p.name == d['part']][0]
    try:
        execute(part, d['case'], Info())
    except Violation as exc:
        print('REPLAY-VIOLATION', str(exc), flush=True)
        atexit._run_exitfuncs()
        os._exit(1)
    except BaseException:
        import traceback

        traceback.print_exc()
        atexit._run_exitfuncs()
        os._exit(2)
    print('REPLAY-OK', flush=True)
    atexit._run_exitfuncs()
    os._exit(0)


# ------------------------------------------------------------------------------ parent


def child_env():
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('PYTHONPATH', None)
    env['LANG'] = env['LC_ALL'] = 'C.UTF-8'
    env['TZ'] = 'UTC'
    return env


def parent_main(args):
    t0 = time.monotonic()
    boot.setup(None)
    prop_meta = load_meta(args.id)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % args.id, dir=scratch_root())
    procs = []
    try:
        ext = None
        stale = boot.stale_extensions()
        if stale:
            ext = os.path.join(tmp, 'ext')
            boot.build_extensions(stale, ext)
        shards = prop_meta.shards
        outs = []
        env = child_env()
        for i in range(shards):
            wd = os.path.join(tmp, 'w%d' % i)
            os.mkdir(wd)
            outs.append(os.path.join(wd, 'stats.json'))
            e = dict(env, TMPDIR=wd, VERIF_SCRATCH=wd, HOME=wd)
            cmd = [sys.executable, os.path.join(boot.VERIF, 'run.py'), args.id, args.tier,
                   '--shard', str(i), '--seed', str(args.seed), '--out', outs[-1]]  # fmt: skip
            if ext:
                cmd += ['--ext', ext]
            if args.part:
                cmd += ['--part', args.part]
            log = open(os.path.join(wd, 'log'), 'w')
            procs.append(
                (subprocess.Popen(cmd, env=e, cwd=wd, stdout=log, stderr=log,
                                  stdin=subprocess.DEVNULL, start_new_session=True), wd)
            )  # fmt: skip
        hard = time.monotonic() + TIER_DEADLINE[args.tier] * 1.5 + 60
        grace = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.1)
            if grace is None:
                for o in outs:
                    st = load(o)
                    if st and (st['violation'] or st['error']):
                        grace = time.monotonic() + 5
            if (grace is not None and time.monotonic() > grace) or time.monotonic() > hard:
                for p, _ in procs:
                    if p.poll() is None:
                        kill(p)
                break
        stats = []
        errors = []
        for (p, wd), o in zip(procs, outs):
            p.wait()
            st = load(o)
            if st is None or (st['error'] is None and st['violation'] is None
                              and not st['done'] and grace is None):  # fmt: skip
                with open(os.path.join(wd, 'log'), errors='replace') as fh:
                    errors.append('worker ended with %s\n%s' % (p.returncode, fh.read()[-4000:]))
            if st is not None:
                stats.append(st)
                if st['error']:
                    errors.append(st['error'])
        return finish(args, prop_meta, stats, errors, ext, tmp, t0)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                kill(p)
        if os.environ.get('VERIF_KEEP'):
            print('kept', tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def load(path):
    try:
        with open(path) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None


def load_meta(id):
    return importlib.import_module('checks.' + id).PROPERTY


def finish(args, prop, stats, errors, ext, tmp, t0):
    viols = sorted(
        (s['violation'] for s in stats if s['violation']),
        key=lambda v: (len(core.canon(v['case'])), core.canon(v['case'])),
    )
    known = load_known(args.id)
    code = 0
    confirmed = None
    flaky = []
    for v in viols:
        path = write_replay(args, v)
        n = 0
        for _ in range(5):
            wd = tempfile.mkdtemp(dir=tmp)
            cmd = [sys.executable, os.path.join(boot.VERIF, 'run.py'), args.id, args.tier,
                   '--replay', path]  # fmt: skip
            if ext:
                cmd += ['--ext', ext]
            r = subprocess.run(cmd, env=dict(child_env(), TMPDIR=wd, VERIF_SCRATCH=wd, HOME=wd),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=wd)  # fmt: skip
            if r.returncode == 1 and b'REPLAY-VIOLATION' in r.stdout:
                n += 1
                break
        if n:
            confirmed = (v, path)
            break
        flaky.append((v, path))
    if confirmed:
        v, path = confirmed
        print('property %s, part %s: %s' % (args.id, v['part'], v['message']))
        print('case: %s' % core.canon(v['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (args.id, path))
        code = 1
    elif flaky:
        for v, path in flaky:
            print('unreproducible failure (harness error): %s' % v['message'], file=sys.stderr)
        code = 3
    for e in errors:
        print('--- harness error\n' + e, file=sys.stderr)
    if errors and code == 0:
        code = 2
    if code == 0:
        for k in known:
            print('KNOWN-FINDING: property=%s %s' % (args.id, k))

    hashes = set()
    labels = {}
    parts = {}
    samples = []
    for s in stats:
        hashes.update(s['hashes'])
        for k, n in s['labels'].items():
            labels[k] = labels.get(k, 0) + n
        for k, n in s['parts'].items():
            parts[k] = parts.get(k, 0) + n[0]
        samples.extend(s['samples'])
    seen = {}
    picked = []
    for s in samples:
        if seen.get(s['part'], 0) < 2:
            seen[s['part']] = seen.get(s['part'], 0) + 1
            picked.append(s)
    ev = {
        'property': args.id,
        'tier': args.tier,
        'seed': args.seed,
        'level': prop.level,
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in stats),
            'distinct_nontrivial': len(hashes),
            'rule': prop.rule,
            'samples': picked[:8],
            'cases_per_part': parts,
            'labels': dict(sorted(labels.items())),
            'not_run_for_time': sum(s['skipped'] for s in stats),
        },
        'assumptions': prop.assumptions,
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(viols),
    }
    evdir = os.environ.get('VERIF_EVIDENCE') or os.path.join(boot.VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, args.id + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1f s, exit %d'
          % (args.id, args.tier, args.seed, ev['coverage']['evaluations'], len(hashes),
             ev['coverage']['not_run_for_time'], ev['wall_s'], code))  # fmt: skip
    return code


def write_replay(args, v):
    d = os.path.join(boot.VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (args.id, core.case_hash(v['part'], v['case'])))
    with open(path, 'w') as fh:
        json.dump({'property': args.id, 'part': v['part'], 'message': v['message'],
                   'case': v['case']}, fh, indent=1)  # fmt: skip
    return path


def load_known(id):
    res = []
    try:
        with open(os.path.join(boot.VERIF, 'known_findings.txt')) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('known: property=%s ' % id):
                    res.append(line.split(' ', 2)[2])
    except OSError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('tier', nargs='?', choices=['quick', 'thorough'],
                    default=os.environ.get('VERIF_TIER') or 'quick')  # fmt: skip
    ap.add_argument('--shard', type=int)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--out')
    ap.add_argument('--ext')
    ap.add_argument('--part')
    ap.add_argument('--replay')
    args = ap.parse_args()
    if args.selftest:
        boot.setup(None)
        import hypothesis  # noqa: F401

        print('ok')
        sys.exit(0)
    if not args.id:
        ap.error('no property given')
    if args.replay:
        replay_main(args)
    elif args.shard is not None:
        worker_main(args)
    else:
        sys.exit(parent_main(args))
