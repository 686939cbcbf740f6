'''Shared vocabulary of the checks: violations, part definitions, per-case records.'''

import hashlib
import json
import os
import traceback

from . import boot


class Violation(Exception):
    '''The oracle of a property rejected what the code did.'''


class HarnessError(Exception):
    '''Something is wrong with the check itself (never reported as a violation).'''


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Info:
    '''What one executed case contributed to the coverage numbers'''

    def __init__(self):
        self.nontrivial = False
        self.labels = {}

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n


class Part:
    '''One generated check.

    strategy:  zero-argument callable returning a hypothesis strategy of JSON-able cases
    run:       run(case, info) - executes one case against the real code, raises Violation
    quick / thorough: number of generated cases PER SHARD
    '''

    def __init__(self, name, strategy, run, quick, thorough=None, cpu_limit=60, fixed=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.cpu_limit = cpu_limit
        # optional callable -> list of hand-written / enumerated cases, split over the shards
        self.fixed = fixed


class Property:
    def __init__(self, id, rule, parts, level='exploration', assumptions=(), shards=8):
        self.id = id
        self.rule = rule
        self.parts = parts
        self.level = level
        self.assumptions = list(assumptions)
        self.shards = shards


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def case_hash(part, case):
    return hashlib.blake2b((part + '\0' + canon(case)).encode(), digest_size=8).hexdigest()


def _flatten(exc):
    if isinstance(exc, BaseExceptionGroup):
        for e in exc.exceptions:
            yield from _flatten(e)
    else:
        yield exc


def find_violation(exc):
    '''Return the Violation buried in (groups / causes of) *exc*, or None'''
    seen = set()
    stack = list(_flatten(exc))
    while stack:
        e = stack.pop()
        if id(e) in seen:
            continue
        seen.add(id(e))
        if isinstance(e, Violation):
            return e
        for sub in (e.__cause__, e.__context__):
            if sub is not None:
                stack.extend(_flatten(sub))
    return None


def find_harness_error(exc):
    for e in _flatten(exc):
        if isinstance(e, HarnessError):
            return e
    return None


def from_s3ql(exc):
    '''Whether *exc* was raised inside the code under test.

    The innermost frame that belongs either to /repo/src or to /verif decides: an error
    raised by (or in a library called by) the code under test is a behaviour of that code,
    an error raised by the harness' own frames is a harness error.
    '''
    for e in _flatten(exc):
        tb = traceback.extract_tb(e.__traceback__)
        for fr in reversed(tb):
            fn = os.path.abspath(fr.filename)
            if fn.startswith(boot.VERIF + os.sep):
                break
            if fn.startswith(boot.SRC + os.sep) or fr.filename.startswith('src/s3ql'):
                return True
    return False


def short_tb(exc, limit=12):
    out = []
    for e in _flatten(exc):
        tb = traceback.extract_tb(e.__traceback__)
        frames = ['%s:%d:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb]
        out.append('%s: %s [%s]' % (type(e).__name__, e, ' < '.join(reversed(frames[-limit:]))))
    return '; '.join(out)
