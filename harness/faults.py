'''Faults injected into the local storage backend'''

import contextlib
import functools


class TempFault(Exception):
    '''A fault that the backend classifies as temporary'''


class PermFault(Exception):
    '''A fault that is not retried'''


@contextlib.contextmanager
def patched(wrap, names=('write_fh', 'readinto_fh', 'delete'), temp=TempFault):
    '''Replace methods of the local backend: wrap(name, original) -> new coroutine function'''
    from s3ql.backends import local

    cls = local.AsyncBackend
    saved = {n: cls.__dict__[n] for n in names}
    saved['is_temp_failure'] = cls.__dict__['is_temp_failure']
    try:
        for n in names:
            setattr(cls, n, wrap(n, saved[n]))
        cls.is_temp_failure = lambda self, exc: isinstance(exc, temp)
        yield
    finally:
        for n, f in saved.items():
            setattr(cls, n, f)


@contextlib.contextmanager
def transient(plan, info=None):
    '''Requests fail temporarily as told by *plan* (cyclic; 0: no fault, 1: before, 2: after
    taking effect) and are retried the way the remote backends do it.'''
    if not plan or not any(plan):
        yield
        return
    from s3ql.backends.common import retry

    state = {'n': 0, 'row': 0}

    def pick():
        k = plan[state['n'] % len(plan)]
        state['n'] += 1
        if k:
            state['row'] += 1
            if state['row'] > 6:  # let it succeed eventually
                state['row'] = 0
                return 0
            if info is not None:
                info.label('fault')
        else:
            state['row'] = 0
        return k

    def wrap(name, orig):
        @functools.wraps(orig)
        async def once(self, *a, **kw):
            k = pick()
            if k == 1:
                raise TempFault('injected')
            res = await orig(self, *a, **kw)
            if k == 2:
                raise TempFault('injected')
            return res

        if name == 'write_fh':
            retried = retry(once)

            async def write_fh(self, key, fh, *a, **kw):
                # remote backends rewind the payload for every attempt
                return await retried(self, key, fh, *a, **kw)

            return write_fh
        if name == 'readinto_fh':
            async def attempt(self, key, ofh, off, *a, **kw):
                ofh.seek(off)
                ofh.truncate()
                return await once(self, key, ofh, *a, **kw)

            retried_read = retry(attempt)

            async def readinto_fh(self, key, ofh, *a, **kw):
                return await retried_read(self, key, ofh, ofh.tell(), *a, **kw)

            return readinto_fh
        return retry(once)

    with patched(wrap):
        yield
