'''Hypothesis strategies for the op lists that fsdrive executes'''

from hypothesis import strategies as st

I8 = st.integers(0, 7)
I40 = st.integers(0, 47)
SEL = st.integers(0, 31)


def t(name, *args):
    return st.tuples(st.just(name), *args).map(list)


OPS = {
    'create': t('create', SEL, I8, I8, I8),
    'mkdir': t('mkdir', SEL, I8, I8, I8),
    'mknod': t('mknod', SEL, I8, I8, I8),
    'symlink': t('symlink', SEL, I8, I8),
    'link': t('link', SEL, SEL, I8),
    'unlink': t('unlink', SEL),
    'rmdir': t('rmdir', SEL),
    'badremove': t('badremove', SEL, I8, I8),
    'longname': t('longname', SEL, I8, I8),
    'rename': t('rename', SEL, SEL, I8),
    'open': t('open', SEL, I8),
    'release': t('release', I8),
    'write': t('write', SEL, I40, I8, st.integers(0, 9), I8),
    'read': t('read', SEL, I40, I8, st.integers(0, 9)),
    'truncate': t('truncate', SEL, I40, I8, I8),
    'setattr': t('setattr', SEL, st.integers(0, 15), I8),
    'setxattr': t('setxattr', SEL, I8, I8),
    'removexattr': t('removexattr', SEL, I8),
    'sync': t('sync'),
    'drop': t('drop'),
    'fsync': t('fsync', SEL, I8),
    'sleep': t('sleep', I8),
    'upmeta': t('upmeta'),
    'cachesize': t('cachesize', I8),
    'forget': t('forget', SEL),
    'forgetall': t('forgetall'),
    'lookup': t('lookup', SEL, I8),
    'walk': t('walk'),
    'dots': t('dots', SEL, I8),
    'renflags': t('renflags', SEL, SEL, I8),
    'copy': t('copy', SEL, SEL, I8),
    'lock': t('lock', SEL),
    'rmtree': t('rmtree', SEL),
    'remount': t('remount', I8),
}


def op_mix(weights):
    '''one op, drawn with the given weights {name: weight}'''
    bag = []
    for name in sorted(weights):
        bag.extend([name] * weights[name])
    # simplest choice first
    return st.sampled_from(bag).flatmap(lambda n: OPS[n])


def op_list(weights, lo, hi):
    op = op_mix(weights)
    return st.integers(lo, hi).flatmap(lambda n: st.lists(op, min_size=n, max_size=n))


def cfg(passphrase=True, **fixed):
    d = {
        'block_kib': st.sampled_from([1, 1, 1, 4]),
        'meta_kib': st.sampled_from([4, 4, 64]),
        'compress': st.sampled_from(['none', 'none', 'zlib-6', 'bzip2-1']),
        'cachesize': st.sampled_from([None, None, 0, 2, 5]),
        'max_entries': st.sampled_from([None, None, 1, 3, 8]),
        'icache': st.sampled_from([100, 10]),
        'sched': st.integers(0, 1000),
        'delays': st.lists(st.integers(0, 3), max_size=6),
        'pw': st.sampled_from([None, 'pässword'] if passphrase else [None]),
    }
    for k, v in fixed.items():
        d[k] = st.just(v) if not isinstance(v, st.SearchStrategy) else v
    return st.fixed_dictionaries(d)
