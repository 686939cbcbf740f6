'''Running generated histories inside complete s3ql installations'''

import trio

from . import env
from .core import check
from .fsdrive import FsDriver, patch_icache, use_schedule
from .world import World


def make_world(root, cfg, cls=World, **kw):
    patch_icache(cfg.get('icache', 100))
    use_schedule(cfg)
    env.vtime.reset()
    reset_statfs()
    w = cls(
        root,
        passphrase=cfg.get('pw'),
        block_kib=cfg.get('block_kib', 1),
        meta_kib=cfg.get('meta_kib', 4),
        compress=cfg.get('compress', 'none'),
        cachesize=cfg.get('cachesize'),
        max_entries=cfg.get('max_entries'),
        **kw,
    )
    if cls is World:
        res = w.mkfs()
        check(res.code == 0, 'mkfs failed: %r %s', res.code, res.exc)
    return w


def reset_statfs():
    '''statfs() keeps results for 30 seconds in a default argument that outlives the instance'''
    try:
        from s3ql.fs import Operations

        for d in Operations.statfs.__defaults__ or ():
            if isinstance(d, list):
                d.clear()
    except AttributeError:
        pass


def run_history(world, drv, ops, between=None, mount_args=()):
    '''Run *ops* (split at remounts) and unmount cleanly in the end'''

    for seg, sep in drv.segments(ops):
        async def driver(fsops, seg=seg):
            await drv.start(fsops)
            for op in seg:
                await drv.step(op)
            await drv.walk()
            await drv.finish_session()
            return True

        args = list(mount_args)
        keep = sep is not None and sep[1] % 3 == 1
        if keep:
            args.append('--keep-cache')
        res = world.mount(driver, *args)
        check(res.code == 0 and res.driver, 'mount/unmount failed with exit code %r (%s)',
              res.code, res.exc)  # fmt: skip
        env.vtime.advance(100)
        if sep is not None:
            drv.label('remount')
            if sep[1] % 3 == 2:
                world.drop_cachedir()
                drv.label('remount-without-cache')
            elif keep:
                drv.label('remount-keep-cache')
        if between is not None:
            between(world, drv)


async def _walk(drv, fsops):
    await drv.start(fsops)
    await drv.walk()
    await drv.finish_session()
    return True


def final_walk(world, drv):
    '''Mount once more from the backend alone and compare everything'''
    world.drop_cachedir()
    res = world.mount(lambda fsops: _walk(drv, fsops))
    check(res.code == 0 and res.driver, 'final mount failed with exit code %r (%s)',
          res.code, res.exc)  # fmt: skip


__all__ = ['make_world', 'run_history', 'final_walk', 'FsDriver', 'trio']
