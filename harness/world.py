'''A complete s3ql installation in a scratch directory: local backend, cache directory,
mountpoint and authinfo file, driven through the real command line entry points.'''

import contextlib
import os
import shutil

from .env import run_cli


class World:
    def __init__(
        self, root, passphrase=None, block_kib=1, meta_kib=4, compress='none', cachesize=None,
        max_entries=None, cachedir='cache', upload_delay=10,
    ):  # fmt: skip
        self.root = root
        self.be = os.path.join(root, 'be')
        self.mnt = os.path.join(root, 'mnt')
        self.authfile = os.path.join(root, 'authinfo2')
        self.passphrase = passphrase
        self.block_kib = block_kib
        self.meta_kib = meta_kib
        self.compress = compress
        self.cachesize = cachesize
        self.max_entries = max_entries
        self.upload_delay = upload_delay
        self.url = 'local://' + self.be
        for d in (self.be, self.mnt):
            os.mkdir(d)
        self.use_cachedir(cachedir)
        self.write_auth()

    def use_cachedir(self, name):
        self.cachedir = os.path.join(self.root, name)
        if not os.path.exists(self.cachedir):
            os.mkdir(self.cachedir, 0o700)

    def write_auth(self):
        with open(self.authfile, 'w') as fh:
            fh.write('[x]\nstorage-url: local://\ncompress: %s\n' % self.compress)
            if self.passphrase is not None:
                fh.write('fs-passphrase: %s\n' % self.passphrase)
        os.chmod(self.authfile, 0o600)

    def cachepath(self):
        from s3ql.common import escape

        return os.path.join(self.cachedir, escape('local://%s/' % self.be))

    def common(self):
        return ['--authfile', self.authfile, '--cachedir', self.cachedir]

    def mkfs(self, *extra, **kw):
        from s3ql import mkfs

        args = ['--data-block-size', str(self.block_kib),
                '--metadata-block-size', str(self.meta_kib)]  # fmt: skip
        stdin = ''
        if self.passphrase is None:
            args.append('--plain')
        else:
            stdin = self.passphrase + '\n'
        return run_cli(mkfs.main, self.common() + args + list(extra) + [self.url], stdin=stdin,
                       **kw)  # fmt: skip

    def mount(self, driver, *extra, **kw):
        from s3ql import mount

        args = ['--fg', '--log', 'none', '--compress', self.compress,
                '--metadata-backup-interval', '0',
                '--dirty-block-upload-delay', str(self.upload_delay), '--max-threads', '1']  # fmt: skip
        if self.cachesize is not None:
            args += ['--cachesize', str(self.cachesize)]
        if self.max_entries is not None:
            args += ['--max-cache-entries', str(self.max_entries)]
        return run_cli(mount.main, self.common() + args + list(extra) + [self.url, self.mnt],
                       driver=driver, **kw)  # fmt: skip

    def fsck(self, *extra, stdin='', **kw):
        from s3ql import fsck

        args = ['--log', 'none']
        if '--no-batch' not in extra:
            args.append('--batch')
        extra = [e for e in extra if e != '--no-batch']
        return run_cli(fsck.main, self.common() + args + list(extra) + [self.url], stdin=stdin, **kw)

    def adm(self, *args, stdin='', **kw):
        from s3ql import adm

        return run_cli(adm.main, list(args), stdin=stdin, **kw)

    def verify(self, *args, **kw):
        from s3ql import verify

        return run_cli(verify.main, self.common() + list(args) + [self.url], **kw)

    def drop_cachedir(self):
        shutil.rmtree(self.cachedir)
        os.mkdir(self.cachedir, 0o700)

    def after_death(self):
        '''The process that used the files is gone: nothing holds locks on them any more

        (connections of the simulated process may still be open in this one, so put copies
        in the place of the files)
        '''
        from .crash import copytree

        for d in (self.be, self.cachedir):
            copytree(d, d + '.copy')
            shutil.rmtree(d)
            os.rename(d + '.copy', d)


class NetWorld(World):
    '''A file system stored on one of the in-memory servers'''

    def __init__(self, root, srv, prefix='fs/', conns=2, **kw):
        self.srv, self.prefix, self.conns = srv, prefix, conns
        super().__init__(root, **kw)
        self.url = srv.url(prefix)
        self.write_auth()

    def write_auth(self):
        opts = ','.join(k if v is True else '%s=%s' % (k, v) for k, v in self.srv.options().items())
        with open(self.authfile, 'w') as fh:
            fh.write('[x]\nstorage-url: %s://\nmax-connections: %d\n' % (self.srv.name, self.conns))
            for k, v in (('backend-login', self.srv.login), ('backend-password', self.srv.password),
                         ('backend-options', opts), ('fs-passphrase', self.passphrase)):
                if v is not None:
                    fh.write('%s: %s\n' % (k, v.replace('%', '%%')))
        os.chmod(self.authfile, 0o600)

    def cachepath(self):
        from s3ql.common import escape

        return os.path.join(self.cachedir, escape(self.url))

    def after_death(self):
        from .crash import copytree

        copytree(self.cachedir, self.cachedir + '.copy')
        shutil.rmtree(self.cachedir)
        os.rename(self.cachedir + '.copy', self.cachedir)

    @contextlib.contextmanager
    def online(self):
        '''Every command run inside the context can reach the server'''
        from . import env
        from .core import Violation

        saved = {n: os.environ.pop(n, None) for n in ('http_proxy', 'https_proxy')}
        env.around.append(self.srv.net.running)
        try:
            yield
        except Violation:
            raise
        except Exception as exc:
            if self.srv.problems:
                raise Violation('the client violates the protocol: %s' % '; '.join(self.srv.problems[:3])) from exc
            raise
        finally:
            env.around.pop()
            for k, v in saved.items():
                if v is not None:
                    os.environ[k] = v
