'''C22: passphrase changes and key recovery never lose access to data.'''

import os
import re

from harness import env, faults, inspect, servers
from harness.core import Part, Property, check
from harness.session import FsDriver, make_world
from harness.world import NetWorld, World

KEYS = ('s3ql_passphrase', 's3ql_passphrase_bak1', 's3ql_passphrase_bak2', 's3ql_passphrase_bak3')
WEIGHTS = {'create': 4, 'mkdir': 1, 'write': 8, 'unlink': 1, 'read': 2, 'truncate': 1, 'symlink': 1, 'setxattr': 1}


def strategy():
    from hypothesis import strategies as st

    from harness import fsops

    char = st.one_of(
        st.sampled_from('abcXYZ019 %:;#=\'"\\\t'), st.sampled_from('äöüéßœ'), st.sampled_from('e\u0301\u00e9\u212b\U0001f600'),
        st.characters(exclude_categories=('Cs',), exclude_characters='\r\n\0'),
    )  # fmt: skip
    blank = st.text(st.sampled_from(' \t\u00a0\u2003'), min_size=1, max_size=2)
    pw = st.one_of(st.text(char, min_size=1, max_size=12), st.text(char, max_size=200), st.just(''),
                   st.tuples(blank, st.text(char, min_size=1, max_size=6)).map(''.join))  # fmt: skip
    old = st.sampled_from(['right', 'right', 'right', 'right', 'wrong'])
    crash = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 4), st.booleans()).map(list))
    i = st.integers(0, 30)
    change = st.tuples(st.just('change'), old, i, st.booleans(), crash).map(list)
    recover = st.tuples(st.just('recover'), st.sampled_from(['right', 'right', 'right', 'malformed', 'other']), i, i, crash).map(list)  # fmt: skip
    damage = st.tuples(st.just('damage'), st.integers(1, 15), i, i).map(list)
    probe = st.just(['probe'])
    write = st.tuples(st.just('write'), fsops.op_list(WEIGHTS, 0, 6)).map(list)
    fsck = st.just(['fsck'])
    return st.fixed_dictionaries({
        'cfg': fsops.cfg(passphrase=False, block_kib=1, cachesize=None, max_entries=None),
        'pws': st.lists(pw, min_size=2, max_size=4), 'first': st.lists(st.tuples(i, st.integers(0, 7), st.booleans()).map(list),
                                                                       max_size=2),
        'ops': st.lists(st.one_of(change, change, change, recover, damage, probe, write, write, fsck), min_size=1, max_size=8),
        'net': st.sampled_from([None, None, None, *sorted(servers.KINDS)]), 'seed': st.integers(0, 99), 'auth': st.booleans(),
        'faults': st.lists(st.tuples(st.integers(0, 20), st.sampled_from(servers.FAULTS), st.integers(0, 999)).map(list),
                           max_size=3),
    })  # fmt: skip


def variants(pws):
    '''Passphrases that resemble those of the pool'''
    import unicodedata

    out = []
    for p in pws:
        out += [p[:-1], p + 'x', p.swapcase(), p[::-1], ' ' + p, p + '\u0301', unicodedata.normalize('NFD', p),
                unicodedata.normalize('NFC', p), unicodedata.normalize('NFKC', p), p.lstrip(), p * 2,
                p.encode('utf-8').decode('latin1').replace('\x85', '?')]  # fmt: skip
    return out


class Story:
    def __init__(self, root, case, info):
        self.case, self.info = case, info
        cfg = case['cfg']
        self.net = case['net'] is not None
        if self.net:
            srv = servers.KINDS[case['net']]({
                'seed': case['seed'], 'page': 1000, 'tls': True, 'bulk': 0, 'lifetime': 10**6, 'noinfo': False,
                'meta_max': 256, 'v3': 1})  # fmt: skip
            self.srv = srv
            self.w = make_world(root, cfg, cls=NetWorld, srv=srv)
        else:
            self.w = make_world(root, cfg, cls=LocalWorld)
        self.pws = []
        for p in case['pws']:
            p = p.rstrip()
            if p not in self.pws:
                self.pws.append(p)
        self.drv = FsDriver(self.w, cfg, info)
        self.current = None
        self.broken = False  # the object with the key is gone
        self.good = None
        self.wrong_key = False
        self.key = None

    # -- the stored objects

    def objects(self):
        if self.net:
            pre = self.w.prefix
            return {k[len(pre):]: o.data for k, o in self.srv.objects.items()}
        out = {}
        for k, p in inspect.local_keys(self.w.be).items():
            with open(p, 'rb') as fh:
                out[k] = fh.read()
        return out

    def mangle(self, key, how, arg):
        '''Returns whether the object was changed'''
        if key not in self.objects():
            return False
        if self.net:
            o = self.srv.objects[self.w.prefix + key]
            if how % 2 or not o.data:
                del self.srv.objects[self.w.prefix + key]
            else:
                i = arg % len(o.data)
                o.data = o.data[:i] + bytes([o.data[i] ^ 1]) + o.data[i + 1:]
                import hashlib

                o.md5 = hashlib.md5(o.data).hexdigest()
            return True
        p = inspect.local_keys(self.w.be)[key]
        with open(p, 'rb') as fh:
            buf = fh.read()
        match how % 4:
            case 0:
                os.unlink(p)
                return True
            case 1:
                new = buf[: len(buf) * arg // 31]
            case 2:
                i = len(buf) * arg // 31
                new = buf[:i] + bytes([buf[i] ^ (1 << arg % 8)]) + buf[i + 1:]
            case 3:
                new = b'\0' * len(buf)
        with open(p, 'wb') as fh:
            fh.write(new)
        return True

    # -- commands

    def cli(self, main, *args, pw=None, stdin=(), **kw):
        '''Run a command that needs passphrase *pw*'''
        lines = list(stdin)
        self.w.passphrase = None
        via = pw is not None and self.case['auth'] and pw == pw.strip() and pw != '' and pw.isprintable()
        if via:
            self.w.passphrase = pw if self.net else pw.replace('%', '%%')
        elif pw is not None:
            lines.insert(0, pw)
        self.w.write_auth()
        return env.run_cli(main, self.w.common() + list(args), stdin=''.join(x + '\n' for x in lines), reraise=False, **kw)

    def interrupted(self, crash, run):
        '''The process dies around one of its uploads; returns (result, has died)'''
        if crash is None or self.net:
            return run(), False
        state = {'n': 0, 'hit': False}

        def wrap(name, orig):
            async def f(backend, *a, **kw):
                if state['hit']:
                    raise faults.PermFault('dead')
                state['n'] += 1
                last = state['n'] == crash[0] + 1
                if last and not crash[1]:
                    state['hit'] = True
                    raise faults.PermFault('dead')
                res = await orig(backend, *a, **kw)
                if last:
                    state['hit'] = True
                    raise faults.PermFault('dead')
                return res

            return f

        with faults.patched(wrap, ('write_fh',)):
            res = run()
        if state['hit']:
            check(res.code != 0, 'success is reported although an upload failed')
            self.w.after_death()
            self.info.label('interrupted')
        return res, state['hit']

    def mkfs(self, plain, pw, crash=None):
        from s3ql import mkfs

        args = ['--data-block-size', '1', '--metadata-block-size', '4']
        lines = []
        if plain:
            args.append('--plain')
        else:
            lines = [pw]

        def run():
            self.w.passphrase = None
            self.w.write_auth()
            return env.run_cli(mkfs.main, [*self.w.common(), *args, self.w.url], reraise=False,
                               stdin=''.join(x + '\n' for x in lines))  # fmt: skip

        res, died = self.interrupted(crash, run)
        if not died:
            check(res.code == 0, 'mkfs fails with %r (%s)', res.code, res.exc)
        return res, died

    def opens(self, pw):
        '''Whether the file system can be accessed with a passphrase'''
        from s3ql import fsck

        res = self.cli(fsck.main, '--log', 'none', '--batch', self.w.url, pw=pw)
        if res.code != 0:
            self.w.after_death()
        return res

    def adm(self, *args, **kw):
        from s3ql import adm

        return self.cli(adm.main, *args, **kw)

    def start(self):
        case = self.case
        for i, k, after in case['first']:
            if self.net:
                break
            plain = i % 2
            _, died = self.mkfs(plain, self.pws[i % len(self.pws)], [k, after])
            if not died:
                res = self.adm('clear', self.w.url, stdin=['yes'])
                check(res.code == 0, 'clear fails with %r (%s)', res.code, res.exc)
                check(not self.objects(), 'objects left by clear: %s', sorted(self.objects()))
            elif 's3ql_params' in self.objects():
                # the file system is there
                res = self.adm('clear', self.w.url, stdin=['yes'])
                check(res.code == 0, 'clear fails with %r (%s)', res.code, res.exc)
                check(not self.objects(), 'objects left by clear: %s', sorted(self.objects()))
            else:
                self.info.label('mkfs interrupted')
        if case['first'] and case['seed'] % 4 == 0:
            # a file system without passphrase
            self.info.label('plain')
            self.info.nontrivial = True
            self.mkfs(True, '')
            self.write([o for op in case['ops'] if op[0] == 'write' for o in op[1]])
            res = self.adm('passphrase', self.w.url, stdin=['x'])
            check(res.code != 0, 'sets a passphrase for an unencrypted file system')
            self.w.after_death()
            self.write([])
            return False
        self.current = self.pws[0]
        res, _ = self.mkfs(False, self.current)
        m = re.search(r'---BEGIN MASTER KEY---\n(.*)\n---END MASTER KEY---', res.stdout)
        check(m, 'mkfs does not print the master key')
        self.key = m.group(1)
        groups = self.key.split(' ')
        check(len(groups) == 11 and all(len(g) == 4 for g in groups), 'master key %r', self.key)
        return True

    def mount(self, driver):
        from s3ql import mount

        return self.cli(mount.main, '--fg', '--log', 'none', '--compress', self.w.compress, '--metadata-backup-interval', '0',
                        '--max-threads', '1', self.w.url, self.w.mnt, pw=self.current, driver=driver)  # fmt: skip

    def write(self, ops):
        async def driver(fsops):
            await self.drv.start(fsops)
            for op in ops:
                await self.drv.step(op)
            await self.drv.walk()
            await self.drv.finish_session()
            return True

        res = self.mount(driver)
        if res.exc is not None and not res.mounted:
            check(False, 'cannot be mounted: %r (%s)', res.code, res.exc)
        if res.exc is not None:
            raise res.exc
        check(res.code == 0 and res.driver, 'mount/unmount fails with %r', res.code)
        env.vtime.advance(100)

    # -- steps

    def other_objects(self):
        return {k: v for k, v in self.objects().items() if k not in KEYS}

    def usable(self):
        return not self.broken and not self.wrong_key

    def settle(self, old, new):
        '''After an interrupted attempt one of both passphrases works'''
        ok = [p for p in {old, new} - {None} if self.opens(p).code == 0]
        if not ok and old is None:
            return False
        check(len(ok) == 1, 'after an interrupted change %d of the two passphrases work', len(ok))
        self.current = ok[0]
        self.info.label('interrupted: ' + ('old' if ok[0] == old else 'new'))
        return True

    def op_change(self, old, i, stdin, crash):
        new = self.pws[i % len(self.pws)]
        cand = self.current
        if old == 'wrong':
            cand = [p for p in [*self.pws, *variants(self.pws), 'q', 'qq', 'qqq'] if p.rstrip() != self.current][i % 3]
            if '\n' in cand or '\r' in cand:
                return
        before = self.objects()
        other = self.other_objects()

        def run():
            # passphrases are read up to the end of the line
            return self.adm('passphrase', self.w.url, pw=cand, stdin=[new + ' ' * (i % 3)])

        res, died = self.interrupted(crash, run)
        check(self.other_objects() == other, 'the passphrase change modified the data')
        if old == 'wrong' or not self.usable():
            if self.wrong_key and old == 'right':
                # the stored key is not that of the data, but can be opened
                if not died:
                    self.current = new
                else:
                    self.wrong_key = True
                    self.broken = True  # either of both
                return
            check(res.code != 0 and not died, 'the passphrase is changed without knowing the previous one')
            check(self.objects() == before, 'a refused change modified the keys')
            check(self.broken or res.code == 17, 'a wrong passphrase gives exit code %r (%s)', res.code, res.exc)
            self.w.after_death()
            self.info.label('refused')
            return
        if died:
            if new != self.current:
                self.settle(self.current, new)
            return
        check(res.code == 0, 'passphrase fails with %r (%s)', res.code, res.exc)
        self.current = new
        self.info.label('changed')
        self.info.nontrivial = True

    def op_recover(self, kind, i, fmt, crash):
        new = self.pws[i % len(self.pws)]
        key = self.key
        if kind == 'other':
            key = 'AAAA' + key[4:] if not key.startswith('AAAA') else 'BBBB' + key[4:]
        text = [key, key.replace(' ', ''), key.replace(' ', '\t'), '  ' + key + ' ', key.replace(' ', '  '), key + '\r'][fmt % 6]
        if kind == 'malformed':
            flat = key.replace(' ', '')
            text = ['', key[:-1], flat[4:], 'ä' + flat[1:], '*' * 44, '=' * 44, flat[:-2]][fmt % 7]
        before = self.objects()
        other = self.other_objects()

        def run():
            return self.adm('recover-key', self.w.url, stdin=[text, new])

        res, died = self.interrupted(crash, run)
        check(self.other_objects() == other, 'recovering the key modified the data')
        if kind == 'malformed':
            check(not died and res.code != 0 and not tb(res), 'malformed master key %r: %r (%s)', text, res.code, res.exc)
            check(self.objects() == before, 'a malformed master key replaces the stored key')
            self.info.label('malformed key')
            return
        if kind == 'other':
            if self.objects() != before:
                self.wrong_key = True
                self.broken = died
                if not died:
                    self.current = new
            return
        if died:
            if self.usable() and new != self.current:
                self.settle(self.current, new)
            elif not self.usable():
                if self.opens(new).code == 0:
                    self.broken = self.wrong_key = False
                    self.current = new
            return
        check(res.code == 0, 'recover-key fails with %r (%s)', res.code, res.exc)
        if not self.usable():
            self.info.label('recovered')
        self.info.nontrivial = True
        self.broken = self.wrong_key = False
        self.current = new

    def op_damage(self, mask, how, arg):
        if not self.broken:
            self.good = self.objects().get(KEYS[0])
        for i, k in enumerate(KEYS):
            if mask & (1 << i) and self.mangle(k, how, arg) and i == 0 and self.good is not None:
                # (damaging it again may restore it)
                self.broken = self.objects().get(k) != self.good
        self.info.label('damage')
        if self.broken:
            self.info.label('key damaged')

    def op_probe(self):
        if self.usable():
            res = self.opens(self.current)
            check(res.code == 0, 'the passphrase that was set last is refused: %r (%s)', res.code, res.exc)
        seen = {self.current if self.usable() else None}
        for p in [*self.pws, *variants(self.pws)]:
            p = p.rstrip()
            if p in seen or '\n' in p or '\r' in p:
                continue
            seen.add(p)
            if len(seen) > 9:
                break
            res = self.opens(p)
            check(res.code != 0, 'the file system can be opened with another passphrase')
            if self.usable():
                check(res.code == 17, 'a wrong passphrase gives exit code %r (%s)', res.code, res.exc)
        self.info.label('probe')

    def op_write(self, ops):
        if self.usable():
            self.write(ops)

    def op_fsck(self):
        if not self.usable():
            return
        from s3ql import fsck

        res = self.cli(fsck.main, '--log', 'none', '--batch', '--force', self.w.url, pw=self.current)
        check(res.code == 0, 'fsck finds errors: %r (%s)', res.code, res.exc)

    def finish(self):
        if not self.usable():
            self.op_recover('right', 1, 0, None)
        self.op_probe()
        self.w.drop_cachedir()
        self.write([])
        self.op_fsck()
        # the master key as printed at creation recovers access when everything else is gone
        self.op_damage(15, 0 if not self.net else 1, 0)
        self.op_recover('right', 0, 1, None)
        self.w.drop_cachedir()
        self.write([])


def tb(res):
    '''Whether the command ended with a traceback'''
    from s3ql.logging import QuietError

    return res.exc is not None and not isinstance(res.exc, (QuietError, SystemExit))


class LocalWorld(World):
    # without mkfs
    pass


def run(case, info):
    import contextlib

    with env.Scratch() as root:
        s = Story(root, case, info)
        with s.w.online() if s.net else contextlib.nullcontext():
            if not s.start():
                return
            if s.net:
                info.label('net')
                s.srv.plan = [list(f) for f in case['faults']]
                s.srv.armed = True
            for op in case['ops']:
                getattr(s, 'op_' + op[0])(*op[1:])
            if s.net:
                s.srv.armed = False
            s.finish()
            if s.net:
                check(not s.srv.problems, 'protocol: %s', s.srv.problems[:2])


PROPERTY = Property(
    'C22',
    'the passphrase was changed or the key recovered at least once (or an unencrypted file system was created '
    'over the remains of an interrupted mkfs)',
    [Part('history', strategy, run, quick=35, thorough=2500, cpu_limit=60)],
    assumptions=['the process dies between two uploads, which are atomic (C14 is about those)'],
)
TECHNIQUE = (
    'Model-based property-based testing: generated sequences of passphrase changes, recoveries, damage and interruptions '
    'with a model of which passphrase opens the file system'
)
NOTE = 'Trusts the crash model at the granularity of uploads.'
