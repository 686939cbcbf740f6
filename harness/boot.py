'''Make the code under test importable.

* the Python sources always come from /repo's working tree (src/ first on sys.path);
* the two native extensions are used in place if the build stamp shows that they were
  built from the sources that are in the tree now, otherwise they are compiled into a
  scratch directory and loaded from there (nothing in /repo is written);
* hypothesis comes from the verification venv, appended at the END of sys.path so that it
  can never shadow a dependency of s3ql.
'''

import glob
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'src')
HYPO = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
NATIVE = {
    's3ql._linked_dict': ('_linked_dict.py', False),
    's3ql.sqlite3ext': ('sqlite3ext.pyx', True),
}


def _sha(path):
    with open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _so_for(name):
    base = name.split('.')[-1]
    hits = glob.glob(os.path.join(SRC, 's3ql', base + '.cpython-312*.so'))
    return hits[0] if hits else None


def stale_extensions():
    '''Names of the extensions whose built file does not match the sources in the tree'''
    stamp = {}
    try:
        with open(os.path.join(REPO, 'build', '.vp-stamp')) as fh:
            for line in fh:
                parts = line.split()
                if len(parts) == 2 and len(parts[0]) == 64:
                    stamp[parts[1]] = parts[0]
    except OSError:
        pass
    bad = []
    for name, files in (
        ('s3ql._linked_dict', ['_linked_dict.py']),
        ('s3ql.sqlite3ext', ['sqlite3ext.pyx', '_sqlite3ext.cpp']),
    ):
        so = _so_for(name)
        if so is None:
            bad.append(name)
            continue
        for p in [os.path.join(SRC, 's3ql', f) for f in files] + [so]:
            rel = os.path.relpath(p, REPO)
            if stamp.get(rel) != _sha(p):
                bad.append(name)
                break
    return bad


def build_extensions(names, dest):
    '''Compile the named extensions from the working tree into *dest*'''
    os.makedirs(dest, exist_ok=True)
    work = os.path.join(dest, 'src', 's3ql')
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(os.path.join(SRC, 's3ql')):
        p = os.path.join(SRC, 's3ql', f)
        if os.path.isfile(p) and (
            f.endswith(('.pyx', '.pxd', '.pxi', '.h', '.hpp'))
            or f in ('_linked_dict.py', '_sqlite3ext.cpp', '__init__.py')
        ):
            shutil.copy(p, work)
    inc = sysconfig.get_paths()['include']
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    res = {}
    for name in names:
        src, cplus = NATIVE[name]
        base = name.split('.')[-1]
        out_c = os.path.join(work, base + ('.cpp' if cplus else '.c'))
        cmd = [sys.executable, '-m', 'cython', '-3', '--module-name', name, '-o', out_c]
        if cplus:
            cmd.append('--cplus')
        cmd.append(os.path.join(work, src))
        subprocess.run(cmd, check=True, cwd=os.path.dirname(work), stdout=subprocess.DEVNULL)
        so = os.path.join(dest, base + suffix)
        subprocess.run(
            ['g++' if cplus else 'gcc', '-O2', '-fPIC', '-shared', '-w', '-fno-strict-overflow',
             '-I', inc, '-I', work, out_c, '-o', so],
            check=True, cwd=work,
        )  # fmt: skip
        res[name] = so
    shutil.rmtree(os.path.join(dest, 'src'))
    return res


def setup(ext_dir=None):
    '''Prepare sys.path and load extensions; *ext_dir* holds freshly built ones (or is None)'''
    sys.dont_write_bytecode = True
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if HYPO not in sys.path:
        sys.path.append(HYPO)
    if ext_dir:
        import s3ql

        for name in NATIVE:
            base = name.split('.')[-1]
            hits = glob.glob(os.path.join(ext_dir, base + '.cpython-312*.so'))
            if not hits:
                continue
            spec = importlib.util.spec_from_file_location(name, hits[0])
            mod = importlib.util.module_from_spec(spec)
            sys.modules[name] = mod
            spec.loader.exec_module(mod)
            setattr(s3ql, base, mod)
    import s3ql

    if not os.path.abspath(s3ql.__file__).startswith(SRC):
        raise RuntimeError('s3ql imported from %s' % s3ql.__file__)
