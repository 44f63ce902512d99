"""Builds the Cython extensions of /repo's *current* tree outside /repo.

No product of /opt/vp/build.sh is used: the .pyx/.pxd files are copied to a
scratch directory, compiled there and loaded through a meta-path finder, while
every Python module is imported from /repo itself.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CACHE = os.path.join(VERIF, '.build')

VARIANTS = {
    # the build the project ships
    'plain': dict(cflags=['-O3', '-march=native', '-fno-fast-math']),
    # address + undefined sanitizers
    'asan': dict(cflags=['-O1', '-g', '-fno-omit-frame-pointer', '-fno-fast-math',
                         '-fsanitize=address,undefined', '-fno-sanitize=alignment',
                         '-fno-sanitize-recover=undefined'],
                 ldflags=['-fsanitize=address,undefined']),
    # Cython's own index monitor: every boundscheck(False)/wraparound(False) flipped
    'bounds': dict(cflags=['-O1', '-fno-fast-math'], flip=True),
}


class BuildError(Exception):
    pass


def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'build', '__pycache__'))
        for f in sorted(files):
            if f.endswith(('.pyx', '.pxd', '.pxi')) or f in ('__init__.py',):
                out.append(os.path.relpath(os.path.join(root, f), REPO))
    return out


def tree_hash(variant):
    h = hashlib.sha256()
    h.update(repr((sys.version, variant, VARIANTS[variant])).encode())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    for s in sources():
        h.update(s.encode())
        with open(os.path.join(REPO, s), 'rb') as fh:
            h.update(fh.read())
    h.update(subprocess.run(['gcc', '-march=native', '-Q', '--help=target'],
                            capture_output=True).stdout)
    return h.hexdigest()[:24]


def build(variant='plain'):
    """Returns {module name: path of the .so} for the current tree."""
    d = os.path.join(CACHE, variant + '-' + tree_hash(variant))
    if os.path.exists(os.path.join(d, 'OK')):
        return _modules(d)
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='b-', dir=CACHE)
    try:
        _build_in(tmp, variant)
        open(os.path.join(tmp, 'OK'), 'w').close()
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(os.path.join(d, 'OK')):
                raise
    finally:
        if os.path.isdir(tmp):
            shutil.rmtree(tmp)
    _prune(keep=d, variant=variant)
    return _modules(d)


def _prune(keep, variant):
    olds = [os.path.join(CACHE, x) for x in os.listdir(CACHE)
            if x.startswith(variant + '-') and os.path.join(CACHE, x) != keep]
    olds.sort(key=os.path.getmtime)
    for o in olds[:-4]:
        shutil.rmtree(o, ignore_errors=True)


def _modules(d):
    suf = sysconfig.get_config_var('EXT_SUFFIX')
    mods = {}
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith(suf):
                rel = os.path.relpath(os.path.join(root, f), d)[:-len(suf)]
                mods[rel.replace(os.sep, '.')] = os.path.join(root, f)
    return mods


def _build_in(tmp, variant):
    v = VARIANTS[variant]
    pyx = []
    for s in sources():
        dst = os.path.join(tmp, s)
        os.makedirs(os.path.dirname(dst) or tmp, exist_ok=True)
        with open(os.path.join(REPO, s), encoding='utf-8') as fh:
            text = fh.read()
        if v.get('flip') and s.endswith('.pyx'):
            text = re.sub(r'\b(boundscheck|wraparound|initializedcheck|nonecheck)\s*(\(|=)\s*(True|False)',
                          lambda m: '%s%s%s' % (m.group(1), m.group(2),
                                                'True' if m.group(1) != 'wraparound' else 'False'), text)
        with open(dst, 'w', encoding='utf-8') as fh:
            fh.write(text)
        if s.endswith('.pyx'):
            pyx.append(s)
    import numpy
    inc = [numpy.get_include(), sysconfig.get_path('include')]
    suf = sysconfig.get_config_var('EXT_SUFFIX')
    procs = []
    for s in pyx:
        base = s[:-4]
        mod = base.replace(os.sep, '.')
        py = sys.executable
        extra = []
        if v.get('flip'):
            # `wraparound=False` keeps the fast path but reports negative indices as errors
            extra = ['-X', 'boundscheck=True']
        cy = ' '.join([py, '-W', 'ignore', '-m', 'cython', '-I', tmp, '--module-name', mod] + extra +
                      [s, '-o', base + '.c'])
        cc = ' '.join(['gcc', '-shared', '-fPIC', '-w'] + v['cflags'] + v.get('ldflags', []) +
                      ['-I' + i for i in inc] + [base + '.c', '-o', base + suf, '-lm'])
        procs.append((s, subprocess.Popen(['sh', '-c', cy + ' && ' + cc], cwd=tmp,
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                          env={**os.environ, 'LD_PRELOAD': ''})))
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError('%s: %s' % (s, out.decode(errors='replace')[-3000:]))


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, mods):
        self.mods = mods

    def find_spec(self, name, path=None, target=None):
        so = self.mods.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install(variant='plain'):
    """Builds, then makes `import funpy` use /repo's Python plus the fresh extensions."""
    mods = build(variant)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(mods))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return mods


def assert_fresh(mods):
    for m, so in mods.items():
        got = getattr(sys.modules.get(m), '__file__', None)
        if got is not None and os.path.realpath(got) != os.path.realpath(so):
            raise BuildError('%s was loaded from %s' % (m, got))
    import funpy
    if not os.path.realpath(funpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise BuildError('funpy was loaded from %s' % funpy.__file__)
